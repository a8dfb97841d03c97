From be55321cdf742aabebb39a0c4a4127c71b369dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 1/7] fix: resetting a timer that was polled while it was not
 set wakes its task

Polling a Timer that will not fire (Timer::never(), a timer that has fired, or
one that overflowed) returned Pending without keeping the waker, so the task
was never woken after set_at(), set_after() or set_interval() had set the timer,
although these do not remove the waker of the task polling the timer.
---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f771098..0f9ffef 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -513,6 +513,10 @@ impl Stream for Timer {
                     Some(_) => {}
                 }
             }
+        } else if !matches!(&this.id_and_waker, Some((_, w)) if w.will_wake(cx.waker())) {
+            // The timer is not set, so there is nothing to register. Remember the waker, because
+            // resetting the timer has to register it.
+            this.id_and_waker = Some((0, cx.waker().clone()));
         }
 
         Poll::Pending
-- 
2.43.0


From d1939c4b3eefce899f7f450df4c28efb72640deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 2/7] fix: set_at() and set_after() make an interval timer fire
 once

They are documented to emit an event once, but kept the period of a timer that
was an interval before, which then went on firing periodically.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0f9ffef..39e22e6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -369,8 +369,9 @@ impl Timer {
     pub fn set_at(&mut self, instant: Instant) {
         self.clear();
 
-        // Update the timeout.
+        // Update the timeout. The timer is not periodic anymore.
         self.when = Some(instant);
+        self.period = Duration::MAX;
 
         if let Some((id, waker)) = self.id_and_waker.as_mut() {
             // Re-register the timer with the new timeout.
-- 
2.43.0


From 18331fd21d12585238d6a436ab298c788b81a0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 3/7] fix: an error while re-registering a source does not lose
 the wake-ups collected so far

---
 src/reactor.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 474c62a..6c0f3f2 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -308,6 +308,8 @@ impl ReactorLock<'_> {
 
             // At least one I/O event occurred.
             Ok(_) => {
+                let mut res = Ok(());
+
                 // Iterate over sources in the event list.
                 let sources = self.reactor.sources.lock().unwrap();
 
@@ -337,12 +339,20 @@ impl ReactorLock<'_> {
                             };
 
                             // Register interest in this event.
-                            source.registration.modify(&self.reactor.poller, event)?;
+                            if let Err(err) =
+                                source.registration.modify(&self.reactor.poller, event)
+                            {
+                                // No event will arrive for the remaining tasks, so let them
+                                // register interest again. The other sources are not affected.
+                                state[READ].drain_into(&mut wakers);
+                                state[WRITE].drain_into(&mut wakers);
+                                res = Err(err);
+                            }
                         }
                     }
                 }
 
-                Ok(())
+                res
             }
 
             // The syscall was interrupted.
-- 
2.43.0


From 9fc487445c1e6f9292f81be2b0dde634ce1d89f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 4/7] fix: a failed registration of interest does not keep
 later waits from registering

---
 src/reactor.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 6c0f3f2..d8f5f01 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -481,7 +481,13 @@ impl Source {
             };
 
             // Register interest in it.
-            self.registration.modify(&Reactor::get().poller, event)?;
+            if let Err(err) = self.registration.modify(&Reactor::get().poller, event) {
+                // Don't leave a waker behind, or else the next call would rely on this
+                // registration.
+                state[dir].waker = None;
+                state[dir].ticks = None;
+                return Poll::Ready(Err(err));
+            }
         }
 
         Poll::Pending
@@ -657,11 +663,16 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
             };
 
             // Indicate that we are interested in this event.
-            handle
+            if let Err(err) = handle
                 .borrow()
                 .source
                 .registration
-                .modify(&Reactor::get().poller, event)?;
+                .modify(&Reactor::get().poller, event)
+            {
+                // Don't leave a waker behind, or else others would rely on this registration.
+                state[*dir].wakers[i] = None;
+                return Poll::Ready(Err(err));
+            }
         }
 
         Poll::Pending
-- 
2.43.0


From b9e4faa2a5143c5de7e6c6fbdad0e3ebdd8eeb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 5/7] fix: poll_readable() and poll_writable() wake the
 replaced task after unlocking the source

---
 src/reactor.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index d8f5f01..815c77c 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -457,6 +457,7 @@ impl Source {
         }
 
         let was_empty = state[dir].is_empty();
+        let mut replaced = None;
 
         // Register the current task's waker.
         if let Some(w) = state[dir].waker.take() {
@@ -464,8 +465,7 @@ impl Source {
                 state[dir].waker = Some(w);
                 return Poll::Pending;
             }
-            // Wake the previous waker because it's going to get replaced.
-            panic::catch_unwind(|| w.wake()).ok();
+            replaced = Some(w);
         }
         state[dir].waker = Some(cx.waker().clone());
         state[dir].ticks = Some((Reactor::get().ticker(), state[dir].tick));
@@ -490,6 +490,13 @@ impl Source {
             }
         }
 
+        // Wake the previous waker because it has been replaced. The lock is dropped first because
+        // the waker may get back to this source.
+        drop(state);
+        if let Some(w) = replaced {
+            panic::catch_unwind(|| w.wake()).ok();
+        }
+
         Poll::Pending
     }
 
-- 
2.43.0


From a637b6e38e1f6ec0237488bd478b726914c42e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 6/7] fix: the wakers of waits are dropped after unlocking the
 source

---
 src/reactor.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 815c77c..f5edda0 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -657,7 +657,7 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
                 i
             }
         };
-        state[*dir].wakers[i] = Some(cx.waker().clone());
+        let previous = state[*dir].wakers[i].replace(cx.waker().clone());
 
         // Update interest in this I/O handle.
         if was_empty {
@@ -682,6 +682,10 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
             }
         }
 
+        // Dropping a waker may drop a task that uses this source, so unlock it first.
+        drop(state);
+        drop(previous);
+
         Poll::Pending
     }
 }
@@ -693,7 +697,11 @@ impl<H: Borrow<crate::Async<T>>, T> Drop for Ready<H, T> {
             let mut state = self.handle.borrow().source.state.lock().unwrap();
             let wakers = &mut state[self.dir].wakers;
             if wakers.contains(key) {
-                wakers.remove(key);
+                let waker = wakers.remove(key);
+
+                // Dropping a waker may drop a task that uses this source, so unlock it first.
+                drop(state);
+                drop(waker);
             }
         }
     }
-- 
2.43.0


From 8763a414d986346b92b0b806996ac4bffd724b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:04 +0000
Subject: [PATCH 7/7] fix: drop the wakers of removed timers without holding
 locks

The waker of a removed timer was dropped while the map of timers and the
reactor were locked. Dropping it may drop a task that owns timers; when the
queue of timer operations was full, that deadlocked. A panic there poisoned
both locks.
---
 src/reactor.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index f5edda0..e3ab42b 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -161,7 +161,9 @@ impl Reactor {
         {
             // If the queue is full, drain it and try again.
             let mut timers = self.timers.lock().unwrap();
-            self.process_timer_ops(&mut timers);
+            let removed = self.process_timer_ops(&mut timers);
+            drop(timers);
+            drop_wakers(removed);
         }
 
         // Notify that a timer has been inserted.
@@ -176,7 +178,9 @@ impl Reactor {
         while self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {
             // If the queue is full, drain it and try again.
             let mut timers = self.timers.lock().unwrap();
-            self.process_timer_ops(&mut timers);
+            let removed = self.process_timer_ops(&mut timers);
+            drop(timers);
+            drop_wakers(removed);
         }
     }
 
@@ -208,7 +212,7 @@ impl Reactor {
         let _enter = span.enter();
 
         let mut timers = self.timers.lock().unwrap();
-        self.process_timer_ops(&mut timers);
+        let removed = self.process_timer_ops(&mut timers);
 
         let now = Instant::now();
 
@@ -233,6 +237,7 @@ impl Reactor {
 
         // Drop the lock before waking.
         drop(timers);
+        drop_wakers(removed);
 
         // Add wakers to the list.
         tracing::trace!("{} ready wakers", ready.len());
@@ -245,7 +250,15 @@ impl Reactor {
     }
 
     /// Processes queued timer operations.
-    fn process_timer_ops(&self, timers: &mut MutexGuard<'_, BTreeMap<(Instant, usize), Waker>>) {
+    ///
+    /// Returns the wakers of removed timers, to be dropped when `timers` is unlocked because
+    /// dropping a waker may drop a task that owns timers.
+    fn process_timer_ops(
+        &self,
+        timers: &mut MutexGuard<'_, BTreeMap<(Instant, usize), Waker>>,
+    ) -> Vec<Waker> {
+        let mut removed = Vec::new();
+
         // Process only as much as fits into the queue, or else this loop could in theory run
         // forever.
         self.timer_ops
@@ -256,9 +269,19 @@ impl Reactor {
                     timers.insert((when, id), waker);
                 }
                 TimerOp::Remove(when, id) => {
-                    timers.remove(&(when, id));
+                    removed.extend(timers.remove(&(when, id)));
                 }
             });
+
+        removed
+    }
+}
+
+/// Drops the wakers of removed timers.
+fn drop_wakers(wakers: Vec<Waker>) {
+    for waker in wakers {
+        // Don't let a waker that panics blow up somebody else's operation.
+        panic::catch_unwind(|| drop(waker)).ok();
     }
 }
 
-- 
2.43.0

