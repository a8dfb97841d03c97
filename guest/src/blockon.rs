use crate::h::*;
use crate::kernel::*;
use crate::v;
use async_io::Timer;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::*;
use std::time::{Duration, Instant};

struct Slot {
    set: AtomicBool,
    waker: Mutex<Option<Waker>>,
}
impl Slot {
    fn new() -> Arc<Slot> {
        Arc::new(Slot { set: AtomicBool::new(false), waker: Mutex::new(None) })
    }
    fn fire(&self) {
        self.set.store(true, Ordering::SeqCst);
        let w = self.waker.lock().unwrap().take();
        if let Some(w) = w {
            w.wake();
        }
    }
}
struct Wait(Arc<Slot>);
impl Future for Wait {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        *self.0.waker.lock().unwrap() = Some(cx.waker().clone());
        if self.0.set.load(Ordering::SeqCst) {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}

/// B01: a wake from another thread is never lost, wherever block_on is at that moment.
#[no_mangle]
pub extern "C" fn h_block_wake() {
    time_mode();
    let timer = v::param("timer", 0) == 1;
    // nothing takes time: only if the wake-up were lost would the timer come first
    let m = tadd(tadd(BASE, (0, 1)), dur("t"));
    v::threads(v::param("preempt", 2));
    let s = Slot::new();
    let s2 = s.clone();
    let who = v::param("who", 0);
    let t = std::thread::spawn(move || match who {
        0 => s2.fire(),
        // the waking thread is itself in block_on, after a wake-up
        1 => async_io::block_on(async move {
            futures_lite::future::yield_now().await;
            s2.fire();
        }),
        // .. or was, and waited for a timer there
        _ => {
            async_io::block_on(async {
                futures_lite::future::yield_now().await;
                Timer::at(inst(BASE)).await;
            });
            s2.fire();
        }
    });
    let x = v::sym("x", 64);
    let mut polls = 0u32;
    let mut f = Wait(s.clone());
    let mut tm = if timer { Timer::at(inst(m)) } else { Timer::never() };
    let y = async_io::block_on(futures_lite::future::poll_fn(|cx| {
        polls += 1;
        if timer && Pin::new(&mut tm).poll(cx).is_ready() {
            v::check(tle(m, now()), "a timer completed before its deadline");
            v::check(false, "block_on slept although its future had been woken");
        }
        match Pin::new(&mut f).poll(cx) {
            Poll::Ready(()) => Poll::Ready(x),
            Poll::Pending => Poll::Pending,
        }
    }));
    v::check(y == x, "block_on returned something else than the future");
    v::check(polls <= 2, "block_on polls its future more often than it was woken");
    v::check(tlt(now(), m), "block_on slept although its future had been woken");
    v::cover("returned");
    let _ = t;
}

/// A timer completed: not early, and late by at most `slack` although nothing takes time.
fn at_deadline(m: T, slack: T) {
    let n = now();
    v::check(tle(m, n), "a timer completed before its deadline");
    v::check(tle(n, tadd(m, slack)), "a timer completed much later than its deadline although every thread was idle");
}
/// The fallback thread may sleep this long while a block_on is active.
fn slack() -> T {
    (0, v::param("slack", 25_000_000) as u32)
}

/// T06: threads with timers in block_on; nothing takes time.
#[no_mangle]
pub extern "C" fn h_block_timers() {
    time_mode();
    let n = v::param("threads", 2) as usize;
    let ms: [T; 3] = [tadd(BASE, dur("t")), tadd(BASE, dur("t")), tadd(BASE, dur("t"))];
    v::threads(v::param("preempt", 1));
    let mut hs = vec![];
    for i in 1..n {
        let m = ms[i];
        hs.push(std::thread::spawn(move || {
            async_io::block_on(Timer::at(inst(m)));
            at_deadline(m, slack());
        }));
    }
    async_io::block_on(Timer::at(inst(ms[0])));
    at_deadline(ms[0], slack());
    v::cover("first");
    for h in hs {
        let _ = h.join();
    }
    v::cover("all");
}

/// Wakes the thread it was made on.
struct Unpark(std::thread::Thread);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark();
    }
}
/// Like the block_on of another runtime: no part in driving the reactor.
fn foreign<F: Future + Unpin>(mut f: F) -> F::Output {
    let w = Waker::from(Arc::new(Unpark(std::thread::current())));
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(x) = Pin::new(&mut f).poll(&mut cx) {
            return x;
        }
        std::thread::park();
    }
}

/// B03: timers (and readiness) complete although no thread is in block_on.
#[no_mangle]
pub extern "C" fn h_foreign() {
    time_mode();
    let n = v::param("threads", 1) as usize;
    let ms: [T; 3] = [tadd(BASE, dur("t")), tadd(BASE, dur("t")), tadd(BASE, dur("t"))];
    v::threads(v::param("preempt", 1));
    let pre = v::param("pre", 0);
    if pre == 1 {
        // a block_on was active for a while
        async_io::block_on(Timer::at(inst(ms[2])));
        v::cover("block_on before");
    } else if pre == 2 {
        react0();
    } else if pre == 3 {
        // .. which ended with a panic, in the first poll or later
        let m = ms[2];
        let later = v::flip("later");
        let r = std::panic::catch_unwind(move || {
            async_io::block_on(async move {
                if later {
                    Timer::at(inst(m)).await;
                }
                std::panic::panic_any(5u32);
            })
        });
        v::check(r.is_err(), "block_on swallowed the panic of the future");
        v::cover("panicked");
    } else if pre == 4 {
        // nested
        let m = ms[2];
        async_io::block_on(async {
            async_io::block_on(Timer::at(inst(m)));
            futures_lite::future::yield_now().await;
        });
        v::cover("nested");
    }
    let mut hs = vec![];
    let busy = Arc::new(AtomicBool::new(true));
    let mut nap = None;
    if pre == 5 {
        // a block_on that drives the reactor for a while and then is busy in its future until the
        // end
        let m = tadd(ms[2], (0, 1));
        let b = busy.clone();
        let h = std::thread::spawn(move || {
            async_io::block_on(async move {
                Timer::at(inst(m)).await;
                while b.load(Ordering::SeqCst) {
                    std::thread::park();
                }
            })
        });
        nap = Some(h.thread().clone());
        hs.push(h);
    }
    for i in 1..n {
        let m = ms[i];
        hs.push(std::thread::spawn(move || {
            foreign(Timer::at(inst(m)));
            late(m);
        }));
    }
    let begin = now();
    let m = ms[0];
    foreign(Timer::at(inst(m)));
    let n = now();
    v::check(tle(m, n), "a timer completed before its deadline");
    if pre == 5 {
        // (the fallback thread naps for up to 10 ms while there is a block_on)
        v::check(tle(n, tadd(m, slack())), "a timer completed much later than its deadline although every thread was idle");
        busy.store(false, Ordering::SeqCst);
        nap.unwrap().unpark();
    } else {
        v::check(tle(n, m) | teq(n, begin), "a timer completed later than its deadline although every thread was idle and no block_on was active");
    }
    v::cover("first");
    for h in hs {
        let _ = h.join();
    }
    v::cover("all");
}
/// T04: a timer made while the reactor sleeps, and with the bookkeeping full of removals.
#[no_mangle]
pub extern "C" fn h_full_asleep() {
    time_mode();
    let m = tadd(BASE, dur("t"));
    let far = inst(tadd(BASE, (5, 0)));
    v::threads(v::param("preempt", 0));
    let mut many = vec![];
    for _ in 0..1001 {
        many.push(Timer::at(far));
    }
    // (each of them is known to the reactor once the fallback thread got to run)
    for t in many.iter_mut() {
        let _ = poll(t, 1);
    }
    let first = inst(tadd(BASE, (0, 5)));
    foreign(Timer::at(first));
    let n = v::choice("given up", v::param("near", 3)) as usize;
    many.truncate(n);
    // .. which sleeps again
    let begin = now();
    foreign(Timer::at(inst(m)));
    let n = now();
    v::check(tle(m, n), "a timer completed before its deadline");
    v::check(tle(n, m) | teq(n, begin), "a timer completed later than its deadline although every thread was idle and no block_on was active");
    v::cover("fired");
}
fn late(m: T) {
    let n = now();
    v::check(tle(m, n), "a timer completed before its deadline");
    v::check(tle(n, m) | !tlt(BASE, m), "a timer completed later than its deadline although every thread was idle and no block_on was active");
}

// ----- one thread -----
static mut POLLS: u32 = 0;
static mut WAKES: u32 = 0;
static mut WOKEN_AT: T = BASE;
struct Script {
    /// the waker of an earlier block_on on this thread
    stale: Option<Waker>,
    kept: Option<Waker>,
    left: u64,
    t: Timer,
    m: T,
    nested: bool,
    early: bool,
    panic: bool,
}
impl Future for Script {
    type Output = Option<Waker>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Waker>> {
        unsafe {
            POLLS += 1;
            // (nothing takes time: only a thread that sleeps gets to another moment)
            v::check(WAKES + 1 < POLLS || POLLS == 1 || teq(WOKEN_AT, now()), "block_on slept although its future had been woken");
            WOKEN_AT = now();
        }
        if self.left > 0 && self.early {
            // the timer is known to the reactor all the time
            let _ = Pin::new(&mut self.t).poll(cx);
        }
        if self.left == 0 {
            return match Pin::new(&mut self.t).poll(cx) {
                Poll::Ready(_) => {
                    v::cover("timer");
                    Poll::Ready(self.kept.take())
                }
                Poll::Pending => {
                    v::check(!tle(self.m, now()), "a due timer is pending");
                    Poll::Pending
                }
            };
        }
        self.left -= 1;
        match v::choice("act", 5) {
            0 => {
                // it wakes itself
                cx.waker().wake_by_ref();
                unsafe { WAKES += 1 };
                v::cover("self-wake");
                Poll::Pending
            }
            1 => {
                // twice, and completes nevertheless
                cx.waker().wake_by_ref();
                cx.waker().wake_by_ref();
                v::cover("wake and complete");
                Poll::Ready(Some(cx.waker().clone()))
            }
            2 => {
                // the waker of an earlier block_on
                if let Some(w) = self.stale.take() {
                    v::cover("stale");
                    w.wake();
                    cx.waker().wake_by_ref();
                    unsafe { WAKES += 1 };
                    return Poll::Pending;
                }
                v::assume(false);
                Poll::Pending
            }
            3 => {
                // block_on inside of block_on
                if self.nested {
                    v::assume(false);
                }
                self.nested = true;
                v::cover("nested");
                let p = unsafe { (POLLS, WAKES) };
                let outer = cx.waker().clone();
                let both = v::flip("wakes outer");
                let ready = v::flip("at once");
                let mut n = 0u32;
                async_io::block_on(futures_lite::future::poll_fn(|c| {
                    n += 1;
                    v::check(!c.waker().will_wake(&outer), "a nested block_on uses the waker of the outer one");
                    if ready || n == 2 {
                        return Poll::Ready(());
                    }
                    if both {
                        outer.wake_by_ref();
                    }
                    c.waker().wake_by_ref();
                    Poll::Pending
                }));
                v::check(n == if ready { 1 } else { 2 }, "a nested block_on polls its future more often than it was woken");
                unsafe {
                    POLLS = p.0;
                    WAKES = p.1;
                }
                if both && !ready {
                    // the outer one was woken meanwhile
                    unsafe { WAKES += 1 };
                    return Poll::Pending;
                }
                cx.waker().wake_by_ref();
                unsafe { WAKES += 1 };
                Poll::Pending
            }
            _ => {
                if self.panic {
                    std::panic::panic_any(5u32);
                }
                self.left = 0;
                cx.waker().wake_by_ref();
                unsafe { WAKES += 1 };
                Poll::Pending
            }
        }
    }
}

/// B02: block_on returns what the future yields, polls it once and then once for each time it was
/// woken, and no notification of an earlier block_on gets into a later one.
#[no_mangle]
pub extern "C" fn h_block_polls() {
    time_mode();
    let n = v::param("calls", 2);
    let mut stale = None;
    for _ in 0..n {
        unsafe {
            POLLS = 0;
            WAKES = 0;
        }
        let m = tadd(now(), tadd((0, 1), dur("t")));
        let f = Script { stale, kept: None, left: v::param("acts", 2), t: Timer::at(inst(m)), m, nested: v::param("nest", 1) == 0, panic: v::param("panic", 0) == 1, early: v::flip("registered") };
        let w0 = k().waits;
        if v::param("panic", 0) == 1 {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| async_io::block_on(f)));
            match r {
                Ok(x) => stale = x,
                Err(p) => {
                    v::cover("panicked");
                    v::check(p.downcast_ref::<u32>() == Some(&5), "block_on changed the panic of the future");
                    stale = None;
                }
            }
        } else {
            stale = async_io::block_on(f);
        }
        let p = unsafe { POLLS };
        // (the timer wakes once)
        v::check(p <= 1 + unsafe { WAKES } + 1, "block_on polls its future more often than it was woken");
        v::check(k().waits - w0 <= p + 2, "block_on looks for events more often than it polls its future");
    }
    v::cover("all");
    // value
    let x = v::sym("x", 32);
    let y = async_io::block_on(async {
        futures_lite::future::yield_now().await;
        x
    });
    v::check(x == y, "block_on returned something else than the future");
    // a wake after the end is not an event of the next one
    if let Some(w) = stale {
        let mut polls = 0;
        let m = tadd(now(), (0, 5));
        let mut t = Timer::at(inst(m));
        let early = v::flip("before");
        if early {
            w.wake_by_ref();
        }
        async_io::block_on(futures_lite::future::poll_fn(|cx| {
            polls += 1;
            Pin::new(&mut t).poll(cx)
        }));
        v::check(polls <= 2 + early as u32, "block_on polls its future more often than it was woken");
        v::check(tle(m, now()), "a timer completed before its deadline");
    }
}

static mut MOST: u32 = 0;
/// R01: while nothing happens the reactor sleeps: it looks for events a bounded number of times,
/// whatever the deadlines are.
#[no_mangle]
pub extern "C" fn h_idle() {
    time_mode();
    let mode = v::param("mode", 0);
    let n = v::param("timers", 2) as usize;
    if mode == 1 {
        v::threads(0);
    }
    let mut ms = vec![];
    for _ in 0..n {
        ms.push(tadd(BASE, dur("t")));
    }
    let mut ts: Vec<Timer> = ms.iter().map(|m| Timer::at(inst(*m))).collect();
    let mut polls = 0;
    let mut left = n;
    let mut done = vec![false; n];
    // a source nobody waits for is ready all the time
    let src = async_io::Async::new(crate::io::E::new()).unwrap();
    set_ready(src.get_ref().raw(), true, true);
    if v::flip("waited before") {
        // somebody waited, and gave up
        let mut f = src.readable();
        let _ = poll(&mut f, 3);
    }
    // another one is ready for reading only, and somebody waits to write
    let half = async_io::Async::new(crate::io::E::new()).unwrap();
    let mut g = half.writable();
    if v::flip("half") {
        set_ready(half.get_ref().raw(), true, false);
        let mut f = half.readable();
        let _ = poll(&mut f, 3);
        let _ = poll(&mut g, 4);
    }
    let w0 = k().waits;
    let most = v::param("waits", 2) as u32 * n as u32 + 3;
    unsafe { MOST = w0 + most };
    // (told at once: there may be millions of rounds until the next deadline)
    k().on_wait = Some(|| v::check(k().waits <= unsafe { MOST }, "the reactor looks for events again and again although nothing happens"));
    let all = futures_lite::future::poll_fn(|cx| {
        polls += 1;
        for i in 0..n {
            if !done[i] {
                match Pin::new(&mut ts[i]).poll(cx) {
                    Poll::Ready(_) => {
                        v::check(tle(ms[i], now()), "a timer completed before its deadline");
                        done[i] = true;
                        left -= 1;
                    }
                    Poll::Pending => v::check(!tle(ms[i], now()), "a due timer is pending"),
                }
            }
        }
        if left == 0 {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    });
    if mode == 0 {
        async_io::block_on(all);
    } else {
        foreign(Box::pin(all));
    }
    v::cover("done");
    let w = k().waits - w0;
    v::check(polls <= n + 1, "a task with timers is polled more often than they fire");
    v::check(w <= most, "the reactor looks for events again and again although nothing happens");
    let mut last = ms[0];
    for m in &ms {
        if tlt(last, *m) {
            last = *m;
        }
    }
    v::check(mode != 0 || tle(now(), last) | tle(last, BASE), "the last timer completed late although the thread was idle");
}

/// B02, T06: block_on handles the timers of other tasks; nothing takes time.
#[no_mangle]
pub extern "C" fn h_block_others() {
    time_mode();
    let n = v::param("others", 2) as usize;
    let m = tadd(BASE, dur("t"));
    let ms = [tadd(BASE, dur("t")), tadd(BASE, dur("t")), tadd(BASE, dur("t"))];
    v::threads(v::param("preempt", 0));
    let mut ts: Vec<Timer> = vec![];
    for i in 0..n {
        let mut t = Timer::at(inst(ms[i]));
        if poll(&mut t, i).is_ready() {
            // (the clock is there already)
            v::assume(false);
        }
        ts.push(t);
    }
    let mut own = Timer::at(inst(m));
    let mut polls = 0u32;
    let x = v::sym("x", 64);
    let y = async_io::block_on(futures_lite::future::poll_fn(|cx| {
        polls += 1;
        match Pin::new(&mut own).poll(cx) {
            Poll::Ready(_) => Poll::Ready(x),
            Poll::Pending => Poll::Pending,
        }
    }));
    v::check(y == x, "block_on returned something else than the future");
    v::check(polls <= 2, "block_on polls its future more often than it was woken");
    at_deadline(m, slack());
    let now = now();
    for i in 0..n {
        // another thread may be at it
        v::check((woken(i) > 0) | tle(now, tadd(ms[i], slack())), "a due timer of another task did not wake it during block_on");
        v::check((woken(i) == 0) | tle(ms[i], now), "a timer of another task woke it early");
        v::check(woken(i) <= 1, "a timer woke its task more than once");
        if woken(i) > 0 {
            v::cover("other");
        }
    }
    v::cover("all");
}
