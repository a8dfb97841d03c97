//! Several threads waiting for readiness.
use crate::h::*;
use crate::io::*;
use crate::kernel::*;
use crate::v;
use async_io::{Async, Timer};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::*;

/// Nothing takes time, so a task whose descriptor is ready goes on before the clock moves; only
/// the fallback thread may be asleep meanwhile.
fn soon(since: T) {
    let n = now();
    v::check(tle(n, tadd(since, (0, v::param("slack", 25_000_000) as u32))), "a task went on long after its descriptor was ready although every thread was idle");
}
static mut AT: [T; 4] = [(0, 0); 4];
fn make_ready(j: usize, i: usize, rd: bool, wr: bool) {
    unsafe { AT[j] = now() };
    set_ready(i, rd, wr);
}
fn wait(a: &Async<E>, read: bool) {
    let r = if read { async_io::block_on(a.readable()) } else { async_io::block_on(a.writable()) };
    v::check(r.is_ok(), "waiting for readiness failed without a reason");
    let x = &k().fds[a.get_ref().raw()];
    v::check(if read { x.rd } else { x.wr }, "reported ready although the descriptor is not");
}
struct Unpark(std::thread::Thread);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark();
    }
}
fn foreign<F: Future + Unpin>(mut f: F) -> F::Output {
    let w = Waker::from(Arc::new(Unpark(std::thread::current())));
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(x) = Pin::new(&mut f).poll(&mut cx) {
            return x;
        }
        std::thread::park();
    }
}

/// I03: whoever drives the reactor, every thread that waits goes on when its descriptor is ready.
#[no_mangle]
pub extern "C" fn h_block_io() {
    time_mode();
    let mode = v::param("mode", 0);
    // (the fallback thread takes part if it is made from here on)
    let p = v::param("preempt", 1);
    v::threads(p);
    let a = Arc::new(Async::new(E::new()).unwrap());
    let b = Arc::new(Async::new(E::new()).unwrap());
    let (ia, ib) = (a.get_ref().raw(), b.get_ref().raw());
    match mode {
        0 => {
            // one thread waits, the other side is another thread
            let t = std::thread::spawn(move || make_ready(0, ia, true, false));
            wait(&a, true);
            soon(unsafe { AT[0] });
            let _ = t.join();
        }
        1 => {
            // two threads wait for two sources; the other side is the main thread
            let (a2, b2) = (a.clone(), b.clone());
            let t = std::thread::spawn(move || {
                wait(&a2, true);
                soon(unsafe { AT[0] });
            });
            let u = std::thread::spawn(move || {
                wait(&b2, false);
                soon(unsafe { AT[1] });
            });
            if v::flip("order") {
                make_ready(0, ia, true, false);
                make_ready(1, ib, false, true);
            } else {
                make_ready(1, ib, false, true);
                make_ready(0, ia, true, false);
            }
            let _ = t.join();
            let _ = u.join();
        }
        2 => {
            // both directions of one source, one thread each; one makes the other ready
            let a2 = a.clone();
            let t = std::thread::spawn(move || {
                wait(&a2, false);
                make_ready(0, ia, true, true);
            });
            make_ready(1, ia, false, true);
            wait(&a, true);
            soon(unsafe { AT[0] });
            let _ = t.join();
        }
        3 => {
            // the executor of another runtime, and block_on
            let b2 = b.clone();
            let t = std::thread::spawn(move || {
                let _ = foreign(b2.readable());
                make_ready(0, ia, true, false);
            });
            make_ready(1, ib, true, false);
            wait(&a, true);
            soon(unsafe { AT[0] });
            let _ = t.join();
        }
        5 => {
            // the thread that drives the reactor gets an event of another task, possibly after a
            // while, and then its own
            let m = tadd(BASE, dur("t"));
            let t = std::thread::spawn(move || {
                foreign(Timer::at(inst(m)));
                let n = now();
                v::check(tle(m, n) & tle(n, tadd(m, (0, 25_000_000))), "a timer completed early or much later than its deadline although every thread was idle");
                make_ready(0, ia, true, false);
            });
            wait(&a, true);
            soon(unsafe { AT[0] });
            let _ = t.join();
        }
        _ => {
            // only executors of other runtimes
            let t = std::thread::spawn(move || make_ready(0, ia, true, false));
            let _ = foreign(a.readable());
            let n = now();
            v::check(teq(n, unsafe { AT[0] }), "a task went on after its descriptor was ready although every thread was idle and no block_on was active");
            let _ = t.join();
        }
    }
    v::cover("all");
}

// ----- waits that begin while the reactor is at work -----
static mut DELIVERED: [u32; NFD] = [0; NFD];
fn note() {
    // (on entry to epoll_wait: what the call before has delivered)
}
/// How often an event of this descriptor was returned by epoll_wait.
fn returned(i: usize, bit: u32) -> u32 {
    let mut n = 0;
    for j in 0..k().ntr {
        let t = k().tr[j];
        if t.op == Op::Deliver && t.fd as usize == i && t.a as u32 & (bit | HUP | ERR) != 0 {
            n += 1;
        }
    }
    n
}

/// I02, I07: a wait that another thread begins at any moment of a round of the reactor is not
/// completed by an event from before it began, and gets the next one.
#[no_mangle]
pub extern "C" fn h_io_race() {
    let mode = v::param("mode", 0);
    let a = Arc::new(Async::new(E::new()).unwrap());
    let i = a.get_ref().raw();
    react0();
    k().tracing = true;
    let (rd, wr, hup, err) = (v::sym_bool("rd"), v::sym_bool("wr"), v::sym_bool("hup"), v::sym_bool("err"));
    let x = &mut k().fds[i];
    x.rd = rd;
    x.wr = wr;
    x.hup = hup;
    x.err = err;
    let hit = (if mode & 1 == 0 { rd } else { wr }) | hup | err;
    // somebody waits already, so that the reactor finds events
    let mut f0: Pin<Box<dyn Future<Output = io::Result<()>>>> = Box::pin(a.clone().readable_owned());
    v::check(with_cx(0, |cx| f0.as_mut().poll(cx)).is_pending(), "ready at once");
    let stop = Arc::new(AtomicBool::new(false));
    v::threads(v::param("preempt", 2));
    let a2 = a.clone();
    let t = std::thread::spawn(move || {
        let wi = 1 + mode as usize;
        let mut f: Option<Pin<Box<dyn Future<Output = io::Result<()>>>>> = match mode {
            0 => Some(Box::pin(a2.clone().readable_owned())),
            1 => Some(Box::pin(a2.clone().writable_owned())),
            _ => None,
        };
        let mut p = || {
            with_cx(wi, |cx| match mode {
                2 => a2.poll_readable(cx),
                3 => a2.poll_writable(cx),
                _ => f.as_mut().unwrap().as_mut().poll(cx),
            })
        };
        let bit = if mode & 1 == 0 { IN } else { OUT };
        let n0 = returned(i, bit);
        let mut done = p().is_ready();
        v::check(!done, "ready at once");
        let mut seen = 0;
        for _ in 0..2 {
            if !done && woken(wi) != seen {
                seen = woken(wi);
                done = p().is_ready();
                if done {
                    v::cover("ready early");
                    v::check(returned(i, bit) > n0, "reported ready by an event from before the wait began");
                }
            }
            v::yield_();
        }
        if !done {
            v::cover("later");
            // (the reactor runs again, for this wait alone)
            for _ in 0..3 {
                react0();
                if woken(wi) != seen {
                    seen = woken(wi);
                    done = p().is_ready();
                    if done {
                        break;
                    }
                }
            }
        }
        v::check(done | !hit, "a wait that began while the reactor was at work is lost");
        v::check(!done | (returned(i, bit) > n0), "reported ready by an event from before the wait began");
    });
    react0();
    stop.store(true, Ordering::SeqCst);
    let _ = t.join();
    react0();
    react0();
    v::check((woken(0) > 0) | !(rd | hup | err), "the descriptor is ready but a task waiting for that was not woken");
    v::cover("all");
}

/// I07: the slot and the number of a descriptor that is given up while the reactor handles its event
/// are used again.
#[no_mangle]
pub extern "C" fn h_io_reuse() {
    let mode = v::param("mode", 0);
    let a = Async::new(E::new()).unwrap();
    let i = a.get_ref().raw();
    react0();
    let mut f0 = Box::pin(a.readable());
    v::check(poll(&mut f0, 0).is_pending(), "ready at once");
    // the readiness stays although nobody waits any more
    drop(f0);
    let x = &mut k().fds[i];
    x.rd = v::sym_bool("rd");
    x.wr = v::sym_bool("wr");
    x.hup = v::sym_bool("hup");
    x.err = v::sym_bool("err");
    v::threads(v::param("preempt", 2));
    // held by the thread that runs the reactor
    let busy = Arc::new(std::sync::Mutex::new(()));
    let b2 = busy.clone();
    let give_up = move || {
        if mode & 1 == 0 {
            drop(a);
        } else {
            let fd = std::os::fd::OwnedFd::from(a.into_inner().unwrap());
            std::mem::forget(fd);
        }
    };
    let wait = move || {
        let wi = 1;
        let e = E::new();
        let j = e.raw();
        let b = Async::new(e).unwrap();
        let mut f = b.readable();
        let mut done = poll(&mut f, wi).is_ready();
        let mut n = woken(wi);
        for _ in 0..2 {
            v::yield_();
            if woken(wi) != n {
                n = woken(wi);
                v::cover("woken");
                done |= poll(&mut f, wi).is_ready();
            }
        }
        v::check(!done, "an event of a source that was given up completed a wait of another one");
        set_ready(j, true, false);
        for _ in 0..3 {
            if mode >= 2 {
                let _g = b2.lock();
            }
            react0();
            if woken(wi) != n {
                n = woken(wi);
                done |= poll(&mut f, wi).is_ready();
            }
        }
        v::check(done, "the descriptor is ready but the wait is still pending");
        drop(f);
    };
    if mode < 2 {
        // by the same thread
        let t = std::thread::spawn(move || {
            give_up();
            wait();
        });
        react0();
        let _ = t.join();
    } else {
        // by another thread
        let t = std::thread::spawn(give_up);
        let u = std::thread::spawn(wait);
        {
            let _g = busy.lock();
            react0();
        }
        let _ = t.join();
        let _ = u.join();
    }
    v::cover("all");
}
