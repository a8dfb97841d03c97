//! Operations on timers and waits while another thread runs the reactor.
use crate::h::*;
use crate::io::*;
use crate::kernel::*;
use crate::timers::fill_queue;
use crate::v;
use async_io::{Async, Timer};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::Arc;
use std::task::*;

/// Polls again for every wake-up there was, as an executor would.
struct Task<F> {
    f: Option<F>,
    w: usize,
    seen: u32,
}
impl<F: Future + Unpin> Task<F> {
    /// Polls for the first time or after a wake-up; true once completed.
    fn go(&mut self) -> bool {
        if let Some(f) = &mut self.f {
            self.seen = woken(self.w);
            if poll(f, self.w).is_pending() {
                return false;
            }
            self.f = None;
        }
        true
    }
    fn again(&mut self) -> bool {
        if self.f.is_some() && woken(self.w) == self.seen {
            return false;
        }
        self.go()
    }
}

/// T02, T04, T05: a thread makes, resets, drops or polls timers while another one runs the reactor.
#[no_mangle]
pub extern "C" fn h_timer_race() {
    time_mode();
    let mode = v::param("mode", 0);
    let (m0, m1, m2) = (tadd(BASE, dur("t")), tadd(BASE, dur("t")), tadd(BASE, dur("t")));
    react0();
    let fill = v::param("fill", 0);
    if fill > 0 {
        fill_queue(fill);
    }
    let mut a = Timer::at(inst(m0));
    // one that stays as it is
    let mut c = Timer::at(inst(m2));
    let other = v::param("other", 1) == 1;
    v::assume(poll(&mut a, 0).is_pending());
    if other {
        v::assume(poll(&mut c, 2).is_pending());
    }
    if v::flip("queued") {
        // .. or known to the reactor already
        react0();
    }
    pass();
    let n1 = now();
    v::threads(v::param("preempt", 2));
    let t = std::thread::spawn(move || {
        let mut a = Some(a);
        let mut b = None;
        match mode {
            0 => {
                let mut t = Task { f: Some(Timer::at(inst(m1))), w: 1, seen: 0 };
                v::check(t.go() == tle(m1, n1), "a timer fired early or late");
                b = Some(t);
            }
            1 => a = None,
            2 => a.as_mut().unwrap().set_at(inst(m1)),
            3 => {
                if poll(a.as_mut().unwrap(), 3).is_ready() {
                    v::check(tle(m0, n1), "a timer fired early");
                    a = None;
                } else {
                    v::check(tlt(n1, m0), "a due timer is pending");
                }
            }
            _ => {
                // put off several times
                let a = a.as_mut().unwrap();
                a.set_at(inst(m1));
                let _ = poll(a, 1);
                a.set_at(inst(BASE) + std::time::Duration::from_secs(1 << 20));
            }
        }
        (a, b)
    });
    react0();
    let (mut a, mut b) = t.join().unwrap();
    // (what was on its way has arrived)
    let base = [woken(0), woken(1), woken(2), woken(3)];
    pass();
    react0();
    let n2 = now();
    match mode {
        0 => {
            v::check((woken(0) > 0) == tle(m0, n2), "a due timer did not wake its task, or one that is not due did");
            if let Some(t) = &mut b {
                if t.f.is_some() {
                    v::check((woken(1) > 0) == tle(m1, n2), "a due timer did not wake its task, or one that is not due did");
                    v::check(!t.again() | tle(m1, n2), "a timer fired early");
                }
            }
        }
        1 => {
            v::check(woken(0) == base[0], "a timer that is gone woke its task");
            v::check(w(0).live == 0, "a waker is kept although its timer is gone");
        }
        2 => {
            // (the old deadline may have come up just before)
            v::check((woken(0) == 0) | tle(m0, n1) | tle(m1, n2), "a timer woke its task before its time");
            v::check((base[0] > 0) | (woken(0) > 0) | tlt(n2, m1), "a due timer did not wake its task");
            v::check((woken(0) == base[0]) | tle(m1, n2), "a timer woke its task before its time");
            v::check((woken(0) > base[0]) | tlt(n2, m1) | tle(m1, n1), "a due timer did not wake its task");
            let r = poll(a.as_mut().unwrap(), 0).is_ready();
            v::check(r == tle(m1, n2), "a timer fired early or late");
        }
        3 => {
            if a.is_some() {
                v::check((woken(3) > 0) == tle(m0, n2), "a due timer did not wake its task, or one that is not due did");
                v::check(woken(0) == 0, "a timer woke a task that did not wait for it any more");
            }
        }
        _ => {
            v::check((woken(0) == base[0]) & (woken(1) == base[1]), "a timer woke its task before its time");
            let r = poll(a.as_mut().unwrap(), 0).is_ready();
            v::check(!r, "a timer fired early");
        }
    }
    v::check(!other | ((woken(2) > 0) == tle(m2, n2)), "a due timer did not wake its task, or one that is not due did");
    if woken(0) > 0 {
        v::cover("due");
    }
    v::cover("all");
    drop((a, b, c));
    react0();
    for i in 0..4 {
        v::check(w(i).live == 0, "a waker is kept although its timer is gone");
    }
}

type F = Pin<Box<dyn Future<Output = io::Result<()>> + Send>>;
fn wait(a: &Arc<Async<E>>, kind: u64) -> F {
    let a = a.clone();
    match kind {
        0 => Box::pin(a.readable_owned()),
        1 => Box::pin(a.writable_owned()),
        2 => Box::pin(futures_lite::future::poll_fn(move |cx| a.poll_readable(cx))),
        _ => Box::pin(futures_lite::future::poll_fn(move |cx| a.poll_writable(cx))),
    }
}
/// I01: one of two tasks that wait for the same source gives up, starts again or is polled by another
/// task while the reactor is at work; the other one still gets its event.
#[no_mangle]
pub extern "C" fn h_io_cancel() {
    let mode = v::param("mode", 0);
    let a = Arc::new(Async::new(E::new()).unwrap());
    let i = a.get_ref().raw();
    react0();
    let k1 = v::choice("kind", 4);
    let k2 = v::choice("kind", 4);
    // (poll_readable and poll_writable have room for one task each)
    v::assume(k1 != k2 || k1 < 2);
    let mut f1 = wait(&a, k1);
    let mut f2 = Task { f: Some(wait(&a, k2)), w: 2, seen: 0 };
    if v::flip("first") {
        v::assume(poll(&mut f1, 1).is_pending());
        v::assume(!f2.go());
    } else {
        v::assume(!f2.go());
        v::assume(poll(&mut f1, 1).is_pending());
    }
    let x = &mut k().fds[i];
    x.rd = v::sym_bool("rd");
    x.wr = v::sym_bool("wr");
    x.hup = v::sym_bool("hup");
    x.err = v::sym_bool("err");
    let hit = |k: u64| {
        let x = &crate::kernel::k().fds[i];
        (if k & 1 == 0 { x.rd } else { x.wr }) | x.hup | x.err
    };
    v::threads(v::param("preempt", 2));
    let a2 = a.clone();
    let t = std::thread::spawn(move || {
        let mut f1 = Some(f1);
        let mut w1 = 1;
        match mode {
            0 => f1 = None,
            1 => {
                w1 = 3;
                if poll(f1.as_mut().unwrap(), 3).is_ready() {
                    f1 = None;
                }
            }
            _ => {
                f1 = None;
                let mut g = wait(&a2, k1);
                w1 = 3;
                if poll(&mut g, 3).is_pending() {
                    f1 = Some(g);
                }
            }
        }
        (f1, w1)
    });
    react0();
    let (f1, w1) = t.join().unwrap();
    react0();
    let h2 = hit(k2);
    v::check((woken(2) > 0) == h2, "the descriptor is ready but a task waiting for that was not woken, or the other way round");
    v::check(f2.again() == h2, "the descriptor is ready but the wait is still pending, or the other way round");
    if let Some(f) = f1 {
        let mut t = Task { f: Some(f), w: w1, seen: 0 };
        let mut d = false;
        for _ in 0..2 {
            d |= t.again();
            react0();
        }
        d |= t.again();
        v::check(d == hit(k1), "the descriptor is ready but the wait is still pending, or the other way round");
        v::cover("both");
    }
    v::cover("all");
}
