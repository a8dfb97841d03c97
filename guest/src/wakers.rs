//! Wakers of users that panic or call back.
use crate::h::*;
use crate::io::*;
use crate::kernel::*;
use crate::v;
use async_io::{Async, Timer};
use std::future::Future;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::Arc;
use std::task::*;

static mut BAD: usize = 99;
fn boom(i: usize) {
    if i == unsafe { BAD } {
        v::cover("panic");
        std::panic::panic_any(7u32);
    }
}
/// .. or when its last clone is dropped
fn boom_drop(i: usize) {
    unsafe {
        if i == BAD && w(i).live == 0 {
            v::cover("panic");
            BAD = 99;
            std::panic::panic_any(7u32);
        }
    }
}
fn set(i: usize, rd: bool, wr: bool) {
    k().fds[i].rd = rd;
    k().fds[i].wr = wr;
}

/// R03: a waker that panics affects nobody else.
#[no_mangle]
pub extern "C" fn h_waker_panic() {
    time_mode();
    react0();
    std::panic::set_hook(Box::new(|_| {}));
    let m0 = tadd(BASE, dur("t"));
    let m1 = tadd(BASE, dur("t"));
    let mut t = [Timer::at(inst(m0)), Timer::at(inst(m1))];
    v::assume(tlt(BASE, m0) & tlt(BASE, m1));
    let _ = poll(&mut t[0], 0);
    let _ = poll(&mut t[1], 1);
    let a = Async::new(E::new()).unwrap();
    let b = Async::new(E::new()).unwrap();
    let (ia, ib) = (a.get_ref().raw(), b.get_ref().raw());
    let mut fr = a.readable();
    let mut fw = a.writable();
    let mut fb = b.writable();
    let _ = poll(&mut fr, 2);
    let _ = poll(&mut fw, 3);
    let _ = with_cx(4, |cx| a.poll_readable(cx));
    let _ = poll(&mut fb, 5);
    let drops = v::param("drop", 0) == 1;
    // (timers that are given up)
    let mut g = [Timer::at(inst(tadd(BASE, (1, 0)))), Timer::at(inst(tadd(BASE, (1, 0))))];
    let _ = poll(&mut g[0], 8);
    let _ = poll(&mut g[1], 9);
    if v::flip("react") {
        react0();
    }
    unsafe {
        if drops {
            BAD = [0, 1, 2, 3, 4, 5, 8, 9][v::choice("bad", 8) as usize];
            ON_DROP = Some(boom_drop);
        } else {
            BAD = v::choice("bad", 6) as usize;
            ON_WAKE = Some(boom);
        }
    }
    let [g0, mut g1] = g;
    let r = catch_unwind(AssertUnwindSafe(|| {
        drop(g0);
        let _ = poll(&mut g1, 10);
        // the queue of operations may be full
        if v::param("fill", 0) > 0 {
            crate::timers::fill_queue(v::param("fill", 0));
        }
    }));
    v::check(r.is_ok(), "the panic of a waker got into an operation on another timer");
    if v::flip("replace") {
        // the waker that panics may also be one that is replaced
        let r = catch_unwind(AssertUnwindSafe(|| with_cx(6, |cx| a.poll_readable(cx).is_pending())));
        v::check(matches!(r, Ok(true)), "a panicking waker that was replaced affects the task that replaced it");
        v::check(woken(4) == 1, "a replaced task was not woken");
    }
    let rp = woken(4);
    pass();
    let tm = now();
    let (r, wr, wb) = (v::flip("r"), v::flip("w"), v::flip("wb"));
    set(ia, r, wr);
    set(ib, false, wb);
    let res = catch_unwind(|| react0());
    v::check(res.is_ok(), "the panic of a waker got into block_on of another task");
    let ok = (!tle(m0, tm) | (woken(0) == 1)) & (!tle(m1, tm) | (woken(1) == 1));
    v::check(ok, "a due timer did not wake its task because another waker panicked");
    v::check((woken(2) == 1) == r && (woken(3) == 1) == wr && (woken(5) == 1) == wb, "the descriptor is ready but a task was not woken because another waker panicked");
    v::check(rp != 0 || woken(4) == r as u32, "the descriptor is ready but a task was not woken because another waker panicked");
    // everything still works: nothing is poisoned, no lock is held
    unsafe { BAD = 99 };
    let res = catch_unwind(AssertUnwindSafe(|| {
        set(ia, true, true);
        set(ib, true, true);
        react0();
        v::check(poll(&mut fr, 2).is_ready() && poll(&mut fw, 3).is_ready() && poll(&mut fb, 5).is_ready(), "a wait is lost after a waker panicked");
        drop((fr, fw, fb));
        let mut g = a.readable();
        v::check(poll(&mut g, 7).is_pending(), "ready at once");
        react0();
        v::check(poll(&mut g, 7).is_ready(), "a wait is lost after a waker panicked");
        drop(g);
        let p = |t: &mut Timer, m: T, i: usize| {
            let r = poll(t, i).is_ready();
            v::check(r == tle(m, now()), "a timer fires early or late after a waker panicked");
        };
        p(&mut t[0], m0, 0);
        p(&mut t[1], m1, 1);
        drop(t);
        drop(g1);
        react0();
    }));
    if res.is_err() {
        v::check(false, "something panics after a waker panicked");
    }
    drop((a, b));
    for i in 0..10 {
        v::check(w(i).live == 0, "a waker leaks after a waker panicked");
    }
}

// ----- wakers that call back -----
struct Back {
    a: Option<Arc<Async<E>>>,
    b: Option<Arc<Async<E>>>,
    t: [Option<Timer>; 3],
    f: [Option<Pin<Box<dyn Future<Output = io::Result<()>>>>>; 5],
    who: usize,
    what: u64,
    depth: u32,
}
static mut BACK: Back = Back { a: None, b: None, t: [None, None, None], f: [None, None, None, None, None], who: 99, what: 0, depth: 0 };
fn back() -> &'static mut Back {
    unsafe { &mut *std::ptr::addr_of_mut!(BACK) }
}
fn again(i: usize) {
    let s = back();
    if i != s.who || s.depth > 0 {
        return;
    }
    s.depth += 1;
    v::cover("called back");
    match s.what {
        0 => {
            // poll the waits of the same source, as an executor does that runs tasks when they are woken
            let a = s.a.clone().unwrap();
            let _ = with_cx(8, |cx| a.poll_readable(cx));
            let _ = with_cx(8, |cx| a.poll_writable(cx));
        }
        1 => {
            for j in 0..5 {
                if let Some(f) = s.f[j].as_mut() {
                    if with_cx(8, |cx| f.as_mut().poll(cx)).is_ready() {
                        s.f[j] = None;
                    }
                }
            }
        }
        2 => {
            // drop all waits
            for j in 0..5 {
                s.f[j] = None;
            }
        }
        3 => {
            // timers: reset, drop, new
            s.t[1] = None;
            if let Some(t) = s.t[0].as_mut() {
                t.set_at(inst(BASE) + std::time::Duration::from_secs(5));
            }
            let mut t = Timer::at(inst(BASE) + std::time::Duration::from_secs(9));
            let _ = poll(&mut t, 8);
            s.t[2] = Some(t);
        }
        4 => {
            // new sources
            let x = Async::new(E::new()).unwrap();
            let mut f = Box::pin(x.readable());
            let _ = poll(&mut f, 8);
            drop(f);
            let _ = x.into_inner();
        }
        _ => {
            // drop everything
            for j in 0..5 {
                s.f[j] = None;
            }
            s.a = None;
            s.b = None;
        }
    }
    s.depth -= 1;
}

/// R04: wakers may use timers and sources, also those that woke them.
#[no_mangle]
pub extern "C" fn h_waker_back() {
    time_mode();
    react0();
    let m0 = tadd(BASE, dur("t"));
    let m1 = tadd(BASE, dur("t"));
    v::assume(tlt(BASE, m0) & tlt(BASE, m1));
    let s = back();
    s.t = [Some(Timer::at(inst(m0))), Some(Timer::at(inst(m1))), None];
    let _ = poll(s.t[0].as_mut().unwrap(), 0);
    let _ = poll(s.t[1].as_mut().unwrap(), 1);
    s.a = Some(Arc::new(Async::new(E::new()).unwrap()));
    s.b = Some(Arc::new(Async::new(E::new()).unwrap()));
    let (a, b) = (s.a.clone().unwrap(), s.b.clone().unwrap());
    let (ia, ib) = (a.get_ref().raw(), b.get_ref().raw());
    s.f[0] = Some(Box::pin(a.clone().readable_owned()));
    s.f[1] = Some(Box::pin(a.clone().writable_owned()));
    s.f[2] = Some(Box::pin(b.clone().writable_owned()));
    for j in 0..3 {
        let _ = with_cx(2 + j, |cx| s.f[j].as_mut().unwrap().as_mut().poll(cx));
    }
    let _ = with_cx(5, |cx| a.poll_readable(cx));
    drop((a, b));
    s.who = v::choice("who", 6) as usize;
    s.what = v::choice("what", 6);
    unsafe { ON_WAKE = Some(again) };
    let rep = v::flip("replace");
    if rep {
        // the task replaced is woken inside of this call
        if let Some(a) = back().a.clone() {
            let _ = with_cx(6, |cx| a.poll_readable(cx));
        }
        v::check(woken(5) == 1, "a replaced task was not woken");
    }
    pass();
    let tm = now();
    let (r, wr, wb) = (v::flip("r"), v::flip("w"), v::flip("wb"));
    if back().a.is_some() {
        set(ia, r, wr);
    }
    if back().b.is_some() {
        set(ib, false, wb);
    }
    let reset = back().what == 3 && rep && back().who == 5;
    react0();
    let due = |m: T, i: usize| !tle(m, tm) | (woken(i) >= 1);
    v::check(reset || (due(m0, 0) & due(m1, 1)), "a due timer did not wake its task");
    unsafe { ON_WAKE = None };
    v::cover("returned");
    let gone = back().a.is_none() || back().f.iter().any(|f| f.is_none());
    if !gone && !(rep && back().who == 5) {
        v::check((!r || woken(2) >= 1) && (!wr || woken(3) >= 1) && (!wb || woken(4) >= 1), "the descriptor is ready but a task was not woken");
    }
    // afterwards everything that is left works
    for x in back().f.iter_mut() {
        *x = None;
    }
    for x in back().t.iter_mut() {
        *x = None;
    }
    if let Some(a) = &back().a {
        set(ia, false, false);
        if with_cx(7, |cx| a.poll_readable(cx)).is_ready() {
            v::check(with_cx(7, |cx| a.poll_readable(cx)).is_pending(), "ready twice for one event");
        }
        let n = woken(7);
        set(ia, true, false);
        react0();
        react0();
        v::check(woken(7) > n, "a wait is lost after a waker called back");
    }
    back().a = None;
    back().b = None;
    react0();
    for i in 0..9 {
        v::check(w(i).live == 0, "a waker is kept although everything is gone");
    }
}

fn dropped(i: usize) {
    if w(i).live == 0 && i == back().who {
        again(i);
    }
}
/// R04: the same for wakers that call back when they are dropped (a waker may own the task, and
/// the task may own timers and waits).
#[no_mangle]
pub extern "C" fn h_waker_drop() {
    time_mode();
    react0();
    let far = tadd(BASE, (1, 0));
    let s = back();
    s.t = [Some(Timer::at(inst(far))), Some(Timer::at(inst(far))), None];
    let _ = poll(s.t[0].as_mut().unwrap(), 0);
    let _ = poll(s.t[1].as_mut().unwrap(), 1);
    let a = Arc::new(Async::new(E::new()).unwrap());
    let b = Arc::new(Async::new(E::new()).unwrap());
    let (ia, ib) = (a.get_ref().raw(), b.get_ref().raw());
    s.f[0] = Some(Box::pin(a.clone().readable_owned()));
    s.f[1] = Some(Box::pin(a.clone().writable_owned()));
    s.f[2] = Some(Box::pin(b.clone().writable_owned()));
    for j in 0..3 {
        let _ = with_cx(2 + j, |cx| s.f[j].as_mut().unwrap().as_mut().poll(cx));
    }
    let _ = with_cx(5, |cx| a.poll_readable(cx));
    s.a = Some(a.clone());
    s.b = Some(b.clone());
    if v::flip("react") {
        react0();
    }
    s.who = v::choice("who", 6) as usize;
    s.what = v::choice("what", 6);
    unsafe { ON_DROP = Some(dropped) };
    let n = v::param("ops", 2);
    let fill = v::param("fill", 0);
    for o in 0..n {
        // (with many operations on timers: something on a timer, the many, then a round)
        let op = if fill == 0 { v::choice("op", 4) } else { [0, 4, 3][o as usize % 3] };
        match op {
            4 => {
                // many operations on timers follow before the reactor gets to any of them
                for i in 0..v::param("fill", 0) {
                    let mut t = Timer::at(inst(tadd(BASE, (2, 0))));
                    let _ = poll(&mut t, 9);
                    if i == 0 && v::flip("odd") {
                        // (reset: two operations)
                        t.set_at(inst(tadd(BASE, (3, 0))));
                    }
                }
            }
            0 => {
                // another task polls a timer, or it is given up
                let j = v::choice("timer", 2) as usize;
                let mut t = back().t[j].take();
                if v::flip("drop") {
                    t = None;
                }
                if let Some(t) = t.as_mut() {
                    let _ = poll(t, 9);
                }
                if back().t[j].is_none() {
                    back().t[j] = t;
                }
            }
            1 => {
                let j = v::choice("wait", 3) as usize;
                let mut f = back().f[j].take();
                if v::flip("drop") {
                    f = None;
                }
                if let Some(f) = f.as_mut() {
                    let _ = with_cx(9, |cx| f.as_mut().poll(cx));
                }
                back().f[j] = f;
            }
            2 => {
                let _ = with_cx(9, |cx| a.poll_readable(cx));
            }
            _ => {
                set(ia, v::flip("r"), v::flip("w"));
                set(ib, true, true);
                react0();
            }
        }
    }
    v::cover("returned");
    unsafe { ON_DROP = None };
    let s = back();
    s.f = [None, None, None, None, None];
    s.t = [None, None, None];
    s.a = None;
    s.b = None;
    drop((a, b));
    react0();
    for i in 0..10 {
        v::check(w(i).live == 0, "a waker is kept although everything is gone");
    }
}
