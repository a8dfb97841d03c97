use crate::h::*;
use crate::kernel::*;
use crate::v;
use async_io::Timer;
use futures_lite::Stream;
use std::pin::Pin;
use std::task::*;
use std::time::{Duration, Instant};

/// T01: never early, yields the scheduled instant, exactly once, for every constructor; time moves
/// between any two readings of the clock.
#[no_mangle]
pub extern "C" fn h_timer_once() {
    time_mode();
    let kind = v::choice("ctor", 5);
    let dd = dur("d");
    let before = now();
    k().clk_free = v::param("free", 1) == 1;
    let (mut t, lo, hi) = match kind {
        0 => {
            let t = Timer::after(d(dd));
            (t, tadd(before, dd), tadd(now(), dd))
        }
        1 => {
            let m = tadd(BASE, dd);
            (Timer::at(inst(m)), m, m)
        }
        2 => {
            let mut t = Timer::never();
            t.set_after(d(dd));
            (t, tadd(before, dd), tadd(now(), dd))
        }
        3 => {
            let mut t = Timer::never();
            let m = tadd(BASE, dd);
            t.set_at(inst(m));
            (t, m, m)
        }
        _ => {
            // so far away that it cannot be represented
            let s = v::sym("far", 64);
            v::assume(s >= (1 << 63));
            let t = Timer::after(Duration::from_secs(s));
            v::check(!t.will_fire(), "a timer beyond the range of Instant claims to fire");
            (t, (u64::MAX, 0), (u64::MAX, 0))
        }
    };
    v::check((kind == 4) | t.will_fire(), "a scheduled timer must fire");
    let n = v::param("polls", 3);
    let mut fired = false;
    for i in 0..n {
        let a = now();
        let r = poll(&mut t, i as usize % 2);
        let z = now();
        match r {
            Poll::Ready(at) => {
                v::cover("fired");
                let at = back(at);
                v::check(!fired, "a one-shot timer fired twice");
                v::check(tle(lo, at) & tle(at, hi), "the instant yielded is not the scheduled one");
                v::check(tle(at, z), "the timer fired early");
                v::check(tle(lo, z), "the timer fired before the scheduled instant");
                v::check(!t.will_fire(), "a timer that fired still claims to fire");
                fired = true;
            }
            Poll::Pending => {
                v::cover("pending");
                if !fired {
                    v::check(tlt(a, hi), "the timer is due but polling it returned Pending");
                    v::check((kind == 4) | t.will_fire(), "a pending timer must fire");
                }
            }
        }
        if v::flip("react") {
            react0();
        }
    }
}

#[derive(Clone, Copy)]
struct M {
    alive: bool,
    /// scheduled
    when: Option<T>,
    /// the waker of the last poll that returned Pending, while the task waits
    waits: Option<usize>,
    /// what is registered: the deadline, and the task to wake
    reg: Option<(T, usize)>,
    /// the task that is registered again when the timer is set
    keeps: Option<usize>,
}
const M0: M = M { alive: false, when: None, waits: None, reg: None, keeps: None };
struct H {
    ts: [Option<Timer>; 3],
    ms: [M; 3],
    lastw: [u32; NW],
    /// check that due timers wake their tasks
    due: bool,
    /// check that nothing else is woken
    stale: bool,
}
impl H {
    fn new() -> H {
        H { ts: [None, None, None], ms: [M0; 3], lastw: [0; NW], due: v::param("due", 1) == 1, stale: v::param("stale", 0) == 1 }
    }
    fn poll(&mut self, i: usize, wi: usize) {
        if !self.ms[i].alive {
            v::assume(false);
        }
        let t = self.ts[i].as_mut().unwrap();
        let m = &mut self.ms[i];
        match poll(t, wi) {
            Poll::Ready(at) => {
                v::cover("fired");
                let ok = match m.when {
                    Some(w) => teq(back(at), w) & tle(w, now()),
                    None => false,
                };
                v::check(ok, "the timer fired early or with another instant than scheduled last");
                m.when = None;
                m.waits = None;
                m.reg = None;
                m.keeps = None;
            }
            Poll::Pending => {
                v::cover("pending");
                let ok = match m.when {
                    Some(w) => tlt(now(), w),
                    None => true,
                };
                v::check(ok, "the timer is due but polling it returned Pending");
                m.waits = Some(wi);
                m.keeps = Some(wi);
                m.reg = m.when.map(|w| (w, wi));
                self.lastw[wi] = woken(wi);
            }
        }
    }
    fn set(&mut self, i: usize, m: Option<T>) {
        let x = &mut self.ms[i];
        x.when = m;
        x.reg = match (m, x.keeps) {
            (Some(w), Some(k)) => Some((w, k)),
            _ => None,
        };
    }
    fn react(&mut self) {
        let mut before = [0; NW];
        for i in 0..NW {
            before[i] = woken(i);
        }
        let t = now();
        react0();
        if self.due {
            for m in &self.ms {
                if let (true, Some(when), Some(wi)) = (m.alive, m.when, m.waits) {
                    let due = tle(when, t);
                    // (the task is woken, or was woken before and has not polled since)
                    v::check(!due | (woken(wi) != self.lastw[wi]), "a due timer did not wake its task");
                    if due {
                        v::cover("due");
                    } else {
                        v::cover("not due");
                    }
                }
            }
        }
        if self.stale {
            let mut allowed = [false; NW];
            for m in self.ms.iter_mut() {
                if let (true, Some((when, wi))) = (m.alive, m.reg) {
                    allowed[wi] |= tle(when, t);
                }
            }
            for i in 0..NW {
                let quiet = woken(i) == before[i];
                v::check(quiet | allowed[i], "a timer woke a task that did not wait for it any more, or before its time");
                if !quiet {
                    v::cover("woke");
                }
            }
        }
    }
}

/// T02, T04, T05: histories of timers; after every round of the reactor at or after the deadline,
/// the task that polled last has been woken; and nobody else is.
#[no_mangle]
pub extern "C" fn h_timer_hist() {
    time_mode();
    let nt = v::param("timers", 2) as usize;
    let len = v::param("len", 4);
    let mut h = H::new();
    // so many operations are queued when the history begins
    let fill = v::param("fill", 0);
    if fill > 0 {
        fill_queue(fill);
    }
    for i in 0..nt {
        let m = tadd(BASE, dur("t"));
        h.ts[i] = Some(Timer::at(inst(m)));
        h.ms[i] = M { alive: true, when: Some(m), ..M0 };
        if v::param("prepoll", 1) == 1 {
            h.poll(i, i);
        }
    }
    for _ in 0..len {
        let op = v::choice("op", 5);
        let i = if op == 0 { 0 } else { v::choice("which", nt as u64) as usize };
        match op {
            0 => {
                // time passes, the reactor runs
                pass();
                h.react();
            }
            1 => {
                // poll, by its usual task or by another one
                let wi = if v::flip("other") { i + 4 } else { i };
                h.poll(i, wi);
            }
            2 => {
                // reset
                if !h.ms[i].alive {
                    v::assume(false);
                }
                let dd = dur("r");
                let abs = v::flip("abs");
                let t = h.ts[i].as_mut().unwrap();
                let m = if abs {
                    let m = tadd(BASE, dd);
                    t.set_at(inst(m));
                    m
                } else {
                    t.set_after(d(dd));
                    tadd(now(), dd)
                };
                v::check(t.will_fire(), "a timer that was set must fire");
                h.set(i, Some(m));
            }
            3 => {
                // reset so far that it overflows
                if !h.ms[i].alive {
                    v::assume(false);
                }
                let t = h.ts[i].as_mut().unwrap();
                t.set_after(Duration::MAX);
                v::check(!t.will_fire(), "a timer beyond the range of Instant claims to fire");
                h.set(i, None);
            }
            _ => {
                // drop
                if !h.ms[i].alive {
                    v::assume(false);
                }
                h.ts[i] = None;
                h.ms[i] = M0;
            }
        }
    }
    // in the end: everything due fires
    pass();
    h.react();
    if h.due {
        for i in 0..nt {
            if h.ms[i].alive {
                h.poll(i, i);
            }
        }
    }
    if h.stale {
        // nothing is left behind
        h.ts = [None, None, None];
        h.ms = [M0; 3];
        h.react();
        for i in 0..10 {
            v::check(w(i).live == 0, "a waker is kept although its timer is gone");
        }
    }
}

/// Queues operations on a timer that is never due.
pub fn fill_queue(n: u64) {
    // (the first use of the reactor)
    react0();
    let mut t = Timer::at(inst(BASE) + Duration::from_secs(1 << 30));
    for i in 0..n {
        // one insertion, then one removal and one insertion each
        if i % 2 == 0 {
            let _ = poll(&mut t, 10 + (i as usize / 2) % 2);
        }
    }
    std::mem::forget(t);
}

/// T03: interval timers.
#[no_mangle]
pub extern "C" fn h_timer_interval() {
    time_mode();
    let kind = v::choice("ctor", 4);
    let start = dur("start");
    let mut period = dur("period");
    let mut t;
    let first = match kind {
        0 => {
            t = Timer::interval(d(period));
            tadd(BASE, period)
        }
        1 => {
            let m = tadd(BASE, start);
            t = Timer::interval_at(inst(m), d(period));
            m
        }
        2 => {
            t = Timer::after(d(start));
            if v::flip("polled") {
                let r = poll(&mut t, 0);
                v::check(r.is_ready() == tle(start, (0, 0)), "a timer fired early or late");
            }
            t.set_interval(d(period));
            tadd(BASE, period)
        }
        _ => {
            t = Timer::never();
            let m = tadd(BASE, start);
            t.set_interval_at(inst(m), d(period));
            m
        }
    };
    let mut next = first;
    let n = v::param("polls", 4);
    let mut once = false;
    let mut over = false;
    let mut sets = v::param("sets", 1);
    for i in 0..n {
        pass();
        if sets > 0 && v::flip("set") {
            sets -= 1;
            let r = dur("r");
            over = false;
            match v::choice("how", v::param("how", 4)) {
                // a one-shot from here on
                0 => {
                    next = tadd(BASE, r);
                    t.set_at(inst(next));
                    once = true;
                }
                1 => {
                    next = tadd(now(), r);
                    t.set_after(d(r));
                    once = true;
                }
                // or periodic
                2 => {
                    period = r;
                    next = tadd(now(), r);
                    t.set_interval(d(r));
                    once = false;
                }
                _ => {
                    period = dur("p");
                    next = tadd(BASE, r);
                    t.set_interval_at(inst(next), d(period));
                    once = false;
                }
            }
            v::check(t.will_fire(), "a timer that was set must fire");
        }
        let r = with_cx(i as usize % 2, |cx| Pin::new(&mut t).poll_next(cx));
        match r {
            Poll::Ready(Some(at)) => {
                v::cover("fired");
                v::check(!over, "a timer set to fire once fired again");
                v::check(teq(back(at), next), "an interval timer yielded another instant than start + k * period");
                v::check(tle(next, now()), "an interval timer fired early");
                if once {
                    over = true;
                    v::cover("once");
                    v::check(!t.will_fire(), "a timer that fired still claims to fire");
                } else {
                    next = tadd(next, period);
                    v::check(t.will_fire(), "an interval timer claims not to fire any more");
                }
            }
            Poll::Ready(None) => v::check(false, "the stream of a timer ended"),
            Poll::Pending => {
                v::cover("pending");
                v::check(over | tlt(now(), next), "an interval timer is due but polling it returned Pending");
            }
        }
        // and the task is woken for the next one
        let wi = i as usize % 2;
        let c = woken(wi);
        pass();
        let tm = now();
        react0();
        let due = !over & tle(next, tm);
        v::check(!due | (woken(wi) != c), "a due interval timer did not wake its task");
        if !due {
            v::check(woken(wi) == c, "an interval timer woke its task too early");
        } else {
            v::cover("due");
        }
    }
}

/// T03: a period that runs past the end of time ends the interval.
#[no_mangle]
pub extern "C" fn h_timer_interval_far() {
    time_mode();
    let p = v::sym("far", 64);
    let start = dur("start");
    let m = tadd(BASE, start);
    let period = Duration::from_secs(p);
    let over = T0 + start.0 > i64::MAX as u64 || (i64::MAX as u64) - (T0 + start.0) < p;
    let mut t = Timer::interval_at(inst(m), period);
    pass();
    match with_cx(0, |cx| Pin::new(&mut t).poll_next(cx)) {
        Poll::Ready(Some(at)) => {
            v::check(teq(back(at), m) & tle(m, now()), "fired early or with another instant");
            v::check(t.will_fire() != over, "will_fire() is wrong after the last instant that can be represented");
            if over {
                v::cover("overflow");
                v::check(with_cx(0, |cx| Pin::new(&mut t).poll_next(cx)).is_pending(), "fired after the end of time");
            } else {
                v::cover("no overflow");
                let r = with_cx(0, |cx| Pin::new(&mut t).poll_next(cx));
                let due = tle(tadd(m, (p, 0)), now());
                v::check(r.is_ready() == due, "the second instant comes early or late");
            }
        }
        _ => {
            v::cover("pending");
            v::check(tlt(now(), m), "an interval timer is due but polling it returned Pending");
        }
    }
    let mut u = Timer::after(d(start));
    let over = (i64::MAX as u64) - now().0 < p;
    u.set_interval(period);
    v::check(u.will_fire() != over, "will_fire() is wrong after set_interval()");
}

/// T04: many timers of only two deadlines; each of them is kept apart from the others.
#[no_mangle]
pub extern "C" fn h_timer_many() {
    time_mode();
    let n = v::param("timers", 300) as usize;
    let ms = [tadd(BASE, tadd((0, 1), dur("t"))), tadd(BASE, tadd((0, 1), dur("t")))];
    let mut ts: Vec<Option<Timer>> = vec![];
    for i in 0..n {
        let mut t = Timer::at(inst(ms[i % 2]));
        v::check(poll(&mut t, MANY + i).is_pending(), "a timer fired early");
        ts.push(Some(t));
    }
    if v::flip("queued") {
        react0();
    }
    // some of them are given up
    let k0 = v::choice("given up", 3) as usize;
    for i in 0..n {
        if k0 > 0 && i % 16 < k0 * 5 {
            ts[i] = None;
        }
    }
    let base: Vec<u32> = (0..n).map(|i| woken(MANY + i)).collect();
    pass();
    let t = now();
    react0();
    let due = [tle(ms[0], t), tle(ms[1], t)];
    for i in 0..n {
        let x = woken(MANY + i) != base[i];
        let here = ts[i].is_some();
        v::check(!(here & due[i % 2]) | x, "a due timer out of many did not wake its task");
        v::check(here | !x, "a timer out of many that was given up woke its task");
    }
    for i in 0..n {
        if let Some(t) = &mut ts[i] {
            if poll(t, MANY + i).is_ready() {
                v::check(tle(ms[i % 2], now()), "a timer fired early");
                v::cover("fired");
            } else {
                v::check(tlt(now(), ms[i % 2]), "a due timer is pending");
                v::cover("pending");
            }
        }
    }
    drop(ts);
    react0();
    let held: i32 = (0..n).map(|i| w(MANY + i).live).sum();
    v::check(held == 0, "a waker is kept although its timer is gone");
}
