//! What is kept after operations that are over, however often they are repeated.
use crate::h::*;
use crate::io::*;
use crate::kernel::*;
use crate::v;
use async_io::{Async, Timer};
use futures_lite::Stream;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::Arc;
use std::task::*;
use std::time::Duration;

type Fu = Pin<Box<dyn Future<Output = io::Result<()>>>>;
fn wait(a: &Arc<Async<E>>, kind: u64) -> Fu {
    let r: &'static Async<E> = unsafe { &*Arc::as_ptr(a) };
    match kind {
        0 => Box::pin(r.readable()),
        1 => Box::pin(a.clone().readable_owned()),
        2 => Box::pin(r.writable()),
        _ => Box::pin(a.clone().writable_owned()),
    }
}
/// (rd, wr, hup) whenever something is reported, the same in every cycle
static mut ANY: (bool, bool, bool) = (false, false, false);
fn event(fd: usize) {
    unsafe {
        let x = &mut k().fds[fd];
        x.rd = ANY.0;
        x.wr = ANY.1;
        x.hup = ANY.2;
    }
    react0();
    let x = &mut k().fds[fd];
    x.rd = false;
    x.wr = false;
    x.hup = false;
}
/// Waits that begin and end.
fn io_step(a: &Arc<Async<E>>, op: u64, kind: u64) {
    let fd = a.get_ref().raw();
    match op {
        // given up
        0 => {
            let mut f = wait(a, kind);
            let _ = poll(&mut f, 0);
            let _ = poll(&mut f, 1);
        }
        // an event, then polled and given up if that was another one
        1 => {
            let mut f = wait(a, kind);
            let _ = poll(&mut f, 0);
            event(fd);
            let _ = poll(&mut f, 1);
        }
        // an event, then given up
        2 => {
            let mut f = wait(a, kind);
            let _ = poll(&mut f, 0);
            event(fd);
        }
        // never polled
        3 => drop(wait(a, kind)),
        // poll_readable and poll_writable by two tasks
        4 => {
            for i in 0..2 {
                let _ = with_cx(i, |cx| if kind < 2 { a.poll_readable(cx) } else { a.poll_writable(cx) });
            }
            event(fd);
        }
        // another source
        5 => {
            let b = Arc::new(Async::new(E::new()).unwrap());
            let mut f = wait(&b, kind);
            let _ = poll(&mut f, 0);
            if kind % 2 == 1 {
                // (it is kept by the wait)
                drop(b);
            } else {
                let _ = poll(&mut f, 1);
                drop(f);
                drop(Arc::try_unwrap(b).unwrap().into_inner().unwrap());
            }
        }
        // two waits, the first one given up first or last
        _ => {
            let mut f = wait(a, kind);
            let mut g = wait(a, 3 - kind);
            let _ = poll(&mut f, 0);
            let _ = poll(&mut g, 1);
            if kind % 2 == 0 {
                drop(f);
                event(fd);
            } else {
                event(fd);
                drop(g);
            }
        }
    }
}
/// Timers that come and go; `dd` is any duration, the same in every cycle.
fn timer_step(long: &mut Timer, op: u64, dd: T, step: T) {
    let mut t = Timer::after(d(dd));
    match op {
        0 => {
            let _ = poll(&mut t, 0);
        }
        1 => {
            let _ = poll(&mut t, 0);
            t.set_after(d(step));
            let _ = poll(&mut t, 1);
        }
        2 => {
            let _ = poll(&mut t, 0);
            t.set_after(Duration::MAX);
            let _ = poll(&mut t, 0);
        }
        3 => {
            let _ = poll(&mut t, 0);
            react0();
            let _ = poll(&mut t, 0);
        }
        4 => {
            t = Timer::interval(Duration::from_nanos(1) + d(dd));
            let _ = with_cx(0, |cx| Pin::new(&mut t).poll_next(cx));
            let _ = with_cx(1, |cx| Pin::new(&mut t).poll_next(cx));
        }
        _ => {
            // one that lives on
            let _ = poll(long, 0);
            long.set_after(d(dd));
            let _ = poll(long, 1);
        }
    }
}

/// I08, T05: repeating any short sequence of operations needs no more memory in the end than
/// soon after the start.
#[no_mangle]
pub extern "C" fn h_leak() {
    time_mode();
    let timers = v::param("mode", 0) == 1;
    let len = v::param("len", 2) as usize;
    let mut body = vec![];
    for _ in 0..len {
        body.push(if timers { (v::choice("op", 6), 0) } else { (v::choice("op", 7), v::choice("kind", 4)) });
    }
    let a = Arc::new(Async::new(E::new()).unwrap());
    let mut long = Timer::never();
    let mut other = wait(&a, 0);
    if !timers {
        unsafe { ANY = (v::sym_bool("rd"), v::sym_bool("wr"), v::sym_bool("hup")) };
        if v::flip("other") {
            let _ = poll(&mut other, 2);
        }
    }
    let (dd, step) = if timers { (dur("d"), (0, v::param("step", 1 << 19) as u32)) } else { (BASE, BASE) };
    let (warm, reps) = (v::param("warm", 10), v::param("reps", 30));
    let mut base = 0;
    for i in 0..reps {
        for (op, kind) in &body {
            if timers {
                let t = now();
                timer_step(&mut long, *op, dd, step);
                let t = tadd(t, step);
                k().s = t.0;
                k().n = t.1;
            } else {
                io_step(&a, *op, *kind);
            }
        }
        if timers {
            // (the reactor gets to know what was given up)
            react0();
        }
        if i == warm {
            base = v::heap_bytes();
        }
    }
    v::cover("repeated");
    v::check(v::heap_bytes() <= base, "something is kept of operations that are over, again and again");
    drop(other);
    drop(a);
    drop(long);
    react0();
    let held: i32 = (0..NW).map(|i| w(i).live).sum();
    v::check(held == 0, "a waker is kept although what it was registered with is gone");
}
