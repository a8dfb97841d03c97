//! I/O operations on top of readiness; registration and deregistration; faults.
use crate::h::*;
use crate::io::*;
use crate::kernel::*;
use crate::v;
use async_io::{Async, Timer};
use futures_io::{AsyncRead, AsyncWrite};
use std::future::Future;
use std::io::{self, IoSlice, IoSliceMut, Read, Write};
use std::os::fd::{AsFd, AsRawFd, OwnedFd};
use std::pin::Pin;
use std::sync::Arc;
use std::task::*;

/// What the operation did last: number of calls, and whether it found nothing to do.
static mut CALLS: u32 = 0;
static mut LAST_BLOCKED: bool = false;
static mut LAST: i64 = 0;
static mut WHAT: u32 = 0;
static mut ARG: (usize, usize) = (0, 0);
/// Would block, or any number of bytes, or any error.
fn attempt(what: u32, p: usize, n: usize) -> io::Result<usize> {
    unsafe {
        CALLS += 1;
        WHAT = what;
        ARG = (p, n);
        if CALLS < v::param("attempts", 3) as u32 && v::flip("would block") {
            LAST_BLOCKED = true;
            return if v::flip("os") { Err(io::Error::from_raw_os_error(EAGAIN)) } else { Err(io::ErrorKind::WouldBlock.into()) };
        }
        LAST_BLOCKED = false;
        if v::flip("ok") {
            let n = v::sym("n", 16);
            LAST = n as i64;
            Ok(n as usize)
        } else if v::flip("kind") {
            LAST = -1000;
            Err(io::ErrorKind::Interrupted.into())
        } else {
            let e = v::sym("errno", 8);
            v::assume((e != EAGAIN as u64) & (e > 0));
            LAST = -(e as i64);
            Err(io::Error::from_raw_os_error(e as i32))
        }
    }
}
impl Read for E {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        attempt(1, b.as_ptr() as usize, b.len())
    }
    fn read_vectored(&mut self, b: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        attempt(2, b.as_ptr() as usize, b.len())
    }
}
impl Read for &E {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        attempt(1, b.as_ptr() as usize, b.len())
    }
    fn read_vectored(&mut self, b: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        attempt(2, b.as_ptr() as usize, b.len())
    }
}
impl Write for E {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        attempt(3, b.as_ptr() as usize, b.len())
    }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> io::Result<usize> {
        attempt(4, b.as_ptr() as usize, b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        attempt(5, 0, 0).map(|_| ())
    }
}
impl Write for &E {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        attempt(3, b.as_ptr() as usize, b.len())
    }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> io::Result<usize> {
        attempt(4, b.as_ptr() as usize, b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        attempt(5, 0, 0).map(|_| ())
    }
}

static mut FD: usize = 0;
static mut SEEN_R: bool = false;
static mut SEEN_W: bool = false;
static mut FORCE: u32 = 0;
fn decide() {
    unsafe {
        let x = &mut k().fds[FD];
        x.rd = v::sym_bool("rd") | (FORCE & 1 != 0);
        x.wr = v::sym_bool("wr") | (FORCE & 2 != 0);
        SEEN_R = x.rd;
        SEEN_W = x.wr;
    }
}

/// I06: an operation is tried, waits for its own direction while it would block, is tried again
/// when the descriptor is ready, and its first other result is returned as it is.
#[no_mangle]
pub extern "C" fn h_io_ops() {
    let e = E::new();
    unsafe { FD = e.raw() };
    let fdn = e.raw();
    let mut a = Async::new(e).unwrap();
    k().on_wait = Some(decide);
    let kind = v::choice("op", 16);
    let mut buf = [0u8; 8];
    let bp = buf.as_ptr() as usize;
    let mut b1 = [0u8; 2];
    let mut iov = [IoSliceMut::new(&mut b1)];
    let iovp = iov.as_ptr() as usize;
    let b2 = [0u8; 2];
    let iow = [IoSlice::new(&b2)];
    let iowp = iow.as_ptr() as usize;
    // (the operation, its direction, the method of the handle, its argument)
    let (read, what, arg): (bool, u32, (usize, usize)) = match kind {
        0 | 1 => (true, 9, (0, 0)),
        2 | 3 => (false, 9, (0, 0)),
        4 | 5 => (true, 1, (bp, 8)),
        6 | 7 => (true, 2, (iovp, 1)),
        8 | 9 => (false, 3, (bp, 8)),
        10 | 11 => (false, 4, (iowp, 1)),
        _ => (false, 5, (0, 0)),
    };
    let ap: *mut Async<E> = &mut a;
    let ar: &'static mut Async<E> = unsafe { &mut *ap };
    let ash: &'static Async<E> = unsafe { &*ap };
    type Fu = Pin<Box<dyn Future<Output = io::Result<usize>>>>;
    let mut fut: Option<Fu> = match kind {
        0 => Some(Box::pin(ash.read_with(|_| attempt(9, 0, 0)))),
        1 => Some(Box::pin(unsafe { ar.read_with_mut(|_| attempt(9, 0, 0)) })),
        2 => Some(Box::pin(ash.write_with(|_| attempt(9, 0, 0)))),
        3 => Some(Box::pin(unsafe { ar.write_with_mut(|_| attempt(9, 0, 0)) })),
        _ => None,
    };
    let mut rounds = 0;
    loop {
        let calls = unsafe { CALLS };
        let wi = (rounds % 2) as usize;
        let base = woken(wi);
        let ar: &mut Async<E> = unsafe { &mut *ap };
        let mut sh: &Async<E> = unsafe { &*ap };
        let r = with_cx(wi, |cx| match kind {
            0..=3 => fut.as_mut().unwrap().as_mut().poll(cx),
            4 => Pin::new(ar).poll_read(cx, &mut buf),
            5 => Pin::new(&mut sh).poll_read(cx, &mut buf),
            6 => Pin::new(ar).poll_read_vectored(cx, &mut iov),
            7 => Pin::new(&mut sh).poll_read_vectored(cx, &mut iov),
            8 => Pin::new(ar).poll_write(cx, &buf),
            9 => Pin::new(&mut sh).poll_write(cx, &buf),
            10 => Pin::new(ar).poll_write_vectored(cx, &iow),
            11 => Pin::new(&mut sh).poll_write_vectored(cx, &iow),
            12 => Pin::new(ar).poll_flush(cx).map(|r| r.map(|_| 0)),
            13 => Pin::new(&mut sh).poll_flush(cx).map(|r| r.map(|_| 0)),
            14 => Pin::new(ar).poll_close(cx).map(|r| r.map(|_| 0)),
            _ => Pin::new(&mut sh).poll_close(cx).map(|r| r.map(|_| 0)),
        });
        unsafe {
            match r {
                Poll::Ready(r) => {
                    v::cover("ready");
                    v::check(CALLS > calls, "an operation completed without being tried");
                    v::check(!LAST_BLOCKED, "an operation that would block completed");
                    v::check(WHAT == what && ARG == arg, "another operation than the one asked for, or with another buffer");
                    match r {
                        Ok(n) => v::check((LAST >= 0) & ((what == 5) | (n as i64 == LAST)), "the result of an operation was changed"),
                        Err(e) => match e.raw_os_error() {
                            Some(c) => v::check(-(c as i64) == LAST, "the error of an operation was changed"),
                            None => v::check(LAST == -1000 && e.kind() == io::ErrorKind::Interrupted, "the error of an operation was changed"),
                        },
                    }
                    break;
                }
                Poll::Pending => {
                    v::cover("pending");
                    v::check(LAST_BLOCKED, "an operation is pending although it had a result");
                    v::check(rounds == 0 || CALLS > calls, "the operation was not tried again when it was polled again");
                    let ev = k().fds[fdn].events;
                    v::check(ev & if read { IN } else { OUT } != 0, "waiting, but not for the direction of the operation");
                }
            }
        }
        // the reactor runs until the task is woken
        k().fds[fdn].rd = false;
        k().fds[fdn].wr = false;
        unsafe { FORCE = 0 };
        react0();
        let hit = unsafe { if read { SEEN_R } else { SEEN_W } };
        v::check(!hit | (woken(wi) > base), "the descriptor is ready but the task was not woken");
        if woken(wi) == base {
            v::cover("other direction");
            unsafe { FORCE = if read { 1 } else { 2 } };
            react0();
            v::check(woken(wi) > base, "the descriptor is ready but the task was not woken");
        }
        rounds += 1;
    }
    drop(fut);
    drop(a);
    for i in 0..4 {
        v::check(w(i).live == 0, "a waker is kept although the operation ended");
    }
}
