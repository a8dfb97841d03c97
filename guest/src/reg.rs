//! Registration and deregistration of sources; faults of the system calls.
use crate::h::*;
use crate::io::*;
use crate::kernel::*;
use crate::v;
use async_io::{Async, Timer};
use std::convert::TryFrom;
use std::future::Future;
use std::io;
use std::os::fd::{AsFd, AsRawFd, FromRawFd, OwnedFd};
use std::pin::Pin;
use std::sync::Arc;
use std::task::*;

fn live() -> i32 {
    (0..NW).map(|i| w(i).live).sum()
}
fn is_free(i: usize) -> bool {
    k().fds[i].kind == Kind::Free
}
fn errno(n: &str) -> i64 {
    let e = v::sym(n, 8);
    v::assume((e > 0) & (e < 134));
    e as i64
}
static mut FAIL: [i64; 4] = [0; 4];
/// A fault happened.
static mut HIT: bool = false;
/// Which of the calls that change the mode of a descriptor fails.
static mut NTH: u64 = 0;
/// 0: ioctl or fcntl, 1: ADD, 2: DEL, 3: MOD
fn faults(op: Op, _f: i32, a: u64, _b: u64, _c: u64) -> Option<i64> {
    let i = match (op, a) {
        (Op::Ioctl | Op::Fcntl, _) => unsafe {
            NTH = NTH.wrapping_sub(1);
            if NTH != u64::MAX {
                return None;
            }
            0
        },
        (Op::EpollCtl, 1) => 1,
        (Op::EpollCtl, 2) => 2,
        (Op::EpollCtl, 3) => 3,
        _ => return None,
    };
    let e = unsafe { FAIL[i] };
    if e != 0 {
        unsafe { HIT = true };
        Some(-e)
    } else {
        None
    }
}
fn set(i: usize, rd: bool, wr: bool) {
    k().fds[i].rd = rd;
    k().fds[i].wr = wr;
}
/// Waits for readability of this source alone become ready with its events.
fn works(a: &Async<E>, wi: usize) {
    let i = a.get_ref().raw();
    v::check(k().fds[i].reg, "a source is not registered with the reactor");
    let n = woken(wi);
    let mut f = a.readable();
    v::check(poll(&mut f, wi).is_pending(), "ready at once");
    react0();
    v::check(woken(wi) == n, "woken by an event of another source");
    set(i, true, false);
    react0();
    v::check(woken(wi) > n, "the descriptor is ready but the task was not woken");
    v::check(poll(&mut f, wi).is_ready(), "an event was delivered to this wait, yet it is still pending");
    set(i, false, false);
}

/// I05: making an `Async` with faults in between.
#[no_mangle]
pub extern "C" fn h_reg() {
    react0();
    // other sources exist
    let mut others = vec![];
    for _ in 0..v::choice("others", 3) {
        others.push(Async::new(E::new()).unwrap());
    }
    // (the slab has room)
    drop(Async::new(E::new()).unwrap());
    for (j, o) in others.iter().enumerate() {
        works(o, 1 + j);
    }
    let how = v::choice("how", 3);
    let nb = v::sym_bool("nonblock");
    let fail = v::choice("fail", 4);
    let heap = v::heap();
    let e = E::new();
    let i = e.raw();
    k().fds[i].nonblock = nb;
    k().hook = Some(faults);
    let er = errno("errno");
    unsafe {
        FAIL = [if fail == 1 || fail == 3 { er } else { 0 }, if fail == 2 { er } else { 0 }, 0, 0];
        NTH = (fail == 3) as u64;
    };
    let r: io::Result<Async<E>> = match how {
        0 => Async::new(e),
        1 => Async::new_nonblocking(e),
        _ => Async::try_from(OwnedFd::from(e)),
    };
    k().hook = None;
    let fails = unsafe { HIT };
    match r {
        Ok(a) => {
            v::cover("ok");
            v::check(!fails, "an error of the system was ignored when a source was registered");
            v::check(a.get_ref().raw() == i && a.as_raw_fd() as usize == i && a.as_fd().as_raw_fd() as usize == i, "another descriptor");
            if how == 1 {
                v::check(k().fds[i].nonblock == nb, "new_nonblocking() changed the mode of the descriptor");
            } else {
                v::check(k().fds[i].nonblock, "the descriptor is not in non-blocking mode");
            }
            works(&a, 0);
            for (j, o) in others.iter().enumerate() {
                works(o, 1 + j);
            }
            drop(a);
            v::check(is_free(i), "dropping the handle did not close the descriptor");
        }
        Err(e) => {
            v::cover("failed");
            v::check(fails, "registering failed although no system call did");
            v::check(e.raw_os_error() == Some(er as i32), "registering failed with another error than the system call");
            v::check(is_free(i), "the descriptor leaks when registering it fails");
        }
    }
    v::check(v::heap() == heap, "memory leaks when a source is registered or registering fails");
    // nothing is in the way of the next one
    let b = Async::new(E::new()).unwrap();
    v::check(b.get_ref().raw() == i, "(the descriptor is used again)");
    works(&b, 4);
    for (j, o) in others.iter().enumerate() {
        works(o, 5 + j);
    }
    v::check(k().fds[i].reg, "a source is not registered with the reactor");
}

static mut WATCH: usize = 0;
static mut CLOSED_REG: bool = false;
fn pending_kind(a: &Arc<Async<E>>, kind: u64, wi: usize) -> Option<Pin<Box<dyn Future<Output = io::Result<()>>>>> {
    let r: &'static Async<E> = unsafe { &*Arc::as_ptr(a) };
    let mut f: Pin<Box<dyn Future<Output = io::Result<()>>>> = match kind {
        0 => return None,
        1 => Box::pin(r.readable()),
        2 => Box::pin(r.writable()),
        3 => Box::pin(a.clone().readable_owned()),
        4 => Box::pin(a.clone().writable_owned()),
        5 => {
            v::check(with_cx(wi, |cx| a.poll_readable(cx)).is_pending(), "ready at once");
            return None;
        }
        _ => {
            v::check(with_cx(wi, |cx| a.poll_writable(cx)).is_pending(), "ready at once");
            return None;
        }
    };
    let r = with_cx(wi, |cx| f.as_mut().poll(cx));
    v::check(r.is_pending(), "ready at once");
    Some(f)
}

/// I04: giving up a source.
#[no_mangle]
pub extern "C" fn h_dereg() {
    react0();
    {
        let a = Async::new(E::new()).unwrap();
        let b = Async::new(E::new()).unwrap();
        drop((a, b));
    }
    let heap = v::heap();
    let other = Async::new(E::new()).unwrap();
    let mut of = Box::pin(other.readable());
    v::check(poll(&mut of, 11).is_pending(), "ready at once");
    let heap1 = v::heap();
    let e = E::new();
    let i = e.raw();
    let a = Arc::new(Async::new(e).unwrap());
    let kind = v::choice("wait", 7);
    let f = pending_kind(&a, kind, 0);
    let kind2 = v::choice("wait", 7);
    let f2 = pending_kind(&a, kind2, 1);
    // readiness reported or not, before the end
    let (rd, wr) = (v::flip("rd"), v::flip("wr"));
    set(i, rd, wr);
    if v::flip("react") {
        react0();
    }
    let before = (woken(0), woken(1), woken(11));
    let end = v::choice("end", 4);
    let fail = v::flip("DEL fails");
    let er = errno("errno");
    k().hook = Some(faults);
    unsafe { FAIL = [0, 0, if fail { er } else { 0 }, 0] };
    k().tracing = true;
    k().ntr = 0;
    let mut kept: Option<OwnedFd> = None;
    if end == 0 {
        // the last user goes
        if v::flip("futures first") {
            drop((f, f2));
            drop(a);
        } else {
            drop(a);
            if (kind == 3) | (kind == 4) | (kind2 == 3) | (kind2 == 4) {
                v::check(!is_free(i) && k().fds[i].reg, "the handle was given up while an owned wait uses it");
            }
            // (a borrowed wait does not outlive the handle)
            if (kind == 1) | (kind == 2) | (kind2 == 1) | (kind2 == 2) {
                v::assume(false);
            }
            drop((f, f2));
        }
        v::check(is_free(i), "dropping the handle did not close the descriptor");
    } else {
        drop((f, f2));
        let x = Arc::try_unwrap(a).unwrap();
        let r: io::Result<OwnedFd> = match end {
            1 => x.into_inner().map(OwnedFd::from),
            2 => OwnedFd::try_from(x),
            _ => {
                // the handle lives on in a box
                let x = Box::new(x);
                (*x).into_inner().map(OwnedFd::from)
            }
        };
        match r {
            Ok(fd) => {
                v::cover("into_inner");
                v::check(!fail, "into_inner() ignored an error");
                v::check(fd.as_raw_fd() as usize == i, "into_inner() returned another handle");
                v::check(!is_free(i) && !k().fds[i].reg, "into_inner() returned a handle that is closed or still registered");
                kept = Some(fd);
            }
            Err(e) => {
                v::cover("into_inner failed");
                v::check(fail, "into_inner() failed although no system call did");
                v::check(e.raw_os_error() == Some(er as i32), "into_inner() failed with another error than the system call");
                v::check(is_free(i), "the descriptor leaks when into_inner() fails");
            }
        }
    }
    // deregistered before it was closed
    let mut del = false;
    for j in 0..k().ntr {
        let t = k().tr[j];
        if t.op == Op::EpollCtl && t.fd as usize == i && t.a == 2 {
            v::check(!del, "deregistered twice");
            del = true;
        }
        if t.op == Op::EpollCtl && t.fd as usize == i && t.a != 2 {
            v::check(!del, "the descriptor was used after it was deregistered");
        }
        if t.op == Op::Close && t.fd as usize == i {
            v::check(del, "the descriptor was closed while it was still registered");
        }
    }
    v::check(del, "the descriptor was never deregistered");
    v::cover("end");
    k().tracing = false;
    k().hook = None;
    v::check(w(0).live + w(1).live == 0, "a waker is kept although its source is gone");
    v::check(v::heap() == heap1, "memory is kept although the source is gone");
    // another descriptor with the same number and the same slot
    if kept.is_none() || v::flip("close") {
        kept = None;
        let b = Async::new(E::new()).unwrap();
        v::check(b.get_ref().raw() == i, "(the descriptor is used again)");
        works(&b, 2);
    } else {
        // events of the descriptor do not reach the reactor any more
        set(i, true, true);
        react0();
        v::check(k().delivered[i] == 0, "a handle returned by into_inner() is still polled");
    }
    v::check((woken(0), woken(1)) == (before.0, before.1), "a wait that was given up was woken");
    v::check(woken(11) == before.2, "the wait of another source was woken");
    drop(kept);
    set(other.get_ref().raw(), true, false);
    react0();
    v::check(woken(11) > before.2, "the wait of another source was lost");
    v::check(poll(&mut of, 11).is_ready(), "the wait of another source was lost");
    drop(of);
    drop(other);
    v::check(v::heap() == heap, "memory is kept although every source is gone");
    v::check(live() == 0, "a waker is kept although every source is gone");
}

// ----- faults while waiting -----
static mut WAITING: bool = false;
static mut MODFAIL: u64 = 0;
static mut FAILED_MODS: u32 = 0;
static mut FAILED_WAITS: u32 = 0;
static mut WHERE: u64 = 0;
fn wait_faults(op: Op, f: i32, a: u64, _b: u64, _c: u64) -> Option<i64> {
    unsafe {
        match (op, a) {
            (Op::EpollWait, _) => {
                if WHERE & 1 != 0 && FAILED_WAITS < v::param("fails", 2) as u32 && v::flip("epoll_wait fails") {
                    FAILED_WAITS += 1;
                    return Some(-if v::param("any", 0) == 1 { errno("errno") } else { [EINTR, EIO, EBADF][v::choice("errno", 3) as usize] as i64 });
                }
                None
            }
            (Op::EpollCtl, 3) => {
                // (the descriptors of the poller itself are registered without faults)
                if WHERE & 2 != 0 && k().fds[f as usize].kind == Kind::Env && FAILED_MODS < v::param("mods", 1) as u32 && v::flip("MOD fails") {
                    FAILED_MODS += 1;
                    MODFAIL |= 1 << f;
                    return Some(-(ENOMEM as i64));
                }
                None
            }
            _ => None,
        }
    }
}

/// R02: errors of epoll_wait and epoll_ctl do not lose the wake-ups of anyone.
#[no_mangle]
pub extern "C" fn h_faults() {
    time_mode();
    let m = tadd(BASE, dur("t"));
    let mut t = Timer::at(inst(m));
    let mut trep = poll(&mut t, 9).is_ready();
    let a = [Async::new(E::new()).unwrap(), Async::new(E::new()).unwrap()];
    k().reverse = v::flip("reverse");
    // two tasks each for the directions of the first, one for the second
    type Fu<'a> = Pin<Box<dyn Future<Output = io::Result<()>> + 'a>>;
    let mut fs: Vec<(usize, bool, Option<Fu<'_>>)> = vec![
        (0, true, Some(Box::pin(a[0].readable()))),
        (0, false, Some(Box::pin(a[0].writable()))),
        (1, true, Some(Box::pin(a[1].readable()))),
    ];
    for (j, x) in fs.iter_mut().enumerate() {
        v::check(with_cx(j, |cx| x.2.as_mut().unwrap().as_mut().poll(cx)).is_pending(), "ready at once");
    }
    k().hook = Some(wait_faults);
    unsafe { WHERE = v::param("where", 3) };
    let mut seen = [0u32; NW];
    let mut t_seen = 0;
    let rounds = v::param("rounds", 2);
    for r in 0..=rounds {
        let last = r == rounds;
        pass();
        let tm = now();
        for s in &a {
            let i = s.get_ref().raw();
            // (the last round: everything is ready and nothing fails)
            if last {
                set(i, true, true);
            } else {
                set(i, v::flip("rd"), v::flip("wr"));
            }
        }
        if last {
            unsafe { WHERE = 0 };
        }
        let fw = unsafe { FAILED_WAITS };
        react0();
        let failed = unsafe { FAILED_WAITS } != fw;
        if failed {
            v::cover("epoll_wait failed");
        }
        if unsafe { MODFAIL } != 0 {
            v::cover("MOD failed");
        }
        v::check(!tle(m, tm) | trep | (woken(9) != t_seen), "a due timer did not wake its task because of an error of another system call");
        for (j, x) in fs.iter_mut().enumerate() {
            if x.2.is_none() {
                continue;
            }
            let i = a[x.0].get_ref().raw();
            let hit = if x.1 { k().fds[i].rd } else { k().fds[i].wr };
            let wk = woken(j) != seen[j];
            v::check(failed | !hit | wk, "the descriptor is ready but a task waiting for that was not woken");
            if wk {
                seen[j] = woken(j);
                // (as tasks do: polled when they are woken)
                let mf = unsafe { FAILED_MODS };
                match with_cx(j, |cx| x.2.as_mut().unwrap().as_mut().poll(cx)) {
                    Poll::Ready(Ok(())) => {
                        v::cover("ready");
                        x.2 = None;
                    }
                    Poll::Ready(Err(e)) => {
                        v::check(unsafe { FAILED_MODS } != mf, "waiting failed although no system call did");
                        v::check(e.raw_os_error() == Some(ENOMEM), "waiting failed with another error than the system call");
                        v::cover("error reported");
                        x.2 = None;
                    }
                    Poll::Pending => {
                        v::check(unsafe { FAILED_MODS } == mf, "an error of epoll_ctl was not reported to the task that waits");
                    }
                }
            }
        }
        if woken(9) != t_seen {
            t_seen = woken(9);
            trep |= poll(&mut t, 9).is_ready();
        }
        unsafe { MODFAIL = 0 };
    }
    for (j, x) in fs.iter().enumerate() {
        v::check(x.2.is_none() || woken(j) != seen[j], "a wait is lost after an error");
    }
}

/// R02: a failed poll_readable or poll_writable leaves nothing behind that keeps the next one from waiting.
#[no_mangle]
pub extern "C" fn h_poll_faults() {
    let a = Async::new(E::new()).unwrap();
    let i = a.get_ref().raw();
    k().hook = Some(faults);
    let read = v::flip("read");
    let p = |wi: usize| with_cx(wi, |cx| if read { a.poll_readable(cx) } else { a.poll_writable(cx) });
    let n = v::param("polls", 3);
    let mut waiting = None;
    for j in 0..n {
        let fail = v::flip("MOD fails");
        unsafe { FAIL[3] = if fail { ENOMEM as i64 } else { 0 } };
        let wi = v::choice("task", 2) as usize;
        match p(wi) {
            Poll::Pending => {
                waiting = Some((wi, woken(wi)));
            }
            Poll::Ready(Ok(())) => v::check(false, "ready without an event"),
            Poll::Ready(Err(e)) => {
                v::cover("error reported");
                v::check(fail && e.raw_os_error() == Some(ENOMEM), "waiting failed with another error than the system call");
                waiting = None;
            }
        }
        unsafe { FAIL[3] = 0 };
        let _ = j;
    }
    if let Some((wi, n)) = waiting {
        v::cover("waits");
        set(i, read, !read);
        react0();
        v::check(woken(wi) > n, "a task waits but is not woken, because an earlier call failed");
        v::check(p(wi).is_ready(), "an event was delivered to this wait, yet it is still pending");
    }
    drop(a);
    v::check(live() == 0, "a waker is kept although its source is gone");
}
