use crate::h::*;
use crate::kernel::*;
use crate::v;
use async_io::{Async, Readable, ReadableOwned, Timer, Writable, WritableOwned};
use futures_io::{AsyncRead, AsyncWrite};
use std::future::Future;
use std::io::{self, IoSlice, IoSliceMut, Read, Write};
use std::os::fd::{AsFd, AsRawFd, BorrowedFd, FromRawFd, OwnedFd, RawFd};
use std::pin::Pin;
use std::sync::Arc;
use std::task::*;

/// An I/O handle over a descriptor of the environment; reads and writes follow a script.
#[derive(Debug)]
pub struct E {
    pub fd: OwnedFd,
}
pub static mut SCRIPT: Option<fn(write: bool, n: usize) -> io::Result<usize>> = None;
fn script(write: bool, n: usize) -> io::Result<usize> {
    match unsafe { SCRIPT } {
        Some(f) => f(write, n),
        None => Err(io::ErrorKind::WouldBlock.into()),
    }
}
impl E {
    pub fn new() -> E {
        E { fd: unsafe { OwnedFd::from_raw_fd(env_fd()) } }
    }
    pub fn raw(&self) -> usize {
        self.fd.as_raw_fd() as usize
    }
}
impl AsFd for E {
    fn as_fd(&self) -> BorrowedFd<'_> {
        self.fd.as_fd()
    }
}
impl AsRawFd for E {
    fn as_raw_fd(&self) -> RawFd {
        self.fd.as_raw_fd()
    }
}
impl From<OwnedFd> for E {
    fn from(fd: OwnedFd) -> E {
        E { fd }
    }
}
impl From<E> for OwnedFd {
    fn from(e: E) -> OwnedFd {
        e.fd
    }
}
unsafe impl async_io::IoSafe for E {}

pub const NS: usize = 3;
pub struct Slot {
    pub src: usize,
    /// 0 readable(), 1 readable_owned(), 2 writable(), 3 writable_owned(), 4 poll_readable,
    /// 5 poll_writable
    pub kind: u64,
    pub fut: Option<Pin<Box<dyn Future<Output = io::Result<()>>>>>,
    /// the waker of the last poll, while that was Pending
    pub waits: Option<usize>,
    /// how often that waker had been woken by then
    pub base: u32,
    /// the descriptor was ready in this direction during a round of the reactor since the wait
    /// began
    pub started: bool,
    pub ev: bool,
    /// .. and that was reported while this task was waiting
    pub must: bool,
}
pub fn is_read(kind: u64) -> bool {
    matches!(kind, 0 | 1 | 4)
}
pub struct World {
    pub src: Vec<Arc<Async<E>>>,
    pub fd: [usize; NS],
    pub slots: Vec<Slot>,
    pub n: usize,
}
/// no event is lost / no event is made up
pub static mut LOST: bool = true;
pub static mut FRESH: bool = true;
pub static mut READY_DONE: bool = false;
/// (readable, writable) for each source, decided when the reactor looks
static mut SEEN: [(bool, bool); NS] = [(false, false); NS];
static mut SRC_FD: [usize; NS] = [0; NS];
static mut NSRC: usize = 0;
static mut ALL_READY: bool = false;
/// the readiness is not decided anew
pub static mut HOLD: bool = false;
fn decide() {
    unsafe {
        READY_DONE = true;
        if HOLD {
            return;
        }
        for i in 0..NSRC {
            let x = &mut k().fds[SRC_FD[i]];
            // (no branches here: the readiness stays symbolic until the code looks at it)
            x.rd = v::sym_bool("rd") | ALL_READY;
            x.wr = v::sym_bool("wr") | ALL_READY;
            x.hup = v::param("hup", 1) == 1 && v::sym_bool("hup");
            x.err = v::param("hup", 1) == 1 && v::sym_bool("err");
            let b = x.hup | x.err;
            SEEN[i] = (x.rd | b, x.wr | b);
        }
    }
}
impl Drop for World {
    fn drop(&mut self) {
        // futures borrow the sources
        self.slots.clear();
    }
}
impl World {
    pub fn new(n: usize, plan: &[(usize, u64)]) -> World {
        let mut w = World { src: vec![], fd: [0; NS], slots: vec![], n };
        for i in 0..n {
            let e = E::new();
            w.fd[i] = e.raw();
            unsafe { SRC_FD[i] = e.raw() };
            w.src.push(Arc::new(Async::new(e).unwrap()));
            v::check(k().fds[w.fd[i]].nonblock, "Async::new must put the descriptor in non-blocking mode");
        }
        unsafe { NSRC = n };
        k().on_wait = Some(decide);
        for (s, kd) in plan {
            w.slots.push(Slot {
                src: *s,
                kind: *kd,
                fut: None,
                waits: None,
                base: 0,
                started: false,
                ev: false,
                must: false,
            });
        }
        w
    }
    fn make(&mut self, j: usize) {
        let a = &self.src[self.slots[j].src];
        // the sources outlive the futures
        let r: &'static Async<E> = unsafe { &*Arc::as_ptr(a) };
        let f: Option<Pin<Box<dyn Future<Output = io::Result<()>>>>> = match self.slots[j].kind {
            0 => Some(Box::pin(r.readable())),
            1 => Some(Box::pin(a.clone().readable_owned())),
            2 => Some(Box::pin(r.writable())),
            3 => Some(Box::pin(a.clone().writable_owned())),
            _ => None,
        };
        self.slots[j].fut = f;
    }
    pub fn poll(&mut self, j: usize, wi: usize) -> bool {
        if self.slots[j].kind < 4 && self.slots[j].fut.is_none() {
            self.make(j);
        }
        let a = self.src[self.slots[j].src].clone();
        let before = self.slots[j].waits.map(|x| (x, woken(x)));
        let s = &mut self.slots[j];
        let r = with_cx(wi, |cx| match s.kind {
            4 => a.poll_readable(cx),
            5 => a.poll_writable(cx),
            _ => s.fut.as_mut().unwrap().as_mut().poll(cx),
        });
        match r {
            Poll::Ready(r) => {
                v::cover("ready");
                v::check(r.is_ok(), "waiting for readiness failed without a reason");
                if unsafe { FRESH } {
                    v::check(s.started & s.ev, "reported ready without an event since the wait began");
                }
                s.fut = None;
                s.waits = None;
                s.started = false;
                s.ev = false;
                s.must = false;
                true
            }
            Poll::Pending => {
                v::cover("pending");
                if unsafe { LOST } {
                    v::check(!s.must, "an event was delivered to this wait, yet it is still pending");
                }
                if s.kind >= 4 && unsafe { LOST } {
                    // a poll with another waker replaces and wakes the one before
                    if let Some((x, n)) = before {
                        if x != wi && n == s.base {
                            v::cover("replaced");
                            v::check(woken(x) > n, "the task replaced by another one in poll_readable or poll_writable was not woken");
                        }
                    }
                }
                s.waits = Some(wi);
                s.base = woken(wi);
                s.started = true;
                false
            }
        }
    }
    pub fn drop_fut(&mut self, j: usize) {
        let s = &mut self.slots[j];
        s.fut = None;
        s.waits = None;
        s.started = false;
        s.ev = false;
        s.must = false;
    }
    /// After a round of the reactor.
    pub fn settle(&mut self) {
        for s in self.slots.iter_mut() {
            let (r, w) = unsafe { SEEN[s.src] };
            let hit = if is_read(s.kind) { r } else { w };
            if s.started {
                s.ev |= hit;
                if let Some(wi) = s.waits {
                    let had = woken(wi) != s.base;
                    v::check(!unsafe { LOST } | !hit | had, "the descriptor is ready but a task waiting for that was not woken");
                    s.must |= hit;
                }
            }
        }
    }
    pub fn react(&mut self) {
        unsafe { READY_DONE = false };
        react0();
        v::check(unsafe { READY_DONE }, "block_on processed no events although it could");
        self.settle();
    }
    pub fn nslots(&self) -> u64 {
        self.slots.len() as u64
    }
}
pub fn plan(p: u64) -> &'static [(usize, u64)] {
    match p {
        0 => &[(0, 0), (0, 2)],
        1 => &[(0, 0), (0, 1), (0, 2)],
        2 => &[(0, 0), (0, 4), (0, 5)],
        3 => &[(0, 0), (1, 0), (1, 2)],
        4 => &[(0, 4), (0, 5), (1, 4)],
        5 => &[(0, 0), (0, 3), (1, 1), (1, 5)],
        6 => &[(0, 4), (0, 2)],
        7 => &[(0, 1), (0, 3), (0, 4), (0, 5)],
        _ => &[(0, 0), (0, 1), (0, 2), (0, 3), (0, 4), (0, 5)],
    }
}

/// I01, I02, I08: histories of waits on sources.
#[no_mangle]
pub extern "C" fn h_io_hist() {
    unsafe {
        LOST = v::param("lost", 1) == 1;
        FRESH = v::param("fresh", 0) == 1;
    }
    let p = plan(v::param("plan", 0));
    let nsrc = 1 + p.iter().map(|x| x.0).max().unwrap();
    k().reverse = v::param("reverse", 0) == 1;
    let mut w = World::new(nsrc, p);
    let len = v::param("len", 4);
    let prepoll = v::param("prepoll", 0);
    for j in 0..prepoll as usize {
        w.poll(j, j);
    }
    let nops = if v::param("drops", 1) == 1 { 3 } else { 2 };
    for _ in 0..len {
        let op = v::choice("op", nops);
        match op {
            0 => w.react(),
            1 => {
                let j = v::choice("slot", w.nslots()) as usize;
                let wi = if v::flip("other") { j + 6 } else { j };
                w.poll(j, wi);
            }
            _ => {
                let j = v::choice("slot", w.nslots()) as usize;
                // only what exists can be dropped
                if w.slots[j].fut.is_none() {
                    v::assume(false);
                }
                w.drop_fut(j);
            }
        }
    }
    if v::param("idle", 0) == 1 {
        // the readiness stays as it is from here on
        w.react();
        unsafe { HOLD = true };
        for _ in 0..2 {
            w.react();
            for i in 0..nsrc {
                if k().delivered[w.fd[i]] != 0 {
                    v::check(false, "readiness that nobody waits for keeps the reactor busy");
                }
            }
        }
        v::cover("quiet");
        // nothing is kept of waits that ended
        for j in 0..w.slots.len() {
            if w.slots[j].kind < 4 {
                w.drop_fut(j);
            }
        }
        let held: i32 = (0..NW).map(|i| crate::h::w(i).live).sum();
        let polls = w.slots.iter().filter(|s| s.kind >= 4 && s.started).count() as i32;
        v::check(held <= polls, "a waker is kept although the wait that registered it is gone");
        drop(w);
        let held: i32 = (0..NW).map(|i| crate::h::w(i).live).sum();
        v::check(held == 0, "a waker is kept although its source is gone");
        return;
    }
    // in the end everything is ready
    unsafe { ALL_READY = true };
    w.react();
    if v::param("lost", 1) == 1 {
        for j in 0..w.slots.len() {
            if w.slots[j].waits.is_some() {
                let r = w.poll(j, j);
                v::check(r, "still pending after everything became ready");
            }
        }
    }
}

/// I01, I03, I08: very many sources and waits. The readiness is that of one of 4 groups.
static mut MANY_FD: [usize; 100] = [0; 100];
static mut MANY_N: usize = 0;
static mut GROUP: [(bool, bool); 4] = [(false, false); 4];
fn decide_many() {
    unsafe {
        READY_DONE = true;
        for i in 0..MANY_N {
            let x = &mut k().fds[MANY_FD[i]];
            x.rd = GROUP[i % 4].0;
            x.wr = GROUP[i % 4].1;
        }
    }
}
#[no_mangle]
pub extern "C" fn h_io_many() {
    let ns = v::param("sources", 3) as usize;
    let per = v::param("waits", 24) as usize;
    k().reverse = v::param("reverse", 0) == 1;
    let src: Vec<Arc<Async<E>>> = (0..ns).map(|_| Arc::new(Async::new(E::new()).unwrap())).collect();
    unsafe {
        for i in 0..ns {
            MANY_FD[i] = src[i].get_ref().raw();
        }
        MANY_N = ns;
    }
    let nt = v::param("timers", 0) as usize;
    let mut ts: Vec<Timer> = (0..nt).map(|_| Timer::at(inst(tadd(BASE, (0, 1))))).collect();
    type Fu = Pin<Box<dyn Future<Output = io::Result<()>>>>;
    let mut fs: Vec<(usize, bool, Option<Fu>)> = vec![];
    for i in 0..ns * per {
        let a = &src[i % ns];
        let r: &'static Async<E> = unsafe { &*Arc::as_ptr(a) };
        let kind = i / ns % 4;
        let mut f: Fu = match kind {
            0 => Box::pin(r.readable()),
            1 => Box::pin(a.clone().writable_owned()),
            2 => Box::pin(a.clone().readable_owned()),
            _ => Box::pin(r.writable()),
        };
        v::check(poll(&mut f, MANY + i).is_pending(), "ready before any event");
        fs.push((i % ns, kind % 2 == 0, Some(f)));
    }
    // some are given up
    let k0 = v::choice("given up", 3) as usize;
    for (i, f) in fs.iter_mut().enumerate() {
        if k0 > 0 && i % 13 < 5 * k0 - 1 {
            f.2 = None;
        }
    }
    let rest = ns * per;
    for (i, t) in ts.iter_mut().enumerate() {
        v::check(poll(t, MANY + rest + i).is_pending(), "a timer fired early");
    }
    k().n += 1;
    unsafe {
        for g in GROUP.iter_mut() {
            *g = (v::flip("rd"), v::flip("wr"));
        }
        READY_DONE = false;
        k().on_wait = Some(decide_many);
    }
    let base: Vec<u32> = (0..rest).map(|i| woken(MANY + i)).collect();
    react0();
    v::check(unsafe { READY_DONE }, "block_on processed no events although it could");
    for (i, (s, rd, f)) in fs.iter_mut().enumerate() {
        let (r, w) = unsafe { GROUP[*s % 4] };
        let hit = if *rd { r } else { w };
        if let Some(f) = f {
            v::check(!hit | (woken(MANY + i) != base[i]), "the descriptor is ready but a task waiting for that was not woken");
            if poll(f, MANY + i).is_ready() {
                v::cover("ready");
                v::check(hit, "reported ready without an event since the wait began");
            } else {
                v::cover("pending");
                v::check(!hit, "an event was delivered to this wait, yet it is still pending");
            }
        } else {
            v::check(woken(MANY + i) == base[i], "a wait that was given up woke its task");
        }
    }
    for (i, t) in ts.iter_mut().enumerate() {
        v::check(woken(MANY + rest + i) > 0, "a due timer did not wake its task");
        v::check(poll(t, 0).is_ready(), "a due timer is pending");
    }
    fs.clear();
    let held: i32 = (0..rest).map(|i| w(MANY + i).live).sum();
    v::check(held == 0, "a waker is kept although the wait that registered it is gone");
}
