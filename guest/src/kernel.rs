//! Model of the operating system at the libc boundary. Every `vk_*` function stands for the libc
//! function of that name; it runs atomically with respect to the other threads.
#![allow(static_mut_refs)]
use crate::v::*;

pub const EPERM: i32 = 1;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const ENOMEM: i32 = 12;
pub const EEXIST: i32 = 17;
pub const ENOENT: i32 = 2;
pub const EINVAL: i32 = 22;
pub const ENOSYS: i32 = 38;
pub const ENOTSOCK: i32 = 88;
pub const EINPROGRESS: i32 = 115;
pub const ETIMEDOUT: i32 = 110;

pub const IN: u32 = 1;
pub const PRI: u32 = 2;
pub const OUT: u32 = 4;
pub const ERR: u32 = 8;
pub const HUP: u32 = 16;
pub const RDHUP: u32 = 0x2000;
pub const ONESHOT: u32 = 1 << 30;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Free,
    Epoll,
    EventFd,
    TimerFd,
    PipeR,
    PipeW,
    Env,
}

#[derive(Clone, Copy)]
pub struct Fd {
    pub kind: Kind,
    pub nonblock: bool,
    pub cloexec: bool,
    /// eventfd counter or pipe bytes
    pub count: u64,
    /// timerfd deadline
    pub armed: bool,
    pub ds: u64,
    pub dn: u32,
    /// environment readiness
    pub rd: bool,
    pub wr: bool,
    pub hup: bool,
    pub err: bool,
    /// epoll registration
    pub reg: bool,
    pub events: u32,
    pub data: u64,
    /// number of times this descriptor number was opened
    pub gen: u32,
    pub sock: [u64; 3],
}
const NOFD: Fd = Fd {
    kind: Kind::Free,
    nonblock: false,
    cloexec: false,
    count: 0,
    armed: false,
    ds: 0,
    dn: 0,
    rd: false,
    wr: false,
    hup: false,
    err: false,
    reg: false,
    events: 0,
    data: 0,
    gen: 0,
    sock: [0; 3],
};
pub const NFD: usize = 112;

#[derive(Clone, Copy)]
pub struct Ev {
    pub op: Op,
    pub fd: i32,
    pub a: u64,
    pub b: u64,
    pub c: u64,
    pub ret: i64,
    pub tid: u64,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    None,
    EpollCreate,
    EpollCtl,
    EpollWait,
    EpollRet,
    TimerSet,
    Notify,
    Close,
    Fcntl,
    Ioctl,
    Read,
    Write,
    Socket,
    Bind,
    Listen,
    Accept,
    Connect,
    SockPair,
    GetSockOpt,
    SetSockOpt,
    GetSockName,
    GetPeerName,
    Recv,
    Send,
    RecvFrom,
    SendTo,
    Shutdown,
    Mark,
    /// an event returned by epoll_wait
    Deliver,
}
/// The clock reads this many seconds at the start.
pub const T0: u64 = 1000;
pub const NTRACE: usize = 192;

pub struct Kernel {
    pub fds: [Fd; NFD],
    pub s: u64,
    pub n: u32,
    /// every clock reading moves time forward by an arbitrary amount
    pub clk_free: bool,
    pub tr: [Ev; NTRACE],
    pub ntr: usize,
    pub tracing: bool,
    /// tid, address
    pub futex: [(u64, u64); 8],
    pub nfutex: usize,
    pub epw: [u64; 8],
    pub nepw: usize,
    pub waits: u32,
    /// called on entry to epoll_wait, before readiness is looked at
    pub on_wait: Option<fn()>,
    /// decides the result of a call: Some(-errno) or Some(value)
    pub hook: Option<fn(op: Op, fd: i32, a: u64, b: u64, c: u64) -> Option<i64>>,
    /// widths of the symbolic seconds (counted from T0) and nanoseconds of the clock
    pub s_bits: u32,
    pub n_bits: u32,
    /// events are reported from the highest descriptor down
    pub reverse: bool,
    /// what was delivered by the last epoll_wait
    pub delivered: [u32; NFD],
    /// the value of the last event notification deadline
    pub opened: u32,
    pub rdata: [u8; 64],
    pub rlen: usize,
    /// deadlines of the threads blocked with a time limit
    pub timed: [Option<(u64, u32)>; 8],
    /// nothing takes time: the clock moves only when every thread is blocked, and then to the
    /// earliest deadline
    pub exact: bool,
    /// a millisecond time limit of epoll_wait may be used (it is rounded, so never exact)
    pub polls: u32,
    /// the descriptor of the last epoll_ctl
    pub tr_ep: i32,
    /// all descriptors are below this
    pub top: usize,
}
const NOEV: Ev = Ev { op: Op::None, fd: 0, a: 0, b: 0, c: 0, ret: 0, tid: 0 };
pub static mut K: Kernel = Kernel {
    fds: [NOFD; NFD],
    s: T0,
    n: 0,
    clk_free: false,
    tr: [NOEV; NTRACE],
    ntr: 0,
    tracing: false,
    futex: [(0, 0); 8],
    nfutex: 0,
    epw: [0; 8],
    nepw: 0,
    waits: 0,
    on_wait: None,
    hook: None,
    s_bits: 0,
    n_bits: 20,
    reverse: false,
    delivered: [0; NFD],
    opened: 0,
    rdata: [0; 64],
    rlen: 0,
    timed: [None; 8],
    exact: true,
    polls: 0,
    tr_ep: 0,
    top: 3,
};
pub fn k() -> &'static mut Kernel {
    unsafe { &mut *std::ptr::addr_of_mut!(K) }
}

extern "C" {
    fn __errno_location() -> *mut i32;
}
fn fail_with(e: i32) -> i64 {
    unsafe { *__errno_location() = e };
    -1
}
fn res(r: i64) -> i64 {
    if r < 0 {
        fail_with(-r as i32)
    } else {
        r
    }
}

pub fn trace(op: Op, fd: i32, a: u64, b: u64, c: u64, ret: i64) {
    let k = k();
    if k.tracing && k.ntr < NTRACE {
        k.tr[k.ntr] = Ev { op, fd, a, b, c, ret, tid: tid() };
        k.ntr += 1;
    }
}
fn hook(op: Op, fd: i32, a: u64, b: u64, c: u64) -> Option<i64> {
    match k().hook {
        Some(f) => f(op, fd, a, b, c),
        None => None,
    }
}

pub fn newfd(kind: Kind) -> i32 {
    let k = k();
    for i in 3..NFD {
        if k.fds[i].kind == Kind::Free {
            let g = k.fds[i].gen + 1;
            k.fds[i] = NOFD;
            k.fds[i].kind = kind;
            k.fds[i].gen = g;
            k.opened += 1;
            if i >= k.top {
                k.top = i + 1;
            }
            return i as i32;
        }
    }
    fail("kernel model: out of descriptors")
}
pub fn fd(i: i32) -> Option<&'static mut Fd> {
    if i < 0 || i as usize >= NFD || k().fds[i as usize].kind == Kind::Free {
        return None;
    }
    Some(&mut k().fds[i as usize])
}

// ----- time -----
pub fn le(s: u64, n: u32, s2: u64, n2: u32) -> bool {
    (s < s2) | ((s == s2) & (n <= n2))
}
/// An arbitrary moment.
pub fn moment(name_s: &str, name_n: &str) -> (u64, u32) {
    let k = k();
    let s = if k.s_bits == 0 { T0 } else { T0 + sym(name_s, k.s_bits) };
    let n = if k.n_bits == 0 { 0 } else { sym(name_n, k.n_bits) as u32 };
    if k.n_bits >= 30 {
        assume(n < 1_000_000_000);
    }
    (s, n)
}
/// Moves the clock to an arbitrary later (or the same) moment.
pub fn advance() {
    let k = k();
    let (s, n) = moment("clk.s", "clk.n");
    assume(le(k.s, k.n, s, n));
    k.s = s;
    k.n = n;
}
/// Moves the clock to at least this moment.
pub fn advance_to(s: u64, n: u32, free: bool) {
    let k = k();
    if free {
        let s0 = k.s;
        let n0 = k.n;
        let (ss, nn) = moment("clk.s", "clk.n");
        assume(le(s0, n0, ss, nn) & le(s, n, ss, nn));
        k.s = ss;
        k.n = nn;
    } else if !le(s, n, k.s, k.n) {
        k.s = s;
        k.n = n;
    }
}
#[no_mangle]
pub extern "C" fn vk_clock_gettime(_id: i32, ts: *mut [u64; 2]) -> i32 {
    let k = k();
    if k.clk_free {
        advance();
    }
    unsafe { *ts = [k.s, k.n as u64] };
    0
}

/// Blocks the thread, until woken (false) or the deadline (true).
fn block_until(dl: Option<(u64, u32)>) -> bool {
    let me = tid() as usize;
    k().timed[me] = dl;
    let out = block(dl.is_some());
    k().timed[me] = None;
    if let (true, Some((s, n))) = (out, dl) {
        if k().exact {
            // the other way round is another schedule
            for i in 0..8 {
                if let Some((s2, n2)) = k().timed[i] {
                    assume(le(s, n, s2, n2));
                }
            }
        }
        advance_to(s, n, k().clk_free);
    }
    out
}

// ----- futex and other raw system calls -----
#[no_mangle]
pub extern "C" fn vk_syscall(nr: i64, a: u64, b: u64, c: u64, d: u64, _e: u64) -> i64 {
    match nr {
        202 => {
            let op = b & 0x7f;
            if op == 0 || op == 9 {
                let cur = unsafe { *(a as *const u32) };
                if cur != c as u32 {
                    return fail_with(EAGAIN);
                }
                let k = k();
                let timed = d != 0;
                let (mut ts, mut tn) = (0, 0);
                if timed {
                    let t = unsafe { *(d as *const [u64; 2]) };
                    ts = t[0];
                    tn = t[1] as u32;
                    if op == 0 {
                        // relative
                        ts += k.s;
                        tn += k.n;
                        if tn >= 1_000_000_000 {
                            tn -= 1_000_000_000;
                            ts += 1;
                        }
                    }
                    if le(ts, tn, k.s, k.n) {
                        return fail_with(ETIMEDOUT);
                    }
                }
                let me = tid();
                if k.nfutex >= 8 {
                    fail("kernel model: futex waiters");
                }
                k.futex[k.nfutex] = (me, a);
                k.nfutex += 1;
                if block_until(if timed { Some((ts, tn)) } else { None }) {
                    drop_waiter(me);
                    return fail_with(ETIMEDOUT);
                }
                0
            } else if op == 1 || op == 10 {
                let k = k();
                let mut n = 0;
                let mut i = 0;
                while i < k.nfutex && n < c {
                    if k.futex[i].1 == a {
                        let t = k.futex[i].0;
                        drop_waiter(t);
                        unblock(t);
                        n += 1;
                    } else {
                        i += 1;
                    }
                }
                n as i64
            } else {
                fail("kernel model: futex operation")
            }
        }
        290 => {
            // eventfd2
            let f = newfd(Kind::EventFd);
            let x = fd(f).unwrap();
            x.count = a as u32 as u64;
            x.nonblock = b & 0o4000 != 0;
            x.cloexec = b & 0o2000000 != 0;
            f as i64
        }
        441 => fail_with(ENOSYS),
        186 => tid() as i64 + 1,
        318 => {
            // getrandom
            for i in 0..b {
                unsafe { *((a + i) as *mut u8) = 7 };
            }
            b as i64
        }
        _ => fail("kernel model: system call"),
    }
}
#[no_mangle]
pub extern "C" fn vk_getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    for i in 0..n {
        unsafe { *p.add(i) = 7 };
    }
    n as isize
}
#[no_mangle]
pub extern "C" fn vk_clock_nanosleep(_clk: i32, flags: i32, req: *const [u64; 2], _rem: *mut [u64; 2]) -> i32 {
    let r = unsafe { *req };
    let (mut s, mut n) = (r[0], r[1] as u32);
    if flags & 1 == 0 {
        s += k().s;
        n += k().n;
        if n >= 1_000_000_000 {
            n -= 1_000_000_000;
            s += 1;
        }
    }
    if !le(s, n, k().s, k().n) {
        block_until(Some((s, n)));
    }
    0
}
#[no_mangle]
pub extern "C" fn vk_nanosleep(req: *const [u64; 2], rem: *mut [u64; 2]) -> i32 {
    vk_clock_nanosleep(1, 0, req, rem)
}
#[no_mangle]
pub extern "C" fn vk_memchr(p: *const u8, c: i32, n: usize) -> *const u8 {
    for i in 0..n {
        unsafe {
            if *p.add(i) == c as u8 {
                return p.add(i);
            }
        }
    }
    std::ptr::null()
}
#[no_mangle]
pub extern "C" fn vk_memrchr(p: *const u8, c: i32, n: usize) -> *const u8 {
    for i in (0..n).rev() {
        unsafe {
            if *p.add(i) == c as u8 {
                return p.add(i);
            }
        }
    }
    std::ptr::null()
}
fn drop_waiter(t: u64) {
    let k = k();
    let mut j = 0;
    for i in 0..k.nfutex {
        if k.futex[i].0 != t {
            k.futex[j] = k.futex[i];
            j += 1;
        }
    }
    k.nfutex = j;
}

// ----- epoll -----
#[no_mangle]
pub extern "C" fn vk_epoll_create1(flags: i32) -> i32 {
    let f = newfd(Kind::Epoll);
    fd(f).unwrap().cloexec = flags & 0o2000000 != 0;
    trace(Op::EpollCreate, f, flags as u64, 0, 0, f as i64);
    f
}
#[no_mangle]
pub extern "C" fn vk_epoll_ctl(ep: i32, op: i32, f: i32, ev: *const u8) -> i32 {
    let (events, data) = if ev.is_null() {
        (0, 0)
    } else {
        unsafe { ((ev as *const u32).read_unaligned(), (ev.add(4) as *const u64).read_unaligned()) }
    };
    if fd(ep).is_none() {
        return fail_with(EBADF) as i32;
    }
    k().tr_ep = ep;
    let r = match hook(Op::EpollCtl, f, op as u64, events as u64, data) {
        Some(r) if r < 0 => r,
        _ => match fd(f) {
            None => -(EBADF as i64),
            Some(x) => match op {
                1 => {
                    if x.reg {
                        -(EEXIST as i64)
                    } else {
                        x.reg = true;
                        x.sock[2] = 0;
                        x.events = events;
                        x.data = data;
                        0
                    }
                }
                3 => {
                    if !x.reg {
                        -(ENOENT as i64)
                    } else {
                        x.sock[2] = 0;
                        x.events = events;
                        x.data = data;
                        0
                    }
                }
                2 => {
                    if !x.reg {
                        -(ENOENT as i64)
                    } else {
                        x.reg = false;
                        0
                    }
                }
                _ => -(EINVAL as i64),
            },
        },
    };
    trace(Op::EpollCtl, f, op as u64, events as u64, data, r);
    wake_epoll();
    res(r) as i32
}
pub fn wake_epoll() {
    let k = k();
    while k.nepw > 0 {
        k.nepw -= 1;
        unblock(k.epw[k.nepw]);
    }
}
/// What poll would report for this descriptor.
pub fn level(i: usize) -> u32 {
    let x = &k().fds[i];
    match x.kind {
        Kind::EventFd => {
            if x.count > 0 {
                IN | OUT
            } else {
                OUT
            }
        }
        Kind::PipeR => {
            if x.count > 0 {
                IN
            } else {
                0
            }
        }
        Kind::TimerFd => {
            if x.armed && le(x.ds, x.dn, k().s, k().n) {
                IN
            } else {
                0
            }
        }
        Kind::Env => {
            // (without branches)
            x.rd as u32 * IN | x.wr as u32 * OUT | x.hup as u32 * HUP | x.err as u32 * ERR
        }
        _ => 0,
    }
}
#[no_mangle]
pub extern "C" fn vk_epoll_wait(ep: i32, evs: *mut u8, max: i32, timeout: i32) -> i32 {
    let k = k();
    if fd(ep).is_none() {
        return fail_with(EBADF) as i32;
    }
    trace(Op::EpollWait, ep, timeout as u32 as u64, 0, 0, 0);
    k.waits += 1;
    if let Some(f) = k.on_wait {
        f();
    }
    if let Some(r) = hook(Op::EpollWait, ep, timeout as u32 as u64, 0, 0) {
        trace(Op::EpollRet, ep, 0, 0, 0, r);
        if r <= 0 {
            return res(r) as i32;
        }
    }
    loop {
        let mut n = 0;
        k.delivered = [0; NFD];
        for j in 3..k.top {
            let i = if k.reverse { k.top + 2 - j } else { j };
            let x = k.fds[i];
            if x.kind == Kind::Free || !x.reg || n >= max {
                continue;
            }
            // HUP and ERR are always of interest, unless a one-shot registration is disarmed
            let disarmed = x.events & 0xfff_ffff == 0 && x.events & ONESHOT != 0 && x.sock[2] == 1;
            if disarmed {
                continue;
            }
            let m = level(i) & (x.events | HUP | ERR) & 0x0fff_ffff;
            if m != 0 {
                unsafe {
                    let p = evs.add(12 * n as usize);
                    (p as *mut u32).write_unaligned(m);
                    (p.add(4) as *mut u64).write_unaligned(x.data);
                }
                n += 1;
                k.delivered[i] = m;
                trace(Op::Deliver, i as i32, m as u64, 0, 0, 0);
                if x.events & ONESHOT != 0 {
                    k.fds[i].events = ONESHOT;
                    k.fds[i].sock[2] = 1;
                }
            }
        }
        if n > 0 || timeout == 0 {
            trace(Op::EpollRet, ep, 0, 0, 0, n as i64);
            return n;
        }
        // block: until the timerfd expires, or another thread does something
        let mut timed = false;
        let (mut ds, mut dn) = (0, 0);
        for i in 3..k.top {
            let x = k.fds[i];
            if x.kind == Kind::TimerFd && x.armed && x.reg && x.events & IN != 0 {
                timed = true;
                ds = x.ds;
                dn = x.dn;
            }
        }
        if timeout > 0 {
            fail("kernel model: epoll_wait with a millisecond timeout");
        }
        let me = tid();
        k.epw[k.nepw] = me;
        k.nepw += 1;
        if block_until(if timed { Some((ds, dn)) } else { None }) {
            let mut j = 0;
            for i in 0..k.nepw {
                if k.epw[i] != me {
                    k.epw[j] = k.epw[i];
                    j += 1;
                }
            }
            k.nepw = j;
        }
    }
}

// ----- descriptors -----
#[no_mangle]
pub extern "C" fn vk_timerfd_create(_clk: i32, flags: i32) -> i32 {
    let f = newfd(Kind::TimerFd);
    let x = fd(f).unwrap();
    x.cloexec = flags & 0o2000000 != 0;
    x.nonblock = flags & 0o4000 != 0;
    f
}
#[no_mangle]
pub extern "C" fn vk_timerfd_settime(f: i32, flags: i32, new: *const [u64; 4], _old: *mut u8) -> i32 {
    let t = unsafe { *new };
    let k = k();
    let (s, n) = (t[2], t[3]);
    if n >= 1_000_000_000 || (s as i64) < 0 {
        return fail_with(EINVAL) as i32;
    }
    let Some(x) = fd(f) else { return fail_with(EBADF) as i32 };
    if flags != 0 {
        fail("kernel model: timerfd flags");
    }
    trace(Op::TimerSet, f, s, n, 0, 0);
    if (s == 0) & (n == 0) {
        x.armed = false;
    } else {
        x.armed = true;
        let nn = k.n as u64 + n;
        let carry = nn >= 1_000_000_000;
        let nn = if carry { nn - 1_000_000_000 } else { nn };
        // the kernel clamps to the far future
        let (ss, o) = k.s.overflowing_add(s);
        let ss = ss.wrapping_add(carry as u64);
        let big = o | ((ss as i64) < 0);
        x.ds = if big { i64::MAX as u64 } else { ss };
        x.dn = nn as u32;
    }
    wake_epoll();
    0
}
#[no_mangle]
pub extern "C" fn vk_close(f: i32) -> i32 {
    trace(Op::Close, f, 0, 0, 0, 0);
    let Some(x) = fd(f) else { return fail_with(EBADF) as i32 };
    // closing removes the registration
    let g = x.gen;
    *x = NOFD;
    x.gen = g;
    wake_epoll();
    0
}
#[no_mangle]
pub extern "C" fn vk_fcntl(f: i32, cmd: i32, arg: u64) -> i32 {
    if let Some(r) = hook(Op::Fcntl, f, cmd as u64, arg, 0) {
        trace(Op::Fcntl, f, cmd as u64, arg, 0, r);
        return res(r) as i32;
    }
    let Some(x) = fd(f) else { return fail_with(EBADF) as i32 };
    let r = match cmd {
        1 => x.cloexec as i32,
        2 => {
            x.cloexec = arg & 1 != 0;
            0
        }
        3 => 2 | if x.nonblock { 0o4000 } else { 0 },
        4 => {
            x.nonblock = arg & 0o4000 != 0;
            0
        }
        1030 => {
            let c = *x;
            let n = newfd(c.kind);
            let y = fd(n).unwrap();
            y.nonblock = c.nonblock;
            y.cloexec = true;
            n
        }
        _ => fail("kernel model: fcntl"),
    };
    trace(Op::Fcntl, f, cmd as u64, arg, 0, r as i64);
    r
}
#[no_mangle]
pub extern "C" fn vk_ioctl(f: i32, req: u64, arg: *mut i32) -> i32 {
    if let Some(r) = hook(Op::Ioctl, f, req, 0, 0) {
        trace(Op::Ioctl, f, req, 0, 0, r);
        return res(r) as i32;
    }
    let Some(x) = fd(f) else { return fail_with(EBADF) as i32 };
    match req {
        0x5421 => {
            x.nonblock = unsafe { *arg } != 0;
            trace(Op::Ioctl, f, req, x.nonblock as u64, 0, 0);
            0
        }
        _ => fail("kernel model: ioctl"),
    }
}
#[no_mangle]
pub extern "C" fn vk_read(f: i32, p: *mut u8, n: usize) -> isize {
    let Some(x) = fd(f) else { return fail_with(EBADF) as isize };
    match x.kind {
        Kind::EventFd => {
            if x.count == 0 {
                return fail_with(EAGAIN) as isize;
            }
            if n < 8 {
                return fail_with(EINVAL) as isize;
            }
            unsafe { (p as *mut u64).write_unaligned(x.count) };
            x.count = 0;
            8
        }
        Kind::TimerFd => fail_with(EAGAIN) as isize,
        Kind::PipeR => {
            if x.count == 0 {
                return fail_with(EAGAIN) as isize;
            }
            let m = (x.count as usize).min(n);
            x.count -= m as u64;
            m as isize
        }
        Kind::Env => {
            transfer(p as usize, n, 0, false);
            let r = hook(Op::Read, f, p as u64, n as u64, 0).unwrap_or(0);
            trace(Op::Read, f, p as u64, n as u64, 0, r);
            res(r) as isize
        }
        _ => fail_with(EBADF) as isize,
    }
}
#[no_mangle]
pub extern "C" fn vk_write(f: i32, p: *const u8, n: usize) -> isize {
    if f == 1 || f == 2 {
        return n as isize;
    }
    let Some(x) = fd(f) else { return fail_with(EBADF) as isize };
    match x.kind {
        Kind::EventFd => {
            let v = unsafe { (p as *const u64).read_unaligned() };
            x.count += v;
            trace(Op::Notify, f, v, 0, 0, 8);
            wake_epoll();
            8
        }
        Kind::PipeW => {
            let r = x.sock[0] as i32;
            fd(r).unwrap().count += n as u64;
            trace(Op::Notify, f, n as u64, 0, 0, n as i64);
            wake_epoll();
            n as isize
        }
        Kind::Env => {
            transfer(p as usize, n, 0, false);
            let r = hook(Op::Write, f, p as u64, n as u64, 0).unwrap_or(n as i64);
            trace(Op::Write, f, p as u64, n as u64, 0, r);
            res(r) as isize
        }
        _ => fail_with(EBADF) as isize,
    }
}
#[no_mangle]
pub extern "C" fn vk_pipe2(p: *mut [i32; 2], flags: i32) -> i32 {
    let r = newfd(Kind::PipeR);
    let w = newfd(Kind::PipeW);
    fd(w).unwrap().sock[0] = r as u64;
    for f in [r, w] {
        let x = fd(f).unwrap();
        x.cloexec = flags & 0o2000000 != 0;
        x.nonblock = flags & 0o4000 != 0;
    }
    unsafe { *p = [r, w] };
    0
}
#[no_mangle]
pub extern "C" fn vk_poll(_p: *mut u8, _n: u64, _t: i32) -> i32 {
    0
}
/// Signal disposition: nothing to do.
#[no_mangle]
pub extern "C" fn vk_pause() -> i32 {
    fail("kernel model: pause")
}

/// A descriptor whose readiness the environment decides.
pub fn env_fd() -> i32 {
    newfd(Kind::Env)
}

/// Makes the descriptor ready, as another party would.
pub fn set_ready(i: usize, rd: bool, wr: bool) {
    let x = &mut k().fds[i];
    x.rd = rd;
    x.wr = wr;
    wake_epoll();
}

// ----- sockets: descriptors of the environment; a hook decides what the calls return -----
pub const NSA: usize = 128;
pub struct Net {
    /// the address passed to the last bind, connect or sendto
    pub sa: [u8; NSA],
    pub salen: usize,
    /// the address that accept4, recvfrom, getsockname and getpeername report
    pub out: [u8; NSA],
    pub outlen: usize,
    /// what SO_ERROR reports
    pub soerror: i32,
    /// the arguments of the last data transfer
    pub buf: usize,
    pub len: usize,
    pub flags: u64,
    pub from: bool,
    /// domain, type, protocol and number of sockets made
    pub made: [u64; 3],
    pub nmade: u32,
    pub calls: u32,
}
pub static mut NET: Net =
    Net { sa: [0; NSA], salen: 0, out: [0; NSA], outlen: 0, soerror: 0, buf: 0, len: 0, flags: 0, from: false, made: [0; 3], nmade: 0, calls: 0 };
pub fn net() -> &'static mut Net {
    unsafe { &mut *std::ptr::addr_of_mut!(NET) }
}
fn get_sa(p: *const u8, n: u32) {
    let t = net();
    t.salen = n as usize;
    for i in 0..(n as usize).min(NSA) {
        t.sa[i] = unsafe { *p.add(i) };
    }
}
fn put_sa(p: *mut u8, n: *mut u32) {
    if p.is_null() {
        return;
    }
    let t = net();
    let cap = unsafe { *n } as usize;
    for i in 0..t.outlen.min(cap) {
        unsafe { *p.add(i) = t.out[i] };
    }
    unsafe { *n = t.outlen as u32 };
}
/// The result of a call on an existing descriptor: what the hook says, or this.
fn sock(op: Op, f: i32, a: u64, b: u64, c: u64, or: i64) -> i64 {
    if fd(f).is_none() {
        return -(EBADF as i64);
    }
    let r = hook(op, f, a, b, c).unwrap_or(or);
    trace(op, f, a, b, c, r);
    r
}
fn new_sock(flags: u64) -> i32 {
    let f = newfd(Kind::Env);
    let x = fd(f).unwrap();
    x.nonblock = flags & 0o4000 != 0;
    x.cloexec = flags & 0o2000000 != 0;
    f
}
#[no_mangle]
pub extern "C" fn vk_socket(d: i32, t: i32, p: i32) -> i32 {
    if let Some(r) = hook(Op::Socket, -1, d as u64, t as u64, p as u64) {
        trace(Op::Socket, -1, d as u64, t as u64, p as u64, r);
        return res(r) as i32;
    }
    let f = new_sock(t as u64);
    net().made = [d as u64, t as u64, p as u64];
    net().nmade += 1;
    trace(Op::Socket, f, d as u64, t as u64, p as u64, f as i64);
    f
}
#[no_mangle]
pub extern "C" fn vk_socketpair(d: i32, t: i32, p: i32, o: *mut [i32; 2]) -> i32 {
    if let Some(r) = hook(Op::SockPair, -1, d as u64, t as u64, p as u64) {
        return res(r) as i32;
    }
    let a = new_sock(t as u64);
    let b = new_sock(t as u64);
    net().made = [d as u64, t as u64, p as u64];
    unsafe { *o = [a, b] };
    trace(Op::SockPair, a, d as u64, t as u64, b as u64, 0);
    0
}
#[no_mangle]
pub extern "C" fn vk_bind(f: i32, p: *const u8, n: u32) -> i32 {
    get_sa(p, n);
    res(sock(Op::Bind, f, n as u64, 0, 0, 0)) as i32
}
#[no_mangle]
pub extern "C" fn vk_listen(f: i32, n: i32) -> i32 {
    res(sock(Op::Listen, f, n as u64, 0, 0, 0)) as i32
}
#[no_mangle]
pub extern "C" fn vk_connect(f: i32, p: *const u8, n: u32) -> i32 {
    get_sa(p, n);
    res(sock(Op::Connect, f, n as u64, 0, 0, 0)) as i32
}
#[no_mangle]
pub extern "C" fn vk_accept4(f: i32, p: *mut u8, n: *mut u32, flags: i32) -> i32 {
    let r = sock(Op::Accept, f, flags as u64, 0, 0, 0);
    if r < 0 {
        return res(r) as i32;
    }
    put_sa(p, n);
    new_sock(flags as u64)
}
#[no_mangle]
pub extern "C" fn vk_getsockname(f: i32, p: *mut u8, n: *mut u32) -> i32 {
    let r = sock(Op::GetSockName, f, 0, 0, 0, 0);
    if r >= 0 {
        put_sa(p, n);
    }
    res(r) as i32
}
#[no_mangle]
pub extern "C" fn vk_getpeername(f: i32, p: *mut u8, n: *mut u32) -> i32 {
    let r = sock(Op::GetPeerName, f, 0, 0, 0, 0);
    if r >= 0 {
        put_sa(p, n);
    }
    res(r) as i32
}
#[no_mangle]
pub extern "C" fn vk_getsockopt(f: i32, l: i32, o: i32, p: *mut i32, n: *mut u32) -> i32 {
    let r = sock(Op::GetSockOpt, f, l as u64, o as u64, 0, 0);
    if r >= 0 {
        if l == 1 && o == 4 {
            unsafe {
                *p = net().soerror;
                *n = 4;
            }
            net().soerror = 0;
        } else {
            fail("kernel model: getsockopt");
        }
    }
    res(r) as i32
}
#[no_mangle]
pub extern "C" fn vk_setsockopt(f: i32, l: i32, o: i32, _p: *const u8, _n: u32) -> i32 {
    res(sock(Op::SetSockOpt, f, l as u64, o as u64, 0, 0)) as i32
}
fn transfer(p: usize, n: usize, flags: i32, from: bool) {
    let t = net();
    t.buf = p;
    t.len = n;
    t.flags = flags as u64;
    t.from = from;
    t.calls += 1;
}
#[no_mangle]
pub extern "C" fn vk_recv(f: i32, p: *mut u8, n: usize, flags: i32) -> isize {
    transfer(p as usize, n, flags, false);
    res(sock(Op::Recv, f, p as u64, n as u64, flags as u64, -(EAGAIN as i64))) as isize
}
#[no_mangle]
pub extern "C" fn vk_recvfrom(f: i32, p: *mut u8, n: usize, flags: i32, a: *mut u8, al: *mut u32) -> isize {
    transfer(p as usize, n, flags, true);
    let r = sock(Op::RecvFrom, f, p as u64, n as u64, flags as u64, -(EAGAIN as i64));
    if r >= 0 {
        put_sa(a, al);
    }
    res(r) as isize
}
#[no_mangle]
pub extern "C" fn vk_send(f: i32, p: *const u8, n: usize, flags: i32) -> isize {
    transfer(p as usize, n, flags, false);
    res(sock(Op::Send, f, p as u64, n as u64, flags as u64, -(EAGAIN as i64))) as isize
}
#[no_mangle]
pub extern "C" fn vk_sendto(f: i32, p: *const u8, n: usize, flags: i32, a: *const u8, al: u32) -> isize {
    transfer(p as usize, n, flags, true);
    get_sa(a, al);
    res(sock(Op::SendTo, f, p as u64, n as u64, flags as u64, -(EAGAIN as i64))) as isize
}
#[no_mangle]
pub extern "C" fn vk_readv(f: i32, p: *const [usize; 2], n: i32) -> isize {
    let b = unsafe { *p };
    transfer(b[0], b[1], n, false);
    res(sock(Op::Read, f, b[0] as u64, b[1] as u64, n as u64, -(EAGAIN as i64))) as isize
}
#[no_mangle]
pub extern "C" fn vk_writev(f: i32, p: *const [usize; 2], n: i32) -> isize {
    let b = unsafe { *p };
    transfer(b[0], b[1], n, false);
    res(sock(Op::Write, f, b[0] as u64, b[1] as u64, n as u64, -(EAGAIN as i64))) as isize
}
