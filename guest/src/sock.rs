//! The socket types.
use crate::h::*;
use crate::io::E;
use crate::kernel::*;
use crate::v;
use async_io::Async;
use futures_lite::{Stream, StreamExt};
use std::convert::TryFrom;
use std::future::Future;
use std::io;
use std::net::*;
use std::os::fd::{AsFd, AsRawFd, FromRawFd, IntoRawFd, OwnedFd};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::net::{SocketAddr as UAddr, UnixDatagram, UnixListener, UnixStream};
use std::path::Path;
use std::pin::Pin;
use std::task::*;

type Fu<'a, T> = Pin<Box<dyn Future<Output = io::Result<T>> + 'a>>;

/// The call that fails, counted from the start, and how.
static mut FAIL_AT: u32 = 99;
static mut ERR: i64 = 0;
static mut CALLS: u32 = 0;
static mut FAILED: bool = false;
static mut BLOCKED: u32 = 0;
fn errno() -> i64 {
    let e = v::sym("errno", 8);
    v::assume((e > 0) & (e < 134));
    e as i64
}
fn one_fails(op: Op, _f: i32, a: u64, _b: u64, _c: u64) -> Option<i64> {
    let counts = match op {
        Op::Socket | Op::Bind | Op::Listen | Op::SockPair | Op::Ioctl | Op::Fcntl | Op::SetSockOpt => true,
        Op::EpollCtl => a == 1,
        Op::Accept => {
            if unsafe { BLOCKED } > 0 {
                unsafe { BLOCKED -= 1 };
                return Some(-(EAGAIN as i64));
            }
            true
        }
        Op::Connect => {
            return Some(-(EINPROGRESS as i64));
        }
        _ => false,
    };
    if !counts {
        return None;
    }
    unsafe {
        let n = CALLS;
        CALLS += 1;
        if n == FAIL_AT {
            FAILED = true;
            return Some(-ERR);
        }
    }
    None
}
fn open_fds() -> u32 {
    (3..k().top).filter(|i| k().fds[*i].kind != Kind::Free).count() as u32
}
/// A descriptor that a constructor returned.
fn good<T: AsFd>(a: &Async<T>) {
    let i = a.as_fd().as_raw_fd() as usize;
    let x = &k().fds[i];
    v::check(x.kind != Kind::Free, "a closed descriptor");
    v::check(x.nonblock, "the descriptor is not in non-blocking mode");
    v::check(x.cloexec, "the descriptor is not close-on-exec");
    v::check(x.reg, "the descriptor is not registered");
    // it can be waited for
    let mut f = a.readable();
    let mut g = a.writable();
    k().fds[i].rd = false;
    k().fds[i].wr = false;
    v::check(poll(&mut f, 0).is_pending() && poll(&mut g, 1).is_pending(), "ready at once");
    let n = (woken(0), woken(1));
    k().fds[i].rd = true;
    react0();
    v::check(woken(0) > n.0, "the descriptor is ready but the task was not woken");
    v::check(poll(&mut f, 0).is_ready() && poll(&mut g, 1).is_pending(), "ready for the wrong direction");
    k().fds[i].rd = false;
    k().fds[i].wr = true;
    react0();
    v::check(woken(1) > n.1 && poll(&mut g, 1).is_ready(), "the descriptor is ready but the task was not woken");
    v::cover("made");
}
fn drive_to<T>(mut f: Fu<'_, T>, fd: i32, rd: bool) -> io::Result<T> {
    // what the caller waits for comes
    for _ in 0..4 {
        if let Poll::Ready(r) = with_cx(2, |cx| f.as_mut().poll(cx)) {
            return r;
        }
        let n = woken(2);
        let f = if fd < 0 { (3..k().top).rev().find(|i| k().fds[*i].kind == Kind::Env && k().fds[*i].reg).unwrap_or(0) } else { fd as usize };
        k().fds[f].rd = rd;
        k().fds[f].wr = !rd;
        react0();
        v::check(woken(2) > n, "the descriptor is ready but the task was not woken");
    }
    v::check(false, "an operation never completes although the descriptor is ready");
    v::end()
}
fn put4(a: [u8; 4], port: u16) {
    let t = net();
    t.outlen = 16;
    t.out = [0; NSA];
    t.out[0] = 2;
    t.out[2..4].copy_from_slice(&port.to_be_bytes());
    t.out[4..8].copy_from_slice(&a);
}
fn put_unix(p: &[u8]) {
    let t = net();
    t.outlen = 2 + p.len() + !p.is_empty() as usize;
    t.out = [0; NSA];
    t.out[0] = 1;
    t.out[2..2 + p.len()].copy_from_slice(p);
}

/// N01: every constructor of sockets.
#[no_mangle]
pub extern "C" fn h_net_make() {
    react0();
    drop(Async::new(E::new()).unwrap());
    let lo: SocketAddr = (Ipv4Addr::LOCALHOST, 80).into();
    let kind = v::choice("ctor", 17);
    let open = open_fds();
    let tl;
    let ul;
    // (what exists before)
    let pre = match kind {
        3 | 4 | 13 | 14 => {
            tl = Some(Async::<TcpListener>::bind(lo).unwrap());
            ul = None;
            1
        }
        5 | 6 => {
            tl = None;
            ul = Some(Async::<UnixListener>::bind("/s").unwrap());
            1
        }
        _ => {
            tl = None;
            ul = None;
            0
        }
    };
    put4([127, 0, 0, 1], 80);
    if matches!(kind, 5 | 6 | 9) {
        put_unix(b"/p");
    }
    let raw = match kind {
        10..=12 | 15 | 16 => Some(unsafe { OwnedFd::from_raw_fd(env_fd()) }),
        _ => None,
    };
    if let Some(r) = &raw {
        k().fds[r.as_raw_fd() as usize].cloexec = true;
    }
    unsafe {
        FAIL_AT = v::choice("fail at", 8) as u32;
        ERR = errno();
        BLOCKED = v::choice("blocked", 2) as u32;
        // (an operation that would block is tried again, and interrupted ones are too)
        v::assume((ERR != EAGAIN as i64) & (ERR != EINTR as i64));
    }
    k().hook = Some(one_fails);
    fn one<T: AsFd>(r: io::Result<Async<T>>) -> Option<io::Error> {
        k().hook = None;
        match r {
            Ok(a) => {
                good(&a);
                None
            }
            Err(e) => Some(e),
        }
    }
    fn two<T: AsFd>(r: io::Result<(Async<T>, Async<T>)>) -> Option<io::Error> {
        k().hook = None;
        match r {
            Ok((a, b)) => {
                v::check(a.as_fd().as_raw_fd() != b.as_fd().as_raw_fd(), "one descriptor twice");
                good(&a);
                good(&b);
                None
            }
            Err(e) => Some(e),
        }
    }
    let tfd = tl.as_ref().map_or(0, |t| t.as_raw_fd());
    let ufd = ul.as_ref().map_or(0, |t| t.as_raw_fd());
    let err = match kind {
        0 => one(Async::<TcpListener>::bind(lo)),
        1 => one(Async::<UdpSocket>::bind(lo)),
        2 => one(Async::<UnixListener>::bind("/x")),
        3 => one(drive_to(Box::pin(tl.as_ref().unwrap().accept()), tfd, true).map(|(s, a)| {
            v::check(a == lo, "accept() reports another address");
            s
        })),
        4 => {
            let mut s = Box::pin(tl.as_ref().unwrap().incoming());
            one(drive_to(Box::pin(async { s.next().await.unwrap() }), tfd, true))
        }
        5 => one(drive_to(Box::pin(ul.as_ref().unwrap().accept()), ufd, true).map(|(s, a)| {
            v::check(a.as_pathname() == Some(Path::new("/p")), "accept() reports another address");
            s
        })),
        6 => {
            let mut s = Box::pin(ul.as_ref().unwrap().incoming());
            one(drive_to(Box::pin(async { s.next().await.unwrap() }), ufd, true))
        }
        7 => one(drive_to(Box::pin(Async::<TcpStream>::connect(lo)), -1, false)),
        8 => two(Async::<UnixStream>::pair()),
        9 => one(drive_to(Box::pin(Async::<UnixStream>::connect("/p")), -1, false)),
        10 => one(Async::<TcpListener>::try_from(TcpListener::from(raw.unwrap()))),
        11 => one(Async::<UdpSocket>::try_from(UdpSocket::from(raw.unwrap()))),
        12 => one(Async::<UnixDatagram>::try_from(UnixDatagram::from(raw.unwrap()))),
        13 => one(Async::<UnixDatagram>::unbound()),
        14 => one(Async::<UnixDatagram>::bind("/d")),
        15 => {
            let r = raw.unwrap();
            match v::choice("type", 3) {
                0 => one(Async::<UnixStream>::try_from(UnixStream::from(r))),
                1 => one(Async::<UnixListener>::try_from(UnixListener::from(r))),
                _ => one(Async::<TcpStream>::try_from(TcpStream::from(r))),
            }
        }
        _ => {
            drop(raw);
            two(Async::<UnixDatagram>::pair())
        }
    };
    k().hook = None;
    match err {
        None => {
            // (setting an option is allowed to fail silently)
            v::check(!unsafe { FAILED }, "an error of the system was ignored");
        }
        Some(e) => {
            v::cover("failed");
            v::check(unsafe { FAILED }, "making a socket failed although no system call did");
            v::check(e.raw_os_error() == Some(unsafe { ERR } as i32), "the error of a system call was changed");
        }
    }
    v::check(open_fds() == open + pre, "a descriptor leaks");
    drop((tl, ul));
    v::check(open_fds() == open, "a descriptor leaks");
}

static mut CONNECT: i64 = 0;
fn connecting(op: Op, _f: i32, a: u64, _b: u64, _c: u64) -> Option<i64> {
    match op {
        Op::Connect => Some(unsafe { CONNECT }),
        Op::GetPeerName if unsafe { ERR } != 0 => Some(-unsafe { ERR }),
        _ => {
            let _ = a;
            None
        }
    }
}
fn any_v4() -> (SocketAddrV4, [u8; 4], u16) {
    let x = v::sym("ip", 32) as u32;
    let p = v::sym("port", 16) as u16;
    let b = x.to_be_bytes();
    (SocketAddrV4::new(Ipv4Addr::new(b[0], b[1], b[2], b[3]), p), b, p)
}
fn any_v6() -> (SocketAddrV6, [u8; 16], u16, u32, u32) {
    let hi = v::sym("ip6", 64);
    let lo = v::sym("ip6", 64);
    let p = v::sym("port", 16) as u16;
    let fl = v::sym("flow", 32) as u32;
    let sc = v::sym("scope", 32) as u32;
    let mut b = [0; 16];
    b[..8].copy_from_slice(&hi.to_be_bytes());
    b[8..].copy_from_slice(&lo.to_be_bytes());
    (SocketAddrV6::new(Ipv6Addr::from(b), p, fl, sc), b, p, fl, sc)
}
fn same(a: &[u8], b: &[u8]) -> bool {
    let mut ok = true;
    for i in 0..b.len() {
        ok &= a[i] == b[i];
    }
    ok
}
/// An arbitrary address, and what the system has to be told.
fn any_addr() -> (SocketAddr, [u8; 28], usize) {
    let mut w = [0u8; 28];
    if v::flip("v6") {
        let (a, b, p, fl, sc) = any_v6();
        w[0] = 10;
        w[2..4].copy_from_slice(&p.to_be_bytes());
        w[4..8].copy_from_slice(&fl.to_ne_bytes());
        w[8..24].copy_from_slice(&b);
        w[24..28].copy_from_slice(&sc.to_ne_bytes());
        v::cover("v6");
        (a.into(), w, 28)
    } else {
        let (a, b, p) = any_v4();
        w[0] = 2;
        w[2..4].copy_from_slice(&p.to_be_bytes());
        w[4..8].copy_from_slice(&b);
        v::cover("v4");
        (a.into(), w, 16)
    }
}
fn told(w: &[u8; 28], n: usize) {
    let t = net();
    // (the padding of an IPv4 address does not count)
    let m = if n == 16 { 8 } else { n };
    v::check(t.salen == n, "an address of another length was passed to the system");
    // (rustix passes the flow information in network order, std as it is)
    let swapped = [w[7], w[6], w[5], w[4]];
    let flow = (m == 8) | same(&t.sa[4..8], &w[4..8]) | same(&t.sa[4..8], &swapped);
    let rest = same(&t.sa, &w[..4]) & same(&t.sa[8..], &w[8..m]) & ((m > 8) | same(&t.sa[4..], &w[4..8]));
    v::check(flow & rest, "another address was passed to the system");
}

/// N02: TCP and Unix stream connections.
#[no_mangle]
pub extern "C" fn h_net_connect() {
    react0();
    drop(Async::new(E::new()).unwrap());
    let open = open_fds();
    let unix = v::flip("unix");
    let how = v::choice("connect", 4);
    let er = errno();
    unsafe {
        CONNECT = match how {
            0 => 0,
            1 => -(EINPROGRESS as i64),
            2 => -(EAGAIN as i64),
            _ => {
                v::assume((er != EINPROGRESS as i64) & (er != EAGAIN as i64) & (er != EINTR as i64));
                -er
            }
        };
    }
    k().hook = Some(connecting);
    k().tracing = true;
    let (addr, wire, n) = any_addr();
    let (tf, uf): (Option<Fu<'_, Async<TcpStream>>>, Option<Fu<'_, Async<UnixStream>>>) =
        if unix { (None, Some(Box::pin(Async::<UnixStream>::connect("/p")))) } else { (Some(Box::pin(Async::<TcpStream>::connect(addr))), None) };
    let mut f: Fu<'_, i32> = Box::pin(async move {
        match tf {
            Some(f) => {
                let s = f.await?;
                good(&s);
                let fd = s.as_raw_fd();
                Ok(fd)
            }
            None => {
                let s = uf.unwrap().await?;
                good(&s);
                Ok(s.as_raw_fd())
            }
        }
    });
    let mut r = with_cx(3, |cx| f.as_mut().poll(cx));
    if how == 3 {
        match r {
            Poll::Ready(Err(e)) => {
                v::cover("refused at once");
                v::check(e.raw_os_error() == Some(er as i32), "the error of connect was changed");
            }
            _ => v::check(false, "an error of connect was ignored"),
        }
        v::check(open_fds() == open, "a descriptor leaks");
        return;
    }
    v::check(r.is_pending(), "connected before the socket became writable");
    v::check(net().made[0] == if unix { 1 } else if n == 28 { 10 } else { 2 } && net().made[1] & 0xf == 1, "a socket of another family or type");
    v::check(unix || net().made[2] == 0 || net().made[2] == 6, "a socket of another protocol");
    let s = (3..k().top).rev().find(|i| k().fds[*i].kind == Kind::Env).unwrap();
    v::check(k().fds[s].nonblock && k().fds[s].cloexec, "the descriptor is not in non-blocking mode, or not close-on-exec");
    let first = (0..k().ntr).find(|j| k().tr[*j].op == Op::Connect).map(|j| k().tr[j]).unwrap();
    v::check(first.fd as usize == s, "another descriptor was connected");
    if unix {
        v::check(net().salen == 5 && same(&net().sa, b"\x01\0/p\0"), "another address was passed to the system");
    } else {
        told(&wire, n);
    }
    if v::flip("given up") {
        drop(f);
        v::check(open_fds() == open, "a descriptor leaks");
        return;
    }
    if v::flip("spurious") {
        // readable only: nothing happens
        k().fds[s].rd = true;
        react0();
        v::check(woken(3) == 0, "woken by another event than that the socket is writable");
        k().fds[s].rd = false;
    }
    // the connection is made, or fails
    let fails = v::flip("fails");
    let e2 = v::sym("soerror", 8) as i32;
    v::assume((e2 > 0) & (e2 < 134));
    if fails {
        if unix {
            unsafe { ERR = e2 as i64 };
        } else {
            net().soerror = e2;
        }
        k().fds[s].err = true;
    } else {
        unsafe { ERR = 0 };
        put_unix(b"/p");
    }
    k().fds[s].wr = true;
    react0();
    k().fds[s].err = false;
    v::check(woken(3) > 0, "the socket is writable but the task was not woken");
    r = with_cx(3, |cx| f.as_mut().poll(cx));
    match r {
        Poll::Pending => v::check(false, "connect() is still pending although the socket is writable"),
        Poll::Ready(Ok(fd)) => {
            v::cover("connected");
            v::check(!fails, "an error of connecting was ignored");
            v::check(fd as usize == s, "another descriptor was returned");
        }
        Poll::Ready(Err(e)) => {
            v::cover("refused later");
            v::check(fails, "connecting failed although the system reported no error");
            v::check(e.raw_os_error() == Some(e2), "the error of connecting was changed");
        }
    }
    drop(f);
    v::check(open_fds() == open, "a descriptor leaks");
}

/// N03: paths and abstract names of Unix sockets.
#[no_mangle]
pub extern "C" fn h_net_path() {
    react0();
    let open = open_fds();
    let n = v::param("len", 3) as usize;
    let mut p = vec![0u8; n];
    let m = v::param("symbolic", 3) as usize;
    for i in 0..n {
        p[i] = if i < m || i + 1 == n { v::sym("byte", 8) as u8 } else { b'x' };
    }
    unsafe { CONNECT = -(EINPROGRESS as i64) };
    k().hook = Some(connecting);
    let path = Path::new(std::ffi::OsStr::from_bytes(&p));
    let abs = p[0] == 0;
    let mut inner = false;
    for i in 1..n {
        inner |= p[i] == 0;
    }
    let mut f = Box::pin(Async::<UnixStream>::connect(path));
    let r = with_cx(3, |cx| f.as_mut().poll(cx));
    let t = net();
    match r {
        Poll::Pending => {
            v::check(t.sa[0] == 1 && t.sa[1] == 0, "another family");
            if abs {
                v::cover("abstract");
                // the name is everything after the first zero, zeroes included
                v::check(n <= 108, "a name that is too long was accepted");
                v::check(t.salen == 2 + n, "an abstract name of another length");
                v::check(same(&t.sa[2..], &p), "another abstract name");
            } else {
                v::cover("path");
                v::check(!inner, "a path with a zero was accepted");
                v::check(n < 108, "a path that is too long was accepted");
                v::check(t.salen == 2 + n + 1 || t.salen == 2 + n, "a path of another length");
                v::check(same(&t.sa[2..], &p), "another path");
                v::check(t.salen == 2 + n || t.sa[2 + n] == 0, "a path that is not terminated");
            }
        }
        Poll::Ready(Err(e)) => {
            v::cover("rejected");
            let long = if abs { n > 108 } else { n >= 108 };
            v::check(long || (!abs && inner), "a valid name was rejected");
            v::check(t.nmade == 0 && open_fds() == open, "something was done with a name that was rejected");
            let _ = e;
        }
        Poll::Ready(Ok(_)) => v::check(false, "connected at once"),
    }
    drop(f);
    v::check(open_fds() == open, "a descriptor leaks");
}

static mut RES: i64 = 0;
static mut OPS: u32 = 0;
fn transfers(op: Op, _f: i32, _a: u64, _b: u64, _c: u64) -> Option<i64> {
    match op {
        Op::Recv | Op::RecvFrom | Op::Send | Op::SendTo | Op::Read | Op::Write => unsafe {
            OPS += 1;
            if BLOCKED > 0 {
                BLOCKED -= 1;
                return Some(-(EAGAIN as i64));
            }
            Some(RES)
        },
        _ => None,
    }
}
const PEEK: u64 = 2;
const NOSIGNAL: u64 = 0x4000;
/// N05: the operations of the socket types reach the system unchanged, and so do their results.
#[no_mangle]
pub extern "C" fn h_net_ops() {
    use futures_lite::{AsyncReadExt, AsyncWriteExt};
    react0();
    let kind = v::choice("op", 16);
    let t = Async::<TcpStream>::try_from(TcpStream::from(unsafe { OwnedFd::from_raw_fd(env_fd()) })).unwrap();
    let u = Async::<UdpSocket>::try_from(UdpSocket::from(unsafe { OwnedFd::from_raw_fd(env_fd()) })).unwrap();
    let d = Async::<UnixDatagram>::try_from(UnixDatagram::from(unsafe { OwnedFd::from_raw_fd(env_fd()) })).unwrap();
    let s = Async::<UnixStream>::try_from(UnixStream::from(unsafe { OwnedFd::from_raw_fd(env_fd()) })).unwrap();
    let len = 4usize;
    let mut buf = [0u8; 4];
    let bp = buf.as_ptr() as usize;
    let (to, wire, n) = any_addr();
    let (fa, fw, fl) = any_addr();
    let ok = v::flip("ok");
    let er = errno();
    v::assume((er != EAGAIN as i64) & (er != EINTR as i64));
    let cnt = v::sym("n", 3) as i64;
    v::assume(cnt <= 4);
    unsafe {
        RES = if ok { cnt } else { -er };
        BLOCKED = v::choice("blocked", 3) as u32;
    }
    let blocked = unsafe { BLOCKED };
    if kind == 11 {
        put_unix(b"/from");
    } else {
        net().outlen = fl;
        net().out[..28].copy_from_slice(&fw);
    }
    k().hook = Some(transfers);
    net().salen = 0;
    let (td, ud, dd, sd) = (t.as_raw_fd(), u.as_raw_fd(), d.as_raw_fd(), s.as_raw_fd());
    let read = matches!(kind, 0 | 2 | 3 | 4 | 5 | 8 | 10 | 11 | 14);
    let mut from: Option<SocketAddr> = None;
    let mut ufrom: Option<UAddr> = None;
    let fd = match kind {
        0 | 1 | 2 | 15 => td,
        3..=7 | 14 => ud,
        8 | 9 => sd,
        _ => dd,
    };
    let (mut tr, mut sr) = (&t, &s);
    let r: io::Result<usize> = {
        let f: Fu<'_, usize> = match kind {
            0 => Box::pin(tr.read(&mut buf)),
            1 => Box::pin(tr.write(&buf)),
            2 => Box::pin(t.peek(&mut buf)),
            3 => Box::pin(u.recv(&mut buf)),
            4 => Box::pin(u.peek(&mut buf)),
            5 => Box::pin(async {
                let (n, a) = u.recv_from(&mut buf).await?;
                from = Some(a);
                Ok(n)
            }),
            14 => Box::pin(async {
                let (n, a) = u.peek_from(&mut buf).await?;
                from = Some(a);
                Ok(n)
            }),
            6 => Box::pin(u.send(&buf)),
            7 => Box::pin(u.send_to(&buf, to)),
            8 => Box::pin(sr.read(&mut buf)),
            9 => Box::pin(sr.write(&buf)),
            10 => Box::pin(d.recv(&mut buf)),
            11 => Box::pin(async {
                let (n, a) = d.recv_from(&mut buf).await?;
                ufrom = Some(a);
                Ok(n)
            }),
            12 => Box::pin(d.send(&buf)),
            13 => Box::pin(d.send_to(&buf, "/to")),
            _ => Box::pin(tr.write(&buf)),
        };
        drive_to(f, fd, read)
    };
    v::check(unsafe { OPS } == blocked + 1, "an operation was tried another number of times than it took");
    let x = net();
    v::check(x.buf == bp && x.len == len, "another buffer was passed to the system");
    match kind {
        2 | 4 | 14 => v::check(x.flags == PEEK, "peeking must leave the data in place"),
        0 | 3 | 5 | 8 | 10 | 11 => v::check(x.flags & PEEK == 0 || kind == 0 || kind == 8, "receiving must take the data"),
        _ => {}
    }
    match kind {
        7 => {
            told(&wire, n);
            v::cover("send_to");
        }
        13 => v::check(x.salen == 6 && same(&x.sa, b"\x01\0/to\0"), "another address was passed to the system"),
        _ => v::check(x.salen == 0, "an address was passed to the system"),
    }
    match r {
        Ok(m) => {
            v::cover("ok");
            v::check(ok && m as i64 == cnt, "the result of an operation was changed");
            match kind {
                5 | 14 => v::check(from == Some(fa), "another sender was reported"),
                11 => v::check(ufrom.unwrap().as_pathname() == Some(Path::new("/from")), "another sender was reported"),
                _ => {}
            }
        }
        Err(e) => {
            v::cover("failed");
            v::check(!ok && e.raw_os_error() == Some(er as i32), "the error of an operation was changed");
        }
    }
}

/// N06: the descriptor of the reactor for another event loop.
#[no_mangle]
pub extern "C" fn h_reactor_fd() {
    time_mode();
    let f = async_io::os::unix::reactor_fd().unwrap().as_raw_fd() as usize;
    v::check(k().fds[f].kind == Kind::Epoll, "reactor_fd() is not the descriptor of the reactor");
    v::check(async_io::os::unix::reactor_fd().unwrap().as_raw_fd() as usize == f, "reactor_fd() changes");
    v::check((3..k().top).filter(|i| k().fds[*i].kind == Kind::Epoll).count() == 1, "there is more than one reactor");
    v::check(k().fds[f].cloexec, "the descriptor is not close-on-exec");
    let a = Async::new(E::new()).unwrap();
    let mut g = a.readable();
    v::check(poll(&mut g, 0).is_pending(), "ready at once");
    v::check(k().tr_ep == f as i32, "sources are registered with another descriptor");
    v::cover("same");
}

/// N04: the stream of incoming connections gives the result of every accept, and goes on.
static mut PLAN: [i64; 3] = [0; 3];
static mut ACCEPTS: usize = 0;
fn accepting(op: Op, _f: i32, a: u64, _b: u64, _c: u64) -> Option<i64> {
    unsafe {
        match op {
            Op::Accept if BLOCKED > 0 => {
                BLOCKED -= 1;
                Some(-(EAGAIN as i64))
            }
            Op::Accept => {
                let i = ACCEPTS;
                ACCEPTS += 1;
                v::check(i < 3, "connections are accepted before anybody asks for them");
                BLOCKED = 9;
                if PLAN[i] < 0 {
                    Some(PLAN[i])
                } else {
                    None
                }
            }
            // (registering the connection may fail as well)
            Op::EpollCtl if a == 1 && ACCEPTS > 0 && PLAN[ACCEPTS - 1] > 0 => Some(-PLAN[ACCEPTS - 1]),
            _ => None,
        }
    }
}
#[no_mangle]
pub extern "C" fn h_net_incoming() {
    react0();
    drop(Async::new(E::new()).unwrap());
    let unix = v::flip("unix");
    let open = open_fds();
    let lo: SocketAddr = (Ipv4Addr::LOCALHOST, 80).into();
    let tl = if unix { None } else { Some(Async::<TcpListener>::bind(lo).unwrap()) };
    let ul = if unix { Some(Async::<UnixListener>::bind("/s").unwrap()) } else { None };
    if unix {
        put_unix(b"/p");
    } else {
        put4([127, 0, 0, 1], 80);
    }
    let fd = if unix { ul.as_ref().unwrap().as_raw_fd() } else { tl.as_ref().unwrap().as_raw_fd() } as usize;
    let any = v::choice("any", 3) as usize;
    for i in 0..3 {
        unsafe {
            PLAN[i] = match v::choice("accept", 3) {
                0 => 0,
                // (any error for one of them)
                x => {
                    let e = if i == any { errno() } else { 103 };
                    if x == 1 {
                        -e
                    } else {
                        e
                    }
                }
            };
            // (tried again)
            v::assume((PLAN[i] != -(EAGAIN as i64)) & (PLAN[i] != -(EINTR as i64)) & (PLAN[i] != EAGAIN as i64) & (PLAN[i] != EINTR as i64));
        }
    }
    k().hook = Some(accepting);
    let mut s: Pin<Box<dyn Stream<Item = io::Result<OwnedConn>> + '_>> = if unix {
        Box::pin(ul.as_ref().unwrap().incoming().map(|r| r.map(OwnedConn::U)))
    } else {
        Box::pin(tl.as_ref().unwrap().incoming().map(|r| r.map(OwnedConn::T)))
    };
    for i in 0..3 {
        unsafe { BLOCKED = v::choice("blocked", 2) as u32 };
        let mut got = None;
        for _ in 0..3 {
            if let Poll::Ready(x) = with_cx(2, |cx| s.as_mut().poll_next(cx)) {
                got = Some(x);
                break;
            }
            let n = woken(2);
            k().fds[fd].rd = true;
            react0();
            k().fds[fd].rd = false;
            v::check(woken(2) > n, "the descriptor is ready but the task was not woken");
        }
        let p = unsafe { PLAN[i] };
        match got {
            None => v::check(false, "an operation never completes although the descriptor is ready"),
            Some(None) => v::check(false, "the stream of incoming connections ended"),
            Some(Some(Ok(c))) => {
                v::check(p == 0, "an error of the system was ignored");
                match &c {
                    OwnedConn::T(c) => good(c),
                    OwnedConn::U(c) => good(c),
                }
                v::cover("accepted");
            }
            Some(Some(Err(e))) => {
                v::cover("failed");
                v::check(e.raw_os_error() == Some((if p < 0 { -p } else { p }) as i32), "the error of a system call was changed");
            }
        }
        v::check(unsafe { ACCEPTS } == i + 1, "a connection was lost");
        v::check(open_fds() == open + 1, "a descriptor leaks");
    }
    drop(s);
    drop((tl, ul));
    v::check(open_fds() == open, "a descriptor leaks");
}
enum OwnedConn {
    T(Async<TcpStream>),
    U(Async<UnixStream>),
}
