//! Helpers shared by the harnesses.
#![allow(static_mut_refs)]
use crate::kernel::*;
use crate::v;
use std::future::Future;
use std::pin::Pin;
use std::task::*;
use std::time::{Duration, Instant};

pub const NW: usize = 12;
#[derive(Clone, Copy)]
pub struct WInfo {
    /// how often it was woken
    pub woken: u32,
    /// live clones
    pub live: i32,
    /// the number of the epoll_wait call before the last wake
    pub at_wait: u32,
}
pub static mut W: [WInfo; NW] = [WInfo { woken: 0, live: 0, at_wait: 0 }; NW];
pub static mut MAIN: Option<Waker> = None;
pub static mut ON_WAKE: Option<fn(usize)> = None;
pub static mut ON_DROP: Option<fn(usize)> = None;
pub static mut ON_CLONE: Option<fn(usize)> = None;
pub static mut TOTAL: u32 = 0;

/// wakers from here on are of tasks out of very many
pub const MANY: usize = 100;
pub static mut WMANY: [WInfo; 1200] = [WInfo { woken: 0, live: 0, at_wait: 0 }; 1200];

pub fn w(i: usize) -> &'static mut WInfo {
    unsafe {
        if i >= MANY {
            return &mut (*std::ptr::addr_of_mut!(WMANY))[i - MANY];
        }
        &mut (*std::ptr::addr_of_mut!(W))[i]
    }
}
unsafe fn wclone(p: *const ()) -> RawWaker {
    w(p as usize).live += 1;
    if let Some(f) = ON_CLONE {
        f(p as usize);
    }
    RawWaker::new(p, &VT)
}
struct Gone(*const ());
impl Drop for Gone {
    fn drop(&mut self) {
        unsafe { wdrop(self.0) }
    }
}
unsafe fn wwake(p: *const ()) {
    let _g = Gone(p);
    wwake_ref(p);
}
unsafe fn wwake_ref(p: *const ()) {
    let i = p as usize;
    w(i).woken += 1;
    w(i).at_wait = k().waits;
    TOTAL += 1;
    if let Some(f) = ON_WAKE {
        f(i);
    }
    if let Some(m) = &*std::ptr::addr_of!(MAIN) {
        m.wake_by_ref();
    }
}
unsafe fn wdrop(p: *const ()) {
    w(p as usize).live -= 1;
    if let Some(f) = ON_DROP {
        f(p as usize);
    }
}
static VT: RawWakerVTable = RawWakerVTable::new(wclone, wwake, wwake_ref, wdrop);

/// A waker that counts; `wk(i).will_wake(wk(j))` exactly if i = j.
pub fn wk(i: usize) -> Waker {
    w(i).live += 1;
    unsafe { Waker::from_raw(RawWaker::new(i as *const (), &VT)) }
}
pub fn woken(i: usize) -> u32 {
    w(i).woken
}
/// Polls once with waker i.
pub fn poll<F: Future + Unpin>(f: &mut F, i: usize) -> Poll<F::Output> {
    let wa = wk(i);
    let mut cx = Context::from_waker(&wa);
    Pin::new(f).poll(&mut cx)
}
pub fn with_cx<T>(i: usize, f: impl FnOnce(&mut Context<'_>) -> T) -> T {
    let wa = wk(i);
    let mut cx = Context::from_waker(&wa);
    f(&mut cx)
}
/// One round of the reactor that does not block.
pub fn react0() {
    async_io::block_on(futures_lite::future::yield_now());
}
struct DriveOnce(u32);
impl Future for DriveOnce {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        unsafe {
            if TOTAL != self.0 {
                MAIN = None;
                return Poll::Ready(());
            }
            MAIN = Some(cx.waker().clone());
        }
        Poll::Pending
    }
}
/// Blocks in `block_on` until some counting waker fires.
pub fn drive() {
    let t = unsafe { TOTAL };
    async_io::block_on(DriveOnce(t));
}

// ----- moments, as (seconds, nanoseconds) -----
pub type T = (u64, u32);
pub const BASE: T = (T0, 0);
/// The moment the clock shows.
pub fn now() -> T {
    (k().s, k().n)
}
pub fn tle(a: T, b: T) -> bool {
    le(a.0, a.1, b.0, b.1)
}
pub fn tlt(a: T, b: T) -> bool {
    !tle(b, a)
}
pub fn tadd(a: T, d: T) -> T {
    let n = a.1 + d.1;
    let c = n >= 1_000_000_000;
    (a.0 + d.0 + c as u64, n - (c as u32) * 1_000_000_000)
}
pub fn teq(a: T, b: T) -> bool {
    (a.0 == b.0) & (a.1 == b.1)
}
/// The `Instant` of a moment (at or after the start).
pub fn inst(t: T) -> Instant {
    let c = (k().s, k().n, k().clk_free);
    k().clk_free = false;
    k().s = T0;
    k().n = 0;
    let b = Instant::now();
    k().s = c.0;
    k().n = c.1;
    k().clk_free = c.2;
    b + Duration::new(t.0 - T0, t.1)
}
pub fn back(i: Instant) -> T {
    let b = inst(BASE);
    let d = i.duration_since(b);
    (T0 + d.as_secs(), d.subsec_nanos())
}
/// An arbitrary duration.
pub fn dur(n: &str) -> T {
    let (s, ns) = moment(n, n);
    (s - T0, ns)
}
/// Sets the resolution and range of symbolic time: mode 0 is nanoseconds within 2^bits (below a
/// second, so that no carry arises), mode 1 whole seconds, mode 2 both.
pub fn time_mode() {
    let b = v::param("bits", 20) as u32;
    match v::param("time", 0) {
        0 => {
            k().s_bits = 0;
            k().n_bits = b;
        }
        1 => {
            k().s_bits = b;
            k().n_bits = 0;
        }
        _ => {
            k().s_bits = b;
            k().n_bits = 30;
        }
    }
}
pub fn d(t: T) -> Duration {
    Duration::new(t.0, t.1)
}
/// Moves the clock on by an arbitrary amount.
pub fn pass() {
    advance();
}
