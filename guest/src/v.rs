//! Interface to the symbolic executor (and, in native replays, to the tape reader).
extern "C" {
    fn v_sym(p: *const u8, n: usize, w: u32) -> u64;
    fn v_assume(c: u32);
    fn v_assert(c: u32, p: *const u8, n: usize);
    fn v_cover(p: *const u8, n: usize);
    fn v_log(p: *const u8, n: usize, x: u64);
    fn v_conc(x: u64) -> u64;
    fn v_param(p: *const u8, n: usize, d: u64) -> u64;
    fn v_threads(preempt: u64);
    fn v_tid() -> u64;
    fn v_block(timed: u64) -> u64;
    fn v_unblock(t: u64);
    fn v_yield();
    fn v_heap() -> u64;
    fn v_heap_bytes() -> u64;
    fn v_fail(p: *const u8, n: usize);
    fn v_end();
}
pub fn sym(n: &str, w: u32) -> u64 {
    unsafe { v_sym(n.as_ptr(), n.len(), w) }
}
pub fn sym_bool(n: &str) -> bool {
    // kept as a value: no branch here
    (unsafe { v_sym(n.as_ptr(), n.len(), 1) }) != 0
}
/// A symbolic value below `k`, one path per value.
pub fn choice(n: &str, k: u64) -> u64 {
    let w = if k <= 2 {
        1
    } else if k <= 4 {
        2
    } else if k <= 8 {
        3
    } else if k <= 16 {
        4
    } else {
        8
    };
    let x = sym(n, w);
    assume(x < k);
    unsafe { v_conc(x) }
}
/// One path per boolean value.
pub fn flip(n: &str) -> bool {
    choice(n, 2) == 1
}
#[inline(never)]
pub fn assume(c: bool) {
    unsafe { v_assume(c as u32) }
}
#[inline(never)]
pub fn check(c: bool, m: &str) {
    unsafe { v_assert(c as u32, m.as_ptr(), m.len()) }
}
pub fn cover(m: &str) {
    unsafe { v_cover(m.as_ptr(), m.len()) }
}
pub fn log(m: &str, x: u64) {
    unsafe { v_log(m.as_ptr(), m.len(), x) }
}
pub fn conc(x: u64) -> u64 {
    unsafe { v_conc(x) }
}
pub fn param(m: &str, d: u64) -> u64 {
    unsafe { v_param(m.as_ptr(), m.len(), d) }
}
pub fn threads(p: u64) {
    unsafe { v_threads(p) }
}
pub fn tid() -> u64 {
    unsafe { v_tid() }
}
pub fn block(timed: bool) -> bool {
    unsafe { v_block(timed as u64) != 0 }
}
pub fn unblock(t: u64) {
    unsafe { v_unblock(t) }
}
pub fn yield_() {
    unsafe { v_yield() }
}
pub fn heap() -> u64 {
    unsafe { v_heap() }
}
/// The size of everything allocated.
pub fn heap_bytes() -> u64 {
    unsafe { v_heap_bytes() }
}
pub fn fail(m: &str) -> ! {
    unsafe {
        v_fail(m.as_ptr(), m.len());
    }
    loop {
        unsafe { v_end() }
    }
}
pub fn end() -> ! {
    loop {
        unsafe { v_end() }
    }
}
