//! The interface between the harnesses and whatever runs them: the symbolic
//! executor (which gives these functions their meaning) or `replay` (which
//! feeds them the concrete inputs the solver found).

extern "C-unwind" {
    fn sx_u16() -> u16;
    fn sx_u64() -> u64;
    fn sx_choice(n: u64) -> u64;
    fn sx_fork(x: u64) -> u64;
    fn sx_assume(b: bool);
    fn sx_assert(b: bool, p: *const u8, l: usize);
    fn sx_trace(x: u64);
    fn sx_cover(p: *const u8, l: usize);
    fn sx_try(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u8;
    fn sx_throw();
    fn sx_par(f: extern "C-unwind" fn(*mut u8), a: *mut u8, g: extern "C-unwind" fn(*mut u8), b: *mut u8, preemptions: u64);
    fn sx_live() -> u64;
}

pub fn any16() -> u16 {
    unsafe { sx_u16() }
}
pub fn any64() -> u64 {
    unsafe { sx_u64() }
}
/// 0..n, every value explored, each on paths of its own
pub fn choice(n: u64) -> u64 {
    unsafe { sx_fork(sx_choice(n)) }
}
pub fn assume(b: bool) {
    unsafe { sx_assume(b) }
}
pub fn chk(b: bool, m: &str) {
    unsafe { sx_assert(b, m.as_ptr(), m.len()) }
}
pub fn trace(x: u64) {
    unsafe { sx_trace(x) }
}
pub fn cover(m: &str) {
    unsafe { sx_cover(m.as_ptr(), m.len()) }
}
pub fn throw() {
    unsafe { sx_throw() }
}
/// number of live heap allocations made since the harness started
pub fn live() -> u64 {
    unsafe { sx_live() }
}

/// Runs f(a) and g(b) in two threads, with at most so many preemptions, and
/// returns when both have ended.
pub fn par(f: extern "C-unwind" fn(*mut u8), a: *mut u8, g: extern "C-unwind" fn(*mut u8), b: *mut u8, preemptions: u64) {
    unsafe { sx_par(f, a, g, b, preemptions) }
}

/// Runs f; None if it panicked.
pub fn attempt<R, F: FnOnce() -> R>(f: F) -> Option<R> {
    struct D<F, R> {
        f: Option<F>,
        r: Option<R>,
    }
    extern "C-unwind" fn call<R, F: FnOnce() -> R>(p: *mut u8) {
        let d = unsafe { &mut *(p as *mut D<F, R>) };
        if let Some(f) = d.f.take() {
            d.r = Some(f());
        }
    }
    let mut d = D { f: Some(f), r: None };
    let p = unsafe { sx_try(call::<R, F>, &mut d as *mut D<F, R> as *mut u8) };
    if p != 0 {
        None
    } else {
        d.r.take()
    }
}
