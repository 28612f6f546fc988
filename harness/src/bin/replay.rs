//! Runs harnesses natively on concrete inputs.
//!
//!   replay batch FILE     every line `harness p,p,p,p : inputs : hash n` (the
//!                         symbolic executor's record of a path): the native
//!                         run must make the same observations
//!   replay loose FILE START   the same from line START on in a build of another
//!                         profile, whose debug assertions may call the
//!                         elements' comparisons more or less often: only
//!                         failed assertions and panics count
//!   replay one HARNESS P,P,P,P INPUTS
//!   replay threads HARNESS P,P,P,P INPUTS N   N times, with real threads
//!
//! Exit 0: all as expected.  1: an assertion fails or the code panics
//! (`one`), or observations differ (`batch`).  4: inputs do not fit.  5: likewise, in
//! `loose`; the output names the line.
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

struct Run {
    inputs: Vec<u64>,
    at: usize,
    hash: u64,
    n: u32,
    base: i64,
    what: String,
    depth: u32,
    line: i64,
}
static mut RUN: Run = Run { inputs: Vec::new(), at: 0, hash: 0, n: 0, base: 0, what: String::new(), depth: 0, line: -1 };
#[allow(static_mut_refs)]
fn run() -> &'static mut Run {
    unsafe { &mut RUN }
}

struct Thrown;

fn finish(mut code: i32, m: &str) -> ! {
    if code == 4 && run().line >= 0 {
        println!("MISFIT {}", run().line);
        code = 5;
    }
    println!("{} [{} inputs {:?}]", m, run().what, run().inputs);
    let _ = std::io::stdout().flush();
    unsafe { _exit(code) }
}
extern "C" {
    fn _exit(c: i32) -> !;
}

fn input() -> u64 {
    let r = run();
    if r.at >= r.inputs.len() {
        finish(4, "INPUTS EXHAUSTED");
    }
    r.at += 1;
    r.inputs[r.at - 1]
}
#[no_mangle]
extern "C-unwind" fn sx_u16() -> u16 {
    input() as u16
}
#[no_mangle]
extern "C-unwind" fn sx_u64() -> u64 {
    input()
}
#[no_mangle]
extern "C-unwind" fn sx_choice(n: u64) -> u64 {
    let x = input();
    if x >= n {
        finish(4, "INPUT OUT OF RANGE");
    }
    x
}
#[no_mangle]
extern "C-unwind" fn sx_fork(x: u64) -> u64 {
    x
}
#[no_mangle]
extern "C-unwind" fn sx_assume(b: bool) {
    if !b {
        finish(4, "ASSUMPTION FAILS");
    }
}
#[no_mangle]
extern "C-unwind" fn sx_assert(b: bool, p: *const u8, l: usize) {
    if !b {
        let m = unsafe { std::slice::from_raw_parts(p, l) };
        finish(1, &format!("ASSERTION FAILS: {}", String::from_utf8_lossy(m)));
    }
}
#[no_mangle]
extern "C-unwind" fn sx_trace(x: u64) {
    let r = run();
    for b in x.to_le_bytes() {
        r.hash = (r.hash ^ b as u64).wrapping_mul(0x100000001b3);
    }
    r.n += 1;
}
#[no_mangle]
extern "C-unwind" fn sx_cover(_: *const u8, _: usize) {}
#[no_mangle]
extern "C-unwind" fn sx_try(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u8 {
    run().depth += 1;
    let r = catch_unwind(AssertUnwindSafe(|| f(d)));
    run().depth -= 1;
    match r {
        Ok(()) => 0,
        Err(e) => {
            drop(e);
            1
        }
    }
}
struct Part(extern "C-unwind" fn(*mut u8), *mut u8);
unsafe impl Send for Part {}
impl Part {
    fn run(self) {
        if let Err(e) = catch_unwind(AssertUnwindSafe(|| (self.0)(self.1))) {
            drop(e);
            finish(1, "A THREAD PANICS");
        }
    }
}
#[no_mangle]
extern "C-unwind" fn sx_par(f: extern "C-unwind" fn(*mut u8), a: *mut u8, g: extern "C-unwind" fn(*mut u8), b: *mut u8, _: u64) {
    let (f, g) = (Part(f, a), Part(g, b));
    if unsafe { THREADS } {
        let h = std::thread::spawn(move || f.run());
        g.run();
        let _ = h.join();
    } else {
        f.run();
        g.run();
    }
}
/// two threads are really two
static mut THREADS: bool = false;

#[no_mangle]
extern "C-unwind" fn sx_throw() {
    resume_unwind(Box::new(Thrown))
}
#[no_mangle]
extern "C-unwind" fn sx_live() -> u64 {
    (LIVE.load(Relaxed) - run().base) as u64
}

fn nums(s: &str) -> Vec<u64> {
    s.split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).map(|x| x.parse().expect("number")).collect()
}

/// Returns hash and length of the observations, or the panic's message.
fn exec(h: lcc_harness::H, p: &[u64]) -> Result<(u64, u32), String> {
    let r = run();
    r.at = 0;
    r.hash = 0xcbf29ce484222325;
    r.n = 0;
    r.depth = 0;
    r.base = LIVE.load(Relaxed);
    match catch_unwind(AssertUnwindSafe(|| h(p[0], p[1], p[2], p[3]))) {
        Ok(()) => Ok((r.hash, r.n)),
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "(no message)".into()
            };
            Err(m)
        }
    }
}

fn find(n: &str) -> lcc_harness::H {
    for (k, h) in lcc_harness::TABLE {
        if *k == n {
            return *h;
        }
    }
    finish(4, &format!("NO HARNESS {}", n))
}

fn main() {
    // panics inside sx_try are expected and stay silent
    std::panic::set_hook(Box::new(|i| {
        if run().depth == 0 {
            println!("PANIC: {}", i);
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "one" | "threads" => {
            let times = if a[1] == "threads" {
                unsafe { THREADS = true };
                // what the first thread allocates for good
                let _ = std::thread::spawn(|| ()).join();
                nums(&a[5])[0]
            } else {
                1
            };
            let p = nums(&a[3]);
            run().inputs = nums(a.get(4).map(|s| s.as_str()).unwrap_or(""));
            run().what = format!("{} {}", a[2], a[3]);
            for _ in 1..times {
                if let Err(m) = exec(find(&a[2]), &p) {
                    finish(1, &format!("PANICS: {}", m));
                }
            }
            match exec(find(&a[2]), &p) {
                Ok((h, n)) => finish(0, &format!("HOLDS: {} observations, {:016x}", n, h)),
                Err(m) => finish(1, &format!("PANICS: {}", m)),
            }
        }
        "batch" | "loose" => {
            let loose = a[1] == "loose";
            let start = if loose { nums(&a[3])[0] as usize } else { 0 };
            let mut differ = 0u64;
            let text = std::fs::read_to_string(&a[2]).expect("file");
            let mut ok = 0u64;
            for (i, l) in text.lines().enumerate().skip(start) {
                if loose {
                    run().line = i as i64;
                }
                let f: Vec<&str> = l.split(" : ").collect();
                let (name, ps) = f[0].split_once(' ').expect("harness and parameters");
                let p = nums(ps);
                let v = nums(f[1]);
                run().what = l.to_string();
                run().inputs = v;
                let h = find(name);
                match exec(h, &p) {
                    Ok((h, n)) => {
                        let mine = format!("{:016x} {}", h, n);
                        if loose {
                            differ += (mine != f[2] || run().at != run().inputs.len()) as u64;
                            ok += 1;
                            continue;
                        }
                        if mine != f[2] {
                            finish(1, &format!("OBSERVATIONS DIFFER: native {} symbolic {}", mine, f[2]));
                        }
                        if run().at != run().inputs.len() {
                            finish(1, "INPUTS LEFT OVER");
                        }
                    }
                    Err(m) => finish(1, &format!("PANICS: {}", m)),
                }
                ok += 1;
            }
            println!("BATCH OK {} {}", ok - differ, differ);
            let _ = std::io::stdout().flush();
        }
        _ => finish(4, "USAGE"),
    }
}
