//! Element types that account for every copy made of them.
use crate::sx::*;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

// Which groups of assertions a job asks for.
/// results and contents
pub const CONTENT: u64 = 1;
/// balance, lookup cost
pub const BAL: u64 = 2;
/// the other copies are unchanged
pub const ISO: u64 = 4;
/// how many elements are cloned
pub const LAZY: u64 = 8;
/// each element dropped exactly once; nothing leaks
pub const DROP: u64 = 16;
/// iterator lengths and size hints
pub const HINT: u64 = 32;

const MAXE: usize = 4096;
const MAXP: usize = 128;

pub struct Glob {
    pub groups: u64,
    pub next: usize,
    pub alive: i32,
    /// how many different pairs of keys have been compared since `recount`
    pub cmps: u32,
    pairs: [usize; MAXP],
    pub clones: u32,
    /// when not 0: the fuse-th call into user code from now panics
    pub fuse: u32,
    /// user code has panicked: what then leaks is no error
    pub panicked: bool,
    pub reg: [u8; MAXE],
}

static mut GLOB: Glob = Glob { groups: 0, next: 0, alive: 0, cmps: 0, pairs: [0; MAXP], clones: 0, fuse: 0, panicked: false, reg: [0; MAXE] };

#[allow(static_mut_refs)]
pub fn g() -> &'static mut Glob {
    unsafe { &mut GLOB }
}

pub fn on(group: u64) -> bool {
    g().groups & group != 0
}

/// Asserts b if the job asks for this group.
pub fn chk_if(group: u64, b: bool, m: &str) {
    if on(group) {
        chk(b, m)
    }
}

pub fn begin(groups: u64) {
    let g = g();
    let mut i = 0;
    while i < g.next {
        g.reg[i] = 0;
        i += 1;
    }
    g.groups = groups;
    g.next = 0;
    g.alive = 0;
    g.cmps = 0;
    g.clones = 0;
    g.fuse = 0;
    g.panicked = false;
}

pub fn end() {
    trace(g().next as u64);
    if on(DROP) && !g().panicked {
        chk(g().alive == 0, "every element has been dropped once nothing holds it");
        chk(live() == 0, "all memory has been freed once nothing holds it");
    }
}

fn birth() -> u16 {
    let g = g();
    let id = g.next;
    if id >= MAXE {
        // the bound on elements made per run is part of the claim
        assume(false);
    }
    g.next = id + 1;
    g.reg[id] = 1;
    g.alive += 1;
    id as u16
}

fn death(id: u16) {
    let g = g();
    let ok = (id as usize) < g.next && g.reg[id as usize] == 1;
    if g.groups & DROP != 0 {
        chk(ok, "an element that is dropped has not been dropped before");
    }
    if ok {
        g.reg[id as usize] = 2;
        g.alive -= 1;
    }
}

fn touch(id: u16) {
    let g = g();
    if g.groups & DROP != 0 {
        chk((id as usize) < g.next && g.reg[id as usize] == 1, "an element that is used has not been dropped");
    }
}

/// Counts a comparison, unless these two keys have been compared before: what
/// a lookup costs is how many keys it looks at, and asking both < and == of one
/// is no difference of order.  (The addresses of a lookup's operands differ in
/// one operand only, so that their sum tells them apart.)
fn compared(a: usize, b: usize) {
    let g = g();
    if g.groups & BAL == 0 {
        return;
    }
    let p = a.wrapping_add(b);
    let n = g.cmps as usize;
    let mut i = 0;
    while i < n && i < MAXP {
        if g.pairs[i] == p {
            return;
        }
        i += 1;
    }
    if n < MAXP {
        g.pairs[n] = p;
    }
    g.cmps += 1;
}

/// starts the count of comparisons anew
pub fn recount() {
    g().cmps = 0;
}

/// a call into user code
pub fn tick() {
    let g = g();
    if g.fuse != 0 {
        g.fuse -= 1;
        if g.fuse == 0 {
            throw();
        }
    }
}

/// The borrowed form of a key, which lookups are made with.
#[derive(Clone, Copy, Debug)]
#[repr(transparent)]
pub struct Q(pub u16);

impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        compared(self as *const Q as usize, o as *const Q as usize);
        self.0 == o.0
    }
}
impl Eq for Q {}

impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Q {
    fn cmp(&self, o: &Q) -> Ordering {
        tick();
        compared(self as *const Q as usize, o as *const Q as usize);
        self.0.cmp(&o.0)
    }
}

/// What has been printed with {:?}: keys, and values marked by 1 << 16.
#[allow(static_mut_refs)]
pub fn prints() -> &'static mut Vec<u32> {
    static mut PRINTS: Vec<u32> = Vec::new();
    unsafe { &mut PRINTS }
}
/// Which of the elements printed fails (counting from 1).
pub fn print_fails() -> &'static mut usize {
    static mut AT: usize = 0;
    #[allow(static_mut_refs)]
    unsafe {
        &mut AT
    }
}
/// As an element with structure would: {:#?} takes more than one line, and a
/// width counts.
pub fn print(x: u32, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    prints().push(x);
    let at = print_fails();
    if *at > 0 {
        *at -= 1;
        if *at == 0 {
            return Err(std::fmt::Error);
        }
    }
    if f.alternate() {
        f.write_str("[\n")?;
    }
    f.pad(if x >> 16 == 0 { "key" } else { "val" })
}

impl std::fmt::Debug for K {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        touch(self.id);
        print(self.q.0 as u32, f)
    }
}
pub struct K {
    pub q: Q,
    /// tells equal keys apart; copied by clone
    pub tag: u16,
    id: u16,
}
impl K {
    pub fn new(v: u16) -> K {
        K { q: Q(v), tag: 0, id: birth() }
    }
    pub fn tagged(v: u16, tag: u16) -> K {
        K { q: Q(v), tag, id: birth() }
    }
    pub fn v(&self) -> u16 {
        touch(self.id);
        self.q.0
    }
}
impl Clone for K {
    fn clone(&self) -> K {
        touch(self.id);
        tick();
        g().clones += 1;
        K { q: self.q, tag: self.tag, id: birth() }
    }
}
impl Drop for K {
    fn drop(&mut self) {
        death(self.id)
    }
}
impl Borrow<Q> for K {
    fn borrow(&self) -> &Q {
        touch(self.id);
        &self.q
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        touch(self.id);
        touch(o.id);
        tick();
        compared(&self.q as *const Q as usize, &o.q as *const Q as usize);
        self.q.0 == o.q.0
    }
}
impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> Ordering {
        touch(self.id);
        touch(o.id);
        tick();
        compared(&self.q as *const Q as usize, &o.q as *const Q as usize);
        self.q.0.cmp(&o.q.0)
    }
}
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u16(self.q.0)
    }
}

impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        touch(self.id as u16);
        print(self.v as u32 | 1 << 16, f)
    }
}
/// A mapped value (of another size and alignment than a key).
pub struct V {
    pub v: u16,
    id: u32,
}
impl V {
    pub fn new(v: u16) -> V {
        V { v, id: birth() as u32 }
    }
    pub fn get(&self) -> u16 {
        touch(self.id as u16);
        self.v
    }
    pub fn set(&mut self, v: u16) {
        touch(self.id as u16);
        self.v = v;
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        touch(self.id as u16);
        tick();
        g().clones += 1;
        V { v: self.v, id: birth() as u32 }
    }
}
impl Drop for V {
    fn drop(&mut self) {
        death(self.id as u16)
    }
}
pub const DEFAULT_V: u16 = 0xd0d0;
impl Default for V {
    fn default() -> V {
        V::new(DEFAULT_V)
    }
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        touch(self.id as u16);
        touch(o.id as u16);
        tick();
        self.v == o.v
    }
}
impl Eq for V {}
impl PartialOrd for V {
    fn partial_cmp(&self, o: &V) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for V {
    fn cmp(&self, o: &V) -> Ordering {
        touch(self.id as u16);
        touch(o.id as u16);
        tick();
        self.v.cmp(&o.v)
    }
}
impl Hash for V {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u16(self.v)
    }
}
