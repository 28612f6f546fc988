//! Debug output (C24).
use crate::elem::*;
use crate::kinds::*;
use crate::model::*;
use crate::sets::*;
use crate::sx::*;
use lazy_clone_collections::Stack;
use std::fmt::{self, Debug, Write};

/// A place to write to that takes `room` bytes and then fails.
struct Sink {
    b: Vec<u8>,
    room: usize,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.room {
            return Err(fmt::Error);
        }
        self.room -= s.len();
        self.b.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

/// What elements have been printed, in order (harness/src/elem.rs).
fn printed(f: impl FnOnce(&mut Sink) -> fmt::Result, room: usize) -> (Vec<u8>, bool, Vec<u32>) {
    let mut s = Sink { b: Vec::with_capacity(512), room };
    let before = prints().len();
    g().clones = 0;
    let ok = f(&mut s).is_ok();
    chk_if(LAZY, g().clones == 0, "printing clones no element");
    let log = prints().split_off(before);
    (s.b, ok, log)
}

/// Stands for an element in the text that is wanted.
#[derive(Clone, Copy)]
struct P(u32);
impl Debug for P {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        print(self.0, f)
    }
}

struct Want<'a> {
    head: &'a str,
    kind: u8,
    r: &'a Ref,
    tail: &'a str,
}
impl Debug for Want<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.head)?;
        match self.kind {
            0 => f.debug_map().entries((0..self.r.len()).map(|i| (P(self.r.k(i) as u32), P(self.r.v(i) as u32 | 1 << 16)))).finish()?,
            1 => f.debug_set().entries((0..self.r.len()).map(|i| P(self.r.k(i) as u32))).finish()?,
            _ => f.debug_list().entries((0..self.r.len()).rev().map(|i| P(self.r.k(i) as u32))).finish()?,
        }
        f.write_str(self.tail)
    }
}

/// c: 1 with {:#?}; 4: with a width; 8: one of the first (from bit 8) elements
/// fails to print; else from bit 8: the least length at which the writer does
/// not fail
fn compare<T: Debug>(t: &T, w: &Want, c: u64) {
    fn form<T: Debug>(t: &T, c: u64, room: usize) -> (Vec<u8>, bool, Vec<u32>) {
        match c & 5 {
            0 => printed(|s| write!(s, "{:?}", t), room),
            1 => printed(|s| write!(s, "{:#?}", t), room),
            4 => printed(|s| write!(s, "{:7?}", t), room),
            _ => printed(|s| write!(s, "{:#7?}", t), room),
        }
    }
    let n = if c >> 8 == 0 { 0 } else { choice(c >> 8) as usize };
    let room = if c & 8 != 0 || c >> 8 == 0 { 1 << 20 } else { n };
    let at = if c & 8 != 0 { n + 1 } else { 0 };
    *print_fails() = at;
    let (a, aok, alog) = form(t, c, room);
    *print_fails() = at;
    let (b, bok, blog) = form(w, c, room);
    *print_fails() = 0;
    chk_if(CONTENT, aok == bok, "formatting fails exactly if what it writes to does");
    if bok {
        chk_if(CONTENT, alog.len() == blog.len(), "every element is printed once");
        for i in 0..alog.len() {
            chk_if(CONTENT, alog[i] == blog[i], "the elements are printed in order");
        }
        chk_if(CONTENT, a.len() == b.len(), "the text is the elements in the notation documented");
        for i in 0..a.len() {
            chk_if(CONTENT, a[i] == b[i], "the text is the elements in the notation documented");
        }
    }
}

fn vals(r: &mut Ref) {
    for e in r.e.iter_mut() {
        e.1 = any16();
    }
}

/// c: as compare, and 2: a clone is held
pub fn map<M: Base + Debug>(a: u64, b: u64, c: u64, _d: u64) {
    let (steps, n) = ranks(style::<M>(), M::N, a, b);
    let keys = sym_keys(n);
    let mut r = Ref::new();
    for i in 0..keys.len() {
        r.e.push((keys[i], 0));
    }
    vals(&mut r);
    let m: M = build_of(&steps, &mut r);
    let m2 = if c & 2 != 0 { Some(m.clone()) } else { None };
    let (head, tail) = if M::AVL { ("AvlMap(", ")") } else { ("", "") };
    compare(&m, &Want { head, kind: 0, r: &r, tail }, c);
    drop(m2);
    same_map(&m, &r);
    cover("end");
}

fn same_map<M: Base>(m: &M, r: &Ref) {
    let mut i = 0;
    for (k, v) in m.iter() {
        chk_if(CONTENT, i < r.len() && k.v() == r.k(i) && v.v == r.v(i), "formatting changes nothing");
        i += 1;
    }
    chk_if(CONTENT, i == r.len(), "formatting changes nothing");
}

pub fn set<S: SetBase + Debug>(a: u64, b: u64, c: u64, _d: u64) {
    let (s, r) = build_set_sym::<S>(a, b, 0);
    let head = if S::AVL { "AvlSet(" } else { "BTreeSet(" };
    compare(&s, &Want { head, kind: 1, r: &r, tail: ")" }, c);
    cover("end");
}

/// a: how many elements
pub fn stack(a: u64, _b: u64, c: u64, _d: u64) {
    let mut s = Stack::new();
    let mut r = Ref::new();
    for _ in 0..a {
        let x = any16();
        s.push(K::new(x));
        r.e.push((x, 0));
    }
    let t = s.clone();
    let mut head = String::with_capacity(64);
    let _ = write!(head, "Stack {{ len: {}, elems: TOP", a);
    compare(&s, &Want { head: &head, kind: 2, r: &r, tail: "BOT }" }, c);
    drop(t);
    cover("end");
}

/// Formatting an iterator in any state does not panic.  c: which
pub fn iters<const N: usize>(a: u64, b: u64, c: u64, _d: u64) {
    let (mut m, r) = build::<BT<N>>(a, b, 0);
    let t = if c & 8 != 0 { Some(m.clone()) } else { None };
    let n = r.len();
    let f = choice(n as u64 + 1) as usize;
    let e = choice((n - f) as u64 + 1) as usize;
    fn go<I: DoubleEndedIterator + Debug>(mut i: I, f: usize, e: usize) {
        for _ in 0..f {
            drop(i.next());
        }
        for _ in 0..e {
            drop(i.next_back());
        }
        let (_, ok, _) = printed(|s| write!(s, "{:?}", i), 1 << 20);
        chk_if(CONTENT, ok, "an iterator can be formatted");
    }
    match c & 7 {
        0 => go(m.iter(), f, e),
        1 => go(m.iter_mut(), f, e),
        2 => go(m.range::<K, _>(..), f, e),
        3 => go(m.range_mut::<K, _>(..), f, e),
        _ => go(m.into_iter(), f, e),
    }
    drop(t);
    cover("end");
}
