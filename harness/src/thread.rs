//! Two threads, each with its own copy of a collection; the copies share
//! their nodes.  Keys and values are plain ones here (the counted elements of
//! the other harnesses would themselves be shared between the threads).
use crate::model::*;
use crate::sx::*;
use lazy_clone_collections::{btree, AvlMap, AvlSet};

type V = Box<u16>;

const W: &str = "copies used by two threads at once do not affect each other";
const OTHER: &str = "a copy that neither thread uses is unchanged";
const RES: &str = "an operation on a copy used by one thread has the result it has alone";

pub trait Coll: Clone + Sized {
    const MAP: bool = true;
    fn new() -> Self;
    fn ins(&mut self, k: u16, v: V) -> Option<V>;
    fn rem(&mut self, k: u16) -> Option<V>;
    fn get(&self, k: u16) -> Option<u16>;
    fn len(&self) -> usize;
    fn bump(&mut self, k: u16) -> bool;
    fn bump_all(&mut self);
    fn each(&self, f: &mut dyn FnMut(u16, u16));
    /// at most `front` from the front, `back` from the back, then dropped
    fn take(self, front: u64, back: u64, f: &mut dyn FnMut(u16, u16));
    fn keep(&mut self, f: &mut dyn FnMut(u16) -> bool);
    fn pop(&mut self) -> Option<(u16, u16)>;
    fn split(&mut self, k: u16) -> Option<Self>;
    fn join(&mut self, o: Self) -> bool;
}

macro_rules! map {
    ($map:ty, [$($g:tt)*], $it:expr, $keep:expr, $pop:expr, $split:expr, $join:expr) => {
        impl<$($g)*> Coll for $map {
            fn new() -> Self {
                <$map>::new()
            }
            fn ins(&mut self, k: u16, v: V) -> Option<V> {
                self.insert(k, v)
            }
            fn rem(&mut self, k: u16) -> Option<V> {
                self.remove(&k)
            }
            fn get(&self, k: u16) -> Option<u16> {
                <$map>::get(self, &k).map(|v| **v)
            }
            fn len(&self) -> usize {
                <$map>::len(self)
            }
            fn bump(&mut self, k: u16) -> bool {
                match self.get_mut(&k) {
                    Some(v) => {
                        **v += 100;
                        true
                    }
                    None => false,
                }
            }
            fn bump_all(&mut self) {
                for (_, v) in self.iter_mut() {
                    **v += 100;
                }
            }
            fn each(&self, f: &mut dyn FnMut(u16, u16)) {
                for (k, v) in self.iter() {
                    f(*k, **v);
                }
            }
            fn take(self, front: u64, back: u64, f: &mut dyn FnMut(u16, u16)) {
                let g: fn(Self, u64, u64, &mut dyn FnMut(u16, u16)) = $it;
                g(self, front, back, f)
            }
            fn keep(&mut self, f: &mut dyn FnMut(u16) -> bool) {
                let g: fn(&mut Self, &mut dyn FnMut(u16) -> bool) = $keep;
                g(self, f)
            }
            fn pop(&mut self) -> Option<(u16, u16)> {
                let g: fn(&mut Self) -> Option<(u16, u16)> = $pop;
                g(self)
            }
            fn split(&mut self, k: u16) -> Option<Self> {
                let g: fn(&mut Self, u16) -> Option<Self> = $split;
                g(self, k)
            }
            fn join(&mut self, o: Self) -> bool {
                let g: fn(&mut Self, Self) -> bool = $join;
                g(self, o)
            }
        }
    };
}

fn both_ends<I: DoubleEndedIterator<Item = (u16, V)>>(mut i: I, a: u64, b: u64, f: &mut dyn FnMut(u16, u16)) {
    for _ in 0..a {
        match i.next() {
            Some((k, v)) => f(k, *v),
            None => break,
        }
    }
    for _ in 0..b {
        match i.next_back() {
            Some((k, v)) => f(k, *v),
            None => break,
        }
    }
}

map!(AvlMap<u16, V>, [],
    |s, a, b, f| both_ends(s.into_iter(), a, b, f),
    |s, f| s.retain(|k, _| f(*k)),
    |s| s.pop_first().map(|(k, v)| (k, *v)),
    |s, k| Some(s.split_off(&k)),
    |s, mut o| { s.append(&mut o); true });
map!(btree::BTreeMap<u16, V, N>, [const N: usize],
    |s, a, b, f| both_ends(s.into_iter(), a, b, f),
    |s, f| s.retain(|k, _| f(*k)),
    |s| s.pop_first().map(|(k, v)| (k, *v)),
    |s, k| Some(s.split_off(&k)),
    |s, mut o| { s.append(&mut o); true });
map!(btree::fixed::BTreeMap<u16, V>, [],
    |s, a, _, f| {
        let mut i = s.into_iter();
        for _ in 0..a {
            match i.next() {
                Some((k, v)) => f(k, *v),
                None => break,
            }
        }
    },
    |_, _| (),
    |_| None,
    |_, _| None,
    |_, _| false);

/// One thread's part.
struct Job<M> {
    m: Option<M>,
    op: u64,
    x: u16,
    seen: Vec<(u16, u16)>,
    other: Option<M>,
    res: Option<u16>,
}

fn go<M: Coll>(t: &mut Job<M>) {
    let x = t.x;
    let seen = &mut t.seen;
    let mut see = |k, v| seen.push((k, v));
    if let Some(m) = &mut t.m {
        match t.op {
            0 => t.res = m.ins(x, Box::new(77)).map(|v| *v),
            1 => t.res = m.rem(x).map(|v| *v),
            2 => t.res = if m.bump(x) { Some(1) } else { None },
            3 => m.bump_all(),
            4 => m.keep(&mut |k| k < x),
            5 => {
                if let Some((k, v)) = m.pop() {
                    see(k, v)
                }
            }
            6 => {
                let c = m.clone();
                t.res = c.get(x);
                drop(c);
                m.each(&mut see);
            }
            7 => t.other = m.split(x),
            8 => {
                // leaves the copy and comes back
                t.res = m.ins(x, Box::new(77)).map(|v| *v);
                m.rem(x);
            }
            _ => (),
        }
    }
    match t.op {
        9 => drop(t.m.take()),
        10 | 11 | 12 => {
            if let Some(m) = t.m.take() {
                let (a, b) = match t.op {
                    10 => (99, 0),
                    11 => (1, 1),
                    _ => (0, 99),
                };
                m.take(a, b, &mut see);
            }
        }
        13 => {
            // taken apart and joined again
            if let Some(m) = &mut t.m {
                if let Some(h) = m.split(x) {
                    m.join(h);
                }
            }
        }
        _ => (),
    }
}

extern "C-unwind" fn call<M: Coll>(p: *mut u8) {
    go(unsafe { &mut *(p as *mut Job<M>) })
}

fn same<M: Coll>(m: &M, r: &Ref, w: &str) {
    chk(m.len() == r.len(), w);
    let mut i = 0;
    m.each(&mut |k, v| {
        chk(i < r.len() && r.k(i) == k && r.v(i) == v, w);
        i += 1;
    });
    chk(i == r.len(), w);
}

/// What the operation does to a map that one thread has for itself.
fn settle<M: Coll>(t: &mut Job<M>, r: &Ref) {
    let mut r = r.clone();
    let x = t.x;
    let mut hi = Ref::new();
    let mut seen = vec![];
    let mut res = None;
    match t.op {
        0 => res = r.ins(x, 77),
        1 => res = r.rem(x).map(|e| e.1),
        2 => {
            if let Ok(i) = r.pos(x) {
                r.e[i].1 += 100;
                res = Some(1);
            }
        }
        3 => {
            for e in &mut r.e {
                e.1 += 100;
            }
        }
        4 => {
            let mut w = Ref::new();
            for e in &r.e {
                if e.0 < x {
                    w.e.push(*e);
                }
            }
            r = w;
        }
        5 => {
            if r.len() > 0 {
                seen.push(r.remove_at(0));
            }
        }
        6 => {
            res = r.get(x);
            seen = r.e.clone();
        }
        7 => {
            let mut w = Ref::new();
            for e in &r.e {
                if e.0 < x {
                    w.e.push(*e);
                } else {
                    hi.e.push(*e);
                }
            }
            r = w;
        }
        8 => {
            res = r.ins(x, 77);
            r.rem(x);
        }
        10 => seen = r.e.clone(),
        11 => {
            if r.len() > 0 {
                seen.push(r.e[0]);
            }
            if r.len() > 1 {
                seen.push(r.e[r.len() - 1]);
            }
        }
        12 => {
            for e in r.e.iter().rev() {
                seen.push(*e);
            }
        }
        _ => (),
    }
    chk(t.res == res, RES);
    if t.op == 12 && t.seen.is_empty() {
        // not every map iterates backwards
        seen.clear();
    }
    if t.op != 11 || t.seen.len() == seen.len() {
        chk(t.seen.len() == seen.len(), RES);
    }
    let n = t.seen.len();
    for i in 0..n {
        chk(i < seen.len() && t.seen[i] == seen[i], RES);
    }
    if let Some(m) = &t.m {
        same(m, &r, W);
    }
    if let Some(m) = &t.other {
        same(m, &hi, W);
    }
}

/// a: elements | order in which they are inserted << 4.
/// b: what the first thread does | what the second does << 4.
/// c: (1: a third copy is held) | (2: the second copy has changed already)
/// | preemptions << 4.
pub fn maps<M: Coll>(a: u64, b: u64, c: u64, _d: u64) {
    let n = a & 15;
    let mut m = M::new();
    let mut r = Ref::new();
    let mut ks: Vec<u16> = Vec::with_capacity(16);
    for i in 0..n {
        let k = any16();
        assume(k < 1000);
        if i > 0 {
            assume(ks[i as usize - 1] < k);
        }
        ks.push(k);
        r.e.push((k, 10 + i as u16));
    }
    for i in crate::typ::order(a >> 4, n) {
        m.ins(ks[i as usize], Box::new(10 + i as u16));
    }
    let third = if c & 1 != 0 { Some(m.clone()) } else { None };
    let mut m2 = m.clone();
    let mut r2 = r.clone();
    if c & 2 != 0 {
        // the copies share part of their nodes only
        let k = ks[n as usize / 2];
        m2.bump(k);
        if let Ok(i) = r2.pos(k) {
            r2.e[i].1 += 100;
        }
    }
    let j = |m: M, op| {
        let x = any16();
        assume(x < 1000);
        Job { m: Some(m), op, x, seen: Vec::with_capacity(16), other: None, res: None }
    };
    let mut t0 = j(m, b & 15);
    let mut t1 = j(m2, b >> 4);
    par(call::<M>, &mut t0 as *mut _ as *mut u8, call::<M>, &mut t1 as *mut _ as *mut u8, c >> 4);
    settle(&mut t0, &r);
    settle(&mut t1, &r2);
    drop(t0);
    drop(t1);
    if let Some(m) = &third {
        same(m, &r, OTHER);
    }
    drop(third);
    cover("end");
}

/// Both threads look at one and the same collection.
struct Look<'a, M> {
    m: &'a M,
    x: u16,
    got: Option<u16>,
    n: usize,
    c: Option<M>,
}
extern "C-unwind" fn look<M: Coll>(p: *mut u8) {
    let t = unsafe { &mut *(p as *mut Look<M>) };
    t.got = t.m.get(t.x);
    let mut n = 0;
    t.m.each(&mut |_, _| n += 1);
    t.n = n;
    let mut c = t.m.clone();
    c.bump_all();
    c.rem(t.x);
    t.c = Some(c);
}

/// a, c: as above.
pub fn looks<M: Coll>(a: u64, _b: u64, c: u64, _d: u64) {
    let n = a & 15;
    let mut m = M::new();
    let mut r = Ref::new();
    for i in crate::typ::order(a >> 4, n) {
        let k = 10 * (i as u16 + 1);
        m.ins(k, Box::new(k + 1));
        r.ins(k, k + 1);
    }
    let (x, y) = (any16(), any16());
    assume(x < 200 && y < 200);
    let mut t0 = Look { m: &m, x, got: None, n: 0, c: None };
    let mut t1 = Look { m: &m, x: y, got: None, n: 0, c: None };
    par(look::<M>, &mut t0 as *mut _ as *mut u8, look::<M>, &mut t1 as *mut _ as *mut u8, c >> 4);
    for t in [&t0, &t1] {
        chk(t.got == r.get(t.x) && t.n == n as usize, RES);
        let mut w = r.clone();
        for e in &mut w.e {
            e.1 += 100;
        }
        w.rem(t.x);
        if let Some(c) = &t.c {
            same(c, &w, W);
        }
    }
    drop(t0.c.take());
    drop(t1.c.take());
    same(&m, &r, OTHER);
    cover("end");
}

/// Sets are maps; what they add is the algebra.
struct AJob<S> {
    a: Option<S>,
    b: Option<S>,
    op: u64,
}
extern "C-unwind" fn ago(p: *mut u8) {
    let t = unsafe { &mut *(p as *mut AJob<AvlSet<u16>>) };
    if let (Some(a), Some(b)) = (t.a.take(), t.b.take()) {
        t.a = Some(match t.op {
            0 => &a | &b,
            1 => &a & &b,
            2 => &a - &b,
            _ => &a ^ &b,
        });
    }
}
/// a: elements of the one set | of the other << 4.  b: as above.
pub fn algebra(a: u64, b: u64, c: u64, _d: u64) {
    let (n, m) = (a & 15, a >> 4);
    let mut s = AvlSet::new();
    let mut u = AvlSet::new();
    let mut r = Ref::new();
    let mut q = Ref::new();
    for i in 0..n {
        let k = 4 + 4 * i as u16;
        s.insert(k);
        r.ins(k, 0);
    }
    for i in 0..m {
        // one of them anywhere
        let mut k = 4 + 8 * i as u16;
        if i == 0 {
            k = any16();
            assume(k < 40);
        }
        u.insert(k);
        q.ins(k, 0);
    }
    let mut t0 = AJob { a: Some(s.clone()), b: Some(u.clone()), op: b & 15 };
    let mut t1 = AJob { a: Some(s), b: Some(u), op: b >> 4 };
    par(ago, &mut t0 as *mut _ as *mut u8, ago, &mut t1 as *mut _ as *mut u8, c >> 4);
    for t in [&t0, &t1] {
        let w = combine(&r, &q, match t.op {
            0 => Comb::Union,
            1 => Comb::Inter,
            2 => Comb::Diff,
            _ => Comb::Sym,
        });
        if let Some(s) = &t.a {
            chk(s.len() == w.len(), W);
            let mut i = 0;
            for k in s.iter() {
                chk(i < w.len() && *k == w.k(i), W);
                i += 1;
            }
        }
    }
    cover("end");
}
