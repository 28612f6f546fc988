//! Values that are only partially ordered, like floats: `==` and the
//! comparisons are decided element by element, not by identity (C16).
use crate::model::*;
use crate::sx::*;
use lazy_clone_collections::{btree, AvlMap, Stack};
use std::cmp::Ordering;

/// An even x differs from everything, itself included, and compares with
/// nothing; odd ones compare as numbers.
#[derive(Clone)]
pub struct P(u16);
fn num(x: u16) -> bool {
    x & 1 == 1
}
fn pcmp(a: u16, b: u16) -> Option<Ordering> {
    if !num(a) || !num(b) {
        None
    } else if a < b {
        Some(Ordering::Less)
    } else if a == b {
        Some(Ordering::Equal)
    } else {
        Some(Ordering::Greater)
    }
}
impl PartialEq for P {
    fn eq(&self, o: &P) -> bool {
        num(self.0) && self.0 == o.0
    }
}
impl PartialOrd for P {
    fn partial_cmp(&self, o: &P) -> Option<Ordering> {
        pcmp(self.0, o.0)
    }
}

const EQ: &str = "== holds exactly of equal element sequences";
const LEX: &str = "partial_cmp is the lexicographic comparison";

fn want(a: &Ref, b: &Ref, keys: bool) -> (bool, Option<Ordering>) {
    let mut i = 0;
    let mut c = Some(Ordering::Equal);
    let mut eq = a.len() == b.len();
    while i < a.len() && i < b.len() {
        let kc = if !keys || a.k(i) == b.k(i) {
            Some(Ordering::Equal)
        } else if a.k(i) < b.k(i) {
            Some(Ordering::Less)
        } else {
            Some(Ordering::Greater)
        };
        let vc = pcmp(a.v(i), b.v(i));
        if kc != Some(Ordering::Equal) || vc != Some(Ordering::Equal) {
            eq = false;
        }
        if c == Some(Ordering::Equal) {
            c = if kc != Some(Ordering::Equal) { kc } else { vc };
        }
        i += 1;
    }
    if c == Some(Ordering::Equal) && a.len() != b.len() {
        c = Some(if a.len() < b.len() { Ordering::Less } else { Ordering::Greater });
    }
    (eq, c)
}

fn check<T: PartialEq + PartialOrd>(x: &T, y: &T, a: &Ref, b: &Ref, keys: bool) {
    let (eq, c) = want(a, b, keys);
    chk((x == y) == eq, EQ);
    chk((x != y) == !eq, EQ);
    chk(x.partial_cmp(y) == c, LEX);
    chk((x < y) == (c == Some(Ordering::Less)), LEX);
    chk((x <= y) == (c == Some(Ordering::Less) || c == Some(Ordering::Equal)), LEX);
    chk((x > y) == (c == Some(Ordering::Greater)), LEX);
    chk((x >= y) == (c == Some(Ordering::Greater) || c == Some(Ordering::Equal)), LEX);
    cover(if c.is_none() { "incomparable" } else { "comparable" });
}

pub trait PMap: Clone + PartialEq + PartialOrd {
    fn make() -> Self;
    fn put(&mut self, k: u16, v: u16);
    fn val(&mut self, k: u16) -> Option<&mut P>;
    fn del(&mut self, k: u16);
}
impl PMap for AvlMap<u16, P> {
    fn make() -> Self {
        Self::new()
    }
    fn put(&mut self, k: u16, v: u16) {
        self.insert(k, P(v));
    }
    fn val(&mut self, k: u16) -> Option<&mut P> {
        self.get_mut(&k)
    }
    fn del(&mut self, k: u16) {
        self.remove(&k);
    }
}
impl<const N: usize> PMap for btree::BTreeMap<u16, P, N> {
    fn make() -> Self {
        Self::new()
    }
    fn put(&mut self, k: u16, v: u16) {
        self.insert(k, P(v));
    }
    fn val(&mut self, k: u16) -> Option<&mut P> {
        self.get_mut(&k)
    }
    fn del(&mut self, k: u16) {
        self.remove(&k);
    }
}

/// a elements, inserted upwards or (b & 1) downwards.
/// c: what it is compared with
///   0: one of b >> 4 elements of its own    1: itself
///   2: a clone                              3: a clone with one value changed
///   4: a clone less one element             5: the same values, other shape
///   6: a clone with one element more
pub fn maps<M: PMap>(a: u64, b: u64, c: u64, _d: u64) {
    let make = |n: u64, down: bool| {
        let mut m = M::make();
        let mut r = Ref::new();
        for i in 0..n as usize {
            let k = any16();
            if i > 0 {
                assume(r.k(i - 1) < k);
            }
            r.e.push((k, any16()));
        }
        for i in 0..r.len() {
            let i = if down { r.len() - 1 - i } else { i };
            m.put(r.k(i), r.v(i));
        }
        (m, r)
    };
    let (m, r) = make(a, b & 1 == 1);
    let (m2, r2) = match c {
        0 => make(b >> 4, b & 2 == 2),
        1 => {
            check(&m, &m, &r, &r, true);
            cover("end");
            return;
        }
        5 => {
            let mut m2 = M::make();
            for i in 0..r.len() {
                let i = (i * 7 + 3) % 11;
                if i < r.len() {
                    m2.put(r.k(i), r.v(i));
                }
            }
            for i in 0..r.len() {
                m2.put(r.k(i), r.v(i));
            }
            (m2, r.clone())
        }
        _ => {
            let (mut m2, mut r2) = (m.clone(), r.clone());
            if c == 6 {
                let (q, v) = (any16(), any16());
                m2.put(q, v);
                r2.ins(q, v);
            } else if c > 2 {
                let i = choice(r.len() as u64) as usize;
                if c == 3 {
                    let v = any16();
                    if let Some(x) = m2.val(r.k(i)) {
                        x.0 = v;
                    }
                    r2.e[i].1 = v;
                } else {
                    m2.del(r.k(i));
                    r2.rem(r.k(i));
                }
            }
            (m2, r2)
        }
    };
    check(&m, &m2, &r, &r2, true);
    check(&m2, &m, &r2, &r, true);
    cover("end");
}

/// a, b: lengths.  c: 0 unrelated; 1 itself; 2 a clone; 3 a clone with b more;
/// 4 clones diverging above b common elements
pub fn stacks(a: u64, b: u64, c: u64, _d: u64) {
    let mut s = Stack::new();
    let mut r = Ref::new();
    let add = |s: &mut Stack<P>, r: &mut Ref, n: u64| {
        for _ in 0..n {
            let v = any16();
            s.push(P(v));
            r.e.insert(0, (0, v));
        }
    };
    add(&mut s, &mut r, a);
    let (mut t, mut q) = (Stack::new(), Ref::new());
    match c {
        0 => add(&mut t, &mut q, b),
        1 => {
            check(&s, &s, &r, &r, false);
            cover("end");
            return;
        }
        _ => {
            t = s.clone();
            q = r.clone();
            if c == 3 {
                add(&mut t, &mut q, b);
            }
            if c == 4 {
                while q.len() as u64 > b {
                    t.pop();
                    q.e.remove(0);
                }
                s = t.clone();
                r = q.clone();
                add(&mut t, &mut q, 1);
                add(&mut s, &mut r, 2);
            }
        }
    }
    check(&s, &t, &r, &q, false);
    check(&t, &s, &q, &r, false);
    cover("end");
}
