//! Equality, order and hashes (C16).
use crate::bulk::Full;
use crate::elem::*;
use crate::kinds::*;
use crate::model::*;
use crate::sets::*;
use crate::sx::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// A hasher that records all it is fed, so that two values hash alike with
/// every hasher if their records are equal.
pub struct Rec {
    pub b: Vec<u8>,
}
impl Rec {
    pub fn new() -> Rec {
        Rec { b: Vec::with_capacity(64) }
    }
}
impl Hasher for Rec {
    fn write(&mut self, bytes: &[u8]) {
        for x in bytes {
            self.b.push(*x);
        }
    }
    fn finish(&self) -> u64 {
        0
    }
}

fn cmp16(a: u16, b: u16) -> Ordering {
    if a < b {
        Ordering::Less
    } else if a == b {
        Ordering::Equal
    } else {
        Ordering::Greater
    }
}

/// lexicographic; with values if asked
pub fn lex(a: &Ref, b: &Ref, values: bool) -> Ordering {
    let mut i = 0;
    loop {
        match (i < a.len(), i < b.len()) {
            (false, false) => return Ordering::Equal,
            (false, true) => return Ordering::Less,
            (true, false) => return Ordering::Greater,
            _ => (),
        }
        match cmp16(a.k(i), b.k(i)) {
            Ordering::Equal => (),
            o => return o,
        }
        if values {
            match cmp16(a.v(i), b.v(i)) {
                Ordering::Equal => (),
                o => return o,
            }
        }
        i += 1;
    }
}

fn build_vals<M: Base>(a: u64, b: u64) -> (M, Ref) {
    let (steps, n) = ranks(style::<M>(), M::N, a, b);
    let keys = sym_keys(n);
    let mut r = Ref::new();
    for i in 0..keys.len() {
        r.e.push((keys[i], any16()));
    }
    (build_of(&steps, &mut r), r)
}

fn verdicts(eq: bool, ne: bool, c: Ordering, p: Option<Ordering>, want: Ordering) {
    trace(c as i8 as u64);
    chk_if(CONTENT, eq == (want == Ordering::Equal), "== holds exactly of equal contents");
    chk_if(CONTENT, ne != eq, "!= is the negation of ==");
    chk_if(CONTENT, c == want, "cmp is the lexicographic comparison");
    chk_if(CONTENT, p == Some(want), "partial_cmp agrees with cmp");
    cover(match want {
        Ordering::Less => "less",
        Ordering::Equal => "equal",
        Ordering::Greater => "greater",
    });
}

/// Two maps of any contents with the given shapes (a, b: low 16 bits a, then b).
pub fn cmp_maps<M: Full + PartialEq>(a: u64, b: u64, _c: u64, _d: u64) {
    let (m1, r1) = build_vals::<M>(a & 0xffff, a >> 16);
    let (m2, r2) = build_vals::<M>(b & 0xffff, b >> 16);
    g().clones = 0;
    let (e, n, c, p) = (m1.eq_(&m2), m1 != m2, m1.cmp_(&m2), m1.pcmp_(&m2));
    chk_if(LAZY, g().clones == 0, "comparing clones no element");
    verdicts(e, n, c, p, lex(&r1, &r2, true));
    cover("end");
}

pub fn hash_avl(a: u64, b: u64, _c: u64, _d: u64) {
    let (m1, r1) = build_vals::<Avl>(a & 0xffff, a >> 16);
    let (m2, r2) = build_vals::<Avl>(b & 0xffff, b >> 16);
    if lex(&r1, &r2, true) == Ordering::Equal {
        let (mut h1, mut h2) = (Rec::new(), Rec::new());
        g().clones = 0;
        m1.hash(&mut h1);
        m2.hash(&mut h2);
        chk_if(LAZY, g().clones == 0, "hashing clones no element");
        chk_if(CONTENT, h1.b == h2.b, "equal maps hash alike");
        cover("equal");
    }
    cover("end");
}

pub fn cmp_sets<S: SetBase + PartialEq>(a: u64, b: u64, _c: u64, _d: u64) {
    let (s1, r1) = build_set_sym::<S>(a & 0xffff, a >> 16, 0);
    let (s2, r2) = build_set_sym::<S>(b & 0xffff, b >> 16, 0);
    g().clones = 0;
    let (e, n, c, p) = (s1.eq_(&s2), s1 != s2, s1.cmp_(&s2), s1.pcmp_(&s2));
    chk_if(LAZY, g().clones == 0, "comparing clones no element");
    let want = lex(&r1, &r2, false);
    verdicts(e, n, c, p, want);
    if want == Ordering::Equal {
        let (mut h1, mut h2) = (Rec::new(), Rec::new());
        g().clones = 0;
        s1.hash_(&mut h1);
        s2.hash_(&mut h2);
        chk_if(LAZY, g().clones == 0, "hashing clones no element");
        chk_if(CONTENT, h1.b == h2.b, "equal sets hash alike");
    }
    cover("end");
}

/// A map and a clone of it with some symbolic changes (a count c) compare as
/// their contents do, though they share structure.
pub fn cmp_shared<M: Full + PartialEq>(a: u64, b: u64, c: u64, _d: u64) {
    let (m1, r1) = build::<M>(a, b, 0);
    let mut m2 = m1.clone();
    let mut r2 = r1.clone();
    for _ in 0..c {
        let q = any16();
        match choice(3) {
            0 => {
                let v = any16();
                m2.ins(K::new(q), V::new(v));
                r2.ins(q, v);
            }
            1 => {
                m2.rem(&Q(q));
                r2.rem(q);
            }
            _ => {
                // a round trip that restores the contents
                if let Some(v) = m2.rem(&Q(q)) {
                    m2.ins(K::new(q), v);
                }
            }
        }
    }
    g().clones = 0;
    let (e, n, c, p) = (m1.eq_(&m2), m1 != m2, m1.cmp_(&m2), m1.pcmp_(&m2));
    chk_if(LAZY, g().clones == 0, "comparing clones no element");
    verdicts(e, n, c, p, lex(&r1, &r2, true));
    g().clones = 0;
    let (e, n, c, p) = (m2.eq_(&m1), m2 != m1, m2.cmp_(&m1), m2.pcmp_(&m1));
    chk_if(LAZY, g().clones == 0, "comparing clones no element");
    verdicts(e, n, c, p, lex(&r2, &r1, true));
    cover("end");
}
