//! Sets (C13, C14, and the sets' share of C02, C04, C05, C07-C09, C12, C16, C21).
use crate::elem::*;
use crate::iters::*;
use crate::kinds::*;
use crate::model::*;
use crate::sx::*;
use std::cell::RefCell;
use std::cmp::Ordering;

pub trait SetBase: Sized + Clone {
    const AVL: bool;
    const N: usize;
    fn new() -> Self;
    fn ins(&mut self, k: K) -> bool;
    fn repl(&mut self, k: K) -> Option<K>;
    fn rem(&mut self, q: &Q) -> bool;
    fn take_(&mut self, q: &Q) -> Option<K>;
    fn get_(&self, q: &Q) -> Option<&K>;
    fn has(&self, q: &Q) -> bool;
    fn first_(&self) -> Option<&K>;
    fn last_(&self) -> Option<&K>;
    fn popf(&mut self) -> Option<K>;
    fn popl(&mut self) -> Option<K>;
    fn len_(&self) -> usize;
    fn empty(&self) -> bool;
    fn clear_(&mut self);
    fn append_(&mut self, o: &mut Self);
    fn split_(&mut self, q: &Q) -> Self;
    fn retain_(&mut self, f: &mut dyn FnMut(&K) -> bool);
    fn check_(&self) -> bool;
    fn each(&self, f: &mut dyn FnMut(&K));
    fn subset(&self, o: &Self) -> bool;
    fn superset(&self, o: &Self) -> bool;
    fn disjoint(&self, o: &Self) -> bool;
    /// union, intersection, difference, symmetric difference: by iterator
    fn lazy(&self, o: &Self, op: u64, f: &mut dyn FnMut(&K));
    /// ... by operator
    fn oper(&self, o: &Self, op: u64) -> Self;
    /// ... by constructor
    fn made(a: Self, b: Self, op: u64) -> Self;
    fn collect_(v: Vec<K>) -> Self;
    fn from3(v: [K; 3]) -> Self;
    fn extend_(&mut self, v: Vec<K>);
    fn extend_ref(&mut self, v: &Vec<K>);
    fn eq_(&self, o: &Self) -> bool;
    fn cmp_(&self, o: &Self) -> Ordering;
    fn pcmp_(&self, o: &Self) -> Option<Ordering>;
    fn hash_(&self, h: &mut crate::ord::Rec);
    fn by_ref(&self, which: u64, r: &Ref, p: &Plan);
    fn by_val(self, r: &Ref, p: &Plan);
    fn ranged(&self, lo: std::ops::Bound<Q>, hi: std::ops::Bound<Q>, a: usize, b: usize, r: &Ref, p: &Plan);
}

/// Consumes the iterator of a set operation.
fn walk<'k>(mut it: impl Iterator<Item = &'k K>, n: usize, f: &mut dyn FnMut(&K)) {
    if if on(HINT) { choice(2) == 1 } else { n % 3 == 2 } {
        it.for_each(f);
        return;
    }
    let mut hints = Vec::with_capacity(16);
    hints.push(it.size_hint());
    while let Some(k) = it.next() {
        f(k);
        hints.push(it.size_hint());
    }
    chk_if(CONTENT | HINT, it.next().is_none() && it.next().is_none(), "an ended iterator goes on returning None");
    let mut rest = hints.len();
    for (a, b) in hints {
        rest -= 1;
        chk_if(HINT, a <= rest, "size_hint's lower bound does not exceed what is still to come");
        if let Some(b) = b {
            chk_if(HINT, rest <= b, "size_hint's upper bound is not below what is still to come");
        }
    }
}

fn ck(k: &K, r: &Ref, i: usize) {
    let x = k.v();
    trace(x as u64);
    chk_if(CONTENT, x == r.k(i), "iteration yields the elements in ascending order");
}

macro_rules! set_methods {
    ($drive:ident) => {
        fn new() -> Self {
            Self::new()
        }
        fn ins(&mut self, k: K) -> bool {
            self.insert(k)
        }
        fn repl(&mut self, k: K) -> Option<K> {
            self.replace(k)
        }
        fn rem(&mut self, q: &Q) -> bool {
            self.remove(q)
        }
        fn take_(&mut self, q: &Q) -> Option<K> {
            self.take(q)
        }
        fn get_(&self, q: &Q) -> Option<&K> {
            self.get(q)
        }
        fn has(&self, q: &Q) -> bool {
            self.contains(q)
        }
        fn first_(&self) -> Option<&K> {
            self.first()
        }
        fn last_(&self) -> Option<&K> {
            self.last()
        }
        fn popf(&mut self) -> Option<K> {
            self.pop_first()
        }
        fn popl(&mut self) -> Option<K> {
            self.pop_last()
        }
        fn len_(&self) -> usize {
            self.len()
        }
        fn empty(&self) -> bool {
            self.is_empty()
        }
        fn clear_(&mut self) {
            self.clear()
        }
        fn append_(&mut self, o: &mut Self) {
            self.append(o)
        }
        fn split_(&mut self, q: &Q) -> Self {
            self.split_off(q)
        }
        fn retain_(&mut self, f: &mut dyn FnMut(&K) -> bool) {
            self.retain(|k| f(k))
        }
        fn check_(&self) -> bool {
            Set::check(self).is_ok()
        }
        fn each(&self, f: &mut dyn FnMut(&K)) {
            for k in self.iter() {
                f(k)
            }
        }
        fn subset(&self, o: &Self) -> bool {
            self.is_subset(o)
        }
        fn superset(&self, o: &Self) -> bool {
            self.is_superset(o)
        }
        fn disjoint(&self, o: &Self) -> bool {
            self.is_disjoint(o)
        }
        fn lazy(&self, o: &Self, op: u64, f: &mut dyn FnMut(&K)) {
            match op {
                0 => walk(self.union(o), self.len(), f),
                1 => walk(self.intersection(o), self.len(), f),
                2 => walk(self.difference(o), self.len(), f),
                _ => walk(self.symmetric_difference(o), self.len(), f),
            }
        }
        fn oper(&self, o: &Self, op: u64) -> Self {
            match op {
                0 => self | o,
                1 => self & o,
                2 => self - o,
                _ => self ^ o,
            }
        }
        fn made(a: Self, b: Self, op: u64) -> Self {
            match op {
                0 => Self::new_union(a, b),
                1 => Self::new_intersection(a, b),
                2 => Self::new_diff(a, b),
                _ => Self::new_sym_diff(a, b),
            }
        }
        fn collect_(v: Vec<K>) -> Self {
            v.into_iter().collect()
        }
        fn from3(v: [K; 3]) -> Self {
            Self::from(v)
        }
        fn extend_(&mut self, v: Vec<K>) {
            self.extend(v)
        }
        fn extend_ref(&mut self, v: &Vec<K>) {
            self.extend(v)
        }
        fn eq_(&self, o: &Self) -> bool {
            self == o
        }
        fn cmp_(&self, o: &Self) -> Ordering {
            self.cmp(o)
        }
        fn pcmp_(&self, o: &Self) -> Option<Ordering> {
            self.partial_cmp(o)
        }
        fn hash_(&self, h: &mut crate::ord::Rec) {
            std::hash::Hash::hash(self, h)
        }
        fn by_ref(&self, which: u64, r: &Ref, p: &Plan) {
            if which == 0 {
                $drive(self.iter(), r, p, |k, i| ck(k, r, i))
            } else {
                $drive(self.into_iter(), r, p, |k, i| ck(k, r, i))
            }
        }
        fn by_val(self, r: &Ref, p: &Plan) {
            $drive(self.into_iter(), r, p, |k, i| {
                ck(&k, r, i);
                p.keep(Some(k), None);
            })
        }
        fn ranged(&self, lo: std::ops::Bound<Q>, hi: std::ops::Bound<Q>, a: usize, b: usize, r: &Ref, p: &Plan) {
            drive(self.range::<Q, _>((lo, hi)), a, b, p, inexact, |k, i| ck(k, r, i))
        }
    };
}

fn one<I: ExactSizeIterator>(it: I, r: &Ref, p: &Plan, f: impl FnMut(I::Item, usize)) {
    drive_fwd(it, r.len(), p, exact, f)
}
fn two<I: ExactSizeIterator + DoubleEndedIterator>(it: I, r: &Ref, p: &Plan, f: impl FnMut(I::Item, usize)) {
    drive(it, 0, r.len(), p, exact, f)
}

impl SetBase for ASet {
    const AVL: bool = true;
    const N: usize = 0;
    set_methods!(one);
}
impl<const N: usize> SetBase for BSet<N> {
    const AVL: bool = false;
    const N: usize = N;
    set_methods!(two);
}

/// The elements are the reference's keys; their tags its values.
pub fn same_set<S: SetBase>(s: &S, r: &Ref, group: u64, what: &str) {
    if !on(group) {
        return;
    }
    chk(s.len_() == r.len(), what);
    chk(s.empty() == (r.len() == 0), what);
    let mut i = 0;
    s.each(&mut |k| {
        chk(i < r.len(), what);
        if i < r.len() {
            trace(k.v() as u64);
            chk(k.v() == r.k(i), what);
        }
        i += 1;
    });
    chk(i == r.len(), what);
    let mut i = 0;
    while i < r.len() {
        chk(s.has(&Q(r.k(i))), what);
        i += 1;
    }
}

pub fn balanced_set<S: SetBase>(s: &S, r: &Ref, what: &str) {
    if !on(BAL) {
        return;
    }
    chk(s.check_(), what);
    let bound = if S::AVL { avl_cmps(r.len()) } else { btree_cmps(r.len(), S::N) };
    let mut depths = Vec::with_capacity(32);
    let mut i = 0;
    while i < r.len() {
        recount();
        let f = s.has(&Q(r.k(i)));
        chk(f, "a lookup finds every element of a balanced set");
        chk(g().cmps <= bound, "a lookup of a present element takes logarithmically many comparisons");
        depths.push(g().cmps);
        i += 1;
    }
    if S::AVL {
        avl_balanced(&depths);
    }
}

fn result<S: SetBase>(s: &S, r: &Ref, what: &str) {
    same_set(s, r, CONTENT, what);
    balanced_set(s, r, what);
}

fn set_style<S: SetBase>() -> u8 {
    if S::AVL {
        AVL_TREE
    } else {
        B_TREE
    }
}

pub fn build_set<S: SetBase>(a: u64, b: u64) -> (S, Ref) {
    let mut s = S::new();
    let mut r = Ref::new();
    let p = plan(set_style::<S>(), S::N, a, b);
    let mut i = 0;
    while i < p.len() {
        if p[i] < 0 {
            let k = -p[i] as u16;
            s.rem(&Q(k));
            r.rem(k);
        } else {
            let v = val(i);
            s.ins(K::tagged(p[i] as u16, v));
            r.ins(p[i] as u16, v);
        }
        i += 1;
    }
    (s, r)
}

pub fn build_set_sym<S: SetBase>(a: u64, b: u64, voff: u16) -> (S, Ref) {
    let (steps, n) = ranks(set_style::<S>(), S::N, a, b);
    let keys = sym_keys(n);
    let s = RefCell::new(S::new());
    let mut r = Ref::new();
    for i in 0..keys.len() {
        r.e.push((keys[i], val(i) + voff));
    }
    replay(
        &steps,
        &mut r,
        |(k, t)| {
            s.borrow_mut().ins(K::tagged(k, t));
        },
        |k| {
            s.borrow_mut().rem(&Q(k));
        },
    );
    (s.into_inner(), r)
}

pub struct TwinSet<S> {
    pub s: Option<S>,
    pub r: Ref,
    pub third: Option<(S, Ref)>,
}
impl<S> Default for TwinSet<S> {
    fn default() -> Self {
        TwinSet { s: None, r: Ref::new(), third: None }
    }
}
impl<S: SetBase> TwinSet<S> {
    pub fn make(s: &S, r: &Ref, mode: u64) -> TwinSet<S> {
        let mut t = TwinSet { s: None, r: r.clone(), third: None };
        if mode == 0 {
            return t;
        }
        let mut c = s.clone();
        if mode == 8 {
            drop(c);
            return t;
        }
        if mode == 7 || mode == 10 {
            t.third = Some((s.clone(), r.clone()));
        }
        let n = r.len();
        if n > 0 && mode >= 2 && mode < 8 {
            match mode {
                2 => {
                    c.rem(&Q(r.k(0)));
                    t.r.remove_at(0);
                }
                3 => {
                    c.rem(&Q(r.k(n - 1)));
                    t.r.remove_at(n - 1);
                }
                _ => {
                    let k = r.k(n - 1) + 1000;
                    c.ins(K::tagged(k, 1));
                    t.r.e.push((k, 1));
                }
            }
        }
        t.s = Some(c);
        t
    }
    pub fn verify(&self, what: &str) {
        if let Some(s) = &self.s {
            same_set(s, &self.r, ISO, what);
            if on(ISO) && on(BAL) {
                chk(s.check_(), "the other copy is still balanced");
            }
        }
        if let Some((s, r)) = &self.third {
            same_set(s, r, ISO, what);
        }
    }
}

const S_LOOKUP: u64 = 1;
const S_INSERT: u64 = 2;
const S_REPLACE: u64 = 3;
const S_REMOVE: u64 = 4;
const S_TAKE: u64 = 5;
const S_POPF: u64 = 6;
const S_POPL: u64 = 7;
const S_CLEAR: u64 = 8;
const S_ENDS: u64 = 9;
const S_SPLIT: u64 = 10;

/// The equal element now in the set: its tag must be r's.
fn tag_now<S: SetBase>(s: &S, q: u16, tag: u16, what: &str) {
    match s.get_(&Q(q)) {
        Some(k) => chk_if(CONTENT, k.v() == q && k.tag == tag, what),
        None => chk_if(CONTENT, false, what),
    }
}

pub fn set_step<S: SetBase>(s: &mut S, r: &mut Ref, op: u64, tag: u16) {
    match op {
        S_LOOKUP => {
            let q = any16();
            let e = r.get(q);
            let bound = if S::AVL { avl_cmps(r.len()) } else { btree_cmps(r.len(), S::N) };
            recount();
            let h = s.has(&Q(q));
            chk_if(BAL, g().cmps <= bound, "a lookup takes logarithmically many comparisons");
            chk_if(CONTENT, h == e.is_some(), "contains is true of exactly the elements");
            let cl = g().clones;
            match (s.get_(&Q(q)), e) {
                (Some(k), Some(t)) => chk_if(CONTENT, k.v() == q && k.tag == t, "get returns the element held"),
                (None, None) => (),
                _ => chk_if(CONTENT, false, "get finds exactly the elements"),
            }
            chk_if(LAZY, g().clones == cl, "a lookup clones no element");
        }
        S_INSERT => {
            let q = any16();
            let old = r.get(q);
            if old.is_none() {
                r.ins(q, tag);
            }
            let o = s.ins(K::tagged(q, old.unwrap_or(tag)));
            trace(o as u64);
            chk_if(CONTENT, o == old.is_none(), "insert tells whether the value is new");
            cover(if o { "insert of a new value" } else { "insert of a present value" });
        }
        S_REPLACE => {
            let q = any16();
            let old = r.ins(q, tag);
            let o = s.repl(K::tagged(q, tag));
            trace(o.is_some() as u64);
            chk_if(CONTENT, o.as_ref().map(|k| k.tag) == old, "replace returns the equal element held before, or None");
            if let Some(k) = o {
                chk_if(CONTENT, k.v() == q, "replace returns an equal element");
            }
            tag_now(s, q, tag, "replace puts the new element in");
        }
        S_REMOVE => {
            let q = any16();
            let old = r.rem(q);
            let o = s.rem(&Q(q));
            trace(o as u64);
            chk_if(CONTENT, o == old.is_some(), "remove tells whether the value was present");
        }
        S_TAKE => {
            let q = any16();
            let old = r.rem(q);
            let o = s.take_(&Q(q)).map(|k| (k.v(), k.tag));
            trace(o.is_some() as u64);
            chk_if(CONTENT, o == old, "take returns the element removed, or None");
        }
        S_POPF => {
            let old = r.pop_first();
            let o = s.popf().map(|k| (k.v(), k.tag));
            chk_if(CONTENT, o == old, "pop_first returns the least element, or None");
        }
        S_POPL => {
            let old = r.pop_last();
            let o = s.popl().map(|k| (k.v(), k.tag));
            chk_if(CONTENT, o == old, "pop_last returns the greatest element, or None");
        }
        S_CLEAR => {
            s.clear_();
            r.e.clear();
        }
        S_ENDS => {
            let n = r.len();
            let (wf, wl) = if n == 0 { (None, None) } else { (Some(r.k(0)), Some(r.k(n - 1))) };
            chk_if(CONTENT, s.first_().map(|k| k.v()) == wf, "first is the least element, or None");
            chk_if(CONTENT, s.last_().map(|k| k.v()) == wl, "last is the greatest element, or None");
        }
        _ => {
            let q = any16();
            let at = match r.pos(q) {
                Ok(i) => i,
                Err(i) => i,
            };
            let hi = s.split_(&Q(q));
            let mut hr = Ref::new();
            while r.len() > at {
                let x = r.remove_at(at);
                hr.e.push(x);
            }
            result(&hi, &hr, "split_off returns the elements at or above the value");
        }
    }
}

fn pick(op: u64) -> u64 {
    match op {
        11 => S_INSERT + choice(4),
        12 => match choice(3) {
            0 => S_INSERT,
            1 => S_REMOVE,
            _ => S_REPLACE,
        },
        14 => 1 + choice(10),
        x => x,
    }
}

/// a, b: prestate.  c: operations as hexadecimal digits.
/// d: groups | sharing << 8.
pub fn set_point<S: SetBase>(a: u64, b: u64, c: u64, d: u64) {
    let (mut s, mut r) = build_set::<S>(a, b);
    let mode = (d >> 8) & 15;
    let twin = TwinSet::make(&s, &r, mode);
    let mut ops = c;
    let mut i = 0;
    while ops != 0 {
        let op = pick(ops & 15);
        ops >>= 4;
        i += 1;
        let n = r.len();
        g().clones = 0;
        set_step(&mut s, &mut r, op, 0x4000 + i);
        if (mode == 0 || mode == 8) && op != S_SPLIT {
            chk_if(LAZY, g().clones == 0, "an update of a set that shares nothing clones no element");
        }
        if op != S_SPLIT {
            chk_if(LAZY, g().clones <= near_path_(S::AVL, S::N, n + 1, 1), "an update of a shared set clones only elements near one path");
        }
    }
    result(&s, &r, "the set holds what a sorted set would hold");
    twin.verify("the other copy holds what it held before");
    drop(s);
    twin.verify("the other copy survives the drop of this one");
    cover("end");
}

fn rel(r1: &Ref, r2: &Ref) -> (bool, bool, bool) {
    let m = merge(r1, r2);
    let (mut sub, mut sup, mut dis) = (true, true, true);
    for &(_, x, y) in &m.e {
        match (x, y) {
            (Some(_), None) => sub = false,
            (None, Some(_)) => sup = false,
            _ => dis = false,
        }
    }
    (sub, sup, dis)
}

const COMBS: [Comb; 4] = [Comb::Union, Comb::Inter, Comb::Diff, Comb::Sym];

/// a: first prestate (low 16 bits a, then b).  b: second prestate.
/// c: 0 relations, 1 lazy iterators, 2 operators, 3 constructors, 4 append
/// | operation << 4 | relation of the operands << 8 (0: all keys symbolic;
/// n: the second is a clone of the first with n symbolic changes; 8-11: see
/// bulk::placed)
/// d: groups | (1: clones held) << 8.
pub fn set_alg<S: SetBase>(a: u64, b: u64, c: u64, d: u64) {
    let (s1, r1) = build_set_sym::<S>(a & 0xffff, a >> 16, 0);
    let n = (c >> 8) & 15;
    let (s2, r2) = if n == 0 || n >= 8 {
        let (s2, r2) = build_set_sym::<S>(b & 0xffff, b >> 16, 500);
        crate::bulk::placed(&r1, &r2, n);
        (s2, r2)
    } else {
        let mut s2 = s1.clone();
        let mut r2 = r1.clone();
        for i in 0..n {
            let q = any16();
            if choice(2) == 0 {
                s2.repl(K::tagged(q, 900 + i as u16));
                r2.ins(q, 900 + i as u16);
            } else {
                s2.rem(&Q(q));
                r2.rem(q);
            }
        }
        (s2, r2)
    };
    let hold = (d >> 8) & 1 == 1;
    let op = (c >> 4) & 15;
    let t1 = TwinSet { s: if hold { Some(s1.clone()) } else { None }, r: r1.clone(), third: None };
    let t2 = TwinSet { s: if hold { Some(s2.clone()) } else { None }, r: r2.clone(), third: None };
    match c & 15 {
        0 => {
            g().clones = 0;
            let got = (s1.subset(&s2), s1.superset(&s2), s1.disjoint(&s2));
            chk_if(LAZY, g().clones == 0, "relations of sets clone no element");
            let (sub, sup, dis) = rel(&r1, &r2);
            trace(got.0 as u64);
            trace(got.1 as u64);
            trace(got.2 as u64);
            if sub {
                cover("subset");
            }
            if sup {
                cover("superset");
            }
            if sub && sup {
                cover("equal sets");
            }
            if dis {
                cover("disjoint");
            }
            if !sub && !sup && !dis {
                cover("overlapping");
            }
            chk_if(CONTENT, got.0 == sub, "is_subset is the subset relation");
            chk_if(CONTENT, got.1 == sup, "is_superset is the superset relation");
            chk_if(CONTENT, got.2 == dis, "is_disjoint is disjointness");
            same_set(&s1, &r1, CONTENT, "operands by reference are unchanged");
            same_set(&s2, &r2, CONTENT, "operands by reference are unchanged");
        }
        1 => {
            let w = combine(&r1, &r2, COMBS[op as usize]);
            let mut i = 0;
            g().clones = 0;
            s1.lazy(&s2, op, &mut |k| {
                trace(k.v() as u64);
                chk_if(CONTENT, i < w.len(), "a set operation's iterator yields no elements beside the result's");
                if i < w.len() {
                    chk_if(CONTENT, k.v() == w.k(i), "a set operation's iterator yields the result in ascending order");
                }
                i += 1;
            });
            chk_if(CONTENT, i == w.len(), "a set operation's iterator yields the whole result");
            chk_if(LAZY, g().clones == 0, "a set operation's iterator clones no element");
            same_set(&s1, &r1, CONTENT, "operands by reference are unchanged");
            same_set(&s2, &r2, CONTENT, "operands by reference are unchanged");
        }
        2 => {
            let w = combine(&r1, &r2, COMBS[op as usize]);
            let s = s1.oper(&s2, op);
            result(&s, &w, "an operator on sets yields exactly the result");
            same_set(&s1, &r1, CONTENT, "operands by reference are unchanged");
            same_set(&s2, &r2, CONTENT, "operands by reference are unchanged");
            drop(s);
            same_set(&s1, &r1, ISO, "operands survive the result");
            same_set(&s2, &r2, ISO, "operands survive the result");
        }
        3 => {
            let w = combine(&r1, &r2, COMBS[op as usize]);
            let s = S::made(s1, s2, op);
            result(&s, &w, "a set constructor yields exactly the result");
            t1.verify("a set constructor leaves clones of its first operand alone");
            t2.verify("a set constructor leaves clones of its second operand alone");
            cover("end");
            return;
        }
        _ => {
            let (mut s1, mut s2) = (s1, s2);
            let w = combine(&r1, &r2, Comb::Union);
            s1.append_(&mut s2);
            result(&s1, &w, "append yields the union");
            result(&s2, &Ref::new(), "append leaves the other set empty");
            t1.verify("append leaves clones of its first operand alone");
            t2.verify("append leaves clones of its second operand alone");
            cover("end");
            return;
        }
    }
    t1.verify("set operations leave clones of the first operand alone");
    t2.verify("set operations leave clones of the second operand alone");
    cover("end");
}

/// a, b: prestate.  c: 0 iter, 1 (&s).into_iter, 2 into_iter | plan << 8.
pub fn set_iter<S: SetBase>(a: u64, b: u64, c: u64, d: u64) {
    let (s, r) = build_set::<S>(a, b);
    let twin = RefCell::new(TwinSet::make(&s, &r, (d >> 8) & 15));
    let p = Plan::new(c >> 8, r.len()).on_event(|| {
        let t = &mut *twin.borrow_mut();
        t.third = None;
        if choice(2) == 0 {
            t.s = None;
        } else if let Some(c) = &mut t.s {
            while t.r.len() > 1 {
                let x = t.r.remove_at(t.r.len() / 2);
                c.rem(&Q(x.0));
            }
            c.ins(K::tagged(1, 0));
            t.r.ins(1, 0);
        }
    });
    if c & 15 < 2 {
        g().clones = 0;
        s.by_ref(c & 15, &r, &p);
        if c >> 13 & 1 == 0 {
            chk_if(LAZY, g().clones == 0, "iterating by reference clones no element");
        }
        same_set(&s, &r, ISO, "iterating by reference changes nothing");
    } else {
        s.by_val(&r, &p);
        twin.borrow().verify("iterating one copy leaves the other alone");
        drop(twin.take());
        p.flush();
        cover("end");
        return;
    }
    twin.borrow().verify("iterating one copy leaves the other alone");
    cover("end");
}

/// a, b: prestate.  c: lower kind | upper kind << 2 | plan << 8.
pub fn set_range<S: SetBase>(a: u64, b: u64, c: u64, d: u64) {
    let (s, r) = build_set::<S>(a, b);
    let twin = TwinSet::make(&s, &r, (d >> 8) & 15);
    let (lb, hb, lo, hi) = bounds(&r, c & 3, (c >> 2) & 3);
    let p = Plan::new(c >> 8, hi - lo);
    s.ranged(lb, hb, lo, hi, &r, &p);
    same_set(&s, &r, ISO, "a range changes nothing");
    twin.verify("a range of one copy leaves the other alone");
    cover("end");
}

/// a, b: prestate.  c: predicate as in bulk::retain.
pub fn set_retain<S: SetBase>(a: u64, b: u64, c: u64, d: u64) {
    let (mut s, r) = build_set::<S>(a, b);
    let mode = (d >> 8) & 15;
    let twin = TwinSet::make(&s, &r, mode);
    let (x, y) = if c & 3 == 0 { (0, 0) } else { (any16(), any16()) };
    if c & 3 != 0 {
        assume(x <= y);
    }
    let n = r.len();
    let mut seen = vec![0u8; n];
    let mut keep = vec![false; n];
    s.retain_(&mut |k| {
        let kv = k.v();
        let i = match r.pos(kv) {
            Ok(i) => i,
            Err(_) => {
                chk_if(CONTENT, false, "retain asks about elements of the set only");
                return true;
            }
        };
        seen[i] += 1;
        let ans = match c & 3 {
            0 => choice(2) == 1,
            1 => x <= kv && kv < y,
            _ => !(x <= kv && kv < y),
        };
        keep[i] = ans;
        ans
    });
    let mut res = Ref::new();
    for i in 0..n {
        chk_if(CONTENT, seen[i] == 1, "retain asks about every element exactly once");
        if keep[i] {
            res.e.push(r.e[i]);
        }
    }
    result(&s, &res, "retain keeps exactly the elements accepted");
    twin.verify("retain leaves the other copy alone");
    cover("end");
}

/// a: number of symbolic items.  b: prestate to extend.
/// c: 0 collect, 1 extend, 2 From array, 3 extend by reference.
pub fn set_extend<S: SetBase>(a: u64, b: u64, c: u64, d: u64) {
    let mut items = Vec::with_capacity(8);
    let (mut s, mut r) = build_set::<S>(if c & 1 == 1 { b } else { 0 }, 0);
    let twin = TwinSet::make(&s, &r, (d >> 8) & 15);
    for i in 0..a {
        let q = any16();
        items.push(K::tagged(q, 0x800 + i as u16));
        r.ins(q, 0x800 + i as u16);
    }
    match c {
        0 => s = S::collect_(items),
        1 => s.extend_(items),
        2 => {
            let mut it = items.into_iter();
            if let (Some(x), Some(y), Some(z)) = (it.next(), it.next(), it.next()) {
                s = S::from3([x, y, z]);
            }
        }
        _ => s.extend_ref(&items),
    }
    result(&s, &r, "adding many elements equals inserting them one by one");
    twin.verify("extending leaves the other copy alone");
    cover("end");
}

/// split_off of a set
pub fn set_split<S: SetBase>(a: u64, b: u64, _c: u64, d: u64) {
    let (mut s, mut r) = build_set::<S>(a, b);
    let twin = TwinSet::make(&s, &r, (d >> 8) & 15);
    set_step(&mut s, &mut r, S_SPLIT, 0);
    result(&s, &r, "split_off leaves the elements below the value");
    twin.verify("split_off leaves the other copy alone");
    cover("end");
}
