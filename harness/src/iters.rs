//! Iteration, ranges (C08, C09) and what goes with them.
use crate::elem::*;
use crate::kinds::*;
use crate::model::*;
use crate::point::Twin;
use crate::sx::*;
use lazy_clone_collections::btree;
use std::cell::RefCell;
use std::ops::Bound;

/// Which end to take from, and for how many steps.
///
/// mode 0: front only.  1: back only.  2: each step's end is chosen.
/// 3: alternate.  4: some number from the front, the rest from the back.
/// 5: the other way round.  6: nth, then fold.  7: nth_back, then rfold.
/// 8: count.  9: last.  10: some next, perhaps next_back, nth, nth_back, fold.
/// +16: stop after some number of steps and drop the iterator.
/// +32: something happens to the other copies at some step.
/// +64: what is yielded is kept, and written to after the iterator is gone.
pub struct Plan<'e> {
    mode: u64,
    turn: usize,
    stop: usize,
    when: usize,
    event: RefCell<Option<Box<dyn FnOnce() + 'e>>>,
    late: bool,
    writes: RefCell<Vec<(*mut V, u16)>>,
    kept: RefCell<Vec<(Option<K>, Option<V>)>>,
}

impl<'e> Plan<'e> {
    pub fn new(mode: u64, n: usize) -> Plan<'e> {
        let m = mode & 15;
        let turn = if m >= 4 && m < 8 { choice(n as u64 + 1) as usize } else { 0 };
        let stop = if mode & 16 != 0 { choice(n as u64 + 1) as usize } else { n + 9 };
        let when = if mode & 32 != 0 { choice(n as u64 + 1) as usize } else { n + 9 };
        Plan {
            mode: m,
            turn,
            stop,
            when,
            event: RefCell::new(None),
            late: mode & 64 != 0,
            writes: RefCell::new(Vec::with_capacity(8)),
            kept: RefCell::new(Vec::with_capacity(8)),
        }
    }
    pub fn on_event(self, f: impl FnOnce() + 'e) -> Plan<'e> {
        *self.event.borrow_mut() = Some(Box::new(f));
        self
    }
    fn event(&self, i: usize) {
        if i == self.when {
            if let Some(f) = self.event.borrow_mut().take() {
                f();
            }
        }
    }
    pub fn keep(&self, k: Option<K>, v: Option<V>) {
        if self.late {
            self.kept.borrow_mut().push((k, v));
        }
    }
    /// The writes put off so far, and the elements kept.
    pub fn flush(&self) {
        for (v, x) in self.writes.borrow_mut().drain(..) {
            unsafe { (*v).set(x) };
        }
        let mut s = 0;
        for (k, v) in self.kept.borrow_mut().drain(..) {
            if let Some(k) = &k {
                s += k.v() as u64;
            }
            if let Some(v) = &v {
                s += v.get() as u64;
            }
        }
        trace(s);
    }
    fn back(&self, i: usize) -> bool {
        match self.mode {
            0 => false,
            1 => true,
            2 => choice(2) == 1,
            3 => i % 2 == 1,
            4 => i >= self.turn,
            _ => i < self.turn,
        }
    }
}

/// Takes elements lo..hi (by index) off the iterator as the plan says; f is
/// told each item and the index it should have.
pub fn drive<I: DoubleEndedIterator>(
    mut it: I,
    mut lo: usize,
    mut hi: usize,
    p: &Plan,
    len: impl Fn(&I) -> Option<usize>,
    mut f: impl FnMut(I::Item, usize),
) {
    let mut i = 0;
    if p.mode == 10 {
        p.event(0);
        return drive_mixed(it, lo, hi, len, f);
    }
    if p.mode >= 6 {
        p.event(0);
        return drive_more(it, lo, hi, p, f);
    }
    loop {
        p.event(i);
        let rest = hi - lo;
        if on(HINT) {
            let (a, b) = it.size_hint();
            match len(&it) {
                Some(l) => {
                    chk(l == rest, "len is the number of elements still to come");
                    chk(a == rest && b == Some(rest), "size_hint of an exact-size iterator is exact");
                }
                None => {
                    chk(a <= rest, "size_hint's lower bound does not exceed what is still to come");
                    if let Some(b) = b {
                        chk(rest <= b, "size_hint's upper bound is not below what is still to come");
                    }
                }
            }
        }
        if i >= p.stop {
            cover("iterator dropped early");
            return;
        }
        let back = p.back(i);
        let x = if back { it.next_back() } else { it.next() };
        match x {
            Some(x) => {
                chk_if(CONTENT, lo < hi, "an iterator yields no more elements than there are");
                if lo >= hi {
                    return;
                }
                let ix = if back {
                    hi -= 1;
                    hi
                } else {
                    lo += 1;
                    lo - 1
                };
                f(x, ix);
            }
            None => {
                chk_if(CONTENT, lo == hi, "an iterator yields every element before it ends");
                chk_if(CONTENT, it.next().is_none(), "an ended iterator goes on returning None");
                chk_if(CONTENT, it.next_back().is_none(), "an ended iterator goes on returning None from the back");
                cover("iterator exhausted");
                return;
            }
        }
        i += 1;
    }
}

fn hinted<I: Iterator>(it: &I, rest: usize, len: &impl Fn(&I) -> Option<usize>) {
    if on(HINT) {
        let (a, b) = it.size_hint();
        match len(it) {
            Some(l) => {
                chk(l == rest, "len is the number of elements still to come");
                chk(a == rest && b == Some(rest), "size_hint of an exact-size iterator is exact");
            }
            None => {
                chk(a <= rest, "size_hint's lower bound does not exceed what is still to come");
                if let Some(b) = b {
                    chk(rest <= b, "size_hint's upper bound is not below what is still to come");
                }
            }
        }
    }
}

fn drive_mixed<I: DoubleEndedIterator>(
    mut it: I,
    mut lo: usize,
    mut hi: usize,
    len: impl Fn(&I) -> Option<usize>,
    mut f: impl FnMut(I::Item, usize),
) {
    for _ in 0..choice((hi - lo) as u64 + 1) {
        match it.next() {
            Some(x) => f(x, lo),
            None => return chk_if(CONTENT, false, MORE),
        }
        lo += 1;
    }
    let b = choice(2) as usize;
    if b == 1 {
        match it.next_back() {
            Some(x) => {
                chk_if(CONTENT, lo < hi, MORE);
                if lo >= hi {
                    return;
                }
                hi -= 1;
                f(x, hi);
            }
            None => return chk_if(CONTENT, lo == hi, MORE),
        }
    }
    hinted(&it, hi - lo, &len);
    let j = choice((hi - lo) as u64 + 1) as usize;
    match it.nth(j) {
        Some(x) => {
            chk_if(CONTENT, j < hi - lo, MORE);
            if j >= hi - lo {
                return;
            }
            f(x, lo + j);
            lo += j + 1;
        }
        None => {
            chk_if(CONTENT, j >= hi - lo, MORE);
            chk_if(CONTENT, it.next().is_none() && it.next_back().is_none(), MORE);
            return;
        }
    }
    hinted(&it, hi - lo, &len);
    match it.nth_back(b) {
        Some(x) => {
            chk_if(CONTENT, b < hi - lo, MORE);
            if b >= hi - lo {
                return;
            }
            hi -= b + 1;
            f(x, hi);
        }
        None => {
            chk_if(CONTENT, b >= hi - lo, MORE);
            chk_if(CONTENT, it.next().is_none() && it.next_back().is_none(), MORE);
            return;
        }
    }
    hinted(&it, hi - lo, &len);
    let at = it.fold(lo, |at, x| {
        chk_if(CONTENT, at < hi, MORE);
        if at < hi {
            f(x, at);
        }
        at + 1
    });
    chk_if(CONTENT, at == hi, MORE);
    cover("iterator's other methods");
}

const MORE: &str = "an iterator's adaptors take what next would";

/// The methods of iterators that have a default, which a type may replace.
fn drive_more<I: DoubleEndedIterator>(mut it: I, lo: usize, hi: usize, p: &Plan, mut f: impl FnMut(I::Item, usize)) {
    if p.mode == 7 {
        match it.nth_back(p.turn) {
            Some(x) => {
                chk_if(CONTENT, p.turn < hi - lo, MORE);
                if p.turn >= hi - lo {
                    return;
                }
                f(x, hi - 1 - p.turn);
                let at = it.rfold(hi - 1 - p.turn, |at, x| {
                    chk_if(CONTENT, at > lo, MORE);
                    if at > lo {
                        f(x, at - 1);
                        at - 1
                    } else {
                        at
                    }
                });
                chk_if(CONTENT, at == lo, MORE);
            }
            None => {
                chk_if(CONTENT, p.turn >= hi - lo, MORE);
                chk_if(CONTENT, it.next_back().is_none(), MORE);
            }
        }
    } else {
        more_fwd(it, lo, hi, p, f)
    }
}

fn more_fwd<I: Iterator>(mut it: I, lo: usize, hi: usize, p: &Plan, mut f: impl FnMut(I::Item, usize)) {
    match p.mode {
        8 => chk_if(CONTENT, it.count() == hi - lo, MORE),
        9 => match it.last() {
            Some(x) => {
                chk_if(CONTENT, lo < hi, MORE);
                if lo < hi {
                    f(x, hi - 1)
                }
            }
            None => chk_if(CONTENT, lo == hi, MORE),
        },
        _ => match it.nth(p.turn) {
            Some(x) => {
                chk_if(CONTENT, p.turn < hi - lo, MORE);
                if p.turn >= hi - lo {
                    return;
                }
                f(x, lo + p.turn);
                let at = it.fold(lo + p.turn + 1, |at, x| {
                    chk_if(CONTENT, at < hi, MORE);
                    if at < hi {
                        f(x, at);
                    }
                    at + 1
                });
                chk_if(CONTENT, at == hi, MORE);
            }
            None => {
                chk_if(CONTENT, p.turn >= hi - lo, MORE);
                chk_if(CONTENT, it.next().is_none(), MORE);
            }
        },
    }
    cover("iterator's other methods");
}

/// drive for an iterator with one end
pub fn drive_fwd<I: Iterator>(mut it: I, n: usize, p: &Plan, len: impl Fn(&I) -> Option<usize>, mut f: impl FnMut(I::Item, usize)) {
    let mut i = 0;
    if p.mode == 10 {
        p.event(0);
        for _ in 0..choice(n as u64 + 1) {
            match it.next() {
                Some(x) => f(x, i),
                None => return chk_if(CONTENT, false, MORE),
            }
            i += 1;
        }
        hinted(&it, n - i, &len);
        let j = choice((n - i) as u64 + 1) as usize;
        match it.nth(j) {
            Some(x) => {
                chk_if(CONTENT, j < n - i, MORE);
                if j >= n - i {
                    return;
                }
                f(x, i + j);
                i += j + 1;
            }
            None => {
                chk_if(CONTENT, j >= n - i, MORE);
                chk_if(CONTENT, it.next().is_none(), MORE);
                return;
            }
        }
        hinted(&it, n - i, &len);
        let at = it.fold(i, |at, x| {
            chk_if(CONTENT, at < n, MORE);
            if at < n {
                f(x, at);
            }
            at + 1
        });
        chk_if(CONTENT, at == n, MORE);
        cover("iterator's other methods");
        return;
    }
    if p.mode >= 6 {
        p.event(0);
        return more_fwd(it, 0, n, p, f);
    }
    loop {
        p.event(i);
        let rest = n - i;
        if on(HINT) {
            let (a, b) = it.size_hint();
            match len(&it) {
                Some(l) => {
                    chk(l == rest, "len is the number of elements still to come");
                    chk(a == rest && b == Some(rest), "size_hint of an exact-size iterator is exact");
                }
                None => {
                    chk(a <= rest, "size_hint's lower bound does not exceed what is still to come");
                    if let Some(b) = b {
                        chk(rest <= b, "size_hint's upper bound is not below what is still to come");
                    }
                }
            }
        }
        if i >= p.stop {
            return;
        }
        match it.next() {
            Some(x) => {
                chk_if(CONTENT, i < n, "an iterator yields no more elements than there are");
                if i >= n {
                    return;
                }
                f(x, i);
            }
            None => {
                chk_if(CONTENT, i == n, "an iterator yields every element before it ends");
                chk_if(CONTENT, it.next().is_none(), "an ended iterator goes on returning None");
                return;
            }
        }
        i += 1;
    }
}

pub fn exact<I: ExactSizeIterator>(it: &I) -> Option<usize> {
    Some(it.len())
}
pub fn inexact<I>(_: &I) -> Option<usize> {
    None
}

const KEY: &str = "iteration yields the keys in ascending order";
const VAL: &str = "iteration yields the values in the order of their keys";

fn ck(k: &K, r: &Ref, i: usize) {
    let x = k.v();
    trace(x as u64);
    chk_if(CONTENT, x == r.k(i), KEY);
}
fn cv(v: &V, r: &Ref, i: usize) {
    let x = v.get();
    trace(x as u64);
    chk_if(CONTENT, x == r.v(i), VAL);
}
fn wv(v: &mut V, r: &Ref, w: &mut Ref, i: usize, p: &Plan) {
    cv(v, r, i);
    let n = 0x6000 + i as u16;
    if p.late {
        p.writes.borrow_mut().push((v, n));
    } else {
        v.set(n);
    }
    w.e[i].1 = n;
}

/// Iterators that all maps have.
pub trait Iters: Base {
    fn by_ref(&self, which: u64, r: &Ref, p: &Plan);
    fn by_mut(&mut self, which: u64, r: &Ref, w: &mut Ref, p: &Plan);
    fn by_val(self, which: u64, r: &Ref, p: &Plan);
    const REFS: u64;
    const MUTS: u64;
    const VALS: u64;
}

macro_rules! iter_methods {
    () => {
        const REFS: u64 = 4;
        const MUTS: u64 = 3;
        const VALS: u64 = 3;
        fn by_ref(&self, which: u64, r: &Ref, p: &Plan) {
            let n = r.len();
            match which {
                0 => drive(self.iter(), 0, n, p, exact, |(k, v), i| {
                    ck(k, r, i);
                    cv(v, r, i);
                }),
                1 => drive(self.keys(), 0, n, p, exact, |k, i| ck(k, r, i)),
                2 => drive(self.values(), 0, n, p, exact, |v, i| cv(v, r, i)),
                _ => drive(self.into_iter(), 0, n, p, exact, |(k, v), i| {
                    ck(k, r, i);
                    cv(v, r, i);
                }),
            }
        }
        fn by_mut(&mut self, which: u64, r: &Ref, w: &mut Ref, p: &Plan) {
            let n = r.len();
            match which {
                0 => drive(self.iter_mut(), 0, n, p, exact, |(k, v), i| {
                    ck(k, r, i);
                    wv(v, r, w, i, p);
                }),
                1 => drive(self.values_mut(), 0, n, p, exact, |v, i| wv(v, r, w, i, p)),
                _ => drive(self.into_iter(), 0, n, p, exact, |(k, v), i| {
                    ck(k, r, i);
                    wv(v, r, w, i, p);
                }),
            }
        }
        fn by_val(self, which: u64, r: &Ref, p: &Plan) {
            let n = r.len();
            match which {
                0 => drive(self.into_iter(), 0, n, p, exact, |(k, v), i| {
                    ck(&k, r, i);
                    cv(&v, r, i);
                    p.keep(Some(k), Some(v));
                }),
                1 => drive(self.into_keys(), 0, n, p, exact, |k, i| {
                    ck(&k, r, i);
                    p.keep(Some(k), None);
                }),
                _ => drive(self.into_values(), 0, n, p, exact, |v, i| {
                    cv(&v, r, i);
                    p.keep(None, Some(v));
                }),
            }
        }
    };
}
impl Iters for Avl {
    iter_methods!();
}
impl<const N: usize> Iters for BT<N> {
    iter_methods!();
}
impl Iters for Fix {
    const REFS: u64 = 1;
    const MUTS: u64 = 1;
    const VALS: u64 = 1;
    fn by_ref(&self, _: u64, r: &Ref, p: &Plan) {
        drive(Fix::iter(self), 0, r.len(), p, exact, |(k, v), i| {
            ck(k, r, i);
            cv(v, r, i);
        })
    }
    fn by_mut(&mut self, _: u64, r: &Ref, w: &mut Ref, p: &Plan) {
        drive(Fix::iter_mut(self), 0, r.len(), p, exact, |(k, v), i| {
            ck(k, r, i);
            wv(v, r, w, i, p);
        })
    }
    fn by_val(self, _: u64, r: &Ref, p: &Plan) {
        drive(self.into_iter(), 0, r.len(), p, exact, |(k, v), i| {
            ck(&k, r, i);
            cv(&v, r, i);
            p.keep(Some(k), Some(v));
        })
    }
}

impl Iters for FixW {
    const REFS: u64 = 1;
    const MUTS: u64 = 1;
    const VALS: u64 = 1;
    fn by_ref(&self, _: u64, r: &Ref, p: &Plan) {
        drive(Base::iter(self), 0, r.len(), p, exact, |(k, v), i| {
            ck(k, r, i);
            cv(v, r, i);
        })
    }
    fn by_mut(&mut self, _: u64, r: &Ref, w: &mut Ref, p: &Plan) {
        drive(self.iter_mut(), 0, r.len(), p, exact, |(k, v), i| {
            ck(k, r, i);
            wv(v, r, w, i, p);
        })
    }
    fn by_val(self, _: u64, r: &Ref, p: &Plan) {
        drive(self.into_iter(), 0, r.len(), p, exact, |(k, v), i| {
            ck(&k, r, i);
            cv(&v, r, i);
            p.keep(Some(k), Some(v));
        })
    }
}

/// a, b: prestate.  c: iterator (0.. by reference, 16.. mutable, 32.. by
/// value, 48 for_each, 49 for_each_mut) | plan << 8.
/// d: groups | sharing << 8.
pub fn iterate<M: Iters>(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, r) = build::<M>(a, b, 0);
    let mode = (d >> 8) & 15;
    let twin = RefCell::new(Twin::make(&m, &r, mode));
    let p = Plan::new(c >> 8, r.len()).on_event(|| meddle(&mut twin.borrow_mut()));
    let which = c & 15;
    g().clones = 0;
    match (c >> 4) & 3 {
        0 => {
            m.by_ref(which, &r, &p);
            if c >> 13 & 1 == 0 {
                chk_if(LAZY, g().clones == 0, "iterating by reference clones no element");
            }
            same(&m, &r, ISO, "iterating by reference changes nothing");
        }
        1 => {
            let mut w = r.clone();
            m.by_mut(which, &r, &mut w, &p);
            p.flush();
            if mode == 0 {
                chk_if(LAZY, g().clones == 0, "iterating over a map that shares nothing clones no element");
            }
            same(&m, &w, CONTENT, "writes through a mutable iterator change the entries visited and no others");
            lookups(&m, &w, CONTENT, "entries are still found after writing through a mutable iterator");
            balanced(&m, &w, "mutable iteration keeps the tree");
        }
        _ => {
            m.by_val(which, &r, &p);
            twin.borrow().verify("consuming one copy leaves the other alone");
            drop(twin.take());
            p.flush();
            cover("end");
            return;
        }
    }
    twin.borrow().verify("iterating one copy leaves the other alone");
    drop(m);
    twin.borrow().verify("the other copy survives");
    cover("end");
}

/// What happens to the other copies while one is iterated: they are dropped,
/// or changed all over.
fn meddle<M: Base>(t: &mut Twin<M>) {
    if choice(2) == 0 {
        t.m = None;
        t.third = None;
        return;
    }
    if let Some(c) = &mut t.m {
        let n = t.r.len();
        for i in 0..n {
            if let Some(v) = c.get_mut(&Q(t.r.k(i))) {
                v.set(0x7300 + i as u16);
            }
            t.r.e[i].1 = 0x7300 + i as u16;
        }
        if n > 0 {
            let k = t.r.k(0);
            c.rem(&Q(k));
            t.r.remove_at(0);
        }
        c.ins(K::new(1), V::new(0x7400));
        t.r.ins(1, 0x7400);
    }
}

/// AvlMap::for_each and for_each_mut
pub fn for_each_avl(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, r) = build::<Avl>(a, b, 0);
    let twin = Twin::make(&m, &r, (d >> 8) & 15);
    let mut w = r.clone();
    let p = Plan::new(if c == 2 { 64 } else { 0 }, 0);
    let mut i = 0;
    if c == 0 {
        m.for_each(|(k, v)| {
            chk_if(CONTENT, i < r.len(), "for_each visits no more elements than there are");
            ck(k, &r, i);
            cv(v, &r, i);
            i += 1;
        });
    } else {
        m.for_each_mut(|(k, v)| {
            chk_if(CONTENT, i < r.len(), "for_each_mut visits no more elements than there are");
            ck(k, &r, i);
            wv(v, &r, &mut w, i, &p);
            i += 1;
        });
    }
    p.flush();
    chk_if(CONTENT, i == r.len(), "for_each visits every element");
    same(&m, &w, CONTENT, "for_each_mut changes what it wrote");
    twin.verify("for_each leaves the other copy alone");
    cover("end");
}

// ---------------------------------------------------------------- ranges

pub trait Ranged: Iters {
    type R<'a>: DoubleEndedIterator<Item = (&'a K, &'a V)>
    where
        Self: 'a;
    fn rng(&self, lo: Bound<Q>, hi: Bound<Q>) -> Self::R<'_>;
    fn rng_mut(&mut self, lo: Bound<Q>, hi: Bound<Q>, f: &mut dyn FnMut(&mut dyn DoubleEndedIterator<Item = (&K, &mut V)>));
}
impl Ranged for Avl {
    type R<'a> = Box<dyn DoubleEndedIterator<Item = (&'a K, &'a V)> + 'a>;
    fn rng(&self, lo: Bound<Q>, hi: Bound<Q>) -> Self::R<'_> {
        Box::new(self.range::<Q, _>((lo, hi)))
    }
    fn rng_mut(&mut self, lo: Bound<Q>, hi: Bound<Q>, f: &mut dyn FnMut(&mut dyn DoubleEndedIterator<Item = (&K, &mut V)>)) {
        f(&mut self.range_mut::<Q, _>((lo, hi)))
    }
}
impl<const N: usize> Ranged for BT<N> {
    type R<'a> = btree::Range<'a, K, V, N>;
    fn rng(&self, lo: Bound<Q>, hi: Bound<Q>) -> Self::R<'_> {
        self.range::<Q, _>((lo, hi))
    }
    fn rng_mut(&mut self, lo: Bound<Q>, hi: Bound<Q>, f: &mut dyn FnMut(&mut dyn DoubleEndedIterator<Item = (&K, &mut V)>)) {
        f(&mut self.range_mut::<Q, _>((lo, hi)))
    }
}

fn any_bound(kind: u64, x: u16) -> Bound<Q> {
    match kind {
        0 => Bound::Included(Q(x)),
        1 => Bound::Excluded(Q(x)),
        _ => Bound::Unbounded,
    }
}

/// Symbolic well-formed bounds, and the indices they select.
pub fn bounds(r: &Ref, lk: u64, hk: u64) -> (Bound<Q>, Bound<Q>, usize, usize) {
    let x = any16();
    let y = any16();
    if lk < 2 && hk < 2 {
        assume(x <= y);
        if lk == 1 && hk == 1 {
            // std panics on (Excluded(k), Excluded(k)): not a well-formed range
            assume(x < y);
        }
    }
    let lo = match lk {
        0 => match r.pos(x) {
            Ok(i) => i,
            Err(i) => i,
        },
        1 => match r.pos(x) {
            Ok(i) => i + 1,
            Err(i) => i,
        },
        _ => 0,
    };
    let hi = match hk {
        0 => match r.pos(y) {
            Ok(i) => i + 1,
            Err(i) => i,
        },
        1 => match r.pos(y) {
            Ok(i) => i,
            Err(i) => i,
        },
        _ => r.len(),
    };
    // (Included(k), Excluded(k)) and the like select nothing
    let hi = if hi < lo { lo } else { hi };
    (any_bound(lk, x), any_bound(hk, y), lo, hi)
}

/// a, b: prestate.  c: lower kind | upper kind << 2 | mutable << 4 | plan << 8.
pub fn range<M: Ranged>(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, r) = build::<M>(a, b, 0);
    let mode = (d >> 8) & 15;
    let twin = RefCell::new(Twin::make(&m, &r, mode));
    let (lb, hb, lo, hi) = bounds(&r, c & 3, (c >> 2) & 3);
    let p = Plan::new(c >> 8, hi - lo).on_event(|| meddle(&mut twin.borrow_mut()));
    if lo < hi {
        cover("range with elements");
    } else {
        cover("empty range");
    }
    g().clones = 0;
    if c & 16 == 0 {
        drive(m.rng(lb, hb), lo, hi, &p, inexact, |(k, v), i| {
            ck(k, &r, i);
            cv(v, &r, i);
        });
        if c >> 13 & 1 == 0 {
            chk_if(LAZY, g().clones == 0, "a range by reference clones no element");
        }
        same(&m, &r, ISO, "a range by reference changes nothing");
    } else {
        let mut w = r.clone();
        m.rng_mut(lb, hb, &mut |it| {
            drive(it, lo, hi, &p, inexact, |(k, v), i| {
                ck(k, &r, i);
                wv(v, &r, &mut w, i, &p);
            })
        });
        p.flush();
        if mode == 0 {
            chk_if(LAZY, g().clones == 0, "range_mut of a map that shares nothing clones no element");
        }
        same(&m, &w, CONTENT, "writes through range_mut change the entries visited and no others");
        lookups(&m, &w, CONTENT, "entries are still found after range_mut");
        balanced(&m, &w, "range_mut keeps the tree");
    }
    twin.borrow().verify("a range of one copy leaves the other alone");
    drop(m);
    twin.borrow().verify("the other copy survives");
    cover("end");
}
