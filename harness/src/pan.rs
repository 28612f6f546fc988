//! User code that panics (C22): the fuse-th call of a comparison, a clone or
//! a closure from the start of an operation panics, for every fuse up to a
//! bound; then everything is dropped.
//!
//! Parameter d: groups | sharing << 8 | greatest fuse << 16.
use crate::bulk::Full;
use crate::elem::*;
use crate::iters::Ranged;
use crate::kinds::*;
use crate::model::*;
use crate::point::Twin;
use crate::sets::*;
use crate::sx::*;
use std::ops::Bound::*;

/// Runs f, of which some call into user code may panic.
fn burn<R>(d: u64, f: impl FnOnce() -> R) -> bool {
    let most = (d >> 16) & 0xff;
    let fuse = 1 + choice(most) as u32;
    g().fuse = fuse;
    let r = attempt(f);
    let left = g().fuse;
    g().fuse = 0;
    trace(left as u64);
    let ok = r.is_some();
    if ok {
        cover("the operation ended before the fuse did");
    } else {
        cover("user code panicked");
        g().panicked = true;
        if fuse as u64 == most {
            cover("the last fuse went off");
        }
    }
    drop(r);
    ok
}

fn finish<M: Base>(m: M, t: Twin<M>) {
    // which of them goes first must not matter
    if choice(2) == 0 {
        drop(m);
        t.verify("the other copy is unaffected by a panic");
        drop(t);
    } else {
        t.verify("the other copy is unaffected by a panic");
        drop(t);
        drop(m);
    }
    cover("end");
}

/// Operations that every map has.  c: the operation.
pub fn pan<M: Base>(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, r) = build::<M>(a, b, 0);
    let t = Twin::make(&m, &r, (d >> 8) & 15);
    let q = any16();
    match c {
        0 => {
            burn(d, || m.ins(K::new(q), V::new(1)));
        }
        1 => {
            burn(d, || m.rem(&Q(q)));
        }
        2 => {
            burn(d, || {
                if let Some(v) = m.get_mut(&Q(q)) {
                    v.set(1)
                }
            });
        }
        3 => {
            burn(d, || m.get(&Q(q)).is_some());
        }
        _ => {
            burn(d, || {
                m.ins(K::new(q), V::new(1));
                m.rem(&Q(q));
            });
        }
    }
    finish(m, t);
}

/// Operations of AvlMap and BTreeMap.
pub fn pan_full<M: Full + Ranged>(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, r) = build::<M>(a & 0xffff, a >> 16, 0);
    let t = Twin::make(&m, &r, (d >> 8) & 15);
    match c {
        0..=5 => {
            let q = any16();
            burn(d, || {
                m.entry_(K::new(q), c, 1, &mut |v| {
                    tick();
                    v.set(2)
                })
            });
        }
        6 => {
            // keys between those of the first and beyond
            let (mut o, or) = build::<M>(b & 0xffff, b >> 16, 32);
            let ot = Twin::make(&o, &or, (d >> 8) & 15);
            burn(d, || m.append_(&mut o));
            ot.verify("clones of the other operand are unaffected by a panic");
            drop(o);
        }
        7 => {
            let q = any16();
            burn(d, || m.split_off_(&Q(q)));
        }
        8 => {
            burn(d, || {
                m.retain_(&mut |_, v| {
                    tick();
                    v.set(3);
                    choice(2) == 1
                })
            });
        }
        9 => {
            let q = any16();
            burn(d, || {
                m.rng_mut(Included(Q(q)), Unbounded, &mut |it| {
                    while let Some((_, v)) = it.next() {
                        tick();
                        v.set(4);
                        if let Some((_, v)) = it.next_back() {
                            v.set(5);
                        }
                    }
                })
            });
        }
        10 => {
            burn(d, || m.pop_first());
        }
        11 => {
            burn(d, || m.pop_last());
        }
        12 => {
            let q = any16();
            burn(d, || m.rem_entry(&Q(q)));
        }
        13 => {
            let mut items = Vec::with_capacity(4);
            for i in 0..b {
                items.push((K::new(any16()), V::new(i as u16)));
            }
            burn(d, || {
                tick();
                m.extend_(items)
            });
        }
        14 => {
            let mut items = Vec::with_capacity(4);
            for i in 0..b {
                items.push((K::new(any16()), V::new(i as u16)));
            }
            burn(d, || M::collect_(items));
        }
        15 => {
            let (o, _) = build::<M>(a & 0xffff, a >> 16, 0);
            burn(d, || (m.eq_(&o), m.cmp_(&o)));
        }
        _ => (),
    }
    finish(m, t);
}

/// Iterators abandoned by a panic.  c: 0 iter_mut, 1 into_iter.
pub fn pan_iter<M: crate::iters::Iters>(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, r) = build::<M>(a, b, 0);
    let t = Twin::make(&m, &r, (d >> 8) & 15);
    let p = crate::iters::Plan::new(3, r.len());
    if c == 0 {
        let mut w = r.clone();
        burn(d, || m.by_mut(0, &r, &mut w, &p));
        finish(m, t);
    } else {
        burn(d, || m.by_val(0, &r, &p));
        t.verify("the other copy is unaffected by a panic");
        cover("end");
    }
}

/// Operations only AvlMap has.
pub fn pan_avl(a: u64, b: u64, c: u64, d: u64) {
    let (m, r) = build::<Avl>(a & 0xffff, a >> 16, 0);
    let t = Twin::make(&m, &r, (d >> 8) & 15);
    let off = if c == 4 { 0x1000 } else { 0 };
    let (o, or) = build::<Avl>(b & 0xffff, b >> 16, off);
    let ot = Twin::make(&o, &or, (d >> 8) & 15);
    burn(d, || match c {
        0 => Avl::new_union(m, o),
        1 => Avl::new_intersect(m, o),
        2 => Avl::new_diff(m, o),
        3 => Avl::new_sym_diff(m, o),
        _ => Avl::new_join(m, K::new(0xfff), V::new(1), o),
    });
    t.verify("clones of the first operand are unaffected by a panic");
    ot.verify("clones of the second operand are unaffected by a panic");
    cover("end");
}

/// Closures given to for_each and for_each_mut.
pub fn pan_each(a: u64, _b: u64, c: u64, d: u64) {
    let (mut m, r) = build::<Avl>(a, 0, 0);
    let t = Twin::make(&m, &r, (d >> 8) & 15);
    if c == 0 {
        burn(d, || m.for_each(|_| tick()));
    } else {
        burn(d, || {
            m.for_each_mut(|(_, v)| {
                v.set(6);
                tick()
            })
        });
    }
    finish(m, t);
}

pub fn pan_set<S: SetBase>(a: u64, b: u64, c: u64, d: u64) {
    let (mut s, r) = build_set::<S>(a, 0);
    let mode = (d >> 8) & 15;
    let t = TwinSet::make(&s, &r, mode);
    let ops = |c: u64| c - 16;
    match c {
        0 => {
            let q = any16();
            burn(d, || s.ins(K::new(q)));
        }
        1 => {
            let q = any16();
            burn(d, || s.repl(K::new(q)));
        }
        2 => {
            let q = any16();
            burn(d, || s.rem(&Q(q)));
        }
        3 => {
            let q = any16();
            burn(d, || s.take_(&Q(q)));
        }
        4 => {
            burn(d, || s.popf());
        }
        5 => {
            burn(d, || s.popl());
        }
        6 => {
            let q = any16();
            burn(d, || s.split_(&Q(q)));
        }
        7 => {
            burn(d, || {
                s.retain_(&mut |_| {
                    tick();
                    choice(2) == 1
                })
            });
        }
        8 => {
            let mut items = Vec::with_capacity(4);
            for _ in 0..b {
                items.push(K::new(any16()));
            }
            burn(d, || s.extend_(items));
        }
        _ => {
            let (mut o, or) = build_set::<S>(b, 0);
            let q = any16();
            o.ins(K::new(q));
            drop(or);
            match c {
                9 => {
                    burn(d, || s.append_(&mut o));
                }
                10 => {
                    burn(d, || (s.subset(&o), s.superset(&o), s.disjoint(&o)));
                }
                16..=19 => {
                    burn(d, || s.oper(&o, ops(c)));
                }
                20..=23 => {
                    let (x, y) = (s, o);
                    burn(d, || S::made(x, y, ops(c) - 4));
                    t.verify("the other copy is unaffected by a panic");
                    cover("end");
                    return;
                }
                _ => {
                    burn(d, || s.lazy(&o, ops(c) & 3, &mut |_| tick()));
                }
            }
        }
    }
    if choice(2) == 0 {
        drop(s);
        t.verify("the other copy is unaffected by a panic");
    } else {
        t.verify("the other copy is unaffected by a panic");
        drop(t);
        drop(s);
    }
    cover("end");
}

pub fn pan_stack(a: u64, b: u64, c: u64, d: u64) {
    let mut s: Stack<K> = Stack::new();
    for i in 0..a {
        s.push(K::new(i as u16 * 2 + 1));
    }
    let mut t = if b > 0 { Some(s.clone()) } else { None };
    match c {
        0 => {
            burn(d, || s.pop());
        }
        1 => {
            burn(d, || {
                if let Some(k) = s.top_mut() {
                    k.q = Q(1)
                }
            });
        }
        2 => {
            let at = choice(a + 1) as usize;
            burn(d, || s.remove(at));
        }
        3 => {
            let at = choice(a + 2) as usize;
            burn(d, || s.split_off(at));
        }
        4 => {
            burn(d, || {
                for k in s.iter_mut() {
                    tick();
                    k.q = Q(7);
                }
            });
        }
        5 => {
            let x = s;
            s = Stack::new();
            burn(d, || {
                for k in x {
                    tick();
                    drop(k);
                }
            });
        }
        6 => {
            let k = K::new(any16());
            burn(d, || s.contains(&k));
        }
        _ => {
            let o: Stack<K> = s.iter().map(|k| k.clone()).collect();
            burn(d, || (s == o, s.cmp(&o)));
        }
    }
    if choice(2) == 0 {
        drop(s);
    } else {
        t = None;
    }
    if let Some(t) = &t {
        let mut i = a;
        for k in t.iter() {
            chk_if(ISO, i > 0, "the other copy is unaffected by a panic");
            if i == 0 {
                break;
            }
            i -= 1;
            chk_if(ISO, k.v() == i as u16 * 2 + 1, "the other copy is unaffected by a panic");
        }
        chk_if(ISO, i == 0, "the other copy is unaffected by a panic");
    }
    cover("end");
}

/// Other elements for the raw storage (C20): sizes and alignments vary.
pub trait Elem: Clone {
    fn of(x: u16) -> Self;
    fn is(&self, x: u16) -> bool;
}
impl Elem for () {
    fn of(_: u16) {}
    fn is(&self, _: u16) -> bool {
        true
    }
}
impl Elem for u8 {
    fn of(x: u16) -> u8 {
        x as u8
    }
    fn is(&self, x: u16) -> bool {
        *self == x as u8
    }
}
impl Elem for u64 {
    fn of(x: u16) -> u64 {
        x as u64 * 0x1_0001_0001
    }
    fn is(&self, x: u16) -> bool {
        *self == x as u64 * 0x1_0001_0001
    }
}
/// as aligned as anything usually is
#[derive(Clone)]
#[repr(align(16))]
pub struct Wide(u8, u64, u16);
impl Elem for Wide {
    fn of(x: u16) -> Self {
        Wide(x as u8, x as u64, x)
    }
    fn is(&self, x: u16) -> bool {
        self.0 == x as u8 && self.1 == x as u64 && self.2 == x
    }
}
impl Elem for Box<u16> {
    fn of(x: u16) -> Self {
        Box::new(x)
    }
    fn is(&self, x: u16) -> bool {
        **self == x
    }
}

/// a, b: prestate.  c: count of operations.
pub fn layout<X: Elem + Ord, Y: Elem>(a: u64, b: u64, c: u64, _d: u64) {
    let p = plan(FIXED_TREE, 5, a, b);
    let mut m = lazy_clone_collections::btree::fixed::BTreeMap::<X, Y>::new();
    let mut r = Ref::new();
    // the keys as 8-bit ranks with gaps
    let rank = |k: u16| k / 32;
    for (i, k) in p.iter().enumerate() {
        let k1 = rank(k.unsigned_abs() as u16);
        if *k < 0 {
            m.remove(&X::of(k1));
            r.rem(k1);
        } else {
            m.insert(X::of(k1), Y::of(val(i)));
            r.ins(k1, val(i));
        }
    }
    let t = m.clone();
    let tr = r.clone();
    for i in 0..c {
        let q = any16();
        assume(q < 256);
        match choice(3) {
            0 => {
                let o = m.insert(X::of(q), Y::of(i as u16));
                let w = r.ins(q, i as u16);
                chk_if(CONTENT, o.is_some() == w.is_some(), "insert returns the value it replaces, or None");
            }
            1 => {
                let o = m.remove(&X::of(q));
                let w = r.rem(q);
                chk_if(CONTENT, o.is_some() == w.is_some(), "remove returns the value removed, or None");
            }
            _ => {
                if let Some(y) = m.get_mut(&X::of(q)) {
                    *y = Y::of(777);
                    r.ins(q, 777);
                }
            }
        }
    }
    let all = |m: &lazy_clone_collections::btree::fixed::BTreeMap<X, Y>, r: &Ref, what: &str| {
        let mut i = 0;
        for (k, v) in m.iter() {
            chk_if(CONTENT, i < r.len(), what);
            if i >= r.len() {
                return;
            }
            chk_if(CONTENT, k.is(r.k(i)) && v.is(r.v(i)), what);
            i += 1;
        }
        chk_if(CONTENT, i == r.len(), what);
    };
    all(&m, &r, "the map holds what a sorted map would hold");
    all(&t, &tr, "the other copy holds what it held before");
    let stop = choice(r.len() as u64 + 1) as usize;
    let mut i = 0;
    for (k, v) in m {
        if i == stop {
            break;
        }
        chk_if(CONTENT, k.is(r.k(i)) && v.is(r.v(i)), "consuming the map yields its entries");
        i += 1;
    }
    all(&t, &tr, "the other copy survives");
    cover("end");
}
