//! How much is cloned (C06): large collections, a symbolic key.
use crate::bulk::Full;
use crate::elem::*;
use crate::iters::Iters;
use crate::kinds::*;
use crate::model::*;
use crate::point::*;
use crate::sets::*;
use crate::sx::*;

/// The first clone of a collection: no element copied, and no more than one
/// allocation made.
fn clone_lazily<T: Clone>(m: &T) -> T {
    let l = live();
    g().clones = 0;
    let c = m.clone();
    chk_if(LAZY, g().clones == 0, "clone clones no element");
    chk_if(LAZY, live() <= l + 1, "clone allocates nothing per element");
    c
}

fn base<M: Base>(a: u64, b: u64, c: u64) -> (M, Ref, M, Ref, u64) {
    let (mut m, mut r) = build::<M>(a, b, 0);
    let t = clone_lazily(&m);
    let tr = r.clone();
    let n = r.len();
    g().clones = 0;
    let op = c & 15;
    step(&mut m, &mut r, op, 0x4000);
    let most = near_path::<M>(n + 1);
    chk_if(LAZY, g().clones <= most, "an update of a shared map clones only elements near one path");
    // once more: much of the path is no longer shared
    if c >> 4 != 0 {
        g().clones = 0;
        step(&mut m, &mut r, c >> 4, 0x4001);
        chk_if(LAZY, g().clones <= most, "the next update of a shared map clones only elements near one path");
    }
    (m, r, t, tr, op)
}

/// a, b: prestate.  c: operation | second operation << 4 (see point).
pub fn lazy<M: Base>(a: u64, b: u64, c: u64, _d: u64) {
    let (m, _, t, _, _) = base::<M>(a, b, c);
    drop(m);
    drop(t);
    cover("end");
}

/// Read-only operations on a shared map.
pub fn reads<M: Full + Iters>(a: u64, b: u64, _c: u64, _d: u64) {
    let (m, r) = build::<M>(a, b, 0);
    let t = clone_lazily(&m);
    let q = any16();
    let l = live();
    g().clones = 0;
    let _ = m.get(&Q(q));
    let _ = m.get_kv(&Q(q));
    let _ = m.has(&Q(q));
    let _ = m.first_kv();
    let _ = m.last_kv();
    let _ = m.len();
    let _ = m.is_empty();
    let mut s = 0;
    for (k, _) in m.iter() {
        s += k.v() as u64;
    }
    let _ = m.eq_(&t);
    let _ = m.cmp_(&t);
    let _ = m.pcmp_(&t);
    let _ = m.check();
    trace(s);
    chk_if(LAZY, g().clones == 0, "operations that only read clone no element");
    chk_if(LAZY, live() == l, "operations that only read keep no memory");
    trace(r.len() as u64);
    cover("end");
}

/// a, b: prestate of a set.  c: operation (see sets).
pub fn lazy_set<S: SetBase>(a: u64, b: u64, c: u64, _d: u64) {
    let (mut s, mut r) = build_set::<S>(a, b);
    let t = clone_lazily(&s);
    let n = r.len();
    g().clones = 0;
    let mut k = 0;
    s.each(&mut |x| k += x.v() as u64);
    let _ = s.eq_(&t);
    let _ = s.subset(&t);
    let _ = s.disjoint(&t);
    trace(k);
    chk_if(LAZY, g().clones == 0, "operations that only read clone no element");
    g().clones = 0;
    set_step(&mut s, &mut r, c & 15, 0x4000);
    let most = near_path_(S::AVL, S::N, n + 1, 1);
    chk_if(LAZY, g().clones <= most, "an update of a shared set clones only elements near one path");
    cover("end");
}
