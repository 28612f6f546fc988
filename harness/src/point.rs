//! Point operations (C01-C07, C18, C20, C22): prestate x sharing x operations.
use crate::elem::*;
use crate::kinds::*;
use crate::model::*;
use crate::sx::*;

/// A copy of the map under test that shares structure with it.
pub struct Twin<M> {
    pub m: Option<M>,
    pub r: Ref,
    pub third: Option<(M, Ref)>,
}

impl<M> Default for Twin<M> {
    fn default() -> Self {
        Twin { m: None, r: Ref::new(), third: None }
    }
}

impl<M: Base> Twin<M> {
    /// mode 0: no copy.  1: an unchanged clone.  2..: a clone that has since
    /// diverged at (2) its first key, (3) its last, (4) its middle, (5) by
    /// losing its first key, (6) by gaining a last key, so that the two share
    /// part of their structure only.  7: two copies, one unchanged and one
    /// diverged at its middle key.  8: a clone was made, and is gone.
    /// 9: as 1, made by clone_from.  10: two unchanged clones.
    pub fn make(m: &M, r: &Ref, mode: u64) -> Twin<M> {
        let mut t = Twin { m: None, r: r.clone(), third: None };
        if mode == 0 {
            return t;
        }
        let mut c = m.clone();
        if mode == 9 {
            // clone_from over something else
            c = M::new();
            c.ins(K::new(1), V::new(1));
            c.clone_from(m);
        }
        if mode == 8 {
            drop(c);
            return t;
        }
        if mode == 7 || mode == 10 {
            t.third = Some((m.clone(), r.clone()));
        }
        let n = r.len();
        if n > 0 && mode >= 2 && mode < 8 {
            let i = match mode {
                2 => 0,
                3 => n - 1,
                _ => n / 2,
            };
            if mode <= 4 || mode == 7 {
                if let Some(v) = c.get_mut(&Q(r.k(i))) {
                    v.set(0x7000);
                }
                t.r.e[i].1 = 0x7000;
            } else if mode == 5 {
                let k = r.k(0);
                c.rem(&Q(k));
                t.r.remove_at(0);
            } else {
                let k = r.k(n - 1) + 1000;
                c.ins(K::new(k), V::new(0x7001));
                t.r.e.push((k, 0x7001));
            }
        }
        t.m = Some(c);
        t
    }
    pub fn verify(&self, what: &str) {
        if let Some(c) = &self.m {
            same(c, &self.r, ISO, what);
            lookups(c, &self.r, ISO, what);
            if on(ISO) && on(BAL) {
                chk(c.check(), "the other copy is still balanced");
            }
        }
        if let Some((c, r)) = &self.third {
            same(c, r, ISO, what);
        }
    }
}

pub const OP_LOOKUP: u64 = 1;
pub const OP_INSERT: u64 = 2;
pub const OP_REMOVE: u64 = 3;
pub const OP_REMOVE_ENTRY: u64 = 4;
pub const OP_GET_MUT: u64 = 5;
pub const OP_POP_FIRST: u64 = 6;
pub const OP_POP_LAST: u64 = 7;
pub const OP_CLEAR: u64 = 8;
pub const OP_ENDS: u64 = 9;

fn tv(o: Option<u16>) {
    match o {
        Some(v) => trace(1 + v as u64),
        None => trace(0),
    }
}

/// One operation on map and reference; results are compared.
pub fn step<M: Base>(m: &mut M, r: &mut Ref, op: u64, nval: u16) {
    match op {
        OP_LOOKUP => {
            let q = any16();
            let e = r.pos(q);
            let (cl, cm) = (g().clones, cmp_bound::<M>(r.len()));
            recount();
            let f = m.get(&Q(q)).map(|v| v.get());
            chk_if(BAL, g().cmps <= cm, "a lookup takes logarithmically many comparisons");
            tv(f);
            let want = match e {
                Ok(i) => Some(r.v(i)),
                Err(_) => None,
            };
            chk_if(CONTENT, f == want, "get returns the value of exactly the keys present");
            let h = m.has(&Q(q));
            chk_if(CONTENT, h == want.is_some(), "contains_key is true of exactly the keys present");
            let kv = m.get_kv(&Q(q)).map(|(k, v)| (k.v(), v.get()));
            match (kv, want) {
                (None, None) => {
                    cover("lookup of an absent key");
                    if M::AVL && on(CONTENT) {
                        // Index is implemented for AvlMap only
                        let o = attempt(|| m.index(&Q(q)).get());
                        chk(o.is_none(), "indexing by an absent key panics");
                    }
                }
                (Some((k, v)), Some(w)) => {
                    cover("lookup of a present key");
                    chk_if(CONTENT, k == q && v == w, "get_key_value returns the stored entry");
                    chk_if(CONTENT, m.index(&Q(q)).get() == w, "indexing returns the stored value");
                }
                _ => chk_if(CONTENT, false, "get_key_value finds exactly the keys present"),
            }
            chk_if(LAZY, g().clones == cl, "a lookup clones no element");
        }
        OP_INSERT => {
            let q = any16();
            let want = r.ins(q, nval);
            let o = m.ins(K::new(q), V::new(nval)).map(|v| v.get());
            tv(o);
            chk_if(CONTENT, o == want, "insert returns the value it replaces, or None");
            cover(if want.is_some() { "insert of a present key" } else { "insert of a new key" });
        }
        OP_REMOVE => {
            let q = any16();
            let want = r.rem(q).map(|e| e.1);
            let o = m.rem(&Q(q)).map(|v| v.get());
            tv(o);
            chk_if(CONTENT, o == want, "remove returns the value removed, or None");
            cover(if want.is_some() { "remove of a present key" } else { "remove of an absent key" });
        }
        OP_REMOVE_ENTRY => {
            let q = any16();
            let want = r.rem(q);
            let o = m.rem_entry(&Q(q)).map(|(k, v)| (k.v(), v.get()));
            tv(o.map(|e| e.1));
            chk_if(CONTENT, o == want, "remove_entry returns the entry removed, or None");
        }
        OP_GET_MUT => {
            let q = any16();
            let e = r.pos(q);
            match (m.get_mut(&Q(q)), e) {
                (Some(v), Ok(i)) => {
                    chk_if(CONTENT, v.get() == r.v(i), "get_mut refers to the stored value");
                    v.set(nval);
                    r.e[i].1 = nval;
                    cover("get_mut of a present key");
                }
                (None, Err(_)) => cover("get_mut of an absent key"),
                _ => chk_if(CONTENT, false, "get_mut finds exactly the keys present"),
            }
        }
        OP_POP_FIRST => {
            let want = r.pop_first();
            let o = m.pop_first().map(|(k, v)| (k.v(), v.get()));
            tv(o.map(|e| e.1));
            chk_if(CONTENT, o == want, "pop_first returns the least entry, or None");
        }
        OP_POP_LAST => {
            let want = r.pop_last();
            let o = m.pop_last().map(|(k, v)| (k.v(), v.get()));
            tv(o.map(|e| e.1));
            chk_if(CONTENT, o == want, "pop_last returns the greatest entry, or None");
        }
        OP_CLEAR => {
            m.clear();
            r.e.clear();
        }
        _ => {
            let f = m.first_kv().map(|(k, v)| (k.v(), v.get()));
            let l = m.last_kv().map(|(k, v)| (k.v(), v.get()));
            let n = r.len();
            let (wf, wl) = if n == 0 { (None, None) } else { (Some(r.e[0]), Some(r.e[n - 1])) };
            chk_if(CONTENT, f == wf, "first_key_value is the least entry, or None");
            chk_if(CONTENT, l == wl, "last_key_value is the greatest entry, or None");
        }
    }
}

/// 12: insert, remove.  13: insert, remove, get_mut, lookup.  14: all.
fn pick(op: u64) -> u64 {
    match op {
        12 => OP_INSERT + choice(2),
        13 => match choice(4) {
            0 => OP_INSERT,
            1 => OP_REMOVE,
            2 => OP_GET_MUT,
            _ => OP_LOOKUP,
        },
        14 => 1 + choice(9),
        x => x,
    }
}

/// a, b: prestate.  c: operations, as hexadecimal digits from the lowest.
/// d: assertion groups | sharing mode << 8.
pub fn point<M: Base>(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, mut r) = build::<M>(a, b, 0);
    let mode = (d >> 8) & 15;
    let twin = Twin::make(&m, &r, mode);
    let mut ops = c;
    let mut step_no = 0;
    while ops != 0 {
        let op = pick(ops & 15);
        ops >>= 4;
        step_no += 1;
        let n = r.len();
        g().clones = 0;
        step(&mut m, &mut r, op, 0x4000 + step_no);
        if mode == 0 || mode == 8 {
            chk_if(LAZY, g().clones == 0, "an update of a map that shares nothing clones no element");
        } else {
            chk_if(LAZY, g().clones <= near_path::<M>(n + 1), "an update of a shared map clones only elements near one path");
        }
        if ops != 0 && on(BAL) {
            balanced(&m, &r, "the tree is balanced after every operation");
        }
    }
    same(&m, &r, CONTENT, "the map holds what a sorted map would hold");
    lookups(&m, &r, CONTENT, "every entry is found under its key");
    balanced(&m, &r, "the tree is balanced");
    twin.verify("the other copy holds what it held before");
    drop(m);
    twin.verify("the other copy survives the drop of this one");
    drop(twin);
    cover("end");
}

/// Operations on either of two copies, in any order: c operations, each on
/// the copy and with the kind chosen by the solver.
pub fn two_copies<M: Base>(a: u64, b: u64, c: u64, _d: u64) {
    let (m0, r0) = build::<M>(a, b, 0);
    let mut m1 = m0.clone();
    let mut m0 = m0;
    let mut r0 = r0;
    let mut r1 = r0.clone();
    let mut i = 0;
    while i < c & 15 {
        let op = match c >> 4 {
            0 => pick(12),
            _ => pick(13),
        };
        if choice(2) == 0 {
            step(&mut m0, &mut r0, op, 0x4000 + i as u16);
        } else {
            step(&mut m1, &mut r1, op, 0x5000 + i as u16);
        }
        i += 1;
    }
    let g = CONTENT | ISO;
    same(&m0, &r0, g, "the first copy holds what its own history gives");
    same(&m1, &r1, g, "the second copy holds what its own history gives");
    lookups(&m0, &r0, g, "every entry of the first copy is found");
    lookups(&m1, &r1, g, "every entry of the second copy is found");
    balanced(&m0, &r0, "the first copy is balanced");
    balanced(&m1, &r1, "the second copy is balanced");
    if choice(2) == 0 {
        drop(m0);
        same(&m1, &r1, g, "the second copy survives the first");
    } else {
        drop(m1);
        same(&m0, &r0, g, "the first copy survives the second");
    }
    cover("end");
}
