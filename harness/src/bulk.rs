//! Whole-map operations (C10-C12, C19, C21).
use crate::elem::*;
use crate::iters::Iters;
use crate::kinds::*;
use crate::model::*;
use crate::point::*;
use crate::sx::*;

pub trait Full: Iters {
    fn append_(&mut self, o: &mut Self);
    fn split_off_(&mut self, q: &Q) -> Self;
    fn retain_(&mut self, f: &mut dyn FnMut(&K, &mut V) -> bool);
    fn collect_(v: Vec<(K, V)>) -> Self;
    fn extend_(&mut self, v: Vec<(K, V)>);
    fn from3(v: [(K, V); 3]) -> Self;
    /// entry(k) and one of or_insert, or_insert_with, or_insert_with_key,
    /// or_default, and_modify (then or_insert), and_modify alone, key alone
    fn entry_(&mut self, k: K, how: u64, v: u16, f: &mut dyn FnMut(&mut V));
    fn entry_runs(&mut self, k: K, how: u64) -> u32;
    fn end_entry(&mut self, last: bool) -> Option<u16>;
    fn end_entry_modify(&mut self, last: bool, v: u16) -> bool;
    fn eq_(&self, o: &Self) -> bool;
    fn cmp_(&self, o: &Self) -> std::cmp::Ordering;
    fn pcmp_(&self, o: &Self) -> Option<std::cmp::Ordering>;
}

macro_rules! full_methods {
    () => {
        fn append_(&mut self, o: &mut Self) {
            self.append(o)
        }
        fn split_off_(&mut self, q: &Q) -> Self {
            self.split_off(q)
        }
        fn retain_(&mut self, f: &mut dyn FnMut(&K, &mut V) -> bool) {
            self.retain(|k, v| f(k, v))
        }
        fn collect_(v: Vec<(K, V)>) -> Self {
            v.into_iter().collect()
        }
        fn extend_(&mut self, v: Vec<(K, V)>) {
            self.extend(v)
        }
        fn from3(v: [(K, V); 3]) -> Self {
            Self::from(v)
        }
        fn entry_(&mut self, k: K, how: u64, v: u16, f: &mut dyn FnMut(&mut V)) {
            let q = k.v();
            let e = self.entry(k);
            chk_if(CONTENT, e.key().v() == q, "key is the key the entry was made with");
            match how {
                0 => f(e.or_insert(V::new(v))),
                1 => f(e.or_insert_with(|| {
                    cover("or_insert_with calls its closure");
                    V::new(v)
                })),
                2 => f(e.or_insert_with_key(|k| {
                    chk_if(CONTENT, k.v() == q, "or_insert_with_key passes the key");
                    V::new(v)
                })),
                3 => f(e.or_default()),
                4 => f(e.and_modify(|x| x.set(x.get().wrapping_add(1))).or_insert(V::new(v))),
                5 => {
                    e.and_modify(|x| x.set(x.get().wrapping_add(1)));
                }
                _ => (),
            }
        }
        fn entry_runs(&mut self, k: K, how: u64) -> u32 {
            let mut runs = 0;
            let e = self.entry(k);
            match how {
                0 => {
                    e.or_insert_with(|| {
                        runs += 1;
                        V::new(1)
                    });
                }
                1 => {
                    e.or_insert_with_key(|_| {
                        runs += 1;
                        V::new(1)
                    });
                }
                _ => {
                    e.and_modify(|_| runs += 1);
                }
            }
            runs
        }
        fn end_entry(&mut self, last: bool) -> Option<u16> {
            if last {
                self.last_entry().map(|e| e.key().v())
            } else {
                self.first_entry().map(|e| e.key().v())
            }
        }
        fn end_entry_modify(&mut self, last: bool, v: u16) -> bool {
            let e = if last { self.last_entry() } else { self.first_entry() };
            match e {
                Some(e) => {
                    e.and_modify(|x| x.set(v));
                    true
                }
                None => false,
            }
        }
        fn eq_(&self, o: &Self) -> bool {
            self == o
        }
        fn cmp_(&self, o: &Self) -> std::cmp::Ordering {
            self.cmp(o)
        }
        fn pcmp_(&self, o: &Self) -> Option<std::cmp::Ordering> {
            self.partial_cmp(o)
        }
    };
}
impl Full for Avl {
    full_methods!();
}
impl<const N: usize> Full for BT<N> {
    full_methods!();
}

/// Parameter b of the two-map harnesses: the second prestate (low 16 bits its
/// a, then its b), and how the two relate.
/// rel 0: keys of both symbolic, any interleaving; 1: the second is a clone of
/// the first that has since been changed at symbolic keys, once; 2: twice;
/// 8-11: as 0, placed as said at `placed`.
fn second<M: Base>(m: &M, r: &Ref, b: u64, rel: u64) -> (M, Ref) {
    if rel == 0 || rel >= 8 {
        let (m2, r2) = build_sym::<M>(b & 0xffff, b >> 16, 500);
        placed(r, &r2, rel);
        return (m2, r2);
    }
    let mut m2 = m.clone();
    let mut r2 = r.clone();
    let mut i = 0;
    while i < rel {
        let q = any16();
        if choice(2) == 0 {
            m2.ins(K::new(q), V::new(900 + i as u16));
            r2.ins(q, 900 + i as u16);
        } else {
            m2.rem(&Q(q));
            r2.rem(q);
        }
        i += 1;
    }
    (m2, r2)
}

/// Where the keys of two large collections lie: 8: the first's before the
/// second's but for the two at the ends that meet; 9: the other way round; 10:
/// the second's between two neighbours of the first's (or at either end), or
/// equal to those; 11: the other way round.
pub fn placed(r1: &Ref, r2: &Ref, rel: u64) {
    let (x, y) = if rel & 1 == 0 { (r1, r2) } else { (r2, r1) };
    let (n, m) = (x.len(), y.len());
    if rel < 8 || n == 0 || m == 0 {
        return;
    }
    if rel < 10 {
        if n > 2 {
            assume(x.k(n - 3) < y.k(0));
        }
        if m > 2 {
            assume(x.k(n - 1) < y.k(2));
        }
        return;
    }
    let i = choice(n as u64 + 1) as usize;
    if i > 0 {
        assume(x.k(i - 1) <= y.k(0));
    }
    if i < n {
        assume(y.k(m - 1) <= x.k(i));
    }
}

fn result<M: Base>(m: &M, r: &Ref, what: &str) {
    same(m, r, CONTENT, what);
    lookups(m, r, CONTENT, what);
    balanced(m, r, what);
}

fn held<M: Base>(m: &M, r: &Ref, on: bool) -> Twin<M> {
    Twin { m: if on { Some(m.clone()) } else { None }, r: r.clone(), third: None }
}

/// One more operation, to see that a result is fit for use.
fn after<M: Base>(m: M, r: Ref, op: u64) {
    let (mut m, mut r) = (m, r);
    if op != 0 {
        step(&mut m, &mut r, op, 0x4444);
        result(&m, &r, "the result of a bulk operation works as a map");
    }
    cover("end");
}

/// a: first prestate (low 16 bits a, then b).  b: second prestate.
/// c: 0 append, 1 split_off, 2 union, 3 intersection, 4 difference,
/// 5 symmetric difference, 6 join | relation << 4 | following op << 8.
/// d: groups | (1: clones of the operands are held) << 8.
pub fn bulk_common<M: Full>(a: u64, b: u64, c: u64, d: u64) -> Option<(M, Ref, M, Ref)> {
    let hold = (d >> 8) & 1 == 1;
    let rel = (c >> 4) & 15;
    let op = (c >> 8) & 15;
    if c & 15 == 1 {
        let (mut m, r) = build::<M>(a & 0xffff, a >> 16, 0);
        let mode = (d >> 8) & 15;
        let t = Twin::make(&m, &r, mode);
        let q = any16();
        let at = match r.pos(q) {
            Ok(i) => {
                cover("split at a present key");
                i
            }
            Err(i) => {
                cover("split at an absent key");
                i
            }
        };
        let hi = m.split_off_(&Q(q));
        let (mut lr, mut hr) = (Ref::new(), Ref::new());
        for i in 0..r.len() {
            if i < at {
                lr.e.push(r.e[i]);
            } else {
                hr.e.push(r.e[i]);
            }
        }
        result(&m, &lr, "split_off leaves the entries below the key");
        result(&hi, &hr, "split_off returns the entries at or above the key");
        t.verify("split_off leaves the other copy alone");
        if op != 0 {
            let mut m = m;
            let mut hi = hi;
            if choice(2) == 0 {
                let mut lr2 = lr;
                step(&mut m, &mut lr2, op, 0x4444);
                result(&m, &lr2, "the lower part works as a map");
                result(&hi, &hr, "using the lower part leaves the upper alone");
            } else {
                let mut hr2 = hr;
                step(&mut hi, &mut hr2, op, 0x4444);
                result(&hi, &hr2, "the upper part works as a map");
                result(&m, &lr, "using the upper part leaves the lower alone");
            }
            t.verify("using the parts leaves the other copy alone");
        }
        cover("end");
        return None;
    }
    let (m1, r1) = build_sym::<M>(a & 0xffff, a >> 16, 0);
    let (m2, r2) = second(&m1, &r1, b, rel);
    if c & 15 == 0 {
        let (mut m1, mut m2) = (m1, m2);
        let t1 = held(&m1, &r1, hold);
        let t2 = held(&m2, &r2, hold);
        m1.append_(&mut m2);
        let w = combine(&r1, &r2, Comb::Union);
        result(&m1, &w, "append moves in all entries, the other's value winning");
        result(&m2, &Ref::new(), "append leaves the other map empty");
        t1.verify("append leaves clones of its first operand alone");
        t2.verify("append leaves clones of its second operand alone");
        drop(m2);
        after(m1, w, op);
        t1.verify("using the result leaves clones of the first operand alone");
        t2.verify("using the result leaves clones of the second operand alone");
        return None;
    }
    Some((m1, r1, m2, r2))
}

pub fn bulk_bt<const N: usize>(a: u64, b: u64, c: u64, d: u64) {
    if c & 15 == 2 {
        // conversion into Vec
        let (m, r) = build::<BT<N>>(a & 0xffff, a >> 16, 0);
        let t = Twin::make(&m, &r, (d >> 8) & 15);
        let v: Vec<(K, V)> = m.into();
        chk_if(CONTENT, v.len() == r.len(), "conversion into Vec has every entry");
        for i in 0..r.len() {
            if i < v.len() {
                chk_if(CONTENT, v[i].0.v() == r.k(i) && v[i].1.get() == r.v(i), "conversion into Vec is in order");
            }
        }
        t.verify("conversion into Vec leaves the other copy alone");
        cover("end");
        return;
    }
    bulk_common::<BT<N>>(a, b, c, d);
}

pub fn bulk_avl(a: u64, b: u64, c: u64, d: u64) {
    let hold = (d >> 8) & 1 == 1;
    let op = (c >> 8) & 15;
    if c & 15 == 6 {
        // join: all keys in one ascending chain; the two may share structure
        let o1 = ranks(AVL_TREE, 0, a & 0xffff, a >> 16).0;
        let o2 = ranks(AVL_TREE, 0, b & 0xffff, b >> 16).0;
        let keys = sym_keys(o1.len() + 1 + o2.len());
        let mut w = Ref::new();
        let (mut m1, mut m2) = (Avl::new(), Avl::new());
        for i in 0..keys.len() {
            w.e.push((keys[i], val(i)));
        }
        for &o in &o1 {
            let o = o as usize;
            m1.insert(K::new(keys[o]), V::new(val(o)));
        }
        for &o in &o2 {
            let o = o as usize + o1.len() + 1;
            m2.insert(K::new(keys[o]), V::new(val(o)));
        }
        let cut = |lo: usize, hi: usize| {
            let mut r = Ref::new();
            for i in lo..hi {
                r.e.push(w.e[i]);
            }
            r
        };
        let t1 = held(&m1, &cut(0, o1.len()), hold);
        let t2 = held(&m2, &cut(o1.len() + 1, keys.len()), hold);
        let m = Avl::new_join(m1, K::new(keys[o1.len()]), V::new(val(o1.len())), m2);
        result(&m, &w, "join has the entries of both maps and the given one");
        t1.verify("join leaves clones of its first operand alone");
        t2.verify("join leaves clones of its second operand alone");
        after(m, w, op);
        t1.verify("using the result leaves clones of the first operand alone");
        t2.verify("using the result leaves clones of the second operand alone");
        return;
    }
    if let Some((m1, r1, m2, r2)) = bulk_common::<Avl>(a, b, c, d) {
        let t1 = held(&m1, &r1, hold);
        let t2 = held(&m2, &r2, hold);
        let (m, w) = match c & 15 {
            2 => (Avl::new_union(m1, m2), combine(&r1, &r2, Comb::Union)),
            3 => (Avl::new_intersect(m1, m2), combine(&r1, &r2, Comb::Inter)),
            4 => (Avl::new_diff(m1, m2), combine(&r1, &r2, Comb::Diff)),
            _ => (Avl::new_sym_diff(m1, m2), combine(&r1, &r2, Comb::Sym)),
        };
        result(&m, &w, "a set operation on maps yields exactly its entries");
        t1.verify("a set operation leaves clones of its first operand alone");
        t2.verify("a set operation leaves clones of its second operand alone");
        after(m, w, op);
        t1.verify("using the result leaves clones of the first operand alone");
        t2.verify("using the result leaves clones of the second operand alone");
    }
}

/// a, b: prestate.  c: predicate (0: any subset; 1: keys in a symbolic range;
/// 2: keys outside one) | 4: values are changed too | following op << 8.
/// d: groups | sharing << 8.
pub fn retain<M: Full>(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, r) = build::<M>(a, b, 0);
    let mode = (d >> 8) & 15;
    let twin = Twin::make(&m, &r, mode);
    let (x, y) = if c & 3 == 0 { (0, 0) } else { (any16(), any16()) };
    if c & 3 != 0 {
        assume(x <= y);
    }
    let n = r.len();
    let mut seen = vec![0u8; n];
    let mut keep = vec![false; n];
    let mut w = r.clone();
    let change = c & 4 != 0;
    m.retain_(&mut |k, v| {
        let kv = k.v();
        let i = match r.pos(kv) {
            Ok(i) => i,
            Err(_) => {
                chk_if(CONTENT, false, "retain asks about elements of the map only");
                return true;
            }
        };
        seen[i] += 1;
        chk_if(CONTENT, v.get() == r.v(i), "retain passes each key with its value");
        let ans = match c & 3 {
            0 => choice(2) == 1,
            1 => x <= kv && kv < y,
            _ => !(x <= kv && kv < y),
        };
        keep[i] = ans;
        if change {
            v.set(0x3000 + i as u16);
            w.e[i].1 = 0x3000 + i as u16;
        }
        ans
    });
    let mut res = Ref::new();
    for i in 0..n {
        chk_if(CONTENT, seen[i] == 1, "retain asks about every element exactly once");
        if keep[i] {
            res.e.push(w.e[i]);
        }
    }
    result(&m, &res, "retain keeps exactly the elements accepted");
    twin.verify("retain leaves the other copy alone");
    after(m, res, (c >> 8) & 15);
    twin.verify("the other copy survives");
}

/// a, b: prestate.  c: how (0..7), see Full::entry_; 8, 9: first/last_entry.
/// d: groups | sharing << 8.
pub fn entry<M: Full>(a: u64, b: u64, c: u64, d: u64) {
    let (mut m, mut r) = build::<M>(a, b, 0);
    let mode = (d >> 8) & 15;
    let twin = Twin::make(&m, &r, mode);
    if c >= 8 {
        let last = c == 9;
        let e = m.end_entry(last);
        let n = r.len();
        let want = if n == 0 { None } else { Some(r.k(if last { n - 1 } else { 0 })) };
        chk_if(CONTENT, e == want, "first_entry and last_entry are the entries of the least and greatest keys");
        same(&m, &r, CONTENT, "making an entry changes nothing");
        let did = m.end_entry_modify(last, 0x2222);
        chk_if(CONTENT, did == want.is_some(), "first_entry and last_entry are None of the empty map only");
        if n > 0 {
            r.e[if last { n - 1 } else { 0 }].1 = 0x2222;
        }
    } else {
        let q = any16();
        let old = r.get(q);
        cover(if old.is_some() { "occupied entry" } else { "vacant entry" });
        let want = match (c, old) {
            (4, Some(o)) | (5, Some(o)) => Some(o.wrapping_add(1)),
            (_, Some(o)) => Some(o),
            (3, None) => Some(DEFAULT_V),
            (5, None) | (6, None) | (7, None) => None,
            (_, None) => Some(0x1111),
        };
        let mut calls = 0;
        g().clones = 0;
        let alive = g().alive;
        let _ = alive;
        m.entry_(K::tagged(q, 77), c, 0x1111, &mut |v| {
            calls += 1;
            chk_if(CONTENT, Some(v.get()) == want, "an entry call returns the value kept or supplied");
            v.set(0x1234);
        });
        // beside these, an entry call may clone its key
        let most = if mode == 0 || mode == 8 { 2 } else { near_path::<M>(r.len() + 1) + 2 };
        chk_if(LAZY, g().clones <= most, "an entry call clones only elements near one path, and its key");
        if let Some(w) = want {
            r.ins(q, if c < 5 { 0x1234 } else { w });
        }
        chk_if(CONTENT, calls == if c < 5 { 1 } else { 0 }, "an entry call returns a reference");
        for (k, _) in m.iter() {
            let new = old.is_none() && k.v() == q;
            chk_if(CONTENT, k.tag == if new { 77 } else { 0 }, "an entry call leaves the keys present in their place");
        }
    }
    result(&m, &r, "an entry call changes the entry of its key only");
    twin.verify("entry calls leave the other copy alone");
    drop(m);
    twin.verify("the other copy survives");
    cover("end");
}

/// The closures given to or_insert_with and or_insert_with_key run only when
/// the key is vacant (c: 0, 1), and_modify's only when it is not (c: 2).
pub fn entry_lazy<M: Full>(a: u64, b: u64, c: u64, _d: u64) {
    let (mut m, r) = build::<M>(a, b, 0);
    let q = any16();
    let vacant = r.get(q).is_none();
    let runs = m.entry_runs(K::new(q), c);
    let want = if c == 2 { !vacant } else { vacant };
    chk_if(CONTENT, runs == want as u32, "a closure given to an entry runs exactly once when needed, else not at all");
    cover("end");
}

/// a: number of items with symbolic keys.  b: prestate's a to extend (with
/// concrete keys).  c: 0 collect, 1 extend, 2 From array.
/// d: groups | sharing << 8.
pub fn extend<M: Full>(a: u64, b: u64, c: u64, d: u64) {
    let mut items = Vec::with_capacity(8);
    let (mut m, mut r) = build::<M>(if c == 1 { b } else { 0 }, 0, 0);
    let twin = Twin::make(&m, &r, (d >> 8) & 15);
    for i in 0..a {
        let q = any16();
        items.push((K::new(q), V::new(0x800 + i as u16)));
        r.ins(q, 0x800 + i as u16);
    }
    match c {
        0 => m = M::collect_(items),
        1 => m.extend_(items),
        _ => {
            let mut it = items.into_iter();
            if let (Some(x), Some(y), Some(z)) = (it.next(), it.next(), it.next()) {
                m = M::from3([x, y, z]);
            }
        }
    }
    result(&m, &r, "adding many entries equals inserting them one by one");
    twin.verify("extending leaves the other copy alone");
    cover("end");
}

/// Extend by reference
pub fn extend_ref_avl(a: u64, b: u64, _c: u64, d: u64) {
    let mut items = Vec::with_capacity(8);
    let (mut m, mut r) = build::<Avl>(b, 0, 0);
    let twin = Twin::make(&m, &r, (d >> 8) & 15);
    for i in 0..a {
        let q = any16();
        items.push((K::new(q), V::new(0x800 + i as u16)));
        r.ins(q, 0x800 + i as u16);
    }
    m.extend(items.iter().map(|e| (&e.0, &e.1)));
    drop(items);
    result(&m, &r, "extending by reference equals inserting clones one by one");
    twin.verify("extending leaves the other copy alone");
    cover("end");
}

/// fixed::BTreeMap: c 0 collect, 1 extend prestate b of b keys.
pub fn extend_fix(a: u64, b: u64, c: u64, d: u64) {
    let mut items = Vec::with_capacity(8);
    let (mut m, mut r) = build::<Fix>(if c == 1 { b } else { 0 }, 0, 0);
    let twin = Twin::make(&m, &r, (d >> 8) & 15);
    for i in 0..a {
        let q = any16();
        items.push((K::new(q), V::new(0x800 + i as u16)));
        r.ins(q, 0x800 + i as u16);
    }
    if c == 0 {
        m = items.into_iter().collect();
    } else {
        m.extend(items);
    }
    result(&m, &r, "adding many entries equals inserting them one by one");
    twin.verify("extending leaves the other copy alone");
    cover("end");
}
