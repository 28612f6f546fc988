//! One interface over the map types, through their public API only.
use crate::elem::*;
use crate::model::*;
use crate::sx::*;
use std::cell::RefCell;
use lazy_clone_collections::btree;
pub use lazy_clone_collections::btree::btree_set::BTreeSet;
pub use lazy_clone_collections::{AvlMap, AvlSet, Map, Set, Stack};

pub type Avl = AvlMap<K, V>;
pub type BT<const N: usize> = btree::BTreeMap<K, V, N>;
pub type Fix = btree::fixed::BTreeMap<K, V>;
pub type ASet = AvlSet<K>;
pub type BSet<const N: usize> = BTreeSet<K, N>;

/// What all map types, the raw-storage one included, offer.
pub trait Base: Sized + Clone {
    const AVL: bool;
    const FIXED: bool;
    /// minimum occupancy of a B-tree node
    const N: usize;
    fn new() -> Self;
    fn ins(&mut self, k: K, v: V) -> Option<V>;
    fn rem(&mut self, q: &Q) -> Option<V>;
    fn get(&self, q: &Q) -> Option<&V>;
    fn get_mut(&mut self, q: &Q) -> Option<&mut V>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    type It<'a>: DoubleEndedIterator<Item = (&'a K, &'a V)> + ExactSizeIterator
    where
        Self: 'a;
    fn iter(&self) -> Self::It<'_>;
    /// the crate's own consistency check, where it is public
    fn check(&self) -> bool;
    // The rest is not part of fixed::BTreeMap.
    fn rem_entry(&mut self, q: &Q) -> Option<(K, V)>;
    fn get_kv(&self, q: &Q) -> Option<(&K, &V)>;
    fn has(&self, q: &Q) -> bool;
    fn first_kv(&self) -> Option<(&K, &V)>;
    fn last_kv(&self) -> Option<(&K, &V)>;
    fn pop_first(&mut self) -> Option<(K, V)>;
    fn pop_last(&mut self) -> Option<(K, V)>;
    fn index(&self, q: &Q) -> &V;
}

impl Base for Avl {
    const AVL: bool = true;
    const FIXED: bool = false;
    const N: usize = 0;
    fn new() -> Self {
        AvlMap::new()
    }
    fn ins(&mut self, k: K, v: V) -> Option<V> {
        self.insert(k, v)
    }
    fn rem(&mut self, q: &Q) -> Option<V> {
        self.remove(q)
    }
    fn get(&self, q: &Q) -> Option<&V> {
        AvlMap::get(self, q)
    }
    fn get_mut(&mut self, q: &Q) -> Option<&mut V> {
        AvlMap::get_mut(self, q)
    }
    fn len(&self) -> usize {
        AvlMap::len(self)
    }
    fn is_empty(&self) -> bool {
        AvlMap::is_empty(self)
    }
    fn clear(&mut self) {
        AvlMap::clear(self)
    }
    type It<'a> = <&'a AvlMap<K, V> as IntoIterator>::IntoIter;
    fn iter(&self) -> Self::It<'_> {
        self.into_iter()
    }
    fn check(&self) -> bool {
        Map::check(self).is_ok()
    }
    fn rem_entry(&mut self, q: &Q) -> Option<(K, V)> {
        self.remove_entry(q)
    }
    fn get_kv(&self, q: &Q) -> Option<(&K, &V)> {
        self.get_key_value(q)
    }
    fn has(&self, q: &Q) -> bool {
        self.contains_key(q)
    }
    fn first_kv(&self) -> Option<(&K, &V)> {
        self.first_key_value()
    }
    fn last_kv(&self) -> Option<(&K, &V)> {
        self.last_key_value()
    }
    fn pop_first(&mut self) -> Option<(K, V)> {
        AvlMap::pop_first(self)
    }
    fn pop_last(&mut self) -> Option<(K, V)> {
        AvlMap::pop_last(self)
    }
    fn index(&self, q: &Q) -> &V {
        &self[q]
    }
}

impl<const N: usize> Base for BT<N> {
    const AVL: bool = false;
    const FIXED: bool = false;
    const N: usize = N;
    fn new() -> Self {
        btree::BTreeMap::new()
    }
    fn ins(&mut self, k: K, v: V) -> Option<V> {
        self.insert(k, v)
    }
    fn rem(&mut self, q: &Q) -> Option<V> {
        self.remove(q)
    }
    fn get(&self, q: &Q) -> Option<&V> {
        btree::BTreeMap::get(self, q)
    }
    fn get_mut(&mut self, q: &Q) -> Option<&mut V> {
        btree::BTreeMap::get_mut(self, q)
    }
    fn len(&self) -> usize {
        btree::BTreeMap::len(self)
    }
    fn is_empty(&self) -> bool {
        btree::BTreeMap::is_empty(self)
    }
    fn clear(&mut self) {
        btree::BTreeMap::clear(self)
    }
    type It<'a> = <&'a BT<N> as IntoIterator>::IntoIter;
    fn iter(&self) -> Self::It<'_> {
        self.into_iter()
    }
    fn check(&self) -> bool {
        Map::check(self).is_ok()
    }
    fn rem_entry(&mut self, q: &Q) -> Option<(K, V)> {
        self.remove(q).map(|v| (K::new(q.0), v))
    }
    fn get_kv(&self, q: &Q) -> Option<(&K, &V)> {
        self.get_key_value(q)
    }
    fn has(&self, q: &Q) -> bool {
        self.contains_key(q)
    }
    fn first_kv(&self) -> Option<(&K, &V)> {
        self.first_key_value()
    }
    fn last_kv(&self) -> Option<(&K, &V)> {
        self.last_key_value()
    }
    fn pop_first(&mut self) -> Option<(K, V)> {
        btree::BTreeMap::pop_first(self)
    }
    fn pop_last(&mut self) -> Option<(K, V)> {
        btree::BTreeMap::pop_last(self)
    }
    fn index(&self, q: &Q) -> &V {
        btree::BTreeMap::get(self, q).unwrap()
    }
}

impl Base for Fix {
    const AVL: bool = false;
    const FIXED: bool = true;
    const N: usize = 5;
    fn new() -> Self {
        Fix::new()
    }
    fn ins(&mut self, k: K, v: V) -> Option<V> {
        self.insert(k, v)
    }
    fn rem(&mut self, q: &Q) -> Option<V> {
        self.remove(q)
    }
    fn get(&self, q: &Q) -> Option<&V> {
        Fix::get(self, q)
    }
    fn get_mut(&mut self, q: &Q) -> Option<&mut V> {
        Fix::get_mut(self, q)
    }
    fn len(&self) -> usize {
        Fix::len(self)
    }
    fn is_empty(&self) -> bool {
        Fix::is_empty(self)
    }
    fn clear(&mut self) {
        Fix::clear(self)
    }
    type It<'a> = FixIt<'a>;
    fn iter(&self) -> FixIt<'_> {
        FixIt(Box::new(Fix::iter(self)))
    }
    fn check(&self) -> bool {
        true
    }
    fn rem_entry(&mut self, q: &Q) -> Option<(K, V)> {
        self.remove(q).map(|v| (K::new(q.0), v))
    }
    fn get_kv(&self, q: &Q) -> Option<(&K, &V)> {
        // not offered: search by iterating
        for (k, v) in Fix::iter(self) {
            if k.v() == q.0 {
                return Some((k, v));
            }
        }
        None
    }
    fn has(&self, q: &Q) -> bool {
        Fix::get(self, q).is_some()
    }
    fn first_kv(&self) -> Option<(&K, &V)> {
        Fix::iter(self).next()
    }
    fn last_kv(&self) -> Option<(&K, &V)> {
        let mut l = None;
        for kv in Fix::iter(self) {
            l = Some(kv);
        }
        l
    }
    fn pop_first(&mut self) -> Option<(K, V)> {
        let q = Q(self.first_kv()?.0.v());
        self.rem_entry(&q)
    }
    fn pop_last(&mut self) -> Option<(K, V)> {
        let q = Q(self.last_kv()?.0.v());
        self.rem_entry(&q)
    }
    fn index(&self, q: &Q) -> &V {
        Fix::get(self, q).unwrap()
    }
}

/// A key too large for the linear search that fixed::BTreeMap makes of small
/// ones, and aligned otherwise.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Wk {
    k: K,
    pad: [u64; 2],
}
impl Wk {
    fn of(k: K) -> Wk {
        let x = k.q.0 as u64;
        Wk { k, pad: [x, !x] }
    }
}
impl std::borrow::Borrow<Q> for Wk {
    fn borrow(&self) -> &Q {
        self.k.borrow()
    }
}

#[derive(Clone)]
pub struct FixW(pub btree::fixed::BTreeMap<Wk, V>);

fn unwide<'a>(e: (&'a Wk, &'a V)) -> (&'a K, &'a V) {
    chk_if(CONTENT, e.0.pad[0] == e.0.k.q.0 as u64 && e.0.pad[1] == !e.0.pad[0], "all of a key is kept");
    (&e.0.k, e.1)
}

impl Base for FixW {
    const AVL: bool = false;
    const FIXED: bool = true;
    const N: usize = 5;
    fn new() -> Self {
        FixW(btree::fixed::BTreeMap::new())
    }
    fn ins(&mut self, k: K, v: V) -> Option<V> {
        self.0.insert(Wk::of(k), v)
    }
    fn rem(&mut self, q: &Q) -> Option<V> {
        self.0.remove(q)
    }
    fn get(&self, q: &Q) -> Option<&V> {
        self.0.get(q)
    }
    fn get_mut(&mut self, q: &Q) -> Option<&mut V> {
        self.0.get_mut(q)
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn clear(&mut self) {
        self.0.clear()
    }
    type It<'a> = FixIt<'a>;
    fn iter(&self) -> FixIt<'_> {
        FixIt(Box::new(self.0.iter().map(unwide)))
    }
    fn check(&self) -> bool {
        true
    }
    fn rem_entry(&mut self, q: &Q) -> Option<(K, V)> {
        self.0.remove(q).map(|v| (K::new(q.0), v))
    }
    fn get_kv(&self, q: &Q) -> Option<(&K, &V)> {
        for e in self.0.iter() {
            if e.0.k.v() == q.0 {
                return Some(unwide(e));
            }
        }
        None
    }
    fn has(&self, q: &Q) -> bool {
        self.0.get(q).is_some()
    }
    fn first_kv(&self) -> Option<(&K, &V)> {
        self.0.iter().next().map(unwide)
    }
    fn last_kv(&self) -> Option<(&K, &V)> {
        self.0.iter().fold(None, |_, e| Some(unwide(e)))
    }
    fn pop_first(&mut self) -> Option<(K, V)> {
        let q = Q(self.first_kv()?.0.v());
        self.rem_entry(&q)
    }
    fn pop_last(&mut self) -> Option<(K, V)> {
        let q = Q(self.last_kv()?.0.v());
        self.rem_entry(&q)
    }
    fn index(&self, q: &Q) -> &V {
        self.0.get(q).unwrap()
    }
}
impl FixW {
    pub fn iter_mut(&mut self) -> impl DoubleEndedIterator<Item = (&K, &mut V)> + ExactSizeIterator {
        self.0.iter_mut().map(|(k, v)| (&k.k, v))
    }
    pub fn into_iter(self) -> impl DoubleEndedIterator<Item = (K, V)> + ExactSizeIterator {
        self.0.into_iter().map(|(k, v)| (k.k, v))
    }
}

/// fixed::BTreeMap's iterator has no name, and is not object-safe as a whole.
pub trait DynIt<'a>: DoubleEndedIterator<Item = (&'a K, &'a V)> {
    fn dyn_len(&self) -> usize;
}
impl<'a, I: DoubleEndedIterator<Item = (&'a K, &'a V)> + ExactSizeIterator> DynIt<'a> for I {
    fn dyn_len(&self) -> usize {
        self.len()
    }
}
pub struct FixIt<'a>(Box<dyn DynIt<'a> + 'a>);
impl<'a> Iterator for FixIt<'a> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<'a> DoubleEndedIterator for FixIt<'a> {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.0.next_back()
    }
}
impl<'a> ExactSizeIterator for FixIt<'a> {
    fn len(&self) -> usize {
        self.0.dyn_len()
    }
}

/// What an insertion order and its keys are for prestate (a, b).
///
/// a < 1000:  AVL: the shape of that number.  B-trees of minimum occupancy N:
///            a keys; if a is l*(N+1) - 1, l leaves of N, made by inserting
///            more keys and removing some again, otherwise keys inserted in
///            ascending order.  Then b's digits (base 16) say how many more
///            keys go into each leaf.  a >= 2000: a % 2000 keys, that tree
///            made by removals from one with a / 2000 leaves more.
/// 1000..2000: a-1000 keys; b: 0 ascending, 1 descending, 2 scattered,
///            3 from both ends inwards
///            AVL only: b 4, 5: the tree of height a-1000 with the fewest
///            nodes, leaning left or right
/// Negative: remove that key.
/// the distance between neighbouring keys, so that any gap has room for several
const STEP: u16 = 64;
pub const B_TREE: u8 = 0;
pub const AVL_TREE: u8 = 1;
pub const FIXED_TREE: u8 = 2;
pub fn style<M: Base>() -> u8 {
    if M::AVL {
        AVL_TREE
    } else if M::FIXED {
        FIXED_TREE
    } else {
        B_TREE
    }
}

pub fn plan(style: u8, n: usize, a: u64, b: u64) -> Vec<i32> {
    let avl = style == AVL_TREE;
    let mut out: Vec<i32> = Vec::with_capacity(64);
    let big = a >= 1000 && a < 2000;
    if big && b >= 4 {
        for r in fib_order(a - 1000, b == 4) {
            out.push((r * STEP + STEP) as i32);
        }
        return out;
    }
    if big {
        let cnt = (a - 1000) as usize;
        // a multiplier that permutes 0..cnt for every cnt in use
        let mut i = 0;
        while i < cnt {
            let r = match b {
                0 => i,
                1 => cnt - 1 - i,
                2 => (i * 89) % 257 % cnt,
                _ => {
                    if i % 2 == 0 {
                        i / 2
                    } else {
                        cnt - 1 - i / 2
                    }
                }
            };
            out.push((r as u16 * STEP + STEP) as i32);
            i += 1;
        }
        if b == 2 {
            // not a permutation: repeats are skipped
            let mut seen = vec![false; cnt];
            let mut w = Vec::with_capacity(cnt);
            for &k in &out {
                let r = (k / STEP as i32 - 1) as usize;
                if !seen[r] {
                    seen[r] = true;
                    w.push(k);
                }
            }
            for r in 0..cnt {
                if !seen[r] {
                    w.push((r as u16 * STEP + STEP) as i32);
                }
            }
            out = w;
        }
        return out;
    }
    if avl {
        for r in avl_order(a) {
            out.push((r * STEP + STEP) as i32);
        }
        return out;
    }
    const GAP: i32 = 256;
    let (extra, a) = ((a / 2000) as i32, a as i32 % 2000);
    let n = n as i32;
    // the number of leaves
    let mut leaves = (a + 1) / (n + 1);
    let even = a % (n + 1) == n && leaves > 1;
    leaves += extra;
    // Ascending insertion leaves nodes of n, and n + 1 in the last one -- or, in
    // fixed, of n + 1, and n in the last one.
    let (keys, stride) = if !even {
        (a, n + 1)
    } else if style == FIXED_TREE {
        (leaves * (n + 2) - 2, n + 2)
    } else {
        (leaves * (n + 1), n + 1)
    };
    let mut i = 0;
    while i < keys {
        out.push(i * GAP + GAP);
        i += 1;
    }
    if even && style == FIXED_TREE {
        let mut l = 0;
        while l < leaves - 1 {
            out.push(-(l * stride * GAP + GAP));
            l += 1;
        }
    } else if even {
        out.push(-(keys * GAP));
    }
    // the first key of the first leaf
    let mut first = 0;
    if even && style == FIXED_TREE {
        first = 1;
    }
    if even {
        let mut i = 0;
        while i < extra * (n + 1) {
            if style == FIXED_TREE {
                out.push(-((i / (n + 1) * stride + i % (n + 1) + 1) * GAP + GAP));
            } else {
                out.push(-((keys - 1 - i) * GAP));
            }
            i += 1;
        }
        if style == FIXED_TREE {
            first += extra * stride;
        }
    }
    let mut leaf = 0;
    let mut d = b;
    while d != 0 {
        let base = (leaf * stride + first) * GAP + GAP;
        let mut j = 0;
        while j < (d % 16) as i32 {
            j += 1;
            out.push(base + 8 * j);
        }
        leaf += 1;
        d /= 16;
    }
    out
}

/// A value for the i-th write, different from all others.
pub fn val(i: usize) -> u16 {
    (i as u16).wrapping_mul(3) + 7
}

/// Builds prestate (a, b) with a tag to tell the values of two maps apart.
pub fn build<M: Base>(a: u64, b: u64, off: u16) -> (M, Ref) {
    let mut m = M::new();
    let mut r = Ref::new();
    let p = plan(style::<M>(), M::N, a, b);
    let mut i = 0;
    while i < p.len() {
        if p[i] < 0 {
            let k = -p[i] as u16 + off;
            let o = m.rem(&Q(k));
            chk_if(CONTENT, o.is_some(), "removing a present key returns its value");
            r.rem(k);
            i += 1;
            continue;
        }
        let k = p[i] as u16 + off;
        let v = val(i).wrapping_add(off.wrapping_mul(1000));
        let o = m.ins(K::new(k), V::new(v));
        chk_if(CONTENT, o.is_none(), "inserting a new key returns None");
        r.ins(k, v);
        i += 1;
    }
    (m, r)
}

pub fn same<M: Base>(m: &M, r: &Ref, group: u64, what: &str) {
    if !on(group) {
        return;
    }
    chk(m.len() == r.len(), what);
    chk(m.is_empty() == (r.len() == 0), what);
    let mut it = m.iter();
    let mut i = 0;
    while i < r.len() {
        match it.next() {
            Some((k, v)) => {
                trace(k.v() as u64);
                trace(v.get() as u64);
                chk(k.v() == r.k(i), what);
                chk(v.get() == r.v(i), what);
            }
            None => chk(false, what),
        }
        i += 1;
    }
    chk(it.next().is_none(), what);
}

/// Every entry is found under its key.
pub fn lookups<M: Base>(m: &M, r: &Ref, group: u64, what: &str) {
    if !on(group) {
        return;
    }
    let mut i = 0;
    while i < r.len() {
        match m.get(&Q(r.k(i))) {
            Some(v) => chk(v.get() == r.v(i), what),
            None => chk(false, what),
        }
        i += 1;
    }
}

/// ceil(1.45*log2(n+2)) for n < 1<<10, by table of thresholds
pub fn avl_cmps(n: usize) -> u32 {
    // least n for which the bound is i: n+2 > 2^((i-1)/1.45)
    const T: [usize; 16] = [0, 0, 0, 1, 3, 5, 9, 16, 27, 44, 72, 118, 191, 308, 498, 805];
    let mut b = 2;
    let mut i = 0;
    while i < T.len() {
        if n >= T[i] && i as u32 > b {
            b = i as u32;
        }
        i += 1;
    }
    b
}

/// Greatest number of levels of a B-tree of n elements whose nodes, but for
/// the root, have at least `min` elements, times what a linear search of the
/// fullest node takes (and one).
pub fn btree_cmps(n: usize, min: usize) -> u32 {
    // least number of elements of a tree of `levels` levels
    let mut levels = 1u32;
    let mut least = 1usize; // levels = 1
    let mut kids_least = min; // least elements of a non-root subtree of `levels` levels
    loop {
        let next = 1 + 2 * kids_least;
        if next > n {
            break;
        }
        least = next;
        kids_least = kids_least * (min + 1) + min;
        levels += 1;
    }
    let _ = least;
    levels * (2 * min as u32 + 1)
}

pub fn cmp_bound<M: Base>(n: usize) -> u32 {
    if M::AVL {
        avl_cmps(n)
    } else {
        btree_cmps(n, M::N)
    }
}

/// Elements in the nodes near one root-to-leaf path of a tree of n entries:
/// three nodes for every level (one on the path, two beside it).
pub fn near_path_(avl: bool, min: usize, n: usize, per_entry: u32) -> u32 {
    if avl {
        3 * avl_cmps(n) * per_entry
    } else {
        let levels = btree_cmps(n, min) / (2 * min as u32 + 1);
        3 * levels * (2 * min as u32 + 1) * per_entry
    }
}
/// ... of a map: keys and values
pub fn near_path<M: Base>(n: usize) -> u32 {
    near_path_(M::AVL, M::N, n, 2)
}

/// The height of the binary search tree whose keys, in order, are found with
/// d[lo..hi] comparisons.  Err(true): it is no AVL tree; Err(false): no binary
/// tree whose every node costs a lookup one comparison looks like this.
fn avl_height(d: &[u32], lo: usize, hi: usize, depth: u32) -> Result<i32, bool> {
    if lo == hi {
        return Ok(0);
    }
    let mut at = hi;
    let mut i = lo;
    while i < hi {
        if d[i] == depth {
            if at != hi {
                return Err(false);
            }
            at = i;
        }
        i += 1;
    }
    if at == hi {
        return Err(false);
    }
    let l = avl_height(d, lo, at, depth + 1)?;
    let r = avl_height(d, at + 1, hi, depth + 1)?;
    if l > r + 1 || r > l + 1 {
        return Err(true);
    }
    Ok(1 + if l > r { l } else { r })
}

/// d: how many comparisons a lookup of each key in order takes
pub fn avl_balanced(d: &[u32]) {
    chk(avl_height(d, 0, d.len(), 1) != Err(true), "the heights of a node's two subtrees differ by at most one");
}

/// The consistency check passes, and no lookup takes too many comparisons.
pub fn balanced<M: Base>(m: &M, r: &Ref, what: &str) {
    if !on(BAL) {
        return;
    }
    chk(m.check(), what);
    let bound = cmp_bound::<M>(r.len());
    let mut depths = Vec::with_capacity(32);
    let mut i = 0;
    while i < r.len() {
        recount();
        let f = m.get(&Q(r.k(i)));
        chk(f.is_some(), "a lookup finds every key of a balanced tree");
        chk(g().cmps <= bound, "a lookup of a present key takes logarithmically many comparisons");
        depths.push(g().cmps);
        i += 1;
    }
    if M::AVL {
        avl_balanced(&depths);
    }
    recount();
}

/// n symbolic keys in ascending order
pub fn sym_keys(n: usize) -> Vec<u16> {
    let mut k: Vec<u16> = Vec::with_capacity(n + 1);
    let mut i = 0;
    while i < n {
        let x = any16();
        if i > 0 {
            assume(k[i - 1] < x);
        }
        k.push(x);
        i += 1;
    }
    k
}

/// The steps to prestate (a, b) as ranks 0..n, and how many keys there are
/// (~r: remove the key of rank r).
pub fn ranks(style: u8, n: usize, a: u64, b: u64) -> (Vec<i32>, usize) {
    let p = plan(style, n, a, b);
    let mut out = Vec::with_capacity(p.len());
    let mut count = 0;
    for &k in &p {
        let mut r = 0;
        for &l in &p {
            if l >= 0 && l < k.abs() {
                r += 1;
            }
        }
        if k >= 0 {
            count += 1;
        }
        out.push(if k < 0 { !r } else { r });
    }
    (out, count)
}

/// Carries out the steps on `r`, which has all the keys to start with.
pub fn replay(steps: &[i32], r: &mut Ref, mut ins: impl FnMut((u16, u16)), mut rem: impl FnMut(u16)) {
    let mut gone = vec![false; r.len()];
    for &o in steps {
        if o < 0 {
            gone[!o as usize] = true;
            rem(r.k(!o as usize));
        } else {
            ins(r.e[o as usize]);
        }
    }
    let mut i = r.len();
    while i > 0 {
        i -= 1;
        if gone[i] {
            r.e.remove(i);
        }
    }
}

/// Prestate (a, b) with symbolic keys.
pub fn build_sym<M: Base>(a: u64, b: u64, voff: u16) -> (M, Ref) {
    let (steps, n) = ranks(style::<M>(), M::N, a, b);
    let keys = sym_keys(n);
    let mut r = Ref::new();
    for i in 0..keys.len() {
        r.e.push((keys[i], val(i) + voff));
    }
    (build_of(&steps, &mut r), r)
}

pub fn build_of<M: Base>(steps: &[i32], r: &mut Ref) -> M {
    let m = RefCell::new(M::new());
    replay(
        steps,
        r,
        |(k, v)| {
            m.borrow_mut().ins(K::new(k), V::new(v));
        },
        |k| {
            m.borrow_mut().rem(&Q(k));
        },
    );
    m.into_inner()
}
