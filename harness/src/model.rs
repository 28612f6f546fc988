//! The reference: a sorted array of key/value pairs.

#[derive(Clone)]
pub struct Ref {
    pub e: Vec<(u16, u16)>,
}

impl Ref {
    pub fn new() -> Ref {
        Ref { e: Vec::with_capacity(32) }
    }
    pub fn len(&self) -> usize {
        self.e.len()
    }
    pub fn k(&self, i: usize) -> u16 {
        self.e[i].0
    }
    pub fn v(&self, i: usize) -> u16 {
        self.e[i].1
    }
    /// where q is, or where it belongs
    pub fn pos(&self, q: u16) -> Result<usize, usize> {
        let (mut lo, mut hi) = (0, self.e.len());
        while lo < hi {
            let mid = (lo + hi) / 2;
            let k = self.e[mid].0;
            if q == k {
                return Ok(mid);
            }
            if q < k {
                hi = mid;
            } else {
                lo = mid + 1;
            }
        }
        Err(lo)
    }
    pub fn get(&self, q: u16) -> Option<u16> {
        match self.pos(q) {
            Ok(i) => Some(self.e[i].1),
            Err(_) => None,
        }
    }
    pub fn ins(&mut self, q: u16, v: u16) -> Option<u16> {
        match self.pos(q) {
            Ok(i) => {
                let o = self.e[i].1;
                self.e[i].1 = v;
                Some(o)
            }
            Err(i) => {
                self.insert_at(i, q, v);
                None
            }
        }
    }
    pub fn insert_at(&mut self, i: usize, q: u16, v: u16) {
        self.e.push((q, v));
        let mut j = self.e.len() - 1;
        while j > i {
            self.e[j] = self.e[j - 1];
            j -= 1;
        }
        self.e[i] = (q, v);
    }
    pub fn remove_at(&mut self, i: usize) -> (u16, u16) {
        let o = self.e[i];
        let mut j = i + 1;
        while j < self.e.len() {
            self.e[j - 1] = self.e[j];
            j += 1;
        }
        self.e.pop();
        o
    }
    pub fn rem(&mut self, q: u16) -> Option<(u16, u16)> {
        match self.pos(q) {
            Ok(i) => Some(self.remove_at(i)),
            Err(_) => None,
        }
    }
    pub fn pop_first(&mut self) -> Option<(u16, u16)> {
        if self.e.is_empty() {
            None
        } else {
            Some(self.remove_at(0))
        }
    }
    pub fn pop_last(&mut self) -> Option<(u16, u16)> {
        if self.e.is_empty() {
            None
        } else {
            let i = self.e.len() - 1;
            Some(self.remove_at(i))
        }
    }
}

/// For each element of the merge of two references: its value in each.
pub struct Merge {
    pub e: Vec<(u16, Option<u16>, Option<u16>)>,
}

pub fn merge(a: &Ref, b: &Ref) -> Merge {
    let mut e = Vec::with_capacity(32);
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j == b.len() {
            e.push((a.k(i), Some(a.v(i)), None));
            i += 1;
        } else if i == a.len() {
            e.push((b.k(j), None, Some(b.v(j))));
            j += 1;
        } else if a.k(i) == b.k(j) {
            e.push((a.k(i), Some(a.v(i)), Some(b.v(j))));
            i += 1;
            j += 1;
        } else if a.k(i) < b.k(j) {
            e.push((a.k(i), Some(a.v(i)), None));
            i += 1;
        } else {
            e.push((b.k(j), None, Some(b.v(j))));
            j += 1;
        }
    }
    Merge { e }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Comb {
    /// the right value wins
    Union,
    /// the left entry stays
    Inter,
    Diff,
    Sym,
}

pub fn combine(a: &Ref, b: &Ref, c: Comb) -> Ref {
    let m = merge(a, b);
    let mut r = Ref::new();
    let mut i = 0;
    while i < m.e.len() {
        let (k, x, y) = m.e[i];
        let keep = match (c, x, y) {
            (Comb::Union, _, Some(v)) => Some(v),
            (Comb::Union, Some(v), None) => Some(v),
            (Comb::Inter, Some(v), Some(_)) => Some(v),
            (Comb::Diff, Some(v), None) => Some(v),
            (Comb::Sym, Some(v), None) => Some(v),
            (Comb::Sym, None, Some(v)) => Some(v),
            _ => None,
        };
        if let Some(v) = keep {
            r.e.push((k, v));
        }
        i += 1;
    }
    r
}

/// The insertion order (as ranks) that makes an AVL tree of the given shape:
/// shapes of height <= 4 are numbered 0 (empty), 1, 2..5, 5..20, 20..335.
pub fn avl_order(mut shape: u64) -> Vec<u16> {
    const T: [u64; 5] = [1, 1, 3, 15, 315];
    let mut h = 0;
    while shape >= T[h] {
        shape -= T[h];
        h += 1;
    }
    fn go(h: usize, s: u64, d: u16, rank: &mut u16, out: &mut Vec<(u16, u16)>) {
        const T: [u64; 5] = [1, 1, 3, 15, 315];
        if h == 0 {
            return;
        }
        let (mut lh, mut rh, mut s) = (h - 1, h - 1, s);
        if h >= 2 {
            let both = T[h - 1] * T[h - 1];
            let one = T[h - 1] * T[h - 2];
            if s >= both + one {
                s -= both + one;
                lh = h - 2;
            } else if s >= both {
                s -= both;
                rh = h - 2;
            }
        }
        go(lh, s / T[rh], d + 1, rank, out);
        out.push((d, *rank));
        *rank += 1;
        go(rh, s % T[rh], d + 1, rank, out);
    }
    let mut nodes = Vec::with_capacity(16);
    let mut rank = 0;
    go(h, shape, 0, &mut rank, &mut nodes);
    by_level(h, &nodes)
}

/// The ranks of nodes (depth, rank) level by level: inserted in this order,
/// they make the tree they come from, without a rotation.
fn by_level(h: usize, nodes: &[(u16, u16)]) -> Vec<u16> {
    let mut out = Vec::with_capacity(16);
    let mut d = 0;
    while (d as usize) < h {
        let mut i = 0;
        while i < nodes.len() {
            if nodes[i].0 == d {
                out.push(nodes[i].1);
            }
            i += 1;
        }
        d += 1;
    }
    out
}

/// The same for the AVL tree of height h with the fewest nodes.
pub fn fib_order(h: u64, left: bool) -> Vec<u16> {
    fn go(h: i64, left: bool, d: u16, rank: &mut u16, out: &mut Vec<(u16, u16)>) {
        if h <= 0 {
            return;
        }
        go(if left { h - 1 } else { h - 2 }, left, d + 1, rank, out);
        out.push((d, *rank));
        *rank += 1;
        go(if left { h - 2 } else { h - 1 }, left, d + 1, rank, out);
    }
    let mut nodes = Vec::with_capacity(64);
    let mut rank = 0;
    go(h as i64, left, 0, &mut rank, &mut nodes);
    by_level(h as usize, &nodes)
}
