//! Hash-consed bit-vector expressions (width 1..=64) with light simplification.
use std::collections::HashMap;

pub type Eid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u64),
    Sym(u32),
    /// An uninitialised value.
    Undef,
    Bin(Op, Eid, Eid),
    Eq(Eid, Eid),
    Ult(Eid, Eid),
    Slt(Eid, Eid),
    Ite(Eid, Eid, Eid),
    SExt(Eid),
    /// (hi, lo)
    Concat(Eid, Eid),
    /// (e, low bit)
    Extract(Eid, u8),
}

pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

pub fn sext64(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

pub fn eval_bin(op: Op, w: u8, a: u64, b: u64) -> Option<u64> {
    let m = mask(w);
    Some(
        match op {
            Op::Add => a.wrapping_add(b),
            Op::Sub => a.wrapping_sub(b),
            Op::Mul => a.wrapping_mul(b),
            Op::UDiv => {
                if b == 0 {
                    return None;
                }
                a / b
            }
            Op::URem => {
                if b == 0 {
                    return None;
                }
                a % b
            }
            Op::SDiv => {
                if b == 0 {
                    return None;
                }
                sext64(a, w).wrapping_div(sext64(b, w)) as u64
            }
            Op::SRem => {
                if b == 0 {
                    return None;
                }
                sext64(a, w).wrapping_rem(sext64(b, w)) as u64
            }
            Op::Shl => {
                if b >= w as u64 {
                    0
                } else {
                    a << b
                }
            }
            Op::LShr => {
                if b >= w as u64 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => {
                let s = if b >= w as u64 { w as u64 - 1 } else { b };
                (sext64(a, w) >> s) as u64
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
        } & m,
    )
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub width: Vec<u8>,
    pub undef: Vec<bool>,
    map: HashMap<(Node, u8), Eid>,
    pub nsyms: u32,
    pub sym_width: Vec<u8>,
    memo: Vec<(u32, u64)>,
    gen: u32,
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            width: vec![],
            undef: vec![],
            map: HashMap::new(),
            nsyms: 0,
            sym_width: vec![],
            memo: vec![],
            gen: 0,
        };
        // id 0 is a dummy
        a.mk(Node::Const(0xdead), 64);
        a
    }

    fn mk(&mut self, n: Node, w: u8) -> Eid {
        if let Some(&e) = self.map.get(&(n, w)) {
            return e;
        }
        let id = self.nodes.len() as u32;
        let u = match n {
            Node::Const(_) | Node::Sym(_) => false,
            Node::Undef => true,
            Node::Bin(_, a, b)
            | Node::Eq(a, b)
            | Node::Ult(a, b)
            | Node::Slt(a, b)
            | Node::Concat(a, b) => self.undef[a as usize] || self.undef[b as usize],
            Node::Ite(a, b, c) => {
                self.undef[a as usize] || self.undef[b as usize] || self.undef[c as usize]
            }
            Node::SExt(a) | Node::Extract(a, _) => self.undef[a as usize],
        };
        self.nodes.push(n);
        self.width.push(w);
        self.undef.push(u);
        self.memo.push((0, 0));
        self.map.insert((n, w), id);
        id
    }

    pub fn node(&self, e: Eid) -> Node {
        self.nodes[e as usize]
    }
    pub fn w(&self, e: Eid) -> u8 {
        self.width[e as usize]
    }
    pub fn has_undef(&self, e: Eid) -> bool {
        self.undef[e as usize]
    }
    pub fn cval(&self, e: Eid) -> Option<u64> {
        match self.node(e) {
            Node::Const(v) => Some(v),
            _ => None,
        }
    }

    pub fn konst(&mut self, v: u64, w: u8) -> Eid {
        self.mk(Node::Const(v & mask(w)), w)
    }
    pub fn undef(&mut self, w: u8) -> Eid {
        if w > 8 && w % 8 == 0 {
            let mut e = self.mk(Node::Undef, 8);
            let b = e;
            for _ in 1..w / 8 {
                e = self.concat(e, b);
            }
            e
        } else {
            self.mk(Node::Undef, w)
        }
    }
    pub fn sym(&mut self, id: u32, w: u8) -> Eid {
        while self.sym_width.len() <= id as usize {
            self.sym_width.push(0);
        }
        assert!(self.sym_width[id as usize] == 0 || self.sym_width[id as usize] == w);
        self.sym_width[id as usize] = w;
        self.nsyms = self.nsyms.max(id + 1);
        self.mk(Node::Sym(id), w)
    }

    pub fn not1(&mut self, e: Eid) -> Eid {
        debug_assert_eq!(self.w(e), 1);
        match self.node(e) {
            Node::Const(v) => self.konst(v ^ 1, 1),
            Node::Bin(Op::Xor, a, b) if self.cval(b) == Some(1) => a,
            _ => {
                let one = self.konst(1, 1);
                self.mk(Node::Bin(Op::Xor, e, one), 1)
            }
        }
    }

    pub fn bin(&mut self, op: Op, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        assert_eq!(w, self.w(b), "width mismatch in {:?}", op);
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(v) = eval_bin(op, w, x, y) {
                return self.konst(v, w);
            }
        }
        let m = mask(w);
        // canonical: constant on the right for commutative operators
        let (a, b, ca, cb) = match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor => {
                if ca.is_some() || (cb.is_none() && a > b) {
                    (b, a, cb, ca)
                } else {
                    (a, b, ca, cb)
                }
            }
            _ => (a, b, ca, cb),
        };
        let _ = ca;
        match op {
            Op::Add | Op::Sub | Op::Xor | Op::Shl | Op::LShr | Op::AShr if cb == Some(0) => {
                return a
            }
            Op::Or if cb == Some(0) => return a,
            Op::Or if cb == Some(m) => return b,
            Op::And if cb == Some(0) => return b,
            Op::And if cb == Some(m) => return a,
            Op::Mul if cb == Some(0) => return b,
            Op::Mul if cb == Some(1) => return a,
            Op::UDiv if cb == Some(1) => return a,
            Op::Sub | Op::Xor if a == b => return self.konst(0, w),
            Op::And | Op::Or if a == b => return a,
            _ => {}
        }
        if w == 1 {
            match op {
                Op::Xor if cb == Some(1) => return self.not1(a),
                _ => {}
            }
        }
        if let Some(c) = cb {
            match op {
                Op::Add => {
                    if let Node::Bin(Op::Add, x, y) = self.node(a) {
                        if let Some(cy) = self.cval(y) {
                            let k = self.konst(c.wrapping_add(cy), w);
                            return self.bin(Op::Add, x, k);
                        }
                    }
                    // the low bits keep what they are
                    if self.undef[a as usize] {
                        let k = self.undef_tail(a);
                        if k > 0 && k < w && c & mask(k) == 0 {
                            let lo = self.extract(a, 0, k);
                            let hi = self.extract(a, k, w - k);
                            let d = self.konst(c >> k, w - k);
                            let hi = self.bin(Op::Add, hi, d);
                            return self.concat(hi, lo);
                        }
                    }
                }
                Op::Sub => {
                    let k = self.konst(c.wrapping_neg(), w);
                    return self.bin(Op::Add, a, k);
                }
                Op::Shl if c < w as u64 => {
                    let c = c as u8;
                    let lo = self.konst(0, c);
                    let hi = self.extract(a, 0, w - c);
                    return self.concat(hi, lo);
                }
                Op::LShr if c < w as u64 => {
                    let c = c as u8;
                    let lo = self.extract(a, c, w - c);
                    return self.zext(lo, w);
                }
                Op::Shl | Op::LShr => return self.konst(0, w),
                Op::And => {
                    // contiguous low mask, or high mask
                    if c & (c.wrapping_add(1)) == 0 {
                        let n = c.count_ones() as u8;
                        let lo = self.extract(a, 0, n);
                        return self.zext(lo, w);
                    }
                    let inv = !c & m;
                    if inv & (inv.wrapping_add(1)) == 0 {
                        let n = inv.count_ones() as u8;
                        let hi = self.extract(a, n, w - n);
                        let z = self.konst(0, n);
                        return self.concat(hi, z);
                    }
                    if c.count_ones() == 1 {
                        let k = c.trailing_zeros() as u8;
                        let bit = self.extract(a, k, 1);
                        let z = self.zext(bit, w - k);
                        if k == 0 {
                            return z;
                        }
                        let lo = self.konst(0, k);
                        return self.concat(z, lo);
                    }
                }
                _ => {}
            }
        }
        if let (Op::And | Op::Or | Op::Xor, Some(_), Node::Concat(h, l), true) = (op, cb, self.node(a), self.undef[a as usize]) {
            // bit by bit, so that only the bits that matter have to be initialised
            let (wh, wl) = (self.w(h), self.w(l));
            let (bh, bl) = (self.extract(b, wl, wh), self.extract(b, 0, wl));
            let h = self.bin(op, h, bh);
            let l = self.bin(op, l, bl);
            return self.concat(h, l);
        }
        if op == Op::Or {
            // merge concatenations with disjoint zero parts
            if let Some(r) = self.or_concat(a, b) {
                return r;
            }
        }
        self.mk(Node::Bin(op, a, b), w)
    }

    fn or_concat(&mut self, a: Eid, b: Eid) -> Option<Eid> {
        let split = |s: &Self, e: Eid| match s.node(e) {
            Node::Concat(_, lo) => Some(s.w(lo)),
            _ => None,
        };
        let w = self.w(a);
        let k = match (split(self, a), split(self, b)) {
            (Some(x), Some(y)) => x.min(y),
            _ => return None,
        };
        // cut both at k; require one side's part zero in both halves
        let (ah, al) = (self.extract(a, k, w - k), self.extract(a, 0, k));
        let (bh, bl) = (self.extract(b, k, w - k), self.extract(b, 0, k));
        let z = |s: &Self, e: Eid| s.cval(e) == Some(0);
        let lo = if z(self, al) {
            bl
        } else if z(self, bl) {
            al
        } else {
            return None;
        };
        let hi = if z(self, ah) {
            bh
        } else if z(self, bh) {
            ah
        } else {
            self.or_concat(ah, bh)?
        };
        Some(self.concat(hi, lo))
    }

    pub fn eq(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        assert_eq!(w, self.w(b));
        if a == b {
            return self.konst(1, 1);
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst((x == y) as u64, 1);
        }
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.cval(b) {
            if w == 1 {
                return if c == 1 { a } else { self.not1(a) };
            }
            match self.node(a) {
                Node::Concat(hi, lo) => {
                    let lw = self.w(lo);
                    let kl = self.konst(c, lw);
                    let kh = self.konst(c >> lw, w - lw);
                    let e1 = self.eq(hi, kh);
                    if self.cval(e1) == Some(0) {
                        return e1;
                    }
                    let e2 = self.eq(lo, kl);
                    if self.cval(e2) == Some(0) {
                        return e2;
                    }
                    return self.bin(Op::And, e1, e2);
                }
                Node::Ite(c0, x, y) => {
                    if self.cval(x).is_some() || self.cval(y).is_some() {
                        let ex = self.eq(x, b);
                        let ey = self.eq(y, b);
                        return self.ite(c0, ex, ey);
                    }
                }
                Node::SExt(x) => {
                    let xw = self.w(x);
                    let t = self.konst(c, xw);
                    if sext64(c & mask(xw), xw) as u64 & mask(w) == c {
                        return self.eq(x, t);
                    }
                    return self.konst(0, 1);
                }
                Node::Bin(Op::Add, x, y) => {
                    if let Some(cy) = self.cval(y) {
                        let k = self.konst(c.wrapping_sub(cy), w);
                        return self.eq(x, k);
                    }
                }
                Node::Bin(Op::Xor, x, y) => {
                    if let Some(cy) = self.cval(y) {
                        let k = self.konst(c ^ cy, w);
                        return self.eq(x, k);
                    }
                }
                _ => {}
            }
            return self.mk(Node::Eq(a, b), 1);
        }
        if let (Node::Concat(h1, l1), Node::Concat(h2, l2)) = (self.node(a), self.node(b)) {
            if self.w(l1) == self.w(l2) {
                let e1 = self.eq(h1, h2);
                let e2 = self.eq(l1, l2);
                return self.bin(Op::And, e1, e2);
            }
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(Node::Eq(a, b), 1)
    }

    /// How many low bits to leave out for the rest to be initialised.
    fn undef_tail(&self, e: Eid) -> u8 {
        match self.node(e) {
            _ if !self.undef[e as usize] => 0,
            Node::Concat(h, l) if self.undef[h as usize] => self.w(l) + self.undef_tail(h),
            Node::Concat(_, l) => self.undef_tail(l),
            _ => self.w(e),
        }
    }

    /// Does a < c (or c < a) hold whatever the uninitialised low bits of a are?
    /// Then leave them out.
    fn cut_tail(&mut self, a: Eid, b: Eid) -> Option<(Eid, Eid)> {
        let w = self.w(a);
        let k = match (self.cval(a), self.cval(b)) {
            (None, Some(c)) if self.undef[a as usize] => {
                let k = self.undef_tail(a);
                if c & mask(k) != 0 {
                    return None;
                }
                k
            }
            (Some(c), None) if self.undef[b as usize] => {
                let k = self.undef_tail(b);
                if c & mask(k) != mask(k) {
                    return None;
                }
                k
            }
            _ => return None,
        };
        if k == 0 || k >= w {
            return None;
        }
        Some((self.extract(a, k, w - k), self.extract(b, k, w - k)))
    }

    pub fn ult(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        assert_eq!(w, self.w(b));
        if a == b {
            return self.konst(0, 1);
        }
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst((x < y) as u64, 1);
        }
        if let Some((a, b)) = self.cut_tail(a, b) {
            return self.ult(a, b);
        }
        if cb == Some(0) || ca == Some(mask(w)) {
            return self.konst(0, 1);
        }
        if cb == Some(1) {
            let z = self.konst(0, w);
            return self.eq(a, z);
        }
        // both zero-extended: compare the low parts
        if let Node::Concat(h1, l1) = self.node(a) {
            if self.cval(h1) == Some(0) {
                let lw = self.w(l1);
                if let Node::Concat(h2, l2) = self.node(b) {
                    if self.cval(h2) == Some(0) && self.w(l2) == lw {
                        return self.ult(l1, l2);
                    }
                }
                if let Some(c) = cb {
                    if c > mask(lw) {
                        return self.konst(1, 1);
                    }
                    let k = self.konst(c, lw);
                    return self.ult(l1, k);
                }
            }
        }
        if let (Some(c), Node::Concat(h2, l2)) = (ca, self.node(b)) {
            if self.cval(h2) == Some(0) {
                let lw = self.w(l2);
                if c >= mask(lw) {
                    return self.konst(0, 1);
                }
                let k = self.konst(c, lw);
                return self.ult(k, l2);
            }
        }
        if let Node::Ite(c0, x, y) = self.node(a) {
            if cb.is_some() && (self.cval(x).is_some() || self.cval(y).is_some()) {
                let p = self.ult(x, b);
                let q = self.ult(y, b);
                return self.ite(c0, p, q);
            }
        }
        if let Node::Ite(c0, x, y) = self.node(b) {
            if ca.is_some() && (self.cval(x).is_some() || self.cval(y).is_some()) {
                let p = self.ult(a, x);
                let q = self.ult(a, y);
                return self.ite(c0, p, q);
            }
        }
        self.mk(Node::Ult(a, b), 1)
    }

    pub fn slt(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        assert_eq!(w, self.w(b));
        if a == b {
            return self.konst(0, 1);
        }
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst((sext64(x, w) < sext64(y, w)) as u64, 1);
        }
        if let Some((a, b)) = self.cut_tail(a, b) {
            return self.slt(a, b);
        }
        let nonneg = |s: &Self, e: Eid| match s.node(e) {
            Node::Concat(h, _) => s.cval(h) == Some(0),
            Node::Const(v) => v >> (w - 1) == 0,
            _ => false,
        };
        if w > 1 && nonneg(self, a) && nonneg(self, b) {
            return self.ult(a, b);
        }
        if let Node::Ite(c0, x, y) = self.node(a) {
            if cb.is_some() && (self.cval(x).is_some() || self.cval(y).is_some()) {
                let p = self.slt(x, b);
                let q = self.slt(y, b);
                return self.ite(c0, p, q);
            }
        }
        if let Node::Ite(c0, x, y) = self.node(b) {
            if ca.is_some() && (self.cval(x).is_some() || self.cval(y).is_some()) {
                let p = self.slt(a, x);
                let q = self.slt(a, y);
                return self.ite(c0, p, q);
            }
        }
        self.mk(Node::Slt(a, b), 1)
    }

    pub fn ite(&mut self, c: Eid, a: Eid, b: Eid) -> Eid {
        assert_eq!(self.w(a), self.w(b));
        match self.cval(c) {
            Some(0) => return b,
            Some(_) => return a,
            None => {}
        }
        if a == b {
            return a;
        }
        if let Node::Bin(Op::Xor, x, y) = self.node(c) {
            if self.cval(y) == Some(1) {
                return self.ite(x, b, a);
            }
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not1(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not1(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        self.mk(Node::Ite(c, a, b), w)
    }

    pub fn concat(&mut self, hi: Eid, lo: Eid) -> Eid {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        assert!(w <= 64, "concat too wide");
        if let (Some(a), Some(b)) = (self.cval(hi), self.cval(lo)) {
            return self.konst((a << wl) | b, w);
        }
        // adjacent extracts
        if let (Node::Extract(x, i), Node::Extract(y, j)) = (self.node(hi), self.node(lo)) {
            if x == y && i == j + wl {
                return self.extract(x, j, w);
            }
        }
        // right-associate: concat(concat(a,b),c) -> concat(a, concat(b,c))
        if let Node::Concat(a, b) = self.node(hi) {
            let lo2 = self.concat(b, lo);
            return self.concat(a, lo2);
        }
        // merge constants / extracts at the top of lo
        if let Node::Concat(b, c) = self.node(lo) {
            let merge = match (self.node(hi), self.node(b)) {
                (Node::Const(_), Node::Const(_)) => true,
                (Node::Extract(x, i), Node::Extract(y, j)) => x == y && i == j + self.w(b),
                _ => false,
            };
            if merge {
                let h = self.concat(hi, b);
                return self.concat(h, c);
            }
        }
        self.mk(Node::Concat(hi, lo), w)
    }

    pub fn extract(&mut self, e: Eid, lo: u8, w: u8) -> Eid {
        let ew = self.w(e);
        assert!(w >= 1 && lo + w <= ew);
        if lo == 0 && w == ew {
            return e;
        }
        match self.node(e) {
            Node::Const(v) => self.konst(v >> lo, w),
            Node::Undef => self.mk(Node::Undef, w),
            Node::Extract(x, i) => self.extract(x, i + lo, w),
            Node::Concat(h, l) => {
                let wl = self.w(l);
                if lo + w <= wl {
                    self.extract(l, lo, w)
                } else if lo >= wl {
                    self.extract(h, lo - wl, w)
                } else {
                    let a = self.extract(l, lo, wl - lo);
                    let b = self.extract(h, 0, lo + w - wl);
                    self.concat(b, a)
                }
            }
            Node::SExt(x) if lo + w <= self.w(x) => self.extract(x, lo, w),
            Node::Ite(c, x, y)
                if self.cval(x).is_some() || self.cval(y).is_some() || self.undef[e as usize] =>
            {
                let a = self.extract(x, lo, w);
                let b = self.extract(y, lo, w);
                self.ite(c, a, b)
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
                let a = self.extract(x, lo, w);
                let b = self.extract(y, lo, w);
                self.bin(op, a, b)
            }
            Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => {
                let a = self.extract(x, lo, w);
                let b = self.extract(y, lo, w);
                self.bin(op, a, b)
            }
            _ => self.mk(Node::Extract(e, lo), w),
        }
    }

    pub fn zext(&mut self, e: Eid, w: u8) -> Eid {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        let z = self.konst(0, w - ew);
        self.concat(z, e)
    }

    pub fn sext(&mut self, e: Eid, w: u8) -> Eid {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        match self.node(e) {
            Node::Const(v) => self.konst(sext64(v, ew) as u64, w),
            Node::SExt(x) => self.sext(x, w),
            Node::Concat(h, _) if self.cval(h) == Some(0) => self.zext(e, w),
            Node::Ite(c, x, y) if self.cval(x).is_some() && self.cval(y).is_some() => {
                let a = self.sext(x, w);
                let b = self.sext(y, w);
                self.ite(c, a, b)
            }
            _ => {
                if ew == 1 {
                    let a = self.konst(mask(w), w);
                    let b = self.konst(0, w);
                    return self.ite(e, a, b);
                }
                self.mk(Node::SExt(e), w)
            }
        }
    }

    /// The comparisons (and combinations of them) that a wider value is built from.
    pub fn conditions(&self, e: Eid) -> Vec<Eid> {
        let mut out = Vec::new();
        let mut seen = Vec::new();
        let mut todo = vec![e];
        while let Some(x) = todo.pop() {
            if seen.contains(&x) {
                continue;
            }
            seen.push(x);
            if seen.len() > 64 {
                return Vec::new();
            }
            let one = self.width[x as usize] == 1;
            match self.node(x) {
                Node::Eq(..) | Node::Ult(..) | Node::Slt(..) => out.push(x),
                Node::Bin(..) | Node::Ite(..) if one => out.push(x),
                Node::Bin(_, a, b) | Node::Concat(a, b) => todo.extend([b, a]),
                Node::Ite(c, a, b) => todo.extend([b, a, c]),
                Node::SExt(a) | Node::Extract(a, _) => todo.push(a),
                Node::Const(_) | Node::Sym(_) | Node::Undef => {}
            }
        }
        out
    }

    /// e with the condition c decided.
    pub fn subst(&mut self, e: Eid, c: Eid, v: bool) -> Eid {
        if e == c {
            return self.konst(v as u64, 1);
        }
        let w = self.w(e);
        match self.node(e) {
            _ if w == 1 => e,
            Node::Bin(op, a, b) => {
                let (x, y) = (self.subst(a, c, v), self.subst(b, c, v));
                if (x, y) == (a, b) {
                    return e;
                }
                self.bin(op, x, y)
            }
            Node::Concat(a, b) => {
                let (x, y) = (self.subst(a, c, v), self.subst(b, c, v));
                self.concat(x, y)
            }
            Node::Ite(t, a, b) => {
                let t = self.subst(t, c, v);
                let (x, y) = (self.subst(a, c, v), self.subst(b, c, v));
                self.ite(t, x, y)
            }
            Node::SExt(a) => {
                let x = self.subst(a, c, v);
                self.sext(x, w)
            }
            Node::Extract(a, lo) => {
                let x = self.subst(a, c, v);
                self.extract(x, lo, w)
            }
            _ => e,
        }
    }

    /// The comparison e of wider values, with the condition c in them decided.
    pub fn subst_in(&mut self, e: Eid, c: Eid, v: bool) -> Eid {
        match self.node(e) {
            Node::Eq(a, b) => {
                let (x, y) = (self.subst(a, c, v), self.subst(b, c, v));
                self.eq(x, y)
            }
            Node::Ult(a, b) => {
                let (x, y) = (self.subst(a, c, v), self.subst(b, c, v));
                self.ult(x, y)
            }
            Node::Slt(a, b) => {
                let (x, y) = (self.subst(a, c, v), self.subst(b, c, v));
                self.slt(x, y)
            }
            _ => e,
        }
    }

    /// Start a new evaluation generation (call when the model changes).
    pub fn eval(&mut self, e: Eid, model: &[u64]) -> u64 {
        self.gen += 1;
        self.eval_rec(e, model)
    }

    fn eval_rec(&mut self, e: Eid, model: &[u64]) -> u64 {
        let i = e as usize;
        if let Node::Const(v) = self.nodes[i] {
            return v;
        }
        if self.memo[i].0 == self.gen {
            return self.memo[i].1;
        }
        let w = self.width[i];
        let v = match self.nodes[i] {
            Node::Const(v) => v,
            Node::Sym(s) => model.get(s as usize).copied().unwrap_or(0) & mask(w),
            Node::Undef => 0,
            Node::Bin(op, a, b) => {
                let x = self.eval_rec(a, model);
                let y = self.eval_rec(b, model);
                eval_bin(op, w, x, y).unwrap_or(match op {
                    Op::UDiv => mask(w),
                    Op::URem | Op::SRem => x,
                    Op::SDiv => {
                        if sext64(x, w) < 0 {
                            1
                        } else {
                            mask(w)
                        }
                    }
                    _ => 0,
                })
            }
            Node::Eq(a, b) => (self.eval_rec(a, model) == self.eval_rec(b, model)) as u64,
            Node::Ult(a, b) => (self.eval_rec(a, model) < self.eval_rec(b, model)) as u64,
            Node::Slt(a, b) => {
                let aw = self.width[a as usize];
                (sext64(self.eval_rec(a, model), aw) < sext64(self.eval_rec(b, model), aw)) as u64
            }
            Node::Ite(c, a, b) => {
                if self.eval_rec(c, model) != 0 {
                    self.eval_rec(a, model)
                } else {
                    self.eval_rec(b, model)
                }
            }
            Node::SExt(a) => {
                let aw = self.width[a as usize];
                sext64(self.eval_rec(a, model), aw) as u64 & mask(w)
            }
            Node::Concat(h, l) => {
                let wl = self.width[l as usize];
                (self.eval_rec(h, model) << wl) | self.eval_rec(l, model)
            }
            Node::Extract(a, lo) => (self.eval_rec(a, model) >> lo) & mask(w),
        };
        self.memo[i] = (self.gen, v);
        v
    }
}
