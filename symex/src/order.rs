//! What a path condition says about the order of its terms.
//!
//! Most branches of a search tree compare two keys, and most of these
//! comparisons follow from earlier ones by transitivity.  This decides those
//! (a graph of < and <= over terms and constants, closed on demand) without
//! asking the solver.  An answer given here is entailed by the path
//! condition; whatever is not decided here goes to the solver.
use crate::expr::{Arena, Eid, Node, Op};

#[derive(Clone, Default)]
pub struct Order {
    /// how much of the path condition has been taken in
    n: usize,
    atoms: Vec<Eid>,
    consts: Vec<Option<u64>>,
    /// from, to, strictly
    edges: Vec<(u32, u32, bool)>,
    neq: Vec<(u32, u32)>,
}

impl Order {
    fn atom(&mut self, ar: &Arena, e: Eid) -> u32 {
        match self.find(e) {
            Some(i) => i,
            None => {
                self.atoms.push(e);
                self.consts.push(ar.cval(e));
                (self.atoms.len() - 1) as u32
            }
        }
    }
    fn find(&self, e: Eid) -> Option<u32> {
        self.atoms.iter().position(|&x| x == e).map(|i| i as u32)
    }

    fn learn(&mut self, ar: &Arena, e: Eid, neg: bool) {
        match ar.node(e) {
            Node::Bin(Op::Xor, a, b) if ar.w(e) == 1 && ar.cval(b) == Some(1) => self.learn(ar, a, !neg),
            Node::Bin(Op::And, a, b) if !neg && ar.w(e) == 1 => {
                self.learn(ar, a, false);
                self.learn(ar, b, false);
            }
            Node::Bin(Op::Or, a, b) if neg && ar.w(e) == 1 => {
                self.learn(ar, a, true);
                self.learn(ar, b, true);
            }
            Node::Ult(a, b) => {
                let (a, b) = (self.atom(ar, a), self.atom(ar, b));
                if neg {
                    let strict = self.neq.contains(&(a, b)) || self.neq.contains(&(b, a));
                    self.edges.push((b, a, strict));
                } else {
                    self.edges.push((a, b, true));
                }
            }
            Node::Eq(a, b) if ar.w(a) > 1 => {
                let (a, b) = (self.atom(ar, a), self.atom(ar, b));
                if neg {
                    self.neq.push((a, b));
                    for x in self.edges.iter_mut() {
                        if (x.0, x.1) == (a, b) || (x.0, x.1) == (b, a) {
                            x.2 = true;
                        }
                    }
                } else {
                    self.edges.push((a, b, false));
                    self.edges.push((b, a, false));
                }
            }
            _ => {}
        }
    }

    pub fn sync(&mut self, ar: &Arena, pc: &[Eid]) {
        while self.n < pc.len() {
            self.learn(ar, pc[self.n], false);
            self.n += 1;
        }
    }
    pub fn behind(&self, pc: &[Eid]) -> bool {
        self.n < pc.len()
    }

    /// 0: nothing known, 1: a <= b, 2: a < b
    fn le(&self, ar: &Arena, a: Eid, b: Eid) -> u8 {
        let n = self.atoms.len();
        // reach[i]: 0 no, 1 by <=, 2 by <
        let mut reach = vec![0u8; n];
        let mut work: Vec<(u32, u8)> = Vec::new();
        let (ca, cb) = (ar.cval(a), ar.cval(b));
        let mut best = 0;
        let ib = self.find(b);
        let push = |i: u32, l: u8, reach: &mut Vec<u8>, work: &mut Vec<(u32, u8)>| {
            if reach[i as usize] < l {
                reach[i as usize] = l;
                work.push((i, l));
            }
        };
        let from_const = |c: u64, l: u8, reach: &mut Vec<u8>, work: &mut Vec<(u32, u8)>, best: &mut u8| {
            if let Some(d) = cb {
                if c < d {
                    *best = 2;
                } else if c == d {
                    *best = (*best).max(l);
                }
            }
            for i in 0..n {
                if let Some(d) = self.consts[i] {
                    if ar.w(self.atoms[i]) == ar.w(a) {
                        if c < d {
                            if reach[i] < 2 {
                                reach[i] = 2;
                                work.push((i as u32, 2));
                            }
                        } else if c == d && reach[i] < l {
                            reach[i] = l;
                            work.push((i as u32, l));
                        }
                    }
                }
            }
        };
        if let Some(c) = ca {
            from_const(c, 1, &mut reach, &mut work, &mut best);
        }
        if let Some(i) = self.find(a) {
            push(i, 1, &mut reach, &mut work);
        }
        while let Some((i, l)) = work.pop() {
            if reach[i as usize] != l {
                continue;
            }
            if Some(i) == ib {
                best = best.max(l);
            }
            if best == 2 {
                return 2;
            }
            for &(x, y, strict) in &self.edges {
                if x == i {
                    let l2 = if strict { 2 } else { l };
                    if reach[y as usize] < l2 {
                        push(y, l2, &mut reach, &mut work);
                        if let Some(c) = self.consts[y as usize] {
                            from_const(c, l2, &mut reach, &mut work, &mut best);
                        }
                    }
                }
            }
        }
        best
    }

    /// The truth of c, if it follows.
    pub fn decide(&self, ar: &Arena, c: Eid) -> Option<bool> {
        match ar.node(c) {
            Node::Bin(Op::Xor, a, b) if ar.w(c) == 1 && ar.cval(b) == Some(1) => self.decide(ar, a).map(|x| !x),
            Node::Bin(Op::And, a, b) if ar.w(c) == 1 => match (self.decide(ar, a), self.decide(ar, b)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Node::Bin(Op::Or, a, b) if ar.w(c) == 1 => match (self.decide(ar, a), self.decide(ar, b)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            Node::Ult(a, b) => {
                if self.le(ar, a, b) == 2 {
                    return Some(true);
                }
                if self.le(ar, b, a) >= 1 {
                    return Some(false);
                }
                None
            }
            Node::Eq(a, b) if ar.w(a) > 1 => {
                let x = self.le(ar, a, b);
                if x == 2 {
                    return Some(false);
                }
                let y = self.le(ar, b, a);
                if y == 2 {
                    return Some(false);
                }
                if x == 1 && y == 1 {
                    return Some(true);
                }
                None
            }
            _ => None,
        }
    }
}
