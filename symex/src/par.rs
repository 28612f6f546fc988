//! Two threads: what each knows of the other (vector clocks) and the accesses
//! not yet ordered, by which a data race is recognised.
use crate::ir::Mo;
use std::collections::HashMap;
use std::rc::Rc;

/// how an access touches memory
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Acc {
    Read,
    Write,
    AtomicRead,
    AtomicWrite,
}

type Vc = [u32; 2];

fn join(a: &mut Vc, b: &Vc) {
    a[0] = a[0].max(b[0]);
    a[1] = a[1].max(b[1]);
}

/// last access of each kind, by each thread, to each byte of an object
#[derive(Clone)]
struct Shadow {
    at: [[Vec<u32>; 4]; 2],
}

#[derive(Clone)]
pub struct Clocks {
    vc: [Vc; 2],
    /// what a later acquire fence of the thread acquires
    pend: [Vc; 2],
    /// what a relaxed store after a release fence releases
    rel: [Vc; 2],
    /// release clock of the atomic locations
    loc: HashMap<u64, Vc>,
    /// by region and object
    shadow: HashMap<u64, Rc<Shadow>>,
}

impl Clocks {
    pub fn new() -> Self {
        Clocks { vc: [[1, 0], [0, 1]], pend: [[0; 2]; 2], rel: [[0; 2]; 2], loc: HashMap::new(), shadow: HashMap::new() }
    }
    /// Records an access of thread t; true if it races with one of the other.
    pub fn access(&mut self, t: usize, obj: u64, size: usize, off: usize, n: usize, a: Acc) -> bool {
        let u = 1 - t;
        let seen = self.vc[t][u];
        let now = self.vc[t][t];
        let sh = self.shadow.entry(obj).or_insert_with(|| {
            let f = || vec![0u32; size];
            let g = || [f(), f(), f(), f()];
            Rc::new(Shadow { at: [g(), g()] })
        });
        let sh = Rc::make_mut(sh);
        let against: &[Acc] = match a {
            Acc::Read => &[Acc::Write, Acc::AtomicWrite],
            Acc::Write => &[Acc::Read, Acc::Write, Acc::AtomicRead, Acc::AtomicWrite],
            Acc::AtomicRead => &[Acc::Write],
            Acc::AtomicWrite => &[Acc::Read, Acc::Write],
        };
        for &k in against {
            for e in &sh.at[u][k as usize][off..off + n] {
                if *e > seen {
                    return true;
                }
            }
        }
        for e in &mut sh.at[t][a as usize][off..off + n] {
            *e = now;
        }
        false
    }
    pub fn load(&mut self, t: usize, addr: u64, o: Mo) {
        if let Some(l) = self.loc.get(&addr) {
            let l = *l;
            if o.acquires() {
                join(&mut self.vc[t], &l);
            } else {
                join(&mut self.pend[t], &l);
            }
        }
    }
    /// rmw: a read-modify-write, which continues a release sequence
    pub fn store(&mut self, t: usize, addr: u64, o: Mo, rmw: bool) {
        let mut l = if rmw { self.loc.get(&addr).copied().unwrap_or([0; 2]) } else { [0; 2] };
        if o.releases() {
            join(&mut l, &self.vc[t]);
            self.vc[t][t] += 1;
        } else {
            let r = self.rel[t];
            join(&mut l, &r);
        }
        self.loc.insert(addr, l);
    }
    pub fn fence(&mut self, t: usize, o: Mo) {
        if o.acquires() {
            let p = self.pend[t];
            join(&mut self.vc[t], &p);
        }
        if o.releases() {
            self.rel[t] = self.vc[t];
            self.vc[t][t] += 1;
        }
    }
}
