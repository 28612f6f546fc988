//! Stack (C15, and its share of C05-C08, C16, C21).
use crate::elem::*;
use crate::kinds::Stack;
use crate::sx::*;
use std::cmp::Ordering;

type S = Stack<K>;

/// bottom to top
type R = Vec<u16>;

fn same(s: &S, r: &R, group: u64, what: &str) {
    if !on(group) {
        return;
    }
    chk(s.len() == r.len(), what);
    chk(s.is_empty() == (r.len() == 0), what);
    let mut i = r.len();
    let mut it = s.iter();
    while i > 0 {
        i -= 1;
        match it.next() {
            Some(k) => {
                trace(k.v() as u64);
                chk(k.v() == r[i], what);
            }
            None => chk(false, what),
        }
    }
    chk(it.next().is_none(), what);
    match (s.top(), r.last()) {
        (Some(k), Some(x)) => chk(k.v() == *x, what),
        (None, None) => (),
        _ => chk(false, what),
    }
}

fn rm(r: &mut R, at: usize) -> u16 {
    let x = r[at];
    let mut i = at + 1;
    while i < r.len() {
        r[i - 1] = r[i];
        i += 1;
    }
    r.pop();
    x
}

pub const PUSH: u64 = 1;
pub const POP: u64 = 2;
pub const TOP_MUT: u64 = 3;
pub const REMOVE: u64 = 4;
pub const SPLIT: u64 = 5;
pub const CONTAINS: u64 = 6;
pub const ITER_MUT: u64 = 7;
pub const CLEAR: u64 = 8;
pub const EXTEND: u64 = 9;
pub const INTO_ITER: u64 = 10;
pub const PANICS: u64 = 11;

fn step(s: &mut S, r: &mut R, op: u64, shared: bool) {
    g().clones = 0;
    let mut most = 0;
    match op {
        PUSH => {
            let x = any16();
            s.push(K::new(x));
            r.push(x);
        }
        POP => {
            let o = s.pop().map(|k| k.v());
            let w = r.pop();
            trace(o.map_or(0, |x| x as u64 + 1));
            chk_if(CONTENT, o == w, "pop returns the element last pushed, or None");
            most = 1;
        }
        TOP_MUT => {
            let x = any16();
            match (s.top_mut(), r.last_mut()) {
                (Some(k), Some(y)) => {
                    chk_if(CONTENT, k.v() == *y, "top_mut refers to the top element");
                    k.q = Q(x);
                    *y = x;
                }
                (None, None) => (),
                _ => chk_if(CONTENT, false, "top_mut is None of the empty stack only"),
            }
            most = 1;
        }
        REMOVE => {
            if r.len() > 0 {
                let at = choice(r.len() as u64) as usize;
                let o = s.remove(at).v();
                let w = rm(r, at);
                trace(o as u64);
                chk_if(CONTENT, o == w, "remove returns the element at that place from the bottom");
                most = r.len() as u32 + 1;
            }
        }
        SPLIT => {
            let at = choice(r.len() as u64 + 1) as usize;
            let t = s.split_off(at);
            let mut tr = R::with_capacity(8);
            while r.len() > at {
                tr.push(rm(r, at));
            }
            same(&t, &tr, CONTENT, "split_off returns the elements from that place up");
            most = tr.len() as u32;
            if choice(2) == 0 {
                same(s, r, CONTENT, "split_off leaves the elements below");
                *s = t;
                *r = tr;
            }
        }
        CONTAINS => {
            let x = any16();
            let mut w = false;
            for y in r.iter() {
                if *y == x {
                    w = true;
                    break;
                }
            }
            let k = K::new(x);
            let o = s.contains(&k);
            trace(o as u64);
            chk_if(CONTENT, o == w, "contains finds exactly the elements");
        }
        ITER_MUT => {
            let stop = choice(r.len() as u64 + 1) as usize;
            let mut i = r.len();
            let mut it = s.iter_mut();
            let mut n = 0;
            while n < stop {
                match it.next() {
                    Some(k) => {
                        chk_if(CONTENT, i > 0, "iter_mut yields no more elements than there are");
                        if i == 0 {
                            break;
                        }
                        i -= 1;
                        chk_if(CONTENT, k.v() == r[i], "iter_mut goes from top to bottom");
                        let x = 0x5500 + i as u16;
                        k.q = Q(x);
                        r[i] = x;
                    }
                    None => chk_if(CONTENT, false, "iter_mut yields every element"),
                }
                n += 1;
            }
            if stop == r.len() {
                chk_if(CONTENT, it.next().is_none(), "iter_mut ends");
            }
            most = r.len() as u32;
        }
        CLEAR => {
            s.clear();
            r.clear();
        }
        EXTEND => {
            let (x, y) = (any16(), any16());
            s.extend([K::new(x), K::new(y)]);
            r.push(x);
            r.push(y);
        }
        INTO_ITER => {
            let stop = choice(r.len() as u64 + 2) as usize;
            let mut it = std::mem::replace(s, Stack::new()).into_iter();
            let mut n = 0;
            while n < stop {
                let o = it.next().map(|k| k.v());
                let w = r.pop();
                chk_if(CONTENT, o == w, "into_iter goes from top to bottom, then ends");
                n += 1;
            }
            r.clear();
            most = u32::MAX;
        }
        _ => {
            // every index out of range panics
            let at = any64();
            assume(at >= r.len() as u64);
            if choice(2) == 0 {
                let o = attempt(|| s.remove(at as usize).v());
                chk_if(CONTENT, o.is_none(), "remove panics on an index out of range");
            } else {
                assume(at > r.len() as u64);
                let o = attempt(|| s.split_off(at as usize));
                chk_if(CONTENT, o.is_none(), "split_off panics on an index out of range");
            }
            most = u32::MAX;
        }
    }
    if !shared {
        if op != PANICS {
            chk_if(LAZY, g().clones == 0, "an update of a stack that shares nothing clones no element");
        }
    } else {
        chk_if(LAZY, g().clones <= most, "an update of a shared stack clones no more than it touches");
    }
}

fn build(n: u64) -> (S, R) {
    let mut s = S::new();
    let mut r = R::with_capacity(16);
    for i in 0..n {
        s.push(K::new(i as u16 * 2 + 1));
        r.push(i as u16 * 2 + 1);
    }
    (s, r)
}

fn pick(op: u64) -> u64 {
    match op {
        12 => PUSH + choice(3),
        13 => PUSH + choice(5),
        14 => PUSH + choice(11),
        x => x,
    }
}

/// a: elements to begin with.  b: 0; 1: a clone is held; 2: a clone that has
/// popped one and pushed another is held; 3: a clone is held, and clones that
/// have popped one, two, three..., each of which has pushed another; 4: a clone
/// was made and is gone; 5: a clone is held of all but the top element.
/// c: operations (hexadecimal digits).
pub fn stack(a: u64, b: u64, c: u64, _d: u64) {
    let (mut s, mut r) = build(a);
    let mut tr = r.clone();
    let mut t = None;
    let mut more = Vec::with_capacity(8);
    if b == 3 {
        for i in 1..(if a < 6 { a + 1 } else { 6 }) {
            let mut x = s.clone();
            let mut xr = r.clone();
            for _ in 0..i {
                x.pop();
                xr.pop();
            }
            if i % 2 == 0 {
                x.push(K::new(800));
                xr.push(800);
            }
            more.push((x, xr));
        }
    }
    if b == 4 {
        drop(s.clone());
    }
    if b > 0 && b != 4 {
        let mut x = s.clone();
        if b == 5 {
            x.pop();
            tr.pop();
        }
        if b == 2 {
            x.pop();
            tr.pop();
            x.push(K::new(900));
            tr.push(900);
        }
        t = Some(x);
    }
    let mut ops = c;
    while ops != 0 {
        step(&mut s, &mut r, pick(ops & 15), b > 0 && b != 4);
        ops >>= 4;
    }
    same(&s, &r, CONTENT, "the stack holds what a vector would hold");
    if let Some(t) = &t {
        same(t, &tr, ISO, "the other copy holds what it held before");
    }
    for (x, xr) in &more {
        same(x, xr, ISO, "other copies hold what they held before");
    }
    drop(s);
    if let Some(t) = &t {
        same(t, &tr, ISO, "the other copy survives the drop of this one");
    }
    cover("end");
}

/// c operations, each on either of two copies
pub fn stack_two(a: u64, _b: u64, c: u64, _d: u64) {
    let (mut s, mut r) = build(a);
    let mut t = s.clone();
    let mut q = r.clone();
    let mut ops = c;
    while ops != 0 {
        let op = pick(ops & 15);
        if choice(2) == 0 {
            step(&mut s, &mut r, op, true);
        } else {
            step(&mut t, &mut q, op, true);
        }
        ops >>= 4;
    }
    same(&s, &r, CONTENT | ISO, "the first copy holds what its own history gives");
    same(&t, &q, CONTENT | ISO, "the second copy holds what its own history gives");
    cover("end");
}

/// Stacks of a and b symbolic elements compare as their sequences.  c: 0 they
/// share nothing; n: the second is the first with n - 1 elements popped and b
/// others pushed; 16 more: pushed in turn onto a stack popped before it was cloned.
pub fn stack_cmp(a: u64, b: u64, c: u64, _d: u64) {
    let make = |n: u64| {
        let mut v = Vec::with_capacity(8);
        let mut r = R::with_capacity(8);
        for _ in 0..n {
            let x = any16();
            v.push(K::new(x));
            r.push(x);
        }
        (S::from(v), r)
    };
    let (mut s, mut r) = make(a);
    let (t, q) = if c == 0 {
        make(b)
    } else {
        let (mut t, mut q) = (s.clone(), r.clone());
        for _ in 0..(c & 15) - 1 {
            t.pop();
            q.pop();
        }
        if c & 16 != 0 {
            s = t.clone();
            r = q.clone();
            for _ in 0..b {
                let x = any16();
                s.push(K::new(x));
                r.push(x);
            }
        }
        for _ in 0..b {
            let x = any16();
            t.push(K::new(x));
            q.push(x);
        }
        (t, q)
    };
    g().clones = 0;
    let l = live();
    let (e, n, c, p) = (s == t, s != t, s.cmp(&t), s.partial_cmp(&t));
    chk_if(LAZY, g().clones == 0, "comparing clones no element");
    chk_if(LAZY, live() == l, "comparing keeps no memory");
    // from the top down
    let (mut i, mut j) = (r.len(), q.len());
    let mut want = Ordering::Equal;
    loop {
        if i == 0 || j == 0 {
            if i > 0 {
                want = Ordering::Greater;
            } else if j > 0 {
                want = Ordering::Less;
            }
            break;
        }
        i -= 1;
        j -= 1;
        if r[i] < q[j] {
            want = Ordering::Less;
            break;
        }
        if r[i] > q[j] {
            want = Ordering::Greater;
            break;
        }
    }
    trace(c as i8 as u64);
    chk_if(CONTENT, e == (want == Ordering::Equal), "== holds exactly of equal contents");
    chk_if(CONTENT, n != e, "!= is the negation of ==");
    chk_if(CONTENT, c == want, "cmp is the lexicographic comparison");
    chk_if(CONTENT, p == Some(want), "partial_cmp agrees with cmp");
    cover("end");
}

/// Collecting and converting: a elements.  c: 0 collect, 1 From<Vec>, 2 extend.
pub fn stack_from(a: u64, _b: u64, c: u64, _d: u64) {
    let mut v = Vec::with_capacity(8);
    let mut r = R::with_capacity(8);
    for _ in 0..a {
        let x = any16();
        v.push(K::new(x));
        r.push(x);
    }
    let s: S = match c {
        0 => v.into_iter().collect(),
        1 => S::from(v),
        _ => {
            let mut s = S::new();
            s.extend(v);
            s
        }
    };
    same(&s, &r, CONTENT, "collecting pushes in order");
    let mut it = (&s).iter();
    let mut i = r.len();
    loop {
        let (lo, hi) = it.size_hint();
        chk_if(HINT, lo <= i, "size_hint does not exceed what is still to come");
        if let Some(hi) = hi {
            chk_if(HINT, i <= hi, "size_hint's upper bound is not below what is still to come");
        }
        match it.next() {
            Some(k) => {
                chk_if(CONTENT, i > 0, "iter yields no more than there is");
                if i == 0 {
                    break;
                }
                i -= 1;
                chk_if(CONTENT, k.v() == r[i], "iter goes from top to bottom");
            }
            None => {
                chk_if(CONTENT, i == 0, "iter yields every element");
                break;
            }
        }
    }
    chk_if(CONTENT, it.next().is_none(), "iter goes on returning None");
    cover("end");
}
