//! Other element types: smaller than a word, larger, without size, boxed.
//! Everything a map offers once, on small maps with symbolic keys.
use crate::elem::*;
use lazy_clone_collections::{btree, AvlMap};
use crate::model::*;
use crate::sx::*;

pub trait El: Clone + Ord + Default {
    fn of(x: u16) -> Self;
    fn is(&self, x: u16) -> bool;
}
impl El for () {
    fn of(_: u16) {}
    fn is(&self, _: u16) -> bool {
        true
    }
}
impl El for u8 {
    fn of(x: u16) -> u8 {
        x as u8
    }
    fn is(&self, x: u16) -> bool {
        *self == x as u8
    }
}
impl El for u64 {
    fn of(x: u16) -> u64 {
        (x as u64) << 32
    }
    fn is(&self, x: u16) -> bool {
        *self == (x as u64) << 32
    }
}
impl El for [u64; 5] {
    fn of(x: u16) -> Self {
        [7, x as u64, 8, 9, x as u64]
    }
    fn is(&self, x: u16) -> bool {
        *self == Self::of(x)
    }
}
impl El for Box<u16> {
    fn of(x: u16) -> Self {
        Box::new(x)
    }
    fn is(&self, x: u16) -> bool {
        **self == x
    }
}

const W: &str = "a map works alike for all element types";

pub fn order(m: u64, n: u64) -> Vec<u64> {
    let mut v = Vec::with_capacity(8);
    for i in 0..n {
        v.push(match m {
            0 => i,
            1 => n - 1 - i,
            _ => (i * 11 + 1) % n,
        });
    }
    v
}

macro_rules! typed {
    ($name:ident, $same:ident, $map:ty, [$($g:tt)*], $($avl:ident)?) => {
        fn $same<KK: El, VV: El, $($g)*>(m: &$map, r: &Ref) {
            chk(m.len() == r.len(), W);
            let mut i = 0;
            for (k, v) in m.iter() {
                if i < r.len() {
                    chk(k.is(r.k(i)) && v.is(r.v(i)), W);
                }
                i += 1;
            }
            chk(i == r.len(), W);
            for i in 0..r.len() {
                match m.get(&KK::of(r.k(i))) {
                    Some(v) => chk(v.is(r.v(i)), W),
                    None => chk(false, W),
                }
            }
        }
        /// a: elements to begin with.  b: order in which they are inserted |
        /// (1: a clone is held) << 4.  c: what is done.
        pub fn $name<KK: El, VV: El, $($g)*>(a: u64, b: u64, c: u64, _d: u64) {
            let mut m = <$map>::new();
            let mut r = Ref::new();
            let mut ks: Vec<u16> = Vec::with_capacity(8);
            for i in 0..a {
                // ascending
                let k = any16();
                assume(k < 250);
                if i > 0 {
                    assume(ks[i as usize - 1] < k);
                }
                ks.push(k);
                r.e.push((k, 10 + i as u16));
            }
            for i in order(b & 15, a) {
                m.insert(KK::of(ks[i as usize]), VV::of(10 + i as u16));
            }
            let t = if b >> 4 != 0 { Some((m.clone(), r.clone())) } else { None };
            let q = any16();
            assume(q < 250);
            let n = r.len();
            let want = r.get(q);
            match c {
                0 => {
                    chk(m.get(&KK::of(q)).is_some() == want.is_some(), W);
                    chk(m.contains_key(&KK::of(q)) == want.is_some(), W);
                    match (m.get_key_value(&KK::of(q)), want) {
                        (Some((k, v)), Some(w)) => chk(k.is(q) && v.is(w), W),
                        (None, None) => (),
                        _ => chk(false, W),
                    }
                }
                1 => {
                    let o = m.insert(KK::of(q), VV::of(77));
                    match (o, r.ins(q, 77)) {
                        (Some(v), Some(w)) => chk(v.is(w), W),
                        (None, None) => (),
                        _ => chk(false, W),
                    }
                }
                2 => match (m.remove(&KK::of(q)), r.rem(q)) {
                    (Some(v), Some(w)) => chk(v.is(w.1), W),
                    (None, None) => (),
                    _ => chk(false, W),
                },
                3 => match (m.get_mut(&KK::of(q)), r.pos(q)) {
                    (Some(v), Ok(i)) => {
                        chk(v.is(r.v(i)), W);
                        *v = VV::of(78);
                        r.e[i].1 = 78;
                    }
                    (None, Err(_)) => (),
                    _ => chk(false, W),
                },
                4 => {
                    let (f, l) = (r.clone().pop_first(), r.clone().pop_last());
                    if choice(2) == 0 {
                        match (m.pop_first(), f) {
                            (Some((k, v)), Some(w)) => chk(k.is(w.0) && v.is(w.1), W),
                            (None, None) => (),
                            _ => chk(false, W),
                        }
                        r.pop_first();
                    } else {
                        match (m.pop_last(), l) {
                            (Some((k, v)), Some(w)) => chk(k.is(w.0) && v.is(w.1), W),
                            (None, None) => (),
                            _ => chk(false, W),
                        }
                        r.pop_last();
                    }
                }
                5..=9 => {
                    let e = m.entry(KK::of(q));
                    let v = match c {
                        5 => e.or_insert(VV::of(79)),
                        6 => e.or_insert_with(|| VV::of(79)),
                        7 => e.or_insert_with_key(|k| {
                            chk(k.is(q), W);
                            VV::of(79)
                        }),
                        8 => e.and_modify(|v| *v = VV::of(80)).or_insert(VV::of(79)),
                        _ => e.or_default(),
                    };
                    match want {
                        Some(w) => {
                            chk(v.is(if c == 8 { 80 } else { w }), W);
                        }
                        None => {
                            if c == 9 {
                                chk(*v == VV::default(), W);
                            } else {
                                chk(v.is(79), W);
                            }
                        }
                    }
                    *v = VV::of(81);
                    r.ins(q, 81);
                }
                10 => {
                    let mut i = 0;
                    for (k, v) in m.iter_mut() {
                        if i < n {
                            chk(k.is(r.k(i)) && v.is(r.v(i)), W);
                            r.e[i].1 = 90 + i as u16;
                        }
                        *v = VV::of(90 + i as u16);
                        i += 1;
                    }
                    chk(i == n, W);
                }
                11 => {
                    let mut it = m.into_iter();
                    let (mut lo, mut hi) = (0, n);
                    loop {
                        chk(it.len() == hi - lo, W);
                        let back = choice(2) == 1;
                        match if back { it.next_back() } else { it.next() } {
                            Some((k, v)) => {
                                chk(lo < hi, W);
                                if lo >= hi {
                                    return;
                                }
                                let i = if back { hi - 1 } else { lo };
                                if back {
                                    hi -= 1
                                } else {
                                    lo += 1
                                }
                                chk(k.is(r.k(i)) && v.is(r.v(i)), W);
                            }
                            None => {
                                chk(lo == hi, W);
                                break;
                            }
                        }
                    }
                    drop(it);
                    if let Some((t, r)) = &t {
                        $same(t, r);
                    }
                    cover("end");
                    return;
                }
                12 => {
                    let mut i = match r.pos(q) {
                        Ok(i) => i,
                        Err(i) => i,
                    };
                    let from = i;
                    for (k, v) in m.range(KK::of(q)..) {
                        chk(i < n, W);
                        if i < n {
                            chk(k.is(r.k(i)) && v.is(r.v(i)), W);
                        }
                        i += 1;
                    }
                    chk(i == n, W);
                    i = from;
                    for (k, v) in m.range_mut(..KK::of(q)).rev() {
                        chk(i > 0, W);
                        if i > 0 {
                            i -= 1;
                            chk(k.is(r.k(i)) && v.is(r.v(i)), W);
                            *v = VV::of(91);
                            r.e[i].1 = 91;
                        }
                    }
                    chk(i == 0, W);
                }
                13 => {
                    let mut keep = vec![2u8; n];
                    m.retain(|k, v| {
                        let mut i = 0;
                        while i < n && !k.is(r.k(i)) {
                            i += 1;
                        }
                        chk(i < n && keep[i] == 2 && v.is(r.v(i)), W);
                        let ans = choice(2) as u8;
                        keep[i] = ans;
                        *v = VV::of(92);
                        ans == 1
                    });
                    let mut w = Ref::new();
                    for i in 0..n {
                        chk(keep[i] != 2, W);
                        if keep[i] == 1 {
                            w.e.push((r.k(i), 92));
                        }
                    }
                    r = w;
                }
                14 => {
                    let mut h = m.split_off(&KK::of(q));
                    let mut hr = Ref::new();
                    let at = match r.pos(q) {
                        Ok(i) => i,
                        Err(i) => i,
                    };
                    while r.len() > at {
                        let x = r.remove_at(at);
                        hr.e.push(x);
                    }
                    $same(&h, &hr);
                    // and together again
                    if choice(2) == 0 {
                        $same(&m, &r);
                        h.append(&mut m);
                        for e in &hr.e {
                            r.e.push(*e);
                        }
                        $same(&m, &Ref::new());
                        m = h;
                    }
                }
                15 => {
                    let mut o = <$map>::new();
                    for (k, v) in [(q, 93), (100, 94)] {
                        o.insert(KK::of(k), VV::of(v));
                        r.ins(k, v);
                    }
                    m.append(&mut o);
                    $same(&o, &Ref::new());
                }
                16 => {
                    let mut o = <$map>::new();
                    for e in &r.e {
                        o.insert(KK::of(e.0), VV::of(e.1));
                    }
                    chk(o == m && m.cmp(&o) == std::cmp::Ordering::Equal, W);
                    if want.is_none() {
                        o.insert(KK::of(q), VV::of(5));
                        chk(o != m, W);
                    }
                }
                _ => {
                    m.extend([(KK::of(q), VV::of(95)), (KK::of(3), VV::of(96))]);
                    r.ins(q, 95);
                    r.ins(3, 96);
                    $(
                        let $avl = 0;
                        let _ = $avl;
                        let mut o = <$map>::new();
                        let mut or = Ref::new();
                        for (k, v) in [(q, 97), (101, 98)] {
                            o.insert(KK::of(k), VV::of(v));
                            or.ins(k, v);
                        }
                        let (a, b) = (m.clone(), o.clone());
                        let mut comb = Comb::Union;
                        let x = match c {
                            17 | 18 => AvlMap::new_union(a, b),
                            19 => {
                                comb = Comb::Inter;
                                AvlMap::new_intersect(a, b)
                            }
                            20 => {
                                comb = Comb::Diff;
                                AvlMap::new_diff(a, b)
                            }
                            _ => {
                                comb = Comb::Sym;
                                AvlMap::new_sym_diff(a, b)
                            }
                        };
                        $same(&x, &combine(&r, &or, comb));
                    )?
                }
            }
            $same(&m, &r);
            if let Some((t, r)) = &t {
                $same(t, r);
            }
            cover("end");
        }
    };
}
typed!(avl, same_avl, AvlMap<KK, VV>, [], avl);
typed!(bt, same_bt, btree::BTreeMap<KK, VV, N>, [const N: usize],);
