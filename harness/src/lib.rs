//! The harnesses: each takes four numbers (a job's parameters), makes up the
//! rest of its inputs through `sx`, and states a property by assertions.
pub mod bulk;
pub mod dbg;
pub mod elem;
pub mod iters;
pub mod kinds;
pub mod lazy;
pub mod model;
pub mod ord;
pub mod pan;
pub mod part;
pub mod point;
pub mod serde;
pub mod sets;
pub mod stack;
pub mod sx;
pub mod thread;
pub mod typ;

use elem::*;
use kinds::*;
use lazy_clone_collections::{btree, AvlMap};

pub type H = extern "C-unwind" fn(u64, u64, u64, u64);

fn run(f: fn(u64, u64, u64, u64), a: u64, b: u64, c: u64, d: u64) {
    begin(d & 0xff);
    f(a, b, c, d);
    end();
}

macro_rules! harnesses {
    ($($name:ident = $f:expr;)*) => {
        $(
            #[no_mangle]
            pub extern "C-unwind" fn $name(a: u64, b: u64, c: u64, d: u64) {
                run($f, a, b, c, d)
            }
        )*
        pub static TABLE: &[(&str, H)] = &[$((stringify!($name), $name as H)),*];
    };
}

harnesses! {
    dbg_avl = dbg::map::<Avl>;
    dbg_b1 = dbg::map::<BT<1>>;
    dbg_b2 = dbg::map::<BT<2>>;
    dbg_b5 = dbg::map::<BT<5>>;
    dbgs_b2 = dbg::set::<BSet<2>>;
    dbgs_avl = dbg::set::<ASet>;
    dbgs_b1 = dbg::set::<BSet<1>>;
    dbg_stack = dbg::stack;
    dbgi_b1 = dbg::iters::<1>;
    dbgi_b2 = dbg::iters::<2>;
    thr_avl = thread::maps::<AvlMap<u16, Box<u16>>>;
    thr_b1 = thread::maps::<btree::BTreeMap<u16, Box<u16>, 1>>;
    thr_b2 = thread::maps::<btree::BTreeMap<u16, Box<u16>, 2>>;
    thr_fix = thread::maps::<btree::fixed::BTreeMap<u16, Box<u16>>>;
    thl_avl = thread::looks::<AvlMap<u16, Box<u16>>>;
    thl_b1 = thread::looks::<btree::BTreeMap<u16, Box<u16>, 1>>;
    thl_fix = thread::looks::<btree::fixed::BTreeMap<u16, Box<u16>>>;
    tha = thread::algebra;
    pt_avl = point::point::<Avl>;
    two_avl = point::two_copies::<Avl>;
    it_avl = iters::iterate::<Avl>;
    pt_b1 = point::point::<BT<1>>;
    two_b1 = point::two_copies::<BT<1>>;
    it_b1 = iters::iterate::<BT<1>>;
    pt_b2 = point::point::<BT<2>>;
    two_b2 = point::two_copies::<BT<2>>;
    it_b2 = iters::iterate::<BT<2>>;
    pt_b3 = point::point::<BT<3>>;
    two_b3 = point::two_copies::<BT<3>>;
    it_b3 = iters::iterate::<BT<3>>;
    pt_b5 = point::point::<BT<5>>;
    two_b5 = point::two_copies::<BT<5>>;
    it_b5 = iters::iterate::<BT<5>>;
    pt_fix = point::point::<Fix>;
    two_fix = point::two_copies::<Fix>;
    it_fix = iters::iterate::<Fix>;
    pt_fixw = point::point::<FixW>;
    two_fixw = point::two_copies::<FixW>;
    it_fixw = iters::iterate::<FixW>;
    pan_fixw = pan::pan::<FixW>;
    pani_fixw = pan::pan_iter::<FixW>;
    pt_b9 = point::point::<BT<9>>;
    ret_b9 = bulk::retain::<BT<9>>;
    bulk_b9 = bulk::bulk_bt::<9>;
    it_b9 = iters::iterate::<BT<9>>;
    rg_b9 = iters::range::<BT<9>>;
    ent_b9 = bulk::entry::<BT<9>>;
    two_b9 = point::two_copies::<BT<9>>;
    pan_b9 = pan::pan::<BT<9>>;
    pt_b20 = point::point::<BT<20>>;
    bulk_b20 = bulk::bulk_bt::<20>;
    it_b20 = iters::iterate::<BT<20>>;
    rg_b20 = iters::range::<BT<20>>;
    ret_b20 = bulk::retain::<BT<20>>;
    rg_avl = iters::range::<Avl>;
    ret_avl = bulk::retain::<Avl>;
    ent_avl = bulk::entry::<Avl>;
    entl_avl = bulk::entry_lazy::<Avl>;
    ext_avl = bulk::extend::<Avl>;
    cmp_avl = ord::cmp_maps::<Avl>;
    cmps_avl = ord::cmp_shared::<Avl>;
    rg_b1 = iters::range::<BT<1>>;
    ret_b1 = bulk::retain::<BT<1>>;
    ent_b1 = bulk::entry::<BT<1>>;
    entl_b1 = bulk::entry_lazy::<BT<1>>;
    ext_b1 = bulk::extend::<BT<1>>;
    cmp_b1 = ord::cmp_maps::<BT<1>>;
    cmps_b1 = ord::cmp_shared::<BT<1>>;
    bulk_b1 = bulk::bulk_bt::<1>;
    rg_b2 = iters::range::<BT<2>>;
    ret_b2 = bulk::retain::<BT<2>>;
    ent_b2 = bulk::entry::<BT<2>>;
    entl_b2 = bulk::entry_lazy::<BT<2>>;
    ext_b2 = bulk::extend::<BT<2>>;
    cmp_b2 = ord::cmp_maps::<BT<2>>;
    cmps_b2 = ord::cmp_shared::<BT<2>>;
    bulk_b2 = bulk::bulk_bt::<2>;
    rg_b3 = iters::range::<BT<3>>;
    ret_b3 = bulk::retain::<BT<3>>;
    ent_b3 = bulk::entry::<BT<3>>;
    entl_b3 = bulk::entry_lazy::<BT<3>>;
    ext_b3 = bulk::extend::<BT<3>>;
    cmp_b3 = ord::cmp_maps::<BT<3>>;
    cmps_b3 = ord::cmp_shared::<BT<3>>;
    bulk_b3 = bulk::bulk_bt::<3>;
    rg_b5 = iters::range::<BT<5>>;
    ret_b5 = bulk::retain::<BT<5>>;
    ent_b5 = bulk::entry::<BT<5>>;
    entl_b5 = bulk::entry_lazy::<BT<5>>;
    ext_b5 = bulk::extend::<BT<5>>;
    cmp_b5 = ord::cmp_maps::<BT<5>>;
    cmps_b5 = ord::cmp_shared::<BT<5>>;
    bulk_b5 = bulk::bulk_bt::<5>;
    bulk_avl = bulk::bulk_avl;
    ext_fix = bulk::extend_fix;
    extr_avl = bulk::extend_ref_avl;
    each_avl = iters::for_each_avl;
    hash_avl = ord::hash_avl;
    spoint_avl = sets::set_point::<ASet>;
    salg_avl = sets::set_alg::<ASet>;
    siter_avl = sets::set_iter::<ASet>;
    srange_avl = sets::set_range::<ASet>;
    sretain_avl = sets::set_retain::<ASet>;
    sextend_avl = sets::set_extend::<ASet>;
    ssplit_avl = sets::set_split::<ASet>;
    scmp_avl = ord::cmp_sets::<ASet>;
    spoint_b1 = sets::set_point::<BSet<1>>;
    salg_b1 = sets::set_alg::<BSet<1>>;
    siter_b1 = sets::set_iter::<BSet<1>>;
    srange_b1 = sets::set_range::<BSet<1>>;
    sretain_b1 = sets::set_retain::<BSet<1>>;
    sextend_b1 = sets::set_extend::<BSet<1>>;
    ssplit_b1 = sets::set_split::<BSet<1>>;
    scmp_b1 = ord::cmp_sets::<BSet<1>>;
    spoint_b2 = sets::set_point::<BSet<2>>;
    salg_b2 = sets::set_alg::<BSet<2>>;
    siter_b2 = sets::set_iter::<BSet<2>>;
    srange_b2 = sets::set_range::<BSet<2>>;
    sretain_b2 = sets::set_retain::<BSet<2>>;
    sextend_b2 = sets::set_extend::<BSet<2>>;
    ssplit_b2 = sets::set_split::<BSet<2>>;
    scmp_b2 = ord::cmp_sets::<BSet<2>>;
    spoint_b5 = sets::set_point::<BSet<5>>;
    salg_b5 = sets::set_alg::<BSet<5>>;
    siter_b5 = sets::set_iter::<BSet<5>>;
    srange_b5 = sets::set_range::<BSet<5>>;
    sretain_b5 = sets::set_retain::<BSet<5>>;
    sextend_b5 = sets::set_extend::<BSet<5>>;
    ssplit_b5 = sets::set_split::<BSet<5>>;
    scmp_b5 = ord::cmp_sets::<BSet<5>>;
    stk = stack::stack;
    stack_two = stack::stack_two;
    stack_cmp = stack::stack_cmp;
    stack_from = stack::stack_from;
    lazy_avl = lazy::lazy::<Avl>;
    pan_avl = pan::pan::<Avl>;
    pani_avl = pan::pan_iter::<Avl>;
    reads_avl = lazy::reads::<Avl>;
    panf_avl = pan::pan_full::<Avl>;
    sro_avl = serde::round::<Avl>;
    sri_avl = serde::input::<Avl>;
    lazy_b1 = lazy::lazy::<BT<1>>;
    pan_b1 = pan::pan::<BT<1>>;
    pani_b1 = pan::pan_iter::<BT<1>>;
    reads_b1 = lazy::reads::<BT<1>>;
    panf_b1 = pan::pan_full::<BT<1>>;
    sro_b1 = serde::round::<BT<1>>;
    sri_b1 = serde::input::<BT<1>>;
    lazy_b2 = lazy::lazy::<BT<2>>;
    pan_b2 = pan::pan::<BT<2>>;
    pani_b2 = pan::pan_iter::<BT<2>>;
    reads_b2 = lazy::reads::<BT<2>>;
    panf_b2 = pan::pan_full::<BT<2>>;
    sro_b2 = serde::round::<BT<2>>;
    sri_b2 = serde::input::<BT<2>>;
    lazy_b3 = lazy::lazy::<BT<3>>;
    pan_b3 = pan::pan::<BT<3>>;
    pani_b3 = pan::pan_iter::<BT<3>>;
    reads_b3 = lazy::reads::<BT<3>>;
    panf_b3 = pan::pan_full::<BT<3>>;
    sro_b3 = serde::round::<BT<3>>;
    sri_b3 = serde::input::<BT<3>>;
    lazy_b5 = lazy::lazy::<BT<5>>;
    pan_b5 = pan::pan::<BT<5>>;
    pani_b5 = pan::pan_iter::<BT<5>>;
    reads_b5 = lazy::reads::<BT<5>>;
    panf_b5 = pan::pan_full::<BT<5>>;
    sro_b5 = serde::round::<BT<5>>;
    sri_b5 = serde::input::<BT<5>>;
    lazy_fix = lazy::lazy::<Fix>;
    pan_fix = pan::pan::<Fix>;
    pani_fix = pan::pan_iter::<Fix>;
    slazy_avl = lazy::lazy_set::<ASet>;
    pans_avl = pan::pan_set::<ASet>;
    slazy_b1 = lazy::lazy_set::<BSet<1>>;
    pans_b1 = pan::pan_set::<BSet<1>>;
    slazy_b2 = lazy::lazy_set::<BSet<2>>;
    pans_b2 = pan::pan_set::<BSet<2>>;
    slazy_b5 = lazy::lazy_set::<BSet<5>>;
    pans_b5 = pan::pan_set::<BSet<5>>;
    sro_set = serde::round::<ASet>;
    sri_set = serde::input::<ASet>;
    pana = pan::pan_avl;
    pane = pan::pan_each;
    pank = pan::pan_stack;
    part_avl = part::maps::<lazy_clone_collections::AvlMap<u16, part::P>>;
    part_b1 = part::maps::<lazy_clone_collections::btree::BTreeMap<u16, part::P, 1>>;
    part_b2 = part::maps::<lazy_clone_collections::btree::BTreeMap<u16, part::P, 2>>;
    part_b5 = part::maps::<lazy_clone_collections::btree::BTreeMap<u16, part::P, 5>>;
    part_stack = part::stacks;
    ta0 = typ::avl::<u8, u8>;
    ta1 = typ::avl::<u64, ()>;
    ta2 = typ::avl::<Box<u16>, [u64; 5]>;
    ta3 = typ::avl::<u64, u8>;
    tb3 = typ::bt::<u64, u8, 2>;
    tb0 = typ::bt::<u8, u8, 1>;
    tb1 = typ::bt::<u64, (), 2>;
    tb2 = typ::bt::<Box<u16>, [u64; 5], 1>;
    lay0 = pan::layout::<u64, ()>;
    lay1 = pan::layout::<u8, pan::Wide>;
    lay2 = pan::layout::<Box<u16>, u8>;
    lay3 = pan::layout::<u8, Box<u16>>;
}
