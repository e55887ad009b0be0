#![cfg_attr(lsym, feature(core_intrinsics))]
#![allow(internal_features, unexpected_cfgs, dead_code, unused_macros, unused_imports, static_mut_refs, unused_variables, unused_mut)]
#[macro_use]
#[path = "../../common/rt.rs"]
pub mod rt;
#[macro_use]
pub mod comps;
pub mod gen;
pub mod big;
pub mod far;
pub mod lim;
pub mod ages;
pub mod w;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
#[cfg(feature = "wrapping")]
pub mod c19;
#[cfg(feature = "events")]
pub mod c17;

entries! {
    c01_hist4 => c01::hist(4, 3);
    c01_hist5 => c01::hist(5, 3);
    c01_hist6 => c01::hist(6, 2);
    c01_one6 => c01::one(6);
    c01_one7 => c01::one(7);
    c01_bulk => c01::bulk(9, 4);
    c01_bulk_deep => c01::bulk(17, 8);
    c01_mix4 => c01::mix(4);
    c01_mix5 => c01::mix(5);
    c01_ages => c01::ages(2);
    c01_ages4 => c01::ages(4);
    c09_ages => c09::ages(2);
    c09_ages4 => c09::ages(4);
    c01_gen4 => c01::gen(4);
    c01_gen5 => c01::gen(5);
    c01_gen6 => c01::gen(6);
    c02_rw => c02::rw(2, 2);
    c02_rw_deep => c02::rw(4, 3);
    c02_keep2 => c02::keep(2);
    c02_keep3 => c02::keep(3);
    c02_keep4 => c02::keep(4);
    c02_comps => c02::comps();
    c02_orders => c02::orders();
    c04_hist3 => c04::hist(3, 2);
    c04_hist4 => c04::hist(4, 3);
    c04_hist5 => c04::hist(5, 2);
    c04_grow7 => c04::grow(7);
    c04_grow15 => c04::grow(15);
    c06_hist3 => c06::hist(3);
    c06_hist4 => c06::hist(4);
    c06_hist5 => c06::hist(5);
    c06_fill => c06::fill(3, 3, 3);
    c06_fill_deep => c06::fill(7, 3, 3);
    c06_writes => c06::writes(4);
    c07_hist3 => c07::hist(3, false);
    c07_hist2b => c07::hist(2, true);
    c07_hist3b => c07::hist(3, true);
    c07_hist4 => c07::hist(4, false);
    c07_hist4b => c07::hist(4, true);
    c07_fill4 => c07::fill(4);
    c07_fill6 => c07::fill(6);
    c08_gen5 => c08::gen(5, 2);
    c08_gen6 => c08::gen(6, 2);
    c08_cycle => c08::cycle(8);
    c08_churn => c08::churn(6);
    c08_churn8 => c08::churn(8);
    c09_hist3 => c09::hist(3, 2, 8);
    c09_hist4 => c09::hist(4, 2, 4);
    c09_hist5 => c09::hist(5, 2, 2);
    c09_one => c09::one(4);
    c09_one7 => c09::one(7);
    c10_closure2 => c10::closure(2);
    c10_closure3 => c10::closure(3);
    c10_cloning2 => c10::cloning(2);
    c10_cloning3 => c10::cloning(3);
    c10_dropping2 => c10::dropping(2);
    c10_dropping3 => c10::dropping(3);
    c10_overflow2 => c10::overflow(2);
    c10_overflow3 => c10::overflow(3);
    c10_limit5 => c10::creating(7, 5);
    c10_creating => c10::creating(3, 100);
    c10_conflict => c10::conflict();
    c10_overflow1 => c10::overflow(1);
    c11_nested1 => c11::nested(1);
    c11_nested2 => c11::nested(2);
    c11_nested3 => c11::nested(3);
    c11_between3 => c11::between(3);
    c11_between4 => c11::between(4);
    c12_hist3 => c12::hist(3, 2);
    c12_hist4 => c12::hist(4, 2);
    c12_hist5 => c12::hist(5, 1);
    c12_hist6 => c12::hist(6, 1);
    c12_reuse => c12::reuse(4, 3, 3, 1);
    c12_reuse2 => c12::reuse(3, 3, 2, 2);
    c12_reuse_deep => c12::reuse(6, 7, 4, 1);
    c12_limit7 => c12::reuse(5, 7, 3, 1);
    c12_roomy => c12::roomy();
    c12_beyond => c12::beyond();
    c13_pre2 => c13::diverge(2, 1, 3, false);
    c13_pre3 => c13::diverge(3, 1, 0, false);
    c13_post2 => c13::diverge(1, 2, 4, false);
    c13_deep => c13::diverge(3, 2, 2, false);
    c13_gen => c13::diverge(1, 1, 4, true);
    c13_gen2 => c13::diverge(2, 1, 4, true);
    c13_holes4 => c13::holes(4);
    c13_holes5 => c13::holes(5);
    #[cfg(feature = "events")]
    c17_hist3 => c17::hist(3, 0, 3, false);
    #[cfg(feature = "events")]
    c17_seed2 => c17::hist(2, 4, 3, false);
    #[cfg(feature = "events")]
    c17_seed3 => c17::hist(3, 3, 3, false);
    #[cfg(feature = "events")]
    c17_hist4 => c17::hist(4, 0, 2, false);
    #[cfg(feature = "events")]
    c17_hist5 => c17::hist(5, 0, 1, false);
    #[cfg(feature = "events")]
    c17_gen => c17::hist(2, 3, 2, true);
    #[cfg(feature = "events")]
    c17_unions => c17::unions(2);
    #[cfg(feature = "events")]
    c17_unions3 => c17::unions(3);
    c14_raw => c14::raw();
    c14_eq => c14::eq_hash();
    c14_direct => c14::direct();
    c14_numbers => c14::numbers();
    c14_live3 => c14::live(3, true);
    c14_live33 => c14::live(33, false);
    c14_far => c14::far(65800);
    c14_across => c14::across();
    c03_raw2 => c03::raw(2, 2);
    c03_raw3 => c03::raw(3, 2);
    c03_raw4 => c03::raw(4, 3);
    c03_gen2 => c03::raw_gen(2);
    c03_gen3 => c03::raw_gen(3);
    c03_direct2 => c03::direct(2);
    c03_direct3 => c03::direct(3);
    c03_foreign2 => c03::foreign(2);
    c03_foreign3 => c03::foreign(3);
    c01_big => big::quick(big::HANDLES);
    c01_big_wide => big::wide(big::HANDLES);
    c01_big_any => big::any(big::HANDLES);
    #[cfg(feature = "wrapping")]
    c19_wrap3 => c19::wrap(3);
    #[cfg(feature = "wrapping")]
    c19_wrap4 => c19::wrap(4);
    #[cfg(feature = "wrapping")]
    c19_wrap5 => c19::wrap(5);
    #[cfg(feature = "wrapping")]
    c19_cycle => c19::cycle(5);
    c02_big => big::quick(big::VALUES);
    c02_big_wide => big::wide(big::VALUES);
    c02_big_any => big::any(big::VALUES);
    c04_big => big::quick(big::DROPS);
    c04_big_wide => big::wide(big::DROPS);
    c04_big_any => big::any(big::DROPS);
    c06_big => big::quick(big::ITER);
    c06_big_wide => big::wide(big::ITER);
    c06_big_any => big::any(big::ITER);
    c07_big => big::quick(big::LOOP);
    c07_big_wide => big::wide(big::LOOP);
    c07_big_any => big::any(big::LOOP);
    c08_big => big::quick(big::UNIQUE);
    c08_big_wide => big::wide(big::UNIQUE);
    c08_big_any => big::any(big::UNIQUE);
    c09_big => big::quick(big::DIRECT);
    c09_big_wide => big::wide(big::DIRECT);
    c09_big_any => big::any(big::DIRECT);
    c12_big => big::quick(big::COUNTS);
    c12_big_wide => big::wide(big::COUNTS);
    c12_big_any => big::any(big::COUNTS);
    c13_big => big::quick(big::CLONE);
    c13_big_wide => big::wide(big::CLONE);
    c13_big_any => big::any(big::CLONE);
    #[cfg(feature = "events")]
    c17_big => big::quick(big::EVENTS);
    #[cfg(feature = "events")]
    c17_big_wide => big::wide(big::EVENTS);
    #[cfg(feature = "events")]
    c17_big_any => big::any(big::EVENTS);
    c12_real => lim::limit(1 << 24);
    c12_real_s => lim::limit(100_000);
    c01_far => far::run(big::HANDLES, 65800, 66000, false);
    c01_far_grown => far::run(big::HANDLES, 65800, 0, true);
    c02_far => far::run(big::VALUES, 65800, 66000, false);
    c02_far_grown => far::run(big::VALUES, 65800, 0, true);
    c04_far => far::run(big::DROPS, 65800, 66000, false);
    c04_far_grown => far::run(big::DROPS, 65800, 0, true);
    c06_far => far::run(big::ITER, 65800, 66000, false);
    c06_far_grown => far::run(big::ITER, 65800, 0, true);
    c07_far => far::run(big::LOOP, 65800, 66000, false);
    c07_far_grown => far::run(big::LOOP, 65800, 0, true);
    c08_far => far::run(big::UNIQUE, 65800, 66000, false);
    c08_far_grown => far::run(big::UNIQUE, 65800, 0, true);
    c09_far => far::run(big::DIRECT, 65800, 66000, false);
    c09_far_grown => far::run(big::DIRECT, 65800, 0, true);
    c12_far => far::run(big::COUNTS, 65800, 66000, false);
    c12_far_grown => far::run(big::COUNTS, 65800, 0, true);
    c13_far => far::run(big::CLONE, 65800, 66000, false);
    c13_far_grown => far::run(big::CLONE, 65800, 0, true);
    #[cfg(feature = "events")]
    c17_far => far::run(big::EVENTS, 65800, 66000, false);
    #[cfg(feature = "events")]
    c17_far_grown => far::run(big::EVENTS, 65800, 0, true);
}
