mod api;
mod common;
mod core;
mod fmt;
mod io;
mod merge;
mod robust;
mod sets;
use crate::core::*;
use api::*;
use fmt::*;
use io::*;
use merge::*;
use robust::*;
use sets::*;

symrt::harnesses!(
    c01_insert, c01_keep, c01_fresh, c02, c09, c10, c03_union, c03_owned, c03_differ, c04_inter, c04_owned, c04_differ, c05_bytes, c05_fresh, c06,
    c11_pos, c12_pos, c12_new, c07_script, c07_room, c08_any, c08_use, c08_cut,
    c13_insert, c13_contains, c13_fill, c13_iter, c13_uninit, c13_other, c15_fpp, c15_bytes, c15_new, c15_same,
    c14_array_bit, c14_array_two, c14_array_count, c14_vec_bit, c14_vec_two, c14_vec_count, c14_array_large, c14_vec_large, c21_compare, c21_convert, c21_display, c16_merge, c16_differ, c05_reader, c25_stats, c25_benchmark, c26_numbers, c26_bits, c26_estimate
);
