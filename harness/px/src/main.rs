//! The functions of the Python binding, called as the interpreter would.
extern crate poppy as poppy_filters;

#[path = "../../hx/src/common.rs"]
#[allow(dead_code)]
mod common;

#[allow(dead_code, unused_imports, unused_mut)]
mod py {
    include!("/repo/python/src/lib.rs");

    pub mod h;
}
use py::h::*;

symrt::harnesses!(c20_value, c20_new, c20_merge, c20_io, c20_bad, c20_module);
