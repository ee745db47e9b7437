//! Entry point of the static analysis of the command line tool: its `main`, with the loops over the input files replaced
//! by one run of their body.  Nothing in this crate is ever run.
#![allow(dead_code, unused_imports, unused_mut, clippy::all)]

include!("/repo/src/main.rs");

pub fn root_c_main() { main() }

#[inline(never)]
pub fn begin_item<I, T>(_: &I) -> T { loop {} }
#[inline(never)]
pub fn end_item() { loop {} }
pub fn stub_par_for_each<I: ::rayon::iter::ParallelIterator, F: Fn(I::Item)>(it: I, f: F) {
    let x: I::Item = begin_item::<I, I::Item>(&it);
    f(x);
    end_item();
}
pub fn stub_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    let x: I::Item = begin_item::<I, I::Item>(&it);
    f(x);
    end_item();
}
