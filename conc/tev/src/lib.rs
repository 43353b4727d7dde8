//! The sources of /repo/trading-engine, with `thread_local!` of the controlled scheduler.
#![allow(macro_expanded_macro_exports_accessed_by_absolute_paths)]
#[macro_use(thread_local)]
extern crate vsched;
include!(concat!(env!("OUT_DIR"), "/src/lib.rs"));
