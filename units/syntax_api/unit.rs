#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::utf8::*;
use std::ops::ControlFlow;
verus! {
fn main() {}
//@include ../common/prelude.rs
//@include ../common/text.rs
//@include ../common/bytes.rs
//@include ../common/syntax/spec.rs
//@include ../common/syntax/api.rs
} // verus!
