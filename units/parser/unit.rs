#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::utf8::*;
use std::ops::ControlFlow;
use std::ops::ControlFlow::Continue;
verus! {
fn main() {}
//@include ../common/prelude.rs
//@include ../common/text.rs
//@include ../common/bytes.rs
//@include ../common/syntax/spec.rs
//@trust syntax_api
//@include ../common/syntax/api.rs
//@trust off
//@include sink.rs
} // verus!
