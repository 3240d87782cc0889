// extracted on every run
//@rewrite fn infer_tuple_pat_fields =>> pub fn infer_tuple_pat_fields
//@rewrite fn strip_references =>> pub fn strip_references
//@rewrite fn apply_bm =>> pub fn apply_bm
pub mod reference {
    use crate::Ty; use std::ops::Deref;
//@pick crates/lang/src/types/ty/reference.rs closure TyReference::new; TyReference::referenced; Mutability
}
pub mod patterns {
    use super::reference::{self, Mutability, TyReference}; use crate::{Ty, TypeAstWalker, ast}; use std::{cmp, iter}; use self::BindingMode::{BindByReference, BindByValue};
//@pick crates/lang/src/types/patterns.rs closure TypeAstWalker::infer_tuple_pat_fields; strip_references; apply_bm; !TypeAstWalker::collect_pat_bindings; !TypeAstWalker::get_pat_fields_owner; !TypeAstWalker::get_pat_field_tys; !anonymous_pat_ty_var
}
