#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
verus! {
//@include ../common/prelude.rs
fn main() {}
//@eqcalls
// ---- what types and patterns are beside what matters here: opaque
#[verifier::external_body] pub struct TySequence { _p: u8 }
#[verifier::external_body] pub struct TyInfer { _p: u8 }
#[verifier::external_body] pub struct TyTypeParameter { _p: u8 }
#[verifier::external_body] pub struct TyAdt { _p: u8 }
#[verifier::external_body] pub struct TyCallable { _p: u8 }
#[verifier::external_body] pub struct TyTuple { _p: u8 }
#[verifier::external_body] pub struct TySchema { _p: u8 }
#[verifier::external_body] pub struct RestPat { _p: u8 }
#[verifier::external_body] pub struct VxPat { _p: u8 }
/// a pattern: `..` or another
pub enum Pat { RestPat(RestPat), Other(VxPat) }
//@item crates/lang/src/types/ty/integer.rs IntegerKind derive(Clone, Copy, PartialEq, Eq, Structural)
//@item crates/lang/src/types/ty/reference.rs Mutability derive(Clone, Copy, PartialEq, Eq, Structural)
//@item crates/lang/src/types/ty/reference.rs TyReference
//@item crates/lang/src/types/ty.rs Ty
//@item crates/lang/src/types/patterns.rs BindingMode derive(Clone, Copy, PartialEq, Eq, Structural)
use BindingMode::*;
pub fn vx_eq(a: &Mutability, b: &Mutability) -> (r: bool) ensures r == (*a == *b) { *a == *b }
/// trusted: the derived clone
#[verifier::external_body] pub fn vx_unbox(b: &Box<Ty>) -> (r: Ty) ensures r == **b { unimplemented!() }
/// `std::cmp::{min, max}`
pub mod cmp { use vstd::prelude::*; verus! { pub fn min(a: isize, b: isize) -> (r: isize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } } pub fn max(a: isize, b: isize) -> (r: isize) ensures r == if a <= b { b } else { a } { if a <= b { b } else { a } } } }
//@rewrite ast :: Pat =>> Pat
//@rewrite . mutability . to_owned ( ) =>> .mutability
//@rewrite bm . clone ( ) =>> bm
impl TyReference {
//@fn crates/lang/src/types/ty/reference.rs TyReference::new
//@ret r
//@spec
    ensures r == (TyReference { referenced: Box::new(inner), mutability })
//@end
//@fn crates/lang/src/types/ty/reference.rs TyReference::referenced
//@ret r
//@rewrite self . referenced . deref ( ) . to_owned ( ) =>> vx_unbox(&self.referenced)
//@spec
    ensures r == *self.referenced
//@end
}
impl Ty {
//@fn crates/lang/src/types/ty.rs Ty::new_reference
//@ret r
//@spec
    ensures r == reference_to(inner_ty, mutability)
//@end
}
pub open spec fn reference_to(t: Ty, m: Mutability) -> Ty { Ty::Reference(TyReference { referenced: Box::new(t), mutability: m }) }
// ================= G04: references around what is taken apart
/// through one more reference: shared once any of them is
pub open spec fn through(bm: BindingMode, m: Mutability) -> BindingMode { BindingMode::BindByReference { mutability: match bm { BindingMode::BindByReference { mutability } => if mutability == Mutability::Immutable { Mutability::Immutable } else { m }, BindingMode::BindByValue => m } } }
/// the type under all references, and how what is in it is bound
pub open spec fn peeled(t: Ty, bm: BindingMode) -> (Ty, BindingMode) decreases t { match t { Ty::Reference(r) => peeled(*r.referenced, through(bm, r.mutability)), _ => (t, bm) } }
pub open spec fn all_mutable(t: Ty) -> bool decreases t { match t { Ty::Reference(r) => r.mutability == Mutability::Mutable && all_mutable(*r.referenced), _ => true } }
/// G04: by value without references, else by reference, which is mutable exactly when all are
pub proof fn theorem_peeled(t: Ty, bm: BindingMode)
    ensures !(peeled(t, bm).0 is Reference), !(t is Reference) ==> peeled(t, bm) == (t, bm),
        (bm is BindByReference || t is Reference) ==> peeled(t, bm).1 == (BindingMode::BindByReference { mutability: if all_mutable(t) && bm != (BindingMode::BindByReference { mutability: Mutability::Immutable }) { Mutability::Mutable } else { Mutability::Immutable } })
    decreases t
{ if let Ty::Reference(r) = t { theorem_peeled(*r.referenced, through(bm, r.mutability)); } }
//@fn crates/lang/src/types/patterns.rs strip_references
//@ret r
//@spec
    ensures r == peeled(ty, def_bm)
//@loop 0
    invariant peeled(ty, bm) == peeled(vx_ty0, def_bm),
    ensures peeled(ty, bm) == peeled(vx_ty0, def_bm), !(ty is Reference),
    decreases ty
//@in fn begin
    let ghost vx_ty0 = ty;
//@end
//@fn crates/lang/src/types/patterns.rs apply_bm
//@ret r
//@spec
    ensures r == match def_bm { BindByReference { mutability } => reference_to(ty, mutability), BindByValue => ty }
//@end
// ================= G04: which part each pattern of a tuple gets
pub open spec fn is_rest(p: Pat) -> bool { p is RestPat }
pub open spec fn rest_before(s: Seq<Pat>, k: int) -> bool { exists|i: int| 0 <= i <= k && i < s.len() && is_rest(#[trigger] s[i]) }
pub open spec fn rest_after(s: Seq<Pat>, k: int) -> bool { exists|i: int| k <= i < s.len() && 0 <= i && is_rest(#[trigger] s[i]) }
/// the position pattern `k` stands at: from the front before any `..`, from the back after all of them, none otherwise
pub open spec fn position(s: Seq<Pat>, size: int, k: int) -> Option<int> { if !rest_before(s, k) { Some(k) } else if !rest_after(s, k) && size + k - s.len() >= 0 { Some(size + k - s.len()) } else { None } }
pub open spec fn gives<F: Fn(usize) -> Ty>(f: F, s: Seq<Pat>, size: int, k: int, t: Ty) -> bool { match position(s, size, k) { Some(i) => f.ensures((i as usize,), t), None => t == Ty::Unknown } }
pub struct Bound { pub pat: Pat, pub ty: Ty, pub bm: BindingMode }
pub struct TypeAstWalker { pub bound: Ghost<Seq<Bound>> }
impl TypeAstWalker {
    /// trusted: the call on a part; recorded
    #[verifier::external_body] pub fn collect_pat_bindings(&mut self, pat: Pat, ty: Ty, def_bm: BindingMode) -> (r: Option<()>) ensures final(self).bound@ == old(self).bound@.push(Bound { pat, ty, bm: def_bm }) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_enumerate(v: Vec<Pat>) -> (r: Vec<(usize, Pat)>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == (i as usize, v@[i]) { unimplemented!() }
#[verifier::external_body] pub fn vx_enumerate_ref<'a>(v: &'a Vec<Pat>) -> (r: Vec<(usize, &'a Pat)>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == v@[i] { unimplemented!() }
/// trusted: no vector is longer than this
pub broadcast axiom fn axiom_vec_len(v: Vec<Pat>) ensures #[trigger] v@.len() < isize::MAX;
//@rewrite $v . into_iter ( ) . enumerate ( ) =>> vx_enumerate($v)
//@rewrite $v . iter ( ) . enumerate ( ) =>> vx_enumerate_ref(&$v)
impl TypeAstWalker {
//@fn crates/lang/src/types/patterns.rs TypeAstWalker::infer_tuple_pat_fields
//@attr #[verifier::loop_isolation(false)]
//@spec
    requires forall|i: usize| #[trigger] get_type.requires((i,)), tuple_size < isize::MAX,
    ensures final(self).bound@.len() == old(self).bound@.len() + pats@.len(),
        forall|i: int| 0 <= i < old(self).bound@.len() ==> final(self).bound@[i] == old(self).bound@[i],
        forall|k: int| 0 <= k < pats@.len() ==> (#[trigger] final(self).bound@[old(self).bound@.len() + k]).pat == pats@[k] && final(self).bound@[old(self).bound@.len() + k].bm == bm && gives(get_type, pats@, tuple_size as int, k, final(self).bound@[old(self).bound@.len() + k].ty)
//@in fn begin
    proof { broadcast use axiom_vec_len; assert(pats@.len() < isize::MAX); }
    let ghost vp = pats@; let ghost was = self.bound@;
//@loop 0 iter it
    invariant it.seq().len() == vp.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1 == vp[i],
        first_rest_indx == isize::MAX || (0 <= first_rest_indx < it.index@ && is_rest(vp[first_rest_indx as int])),
        last_rest_indx == -1 || (0 <= last_rest_indx < it.index@ && is_rest(vp[last_rest_indx as int])),
        forall|i: int| 0 <= i < it.index@ && is_rest(#[trigger] vp[i]) ==> first_rest_indx <= i <= last_rest_indx,
//@loop 1 iter it
    invariant it.seq().len() == vp.len(), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, vp[i]),
        self.bound@.len() == was.len() + it.index@, forall|i: int| 0 <= i < was.len() ==> self.bound@[i] == was[i],
        forall|k: int| 0 <= k < it.index@ ==> (#[trigger] self.bound@[was.len() + k]).pat == vp[k] && self.bound@[was.len() + k].bm == bm && gives(get_type, vp, tuple_size as int, k, self.bound@[was.len() + k].ty),
//@before self . collect_pat_bindings
    proof { let k = it.index@ as int; assert(it.seq()[k] == (k as usize, vp[k])); assert(rest_before(vp, k) == (first_rest_indx <= k)); assert(rest_after(vp, k) == (last_rest_indx >= k)); assert(gives(get_type, vp, tuple_size as int, k, pat_ty)); }
//@end
}
}
