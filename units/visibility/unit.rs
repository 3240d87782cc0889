#![feature(allocator_api)]
#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
verus! {
//@include ../common/prelude.rs
fn main() {}
//@eqcalls
//@item crates/syntax/src/syntax_kind/generated.rs SyntaxKind derive(Clone, Copy)
use SyntaxKind::*;
// ================= the syntax tree, as far as it matters here
/// a node or token
pub type Nd = nat;
pub uninterp spec fn kind_of(n: Nd) -> SyntaxKind;
/// itself, if a node, and the nodes around it from the inside out
pub uninterp spec fn ancestors_of(n: Nd) -> Seq<Nd>;
pub uninterp spec fn is_msl_item(n: Nd) -> bool;
pub uninterp spec fn attr_item_around(n: Nd) -> Option<Nd>;
pub uninterp spec fn module_around(n: Nd) -> Option<Nd>;
pub uninterp spec fn script_around(n: Nd) -> Option<Nd>;
pub uninterp spec fn node_at(n: Nd) -> Nd;
pub uninterp spec fn is_path(n: Nd) -> bool;
pub uninterp spec fn root_path_of(n: Nd) -> Nd;
pub uninterp spec fn use_speck_around(n: Nd) -> Option<Nd>;
pub uninterp spec fn parent_of(n: Nd) -> Option<Nd>;
pub uninterp spec fn can_have_vis(n: Nd) -> bool;
pub uninterp spec fn is_builtins_module(n: Nd) -> bool;
pub uninterp spec fn vis_modifier_of(n: Nd) -> Option<Nd>;
pub uninterp spec fn has_word(n: Nd, w: Seq<char>) -> bool;
pub uninterp spec fn is_entry_fun(n: Nd) -> bool;
pub uninterp spec fn is_fun(n: Nd) -> bool;
/// the modules that friend declarations of a module stand for
pub uninterp spec fn friend_decls_of(n: Nd) -> Seq<Nd>;
pub uninterp spec fn friend_path(n: Nd) -> Option<Nd>;
pub uninterp spec fn module_named(f: FileId, path: Nd) -> Option<Nd>;
pub uninterp spec fn package_of(f: FileId) -> int;
pub uninterp spec fn item_at(l: SyntaxLoc) -> Option<(FileId, Nd)>;
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct FileId(pub u32);
#[verifier::external_body] pub struct VxDb { _p: u8 }
#[verifier::external_body] pub struct SyntaxNode { _p: u8 }
impl View for SyntaxNode { type V = Nd; uninterp spec fn view(&self) -> Nd; }
#[verifier::external_body] pub struct SyntaxElement { _p: u8 }
impl View for SyntaxElement { type V = Nd; uninterp spec fn view(&self) -> Nd; }
pub trait VxEq<B: ?Sized> { spec fn same(&self, o: &B) -> bool; fn vx_same(&self, o: &B) -> (r: bool) ensures r == self.same(o); }
/// `==`
pub fn vx_eq<A: VxEq<B>, B>(a: &A, b: &B) -> (r: bool) ensures r == a.same(b) { a.vx_same(b) }
impl VxEq<SyntaxKind> for SyntaxKind { open spec fn same(&self, o: &SyntaxKind) -> bool { *self == *o } #[verifier::external_body] fn vx_same(&self, o: &SyntaxKind) -> (r: bool) { unimplemented!() } }
impl VxEq<ItemScope> for ItemScope { open spec fn same(&self, o: &ItemScope) -> bool { *self == *o } fn vx_same(&self, o: &ItemScope) -> (r: bool) { *self == *o } }
impl VxEq<Vis> for Vis { open spec fn same(&self, o: &Vis) -> bool { *self == *o } fn vx_same(&self, o: &Vis) -> (r: bool) { *self == *o } }
impl VxEq<Ns> for Ns { open spec fn same(&self, o: &Ns) -> bool { *self == *o } fn vx_same(&self, o: &Ns) -> (r: bool) { *self == *o } }
impl VxEq<Module> for Module { open spec fn same(&self, o: &Module) -> bool { self.syntax@ == o.syntax@ } #[verifier::external_body] fn vx_same(&self, o: &Module) -> (r: bool) { unimplemented!() } }
impl VxEq<Script> for Script { open spec fn same(&self, o: &Script) -> bool { self.syntax@ == o.syntax@ } #[verifier::external_body] fn vx_same(&self, o: &Script) -> (r: bool) { unimplemented!() } }
impl VxEq<Option<Module>> for Option<Module> { open spec fn same(&self, o: &Option<Module>) -> bool { nd(*self) == nd(*o) } #[verifier::external_body] fn vx_same(&self, o: &Option<Module>) -> (r: bool) { unimplemented!() } }
impl VxEq<usize> for usize { open spec fn same(&self, o: &usize) -> bool { *self == *o } fn vx_same(&self, o: &usize) -> (r: bool) { *self == *o } }
impl VxEq<PackageId> for PackageId { open spec fn same(&self, o: &PackageId) -> bool { self@ == o@ } #[verifier::external_body] fn vx_same(&self, o: &PackageId) -> (r: bool) { unimplemented!() } }
impl VxEq<SyntaxNode> for SyntaxNode { open spec fn same(&self, o: &SyntaxNode) -> bool { self@ == o@ } #[verifier::external_body] fn vx_same(&self, o: &SyntaxNode) -> (r: bool) { unimplemented!() } }
impl<'a, 'b> VxEq<&'b SyntaxNode> for &'a SyntaxNode { open spec fn same(&self, o: &&'b SyntaxNode) -> bool { self@ == o@ } #[verifier::external_body] fn vx_same(&self, o: &&'b SyntaxNode) -> (r: bool) { unimplemented!() } }
#[verifier::external_body] pub struct PackageId { _p: u8 }
impl View for PackageId { type V = int; uninterp spec fn view(&self) -> int; }
impl VxDb { #[verifier::external_body] pub fn file_package_id(&self, f: FileId) -> (r: PackageId) ensures r@ == package_of(f) { unimplemented!() } }
//@rewrite & dyn SourceDatabase =>> &VxDb
//@rewrite ast :: $x =>> $x
//@rewrite syntax :: SyntaxKind =>> SyntaxKind
//@rewrite use SyntaxKind :: * ; =>>
pub struct InFile<T> { pub file_id: FileId, pub value: T }
impl<T> InFile<T> { pub fn unpack(self) -> (r: (FileId, T)) ensures r == (self.file_id, self.value) { (self.file_id, self.value) } }
pub struct NamedElement { pub syntax: SyntaxNode } pub struct AnyHasVisibility { pub syntax: SyntaxNode } pub struct Path { pub syntax: SyntaxNode } pub struct AttrItem { pub syntax: SyntaxNode } pub struct UseSpeck { pub syntax: SyntaxNode }
pub struct Module { pub syntax: SyntaxNode } pub struct Script { pub syntax: SyntaxNode } pub struct Friend { pub syntax: SyntaxNode } pub struct VisibilityModifier { pub syntax: SyntaxNode } pub struct Fun { pub syntax: SyntaxNode } pub struct SyntaxToken { }
pub trait VxAst: Sized { spec fn nd(&self) -> Nd; fn syntax(&self) -> (r: &SyntaxNode) ensures r@ == self.nd(); }
impl VxAst for NamedElement { open spec fn nd(&self) -> Nd { self.syntax@ } fn syntax(&self) -> &SyntaxNode { &self.syntax } }
impl VxAst for AnyHasVisibility { open spec fn nd(&self) -> Nd { self.syntax@ } fn syntax(&self) -> &SyntaxNode { &self.syntax } }
impl VxAst for Path { open spec fn nd(&self) -> Nd { self.syntax@ } fn syntax(&self) -> &SyntaxNode { &self.syntax } }
impl VxAst for Module { open spec fn nd(&self) -> Nd { self.syntax@ } fn syntax(&self) -> &SyntaxNode { &self.syntax } }
impl VxAst for Script { open spec fn nd(&self) -> Nd { self.syntax@ } fn syntax(&self) -> &SyntaxNode { &self.syntax } }
impl VxAst for AttrItem { open spec fn nd(&self) -> Nd { self.syntax@ } fn syntax(&self) -> &SyntaxNode { &self.syntax } }
impl VxAst for UseSpeck { open spec fn nd(&self) -> Nd { self.syntax@ } fn syntax(&self) -> &SyntaxNode { &self.syntax } }
impl VxAst for Friend { open spec fn nd(&self) -> Nd { self.syntax@ } fn syntax(&self) -> &SyntaxNode { &self.syntax } }
impl VxAst for Fun { open spec fn nd(&self) -> Nd { self.syntax@ } fn syntax(&self) -> &SyntaxNode { &self.syntax } }
pub open spec fn nd<T: VxAst>(o: Option<T>) -> Option<Nd> { match o { Some(x) => Some(x.nd()), None => None } }
/// `clone` of a part of the tree is that part
#[verifier::external_body] pub fn vx_clone<T: VxAst>(x: &T) -> (r: T) ensures r.nd() == x.nd() { unimplemented!() }
#[verifier::external_body] pub fn vx_clone_opt<T: VxAst>(x: &Option<T>) -> (r: Option<T>) ensures nd(r) == nd(*x) { unimplemented!() }
//@rewrite item . syntax ( ) . clone ( ) =>> item.syntax().vx_clone()
//@rewrite opt_visible_item . clone ( ) =>> vx_clone_opt(&opt_visible_item)
//@rewrite item_module . clone ( ) =>> vx_clone_opt(&item_module)
//@rewrite item . clone ( ) =>> vx_clone(&item)
impl SyntaxNode {
    #[verifier::external_body] pub fn vx_clone(&self) -> (r: SyntaxNode) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn kind(&self) -> (r: SyntaxKind) ensures r == kind_of(self@) { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<SyntaxNode>) ensures match r { Some(p) => parent_of(self@) == Some(p@), None => parent_of(self@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn is_msl_only_item(&self) -> (r: bool) ensures r == is_msl_item(self@) { unimplemented!() }
    #[verifier::external_body] pub fn containing_module(&self) -> (r: Option<Module>) ensures nd(r) == module_around(self@) { unimplemented!() }
    #[verifier::external_body] pub fn containing_script(&self) -> (r: Option<Script>) ensures nd(r) == script_around(self@) { unimplemented!() }
    pub fn in_file(self, f: FileId) -> (r: InFile<SyntaxNode>) ensures r.file_id == f, r.value == self { InFile { file_id: f, value: self } }
}
/// `is_msl_context`: the innermost of these around it that says so
pub open spec fn msl_from(s: Seq<Nd>, k: int) -> bool decreases s.len() - k {
    if k < 0 || k >= s.len() { false } else if kind_of(s[k]) == MODULE || kind_of(s[k]) == FUN || kind_of(s[k]) == STRUCT || kind_of(s[k]) == ENUM { false } else if is_msl_item(s[k]) { true } else { msl_from(s, k + 1) }
}
pub open spec fn in_msl(n: Nd) -> bool { msl_from(ancestors_of(n), 0) }
impl SyntaxElement {
    pub fn to_syntax_element(&self) -> (r: &SyntaxElement) ensures r@ == self@ { self }
    #[verifier::external_body] pub fn ancestors(&self) -> (r: Vec<SyntaxNode>) ensures r@.len() == ancestors_of(self@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == ancestors_of(self@)[i] { unimplemented!() }
    #[verifier::external_body] pub fn containing_module(&self) -> (r: Option<Module>) ensures nd(r) == module_around(self@) { unimplemented!() }
    #[verifier::external_body] pub fn containing_script(&self) -> (r: Option<Script>) ensures nd(r) == script_around(self@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_attr_item(&self) -> (r: Option<AttrItem>) ensures nd(r) == attr_item_around(self@) { unimplemented!() }
    #[verifier::external_body] pub fn loc_node(&self) -> (r: SyntaxNode) ensures r@ == node_at(self@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_as_path(&self) -> (r: Option<Path>) ensures nd(r) == if is_path(self@) { Some(self@) } else { None } { unimplemented!() }
//@fn crates/syntax/src/ast/node_ext/syntax_element.rs SyntaxElementExt::is_msl_context
//@ret r
//@spec
    ensures r == in_msl(self@)
//@loop 0 iter it
    invariant it.seq().len() == ancestors_of(self@).len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])@ == ancestors_of(self@)[i], msl_from(ancestors_of(self@), it.index@ as int) == in_msl(self@),
//@end
}
//@rewrite . ancestor_strict :: < AttrItem > ( ) =>> .vx_attr_item()
//@prewrite context . as_node ( ) . and_then ( | it | it . cast :: < ast :: Path > ( ) ) =>> context.vx_as_path()
//@rewrite . root_parent_of_type :: < UseSpeck > ( ) =>> .vx_use_speck()
//@rewrite . to_ast :: < NamedElement > ( db ) =>> .vx_named(db)
//@rewrite impl Into < SyntaxElement > =>> SyntaxElement
//@prewrite context . map ( | it | it . into ( ) ) . unpack ( ) =>> context.unpack()
impl Path {
    #[verifier::external_body] pub fn root_path(&self) -> (r: Path) ensures r.syntax@ == root_path_of(self.syntax@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_use_speck(&self) -> (r: Option<UseSpeck>) ensures nd(r) == use_speck_around(self.syntax@) { unimplemented!() }
    pub fn opt_in(self, f: FileId) -> (r: InFile<Path>) ensures r.file_id == f, r.value == self { InFile { file_id: f, value: self } }
}
impl AnyHasVisibility { #[verifier::external_body] pub fn cast(n: SyntaxNode) -> (r: Option<AnyHasVisibility>) ensures nd(r) == if can_have_vis(n@) { Some(n@) } else { None } { unimplemented!() } }
impl Fun { #[verifier::external_body] pub fn cast(n: SyntaxNode) -> (r: Option<Fun>) ensures nd(r) == if is_fun(n@) { Some(n@) } else { None } { unimplemented!() }
    #[verifier::external_body] pub fn is_entry(&self) -> (r: bool) ensures r == is_entry_fun(self.syntax@) { unimplemented!() } }
impl Module { #[verifier::external_body] pub fn is_builtins(&self) -> (r: bool) ensures r == is_builtins_module(self.syntax@) { unimplemented!() }
    #[verifier::external_body] pub fn friend_decls(&self) -> (r: Vec<Friend>) ensures r@.len() == friend_decls_of(self.syntax@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).syntax@ == friend_decls_of(self.syntax@)[i] { unimplemented!() } }
impl Friend { #[verifier::external_body] pub fn path(&self) -> (r: Option<Path>) ensures nd(r) == friend_path(self.syntax@) { unimplemented!() } }
impl NamedElement { pub fn in_file(self, f: FileId) -> (r: InFile<NamedElement>) ensures r.file_id == f, r.value == self { InFile { file_id: f, value: self } } }
pub trait VxOptInFile { spec fn p(&self) -> Option<Nd>; fn opt_in_file(self, f: FileId) -> (r: Option<InFile<Path>>) ensures match r { Some(x) => x.file_id == f && self.p() == Some(x.value.syntax@), None => self.p() is None }; }
impl VxOptInFile for Option<Path> { open spec fn p(&self) -> Option<Nd> { nd(*self) } fn opt_in_file(self, f: FileId) -> Option<InFile<Path>> { match self { Some(p) => Some(InFile { file_id: f, value: p }), None => None } } }
/// trusted: the resolution of the path of a friend declaration
#[verifier::external_body] pub fn vx_resolve_module(db: &VxDb, p: InFile<Path>) -> (r: Option<InFile<Module>>) ensures match r { Some(m) => module_named(p.file_id, p.value.syntax@) == Some(m.value.syntax@), None => module_named(p.file_id, p.value.syntax@) is None } { unimplemented!() }
//@rewrite nameres :: resolve_no_inf_cast :: < Module > =>> vx_resolve_module
pub trait VxOption<T> { spec fn o(self) -> Option<T>; fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) requires self.o() matches Some(t) ==> f.requires((t,)) ensures match self.o() { Some(t) => f.ensures((t,), r), None => !r }; }
impl<T> VxOption<T> for Option<T> { open spec fn o(self) -> Option<T> { self } fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { match self { Some(t) => f(t), None => false } } }
//@rewrite . is_some_and =>> .vx_is_some_and
// ================= V01: what an item says of itself
//@item crates/syntax/src/ast/visibility.rs VisLevel derive(Clone, Copy, PartialEq, Eq, Structural)
//@item crates/syntax/src/ast/visibility.rs Vis derive(Clone, Copy, PartialEq, Eq, Structural)
impl VisibilityModifier {
    #[verifier::external_body] pub fn public_token(&self) -> (r: Option<SyntaxToken>) ensures r is Some == has_word(self.syntax@, "public"@) { unimplemented!() }
    #[verifier::external_body] pub fn l_paren_token(&self) -> (r: Option<SyntaxToken>) ensures r is Some == has_word(self.syntax@, "("@) { unimplemented!() }
    #[verifier::external_body] pub fn script_token(&self) -> (r: Option<SyntaxToken>) ensures r is Some == has_word(self.syntax@, "script"@) { unimplemented!() }
    #[verifier::external_body] pub fn friend_token(&self) -> (r: Option<SyntaxToken>) ensures r is Some == has_word(self.syntax@, "friend"@) { unimplemented!() }
    #[verifier::external_body] pub fn package_token(&self) -> (r: Option<SyntaxToken>) ensures r is Some == has_word(self.syntax@, "package"@) { unimplemented!() }
//@fn crates/syntax/src/ast/node_ext/visibility.rs VisibilityModifier::is_public
//@ret r
//@spec
    ensures r == (has_word(self.syntax@, "public"@) && !has_word(self.syntax@, "("@))
//@end
//@fn crates/syntax/src/ast/node_ext/visibility.rs VisibilityModifier::is_public_script
//@ret r
//@spec
    ensures r == (has_word(self.syntax@, "public"@) && has_word(self.syntax@, "("@) && has_word(self.syntax@, "script"@))
//@end
//@fn crates/syntax/src/ast/node_ext/visibility.rs VisibilityModifier::is_friend
//@ret r
//@spec
    ensures r == (!(has_word(self.syntax@, "public"@) && !has_word(self.syntax@, "("@)) && has_word(self.syntax@, "friend"@))
//@end
//@fn crates/syntax/src/ast/node_ext/visibility.rs VisibilityModifier::is_package
//@ret r
//@spec
    ensures r == (!(has_word(self.syntax@, "public"@) && !has_word(self.syntax@, "("@)) && has_word(self.syntax@, "package"@))
//@end
//@fn crates/syntax/src/ast/node_ext/visibility.rs VisibilityModifier::is_public_friend
//@ret r
//@spec
    ensures r == (has_word(self.syntax@, "public"@) && has_word(self.syntax@, "("@) && has_word(self.syntax@, "friend"@))
//@end
//@fn crates/syntax/src/ast/node_ext/visibility.rs VisibilityModifier::is_public_package
//@ret r
//@spec
    ensures r == (has_word(self.syntax@, "public"@) && has_word(self.syntax@, "("@) && has_word(self.syntax@, "package"@))
//@end
}
/// no modifier: private. `public(friend)` or `friend`, `public(package)` or `package`; any other is public
pub open spec fn vis_said(m: Option<Nd>) -> Vis { match m {
    None => Vis::Private,
    Some(n) => { let plain = has_word(n, "public"@) && !has_word(n, "("@);
        if !plain && has_word(n, "friend"@) { Vis::Restricted(VisLevel::Friend) } else if !plain && has_word(n, "package"@) { Vis::Restricted(VisLevel::Package) } else { Vis::Public } } } }
#[verifier::external_body] pub fn vx_vis_modifier(n: &SyntaxNode) -> (r: Option<VisibilityModifier>) ensures match r { Some(m) => vis_modifier_of(n@) == Some(m.syntax@), None => vis_modifier_of(n@) is None } { unimplemented!() }
//@rewrite support :: child :: < VisibilityModifier > =>> vx_vis_modifier
//@rewrite self . syntax ( ) . clone ( ) =>> self.syntax().vx_clone()
impl AnyHasVisibility {
//@fn crates/syntax/src/ast/visibility.rs HasVisibility::vis
//@ret r
//@spec
    ensures r == vis_said(vis_modifier_of(self.syntax@))
//@end
}
// ================= V01: for which builds an item is there
//@item crates/lang/src/item_scope.rs ItemScope derive(Clone, Copy, PartialEq, Eq, Structural)
impl ItemScope {
//@fn crates/lang/src/item_scope.rs ItemScope::is_test
//@ret r
//@spec
    ensures r == (self == ItemScope::Test)
//@end
//@fn crates/lang/src/item_scope.rs ItemScope::shrink_scope
//@ret r
//@spec
    ensures r == if self == ItemScope::Main { adjustment_scope } else { self }
//@end
}
//@item crates/lang/src/nameres/namespaces.rs Ns derive(Clone, Copy, PartialEq, Eq, Structural)
/// up to four of them
#[derive(Clone, Copy)] pub struct NsSet { pub a: Ns, pub b: Ns, pub c: Ns, pub d: Ns }
impl NsSet { pub open spec fn holds(self, n: Ns) -> bool { n == self.a || n == self.b || n == self.c || n == self.d }
    pub fn contains(&self, n: Ns) -> (r: bool) ensures r == self.holds(n) { n == self.a || n == self.b || n == self.c || n == self.d } }
//@rewrite enum_set ! ( $a :: $b | $c :: $d | $e :: $f | $g :: $h ) =>> NsSet { a: $a::$b, b: $c::$d, c: $e::$f, d: $g::$h }
//@rewrite enum_set ! ( $a :: $b | $c :: $d | $e :: $f ) =>> NsSet { a: $a::$b, b: $c::$d, c: $e::$f, d: $e::$f }
//@rewrite enum_set ! ( $a :: $b | $c :: $d ) =>> NsSet { a: $a::$b, b: $c::$d, c: $c::$d, d: $c::$d }
//@rewrite enum_set ! ( $a :: $b ) =>> NsSet { a: $a::$b, b: $a::$b, c: $a::$b, d: $a::$b }
//@item crates/lang/src/nameres/namespaces.rs ITEM_TYPE_NS
#[verifier::external_body] pub struct SyntaxLoc { _p: u8 }
pub uninterp spec fn loc_of(f: FileId, n: Nd) -> SyntaxLoc;
impl SyntaxLoc {
    #[verifier::external_body] pub fn from_file_syntax_node(n: &InFile<SyntaxNode>) -> (r: SyntaxLoc) ensures r == loc_of(n.file_id, n.value@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_named(&self, db: &VxDb) -> (r: Option<InFile<NamedElement>>) ensures match r { Some(x) => item_at(*self) == Some((x.file_id, x.value.syntax@)), None => item_at(*self) is None } { unimplemented!() }
}
impl InFile<NamedElement> { #[verifier::external_body] pub fn loc(&self) -> (r: SyntaxLoc) ensures r == loc_of(self.file_id, self.value.syntax@) { unimplemented!() } }
/// what a walk over the tree of a file meets
pub ghost enum Ev { In(Nd), Out(Nd), Tok }
pub uninterp spec fn walk_of(f: FileId) -> Seq<Ev>;
/// the place of a node in its file: what a location and the table of scopes name it by
pub type Ptr = int;
pub uninterp spec fn ptr_of(n: Nd) -> Ptr;
pub uninterp spec fn loc_file(l: SyntaxLoc) -> FileId;
pub uninterp spec fn loc_ptr(l: SyntaxLoc) -> Ptr;
/// names of the attributes on a node, and whether it can have any
pub uninterp spec fn attr_names(n: Nd) -> Set<Seq<char>>;
pub uninterp spec fn can_have_attrs(n: Nd) -> bool;
/// the scope that a node itself says: specs are for verification, and `#[test_only]`, `#[test]`, `#[verify_only]`
pub open spec fn own_scope(n: Nd) -> ItemScope {
    let k = kind_of(n);
    if k == SCHEMA || k == SPEC_FUN || k == SPEC_INLINE_FUN || k == ITEM_SPEC || k == MODULE_SPEC || k == SPEC_BLOCK_EXPR || k == LEMMA { ItemScope::Verify }
    else if !can_have_attrs(n) { ItemScope::Main }
    else if attr_names(n).contains("test_only"@) || attr_names(n).contains("test"@) { ItemScope::Test }
    else if attr_names(n).contains("verify_only"@) { ItemScope::Verify } else { ItemScope::Main }
}
/// what is open after `k` steps of the walk, from the outside in
pub open spec fn open_after(w: Seq<Ev>, k: int) -> Seq<Nd> decreases k {
    if k <= 0 { seq![] } else { match w[k - 1] { Ev::In(n) => open_after(w, k - 1).push(n), Ev::Out(n) => open_after(w, k - 1).drop_last(), Ev::Tok => open_after(w, k - 1) } }
}
/// a walk leaves what it entered last: trusted, of the tree
pub open spec fn nested(w: Seq<Ev>) -> bool { forall|k: int| 0 <= k < w.len() ==> (#[trigger] w[k] matches Ev::Out(n) ==> open_after(w, k).len() > 0 && open_after(w, k).last() == n) }
/// the innermost of these that says a scope decides
pub open spec fn scope_among(c: Seq<Nd>) -> ItemScope decreases c.len() { if c.len() == 0 { ItemScope::Main } else if own_scope(c.last()) != ItemScope::Main { own_scope(c.last()) } else { scope_among(c.drop_last()) } }
pub open spec fn scopes_after(w: Seq<Ev>, k: int) -> Map<Ptr, ItemScope> decreases k {
    if k <= 0 { Map::empty() } else { match w[k - 1] { Ev::In(n) => scopes_after(w, k - 1).insert(ptr_of(n), scope_among(open_after(w, k - 1).push(n))), _ => scopes_after(w, k - 1) } }
}
pub open spec fn file_scopes(f: FileId) -> Map<Ptr, ItemScope> { scopes_after(walk_of(f), walk_of(f).len() as int) }
/// every place of a file has the scope of the innermost thing around it, itself included, that says one
pub open spec fn scope_of_loc(l: SyntaxLoc) -> ItemScope { if file_scopes(loc_file(l)).contains_key(loc_ptr(l)) { file_scopes(loc_file(l))[loc_ptr(l)] } else { ItemScope::Main } }
/// V01: for nodes that have a place of their own, it is as one would have it
pub proof fn each_node_has_its_scope(w: Seq<Ev>, k: int, j: int)
    requires 0 <= j < k <= w.len(), w[j] is In, forall|a: int, b: int| 0 <= a < w.len() && 0 <= b < w.len() && a != b && (#[trigger] w[a]) is In && (#[trigger] w[b]) is In ==> ptr_of(w[a]->In_0) != ptr_of(w[b]->In_0)
    ensures scopes_after(w, k).contains_key(ptr_of(w[j]->In_0)), scopes_after(w, k)[ptr_of(w[j]->In_0)] == scope_among(open_after(w, j + 1))
    decreases k
{ if k > j + 1 { each_node_has_its_scope(w, k - 1, j); if w[k - 1] is In { assert(ptr_of(w[k - 1]->In_0) != ptr_of(w[j]->In_0)); } } }
/// the scoped ones of those open, as the walk keeps them
pub open spec fn scoped(c: Seq<Nd>) -> Seq<Nd> decreases c.len() { if c.len() == 0 { seq![] } else if own_scope(c.last()) != ItemScope::Main { scoped(c.drop_last()).push(c.last()) } else { scoped(c.drop_last()) } }
pub proof fn scoped_last(c: Seq<Nd>) ensures scope_among(c) == (if scoped(c).len() == 0 { ItemScope::Main } else { own_scope(scoped(c).last()) }), forall|i: int| 0 <= i < scoped(c).len() ==> own_scope(#[trigger] scoped(c)[i]) != ItemScope::Main decreases c.len() { if c.len() > 0 { scoped_last(c.drop_last()); } }
pub proof fn scoped_push(c: Seq<Nd>, n: Nd) ensures scoped(c.push(n)) == (if own_scope(n) != ItemScope::Main { scoped(c).push(n) } else { scoped(c) }), scope_among(c.push(n)) == (if own_scope(n) != ItemScope::Main { own_scope(n) } else { scope_among(c) }) { assert(c.push(n).drop_last() =~= c); }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct FileIdInput { _p: u8 }
impl FileIdInput { pub uninterp spec fn file(self) -> FileId; }
impl FileId { #[verifier::external_body] pub fn intern(self, db: &VxDb) -> (r: FileIdInput) ensures r.file() == self { unimplemented!() } }
#[verifier::external_body] pub struct SyntaxNodePtr { _p: u8 }
impl View for SyntaxNodePtr { type V = Ptr; uninterp spec fn view(&self) -> Ptr; }
impl SyntaxNodePtr { #[verifier::external_body] pub fn new(n: &SyntaxNode) -> (r: SyntaxNodePtr) ensures r@ == ptr_of(n@) { unimplemented!() } }
impl SyntaxLoc {
    #[verifier::external_body] pub fn file_id(&self) -> (r: FileId) ensures r == loc_file(*self) { unimplemented!() }
    #[verifier::external_body] pub fn syntax_ptr(&self) -> (r: SyntaxNodePtr) ensures r@ == loc_ptr(*self) { unimplemented!() }
}
#[verifier::external_body] pub struct ScopeMap { _p: u8 }
impl View for ScopeMap { type V = Map<Ptr, ItemScope>; uninterp spec fn view(&self) -> Map<Ptr, ItemScope>; }
impl ScopeMap {
    #[verifier::external_body] pub fn new() -> (r: ScopeMap) ensures r@ == Map::<Ptr, ItemScope>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, p: SyntaxNodePtr, s: ItemScope) ensures final(self)@ == old(self)@.insert(p@, s) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, p: &SyntaxNodePtr) -> (r: Option<&ItemScope>) ensures match r { Some(x) => self@.contains_key(p@) && self@[p@] == *x, None => !self@.contains_key(p@) } { unimplemented!() }
}
pub enum NodeOrToken { Node(SyntaxNode), Token(SyntaxToken) }
pub enum WalkEvent { Enter(NodeOrToken), Leave(NodeOrToken) }
pub open spec fn ev(e: WalkEvent) -> Ev { match e { WalkEvent::Enter(NodeOrToken::Node(n)) => Ev::In(n@), WalkEvent::Leave(NodeOrToken::Node(n)) => Ev::Out(n@), _ => Ev::Tok } }
/// trusted: `source_db::parse(db, file).tree().syntax().preorder_with_tokens()`, a nested walk over the whole tree
#[verifier::external_body] pub fn vx_walk(db: &VxDb, f: FileIdInput) -> (r: Vec<WalkEvent>) ensures r@.len() == walk_of(f.file()).len(), forall|i: int| 0 <= i < r@.len() ==> ev(#[trigger] r@[i]) == walk_of(f.file())[i], nested(walk_of(f.file())) { unimplemented!() }
//@rewrite source_db :: parse ( db , file_id ) . tree ( ) =>> vx_walk(db, file_id)
//@rewrite file . syntax ( ) . preorder_with_tokens ( ) =>> file
//@rewrite HashMap :: new ( ) =>> ScopeMap::new()
//@rewrite HashMap < SyntaxNodePtr , ItemScope > =>> ScopeMap
//@rewrite vec ! [ ] =>> Vec::<(SyntaxNode, ItemScope)>::new()
//@prewrite scope_nodes . last ( ) . map ( | ( _ , it ) | $$b ) =>> scope_nodes.last().map(|vxp| { let it = &vxp.1; $b })
//@rewrite node . clone ( ) =>> node.vx_clone()
#[verifier::external_body] pub struct NameSet { _p: u8 }
impl View for NameSet { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
impl NameSet {
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Set::<Seq<char>>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, s: &str) -> (r: bool) ensures r == self@.contains(s@) { unimplemented!() }
}
pub struct AnyHasAttrs { pub syntax: SyntaxNode }
impl VxAst for AnyHasAttrs { open spec fn nd(&self) -> Nd { self.syntax@ } fn syntax(&self) -> &SyntaxNode { &self.syntax } }
impl AnyHasAttrs {
    #[verifier::external_body] pub fn cast(n: SyntaxNode) -> (r: Option<AnyHasAttrs>) ensures nd(r) == if can_have_attrs(n@) { Some(n@) } else { None } { unimplemented!() }
    /// trusted: the texts of the paths of its attributes
    #[verifier::external_body] pub fn vx_attr_names(&self) -> (r: NameSet) ensures r@ == attr_names(self.syntax@) { unimplemented!() }
}
//@prewrite attrs_owner . attr_items ( ) . filter_map ( | it | it . path_text ( ) ) . collect :: < HashSet < _ >> ( ) =>> attrs_owner.vx_attr_names()
//@rewrite impl HasAttrs =>> AnyHasAttrs
//@fn crates/lang/src/item_scope.rs item_scope_from_attributes
//@ret r
//@spec
    ensures r == if attr_names(attrs_owner.syntax@).contains("test_only"@) || attr_names(attrs_owner.syntax@).contains("test"@) { Some(ItemScope::Test) } else if attr_names(attrs_owner.syntax@).contains("verify_only"@) { Some(ItemScope::Verify) } else { None }
//@end
//@fn crates/lang/src/item_scope.rs node_item_scope
//@ret r
//@spec
    ensures r == own_scope(node@)
//@end
//@fn crates/lang/src/item_scope.rs item_scopes
//@attr #[verifier::loop_isolation(false)]
//@ret r
//@spec
    ensures r@ == file_scopes(file_id.file())
//@closure 0
    |vxp: &(SyntaxNode, ItemScope)| -> (o: ItemScope) ensures o == vxp.1
//@loop 0 iter it
    invariant it.seq().len() == walk_of(file_id.file()).len(), forall|i: int| 0 <= i < it.seq().len() ==> ev(#[trigger] it.seq()[i]) == walk_of(file_id.file())[i], nested(walk_of(file_id.file())),
        map@ == scopes_after(walk_of(file_id.file()), it.index@ as int),
        scope_nodes@.len() == scoped(open_after(walk_of(file_id.file()), it.index@ as int)).len(),
        forall|i: int| 0 <= i < scope_nodes@.len() ==> (#[trigger] scope_nodes@[i]).0@ == scoped(open_after(walk_of(file_id.file()), it.index@ as int))[i] && scope_nodes@[i].1 == own_scope(scope_nodes@[i].0@),
//@in loop 0 begin
    let ghost w = walk_of(file_id.file()); let ghost k = it.index@ as int;
    proof { assert(it.seq()[k] == event); assert(ev(event) == w[k]); scoped_last(open_after(w, k)); if w[k] is In { scoped_push(open_after(w, k), w[k]->In_0); } }
//@end
//@rewrite item_scope :: item_scopes =>> item_scopes
//@fn crates/lang/src/hir_db.rs item_scope
//@ret r
//@spec
    ensures r == scope_of_loc(syntax_loc)
//@end
//@rewrite hir_db :: item_scope =>> item_scope
//@item crates/lang/src/nameres/scope.rs ScopeEntry derive()
//@item crates/lang/src/nameres/is_visible.rs ItemInvisibleReason derive()
// ================= V01
pub struct Seen { pub file: FileId, pub item: Nd, pub at: FileId, pub from: Nd, pub entry: ScopeEntry }
/// the scope of the item, as the entry narrows it
pub open spec fn item_scope_of(s: Seen) -> ItemScope { let o = scope_of_loc(loc_of(s.file, s.item)); match s.entry.scope_adjustment { Some(a) => if o == ItemScope::Main { a } else { o }, None => o } }
pub open spec fn context_scope(s: Seen) -> ItemScope { scope_of_loc(loc_of(s.at, node_at(s.from))) }
pub open spec fn said(s: Seen) -> Option<Vis> { if can_have_vis(s.item) { Some(vis_said(vis_modifier_of(s.item))) } else { None } }
/// in a `use`: modules, structs and enums, whatever is not private, items for specs, and constants in tests
pub open spec fn importable(s: Seen) -> bool {
    let k = kind_of(s.item);
    is_path(s.from) && use_speck_around(s.from) is Some && (k == MODULE || k == STRUCT || k == ENUM || (said(s) is Some && said(s) != Some(Vis::Private)) || is_msl_item(s.item) || (context_scope(s) == ItemScope::Test && s.entry.ns == Ns::NAME))
}
pub open spec fn builtin(s: Seen) -> bool { (kind_of(s.item) == FUN || kind_of(s.item) == CONST) && module_around(s.item) is Some && is_builtins_module(module_around(s.item)->0) }
pub open spec fn wrong_scope(s: Seen) -> Option<ItemScope> { if item_scope_of(s) != ItemScope::Main && item_scope_of(s) != context_scope(s) { Some(item_scope_of(s)) } else if is_msl_item(s.item) { Some(ItemScope::Verify) } else { None } }
pub open spec fn same_place(s: Seen) -> bool { (module_around(s.item) is Some && module_around(s.item) == module_around(s.from)) || (script_around(s.from) is Some && script_around(s.item) == script_around(s.from)) }
pub open spec fn type_position(s: Seen) -> bool { (s.entry.ns == Ns::TYPE || s.entry.ns == Ns::TUPLE_STRUCT || s.entry.ns == Ns::ENUM) && is_path(s.from) && parent_of(root_path_of(s.from)) is Some && kind_of(parent_of(root_path_of(s.from))->0) == PATH_TYPE }
pub open spec fn friend_upto(f: FileId, m: Nd, other: Nd, k: int) -> bool { exists|i: int| 0 <= i < k && friend_path(#[trigger] friend_decls_of(m)[i]) is Some && module_named(f, friend_path(friend_decls_of(m)[i])->0) == Some(other) }
pub open spec fn is_friend_of(s: Seen) -> bool { module_around(s.item) is Some && module_around(s.from) is Some && friend_upto(s.file, module_around(s.item)->0, module_around(s.from)->0, friend_decls_of(module_around(s.item)->0).len() as int) }
/// by its modifier
pub open spec fn opened(s: Seen) -> bool { match said(s) { None => true, Some(Vis::Public) => true, Some(Vis::Private) => false, Some(Vis::Restricted(VisLevel::Friend)) => is_friend_of(s), Some(Vis::Restricted(VisLevel::Package)) => package_of(s.at) == package_of(s.file) } }
pub open spec fn visible(s: Seen) -> bool { importable(s) || builtin(s) || (wrong_scope(s) is None && (same_place(s) || type_position(s) || opened(s))) }
pub open spec fn everything_visible(from: Nd) -> bool { in_msl(from) || attr_item_around(from) is Some }
pub open spec fn reason(s: Seen) -> Option<ItemInvisibleReason> { if visible(s) { None } else if wrong_scope(s) is Some { Some(ItemInvisibleReason::WrongItemScope { item_scope: wrong_scope(s)->0 }) } else { Some(ItemInvisibleReason::Private { vis: said(s)->0 }) } }
//@fn crates/lang/src/nameres/is_visible.rs is_visible_in_context
//@attr #[verifier::loop_isolation(false)]
//@ret r
//@spec
    ensures r == if everything_visible(context.value@) { None } else { match item_at(scope_entry.node_loc) { None => Some(ItemInvisibleReason::Unknown), Some(i) => reason(Seen { file: i.0, item: i.1, at: context.file_id, from: context.value@, entry: *scope_entry }) } }
//@closure 0
    |m: Module| -> (o: bool) ensures o == is_builtins_module(m.syntax@)
//@closure 1
    |it: Script| -> (o: bool) ensures o == (context_script.syntax@ == it.syntax@)
//@closure 2
    |path: Path| -> (o: Path) ensures o.syntax@ == root_path_of(path.syntax@)
//@closure 3
    |it: Path| -> (o: Option<SyntaxNode>) ensures match o { Some(x) => parent_of(it.syntax@) == Some(x@), None => parent_of(it.syntax@) is None }
//@closure 4
    |visible_item: AnyHasVisibility| -> (o: Vis) ensures o == vis_said(vis_modifier_of(visible_item.syntax@))
//@closure 5
    |path: InFile<Path>| -> (o: Option<InFile<Module>>) ensures match o { Some(m) => module_named(path.file_id, path.value.syntax@) == Some(m.value.syntax@), None => module_named(path.file_id, path.value.syntax@) is None }
//@loop 0 iter it
    invariant it.seq().len() == friend_decls_of(item_module.syntax@).len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).syntax@ == friend_decls_of(item_module.syntax@)[i],
        !friend_upto(item_file_id, item_module.syntax@, context_module.syntax@, it.index@ as int),
//@in loop 0 begin
    let ghost vk = it.index@ as int;
    proof { let d = friend_decls_of(item_module.syntax@)[vk]; assert(it.seq()[vk].syntax@ == d); assert(friend_decl.syntax@ == d); assert(friend_path(d) is Some && module_named(item_file_id, friend_path(d)->0) == Some(context_module.syntax@) ==> friend_upto(item_file_id, item_module.syntax@, context_module.syntax@, friend_decls_of(item_module.syntax@).len() as int)); }
//@end
}
