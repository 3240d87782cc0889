//! Oracle for visibility and the builds items belong to, against the real functions of /repo, over generated trees.
#![allow(dead_code, unused, non_local_definitions, non_camel_case_types)]
use native::*;
use std::rc::Rc;
mod code { include!("../../../build/gen/visibility.rs"); }

pub mod syntax {
    use std::rc::Rc;
    pub use crate::code::kinds::SyntaxKind; use SyntaxKind::*;
    pub use crate::code::syntax_element::SyntaxElementExt;
    #[derive(Clone, Debug, Default)] pub struct Data { pub parent: Option<usize>, pub kids: Vec<usize>, pub attrs: Vec<String>, pub words: Vec<&'static str>, pub entry: bool, pub builtins: bool, pub target: Option<(usize, usize)>, pub kind: Option<SyntaxKind>, pub token: bool }
    pub struct Tree { pub d: Vec<Data>, pub file: usize }
    #[derive(Clone)] pub struct SyntaxNode { pub t: Rc<Tree>, pub i: usize }
    impl PartialEq for SyntaxNode { fn eq(&self, o: &Self) -> bool { Rc::ptr_eq(&self.t, &o.t) && self.i == o.i } }
    impl Eq for SyntaxNode {}
    impl std::hash::Hash for SyntaxNode { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.i.hash(h) } }
    impl std::fmt::Debug for SyntaxNode { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}:{}:{:?}", self.t.file, self.i, self.kind()) } }
    pub type SyntaxToken = Tok;
    #[derive(Clone, PartialEq, Eq, Hash, Debug)] pub struct Tok(pub SyntaxNode);
    impl Tok { pub fn parent(&self) -> Option<SyntaxNode> { self.0.parent() } pub fn kind(&self) -> SyntaxKind { self.0.kind() } }
    #[derive(Clone, PartialEq, Eq, Hash, Debug)] pub enum NodeOrToken<N, T> { Node(N), Token(T) }
    pub type SyntaxElement = NodeOrToken<SyntaxNode, SyntaxToken>;
    #[derive(Clone, Debug)] pub enum WalkEvent<T> { Enter(T), Leave(T) }
    impl From<SyntaxNode> for SyntaxElement { fn from(n: SyntaxNode) -> Self { NodeOrToken::Node(n) } }
    impl SyntaxElement {
        pub fn kind(&self) -> SyntaxKind { match self { NodeOrToken::Node(n) => n.kind(), NodeOrToken::Token(t) => t.kind() } }
        pub fn parent(&self) -> Option<SyntaxNode> { match self { NodeOrToken::Node(n) => n.parent(), NodeOrToken::Token(t) => t.parent() } }
        pub fn as_node(&self) -> Option<&SyntaxNode> { match self { NodeOrToken::Node(n) => Some(n), _ => None } }
        pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode> + use<> { let first = match self { NodeOrToken::Node(n) => Some(n.clone()), NodeOrToken::Token(t) => t.parent() }; std::iter::successors(first, |n| n.parent()) }
    }
    impl SyntaxNode {
        pub fn d(&self) -> &Data { &self.t.d[self.i] }
        pub fn kind(&self) -> SyntaxKind { self.d().kind.unwrap() }
        pub fn at(&self, i: usize) -> SyntaxNode { SyntaxNode { t: self.t.clone(), i } }
        pub fn parent(&self) -> Option<SyntaxNode> { self.d().parent.map(|p| self.at(p)) }
        pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode> + use<> { std::iter::successors(Some(self.clone()), |n| n.parent()) }
        pub fn children(&self) -> impl Iterator<Item = SyntaxNode> + use<> { self.d().kids.iter().filter(|k| !self.t.d[**k].token).map(|k| self.at(*k)).collect::<Vec<_>>().into_iter() }
        pub fn descendants(&self) -> impl Iterator<Item = SyntaxNode> + use<> { let v: Vec<SyntaxNode> = self.preorder_with_tokens().filter_map(|e| match e { WalkEvent::Enter(NodeOrToken::Node(n)) => Some(n), _ => None }).collect(); v.into_iter() }
        pub fn preorder_with_tokens(&self) -> impl Iterator<Item = WalkEvent<SyntaxElement>> + use<> { let mut v = vec![]; self.walk(&mut v); v.into_iter() }
        pub fn preorder(&self) -> impl Iterator<Item = WalkEvent<SyntaxNode>> + use<> { let v: Vec<_> = self.preorder_with_tokens().filter_map(|e| match e { WalkEvent::Enter(NodeOrToken::Node(n)) => Some(WalkEvent::Enter(n)), WalkEvent::Leave(NodeOrToken::Node(n)) => Some(WalkEvent::Leave(n)), _ => None }).collect(); v.into_iter() }
        fn walk(&self, v: &mut Vec<WalkEvent<SyntaxElement>>) {
            let me: SyntaxElement = if self.d().token { NodeOrToken::Token(Tok(self.clone())) } else { NodeOrToken::Node(self.clone()) };
            v.push(WalkEvent::Enter(me.clone()));
            for k in &self.d().kids { self.at(*k).walk(v); }
            v.push(WalkEvent::Leave(me));
        }
    }
    impl SyntaxElementExt for SyntaxNode { fn to_syntax_element(&self) -> SyntaxElement { NodeOrToken::Node(self.clone()) } }
    impl SyntaxElementExt for SyntaxElement { fn to_syntax_element(&self) -> SyntaxElement { self.clone() } }
    pub trait SyntaxNodeExt { fn node(&self) -> &SyntaxNode; fn cast<T: AstNode>(&self) -> Option<T> { T::cast(self.node().clone()) } fn ancestor_or_self<T: AstNode>(&self) -> Option<T> { self.node().ancestors().find_map(T::cast) } }
    impl SyntaxNodeExt for SyntaxNode { fn node(&self) -> &SyntaxNode { self } }
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)] pub struct SyntaxNodePtr(pub SyntaxKind, pub usize);
    impl SyntaxNodePtr { pub fn new(n: &SyntaxNode) -> Self { SyntaxNodePtr(n.kind(), n.i) } }
    pub trait AstNode: Sized + Clone { fn can_cast(k: SyntaxKind) -> bool; fn cast(n: SyntaxNode) -> Option<Self>; fn syntax(&self) -> &SyntaxNode; }
    pub mod files {
        use super::AstNode;
        #[derive(Clone, PartialEq, Debug)] pub struct InFile<T> { pub file_id: crate::base_db::FileId, pub value: T }
        impl<T> InFile<T> {
            pub fn new(file_id: crate::base_db::FileId, value: T) -> Self { InFile { file_id, value } }
            pub fn unpack(self) -> (crate::base_db::FileId, T) { (self.file_id, self.value) }
            pub fn map<U>(self, f: impl FnOnce(T) -> U) -> InFile<U> { InFile { file_id: self.file_id, value: f(self.value) } }
            pub fn and_then<U>(self, f: impl FnOnce(T) -> Option<U>) -> Option<InFile<U>> { let f_ = self.file_id; f(self.value).map(|v| InFile::new(f_, v)) }
        }
        pub trait InFileExt: Sized { fn in_file(self, f: crate::base_db::FileId) -> InFile<Self> { InFile::new(f, self) } }
        impl<T> InFileExt for T {}
        pub trait OptionInFileExt { type N; fn opt_in_file(self, f: crate::base_db::FileId) -> Option<InFile<Self::N>>; }
        impl<T: AstNode> OptionInFileExt for Option<T> { type N = T; fn opt_in_file(self, f: crate::base_db::FileId) -> Option<InFile<T>> { self.map(|v| InFile::new(f, v)) } }
    }
    pub use files::*;
    pub mod ast {
        use super::*;
        pub use crate::code::visibility;
        pub use crate::code::visibility::HasVisibility;
        pub mod support { use super::super::*; pub fn child<T: AstNode>(n: &SyntaxNode) -> Option<T> { n.children().find_map(T::cast) } pub fn children<T: AstNode>(n: &SyntaxNode) -> impl Iterator<Item = T> + use<T> { n.children().filter_map(T::cast) } }
        pub mod node_ext { pub mod syntax_element { pub use crate::code::syntax_element::SyntaxElementExt; } pub mod syntax_node { pub use crate::syntax::SyntaxNodeExt; } }
        macro_rules! asts { ($($n:ident = $($k:ident)|+;)*) => { $(
            #[derive(Clone, PartialEq, Eq, Hash, Debug)] pub struct $n { pub syntax: SyntaxNode }
            impl AstNode for $n { fn can_cast(k: SyntaxKind) -> bool { matches!(k, $($k)|+) } fn cast(n: SyntaxNode) -> Option<Self> { Self::can_cast(n.kind()).then_some($n { syntax: n }) } fn syntax(&self) -> &SyntaxNode { &self.syntax } }
        )* } }
        asts! {
            Module = MODULE; Script = SCRIPT; Fun = FUN; Friend = FRIEND; Path = PATH; UseSpeck = USE_SPECK; AttrItem = ATTR_ITEM; VisibilityModifier = VISIBILITY_MODIFIER; SourceFile = SOURCE_FILE;
            AnyMslOnly = ITEM_SPEC | LEMMA | MODULE_SPEC | SCHEMA | SCHEMA_FIELD | SPEC_BLOCK_EXPR | SPEC_FUN | SPEC_INLINE_FUN;
            AnyHasVisibility = CONST | ENUM | FUN | LEMMA | SPEC_FUN | SPEC_INLINE_FUN | STRUCT;
            AnyHasAttrs = CONST | ENUM | FRIEND | FUN | GLOBAL_VARIABLE_DECL | ITEM_SPEC | LEMMA | MODULE | MODULE_SPEC | NAMED_FIELD | SCHEMA | SCHEMA_FIELD | SCRIPT | SPEC_FUN | SPEC_INLINE_FUN | STRUCT | TUPLE_FIELD | USE_STMT | VARIANT;
            NamedElement = CONST | ENUM | FUN | GLOBAL_VARIABLE_DECL | IDENT_PAT | LEMMA | MODULE | NAMED_FIELD | SCHEMA | SPEC_FUN | SPEC_INLINE_FUN | STRUCT | TYPE_PARAM | VARIANT;
        }
        impl HasVisibility for AnyHasVisibility {}
        impl HasVisibility for Fun {}
        impl Module { pub fn is_builtins(&self) -> bool { self.syntax.d().builtins } pub fn items(&self) -> Vec<Item> { self.syntax.children().filter(|n| n.kind() != ATTR).map(Item).collect() } }
        pub struct Item(SyntaxNode);
        impl Item { pub fn friend(self) -> Option<Friend> { Friend::cast(self.0) } }
        impl Fun { pub fn is_entry(&self) -> bool { self.syntax.d().entry } }
        impl Friend { pub fn path(&self) -> Option<Path> { support::child(&self.syntax) } }
        impl Path {
            pub fn root_path(&self) -> Path { match self.syntax.parent().and_then(Path::cast) { Some(p) => p.root_path(), None => self.clone() } }
            pub fn root_parent_of_type<T: AstNode>(&self) -> Option<T> { self.root_path().syntax.parent().and_then(T::cast) }
            pub fn root_parent_kind(&self) -> Option<SyntaxKind> { self.root_path().syntax.parent().map(|n| n.kind()) }
        }
        impl VisibilityModifier {
            fn t(&self, w: &str) -> Option<SyntaxToken> { self.syntax.d().words.contains(&w).then(|| Tok(self.syntax.clone())) }
            pub fn public_token(&self) -> Option<SyntaxToken> { self.t("public") }
            pub fn l_paren_token(&self) -> Option<SyntaxToken> { self.t("(") }
            pub fn r_paren_token(&self) -> Option<SyntaxToken> { self.t(")") }
            pub fn script_token(&self) -> Option<SyntaxToken> { self.t("script") }
            pub fn friend_token(&self) -> Option<SyntaxToken> { self.t("friend") }
            pub fn package_token(&self) -> Option<SyntaxToken> { self.t("package") }
        }
        pub struct AttrText(String);
        impl AttrText { pub fn path_text(&self) -> Option<String> { (self.0 != "").then(|| self.0.clone()) } }
        pub trait HasAttrs: AstNode { fn attr_items(&self) -> impl Iterator<Item = AttrText> { self.syntax().d().attrs.clone().into_iter().map(AttrText) } fn has_attr_item(&self, t: &str) -> bool { self.syntax().d().attrs.iter().any(|a| a == t) } }
        impl HasAttrs for AnyHasAttrs {}
    }
}
pub mod base_db {
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)] pub struct FileId(pub usize);
    pub mod inputs { #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)] pub struct FileIdInput(pub usize); }
    pub use inputs::FileIdInput;
    impl FileId { pub fn intern(self, db: &dyn SourceDatabase) -> FileIdInput { FileIdInput(self.0) } }
    pub trait SourceDatabase { fn file_package_id(&self, f: FileId) -> usize; fn root(&self, f: usize) -> crate::syntax::SyntaxNode; }
    pub mod source_db {
        use super::*; use crate::syntax::{SyntaxNode, ast::SourceFile, AstNode};
        pub struct Parse(SourceFile);
        impl Parse { pub fn tree(self) -> SourceFile { self.0 } }
        pub fn parse(db: &dyn SourceDatabase, f: FileIdInput) -> Parse { Parse(SourceFile::cast(db.root(f.0)).unwrap()) }
    }
}
pub mod vfs { pub use crate::base_db::FileId; }
use base_db::*;
pub mod loc {
    use crate::base_db::*; use crate::syntax::*;
    #[derive(Clone, PartialEq, Eq, Debug, Hash)] pub struct SyntaxLoc { pub f: FileId, pub p: SyntaxNodePtr }
    impl SyntaxLoc {
        pub fn from_file_syntax_node(n: &InFile<SyntaxNode>) -> Self { SyntaxLoc { f: n.file_id, p: SyntaxNodePtr::new(&n.value) } }
        pub fn file_id(&self) -> FileId { self.f }
        pub fn syntax_ptr(&self) -> SyntaxNodePtr { self.p }
        pub fn kind(&self) -> SyntaxKind { self.p.0 }
        pub fn to_ast<T: AstNode>(&self, db: &dyn SourceDatabase) -> Option<InFile<T>> { if self.p.1 == usize::MAX { return None } T::cast(db.root(self.f.0).at(self.p.1)).map(|v| InFile::new(self.f, v)) }
    }
    pub trait SyntaxLocFileExt { fn loc(&self) -> SyntaxLoc; }
    impl<T: AstNode> SyntaxLocFileExt for InFile<T> { fn loc(&self) -> SyntaxLoc { SyntaxLoc { f: self.file_id, p: SyntaxNodePtr::new(self.value.syntax()) } } }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)] pub enum Ns { NAME, FUNCTION, TYPE, TUPLE_STRUCT, ENUM, ENUM_VARIANT, SCHEMA, MODULE, LEMMA }
pub struct NsSet(pub &'static [Ns]);
impl NsSet { pub fn contains(&self, n: Ns) -> bool { self.0.contains(&n) } }
pub use code::ns::ITEM_TYPE_NS;
#[derive(Clone, Debug, PartialEq, Eq, Hash)] pub struct ScopeEntry { pub name: String, pub node_loc: loc::SyntaxLoc, pub ns: Ns, pub scope_adjustment: Option<code::item_scope::ItemScope> }
pub mod nameres {
    use crate::base_db::*; use crate::syntax::*;
    pub fn resolve_no_inf_cast<T: AstNode>(db: &dyn SourceDatabase, p: InFile<ast::Path>) -> Option<InFile<T>> { let (f, i) = p.value.syntax.d().target?; T::cast(db.root(f).at(i)).map(|v| InFile::new(FileId(f), v)) }
}

use syntax::{Data, Tree, SyntaxNode, SyntaxKind, SyntaxKind::*, NodeOrToken, SyntaxElement, SyntaxNodePtr};
use code::item_scope::ItemScope;
use code::is_visible::{ItemInvisibleReason as Why, is_visible_in_context};
use code::visibility::{Vis, VisLevel};
struct World { files: Vec<Rc<Tree>>, package: Vec<usize> }
impl SourceDatabase for World { fn file_package_id(&self, f: FileId) -> usize { self.package[f.0] } fn root(&self, f: usize) -> SyntaxNode { SyntaxNode { t: self.files[f].clone(), i: 0 } } }
const ATTRS: [&str; 9] = ["test_only", "test", "verify_only", "view", "expected_failure", "", "testonly", "verify", "persistent"];
fn add(d: &mut Vec<Data>, parent: usize, kind: SyntaxKind) -> usize { let i = d.len(); d.push(Data { parent: Some(parent), kind: Some(kind), ..Default::default() }); d[parent].kids.push(i); i }
fn tok(d: &mut Vec<Data>, parent: usize, kind: SyntaxKind) { let i = add(d, parent, kind); d[i].token = true; }
fn attrs(r: &mut Rng, d: &mut Vec<Data>, n: usize) {
    if !r.chance(1, 3) { return }
    for _ in 0..1 + r.below(2) {
        let a = *r.pick(&ATTRS); d[n].attrs.push(a.into());
        let x = add(d, n, ATTR); let y = add(d, x, ATTR_ITEM); let p = add(d, y, PATH); tok(d, p, IDENT);
    }
}
fn path(r: &mut Rng, d: &mut Vec<Data>, parent: usize, kind: SyntaxKind) { let e = add(d, parent, kind); let mut p = add(d, e, PATH); for _ in 0..r.below(3) { tok(d, p, IDENT); p = add(d, p, PATH); } tok(d, p, IDENT); }
fn body(r: &mut Rng, d: &mut Vec<Data>, parent: usize, depth: usize) {
    let b = add(d, parent, BLOCK_EXPR);
    for _ in 0..1 + r.below(3) {
        match r.below(6) { 0 => path(r, d, b, PATH_TYPE), 1 if depth > 0 => { let s = add(d, b, SPEC_BLOCK_EXPR); body(r, d, s, depth - 1) } 2 => { let s = add(d, b, USE_STMT); attrs(r, d, s); path(r, d, s, USE_SPECK) } 3 => { let p = add(d, b, IDENT_PAT); tok(d, p, IDENT) } 4 if depth > 0 => body(r, d, b, depth - 1), _ => path(r, d, b, PATH_EXPR) }
    }
}
fn item(r: &mut Rng, d: &mut Vec<Data>, parent: usize, in_module: bool) {
    let k = *r.pick(&[FUN, FUN, FUN, CONST, STRUCT, ENUM, SCHEMA, SPEC_FUN, SPEC_INLINE_FUN, ITEM_SPEC, MODULE_SPEC, USE_STMT, FRIEND, LEMMA]);
    if k == FRIEND && !in_module { return }
    let n = add(d, parent, k);
    attrs(r, d, n);
    match k {
        USE_STMT => path(r, d, n, USE_SPECK),
        FRIEND => { if r.chance(7, 8) { let p = add(d, n, PATH); tok(d, p, IDENT); } }
        _ => {
            if matches!(k, FUN | CONST | STRUCT | ENUM | SPEC_FUN | LEMMA) && r.chance(2, 3) {
                let v = add(d, n, VISIBILITY_MODIFIER);
                d[v].words = r.pick(&[vec!["public"], vec!["public", "(", "friend", ")"], vec!["public", "(", "package", ")"], vec!["public", "(", "script", ")"], vec!["friend"], vec!["package"], vec!["public", "("], vec!["friend"], vec!["package"]]).clone();
            }
            if k == FUN { d[n].entry = r.chance(1, 4) }
            if matches!(k, FUN | SPEC_FUN | ITEM_SPEC | MODULE_SPEC | SCHEMA | SPEC_INLINE_FUN | LEMMA) { body(r, d, n, 2) }
            if k == STRUCT || k == ENUM { let f = add(d, n, if k == ENUM { VARIANT } else { NAMED_FIELD }); attrs(r, d, f); path(r, d, f, PATH_TYPE) }
        }
    }
}
fn world(r: &mut Rng) -> World {
    let nf = 1 + r.below(3);
    let mut all: Vec<Vec<Data>> = vec![];
    for _ in 0..nf {
        let mut d = vec![Data { kind: Some(SOURCE_FILE), ..Default::default() }];
        for _ in 0..1 + r.below(3) {
            if r.chance(1, 5) { let s = add(&mut d, 0, SCRIPT); attrs(r, &mut d, s); for _ in 0..1 + r.below(3) { item(r, &mut d, s, false) } }
            else { let m = add(&mut d, 0, MODULE); attrs(r, &mut d, m); d[m].builtins = r.chance(1, 8); for _ in 0..2 + r.below(4) { item(r, &mut d, m, true) } }
        }
        all.push(d);
    }
    let mut mods: Vec<(usize, usize)> = vec![];
    for (f, d) in all.iter().enumerate() { for (i, x) in d.iter().enumerate() { if x.kind == Some(MODULE) { mods.push((f, i)) } } }
    for d in all.iter_mut() { for i in 0..d.len() { if d[i].kind == Some(PATH) && d[d[i].parent.unwrap()].kind == Some(FRIEND) { d[i].target = if mods.is_empty() || r.chance(1, 6) { None } else { Some(*r.pick(&mods)) } } } }
    let package = (0..nf).map(|_| r.below(2)).collect();
    World { files: all.into_iter().enumerate().map(|(file, d)| Rc::new(Tree { d, file })).collect(), package }
}
// ---- the rules, said again
type At = (usize, usize);
fn up(w: &World, n: At, k: SyntaxKind) -> Option<At> { let d = &w.files[n.0].d; let mut i = d[n.1].parent; while let Some(p) = i { if d[p].kind == Some(k) { return Some((n.0, p)) } i = d[p].parent } None }
fn spec_kind(k: SyntaxKind) -> bool { matches!(k, ITEM_SPEC | LEMMA | MODULE_SPEC | SCHEMA | SCHEMA_FIELD | SPEC_BLOCK_EXPR | SPEC_FUN | SPEC_INLINE_FUN) }
fn own(x: &Data) -> ItemScope {
    let k = x.kind.unwrap();
    if spec_kind(k) && k != SCHEMA_FIELD { return ItemScope::Verify }
    if !<syntax::ast::AnyHasAttrs as syntax::AstNode>::can_cast(k) { return ItemScope::Main }
    if x.attrs.iter().any(|a| a == "test_only" || a == "test") { return ItemScope::Test }
    if x.attrs.iter().any(|a| a == "verify_only") { return ItemScope::Verify }
    ItemScope::Main
}
fn scope(w: &World, n: At) -> ItemScope { let d = &w.files[n.0].d; let mut i = Some(n.1); while let Some(p) = i { let o = own(&d[p]); if o != ItemScope::Main { return o } i = d[p].parent } ItemScope::Main }
fn said(w: &World, n: At) -> Option<Vis> {
    let d = &w.files[n.0].d; let x = &d[n.1];
    if !<syntax::ast::AnyHasVisibility as syntax::AstNode>::can_cast(x.kind.unwrap()) { return None }
    let m = x.kids.iter().find(|k| d[**k].kind == Some(VISIBILITY_MODIFIER));
    Some(match m { None => Vis::Private, Some(v) => match d[*v].words.join("").as_str() { "public(friend)" | "friend" => Vis::Restricted(VisLevel::Friend), "public(package)" | "package" => Vis::Restricted(VisLevel::Package), _ => Vis::Public } })
}
fn expected(w: &World, e: &ScopeEntry, at: At) -> Option<Why> {
    let d = &w.files[at.0].d; let here = &d[at.1];
    let mut i = if here.token { here.parent } else { Some(at.1) };
    while let Some(p) = i { let k = d[p].kind.unwrap(); if matches!(k, MODULE | FUN | STRUCT | ENUM) { break } if spec_kind(k) { return None } i = d[p].parent }
    // strictly above, counting a token's own node as the first
    let above = |k: SyntaxKind| -> Option<At> { if here.token { up(w, (at.0, here.parent.unwrap()), k) } else { up(w, at, k) } };
    if above(ATTR_ITEM).is_some() { return None }
    if e.node_loc.p.1 == usize::MAX { return Some(Why::Unknown) }
    let it: At = (e.node_loc.f.0, e.node_loc.p.1);
    let k = w.files[it.0].d[it.1].kind.unwrap();
    if !<syntax::ast::NamedElement as syntax::AstNode>::can_cast(k) { return Some(Why::Unknown) }
    let ctx_scope = scope(w, if here.token { (at.0, here.parent.unwrap()) } else { at });
    let root_parent = (!here.token && here.kind == Some(PATH)).then(|| { let mut p = at.1; while d[p].kind == Some(PATH) { p = d[p].parent.unwrap() } d[p].kind.unwrap() });
    let vis = said(w, it);
    if root_parent == Some(USE_SPECK) && (matches!(k, MODULE | STRUCT | ENUM) || vis.is_some_and(|v| v != Vis::Private) || spec_kind(k) || (ctx_scope == ItemScope::Test && e.ns == Ns::NAME)) { return None }
    let im = up(w, it, MODULE); let cm = above(MODULE);
    if matches!(k, FUN | CONST) && im.is_some_and(|m| w.files[m.0].d[m.1].builtins) { return None }
    let mut s = scope(w, it); if s == ItemScope::Main { if let Some(a) = e.scope_adjustment { s = a } }
    if s != ItemScope::Main && s != ctx_scope { return Some(Why::WrongItemScope { item_scope: s }) }
    if spec_kind(k) { return Some(Why::WrongItemScope { item_scope: ItemScope::Verify }) }
    if im.is_some() && im == cm { return None }
    let cs = above(SCRIPT); if cs.is_some() && cs == up(w, it, SCRIPT) { return None }
    if matches!(e.ns, Ns::TYPE | Ns::TUPLE_STRUCT | Ns::ENUM) && root_parent == Some(PATH_TYPE) { return None }
    let v = vis.unwrap_or(Vis::Public);
    let ok = match v {
        Vis::Public => true, Vis::Private => false,
        Vis::Restricted(VisLevel::Package) => w.package[at.0] == w.package[it.0],
        Vis::Restricted(VisLevel::Friend) => match (im, cm) { (Some(m), Some(c)) => { let d = &w.files[m.0].d; d[m.1].kids.iter().filter(|k| d[**k].kind == Some(FRIEND)).any(|k| d[*k].kids.iter().any(|p| d[*p].kind == Some(PATH) && d[*p].target == Some(c))) } _ => false },
    };
    if ok { None } else { Some(Why::Private { vis: v }) }
}
fn show(w: &World) -> String {
    fn go(d: &[Data], i: usize, o: &mut String) { let x = &d[i]; if x.token { return } o.push_str(&format!("{}{:?}", i, x.kind.unwrap())); if !x.attrs.is_empty() { o.push_str(&format!("#{:?}", x.attrs)) } if !x.words.is_empty() { o.push_str(&format!("[{}]", x.words.join(""))) } if let Some(t) = x.target { o.push_str(&format!("->{t:?}")) } if x.builtins { o.push_str("=builtins") } if !x.kids.is_empty() { o.push('('); for k in &x.kids { go(d, *k, o); o.push(' ') } o.push(')') } }
    w.files.iter().enumerate().map(|(f, t)| { let mut o = String::new(); go(&t.d, 0, &mut o); format!("file {f} of package {}: {o}", w.package[f]) }).collect::<Vec<_>>().join("; ")
}
fn run_case(seed: u64) -> Result<(), String> {
    let mut r = Rng(seed);
    let w = world(&mut r);
    for f in 0..w.files.len() {
        for i in 0..w.files[f].d.len() {
            if w.files[f].d[i].token { continue }
            let n = w.root(f).at(i);
            let g = code::hir_db::item_scope(&w, loc::SyntaxLoc { f: FileId(f), p: SyntaxNodePtr::new(&n) });
            if g != scope(&w, (f, i)) { return Err(format!("item_scope of node {f}:{i} {:?}: {g:?} instead of {:?} in {}", n.kind(), scope(&w, (f, i)), show(&w))) }
        }
    }
    for _ in 0..60 {
        let f = r.below(w.files.len());
        let named: Vec<usize> = (0..w.files[f].d.len()).filter(|i| matches!(w.files[f].d[*i].kind.unwrap(), FUN | CONST | STRUCT | ENUM | SCHEMA | SPEC_FUN | SPEC_INLINE_FUN | MODULE | VARIANT | NAMED_FIELD | IDENT_PAT | LEMMA)).collect();
        if named.is_empty() { continue }
        let i = *r.pick(&named);
        let k = w.files[f].d[i].kind.unwrap();
        let ns = match k { MODULE => Ns::MODULE, FUN | SPEC_FUN | SPEC_INLINE_FUN => Ns::FUNCTION, STRUCT => if r.chance(1, 3) { Ns::TUPLE_STRUCT } else { Ns::TYPE }, ENUM => Ns::ENUM, VARIANT => Ns::ENUM_VARIANT, SCHEMA => Ns::SCHEMA, LEMMA => Ns::LEMMA, _ => Ns::NAME };
        let p = if r.chance(1, 20) { SyntaxNodePtr(k, usize::MAX) } else if r.chance(1, 20) { SyntaxNodePtr(BLOCK_EXPR, 0) } else { SyntaxNodePtr(k, i) };
        let e = ScopeEntry { name: "x".into(), node_loc: loc::SyntaxLoc { f: FileId(f), p }, ns, scope_adjustment: *r.pick(&[None, None, Some(ItemScope::Main), Some(ItemScope::Test), Some(ItemScope::Verify)]) };
        let cf = r.below(w.files.len());
        let paths: Vec<usize> = (1..w.files[cf].d.len()).filter(|i| w.files[cf].d[*i].kind == Some(PATH)).collect();
        let ci = if paths.is_empty() || r.chance(1, 6) { if w.files[cf].d.len() < 2 { continue } 1 + r.below(w.files[cf].d.len() - 1) } else { *r.pick(&paths) };
        let n = w.root(cf).at(ci);
        let el: SyntaxElement = if n.d().token { NodeOrToken::Token(syntax::Tok(n.clone())) } else { NodeOrToken::Node(n.clone()) };
        let g = is_visible_in_context(&w, &e, syntax::InFile::new(FileId(cf), el));
        let want = expected(&w, &e, (cf, ci));
        if g != want { return Err(format!("item {f}:{i} {k:?} (ns {ns:?}, adjusted {:?}) from {cf}:{ci} {:?}: {g:?} instead of {want:?} in {}", e.scope_adjustment, n.kind(), show(&w))) }
    }
    Ok(())
}
fn main() {
    let mut run = Run::from_args();
    let seed = run.rng.next();
    let a: Vec<String> = std::env::args().collect();
    if let Some(k) = a.iter().position(|x| x == "--only").and_then(|i| a.get(i + 1)).cloned() {
        let s: u64 = k.parse().unwrap();
        run.case(&k, true, || run_case(s));
        return run.finish();
    }
    let mut n = 0u64;
    while run.time_left() { let s = seed.wrapping_add(n); run.case(&s.to_string(), true, || run_case(s)); n += 1; }
    run.finish()
}
