#![feature(const_destruct)]
#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
//@include ../common/prelude.rs
fn main() {}

// ---- what the types mention of the rest of the program: opaque
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct SyntaxLoc { pub id: u64 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct FileId { pub raw: u32 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct VxDb { pub id: u64 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct SyntaxNodeOrToken { pub id: u64 }
#[verifier::external_body]
pub struct TyVarIndex { }
#[verifier::external_body]
pub struct TypeError { }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Ability { Key, Store, Copy, Drop }

#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T> [Option::<T>::or](a: Option<T>, b: Option<T>) -> (r: Option<T>) where T: std::marker::Destruct ensures r == (if a is Some { a } else { b });
// ---- hash maps: a finite map, keys compared by `==` (trusted)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: std::marker::PhantomData<K>, v: std::marker::PhantomData<V> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r == (if self@.dom().contains(*k) { Some(&self@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, o: Self) ensures final(self)@ == old(self)@.union_prefer_right(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_entries(self) -> (r: Vec<(K, V)>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains((#[trigger] r@[i]).0) && self@[r@[i].0] == r@[i].1,
            forall|k: K| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: Vec<&V>)
        ensures forall|i: int| 0 <= i < r@.len() ==> vx_is_value(self@, *#[trigger] r@[i]), forall|k: K| #[trigger] self@.dom().contains(k) ==> vx_listed(r@, self@[k]) { unimplemented!() }
}
pub open spec fn vx_is_value<K, V>(m: Map<K, V>, v: V) -> bool { exists|k: K| #[trigger] m.dom().contains(k) && m[k] == v }
pub open spec fn vx_listed<V>(s: Seq<&V>, v: V) -> bool { exists|i: int| 0 <= i < s.len() && *#[trigger] s[i] == v }
/// trusted: a map is bigger than what it holds
pub broadcast axiom fn axiom_map_smaller<K, V>(m: HashMap<K, V>, k: K) requires m@.dom().contains(k) ensures #[trigger] (decreases_to!(m => m@[k]));

// ---- the types, as in the source
//@item crates/lang/src/types/ty/integer.rs IntegerKind derive(Clone, Copy, PartialEq, Eq, Structural)
//@item crates/lang/src/types/ty/reference.rs Mutability derive(Clone, Copy, PartialEq, Eq, Structural)
//@item crates/lang/src/types/ty/ty_var.rs TyVarKind derive(Clone, Copy)
//@item crates/lang/src/types/ty/ty_var.rs TyVar derive(Clone, Copy)
//@item crates/lang/src/types/ty/ty_var.rs TyIntVar derive(Clone, Copy)
//@item crates/lang/src/types/ty/ty_var.rs TyInfer derive(Clone, Copy)

//@item crates/lang/src/types/substitution.rs Substitution
//@item crates/lang/src/types/ty/type_param.rs TyTypeParameter derive(Clone, Copy, PartialEq, Eq, Structural)
//@item crates/lang/src/types/ty/range_like.rs TySequence
//@item crates/lang/src/types/ty/reference.rs TyReference
//@item crates/lang/src/types/ty/adt.rs TyAdt
//@item crates/lang/src/types/ty/schema.rs TySchema
//@item crates/lang/src/types/ty/tuple.rs TyTuple
//@item crates/lang/src/types/ty/ty_callable.rs TyCallableKind
//@item crates/lang/src/types/ty/ty_callable.rs TyCallable
//@item crates/lang/src/types/ty.rs Ty
/// trusted: the derived `==`, `clone` and `to_owned` of the types
macro_rules! vx_plain { ($($t:ident)*) => { vx_eq!($($t)*); verus! { $(
impl $t {
    #[verifier::external_body] pub fn clone(&self) -> (r: $t) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn to_owned(&self) -> (r: $t) ensures r == *self { unimplemented!() }
}
)* } } }
macro_rules! vx_eq { ($($t:ident)*) => { verus! { $(
impl PartialEqSpecImpl for $t { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &$t) -> bool { *self == *o } }
impl PartialEq for $t { #[verifier::external_body] fn eq(&self, o: &$t) -> bool { unimplemented!() } }
)* } } }
vx_plain!(TyVar TyIntVar TyInfer);
vx_plain!(Ty TyAdt TySchema TyCallable TyReference TyTuple Substitution);
/// `.deref().to_owned()` of a box
#[verifier::external_body]
pub fn vx_unbox(b: &Box<Ty>) -> (r: Ty) ensures r == **b { unimplemented!() }
#[verifier::external_body]
pub fn vx_clone_vec(v: &Vec<Ty>) -> (r: Vec<Ty>) ensures r == *v { unimplemented!() }
#[verifier::external_body]
pub fn vx_clone_opt(v: &Option<Ty>) -> (r: Option<Ty>) ensures r == *v { unimplemented!() }
/// the keys of a table
pub trait VxKey: PartialEq + Sized {
    proof fn ax(a: Self, b: Self) ensures Self::obeys_eq_spec(), a.eq_spec(&b) == (a == b);
    fn clone(&self) -> (r: Self) ensures r == *self;
    fn to_owned(&self) -> (r: Self) ensures r == *self;
}
impl VxKey for TyVar { proof fn ax(a: TyVar, b: TyVar) { } fn clone(&self) -> (r: TyVar) { *self } fn to_owned(&self) -> (r: TyVar) { *self } }
impl VxKey for TyIntVar { proof fn ax(a: TyIntVar, b: TyIntVar) { } fn clone(&self) -> (r: TyIntVar) { *self } fn to_owned(&self) -> (r: TyIntVar) { *self } }
pub broadcast proof fn lemma_key_obeys<V: VxKey>() ensures #[trigger] V::obeys_eq_spec() { V::ax(arbitrary(), arbitrary()); }
pub broadcast proof fn lemma_key_eq<V: VxKey>(a: V, b: V) ensures V::obeys_eq_spec(), #[trigger] a.eq_spec(&b) == (a == b) { V::ax(a, b); }

// ================= specification: the parts of a type
pub enum Key { Sub(TyTypeParameter), At(int), Of }
pub open spec fn has_kid(t: Ty, k: Key) -> bool {
    match (t, k) {
        (Ty::Adt(a), Key::Sub(p)) => a.substitution.mapping@.dom().contains(p),
        (Ty::Adt(a), Key::At(i)) => 0 <= i < a.type_args@.len(),
        (Ty::Schema(a), Key::Sub(p)) => a.substitution.mapping@.dom().contains(p),
        (Ty::Schema(a), Key::At(i)) => 0 <= i < a.type_args@.len(),
        (Ty::Seq(_), Key::Of) => true,
        (Ty::Reference(_), Key::Of) => true,
        (Ty::Tuple(a), Key::At(i)) => 0 <= i < a.types@.len(),
        (Ty::Callable(c), Key::At(i)) => 0 <= i < c.param_types@.len(),
        (Ty::Callable(_), Key::Of) => true,
        (Ty::Callable(c), Key::Sub(p)) => match c.kind { TyCallableKind::Named(s, _) => s.mapping@.dom().contains(p), _ => false },
        _ => false,
    }
}
pub open spec fn kid(t: Ty, k: Key) -> Ty {
    match (t, k) {
        (Ty::Adt(a), Key::Sub(p)) => a.substitution.mapping@[p],
        (Ty::Adt(a), Key::At(i)) => a.type_args@[i],
        (Ty::Schema(a), Key::Sub(p)) => a.substitution.mapping@[p],
        (Ty::Schema(a), Key::At(i)) => a.type_args@[i],
        (Ty::Seq(TySequence::Vector(b)), Key::Of) => *b,
        (Ty::Seq(TySequence::Range(b)), Key::Of) => *b,
        (Ty::Reference(r), Key::Of) => *r.referenced,
        (Ty::Tuple(a), Key::At(i)) => a.types@[i],
        (Ty::Callable(c), Key::At(i)) => c.param_types@[i],
        (Ty::Callable(c), Key::Of) => *c.ret_type,
        (Ty::Callable(c), Key::Sub(p)) => match c.kind { TyCallableKind::Named(s, _) => s.mapping@[p], _ => t },
        _ => t,
    }
}
pub proof fn lemma_kid_smaller(t: Ty, k: Key) requires has_kid(t, k) ensures decreases_to!(t => kid(t, k)) {
    match (t, k) {
        (Ty::Adt(a), Key::Sub(p)) => { axiom_map_smaller(a.substitution.mapping, p); }
        (Ty::Schema(a), Key::Sub(p)) => { axiom_map_smaller(a.substitution.mapping, p); }
        (Ty::Callable(c), Key::Sub(p)) => { match c.kind { TyCallableKind::Named(s, _) => { axiom_map_smaller(s.mapping, p); } _ => {} } }
        _ => {}
    }
}
/// the two differ in nothing but their parts
pub open spec fn same_shape(a: Ty, b: Ty) -> bool {
    &&& forall|k: Key| has_kid(a, k) == #[trigger] has_kid(b, k)
    &&& match (a, b) {
        (Ty::Adt(x), Ty::Adt(y)) => x.adt_item_loc == y.adt_item_loc,
        (Ty::Schema(x), Ty::Schema(y)) => x.schema_loc == y.schema_loc,
        (Ty::Seq(TySequence::Vector(_)), Ty::Seq(TySequence::Vector(_))) => true,
        (Ty::Seq(TySequence::Range(_)), Ty::Seq(TySequence::Range(_))) => true,
        (Ty::Reference(x), Ty::Reference(y)) => x.mutability == y.mutability,
        (Ty::Tuple(x), Ty::Tuple(y)) => x.types@.len() == y.types@.len(),
        (Ty::Callable(x), Ty::Callable(y)) => x.param_types@.len() == y.param_types@.len() && match (x.kind, y.kind) {
            (TyCallableKind::Named(_, l), TyCallableKind::Named(_, m)) => l == m,
            (TyCallableKind::Lambda(l), TyCallableKind::Lambda(m)) => l == m,
            (TyCallableKind::Predicate(l), TyCallableKind::Predicate(m)) => l == m,
            _ => false,
        },
        (Ty::Adt(_) | Ty::Schema(_) | Ty::Seq(_) | Ty::Reference(_) | Ty::Tuple(_) | Ty::Callable(_), _) => false,
        _ => a == b,
    }
}
/// the variable stands somewhere in the type
pub open spec fn occurs(t: Ty, v: TyInfer) -> bool decreases t via occurs_dec {
    t == Ty::Infer(v) || exists|k: Key| has_kid(t, k) && occurs(#[trigger] kid(t, k), v)
}
#[via_fn]
proof fn occurs_dec(t: Ty, v: TyInfer) { assert forall|k: Key| has_kid(t, k) implies decreases_to!(t => kid(t, k)) by { lemma_kid_smaller(t, k); } }
/// the type variables of a type
pub open spec fn vars(t: Ty) -> spec_fn(TyVar) -> bool { |w: TyVar| occurs(t, TyInfer::Var(w)) }

// ================= specification: tables
//@rewrite Clone + Eq + Hash + Debug =>> VxKey
//@item crates/lang/src/types/unification.rs TableValue
#[verifier::reject_recursive_types(Var)]
//@item crates/lang/src/types/unification.rs UnificationTable
pub type Tab<Var> = Map<Var, TableValue<Var>>;
pub open spec fn link<Var>(m: Tab<Var>, v: Var) -> Option<Var> { if m.dom().contains(v) { match m[v] { TableValue::Var(w) => Some(w), _ => None } } else { None } }
pub open spec fn links_by<Var>(m: Tab<Var>, rank: spec_fn(Var) -> nat) -> bool { forall|v: Var| (#[trigger] link(m, v)) is Some ==> rank(link(m, v)->0) < rank(v) }
/// following the links of a table comes to an end
pub open spec fn links_ok<Var>(m: Tab<Var>) -> bool { exists|rank: spec_fn(Var) -> nat| links_by(m, rank) }
pub open spec fn link_rank<Var>(m: Tab<Var>) -> spec_fn(Var) -> nat { choose|rank: spec_fn(Var) -> nat| links_by(m, rank) }
/// the variable which stands for the class of `v`
pub open spec fn root<Var>(m: Tab<Var>, v: Var) -> Var decreases link_rank(m)(v) when links_ok(m) {
    match link(m, v) { Some(w) => if link_rank(m)(w) < link_rank(m)(v) { root(m, w) } else { v }, None => v }
}
/// what the class of `v` is known to be
pub open spec fn value<Var>(m: Tab<Var>, v: Var) -> Option<Ty> {
    let r = root(m, v);
    if m.dom().contains(r) { match m[r] { TableValue::Value(t) => t, _ => None } } else { None }
}
pub proof fn lemma_root<Var>(m: Tab<Var>, v: Var)
    requires links_ok(m)
    ensures link(m, root(m, v)) is None, root(m, root(m, v)) == root(m, v), value(m, root(m, v)) == value(m, v),
        link(m, v) is Some ==> root(m, v) == root(m, link(m, v)->0) && link_rank(m)(link(m, v)->0) < link_rank(m)(v),
        link(m, v) is None ==> root(m, v) == v,
    decreases link_rank(m)(v)
{
    assert(links_by(m, link_rank(m)));
    match link(m, v) { Some(w) => { lemma_root(m, w); } None => {} }
}
/// `a` (a root) now links to the root `b`, and the class is known to be `t`
pub proof fn lemma_merge<Var>(m: Tab<Var>, m2: Tab<Var>, a: Var, b: Var, t: Option<Ty>)
    requires links_ok(m), link(m, a) is None, link(m, b) is None, a != b, m2 == m.insert(a, TableValue::Var(b)).insert(b, TableValue::Value(t)),
    ensures links_ok(m2), forall|x: Var| #[trigger] root(m2, x) == if root(m, x) == a || root(m, x) == b { b } else { root(m, x) },
        forall|x: Var| #[trigger] value(m2, x) == if root(m, x) == a || root(m, x) == b { t } else { value(m, x) },
{
    let rk = link_rank(m);
    assert(links_by(m, rk));
    let rank2 = |x: Var| if root(m, x) == a { rk(x) + rk(b) + 1 } else { rk(x) };
    assert forall|v: Var| (#[trigger] link(m2, v)) is Some implies rank2(link(m2, v)->0) < rank2(v) by { let w = link(m2, v)->0;
        lemma_root(m, v); lemma_root(m, w); lemma_root(m, a); lemma_root(m, b);
        if v == a { } else { assert(link(m, v) == Some(w)); }
    }
    assert(links_by(m2, rank2));
    assert forall|x: Var| #[trigger] root(m2, x) == if root(m, x) == a || root(m, x) == b { b } else { root(m, x) } by { lemma_merge_in(m, m2, a, b, t, x); }
    assert forall|x: Var| #[trigger] value(m2, x) == if root(m, x) == a || root(m, x) == b { t } else { value(m, x) } by { lemma_merge_in(m, m2, a, b, t, x); lemma_root(m, x); }
}
proof fn lemma_merge_in<Var>(m: Tab<Var>, m2: Tab<Var>, a: Var, b: Var, t: Option<Ty>, x: Var)
    requires links_ok(m), links_ok(m2), link(m, a) is None, link(m, b) is None, a != b, m2 == m.insert(a, TableValue::Var(b)).insert(b, TableValue::Value(t)),
    ensures root(m2, x) == if root(m, x) == a || root(m, x) == b { b } else { root(m, x) },
    decreases link_rank(m)(x)
{
    assert(links_by(m, link_rank(m)));
    lemma_root(m, x); lemma_root(m2, x); lemma_root(m2, b); lemma_root(m2, a);
    if x == a || x == b { } else { match link(m, x) { Some(w) => { assert(link(m2, x) == Some(w)); lemma_merge_in(m, m2, a, b, t, w); } None => { assert(link(m2, x) is None); } } }
}
/// the root `a` is now known to be `t`
pub proof fn lemma_set<Var>(m: Tab<Var>, m2: Tab<Var>, a: Var, t: Option<Ty>)
    requires links_ok(m), link(m, a) is None, m2 == m.insert(a, TableValue::Value(t)),
    ensures links_ok(m2), forall|x: Var| #[trigger] root(m2, x) == root(m, x), forall|x: Var| #[trigger] value(m2, x) == if root(m, x) == a { t } else { value(m, x) },
{
    let rk = link_rank(m);
    assert(links_by(m, rk));
    assert forall|v: Var| (#[trigger] link(m2, v)) is Some implies rk(link(m2, v)->0) < rk(v) by { let w = link(m2, v)->0; assert(link(m, v) == Some(w)); }
    assert(links_by(m2, rk));
    assert forall|x: Var| #[trigger] root(m2, x) == root(m, x) by { lemma_set_in(m, m2, a, t, x); }
    assert forall|x: Var| #[trigger] value(m2, x) == if root(m, x) == a { t } else { value(m, x) } by { lemma_set_in(m, m2, a, t, x); lemma_root(m, x); }
}
proof fn lemma_set_in<Var>(m: Tab<Var>, m2: Tab<Var>, a: Var, t: Option<Ty>, x: Var)
    requires links_ok(m), links_ok(m2), link(m, a) is None, m2 == m.insert(a, TableValue::Value(t)),
    ensures root(m2, x) == root(m, x),
    decreases link_rank(m)(x)
{
    assert(links_by(m, link_rank(m)));
    lemma_root(m, x); lemma_root(m2, x);
    match link(m, x) { Some(w) => { assert(link(m2, x) == Some(w)); lemma_set_in(m, m2, a, t, w); } None => { assert(link(m2, x) is None); } }
}
/// one class now, known to be what either was; nothing else has changed
pub open spec fn merged<Var>(m: Tab<Var>, m2: Tab<Var>, a: Var, b: Var) -> bool {
    let (ra, rb) = (root(m, a), root(m, b));
    &&& root(m2, a) == root(m2, b)
    &&& root(m2, a) == ra || root(m2, a) == rb
    &&& forall|x: Var| #[trigger] root(m2, x) == if root(m, x) == ra || root(m, x) == rb { root(m2, a) } else { root(m, x) }
    &&& forall|x: Var| #[trigger] value(m2, x) == if root(m, x) == ra || root(m, x) == rb { if value(m, a) is Some { value(m, a) } else { value(m, b) } } else { value(m, x) }
}
pub open spec fn learned<Var>(m: Tab<Var>, m2: Tab<Var>, a: Var, t: Ty) -> bool {
    &&& forall|x: Var| #[trigger] root(m2, x) == root(m, x)
    &&& forall|x: Var| #[trigger] value(m2, x) == if root(m, x) == root(m, a) { Some(t) } else { value(m, x) }
}
impl<Var: VxKey> UnificationTable<Var> {
    pub open spec fn m(self) -> Tab<Var> { self.mapping@ }
    pub open spec fn wf(self) -> bool { links_ok(self.m()) }
//@rewrite panic ! ( $$a ) =>> vx_panic()
//@fn crates/lang/src/types/unification.rs UnificationTable::new
//@ret r
//@rewrite vec ! [ ] =>> Vec::new()
//@spec
    ensures r.wf(), r.m() == Tab::<Var>::empty(), r.snapshots@.len() == 0
//@in fn end
    assert(links_by(Tab::<Var>::empty(), |v: Var| 0nat));
//@end
//@fn crates/lang/src/types/unification.rs UnificationTable::unify_var_var
//@spec
    requires old(self).wf(), (value(old(self).m(), *left_var) is Some && value(old(self).m(), *right_var) is Some) ==> value(old(self).m(), *left_var) == value(old(self).m(), *right_var)
    ensures final(self).wf(), merged(old(self).m(), final(self).m(), *left_var, *right_var), final(self).snapshots == old(self).snapshots
//@in fn begin
    broadcast use lemma_key_eq, lemma_key_obeys;
    let ghost m0 = self.mapping@;
    proof { lemma_root(m0, *left_var); lemma_root(m0, *right_var); assert forall|x: Var| #[trigger] root(m0, x) == root(m0, *left_var) implies value(m0, x) == value(m0, *left_var) by {} assert forall|x: Var| #[trigger] root(m0, x) == root(m0, *right_var) implies value(m0, x) == value(m0, *right_var) by {} }
//@in fn end
    proof {
        let (ra, rb) = (root(m0, *left_var), root(m0, *right_var));
        let t = if value(m0, *left_var) is Some { value(m0, *left_var) } else { value(m0, *right_var) };
        if self.mapping@ =~= m0.insert(ra, TableValue::Var(rb)).insert(rb, TableValue::Value(t)) { lemma_merge(m0, self.mapping@, ra, rb, t); }
        if self.mapping@ =~= m0.insert(rb, TableValue::Var(ra)).insert(ra, TableValue::Value(t)) { lemma_merge(m0, self.mapping@, rb, ra, t); }
    }
//@end
//@fn crates/lang/src/types/unification.rs UnificationTable::unify_var_value
//@spec
    requires old(self).wf(), value(old(self).m(), *ty_var) is Some ==> value(old(self).m(), *ty_var) == Some(ty)
    ensures final(self).wf(), learned(old(self).m(), final(self).m(), *ty_var, ty), final(self).snapshots == old(self).snapshots
//@in fn begin
    let ghost m0 = self.mapping@;
    proof { lemma_root(m0, *ty_var); assert forall|x: Var| #[trigger] root(m0, x) == root(m0, *ty_var) implies value(m0, x) == value(m0, *ty_var) by {} }
//@in fn end
    proof { let r = root(m0, *ty_var); if self.mapping@ =~= m0.insert(r, TableValue::Value(Some(ty))) { lemma_set(m0, self.mapping@, r, Some(ty)); } }
//@end
//@fn crates/lang/src/types/unification.rs UnificationTable::resolve_to_root_var
//@ret r
//@spec
    requires self.wf()
    ensures r == root(self.m(), *var)
//@in fn begin
    let ghost var0 = *var;
//@loop 0
    invariant self.wf(), root(self.m(), *var) == root(self.m(), var0)
    ensures link(self.m(), *var) is None
    decreases link_rank(self.m())(*var)
//@in loop 0 begin
    proof { lemma_root(self.m(), *var); }
//@in fn end
    proof { lemma_root(self.m(), *var); }
//@end
//@fn crates/lang/src/types/unification.rs UnificationTable::resolve_to_ty_value
//@ret r
//@spec
    requires self.wf()
    ensures r == value(self.m(), *var)
//@rewrite? ty . to_owned ( ) =>> vx_clone_opt(ty)
//@closure 0
    |t_value: &TableValue<Var>| -> (r: Option<Ty>) ensures r == match *t_value { TableValue::Value(ty) => ty, TableValue::Var(_) => None }
//@end
//@fn crates/lang/src/types/unification.rs UnificationTable::snapshot
//@spec
    ensures final(self).mapping == old(self).mapping, final(self).snapshots@ == old(self).snapshots@.push(old(self).mapping)
//@end
//@fn crates/lang/src/types/unification.rs UnificationTable::rollback
//@spec
    requires old(self).snapshots@.len() > 0
    ensures final(self).mapping == old(self).snapshots@.last(), final(self).snapshots@ == old(self).snapshots@.drop_last()
//@end
}

// ================= specification: no type is part of itself
pub type VM = Tab<TyVar>;
pub type IM = Tab<TyIntVar>;
pub open spec fn sub(a: spec_fn(TyVar) -> bool, b: spec_fn(TyVar) -> bool) -> bool { forall|w: TyVar| #[trigger] a(w) ==> b(w) }
/// `rank` orders the classes of variables, `lv` sets of variables, such that what a class stands for mentions only smaller classes
pub open spec fn deep_by(m: VM, rank: spec_fn(TyVar) -> nat, lv: spec_fn(spec_fn(TyVar) -> bool) -> nat) -> bool {
    &&& forall|s: spec_fn(TyVar) -> bool, w: TyVar| #[trigger] s(w) ==> rank(root(m, w)) < lv(s)
    &&& forall|s: spec_fn(TyVar) -> bool, t: spec_fn(TyVar) -> bool| #[trigger] sub(s, t) ==> lv(s) <= lv(t)
    &&& forall|v: TyVar| (#[trigger] value(m, v)) is Some ==> lv(vars(value(m, v)->0)) <= rank(root(m, v))
}
pub open spec fn deep(m: VM) -> bool { exists|rank: spec_fn(TyVar) -> nat, lv: spec_fn(spec_fn(TyVar) -> bool) -> nat| deep_by(m, rank, lv) }
pub open spec fn ranks(m: VM) -> (spec_fn(TyVar) -> nat, spec_fn(spec_fn(TyVar) -> bool) -> nat) {
    choose|p: (spec_fn(TyVar) -> nat, spec_fn(spec_fn(TyVar) -> bool) -> nat)| deep_by(m, p.0, p.1)
}
/// how deep the resolution of a type goes
pub open spec fn level(m: VM, t: Ty) -> nat { ranks(m).1(vars(t)) }
pub proof fn lemma_ranks(m: VM) requires deep(m) ensures deep_by(m, ranks(m).0, ranks(m).1) {
    let (rank, lv) = choose|rank: spec_fn(TyVar) -> nat, lv: spec_fn(spec_fn(TyVar) -> bool) -> nat| deep_by(m, rank, lv);
    let p = (rank, lv); assert(deep_by(m, p.0, p.1));
}
pub proof fn lemma_occurs_kid(t: Ty, k: Key) requires has_kid(t, k) ensures sub(vars(kid(t, k)), vars(t)), forall|v: TyInfer| occurs(kid(t, k), v) ==> #[trigger] occurs(t, v) { }
/// what is found at the top of a type
pub open spec fn int_of(im: IM, i: TyIntVar) -> Ty { match value(im, i) { Some(t) => t, None => Ty::Infer(TyInfer::IntVar(i)) } }
pub open spec fn shallow(m: VM, im: IM, t: Ty) -> Ty {
    match t {
        Ty::Infer(TyInfer::IntVar(i)) => int_of(im, i),
        Ty::Infer(TyInfer::Var(v)) => match value(m, v) { None => t, Some(Ty::Infer(TyInfer::IntVar(i))) => int_of(im, i), Some(x) => x },
        _ => t,
    }
}
/// variables stand for types, integer variables for integer types
pub open spec fn plain(m: VM, im: IM) -> bool {
    &&& forall|v: TyVar| !((#[trigger] value(m, v)) matches Some(Ty::Infer(TyInfer::Var(_))))
    &&& forall|i: TyIntVar| (#[trigger] value(im, i)) is Some ==> value(im, i)->0 is Integer
}
pub open spec fn ok(m: VM, im: IM) -> bool { links_ok(m) && links_ok(im) && plain(m, im) && deep(m) }
pub proof fn lemma_shallow(m: VM, im: IM, t: Ty)
    requires ok(m, im)
    ensures
        shallow(m, im, t) matches Ty::Infer(TyInfer::Var(v)) ==> t == shallow(m, im, t) && value(m, v) is None,
        shallow(m, im, t) matches Ty::Infer(TyInfer::IntVar(i)) ==> value(im, i) is None,
        t is Infer && !(shallow(m, im, t) is Infer) ==> level(m, shallow(m, im, t)) <= level(m, t),
        t matches Ty::Infer(TyInfer::Var(_)) && shallow(m, im, t) != t ==> level(m, shallow(m, im, t)) < level(m, t),
{
    lemma_ranks(m);
    let s = shallow(m, im, t);
    match t {
        Ty::Infer(TyInfer::Var(v)) => {
            assert(vars(t)(v));
            if s is Infer { } else if s is Integer { assert(sub(vars(s), |w: TyVar| false)); if value(m, v) is Some { assert(sub(vars(s), vars(value(m, v)->0))); } }
            if value(m, v) is Some { let x = value(m, v)->0; if x matches Ty::Infer(TyInfer::IntVar(i)) { assert(forall|k: Key| !has_kid(s, k)); assert(sub(vars(s), vars(x))); } }
        }
        Ty::Infer(TyInfer::IntVar(i)) => { if s is Integer { assert(sub(vars(s), vars(t))); } }
        _ => {}
    }
}
/// every part of `t` is what it stands for in `t2`
pub open spec fn resolves(m: VM, im: IM, t: Ty, t2: Ty) -> bool
    decreases level(m, t), t when ok(m, im) via resolves_dec
{
    let s = shallow(m, im, t);
    same_shape(s, t2) && forall|k: Key| has_kid(s, k) ==> resolves(m, im, kid(s, k), #[trigger] kid(t2, k))
}
#[via_fn]
proof fn resolves_dec(m: VM, im: IM, t: Ty, t2: Ty) {
    let s = shallow(m, im, t);
    assert forall|k: Key| has_kid(s, k) implies level(m, kid(s, k)) < level(m, t) || (level(m, kid(s, k)) == level(m, t) && decreases_to!(t => kid(s, k))) by { lemma_part(m, im, t, k); }
}
pub proof fn lemma_part(m: VM, im: IM, t: Ty, k: Key)
    requires ok(m, im), has_kid(shallow(m, im, t), k)
    ensures ({ let s = shallow(m, im, t); level(m, kid(s, k)) < level(m, t) || (s == t && level(m, kid(s, k)) <= level(m, t) && decreases_to!(t => kid(s, k))) })
{
    let s = shallow(m, im, t);
    lemma_ranks(m); lemma_shallow(m, im, t); lemma_occurs_kid(s, k); lemma_kid_smaller(s, k);
}
/// from the class `r` one comes to the class `v`, in `n` steps
pub open spec fn reach(m: VM, n: nat, r: TyVar, v: TyVar) -> bool decreases n {
    r == v || (n > 0 && value(m, r) is Some && exists|w: TyVar| #[trigger] vars(value(m, r)->0)(w) && reach(m, (n - 1) as nat, root(m, w), v))
}
/// if a variable of `t` leads to the unknown class `v`, this shows in what `t` stands for
pub proof fn lemma_occurs_check(m: VM, im: IM, t: Ty, t2: Ty, n: nat, w: TyVar, v: TyVar)
    requires ok(m, im), resolves(m, im, t, t2), vars(t)(w), reach(m, n, root(m, w), v), value(m, v) is None
    ensures exists|u: TyVar| #[trigger] vars(t2)(u) && root(m, u) == v
    decreases n, t
{
    let s = shallow(m, im, t);
    if t is Infer {
        assert(forall|k: Key| !has_kid(t, k));
        assert(t == Ty::Infer(TyInfer::Var(w)));
        lemma_root(m, w);
        if value(m, w) is None {
            assert(same_shape(t, t2)); assert(t2 == t);
            assert(root(m, w) == v);
            assert(vars(t2)(w));
        } else {
            let x = value(m, w)->0;
            assert(root(m, w) != v);
            let y = choose|y: TyVar| #[trigger] vars(x)(y) && reach(m, (n - 1) as nat, root(m, y), v);
            assert(occurs(x, TyInfer::Var(y)));
            assert(x != Ty::Infer(TyInfer::Var(y)));
            assert(!(x is Infer)) by { if x is Infer { assert(forall|k: Key| !has_kid(x, k)); } }
            assert(s == x);
            let k = choose|k: Key| has_kid(x, k) && occurs(#[trigger] kid(x, k), TyInfer::Var(y));
            assert(vars(kid(x, k))(y));
            assert(resolves(m, im, kid(s, k), kid(t2, k)));
            lemma_occurs_check(m, im, kid(x, k), kid(t2, k), (n - 1) as nat, y, v);
            assert(has_kid(t2, k));
            lemma_occurs_kid(t2, k);
        }
    } else {
        let k = choose|k: Key| has_kid(t, k) && occurs(#[trigger] kid(t, k), TyInfer::Var(w));
        assert(resolves(m, im, kid(s, k), kid(t2, k)));
        lemma_kid_smaller(t, k);
        assert(vars(kid(t, k))(w));
        lemma_occurs_check(m, im, kid(t, k), kid(t2, k), n, w, v);
        assert(has_kid(t2, k));
        lemma_occurs_kid(t2, k);
    }
}
/// two unknown classes became one
pub proof fn lemma_deep_merge(m: VM, m2: VM, a: TyVar, b: TyVar)
    requires links_ok(m), deep(m), links_ok(m2), merged(m, m2, a, b), value(m, a) is None, value(m, b) is None
    ensures deep(m2)
{
    lemma_ranks(m);
    let (rank, lv) = ranks(m);
    let r = root(m2, a);
    let rank2 = |v: TyVar| if v == r { 0nat } else { rank(v) + 1 };
    let lv2 = |s: spec_fn(TyVar) -> bool| lv(s) + 1;
    assert forall|s: spec_fn(TyVar) -> bool, w: TyVar| #[trigger] s(w) implies rank2(root(m2, w)) < lv2(s) by { }
    assert forall|v: TyVar| (#[trigger] value(m2, v)) is Some implies lv2(vars(value(m2, v)->0)) <= rank2(root(m2, v)) by {
        assert(value(m, v) == value(m2, v));
        assert(root(m2, v) != r) by { lemma_root(m, a); lemma_root(m, b); lemma_root(m, v); }
    }
    assert(deep_by(m2, rank2, lv2));
}
/// an unknown class became known to be a type that does not lead to it
pub proof fn lemma_deep_learn(m: VM, m2: VM, v: TyVar, t: Ty)
    requires links_ok(m), deep(m), links_ok(m2), learned(m, m2, v, t), value(m, v) is None, root(m, v) == v,
        forall|n: nat, w: TyVar| vars(t)(w) ==> !#[trigger] reach(m, n, root(m, w), v),
    ensures deep(m2)
{
    lemma_ranks(m);
    let (rank, lv) = ranks(m);
    let up = lv(vars(t));
    let leads = |r: TyVar| exists|n: nat| reach(m, n, r, v);
    let touch = |s: spec_fn(TyVar) -> bool| exists|w: TyVar| #[trigger] s(w) && leads(root(m, w));
    let rank2 = |r: TyVar| if leads(r) { rank(r) + up } else { rank(r) };
    let lv2 = |s: spec_fn(TyVar) -> bool| if touch(s) { lv(s) + up } else { lv(s) };
    assert forall|s: spec_fn(TyVar) -> bool, w: TyVar| #[trigger] s(w) implies rank2(root(m2, w)) < lv2(s) by { }
    assert forall|s: spec_fn(TyVar) -> bool, t: spec_fn(TyVar) -> bool| #[trigger] sub(s, t) implies lv2(s) <= lv2(t) by { }
    assert forall|x: TyVar| (#[trigger] value(m2, x)) is Some implies lv2(vars(value(m2, x)->0)) <= rank2(root(m2, x)) by {
        lemma_root(m, x); lemma_root(m, v);
        if root(m, x) == v {
            assert(!touch(vars(t)));
            assert(reach(m, 0, v, v));
        } else {
            let s = vars(value(m, x)->0);
            assert(value(m2, x) == value(m, x));
            if touch(s) {
                let w = choose|w: TyVar| #[trigger] s(w) && leads(root(m, w));
                let n = choose|n: nat| reach(m, n, root(m, w), v);
                assert(value(m, root(m, x)) == value(m, x));
                assert(reach(m, (n + 1 - 1) as nat, root(m, w), v));
                assert(reach(m, n + 1, root(m, x), v));
                assert(leads(root(m, x)));
            }
        }
    }
    assert(deep_by(m2, rank2, lv2));
}

// ---- the context of an inference
//@rewrite & 'db dyn SourceDatabase =>> &'db VxDb
//@rewrite & dyn SourceDatabase =>> &VxDb
/// what it records about expressions and patterns: opaque
pub mod ast { use super::*; #[verifier::external_body] pub struct Pat { } #[verifier::external_body] pub struct StructPatField { } #[verifier::external_body] pub struct Expr { } #[verifier::external_body] pub struct AnyCallExpr { } #[verifier::external_body] pub struct Path { } #[verifier::external_body] pub struct MethodCallExpr { } #[verifier::external_body] pub struct NameRef { } #[verifier::external_body] pub struct IdentPat { } #[verifier::external_body] pub struct LambdaExpr { } }
#[verifier::external_body] pub struct ScopeEntry { }
#[verifier::external_body] pub struct ScopeEntryWithVis { }
//@item crates/lang/src/types/inference.rs InferenceCtx
impl InferenceCtx<'_> {
    pub open spec fn vm(self) -> VM { self.var_table.m() }
    pub open spec fn im(self) -> IM { self.int_table.m() }
    pub open spec fn wf(self) -> bool { ok(self.vm(), self.im()) }
}
/// (all but the tables, the errors and the records)
pub open spec fn same_place(a: InferenceCtx, b: InferenceCtx) -> bool { a.db == b.db && a.file_id == b.file_id && a.msl == b.msl && a.ty_var_index == b.ty_var_index && a.var_table.snapshots@ == b.var_table.snapshots@ && a.int_table.snapshots@ == b.int_table.snapshots@ }
/// what was known stays known, what was one variable stays one
pub open spec fn keeps<V>(m: Tab<V>, m2: Tab<V>) -> bool {
    &&& forall|v: V| (#[trigger] value(m, v)) is Some ==> value(m2, v) == value(m, v)
    &&& forall|v: V, w: V| root(m, v) == root(m, w) ==> #[trigger] root(m2, v) == #[trigger] root(m2, w)
}
pub open spec fn grows(a: InferenceCtx, b: InferenceCtx) -> bool { b.wf() && same_place(a, b) && keeps(a.vm(), b.vm()) && keeps(a.im(), b.im()) }
pub proof fn lemma_keeps<V>(m: Tab<V>, m2: Tab<V>, a: V, b: V)
    requires links_ok(m), merged(m, m2, a, b), value(m, a) is Some && value(m, b) is Some ==> value(m, a) == value(m, b) ensures keeps(m, m2)
{
    assert forall|v: V| (#[trigger] value(m, v)) is Some implies value(m2, v) == value(m, v) by { lemma_root(m, v); lemma_root(m, a); lemma_root(m, b); }
}
pub proof fn lemma_keeps2<V>(m: Tab<V>, m2: Tab<V>, a: V, t: Ty)
    requires links_ok(m), learned(m, m2, a, t), value(m, a) is Some ==> value(m, a) == Some(t) ensures keeps(m, m2)
{
    assert forall|v: V| (#[trigger] value(m, v)) is Some implies value(m2, v) == value(m, v) by { lemma_root(m, v); lemma_root(m, a); }
}

// ================= small functions of the types
impl TySequence {
//@fn crates/lang/src/types/ty/range_like.rs TySequence::item
//@ret r
//@rewrite ty . deref ( ) . to_owned ( ) =>> vx_unbox(ty)
//@spec
    ensures r == kid(Ty::Seq(*self), Key::Of)
//@end
}
impl Mutability {
//@fn crates/lang/src/types/ty/reference.rs Mutability::is_mut
//@ret r
//@spec
    ensures r == (self is Mutable)
//@end
//@fn crates/lang/src/types/ty/reference.rs Mutability::new
//@ret r
//@spec
    ensures r == (if is_mut { Mutability::Mutable } else { Mutability::Immutable })
//@end
//@fn crates/lang/src/types/ty/reference.rs Mutability::intersect
//@ret r
//@spec
    ensures r == (if *self is Mutable && other is Mutable { Mutability::Mutable } else { Mutability::Immutable })
//@end
}
impl TyReference {
//@fn crates/lang/src/types/ty/reference.rs TyReference::new
//@ret r
//@spec
    ensures r == (TyReference { referenced: Box::new(inner), mutability })
//@end
//@fn crates/lang/src/types/ty/reference.rs TyReference::referenced
//@ret r
//@rewrite self . referenced . deref ( ) . to_owned ( ) =>> vx_unbox(&self.referenced)
//@spec
    ensures r == *self.referenced
//@end
//@fn crates/lang/src/types/ty/reference.rs TyReference::is_mut
//@ret r
//@spec
    ensures r == (self.mutability is Mutable)
//@end
}
impl TyTuple {
//@fn crates/lang/src/types/ty/tuple.rs TyTuple::new
//@ret r
//@spec
    ensures r == (TyTuple { types })
//@end
}
impl TyCallable {
//@fn crates/lang/src/types/ty/ty_callable.rs TyCallable::ret_type_ty
//@ret r
//@rewrite self . ret_type . deref ( ) . to_owned ( ) =>> vx_unbox(&self.ret_type)
//@spec
    ensures r == *self.ret_type
//@end
//@fn crates/lang/src/types/ty/ty_callable.rs TyCallable::new
//@ret r
//@spec
    ensures r == (TyCallable { param_types, ret_type: Box::new(ret_type), kind })
//@end
}
impl TyVar {
//@fn crates/lang/src/types/ty/ty_var.rs TyVar::has_origin
//@ret r
//@spec
    ensures r == (self.kind is WithOrigin)
//@end
}

// ================= resolution: every part is replaced by what it stands for
pub open spec fn parts_resolve(m: VM, im: IM, a: Ty, b: Ty) -> bool { same_shape(a, b) && forall|k: Key| has_kid(a, k) ==> resolves(m, im, kid(a, k), #[trigger] kid(b, k)) }
pub open spec fn all_resolve(m: VM, im: IM, a: Seq<Ty>, b: Seq<Ty>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> resolves(m, im, a[i], #[trigger] b[i]) }
pub open spec fn subst_resolve(m: VM, im: IM, a: Substitution, b: Substitution) -> bool {
    &&& forall|k: TyTypeParameter| a.mapping@.dom().contains(k) == #[trigger] b.mapping@.dom().contains(k)
    &&& forall|k: TyTypeParameter| a.mapping@.dom().contains(k) ==> resolves(m, im, a.mapping@[k], #[trigger] b.mapping@[k])
}
pub open spec fn kind_resolve(m: VM, im: IM, a: TyCallableKind, b: TyCallableKind) -> bool {
    match (a, b) { (TyCallableKind::Named(s, l), TyCallableKind::Named(t, n)) => l == n && subst_resolve(m, im, s, t), (TyCallableKind::Named(..), _) | (_, TyCallableKind::Named(..)) => false, _ => a == b }
}
pub open spec fn occ_tys(a: Seq<Ty>) -> spec_fn(TyInfer) -> bool { |v: TyInfer| exists|i: int| 0 <= i < a.len() && occurs(#[trigger] a[i], v) }
pub open spec fn occ_subst(a: Substitution) -> spec_fn(TyInfer) -> bool { |v: TyInfer| exists|k: TyTypeParameter| a.mapping@.dom().contains(k) && occurs(#[trigger] a.mapping@[k], v) }
pub open spec fn occ_kind(a: TyCallableKind) -> spec_fn(TyInfer) -> bool { |v: TyInfer| match a { TyCallableKind::Named(s, _) => occ_subst(s)(v), _ => false } }
pub open spec fn occ(t: Ty) -> spec_fn(TyInfer) -> bool { |v: TyInfer| occurs(t, v) }
pub open spec fn only_vars(o: spec_fn(TyInfer) -> bool) -> spec_fn(TyVar) -> bool { |w: TyVar| o(TyInfer::Var(w)) }
pub open spec fn lev(m: VM, o: spec_fn(TyInfer) -> bool) -> nat { ranks(m).1(only_vars(o)) }
pub open spec fn leaf(t: Ty) -> bool { !(t is Adt || t is Schema || t is Seq || t is Reference || t is Tuple || t is Callable) }
pub proof fn lemma_lev(m: VM, a: spec_fn(TyInfer) -> bool, b: spec_fn(TyInfer) -> bool)
    requires deep(m), forall|v: TyInfer| #[trigger] a(v) ==> b(v) ensures lev(m, a) <= lev(m, b)
{ lemma_ranks(m); assert(sub(only_vars(a), only_vars(b))); }
/// the parts of a type mention what the type mentions
pub proof fn lemma_parts(t: Ty)
    ensures match t {
        Ty::Adt(a) => (forall|v: TyInfer| #[trigger] occ_subst(a.substitution)(v) ==> occ(t)(v)) && (forall|v: TyInfer| #[trigger] occ_tys(a.type_args@)(v) ==> occ(t)(v)),
        Ty::Schema(a) => (forall|v: TyInfer| #[trigger] occ_subst(a.substitution)(v) ==> occ(t)(v)) && (forall|v: TyInfer| #[trigger] occ_tys(a.type_args@)(v) ==> occ(t)(v)),
        Ty::Tuple(a) => forall|v: TyInfer| #[trigger] occ_tys(a.types@)(v) ==> occ(t)(v),
        Ty::Callable(c) => (forall|v: TyInfer| #[trigger] occ_tys(c.param_types@)(v) ==> occ(t)(v)) && (forall|v: TyInfer| #[trigger] occ_kind(c.kind)(v) ==> occ(t)(v)) && (forall|v: TyInfer| #[trigger] occ(*c.ret_type)(v) ==> occ(t)(v)),
        Ty::Seq(_) | Ty::Reference(_) => forall|v: TyInfer| #[trigger] occ(kid(t, Key::Of))(v) ==> occ(t)(v),
        _ => true,
    }
{
    assert forall|k: Key, v: TyInfer| has_kid(t, k) && #[trigger] occurs(kid(t, k), v) implies occurs(t, v) by {}
    match t {
        Ty::Adt(a) => { lemma_parts_in(t, a.type_args@, a.substitution); }
        Ty::Schema(a) => { lemma_parts_in(t, a.type_args@, a.substitution); }
        Ty::Tuple(a) => { assert forall|v: TyInfer| #[trigger] occ_tys(a.types@)(v) implies occ(t)(v) by { let i = choose|i: int| 0 <= i < a.types@.len() && occurs(#[trigger] a.types@[i], v); assert(has_kid(t, Key::At(i))); assert(occurs(kid(t, Key::At(i)), v)); } }
        Ty::Callable(c) => {
            assert forall|v: TyInfer| #[trigger] occ_tys(c.param_types@)(v) implies occ(t)(v) by { let i = choose|i: int| 0 <= i < c.param_types@.len() && occurs(#[trigger] c.param_types@[i], v); assert(has_kid(t, Key::At(i))); assert(occurs(kid(t, Key::At(i)), v)); }
            assert(has_kid(t, Key::Of));
            assert forall|v: TyInfer| #[trigger] occ(*c.ret_type)(v) implies occ(t)(v) by { assert(occurs(kid(t, Key::Of), v)); }
            assert forall|v: TyInfer| #[trigger] occ_kind(c.kind)(v) implies occ(t)(v) by {
                match c.kind { TyCallableKind::Named(s, _) => { let k = choose|k: TyTypeParameter| s.mapping@.dom().contains(k) && occurs(#[trigger] s.mapping@[k], v); assert(has_kid(t, Key::Sub(k))); assert(occurs(kid(t, Key::Sub(k)), v)); } _ => {} }
            }
        }
        Ty::Seq(_) | Ty::Reference(_) => { assert(has_kid(t, Key::Of)); assert forall|v: TyInfer| #[trigger] occ(kid(t, Key::Of))(v) implies occ(t)(v) by { assert(occurs(kid(t, Key::Of), v)); } }
        _ => {}
    }
}
proof fn lemma_parts_in(t: Ty, a: Seq<Ty>, s: Substitution)
    requires forall|k: Key, v: TyInfer| has_kid(t, k) && #[trigger] occurs(kid(t, k), v) ==> occurs(t, v),
        forall|i: int| 0 <= i < a.len() ==> has_kid(t, Key::At(i)) && kid(t, Key::At(i)) == #[trigger] a[i],
        forall|k: TyTypeParameter| #[trigger] s.mapping@.dom().contains(k) ==> has_kid(t, Key::Sub(k)) && kid(t, Key::Sub(k)) == s.mapping@[k],
    ensures forall|v: TyInfer| #[trigger] occ_tys(a)(v) ==> occ(t)(v), forall|v: TyInfer| #[trigger] occ_subst(s)(v) ==> occ(t)(v)
{
    assert forall|v: TyInfer| #[trigger] occ_tys(a)(v) implies occ(t)(v) by { let i = choose|i: int| 0 <= i < a.len() && occurs(#[trigger] a[i], v); assert(occurs(kid(t, Key::At(i)), v)); }
    assert forall|v: TyInfer| #[trigger] occ_subst(s)(v) implies occ(t)(v) by { let k = choose|k: TyTypeParameter| s.mapping@.dom().contains(k) && occurs(#[trigger] s.mapping@[k], v); assert(occurs(kid(t, Key::Sub(k)), v)); }
}
pub proof fn lemma_level_at(m: VM, tys: Vec<Ty>, i: int)
    requires deep(m), 0 <= i < tys@.len() ensures level(m, tys@[i]) <= lev(m, occ_tys(tys@)), decreases_to!(tys => tys@[i])
{
    assert forall|v: TyInfer| #[trigger] occ(tys@[i])(v) implies occ_tys(tys@)(v) by {}
    lemma_lev(m, occ(tys@[i]), occ_tys(tys@));
    lemma_level(m, tys@[i]);
}
pub proof fn lemma_level(m: VM, t: Ty) requires deep(m) ensures level(m, t) == lev(m, occ(t)) {
    lemma_ranks(m); assert(sub(vars(t), only_vars(occ(t)))); assert(sub(only_vars(occ(t)), vars(t)));
}
//@rewrite & impl TypeFolder =>> &TyVarResolver<'_>
//@item crates/lang/src/types/fold.rs TyVarResolver
impl<'a> TyVarResolver<'a> {
//@fn crates/lang/src/types/fold.rs TyVarResolver::new
//@ret r
//@spec
    ensures r.ctx == ctx
//@end
//@fn crates/lang/src/types/fold.rs TypeFolder@TyVarResolver::fold_ty
//@ret r
//@spec
    requires self.ctx.wf()
    ensures resolves(self.ctx.vm(), self.ctx.im(), t, r)
    decreases level(self.ctx.vm(), t) + 1, t, 1int
//@in fn begin
    let ghost t0 = t;
    proof { lemma_shallow(self.ctx.vm(), self.ctx.im(), t0); assert(occ(t0) == occ(t0)); }
//@end
//@fn crates/lang/src/types/fold.rs TypeFolder::fold_tys
//@ret r
//@rewrite tys . into_iter ( ) . map ( | it | $$e ) . collect ( ) =>> { let mut vx_out: Vec<Ty> = Vec::new(); for it in /*@{ vx_it: }@*/ tys /*@{ invariant self.ctx.wf(), vx_it.seq() == tys0@, vx_out@.len() == vx_it.index@, forall|i: int| 0 <= i < vx_it.index@ ==> resolves(self.ctx.vm(), self.ctx.im(), tys0@[i], #[trigger] vx_out@[i]), }@*/ { /*@{ proof { lemma_level_at(self.ctx.vm(), tys0, vx_it.index@); } }@*/ vx_out.push($e); } vx_out }
//@spec
    requires self.ctx.wf()
    ensures all_resolve(self.ctx.vm(), self.ctx.im(), tys@, r@)
    decreases lev(self.ctx.vm(), occ_tys(tys@)) + 1, tys, 0int
//@in fn begin
    broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
    let ghost tys0 = tys;
//@end
}
/// the parts of a type are of no higher level
pub proof fn lemma_part_levels(m: VM, t: Ty)
    requires deep(m)
    ensures match t {
        Ty::Adt(a) => lev(m, occ_subst(a.substitution)) <= level(m, t) && lev(m, occ_tys(a.type_args@)) <= level(m, t),
        Ty::Schema(a) => lev(m, occ_subst(a.substitution)) <= level(m, t) && lev(m, occ_tys(a.type_args@)) <= level(m, t),
        Ty::Tuple(a) => lev(m, occ_tys(a.types@)) <= level(m, t),
        Ty::Callable(c) => lev(m, occ_tys(c.param_types@)) <= level(m, t) && lev(m, occ_kind(c.kind)) <= level(m, t) && level(m, *c.ret_type) <= level(m, t),
        Ty::Seq(_) | Ty::Reference(_) => level(m, kid(t, Key::Of)) <= level(m, t),
        _ => true,
    }
{
    lemma_parts(t); lemma_level(m, t);
    match t {
        Ty::Adt(a) => { lemma_lev(m, occ_subst(a.substitution), occ(t)); lemma_lev(m, occ_tys(a.type_args@), occ(t)); }
        Ty::Schema(a) => { lemma_lev(m, occ_subst(a.substitution), occ(t)); lemma_lev(m, occ_tys(a.type_args@), occ(t)); }
        Ty::Tuple(a) => { lemma_lev(m, occ_tys(a.types@), occ(t)); }
        Ty::Callable(c) => { lemma_lev(m, occ_tys(c.param_types@), occ(t)); lemma_lev(m, occ_kind(c.kind), occ(t)); lemma_lev(m, occ(*c.ret_type), occ(t)); lemma_level(m, *c.ret_type); }
        Ty::Seq(_) | Ty::Reference(_) => { lemma_lev(m, occ(kid(t, Key::Of)), occ(t)); lemma_level(m, kid(t, Key::Of)); }
        _ => {}
    }
}
pub proof fn lemma_kind_levels(m: VM, c: TyCallableKind) requires deep(m) ensures c matches TyCallableKind::Named(s, _) ==> lev(m, occ_subst(s)) <= lev(m, occ_kind(c))
{ match c { TyCallableKind::Named(s, _) => { lemma_lev(m, occ_subst(s), occ_kind(c)); } _ => {} } }
pub proof fn lemma_subst_at(m: VM, s: Substitution, k: TyTypeParameter)
    requires deep(m), s.mapping@.dom().contains(k) ensures level(m, s.mapping@[k]) <= lev(m, occ_subst(s)), decreases_to!(s => s.mapping@[k])
{
    let t = s.mapping@[k];
    axiom_map_smaller(s.mapping, k);
    assert forall|v: TyInfer| #[trigger] occ(t)(v) implies occ_subst(s)(v) by {}
    lemma_lev(m, occ(t), occ_subst(s)); lemma_level(m, t);
}
impl Ty {
//@fn crates/lang/src/types/ty.rs TypeFoldable@Ty::fold_with
//@ret r
//@spec
    requires folder.ctx.wf()
    ensures resolves(folder.ctx.vm(), folder.ctx.im(), self, r)
    decreases level(folder.ctx.vm(), self) + 1, self, 2int
//@end
//@fn crates/lang/src/types/ty.rs TypeFoldable@Ty::deep_fold_with
//@ret r
//@spec
    requires folder.ctx.wf()
    ensures parts_resolve(folder.ctx.vm(), folder.ctx.im(), self, r)
    decreases if leaf(self) { 0 } else { level(folder.ctx.vm(), self) + 1 }, self, 0int
//@in fn begin
    let ghost self0 = self;
    proof { lemma_part_levels(folder.ctx.vm(), self); }
//@end
}
impl Substitution {
//@fn crates/lang/src/types/substitution.rs TypeFoldable@Substitution::deep_fold_with
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@rewrite let folded_mapping = self . mapping . into_iter ( ) . map ( | ( k , v ) | ( k , $$e ) ) . collect ( ) ; =>> let vx_entries = self.mapping.vx_into_entries(); let mut folded_mapping: HashMap<TyTypeParameter, Ty> = HashMap::new(); for (k, v) in /*@{ vx_it: }@*/ vx_entries /*@{ invariant folder.ctx.wf(), vx_it.seq() == vx_entries@, forall|i: int| 0 <= i < vx_entries@.len() ==> self0.mapping@.dom().contains((#[trigger] vx_entries@[i]).0) && self0.mapping@[vx_entries@[i].0] == vx_entries@[i].1, forall|i: int| 0 <= i < vx_it.index@ ==> folded_mapping@.dom().contains((#[trigger] vx_entries@[i]).0), forall|k: TyTypeParameter| #[trigger] folded_mapping@.dom().contains(k) ==> self0.mapping@.dom().contains(k) && resolves(folder.ctx.vm(), folder.ctx.im(), self0.mapping@[k], folded_mapping@[k]), }@*/ { /*@{ proof { assert(vx_entries@[vx_it.index@].0 == k); lemma_subst_at(folder.ctx.vm(), self0, k); } }@*/ let vx_v = $e; folded_mapping.insert(k, vx_v); }
//@spec
    requires folder.ctx.wf()
    ensures subst_resolve(folder.ctx.vm(), folder.ctx.im(), self, r)
    decreases lev(folder.ctx.vm(), occ_subst(self)) + 1, self, 0int
//@in fn begin
    let ghost self0 = self;
//@end
//@fn crates/lang/src/types/fold.rs TypeFoldable::fold_with
//@ret r
//@rewrite -> T =>> -> Substitution
//@rewrite where Self : Sized , =>>
//@spec
    requires folder.ctx.wf()
    ensures subst_resolve(folder.ctx.vm(), folder.ctx.im(), self, r)
    decreases lev(folder.ctx.vm(), occ_subst(self)) + 1, self, 1int
//@end
}
impl TyCallableKind {
//@fn crates/lang/src/types/ty/ty_callable.rs TypeFoldable@TyCallableKind::deep_fold_with
//@ret r
//@spec
    requires folder.ctx.wf()
    ensures kind_resolve(folder.ctx.vm(), folder.ctx.im(), self, r)
    decreases lev(folder.ctx.vm(), occ_kind(self)) + 1, self, 0int
//@in fn begin
    proof { lemma_kind_levels(folder.ctx.vm(), self); }
//@end
//@fn crates/lang/src/types/fold.rs TypeFoldable::fold_with
//@ret r
//@rewrite -> T =>> -> TyCallableKind
//@rewrite where Self : Sized , =>>
//@spec
    requires folder.ctx.wf()
    ensures kind_resolve(folder.ctx.vm(), folder.ctx.im(), self, r)
    decreases lev(folder.ctx.vm(), occ_kind(self)) + 1, self, 1int
//@end
}
impl TyAdt {
//@fn crates/lang/src/types/ty/adt.rs TypeFoldable@TyAdt::deep_fold_with
//@ret r
//@spec
    requires folder.ctx.wf()
    ensures parts_resolve(folder.ctx.vm(), folder.ctx.im(), Ty::Adt(self), Ty::Adt(r))
    decreases level(folder.ctx.vm(), Ty::Adt(self)) + 1, self, 0int
//@in fn begin
    let ghost self0 = self;
    proof { lemma_part_levels(folder.ctx.vm(), Ty::Adt(self)); }
//@end
}
impl TySchema {
//@fn crates/lang/src/types/ty/schema.rs TypeFoldable@TySchema::deep_fold_with
//@ret r
//@spec
    requires folder.ctx.wf()
    ensures parts_resolve(folder.ctx.vm(), folder.ctx.im(), Ty::Schema(self), Ty::Schema(r))
    decreases level(folder.ctx.vm(), Ty::Schema(self)) + 1, self, 0int
//@in fn begin
    let ghost self0 = self;
    proof { lemma_part_levels(folder.ctx.vm(), Ty::Schema(self)); }
//@end
}
impl TyTuple {
//@fn crates/lang/src/types/ty/tuple.rs TypeFoldable@TyTuple::deep_fold_with
//@ret r
//@spec
    requires folder.ctx.wf()
    ensures parts_resolve(folder.ctx.vm(), folder.ctx.im(), Ty::Tuple(self), Ty::Tuple(r))
    decreases level(folder.ctx.vm(), Ty::Tuple(self)) + 1, self, 0int
//@in fn begin
    let ghost self0 = self;
    proof { lemma_part_levels(folder.ctx.vm(), Ty::Tuple(self)); }
//@end
}
impl TyReference {
//@fn crates/lang/src/types/ty/reference.rs TypeFoldable@TyReference::deep_fold_with
//@ret r
//@spec
    requires folder.ctx.wf()
    ensures parts_resolve(folder.ctx.vm(), folder.ctx.im(), Ty::Reference(self), Ty::Reference(r))
    decreases level(folder.ctx.vm(), Ty::Reference(self)) + 1, self, 0int
//@in fn begin
    let ghost self0 = self;
    proof { lemma_part_levels(folder.ctx.vm(), Ty::Reference(self)); }
//@end
}
impl TySequence {
//@fn crates/lang/src/types/ty/range_like.rs TypeFoldable@TySequence::deep_fold_with
//@ret r
//@rewrite item_ty . deref ( ) . to_owned ( ) =>> vx_unbox(&item_ty)
//@spec
    requires folder.ctx.wf()
    ensures parts_resolve(folder.ctx.vm(), folder.ctx.im(), Ty::Seq(self), Ty::Seq(r))
    decreases level(folder.ctx.vm(), Ty::Seq(self)) + 1, self, 0int
//@in fn begin
    let ghost self0 = self;
    proof { lemma_part_levels(folder.ctx.vm(), Ty::Seq(self)); }
//@end
}
impl TyCallable {
//@fn crates/lang/src/types/ty/ty_callable.rs TypeFoldable@TyCallable::deep_fold_with
//@ret r
//@spec
    requires folder.ctx.wf()
    ensures parts_resolve(folder.ctx.vm(), folder.ctx.im(), Ty::Callable(self), Ty::Callable(r))
    decreases level(folder.ctx.vm(), Ty::Callable(self)) + 1, self, 0int
//@in fn begin
    let ghost self0 = self;
    proof { lemma_part_levels(folder.ctx.vm(), Ty::Callable(self)); }
//@end
}
impl<'db> InferenceCtx<'db> {
//@fn crates/lang/src/types/inference.rs InferenceCtx::resolve_ty_infer
//@ret r
//@spec
    requires self.wf()
    ensures r == shallow(self.vm(), self.im(), Ty::Infer(*ty_infer))
//@end
//@fn crates/lang/src/types/inference.rs InferenceCtx::var_resolver
//@ret r
//@spec
    ensures *r.ctx == *self
//@end
//@fn crates/lang/src/types/inference.rs InferenceCtx::resolve_ty_vars_if_possible
//@ret r
//@rewrite < T : TypeFoldable < T > > =>>
//@rewrite ty : T =>> ty: Ty
//@rewrite -> T =>> -> Ty
//@spec
    requires self.wf()
    ensures resolves(self.vm(), self.im(), ty, r)
//@end
//@fn crates/lang/src/types/inference.rs InferenceCtx::resolve_ty_infer_shallow
//@ret r
//@spec
    requires self.wf()
    ensures r == shallow(self.vm(), self.im(), ty)
//@end
}

// ================= visits: every variable of a type is looked at until one hits
/// `r`: the visitor says so of some variable of `o`
pub open spec fn visited<V: Fn(&TyInfer) -> bool>(f: V, o: spec_fn(TyInfer) -> bool, r: bool) -> bool {
    &&& r ==> exists|u: TyInfer| #[trigger] o(u) && call_ensures(f, (&u,), true)
    &&& !r ==> forall|u: TyInfer| #[trigger] o(u) ==> call_ensures(f, (&u,), false)
}
pub proof fn lemma_occ_parts(t: Ty)
    ensures match t {
        Ty::Adt(a) => forall|v: TyInfer| #[trigger] occ(t)(v) ==> occ_subst(a.substitution)(v) || occ_tys(a.type_args@)(v),
        Ty::Schema(a) => forall|v: TyInfer| #[trigger] occ(t)(v) ==> occ_subst(a.substitution)(v) || occ_tys(a.type_args@)(v),
        Ty::Tuple(a) => forall|v: TyInfer| #[trigger] occ(t)(v) ==> occ_tys(a.types@)(v),
        Ty::Callable(c) => forall|v: TyInfer| #[trigger] occ(t)(v) ==> occ_tys(c.param_types@)(v) || occ_kind(c.kind)(v) || occ(*c.ret_type)(v),
        Ty::Seq(_) | Ty::Reference(_) => forall|v: TyInfer| #[trigger] occ(t)(v) ==> occ(kid(t, Key::Of))(v),
        Ty::Infer(u) => forall|v: TyInfer| #[trigger] occ(t)(v) ==> u == v,
        _ => forall|v: TyInfer| !#[trigger] occ(t)(v),
    }
{
    assert forall|v: TyInfer| #[trigger] occ(t)(v) && t != Ty::Infer(v) implies exists|k: Key| has_kid(t, k) && occurs(#[trigger] kid(t, k), v) by {}
    match t {
        Ty::Adt(a) => { assert forall|v: TyInfer| #[trigger] occ(t)(v) implies occ_subst(a.substitution)(v) || occ_tys(a.type_args@)(v) by { let k = choose|k: Key| has_kid(t, k) && occurs(#[trigger] kid(t, k), v); match k { Key::Sub(p) => { assert(occurs(a.substitution.mapping@[p], v)); } Key::At(i) => { assert(occurs(a.type_args@[i], v)); } _ => {} } } }
        Ty::Schema(a) => { assert forall|v: TyInfer| #[trigger] occ(t)(v) implies occ_subst(a.substitution)(v) || occ_tys(a.type_args@)(v) by { let k = choose|k: Key| has_kid(t, k) && occurs(#[trigger] kid(t, k), v); match k { Key::Sub(p) => { assert(occurs(a.substitution.mapping@[p], v)); } Key::At(i) => { assert(occurs(a.type_args@[i], v)); } _ => {} } } }
        Ty::Tuple(a) => { assert forall|v: TyInfer| #[trigger] occ(t)(v) implies occ_tys(a.types@)(v) by { let k = choose|k: Key| has_kid(t, k) && occurs(#[trigger] kid(t, k), v); match k { Key::At(i) => { assert(occurs(a.types@[i], v)); } _ => {} } } }
        Ty::Callable(c) => { assert forall|v: TyInfer| #[trigger] occ(t)(v) implies occ_tys(c.param_types@)(v) || occ_kind(c.kind)(v) || occ(*c.ret_type)(v) by { let k = choose|k: Key| has_kid(t, k) && occurs(#[trigger] kid(t, k), v); match k { Key::At(i) => { assert(occurs(c.param_types@[i], v)); } Key::Sub(p) => { match c.kind { TyCallableKind::Named(s, _) => { assert(occurs(s.mapping@[p], v)); } _ => {} } } _ => {} } } }
        Ty::Seq(_) | Ty::Reference(_) => { assert forall|v: TyInfer| #[trigger] occ(t)(v) implies occ(kid(t, Key::Of))(v) by { let k = choose|k: Key| has_kid(t, k) && occurs(#[trigger] kid(t, k), v); } }
        _ => { assert(forall|k: Key| !has_kid(t, k)); }
    }
}
//@rewrite impl TypeVisitor =>> TyInferVisitor<impl Fn(&TyInfer) -> bool>
//@rewrite bool + Clone =>> bool
#[verifier::reject_recursive_types(V)]
//@item crates/lang/src/types/fold.rs TyInferVisitor
impl<V: Fn(&TyInfer) -> bool> TyInferVisitor<V> {
    /// trusted: the derived clone
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
//@fn crates/lang/src/types/fold.rs TyInferVisitor::new
//@ret r
//@spec
    ensures r.visitor == visitor
//@end
//@fn crates/lang/src/types/fold.rs TypeVisitor@TyInferVisitor::visit_ty
//@ret r
//@spec
    requires forall|u: &TyInfer| #[trigger] call_requires(self.visitor, (u,))
    ensures visited(self.visitor, occ(*ty), r)
    decreases *ty, 1int
//@in fn begin
    proof { lemma_parts(*ty); lemma_occ_parts(*ty); if let Ty::Infer(u) = ty { assert(occ(*ty)(*u)); } }
//@end
//@fn crates/lang/src/types/fold.rs TypeVisitor::visit_tys
//@ret r
//@rewrite tys . iter ( ) . fold ( false , | acc , t | $$e ) =>> { let mut acc = false; for t in /*@{ vx_it: }@*/ tys.iter() /*@{ invariant forall|u: &TyInfer| #[trigger] call_requires(self.visitor, (u,)), acc ==> exists|u: TyInfer| #[trigger] occ_tys(tys@)(u) && call_ensures(self.visitor, (&u,), true), !acc ==> forall|i: int, u: TyInfer| 0 <= i < vx_it.index@ && #[trigger] occurs(tys@[i], u) ==> call_ensures(self.visitor, (&u,), false), }@*/ { /*@{ proof { let i = vx_it.index@; assert(decreases_to!(*tys => tys@[i])); assert(*t == tys@[i]); assert(forall|u: TyInfer| #[trigger] occ(tys@[i])(u) ==> occ_tys(tys@)(u)); assert(forall|u: TyInfer| #[trigger] occurs(tys@[i], u) ==> occ(tys@[i])(u)); } }@*/ acc = $e; } acc }
//@spec
    requires forall|u: &TyInfer| #[trigger] call_requires(self.visitor, (u,))
    ensures visited(self.visitor, occ_tys(tys@), r)
    decreases *tys, 0int
//@in fn begin
    broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
//@end
}
impl Ty {
//@fn crates/lang/src/types/ty.rs TypeFoldable@Ty::visit_with
//@ret r
//@spec
    requires forall|u: &TyInfer| #[trigger] call_requires(visitor.visitor, (u,))
    ensures visited(visitor.visitor, occ(*self), r)
    decreases *self, 2int
//@end
//@fn crates/lang/src/types/ty.rs TypeFoldable@Ty::deep_visit_with
//@ret r
//@spec
    requires !(*self is Infer), forall|u: &TyInfer| #[trigger] call_requires(visitor.visitor, (u,))
    ensures visited(visitor.visitor, occ(*self), r)
    decreases *self, 0int
//@in fn begin
    proof { lemma_parts(*self); lemma_occ_parts(*self); }
//@end
//@fn crates/lang/src/types/fold.rs Ty::deep_visit_ty_infers
//@ret r
//@spec
    requires forall|u: &TyInfer| #[trigger] call_requires(visitor, (u,))
    ensures visited(visitor, occ(*self), r)
//@end
}
impl Substitution {
//@fn crates/lang/src/types/substitution.rs TypeFoldable@Substitution::deep_visit_with
//@ret r
//@rewrite self . mapping . values ( ) . any ( | it | $$e ) =>> { let vx_vs = self.mapping.values(); let mut vx_hit = false; for it in /*@{ vx_it: }@*/ vx_vs /*@{ invariant forall|u: &TyInfer| #[trigger] call_requires(visitor.visitor, (u,)), vx_it.seq() == vx_vs@, forall|i: int| 0 <= i < vx_vs@.len() ==> vx_is_value(self.mapping@, *#[trigger] vx_vs@[i]), forall|k: TyTypeParameter| #[trigger] self.mapping@.dom().contains(k) ==> vx_listed(vx_vs@, self.mapping@[k]), vx_hit ==> exists|u: TyInfer| #[trigger] occ_subst(*self)(u) && call_ensures(visitor.visitor, (&u,), true), !vx_hit ==> forall|i: int, u: TyInfer| 0 <= i < vx_it.index@ && #[trigger] occurs(*vx_vs@[i], u) ==> call_ensures(visitor.visitor, (&u,), false), }@*/ { /*@{ proof { let i = vx_it.index@; let k = choose|k: TyTypeParameter| #[trigger] self.mapping@.dom().contains(k) && self.mapping@[k] == *vx_vs@[i]; axiom_map_smaller(self.mapping, k); assert(*it == self.mapping@[k]); assert(forall|u: TyInfer| #[trigger] occ(*it)(u) ==> occ_subst(*self)(u)); assert(forall|u: TyInfer| #[trigger] occurs(*it, u) ==> occ(*it)(u)); } }@*/ if !vx_hit { vx_hit = $e; } } /*@{ proof { assert forall|u: TyInfer| !vx_hit && #[trigger] occ_subst(*self)(u) implies call_ensures(visitor.visitor, (&u,), false) by { let k = choose|k: TyTypeParameter| self.mapping@.dom().contains(k) && occurs(#[trigger] self.mapping@[k], u); assert(self.mapping@.dom().contains(k)); let i = choose|i: int| 0 <= i < vx_vs@.len() && *#[trigger] vx_vs@[i] == self.mapping@[k]; assert(occurs(*vx_vs@[i], u)); } } }@*/ vx_hit }
//@spec
    requires forall|u: &TyInfer| #[trigger] call_requires(visitor.visitor, (u,))
    ensures visited(visitor.visitor, occ_subst(*self), r)
    decreases *self, 0int
//@end
//@fn crates/lang/src/types/fold.rs TypeFoldable::visit_with
//@ret r
//@spec
    requires forall|u: &TyInfer| #[trigger] call_requires(visitor.visitor, (u,))
    ensures visited(visitor.visitor, occ_subst(*self), r)
    decreases *self, 1int
//@end
}
impl TyCallableKind {
//@fn crates/lang/src/types/ty/ty_callable.rs TypeFoldable@TyCallableKind::deep_visit_with
//@ret r
//@spec
    requires forall|u: &TyInfer| #[trigger] call_requires(visitor.visitor, (u,))
    ensures visited(visitor.visitor, occ_kind(*self), r)
    decreases *self, 0int
//@in fn begin
    proof { match self { TyCallableKind::Named(s, _) => { assert(forall|u: TyInfer| occ_kind(*self)(u) == #[trigger] occ_subst(*s)(u)); } _ => {} } assert(forall|u: TyInfer| #[trigger] occ_kind(*self)(u) ==> *self is Named); }
//@end
//@fn crates/lang/src/types/fold.rs TypeFoldable::visit_with
//@ret r
//@spec
    requires forall|u: &TyInfer| #[trigger] call_requires(visitor.visitor, (u,))
    ensures visited(visitor.visitor, occ_kind(*self), r)
    decreases *self, 1int
//@end
}
impl TyAdt {
//@fn crates/lang/src/types/ty/adt.rs TypeFoldable@TyAdt::deep_visit_with
//@ret r
//@spec
    requires forall|u: &TyInfer| #[trigger] call_requires(visitor.visitor, (u,))
    ensures visited(visitor.visitor, occ(Ty::Adt(*self)), r)
    decreases *self, 0int
//@in fn begin
    proof { lemma_parts(Ty::Adt(*self)); lemma_occ_parts(Ty::Adt(*self)); assert(forall|u: TyInfer| #[trigger] occ_tys(self.type_args@)(u) ==> occ(Ty::Adt(*self))(u)); assert(forall|u: TyInfer| #[trigger] occ_subst(self.substitution)(u) ==> occ(Ty::Adt(*self))(u)); assert(forall|u: TyInfer| #[trigger] occ(Ty::Adt(*self))(u) ==> occ_subst(self.substitution)(u) || occ_tys(self.type_args@)(u)); }
//@end
}
impl TySchema {
//@fn crates/lang/src/types/ty/schema.rs TypeFoldable@TySchema::deep_visit_with
//@ret r
//@spec
    requires forall|u: &TyInfer| #[trigger] call_requires(visitor.visitor, (u,))
    ensures visited(visitor.visitor, occ(Ty::Schema(*self)), r)
    decreases *self, 0int
//@in fn begin
    proof { lemma_parts(Ty::Schema(*self)); lemma_occ_parts(Ty::Schema(*self)); assert(forall|u: TyInfer| #[trigger] occ_tys(self.type_args@)(u) ==> occ(Ty::Schema(*self))(u)); assert(forall|u: TyInfer| #[trigger] occ_subst(self.substitution)(u) ==> occ(Ty::Schema(*self))(u)); assert(forall|u: TyInfer| #[trigger] occ(Ty::Schema(*self))(u) ==> occ_subst(self.substitution)(u) || occ_tys(self.type_args@)(u)); }
//@end
}
impl TyTuple {
//@fn crates/lang/src/types/ty/tuple.rs TypeFoldable@TyTuple::deep_visit_with
//@ret r
//@spec
    requires forall|u: &TyInfer| #[trigger] call_requires(visitor.visitor, (u,))
    ensures visited(visitor.visitor, occ(Ty::Tuple(*self)), r)
    decreases *self, 0int
//@in fn begin
    proof { lemma_parts(Ty::Tuple(*self)); lemma_occ_parts(Ty::Tuple(*self)); assert(forall|u: TyInfer| #[trigger] occ_tys(self.types@)(u) ==> occ(Ty::Tuple(*self))(u)); assert(forall|u: TyInfer| #[trigger] occ(Ty::Tuple(*self))(u) ==> occ_tys(self.types@)(u)); }
//@end
}
impl TyReference {
//@fn crates/lang/src/types/ty/reference.rs TypeFoldable@TyReference::deep_visit_with
//@ret r
//@spec
    requires forall|u: &TyInfer| #[trigger] call_requires(visitor.visitor, (u,))
    ensures visited(visitor.visitor, occ(Ty::Reference(*self)), r)
    decreases *self, 0int
//@in fn begin
    proof { lemma_parts(Ty::Reference(*self)); lemma_occ_parts(Ty::Reference(*self)); }
//@end
}
impl TySequence {
//@fn crates/lang/src/types/ty/range_like.rs TypeFoldable@TySequence::deep_visit_with
//@ret r
//@spec
    requires forall|u: &TyInfer| #[trigger] call_requires(visitor.visitor, (u,))
    ensures visited(visitor.visitor, occ(Ty::Seq(*self)), r)
    decreases *self, 0int
//@in fn begin
    proof { lemma_parts(Ty::Seq(*self)); lemma_occ_parts(Ty::Seq(*self)); }
//@end
}
impl TyCallable {
//@fn crates/lang/src/types/ty/ty_callable.rs TypeFoldable@TyCallable::deep_visit_with
//@ret r
//@spec
    requires forall|u: &TyInfer| #[trigger] call_requires(visitor.visitor, (u,))
    ensures visited(visitor.visitor, occ(Ty::Callable(*self)), r)
    decreases *self, 0int
//@in fn begin
    proof { lemma_parts(Ty::Callable(*self)); lemma_occ_parts(Ty::Callable(*self)); }
//@end
}

// ================= what the comparison looks at
//@item crates/lang/src/types/inference/combine_types.rs CombineError
pub type CombineResult = Result<(), CombineError>;
impl CombineError {
//@fn crates/lang/src/types/inference/combine_types.rs CombineError::type_mismatch
//@end
//@fn crates/lang/src/types/inference/combine_types.rs CombineError::ability_mismatch
//@end
}
impl IntegerKind {
//@fn crates/lang/src/types/ty/integer.rs IntegerKind::is_default
//@ret r
//@spec
    ensures r == (*self is Integer)
//@end
}
pub open spec fn unref(t: Ty) -> Ty decreases t { match t { Ty::Reference(r) => unref(*r.referenced), _ => t } }
pub open spec fn refined(t: Ty, msl: bool) -> Ty { if !msl { t } else { match unref(t) { Ty::Integer(_) | Ty::Infer(TyInfer::IntVar(_)) => Ty::Num, x => x } } }
impl Ty {
//@fn crates/lang/src/types/ty.rs Ty::new_reference
//@ret r
//@spec
    ensures r == Ty::Reference(TyReference { referenced: Box::new(inner_ty), mutability })
//@end
//@fn crates/lang/src/types/ty.rs Ty::single_element_tuple_ty
//@ret r
//@rewrite types . clone ( ) . pop ( ) =>> vx_clone_vec(types).pop()
//@spec
    ensures r == match *self { Ty::Tuple(t) => if t.types@.len() == 1 { Some(t.types@[0]) } else { None }, _ => None }
//@end
//@fn crates/lang/src/types/ty.rs Ty::refine_for_specs
//@ret r
//@spec
    ensures r == refined(self, msl)
//@end
//@fn crates/lang/src/types/ty.rs Ty::unwrap_all_refs
//@ret r
//@spec
    ensures r == unref(*self)
    decreases *self
//@end
//@fn crates/lang/src/types/ty.rs Ty::into_ty_callable
//@ret r
//@spec
    ensures r == match self { Ty::Callable(c) => Some(c), _ => None }
//@end
}
/// a type as one passes it: as it is, with the reference the other side asks for
pub open spec fn borrowed(t: Ty, into: Ty) -> Option<Ty> {
    match into {
        Ty::Reference(i) => match t {
            Ty::Reference(x) => if x.mutability is Immutable && i.mutability is Mutable { None } else { Some(Ty::Reference(TyReference { referenced: x.referenced, mutability: i.mutability })) },
            _ => Some(Ty::Reference(TyReference { referenced: Box::new(t), mutability: i.mutability })),
        },
        _ => Some(t),
    }
}
//@fn crates/lang/src/types/ty/reference.rs autoborrow
//@ret r
//@spec
    ensures r == borrowed(ty, *into_ty)
//@end

/// trusted: some answer of the source files
#[verifier::external_body]
pub struct VxTypeParam { }
impl TyVar { #[verifier::external_body] pub fn origin_type_param(&self, db: &VxDb) -> Option<VxTypeParam> { unimplemented!() } }
impl Ty { #[verifier::external_body] pub fn abilities(&self, db: &VxDb) -> Option<Vec<Ability>> { unimplemented!() } }
#[verifier::external_body]
pub fn vx_ability_bounds(p: &VxTypeParam) -> Vec<Ability> { unimplemented!() }
#[verifier::external_body]
pub fn vx_extract(v: &mut Vec<Ability>) -> Vec<Ability> { unimplemented!() }
/// trusted: some variables are added
#[verifier::external_body]
pub fn vx_add_vars(vars: &mut Vec<TyVar>, ty: &Ty) { unimplemented!() }
/// trusted: some answer of the source files
#[verifier::external_body]
pub fn vx_wrapped_lambda(ctx: &mut InferenceCtx, ty: &TyAdt) -> (r: Option<TyCallable>) requires old(ctx).wf() ensures grows(*old(ctx), *final(ctx)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_zip(a: Vec<Ty>, b: Vec<Ty>) -> (r: Vec<(Ty, Ty)>)
    ensures r@.len() == (if a@.len() < b@.len() { a@.len() } else { b@.len() }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (a@[i], b@[i]) { unimplemented!() }
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E, U> [Result::<T, E>::and] (a: Result<T, E>, b: Result<U, E>) -> (r: Result<U, E>) where U: std::marker::Destruct, E: std::marker::Destruct, T: std::marker::Destruct
    ensures r == (match a { Ok(_) => b, Err(e) => Err(e) });

// ================= unification: what is known stays known, nothing becomes a part of itself, and no panic
#[verifier::external_body]
pub fn vx_two(a: Ty, b: Ty) -> (r: Vec<Ty>) ensures r@ == seq![a, b] { vec![a, b] }
impl TypeError {
    #[verifier::external_body] pub fn type_mismatch(node_or_token: SyntaxNodeOrToken, expected_ty: Ty, actual_ty: Ty) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn type_mismatch_any(node_or_token: SyntaxNodeOrToken, expected_tys: Vec<Ty>, actual_ty: Ty) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn missing_abilities(node_or_token: SyntaxNodeOrToken, actual_ty: Ty, missing_abilities: Vec<Ability>) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn invalid_type_argument(node_or_token: SyntaxNodeOrToken, actual_ty: Ty) -> Self { unimplemented!() }
}
/// the table after one step of the variables
pub broadcast proof fn lemma_grow_merge(a: InferenceCtx, b: InferenceCtx, v: TyVar, w: TyVar)
    requires a.wf(), links_ok(b.vm()), #[trigger] merged(a.vm(), b.vm(), v, w), value(a.vm(), v) is None, value(a.vm(), w) is None, b.int_table == a.int_table, same_place(a, b)
    ensures #[trigger] grows(a, b)
{
    lemma_deep_merge(a.vm(), b.vm(), v, w); lemma_keeps(a.vm(), b.vm(), v, w);
}
pub broadcast proof fn lemma_grow_learn(a: InferenceCtx, b: InferenceCtx, v: TyVar, t: Ty)
    requires a.wf(), links_ok(b.vm()), #[trigger] learned(a.vm(), b.vm(), v, t), value(a.vm(), v) is None, root(a.vm(), v) == v, b.int_table == a.int_table, same_place(a, b), !(t matches Ty::Infer(TyInfer::Var(_))),
        forall|n: nat, w: TyVar| vars(t)(w) ==> !#[trigger] reach(a.vm(), n, root(a.vm(), w), v),
    ensures #[trigger] grows(a, b)
{
    lemma_deep_learn(a.vm(), b.vm(), v, t); lemma_keeps2(a.vm(), b.vm(), v, t);
}
pub proof fn lemma_grow_int(a: InferenceCtx, b: InferenceCtx)
    requires a.wf(), links_ok(b.im()), keeps(a.im(), b.im()), forall|i: TyIntVar| (#[trigger] value(b.im(), i)) is Some ==> value(b.im(), i)->0 is Integer, b.var_table == a.var_table, same_place(a, b)
    ensures grows(a, b)
{
}
/// nothing but the errors and the records differs
pub open spec fn untouched(a: InferenceCtx, b: InferenceCtx) -> bool { same_place(a, b) && a.var_table.mapping == b.var_table.mapping && a.int_table.mapping == b.int_table.mapping }
/// what a comparison on trial may rely on and has to leave as it was
#[verifier::prophetic]
pub open spec fn trial<T, F: FnOnce(&mut InferenceCtx) -> T>(f: F, a: InferenceCtx) -> bool {
    &&& forall|x: &mut InferenceCtx| entered(a, *x) ==> #[trigger] call_requires(f, (x,))
    &&& forall|x: &mut InferenceCtx, r: T| entered(a, *x) && #[trigger] call_ensures(f, (x,), r) ==> same_place(*x, *final(x))
}
/// `a` with both tables saved
pub open spec fn entered(a: InferenceCtx, x: InferenceCtx) -> bool {
    &&& x.var_table.mapping == a.var_table.mapping && x.int_table.mapping == a.int_table.mapping
    &&& x.var_table.snapshots@ == a.var_table.snapshots@.push(a.var_table.mapping) && x.int_table.snapshots@ == a.int_table.snapshots@.push(a.int_table.mapping)
    &&& x.db == a.db && x.file_id == a.file_id && x.msl == a.msl && x.ty_var_index == a.ty_var_index
}
impl<'db> InferenceCtx<'db> {
//@fn crates/lang/src/types/inference.rs InferenceCtx::freeze
//@ret r
//@spec
    requires trial(f, *old(self))
    ensures untouched(*old(self), *final(self))
//@in fn end
    assert(self.var_table.snapshots@ =~= old(self).var_table.snapshots@);
    assert(self.int_table.snapshots@ =~= old(self).int_table.snapshots@);
//@end
//@fn crates/lang/src/types/inference.rs InferenceCtx::msl_scope
//@ret r
//@rewrite? | ctx | f ( ctx ) =>> f
//@spec
    requires old(self).msl ==> forall|x: &mut InferenceCtx| *x == *old(self) ==> #[trigger] call_requires(f, (x,)),
        !old(self).msl ==> trial(f, InferenceCtx { msl: true, ..*old(self) })
    ensures !old(self).msl ==> untouched(*old(self), *final(self)),
        old(self).msl ==> exists|x: &mut InferenceCtx| *x == *old(self) && #[trigger] call_ensures(f, (x,), r) && *final(x) == *final(self)
//@end
//@fn crates/lang/src/types/inference/combine_types.rs InferenceCtx::is_tys_compatible
//@ret r
//@closure 0
    |ctx: &mut InferenceCtx| -> (r: bool) requires old(ctx).wf() ensures grows(*old(ctx), *final(ctx))
//@spec
    requires old(self).wf()
    ensures untouched(*old(self), *final(self))
//@end
//@fn crates/lang/src/types/ty/reference.rs InferenceCtx::is_tys_compatible_with_autoborrow
//@ret r
//@spec
    requires old(self).wf()
    ensures untouched(*old(self), *final(self))
//@end
//@fn crates/lang/src/types/inference.rs InferenceCtx::push_type_error
//@spec
    ensures final(self).var_table == old(self).var_table, final(self).int_table == old(self).int_table, same_place(*old(self), *final(self))
//@end
//@fn crates/lang/src/types/inference/combine_types.rs InferenceCtx::ty_contains_ty_var
//@ret r
//@spec
    requires self.wf(), root(self.vm(), *ty_var) == *ty_var, value(self.vm(), *ty_var) is None
    ensures !r ==> forall|n: nat, w: TyVar| vars(*ty)(w) ==> !#[trigger] reach(self.vm(), n, root(self.vm(), w), *ty_var)
//@closure 0
    |ty_infer: &TyInfer| -> (r: bool) ensures r == match *ty_infer { TyInfer::Var(u) => root(self.vm(), u) == *ty_var, _ => false }
//@in fn begin
    let ghost ty0 = *ty;
//@in fn end
    proof {
        assert forall|n: nat, w: TyVar| vars(ty0)(w) && #[trigger] reach(self.vm(), n, root(self.vm(), w), *ty_var) implies exists|u: TyVar| #[trigger] occ(ty)(TyInfer::Var(u)) && root(self.vm(), u) == *ty_var by {
            lemma_occurs_check(self.vm(), self.im(), ty0, ty, n, w, *ty_var);
            let u = choose|u: TyVar| #[trigger] vars(ty)(u) && root(self.vm(), u) == *ty_var;
            assert(occ(ty)(TyInfer::Var(u)));
        }
    }
//@end
//@fn crates/lang/src/types/inference/combine_types.rs InferenceCtx::unify_ty_var
//@ret r
//@rewrite if let $p = $q && ! self . msl $b =>> if let $p = $q { if !self.msl $b }
//@rewrite origin_type_param . value . ability_bounds ( ) . iter ( ) . filter_map ( | it | $$e ) . collect :: < Vec < _ > > ( ) =>> vx_ability_bounds(&origin_type_param)
//@rewrite $v . extract_if ( .. , | it | $$e ) . collect :: < Vec < _ > > ( ) =>> vx_extract(&mut $v)
//@spec
    requires old(self).wf(), value(old(self).vm(), *var) is None, ty matches Ty::Infer(TyInfer::Var(w)) ==> value(old(self).vm(), w) is None
    ensures grows(*old(self), *final(self))
//@in fn begin
    broadcast use lemma_grow_merge, lemma_grow_learn;
    proof { lemma_root(self.vm(), *var); }
//@end
//@fn crates/lang/src/types/inference/combine_types.rs InferenceCtx::unify_int_var
//@ret r
//@spec
    requires old(self).wf(), value(old(self).im(), int_var) is None, ty matches Ty::Infer(TyInfer::IntVar(w)) ==> value(old(self).im(), w) is None
    ensures grows(*old(self), *final(self))
//@end
//@fn crates/lang/src/types/inference/combine_types.rs InferenceCtx::unify_ty_vars_with_unknown
//@rewrite let ty_vars = RefCell :: new ( vec ! [ ] ) ; =>> let mut ty_vars: Vec<TyVar> = Vec::new();
//@rewrite ty . deep_visit_ty_infers ( | ty_infer | $b ) ; =>> vx_add_vars(&mut ty_vars, &ty);
//@rewrite ty_vars . into_inner ( ) =>> ty_vars
//@loop 0
    invariant *self == *old(self)
//@loop 1
    invariant grows(*old(self), *self)
//@spec
    requires old(self).wf()
    ensures grows(*old(self), *final(self))
//@end
//@fn crates/lang/src/types/inference/combine_types.rs InferenceCtx::combine_types
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@spec
    requires old(self).wf()
    ensures grows(*old(self), *final(self))
//@end
//@fn crates/lang/src/types/inference/combine_types.rs InferenceCtx::combine_no_vars
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@rewrite vec ! [ expected_ty , actual_ty ] =>> vx_two(expected_ty, actual_ty)
//@spec
    requires old(self).wf()
    ensures grows(*old(self), *final(self))
//@end
//@fn crates/lang/src/types/inference/combine_types.rs InferenceCtx::combine_ty_refs
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@rewrite $a . to_owned ( ) . into ( ) =>> Ty::Reference($a.clone())
//@spec
    requires old(self).wf()
    ensures grows(*old(self), *final(self))
//@end
//@fn crates/lang/src/types/inference/combine_types.rs InferenceCtx::combine_ty_callables
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@rewrite $a . clone ( ) . param_types =>> vx_clone_vec(&$a.param_types)
//@spec
    requires old(self).wf()
    ensures grows(*old(self), *final(self))
//@end
//@fn crates/lang/src/types/inference/combine_types.rs InferenceCtx::combine_new_type_struct_with_lambda
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@rewrite let struct_inner_lambda_type = expected_ty_adt . adt_item ( self . db ) ? . and_then ( | item | $$e ) ? ; =>>
//@rewrite ty_db :: lower_type_for_ctx ( self , struct_inner_lambda_type . map_into ( ) ) . into_ty_callable ( ) ? . substitute ( & expected_ty_adt . substitution ) =>> vx_wrapped_lambda(self, expected_ty_adt)?
//@spec
    requires old(self).wf()
    ensures grows(*old(self), *final(self))
//@end
//@fn crates/lang/src/types/inference/combine_types.rs InferenceCtx::combine_ty_adts
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@rewrite $a . clone ( ) . type_args =>> vx_clone_vec(&$a.type_args)
//@spec
    requires old(self).wf()
    ensures grows(*old(self), *final(self))
//@end
//@fn crates/lang/src/types/inference/combine_types.rs InferenceCtx::combine_ty_tuples
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@rewrite $a . clone ( ) . types =>> vx_clone_vec(&$a.types)
//@spec
    requires old(self).wf()
    ensures grows(*old(self), *final(self))
//@end
//@fn crates/lang/src/types/inference/combine_types.rs InferenceCtx::combine_ty_pairs
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@rewrite zip ( $a . into_iter ( ) , $b . into_iter ( ) ) =>> vx_zip($a, $b)
//@loop 0
    invariant grows(*old(self), *self)
//@spec
    requires old(self).wf()
    ensures grows(*old(self), *final(self))
//@end
//@fn crates/lang/src/types/inference/combine_types.rs InferenceCtx::intersect_types
//@ret r
//@spec
    requires old(self).wf()
    ensures grows(*old(self), *final(self))
//@end
//@fn crates/lang/src/types/inference/combine_types.rs InferenceCtx::intersect_all_types
//@ret r
//@rewrite let resolved_types = types . into_iter ( ) . map ( | it | $$e ) . collect :: < Vec < _ > > ( ) ; =>> let mut resolved_types: Vec<Ty> = Vec::new(); for it in /*@{ vx_it: }@*/ types /*@{ invariant *self == *old(self), self.wf(), }@*/ { let vx_t = $e; resolved_types.push(vx_t); }
//@rewrite resolved_types . into_iter ( ) . reduce ( | acc , ty | $$e ) . unwrap_or ( $$d ) =>> let mut vx_acc: Option<Ty> = None; for ty in /*@{ vx_it: }@*/ resolved_types /*@{ invariant grows(*old(self), *self), }@*/ { vx_acc = match vx_acc { None => Some(ty), Some(acc) => Some($e) }; } match vx_acc { Some(vx_t) => vx_t, None => $d }
//@spec
    requires old(self).wf()
    ensures grows(*old(self), *final(self))
//@end
//@fn crates/lang/src/types/inference/combine_types.rs InferenceCtx::report_combine_error
//@spec
    requires old(self).wf()
    ensures grows(*old(self), *final(self))
//@end
//@fn crates/lang/src/types/inference/combine_types.rs InferenceCtx::coerce_types
//@ret r
//@spec
    requires old(self).wf()
    ensures grows(*old(self), *final(self))
//@end
//@fn crates/lang/src/types/inference/combine_types.rs InferenceCtx::coerce_to_any_type
//@ret r
//@rewrite vec ! [ ] =>> Vec::new()
//@rewrite expected_tys . clone ( ) =>> vx_clone_vec(&expected_tys)
//@loop 0
    invariant grows(*old(self), *self)
//@spec
    requires old(self).wf()
    ensures grows(*old(self), *final(self))
//@end
}

// ================= full resolution: no variable is left; substitution: every parameter is replaced
//@item crates/lang/src/types/fold.rs Fallback derive(Clone, Copy, PartialEq, Eq, Structural)
pub open spec fn full_shallow(m: VM, im: IM, fb: Fallback, t: Ty) -> Ty {
    match shallow(m, im, t) {
        Ty::Infer(TyInfer::Var(v)) => match (fb, v.kind) { (Fallback::Origin, TyVarKind::WithOrigin { origin_loc, .. }) => Ty::TypeParam(TyTypeParameter { origin_loc }), _ => Ty::Unknown },
        s => s,
    }
}
pub open spec fn fully(m: VM, im: IM, fb: Fallback, t: Ty, t2: Ty) -> bool
    decreases level(m, t), t when ok(m, im) via fully_dec
{
    let s = full_shallow(m, im, fb, t);
    same_shape(s, t2) && forall|k: Key| has_kid(s, k) ==> fully(m, im, fb, kid(s, k), #[trigger] kid(t2, k))
}
#[via_fn]
proof fn fully_dec(m: VM, im: IM, fb: Fallback, t: Ty, t2: Ty) {
    let s = full_shallow(m, im, fb, t);
    assert forall|k: Key| has_kid(s, k) implies level(m, kid(s, k)) < level(m, t) || (level(m, kid(s, k)) == level(m, t) && decreases_to!(t => kid(s, k))) by { assert(s == shallow(m, im, t)); lemma_part(m, im, t, k); }
}
pub proof fn lemma_fully(m: VM, im: IM, fb: Fallback, t: Ty, t2: Ty, v: TyVar)
    requires ok(m, im), fully(m, im, fb, t, t2)
    ensures !occurs(t2, TyInfer::Var(v))
    decreases level(m, t), t
{
    let s = full_shallow(m, im, fb, t);
    if occurs(t2, TyInfer::Var(v)) {
        assert(t2 != Ty::Infer(TyInfer::Var(v)));
        let k = choose|k: Key| has_kid(t2, k) && occurs(#[trigger] kid(t2, k), TyInfer::Var(v));
        assert(has_kid(s, k)); assert(s == shallow(m, im, t));
        lemma_part(m, im, t, k);
        lemma_fully(m, im, fb, kid(s, k), kid(t2, k), v);
    }
}
//@item crates/lang/src/types/fold.rs FullTyVarResolver
impl TyTypeParameter {
//@fn crates/lang/src/types/ty/type_param.rs TyTypeParameter::from_loc
//@ret r
//@spec
    ensures r.origin_loc == origin_loc
//@end
}
impl<'a> FullTyVarResolver<'a> {
//@fn crates/lang/src/types/fold.rs FullTyVarResolver::new
//@ret r
//@spec
    ensures *r.ctx == *ctx, r.fallback == fallback
//@end
    /// trusted: `deep_fold_with` folds every part (proved above for the other folder)
    #[verifier::external_body]
    pub fn vx_parts(&self, t: Ty) -> (r: Ty)
        requires self.ctx.wf(), !(t is Infer && t->Infer_0 is Var)
        ensures same_shape(t, r), forall|k: Key| has_kid(t, k) ==> fully(self.ctx.vm(), self.ctx.im(), self.fallback, kid(t, k), #[trigger] kid(r, k)) { unimplemented!() }
//@fn crates/lang/src/types/fold.rs TypeFolder@FullTyVarResolver::fold_ty
//@ret r
//@rewrite $a . deep_fold_with ( self ) =>> self.vx_parts($a)
//@rewrite origin_loc . to_owned ( ) =>> *origin_loc
//@spec
    requires self.ctx.wf()
    ensures fully(self.ctx.vm(), self.ctx.im(), self.fallback, t, r)
//@in fn begin
    let ghost t0 = t;
    proof { lemma_shallow(self.ctx.vm(), self.ctx.im(), t); }
//@in fn end
    proof { assert(res_ty == full_shallow(self.ctx.vm(), self.ctx.im(), self.fallback, t0)); }
//@end
}
impl<'db> InferenceCtx<'db> {
//@fn crates/lang/src/types/inference.rs InferenceCtx::fully_resolve_vars
//@ret r
//@rewrite < T : TypeFoldable < T > > =>>
//@rewrite foldable : T =>> foldable: Ty
//@rewrite -> T =>> -> Ty
//@rewrite $a . fold_with ( & FullTyVarResolver :: new ( & self , $$b ) ) =>> FullTyVarResolver::new(self, $b).fold_ty($a)
//@spec
    requires self.wf()
    ensures fully(self.vm(), self.im(), Fallback::Unknown, foldable, r), forall|v: TyVar| !#[trigger] occurs(r, TyInfer::Var(v))
//@in fn begin
    proof { assert forall|r: Ty, v: TyVar| fully(self.vm(), self.im(), Fallback::Unknown, foldable, r) implies !#[trigger] occurs(r, TyInfer::Var(v)) by { lemma_fully(self.vm(), self.im(), Fallback::Unknown, foldable, r, v); } }
//@end
//@fn crates/lang/src/types/inference.rs InferenceCtx::fully_resolve_vars_fallback_to_origin
//@ret r
//@rewrite < T : TypeFoldable < T > > =>>
//@rewrite foldable : T =>> foldable: Ty
//@rewrite -> T =>> -> Ty
//@rewrite $a . fold_with ( & FullTyVarResolver :: new ( & self , $$b ) ) =>> FullTyVarResolver::new(self, $b).fold_ty($a)
//@spec
    requires self.wf()
    ensures fully(self.vm(), self.im(), Fallback::Origin, foldable, r), forall|v: TyVar| !#[trigger] occurs(r, TyInfer::Var(v))
//@in fn begin
    proof { assert forall|r: Ty, v: TyVar| fully(self.vm(), self.im(), Fallback::Origin, foldable, r) implies !#[trigger] occurs(r, TyInfer::Var(v)) by { lemma_fully(self.vm(), self.im(), Fallback::Origin, foldable, r, v); } }
//@end
}
pub open spec fn substituted(s: Substitution, t: Ty, r: Ty) -> bool decreases t via substituted_dec {
    match t {
        Ty::TypeParam(p) => r == (if s.mapping@.dom().contains(p) { s.mapping@[p] } else { t }),
        _ => same_shape(t, r) && forall|k: Key| has_kid(t, k) ==> substituted(s, kid(t, k), #[trigger] kid(r, k)),
    }
}
#[via_fn]
proof fn substituted_dec(s: Substitution, t: Ty, r: Ty) { assert forall|k: Key| has_kid(t, k) implies decreases_to!(t => kid(t, k)) by { lemma_kid_smaller(t, k); } }
impl Substitution {
//@fn crates/lang/src/types/substitution.rs Substitution::get_ty
//@ret r
//@closure 0
    |it: &Ty| -> (r: Ty) ensures r == *it
//@spec
    ensures r == (if self.mapping@.dom().contains(*ty_tp) { Some(self.mapping@[*ty_tp]) } else { None })
//@end
}
//@item crates/lang/src/types/substitution.rs SubstitutionApplier
impl SubstitutionApplier<'_> {
    /// trusted: as above
    #[verifier::external_body]
    pub fn vx_parts(&self, t: Ty) -> (r: Ty)
        ensures same_shape(t, r), forall|k: Key| has_kid(t, k) ==> substituted(*self.subst, kid(t, k), #[trigger] kid(r, k)) { unimplemented!() }
//@fn crates/lang/src/types/substitution.rs TypeFolder@SubstitutionApplier::fold_ty
//@ret r
//@rewrite $a . deep_fold_with ( self ) =>> self.vx_parts($a)
//@spec
    ensures substituted(*self.subst, ty, r)
//@end
}
impl<'db> InferenceCtx<'db> {
//@fn crates/lang/src/types/inference.rs InferenceCtx::new
//@ret r
//@rewrite vec ! [ ] =>> Vec::new()
//@rewrite TyVarIndex :: default ( ) =>> vx_index()
//@spec
    ensures r.wf(), r.msl == msl, r.var_table.snapshots@.len() == 0
//@in fn begin
    proof { let m = Tab::<TyVar>::empty(); assert(links_by(m, |v: TyVar| 0nat)); assert(deep_by(m, |v: TyVar| 0nat, |s: spec_fn(TyVar) -> bool| 1nat)); assert(links_by(Tab::<TyIntVar>::empty(), |v: TyIntVar| 0nat)); }
//@end
}
#[verifier::external_body]
pub fn vx_index() -> TyVarIndex { unimplemented!() }
}
