//! Oracle for unification and type resolution, against the real functions of /repo.
#![allow(dead_code, unused, non_local_definitions)]
use native::*;
use std::collections::{BTreeMap, HashMap, HashSet};
include!("../../../build/gen/types.rs");
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct FileId(pub u32);
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct ScopeEntry;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct ScopeEntryWithVis;
pub mod base_db {
    pub trait SourceDatabase {}
    pub struct Db; impl SourceDatabase for Db {}
}
/// a type parameter or item is its number: `n % 16` as a bit set is the abilities it declares
pub mod loc {
    use crate::syntax::*; use crate::base_db::SourceDatabase;
    #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct SyntaxLoc(pub u32);
    impl SyntaxLoc {
        pub fn to_ast<T: From<u32>>(&self, db: &dyn SourceDatabase) -> Option<InFile<T>> { if self.0 % 100 >= 90 { None } else { Some(InFile { value: T::from(self.0) }) } }
        pub fn node_name(&self) -> Option<&String> { None }
    }
}
pub mod syntax {
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct InFile<T> { pub value: T }
    impl<T> InFile<T> { pub fn and_then<U>(self, f: impl FnOnce(T) -> Option<U>) -> Option<InFile<U>> { f(self.value).map(|value| InFile { value }) } pub fn map<U>(self, f: impl FnOnce(T) -> U) -> InFile<U> { InFile { value: f(self.value) } } pub fn map_into<U: From<T>>(self) -> InFile<U> { self.map(|x| x.into()) } }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)] pub struct TextRange(pub u32);
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)] pub struct SyntaxKind(pub u32);
    #[derive(Clone, Debug)] pub struct SyntaxNodeOrToken(pub u32);
    impl SyntaxNodeOrToken { pub fn text_range(&self) -> TextRange { TextRange(self.0) } }
    pub struct Node(pub u32);
    impl Node { pub fn text_range(&self) -> TextRange { TextRange(self.0) } pub fn kind(&self) -> SyntaxKind { SyntaxKind(self.0) } }
    pub trait AstNode { fn syntax(&self) -> Node; }
    pub mod ast {
        use super::*;
        macro_rules! nodes { ($($n:ident)*) => { $(#[derive(Clone, Debug, PartialEq, Eq, Hash)] pub struct $n(pub u32); impl AstNode for $n { fn syntax(&self) -> Node { Node(self.0) } } impl From<u32> for $n { fn from(x: u32) -> Self { $n(x) } })* } }
        nodes!(Pat StructPatField Expr AnyCallExpr Path MethodCallExpr NameRef IdentPat LambdaExpr TypeParam StructOrEnum BinExpr Ability Struct LambdaType Type Schema);
        #[derive(Clone, Debug, PartialEq)] pub enum ArithOp { Add }
        #[derive(Clone, Debug, PartialEq)] pub enum BinaryOp { ArithOp(ArithOp), CmpOp(u8) }
        impl BinaryOp { pub fn to_string(&self) -> String { String::new() } }
        pub struct Ident(pub u32);
        impl std::fmt::Display for Ident { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(["copy", "drop", "store", "key"][self.0 as usize]) } }
        impl Ability { pub fn ident_token(&self) -> Ident { Ident(self.0) } }
        pub fn bits(n: u32) -> Vec<Ability> { (0..4).filter(|b| n % 16 >> b & 1 == 1).map(Ability).collect() }
        impl TypeParam { pub fn ability_bounds(&self) -> Vec<Ability> { bits(self.0) } }
        impl StructOrEnum { pub fn abilities(&self) -> Vec<Ability> { bits(self.0) } pub fn struct_(&self) -> Option<Struct> { Some(Struct(self.0)) } }
        impl Struct { pub fn wrapped_lambda_type(&self) -> Option<LambdaType> { if self.0 % 7 == 3 { Some(LambdaType(self.0)) } else { None } } }
        impl From<LambdaType> for Type { fn from(x: LambdaType) -> Type { Type(x.0) } }
    }
}
pub mod ty_db {
    use super::*;
    /// what stands in the item: |T| -> vector<T> over the item's parameter
    pub fn lower_type_for_ctx(ctx: &mut InferenceCtx, t: syntax::InFile<syntax::ast::Type>) -> Ty {
        let p = Ty::TypeParam(TyTypeParameter::from_loc(loc::SyntaxLoc(1000 + t.value.0)));
        Ty::Callable(TyCallable::new(vec![p.clone()], Ty::new_vector(p), TyCallableKind::Lambda(None)))
    }
}
use types::{abilities::Ability, fold::*, inference::*, inference::combine_types::*, substitution::*, ty::*, ty::adt::TyAdt, ty::integer::IntegerKind, ty::range_like::TySequence, ty::reference::*, ty::schema::TySchema, ty::tuple::TyTuple, ty::ty_callable::*, ty::ty_var::*, ty::type_param::TyTypeParameter, unification::*};
use loc::SyntaxLoc;

#[derive(Clone)]
struct Gen { vars: Vec<TyVar>, ints: Vec<TyIntVar> }
fn gen_ty(r: &mut Rng, g: &Gen, depth: usize) -> Ty {
    let n = if depth == 0 { 8 } else { 15 };
    let d = depth.saturating_sub(1);
    match r.below(n) {
        0..=3 => Ty::Infer(TyInfer::Var(r.pick(&g.vars).clone())),
        4 => Ty::Infer(TyInfer::IntVar(r.pick(&g.ints).clone())),
        5 => Ty::Integer(*r.pick(&[IntegerKind::U8, IntegerKind::U64, IntegerKind::Integer])),
        6 => r.pick(&[Ty::Unknown, Ty::Bool, Ty::Unknown, Ty::Never, Ty::Unit, Ty::Address]).clone(),
        7 => Ty::TypeParam(TyTypeParameter::from_loc(SyntaxLoc(15))),
        8 | 9 => if r.chance(1, 4) { Ty::Seq(TySequence::Range(Box::new(gen_ty(r, g, d)))) } else { Ty::new_vector(gen_ty(r, g, d)) },
        10 => Ty::new_reference(gen_ty(r, g, d), Mutability::new(r.chance(1, 2))),
        11 | 12 => adt(r, g, d),
        13 => { let k = r.below(4); let ps = (0..k).map(|_| gen_ty(r, g, d)).collect(); Ty::Callable(TyCallable::new(ps, gen_ty(r, g, d), if r.chance(1, 2) { TyCallableKind::Lambda(None) } else { TyCallableKind::named(Substitution::new(HashMap::from([(TyTypeParameter::from_loc(SyntaxLoc(40)), gen_ty(r, g, 0))])), None) })) }
        _ => { let k = r.below(3); Ty::new_tuple((0..k).map(|_| gen_ty(r, g, d)).collect()) }
    }
}
fn adt(r: &mut Rng, g: &Gen, d: usize) -> Ty {
    let item = *r.pick(&[31u32, 31, 31, 17, 95, 20]);
    let args: Vec<Ty> = (0..if item == 31 { 2 } else { 1 }).map(|_| gen_ty(r, g, d)).collect();
    let subst = args.iter().enumerate().map(|(i, t)| (TyTypeParameter::from_loc(SyntaxLoc(1000 + item + 16 * i as u32)), t.clone())).collect();
    if r.chance(1, 12) { return Ty::Schema(TySchema { schema_loc: SyntaxLoc(item), substitution: Substitution::new(subst), type_args: args }) }
    let args = if r.chance(1, 12) { vec![] } else { args };
    Ty::Adt(TyAdt { adt_item_loc: SyntaxLoc(item), substitution: Substitution::new(subst), type_args: args })
}
fn kids(t: &Ty) -> Vec<Ty> {
    let sv = |s: &Substitution| { let mut v: Vec<(u32, Ty)> = s.entries().map(|(k, t)| (k.origin_loc.0, t.clone())).collect(); v.sort_by_key(|x| x.0); v.into_iter().map(|x| x.1).collect::<Vec<_>>() };
    match t {
        Ty::Adt(a) => [sv(&a.substitution), a.type_args.clone()].concat(),
        Ty::Schema(a) => [sv(&a.substitution), a.type_args.clone()].concat(),
        Ty::Seq(s) => vec![s.item()], Ty::Reference(x) => vec![x.referenced()], Ty::Tuple(x) => x.types.clone(),
        Ty::Callable(c) => [c.param_types.clone(), vec![c.ret_type_ty()], match &c.kind { TyCallableKind::Named(s, _) => sv(s), _ => vec![] }].concat(),
        _ => vec![],
    }
}
/// the same type with other children
fn shape(t: &Ty) -> String {
    match t {
        Ty::Adt(a) => format!("adt {:?} {:?} {}", a.adt_item_loc, { let mut k: Vec<u32> = a.substitution.entries().map(|e| e.0.origin_loc.0).collect(); k.sort(); k }, a.type_args.len()),
        Ty::Schema(a) => format!("schema {:?} {}", a.schema_loc, a.type_args.len()),
        Ty::Seq(TySequence::Vector(_)) => "vector".into(), Ty::Seq(_) => "range".into(),
        Ty::Reference(x) => format!("& {:?}", x.mutability), Ty::Tuple(x) => format!("tuple {}", x.types.len()),
        Ty::Callable(c) => format!("fn {} {:?}", c.param_types.len(), matches!(c.kind, TyCallableKind::Named(..))),
        _ => format!("{t:?}"),
    }
}
fn vars(t: &Ty, out: &mut Vec<TyVar>) { if let Ty::Infer(TyInfer::Var(v)) = t { out.push(v.clone()) } for k in kids(t) { vars(&k, out) } }
fn ints(t: &Ty, out: &mut Vec<TyIntVar>) { if let Ty::Infer(TyInfer::IntVar(v)) = t { out.push(v.clone()) } for k in kids(t) { ints(&k, out) } }
/// everything the tables say about the variables
fn snap(ctx: &InferenceCtx, g: &Gen) -> Vec<(String, Option<Ty>)> {
    g.vars.iter().map(|v| (format!("{:?}", ctx.var_table.resolve_to_root_var(v)), ctx.var_table.resolve_to_ty_value(v)))
        .chain(g.ints.iter().map(|v| (format!("{:?}", ctx.int_table.resolve_to_root_var(v)), ctx.int_table.resolve_to_ty_value(v)))).collect()
}
type R = Result<(), String>;
/// no variable stands for a type that contains it
fn check_finite(ctx: &InferenceCtx, g: &Gen) -> R {
    fn go(ctx: &InferenceCtx, t: &Ty, path: &mut Vec<TyVar>) -> R {
        if let Ty::Infer(TyInfer::Var(v)) = t {
            let root = ctx.var_table.resolve_to_root_var(v);
            if let Some(val) = ctx.var_table.resolve_to_ty_value(v) {
                if path.contains(&root) { return Err(format!("{root:?} stands for a type that contains it")) }
                if matches!(val, Ty::Infer(TyInfer::Var(_))) { return Err("a variable as a value".into()) }
                path.push(root); go(ctx, &val, path)?; path.pop();
            }
        }
        for k in kids(t) { go(ctx, &k, path)? }
        Ok(())
    }
    for v in &g.vars { go(ctx, &Ty::Infer(TyInfer::Var(v.clone())), &mut vec![])? }
    for v in &g.ints { if let Some(t) = ctx.int_table.resolve_to_ty_value(v) { if !matches!(t, Ty::Integer(_)) { return Err(format!("an integer variable stands for {t:?}")) } } }
    Ok(())
}
/// `t` with every variable replaced by what it stands for
fn check_resolved(ctx: &InferenceCtx, t: &Ty, got: &Ty) -> R {
    let val = match t { Ty::Infer(TyInfer::Var(v)) => ctx.var_table.resolve_to_ty_value(v), Ty::Infer(TyInfer::IntVar(v)) => ctx.int_table.resolve_to_ty_value(v), _ => None };
    if let Some(val) = val { return check_resolved(ctx, &val, got) }
    if shape(t) != shape(got) { return Err(format!("{t:?} is resolved to {got:?}")) }
    let (a, b) = (kids(t), kids(got));
    if a.len() != b.len() { return Err(format!("{t:?} is resolved to {got:?}")) }
    for (x, y) in a.iter().zip(&b) { check_resolved(ctx, x, y)? }
    Ok(())
}
fn check_fully(ctx: &InferenceCtx, origin: bool, t: &Ty, got: &Ty) -> R {
    let val = match t { Ty::Infer(TyInfer::Var(v)) => Some(ctx.var_table.resolve_to_ty_value(v).unwrap_or(match &v.kind { TyVarKind::WithOrigin { origin_loc, .. } if origin => Ty::TypeParam(TyTypeParameter::from_loc(origin_loc.clone())), _ => Ty::Unknown })), Ty::Infer(TyInfer::IntVar(v)) => ctx.int_table.resolve_to_ty_value(v), _ => None };
    if let Some(val) = val { return check_fully(ctx, origin, &val, got) }
    if shape(t) != shape(got) { return Err(format!("{t:?} is fully resolved to {got:?}")) }
    let (a, b) = (kids(t), kids(got));
    if a.len() != b.len() { return Err(format!("{t:?} is fully resolved to {got:?}")) }
    for (x, y) in a.iter().zip(&b) { check_fully(ctx, origin, x, y)? }
    Ok(())
}
/// `t` with every parameter replaced
fn check_subst(s: &Substitution, t: &Ty, got: &Ty) -> R {
    if let Ty::TypeParam(p) = t {
        let want = s.entries().find(|e| e.0 == p).map(|e| e.1.clone()).unwrap_or(t.clone());
        return if *got == want { Ok(()) } else { Err(format!("{t:?} is replaced by {got:?}, not {want:?}")) };
    }
    if shape(t) != shape(got) { return Err(format!("{t:?} becomes {got:?} by {s:?}")) }
    let (a, b) = (kids(t), kids(got));
    if a.len() != b.len() { return Err(format!("{t:?} becomes {got:?} by {s:?}")) }
    for (x, y) in a.iter().zip(&b) { check_subst(s, x, y)? }
    Ok(())
}
/// no unresolved variable
fn check_full(t: &Ty, origin: bool) -> R {
    let mut v = vec![]; vars(t, &mut v);
    if !v.is_empty() { return Err(format!("{t:?} is not fully resolved")) }
    Ok(())
}
/// what may be used for what, read off two resolved types
fn compatible(msl: bool, e: &Ty, a: &Ty) -> bool {
    let (e, a) = (&e.clone().refine_for_specs(msl), &a.clone().refine_for_specs(msl));
    if let (Ty::Unknown | Ty::Never, _) | (_, Ty::Unknown | Ty::Never) = (e, a) { return true }
    let a1 = a.single_element_tuple_ty();
    if a1.as_ref().is_some_and(|i| compatible(msl, e, i)) { return true }
    let a = match &a1 { Some(i) if !matches!(e, Ty::Tuple(_)) => i, _ => a };
    if e == a { return true }
    if let (Ty::Infer(TyInfer::Var(_)), _) | (_, Ty::Infer(TyInfer::Var(_))) = (e, a) { return false }
    let pairs = |x: &[Ty], y: &[Ty]| x.iter().zip(y).all(|(x, y)| compatible(msl, x, y));
    match (e, a) {
        (Ty::Unknown | Ty::Never, _) | (_, Ty::Unknown | Ty::Never) => true,
        (Ty::Infer(_), Ty::Integer(k)) | (Ty::Integer(k), Ty::Infer(_)) => false,
        (Ty::Integer(x), Ty::Integer(y)) => x == y || x.is_default() || y.is_default(),
        (Ty::Seq(x), Ty::Seq(y)) => compatible(msl, &x.item(), &y.item()),
        (Ty::Reference(x), Ty::Reference(y)) => (!x.is_mut() || y.is_mut()) && compatible(msl, &x.referenced(), &y.referenced()),
        (Ty::Adt(x), Ty::Callable(y)) => true,
        (Ty::Callable(x), Ty::Callable(y)) => pairs(&x.param_types, &y.param_types) && compatible(msl, &x.ret_type_ty().unwrap_all_refs(), &y.ret_type_ty().unwrap_all_refs()),
        (Ty::Adt(x), Ty::Adt(y)) => x.adt_item_loc == y.adt_item_loc && pairs(&x.type_args, &y.type_args),
        (Ty::Tuple(x), Ty::Tuple(y)) => x.types.len() == y.types.len() && pairs(&x.types, &y.types),
        _ => false,
    }
}
fn gen_of(r: &mut Rng) -> Gen {
    Gen { vars: (0..r.range(1, 6)).map(|i| if r.chance(1, 3) { TyVar::new_with_origin(SyntaxLoc(if r.chance(1, 3) { 16 } else { 10 }), i) } else { TyVar::new_anonymous(i) }).collect(), ints: (0..r.range(1, 3)).map(TyIntVar::new).collect() }
}
fn step(r: &mut Rng, g: &Gen, ctx: &mut InferenceCtx, what: &str) -> R {
    let d = r.below(3);
    let (a, b) = (gen_ty(r, g, d), gen_ty(r, g, d));
    let before = snap(ctx, g);
    let errs = ctx.type_errors.clone();
    let trial = r.chance(1, 4);
    if trial {
        match r.below(4) {
            0 => { ctx.is_tys_compatible(a, b); }
            1 => { ctx.is_tys_compatible_with_autoborrow(a, b); }
            2 => { let mut r2 = Rng(r.next()); let n = r2.below(3); ctx.freeze(|c| { for _ in 0..n { step(&mut r2, g, c, "") ?; } R::Ok(()) })?; }
            _ => { let m = ctx.msl; let mut r2 = Rng(r.next()); ctx.msl_scope(|c| { if !c.msl { return Err("not in spec mode".to_string()) } if m { Ok(()) } else { step(&mut r2, g, c, "") } })?; if ctx.msl != m { return Err("spec mode is kept".into()) } }
        }
        if what == "trial" && snap(ctx, g) != before { return Err(format!("a trial changed {before:?} to {:?}", snap(ctx, g))) }
    } else {
        match r.below(5) {
            0 => { ctx.coerce_types(syntax::SyntaxNodeOrToken(1), a.clone(), b.clone()); }
            1 => { let mut v = vec![a.clone(), b.clone()]; for _ in 0..r.below(2) { v.push(gen_ty(r, g, 1)) } ctx.intersect_all_types(v); }
            2 => { ctx.coerce_to_any_type(syntax::SyntaxNodeOrToken(1), a.clone(), vec![b.clone(), gen_ty(r, g, 1)]); }
            _ => {
                let ok = ctx.combine_types(a.clone(), b.clone()).is_ok();
                if what == "unify" { check_finite(ctx, g)? }
                let (x, y) = (ctx.resolve_ty_vars_if_possible(a.clone()), ctx.resolve_ty_vars_if_possible(b.clone()));
                if what == "unify" && ok && !ctx.msl && !compatible_up_to_roots(ctx, &x, &y) { return Err(format!("{a:?} and {b:?} were found compatible, but they are {x:?} and {y:?}")) }
            }
        }
        if what == "unify" { check_finite(ctx, g)? }
        // what was known stays known
        if what == "unify" { for (v, (_, old)) in g.vars.iter().zip(&before) { if let Some(t) = old { if ctx.var_table.resolve_to_ty_value(v).as_ref() != Some(t) { return Err(format!("{v:?} stood for {t:?}, now for {:?}", ctx.var_table.resolve_to_ty_value(v))) } } } }
    }
    if what != "resolve" { return Ok(()) }
    let t = gen_ty(r, g, 2);
    let got = ctx.resolve_ty_vars_if_possible(t.clone());
    check_resolved(ctx, &t, &got)?;
    check_full(&ctx.fully_resolve_vars(t.clone()), false)?;
    check_fully(ctx, false, &t, &ctx.fully_resolve_vars(t.clone()))?;
    check_fully(ctx, true, &t, &ctx.fully_resolve_vars_fallback_to_origin(t.clone()))?;
    check_full(&ctx.fully_resolve_vars_fallback_to_origin(t.clone()), true)?;
    let mut subst = HashMap::new();
    for p in [15u32, 1031, 1047] { if r.chance(2, 3) { subst.insert(TyTypeParameter::from_loc(SyntaxLoc(p)), gen_ty(r, g, 1)); } }
    let subst = Substitution::new(subst);
    check_subst(&subst, &t, &t.clone().substitute(&subst))?;
    Ok(())
}
fn compatible_up_to_roots(ctx: &InferenceCtx, a: &Ty, b: &Ty) -> bool {
    fn canon(ctx: &InferenceCtx, t: &Ty) -> Ty { TyInferCanon { ctx }.go(t.clone()) }
    compatible(false, &canon(ctx, a), &canon(ctx, b))
}
struct TyInferCanon<'a> { ctx: &'a InferenceCtx<'a> }
impl TyInferCanon<'_> {
    fn go(&self, t: Ty) -> Ty { t.fold_with(&Canon { ctx: self.ctx }) }
}
#[derive(Clone)] struct Canon<'a> { ctx: &'a InferenceCtx<'a> }
impl TypeFolder for Canon<'_> {
    fn fold_ty(&self, t: Ty) -> Ty { match t { Ty::Infer(TyInfer::Var(v)) => Ty::Infer(TyInfer::Var(self.ctx.var_table.resolve_to_root_var(&v))), Ty::Infer(TyInfer::IntVar(v)) => Ty::Infer(TyInfer::IntVar(self.ctx.int_table.resolve_to_root_var(&v))), t => t.deep_fold_with(self) } }
}
fn run_case(seed: u64, steps: usize, what: &str) -> R {
    let mut r = Rng(seed);
    let g = gen_of(&mut r);
    let db = base_db::Db;
    let mut ctx = InferenceCtx::new(&db, FileId(0), r.chance(1, 4));
    for _ in 0..steps { step(&mut r, &g, &mut ctx, what)? }
    Ok(())
}
fn main() {
    let mut run = Run::from_args();
    let what = std::env::args().nth(1).unwrap_or_default();
    let seed = run.rng.next();
    let a: Vec<String> = std::env::args().collect();
    let only = a.iter().position(|x| x == "--only").and_then(|i| a.get(i + 1)).cloned();
    if let Some(k) = only {
        let p: Vec<u64> = k.split('/').map(|s| s.parse().unwrap()).collect();
        run.case(&k, true, || run_case(p[0], p[1] as usize, &what));
        return run.finish();
    }
    let mut n = 0u64;
    while run.time_left() {
        let steps = [1, 2, 4, 8, 16][(n % 5) as usize];
        let s = seed.wrapping_add(n);
        run.case(&format!("{s}/{steps}"), true, || run_case(s, steps, &what));
        n += 1;
    }
    run.finish()
}
