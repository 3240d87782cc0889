//! Oracle for the parts patterns get and for references around them, against the real functions of /repo.
#![allow(dead_code, unused, non_local_definitions)]
use native::*;
mod code { include!("../../../build/gen/patterns.rs"); }
pub use code::patterns::BindingMode; use code::reference::{Mutability, TyReference};
pub mod ast { #[derive(Clone, Debug, PartialEq)] pub struct RestPat; #[derive(Clone, Debug, PartialEq)] pub enum Pat { RestPat(RestPat), IdentPat(usize), WildcardPat(usize) } }
#[derive(Clone, Debug, PartialEq, Eq)] pub enum Ty { Unknown, Never, Unit, Bool, Num, Part(usize), Reference(TyReference) }
impl Ty { pub fn new_reference(t: Ty, m: Mutability) -> Ty { Ty::Reference(TyReference::new(t, m)) } }
pub struct TypeAstWalker<'a, 'b> { pub bound: Vec<(ast::Pat, Ty, BindingMode)>, pub p: std::marker::PhantomData<(&'a (), &'b ())> }
impl TypeAstWalker<'_, '_> { pub fn collect_pat_bindings(&mut self, pat: ast::Pat, ty: Ty, bm: BindingMode) -> Option<()> { self.bound.push((pat, ty, bm)); Some(()) } }

fn run_case(n: usize, rests: usize, size: usize) -> Result<(), String> {
    use ast::Pat;
    let is = |k: usize| rests >> k & 1 == 1;
    let pats: Vec<Pat> = (0..n).map(|k| if is(k) { Pat::RestPat(ast::RestPat) } else if k % 3 == 2 { Pat::WildcardPat(k) } else { Pat::IdentPat(k) }).collect();
    let by = if size % 2 == 0 { BindingMode::BindByValue } else { BindingMode::BindByReference { mutability: Mutability::Mutable } };
    let mut w = TypeAstWalker { bound: vec![], p: Default::default() };
    w.infer_tuple_pat_fields(pats.clone(), size, by, |i| if i < size { Ty::Part(i) } else { Ty::Unknown });
    let want: Vec<_> = (0..n).map(|k| {
        let t = if !(0..=k).any(is) { if k < size { Ty::Part(k) } else { Ty::Unknown } }
            else if !(k..n).any(is) && n - k <= size { Ty::Part(size - (n - k)) } else { Ty::Unknown };
        (pats[k].clone(), t)
    }).collect();
    let got: Vec<_> = w.bound.iter().map(|b| (b.0.clone(), b.1.clone())).collect();
    if got != want { return Err(format!("patterns {pats:?} over {size} parts: {got:?} instead of {want:?}")) }
    if w.bound.iter().any(|b| format!("{:?}", b.2) != format!("{by:?}")) { return Err("another way of binding".into()) }
    Ok(())
}
fn refs(depth: usize, bits: usize, bm: usize) -> Result<(), String> {
    let m = |x: bool| if x { Mutability::Mutable } else { Mutability::Immutable };
    let def = || match bm { 0 => BindingMode::BindByValue, 1 => BindingMode::BindByReference { mutability: m(true) }, _ => BindingMode::BindByReference { mutability: m(false) } };
    let mut t = Ty::Bool;
    for d in 0..depth { t = Ty::new_reference(t, m(bits >> d & 1 == 1)) }
    let all = (0..depth).all(|d| bits >> d & 1 == 1) && bm != 2;
    let want = if depth == 0 { def() } else { BindingMode::BindByReference { mutability: m(all) } };
    let (g, b) = code::patterns::strip_references(t.clone(), def());
    if g != Ty::Bool || format!("{b:?}") != format!("{want:?}") { return Err(format!("{t:?} bound {:?}: {g:?} {b:?} instead of Bool {want:?}", def())) }
    let g = code::patterns::apply_bm(t.clone(), def(), bits % 2 == 0);
    let e = match bm { 0 => t.clone(), b => Ty::new_reference(t.clone(), m(b == 1)) };
    if g != e { return Err(format!("{t:?} {:?}: {g:?} instead of {e:?}", def())) }
    Ok(())
}
fn one(k: &str) -> Result<(), String> {
    let v: Vec<usize> = k[1..].split('-').map(|x| x.parse().unwrap()).collect();
    if k.starts_with('t') { run_case(v[0], v[1], v[2]) } else { refs(v[0], v[1], v[2]) }
}
fn main() {
    let mut run = Run::from_args();
    let a: Vec<String> = std::env::args().collect();
    if let Some(k) = a.iter().position(|x| x == "--only").and_then(|i| a.get(i + 1)).cloned() { run.case(&k, true, || one(&k)); return run.finish(); }
    for d in 0..7 { for b in 0..1usize << d { for m in 0..3 { let k = format!("r{d}-{b}-{m}"); run.case(&k, d > 0, || one(&k)); } } }
    let mut done = true;
    'all: for n in 0..if run.thorough { 12 } else { 10 } { for r in 0..1usize << n { for s in 0..n + 3 {
        if !run.time_left() { done = false; break 'all }
        let k = format!("t{n}-{r}-{s}"); run.case(&k, n > 0, || one(&k));
    } } }
    if done { run.exhausted("up to 9 patterns, every arrangement of `..`, up to 11 parts; references up to 6 deep"); }
    run.finish()
}
