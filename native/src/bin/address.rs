//! Oracle for addresses and the lookup of modules by address, against the real functions of /repo.
#![allow(dead_code, unused, non_local_definitions)]
use native::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
mod code { include!("../../../build/gen/address.rs"); }

pub mod base_db {
    pub use crate::inputs::*;
    #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)] pub struct FileId(pub usize);
    #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)] pub struct FileIdInput(pub usize);
    #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)] pub struct PackageId(pub usize);
    impl FileId { pub fn intern(self, db: &dyn SourceDatabase) -> FileIdInput { FileIdInput(self.0) } }
    impl FileIdInput { pub fn data(self, db: &dyn SourceDatabase) -> FileId { FileId(self.0) } }
    pub struct PackageIdSet(pub usize);
    impl PackageIdSet { pub fn data(&self, db: &dyn SourceDatabase) -> Vec<PackageId> { (0..self.0).map(PackageId).collect() } }
    pub trait SourceDatabase { fn all_package_ids(&self) -> PackageIdSet; fn file_package_id(&self, f: FileId) -> PackageId; fn meta(&self, p: PackageId) -> Option<PackageMetadata>; fn modules(&self, f: FileId) -> Vec<crate::ast::Module>; fn files(&self, p: PackageId) -> &Vec<FileId>; }
    pub mod source_db {
        use super::*;
        pub fn metadata_for_package_id(db: &dyn SourceDatabase, p: PackageId) -> Option<PackageMetadata> { db.meta(p) }
        pub struct Parse(Vec<crate::ast::Module>);
        pub struct Tree(Vec<crate::ast::Module>);
        pub fn parse(db: &dyn SourceDatabase, f: FileIdInput) -> Parse { Parse(db.modules(FileId(f.0))) }
        impl Parse { pub fn tree(self) -> Tree { Tree(self.0) } }
        impl Tree { pub fn all_modules(&self) -> impl Iterator<Item = crate::ast::Module> { self.0.clone().into_iter() } }
    }
}
pub mod inputs {
    use crate::base_db::FileId; use std::sync::Arc;
    #[derive(Clone, Debug)] pub struct PackageMetadata { pub package_name: Option<String>, pub dep_manifest_ids: Arc<Vec<FileId>>, pub resolve_deps: bool, pub named_addresses: Vec<(String, String)>, pub missing_dependencies: Vec<String> }
}
use base_db::*;
use code::address::Address;
pub mod ast {
    #[derive(Clone)] pub struct Module { pub at: Option<crate::code::address::Address>, pub id: usize }
    impl Module { pub fn address(&self) -> Option<crate::code::address::Address> { self.at.clone() } }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)] pub struct ScopeEntry { pub f: FileId, pub id: usize }
pub trait Entries { fn to_entries(self, f: FileId) -> Vec<ScopeEntry>; }
impl Entries for Vec<ast::Module> { fn to_entries(self, f: FileId) -> Vec<ScopeEntry> { self.into_iter().map(|m| ScopeEntry { f, id: m.id }).collect() } }
pub struct AddressInput<'db>(Address, std::marker::PhantomData<&'db ()>);
impl<'db> AddressInput<'db> { pub fn new(db: &'db dyn SourceDatabase, a: Address) -> Self { AddressInput(a, Default::default()) } pub fn data(&self, db: &dyn SourceDatabase) -> Address { self.0.clone() } }
pub fn source_file_ids_in_package(db: &dyn SourceDatabase, p: PackageId) -> &Vec<FileId> { db.files(p) }

struct Pkg { meta: Option<PackageMetadata>, files: Vec<FileId> }
struct World { pkgs: Vec<Pkg>, of: HashMap<FileId, PackageId>, modules: HashMap<FileId, Vec<ast::Module>> }
impl SourceDatabase for World {
    fn all_package_ids(&self) -> PackageIdSet { PackageIdSet(self.pkgs.len()) }
    fn file_package_id(&self, f: FileId) -> PackageId { self.of[&f] }
    fn meta(&self, p: PackageId) -> Option<PackageMetadata> { self.pkgs[p.0].meta.clone() }
    fn modules(&self, f: FileId) -> Vec<ast::Module> { self.modules.get(&f).cloned().unwrap_or_default() }
    fn files(&self, p: PackageId) -> &Vec<FileId> { &self.pkgs[p.0].files }
}
const NAMES: [&str; 9] = ["std", "aptos_std", "aptos_framework", "aptos_token", "alice", "bob", "carol", "_", "nobody"];
/// a hexadecimal number written in some way
fn spell(r: &mut Rng) -> String {
    const CORE: [&str; 16] = ["0", "1", "2", "a", "f", "10", "100", "cafe", "caff", "ff00", "1000000000000000000000000000000000000000000000000000000000000001", "fedcba9876543210fedcba9876543210", "1f", "f1", "a1b2c3", "abcdef"];
    let c = r.pick(&CORE).to_string();
    let mut s = String::from("0x");
    for _ in 0..[0, 0, 1, 3, 60][r.below(5)] { s.push('0'); }
    for ch in c.chars() { if r.chance(1, 12) { s.push('_'); } s.push(if r.chance(1, 4) { ch.to_ascii_uppercase() } else { ch }); }
    if r.chance(1, 20) { s.push('_'); }
    s
}
fn num(t: &str) -> Option<String> {
    let d = t.strip_prefix("0x")?;
    if !d.chars().all(|c| c.is_ascii_hexdigit() || c == '_') { return None }
    let d: String = d.chars().filter(|c| *c != '_').map(|c| c.to_ascii_lowercase()).collect();
    Some(d.trim_start_matches('0').to_string())
}
#[derive(Clone, PartialEq, Eq, Debug)]
enum A { N(String), V(String) }
fn mk(a: &A) -> Address { match a { A::N(n) => Address::named(n), A::V(v) => Address::value(v) } }
fn pick(r: &mut Rng) -> A { if r.chance(1, 2) { A::N(r.pick(&NAMES).to_string()) } else { A::V(spell(r)) } }
/// what it stands for
fn stands(w: &World, a: &A) -> Option<String> {
    match a {
        A::V(v) => Some(v.clone()),
        A::N(n) if ["std", "aptos_std", "aptos_framework", "aptos_token"].contains(&n.as_str()) => Some("0x1".into()),
        A::N(n) => w.pkgs.iter().filter_map(|p| p.meta.as_ref()).flat_map(|m| m.named_addresses.iter()).filter(|(k, _)| k == n).last().map(|(_, v)| v.clone()),
    }
}
fn meets(w: &World, a: &A, b: &A, c: bool) -> bool {
    if a == b { return true }
    if c && matches!((a, b), (A::N(_), A::N(_))) { return false }
    match (stands(w, a), stands(w, b)) { (Some(x), Some(y)) => match (num(&x), num(&y)) { (Some(x), Some(y)) => x == y, _ => false }, _ => false }
}
fn world(r: &mut Rng) -> (World, Vec<Vec<(usize, Option<A>)>>) {
    let np = r.range(1, 4);
    let mut w = World { pkgs: vec![], of: HashMap::new(), modules: HashMap::new() };
    let mut said = vec![]; let mut id = 0;
    for p in 0..np {
        let files: Vec<FileId> = (0..r.range(1, 3)).map(|k| FileId(p * 4 + k)).collect();
        for f in &files { w.of.insert(*f, PackageId(p)); }
        w.pkgs.push(Pkg { meta: None, files });
    }
    for p in 0..np {
        if r.chance(1, 5) { continue }
        let mut deps: Vec<FileId> = (0..np).filter(|q| *q != p && r.chance(1, 2)).map(|q| FileId(q * 4)).collect();
        let named = (0..r.below(4)).map(|_| (r.pick(&NAMES).to_string(), if r.chance(1, 4) { "_".into() } else { spell(r) })).collect();
        w.pkgs[p].meta = Some(PackageMetadata { package_name: None, dep_manifest_ids: std::sync::Arc::new(deps), resolve_deps: true, named_addresses: named, missing_dependencies: vec![] });
    }
    for p in 0..np { for f in w.pkgs[p].files.clone() {
        let mut v = vec![]; let mut ms = vec![];
        for _ in 0..r.below(4) { let a = if r.chance(1, 8) { None } else { Some(pick(r)) }; v.push((id, a.clone())); ms.push(ast::Module { at: a.as_ref().map(mk), id }); id += 1; }
        w.modules.insert(f, ms);
        while said.len() <= f.0 { said.push(vec![]); }
        said[f.0] = v;
    } }
    (w, said)
}
fn run_case(seed: u64, what: &str) -> Result<(), String> {
    let mut r = Rng(seed);
    let (w, said) = world(&mut r);
    let tell = |a: &A| format!("{a:?}");
    if what == "equal" {
        for _ in 0..24 {
            let (a, b, c) = (pick(&mut r), pick(&mut r), r.chance(1, 3));
            let (g, e) = (mk(&a).equals_to(&w, &mk(&b), c), meets(&w, &a, &b, c));
            if g != e { return Err(format!("{a:?} (stands for {:?}) and {b:?} (stands for {:?}){}: {g} instead of {e}", stands(&w, &a), stands(&w, &b), if c { " in completion" } else { "" })) }
            let zero = matches!(&a, A::V(v) if num(v).as_deref() == Some("")); let one = matches!(&a, A::V(v) if num(v).as_deref() == Some("1"));
            if mk(&a).is_0x0() != zero || mk(&a).is_0x1() != one { return Err(format!("{a:?}: is_0x0 {} is_0x1 {}", mk(&a).is_0x0(), mk(&a).is_0x1())) }
            let t = match &a { A::N(n) => n, A::V(v) => v };
            if mk(&a).identifier_text() != *t { return Err(format!("{a:?} is shown as {}", mk(&a).identifier_text())) }
        }
        let m: BTreeMap<String, String> = code::hir_db::named_addresses(&w).into_iter().collect();
        let mut e: BTreeMap<String, String> = ["std", "aptos_std", "aptos_framework", "aptos_token"].iter().map(|n| (n.to_string(), "0x1".to_string())).collect();
        for p in &w.pkgs { if let Some(d) = &p.meta { for (n, v) in &d.named_addresses { e.insert(n.clone(), v.clone()); } } }
        if m != e { return Err(format!("named addresses {m:?} instead of {e:?}")) }
        return Ok(())
    }
    let deps = |p: usize| -> Vec<usize> { let mut v = vec![p]; if let Some(m) = &w.pkgs[p].meta { v.extend(m.dep_manifest_ids.iter().map(|f| w.of[f].0)); } v };
    for p in 0..w.pkgs.len() {
        let d: Vec<usize> = code::hir_db::transitive_dep_package_ids(&w, PackageId(p)).iter().map(|p| p.0).collect();
        if d != deps(p) { return Err(format!("package {p} reaches {d:?} instead of {:?}", deps(p))) }
        let v: BTreeSet<usize> = code::hir_db::reverse_transitive_dep_package_ids(&w, PackageId(p)).iter().map(|p| p.0).collect();
        let e: BTreeSet<usize> = (0..w.pkgs.len()).filter(|q| deps(*q).contains(&p)).collect();
        if v != e { return Err(format!("package {p} is reached from {v:?} instead of {e:?}")) }
        for _ in 0..6 {
            let a = pick(&mut r);
            let mut got: Vec<ScopeEntry> = code::name_resolution::get_modules_as_entries(&w, PackageId(p), mk(&a));
            let mut want = vec![];
            for q in deps(p) { for f in &w.pkgs[q].files { for (id, m) in &said[f.0] { if m.as_ref().is_some_and(|m| meets(&w, m, &a, false)) { want.push(ScopeEntry { f: *f, id: *id }) } } } }
            got.sort(); want.sort();
            if got != want { return Err(format!("{a:?} (stands for {:?}) from package {p}: modules {got:?} instead of {want:?} of {said:?}", stands(&w, &a))) }
        }
    }
    Ok(())
}
fn main() {
    let mut run = Run::from_args();
    let what = std::env::args().nth(1).unwrap_or_default();
    if !["equal", "modules"].contains(&what.as_str()) { eprintln!("equal|modules"); std::process::exit(2) }
    let seed = run.rng.next();
    let a: Vec<String> = std::env::args().collect();
    if let Some(k) = a.iter().position(|x| x == "--only").and_then(|i| a.get(i + 1)).cloned() {
        let s: u64 = k.parse().unwrap();
        run.case(&k, true, || run_case(s, &what));
        return run.finish();
    }
    let mut n = 0u64;
    while run.time_left() { let s = seed.wrapping_add(n); run.case(&s.to_string(), true, || run_case(s, &what)); n += 1; }
    run.finish()
}
