//! Oracle for the discovery of packages, their dependencies and the package graph: the real functions of /repo on real files in a scratch folder.
#![allow(dead_code, unused, non_local_definitions)]
use native::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
mod code { include!("../../../build/gen/packages.rs"); }
pub mod vfs { #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)] pub struct FileId(pub u32); }
pub mod base_db {
    pub mod inputs {
        pub type AddressPair = (String, String);
        #[derive(Clone, Debug, PartialEq, Eq, Default)] pub struct PackageMetadata { pub package_name: Option<String>, pub dep_manifest_ids: std::sync::Arc<Vec<crate::vfs::FileId>>, pub resolve_deps: bool, pub named_addresses: Vec<AddressPair>, pub missing_dependencies: Vec<String> }
    }
    pub mod change { pub type ManifestFileId = crate::vfs::FileId; pub type PackageGraph = std::collections::HashMap<ManifestFileId, super::inputs::PackageMetadata>; }
}
pub mod stdx { #[macro_export] macro_rules! vx_format_to { ($buf:expr, $($t:tt)*) => { { use std::fmt::Write as _; let _ = write!($buf, $($t)*); } } } pub use crate::vx_format_to as format_to; }
/// the `paths` crate
pub mod paths {
    pub use camino::{Utf8Path, Utf8PathBuf, Utf8Component};
    use std::{ffi::OsStr, fmt, ops, borrow::Borrow, path::{Path, PathBuf}};
    #[derive(Debug, Clone, Ord, PartialOrd, Eq, Hash, PartialEq)] pub struct AbsPathBuf(Utf8PathBuf);
    #[derive(Debug, Ord, PartialOrd, Eq, Hash, PartialEq)] #[repr(transparent)] pub struct AbsPath(Utf8Path);
    impl From<AbsPathBuf> for Utf8PathBuf { fn from(a: AbsPathBuf) -> Self { a.0 } }
    impl From<AbsPathBuf> for PathBuf { fn from(a: AbsPathBuf) -> Self { a.0.into() } }
    impl ops::Deref for AbsPathBuf { type Target = AbsPath; fn deref(&self) -> &AbsPath { self.as_path() } }
    impl AsRef<Utf8Path> for AbsPathBuf { fn as_ref(&self) -> &Utf8Path { self.0.as_path() } }
    impl AsRef<OsStr> for AbsPathBuf { fn as_ref(&self) -> &OsStr { self.0.as_ref() } }
    impl AsRef<Path> for AbsPathBuf { fn as_ref(&self) -> &Path { self.0.as_ref() } }
    impl AsRef<AbsPath> for AbsPathBuf { fn as_ref(&self) -> &AbsPath { self.as_path() } }
    impl Borrow<AbsPath> for AbsPathBuf { fn borrow(&self) -> &AbsPath { self.as_path() } }
    impl TryFrom<Utf8PathBuf> for AbsPathBuf { type Error = Utf8PathBuf; fn try_from(p: Utf8PathBuf) -> Result<Self, Utf8PathBuf> { if p.is_absolute() { Ok(AbsPathBuf(p)) } else { Err(p) } } }
    impl TryFrom<&str> for AbsPathBuf { type Error = Utf8PathBuf; fn try_from(p: &str) -> Result<Self, Utf8PathBuf> { AbsPathBuf::try_from(Utf8PathBuf::from(p)) } }
    impl PartialEq<AbsPath> for AbsPathBuf { fn eq(&self, o: &AbsPath) -> bool { self.as_path() == o } }
    impl AbsPathBuf {
        pub fn assert(p: Utf8PathBuf) -> AbsPathBuf { AbsPathBuf::try_from(p).unwrap_or_else(|p| panic!("expected absolute path, got {p}")) }
        pub fn assert_utf8(p: PathBuf) -> AbsPathBuf { AbsPathBuf::assert(Utf8PathBuf::from_path_buf(p).expect("expected utf8 path")) }
        pub fn as_path(&self) -> &AbsPath { AbsPath::new_unchecked(self.0.as_path()) }
        pub fn pop(&mut self) -> bool { self.0.pop() }
        pub fn push<P: AsRef<Utf8Path>>(&mut self, p: P) { self.0.push(p) }
        pub fn join(&self, p: impl AsRef<Utf8Path>) -> Self { Self(self.0.join(p)) }
    }
    impl fmt::Display for AbsPathBuf { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }
    impl fmt::Display for AbsPath { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }
    impl AsRef<Utf8Path> for AbsPath { fn as_ref(&self) -> &Utf8Path { &self.0 } }
    impl AsRef<Path> for AbsPath { fn as_ref(&self) -> &Path { self.0.as_ref() } }
    impl AsRef<OsStr> for AbsPath { fn as_ref(&self) -> &OsStr { self.0.as_ref() } }
    impl AsRef<AbsPath> for AbsPath { fn as_ref(&self) -> &AbsPath { self } }
    impl ToOwned for AbsPath { type Owned = AbsPathBuf; fn to_owned(&self) -> AbsPathBuf { AbsPathBuf(self.0.to_owned()) } }
    impl AbsPath {
        fn new_unchecked(p: &Utf8Path) -> &AbsPath { unsafe { &*(p as *const Utf8Path as *const AbsPath) } }
        pub fn parent(&self) -> Option<&AbsPath> { self.0.parent().map(AbsPath::new_unchecked) }
        pub fn join(&self, p: impl AsRef<Utf8Path>) -> AbsPathBuf { Utf8Path::join(self.as_ref(), p).try_into().unwrap() }
        pub fn normalize(&self) -> AbsPathBuf {
            let mut ret = Utf8PathBuf::new();
            for c in self.0.components() { match c { Utf8Component::Prefix(_) => unreachable!(), Utf8Component::RootDir => ret.push(c), Utf8Component::CurDir => {}, Utf8Component::ParentDir => { ret.pop(); }, Utf8Component::Normal(c) => ret.push(c) } }
            AbsPathBuf(ret)
        }
        pub fn to_path_buf(&self) -> AbsPathBuf { AbsPathBuf(self.0.to_path_buf()) }
        pub fn strip_prefix(&self, b: &AbsPath) -> Option<&Utf8Path> { self.0.strip_prefix(&b.0).ok() }
        pub fn starts_with(&self, b: &AbsPath) -> bool { self.0.starts_with(&b.0) }
        pub fn ends_with(&self, b: impl AsRef<Utf8Path>) -> bool { self.0.ends_with(b.as_ref()) }
        pub fn file_name(&self) -> Option<&str> { self.0.file_name() }
        pub fn extension(&self) -> Option<&str> { self.0.extension() }
        pub fn file_stem(&self) -> Option<&str> { self.0.file_stem() }
        pub fn as_str(&self) -> &str { self.0.as_str() }
        pub fn as_utf8_path(&self) -> &Utf8Path { &self.0 }
        pub fn components(&self) -> camino::Utf8Components<'_> { self.0.components() }
        pub fn is_file(&self) -> bool { self.0.is_file() }
        pub fn is_dir(&self) -> bool { self.0.is_dir() }
    }
}
use code::aptos_package::load_from_fs::{LoadedPackage, load_aptos_packages, try_find_move_toml_at_root};
use code::aptos_package::{AptosPackage, PackageKind};
use code::move_toml::MoveToml;
use code::{DiscoveredManifest, dep_graph};
use paths::*;

/// a package as it is written: where, its name, its dependencies (name, place, from git, under which header)
#[derive(Clone, Debug)] struct Dep { name: String, to: Option<usize>, git: bool, dev: bool, sub: Option<String>, blank: bool }
#[derive(Clone, Debug)] struct Pkg { dir: String, name: Option<String>, deps: Vec<Dep>, bad: bool, addrs: Vec<(String, String, bool)> }
fn scratch() -> String { std::env::temp_dir().join(format!("vx-packages-{}", std::process::id())).to_str().unwrap().to_string() }
fn clear(d: &str) { let p = std::path::Path::new(d); assert!(p.starts_with(scratch())); if p.exists() { std::fs::remove_dir_all(p).unwrap(); } }
fn write(f: &str, t: &str) { let p = std::path::Path::new(f); assert!(p.starts_with(scratch())); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(p, t).unwrap(); }
const URLS: [(&str, &str); 2] = [("https://g.com/a.git", "https___g_com_a_git"), ("git@g.com:b", "git_g_com_b")];
const REVS: [(&str, &str); 2] = [("main", "main"), ("x/y", "x_y")];
/// where a dependency from git is found: (url, rev, folder)
fn git_of(k: usize) -> (&'static str, &'static str, String) { let (u, r) = (URLS[k % 2], REVS[(k / 2) % 2]); (u.0, r.0, format!("{}_{}", u.1, r.1)) }
fn world(r: &mut Rng) -> Vec<Pkg> {
    let n = r.range(1, 6);
    let mut v = vec![];
    for i in 0..n {
        let git = i > 0 && r.chance(1, 4);
        let dir = if git { let sub = r.chance(1, 2); format!("home/.move/{}{}", git_of(i).2, if sub { format!("/s{i}") } else { format!("/t/{i}") }) } else { ["ws/p", "ws/deep/er/p", "out/p"][r.below(3)].to_string() + &i.to_string() };
        let name = if r.chance(1, 6) { None } else if r.chance(1, 4) { Some(["Same", "Twin"][r.below(2)].to_string()) } else { Some(format!("P{i}")) };
        let addrs = (0..r.below(3)).map(|k| (format!("a{k}"), ["0x1", "_", "0xcafe"][r.below(3)].to_string(), r.chance(1, 3))).collect();
        v.push(Pkg { dir, name, deps: vec![], bad: r.chance(1, 12), addrs });
    }
    for i in 0..n {
        let mut used = BTreeSet::new();
        for _ in 0..r.below(4) {
            let name = format!("{}{}", ["Z", "M", "A"][r.below(3)], r.below(9));
            let dev = r.chance(1, 3);
            if !used.insert((name.clone(), dev)) { continue }
            let to = if r.chance(1, 8) { None } else { Some(r.below(n)) };
            let git = match to { Some(t) => v[t].dir.starts_with("home"), None => r.chance(1, 2) };
            v[i].deps.push(Dep { name, to, git, dev, sub: None, blank: r.chance(1, 16) });
        }
    }
    v
}
fn text(ps: &[Pkg], i: usize) -> String {
    let p = &ps[i];
    if p.bad { return "[package\nname=".into() }
    let mut t = String::from("[package]\n");
    if let Some(n) = &p.name { t += &format!("name = \"{n}\"\n"); }
    t += "version = \"1.0.0\"\n";
    for dev in [false, true] {
        t += if dev { "[dev-addresses]\n" } else { "[addresses]\n" };
        for (a, x, d) in &p.addrs { if *d == dev { t += &format!("{a} = \"{x}\"\n"); } }
    }
    for dev in [true, false] {
        t += if dev { "[dev-dependencies]\n" } else { "[dependencies]\n" };
        for d in &p.deps { if d.dev == dev {
            if d.blank { t += &format!("{} = {{ }}\n", d.name); continue }
            if d.git {
                let (u, rv, folder) = git_of(d.to.unwrap_or(0));
                let sub = match d.to { Some(k) => ps[k].dir.strip_prefix(&format!("home/.move/{folder}/")).unwrap().to_string(), None => "nowhere".into() };
                t += &format!("{} = {{ git = \"{u}\", rev = \"{rv}\", subdir = \"{sub}\" }}\n", d.name);
            } else {
                let up = "../".repeat(p.dir.matches('/').count() + 1);
                let to = match d.to { Some(k) => ps[k].dir.clone(), None => "ws/none".into() };
                t += &format!("{} = {{ local = \"{up}{to}{}\" }}\n", d.name, if d.name.starts_with('Z') { "/" } else { "" });
            }
        } }
    }
    t
}
/// the dependencies it writes, in order: its own first, then those for development, each by name
fn declared(ps: &[Pkg], i: usize) -> Vec<Dep> {
    if ps[i].bad { return vec![] }
    let m = MoveToml::from_str(&text(ps, i)).unwrap();
    let mut v = vec![];
    for (dev, l) in [(false, &m.dependencies), (true, &m.dev_dependencies)] { for d in l { v.push(ps[i].deps.iter().find(|x| x.name == d.name() && x.dev == dev && !x.blank).unwrap().clone()); } }
    assert_eq!(v.len(), ps[i].deps.iter().filter(|d| !d.blank).count());
    v
}
type Place = (usize, bool);
/// (package, from git) of each dependency that is there
fn leads(ps: &[Pkg], x: Place) -> Vec<Place> { declared(ps, x.0).iter().filter_map(|d| d.to.map(|t| (t, d.git || x.1))).collect() }
fn load_case(seed: u64, what: &str) -> Result<(), String> {
    let mut r = Rng(seed);
    let ps = world(&mut r);
    let s = scratch();
    clear(&format!("{s}/ws")); clear(&format!("{s}/out")); clear(&format!("{s}/home"));
    for d in ["ws", "out", "home"] { std::fs::create_dir_all(format!("{s}/{d}")).unwrap(); }
    for i in 0..ps.len() { write(&format!("{s}/{}/Move.toml", ps[i].dir), &text(&ps, i)); }
    let at = |i: usize| AbsPathBuf::try_from(format!("{s}/{}/Move.toml", ps[i].dir).as_str()).unwrap();
    let index: BTreeMap<String, usize> = (0..ps.len()).map(|i| (at(i).to_string(), i)).collect();
    let roots: BTreeMap<String, usize> = (0..ps.len()).map(|i| (format!("{s}/{}", ps[i].dir), i)).collect();
    let ws: Vec<(usize, bool)> = (0..r.range(1, 3)).map(|_| (r.below(ps.len()), r.chance(2, 3))).collect();
    let loaded = load_aptos_packages(ws.iter().map(|(i, f)| DiscoveredManifest::new(at(*i), *f)).collect());
    // what is reached
    let mut reach: BTreeSet<Place> = ws.iter().filter(|w| w.1).map(|w| (w.0, false)).collect();
    loop { let more: Vec<Place> = reach.iter().flat_map(|x| leads(&ps, *x)).filter(|y| !reach.contains(y)).collect(); if more.is_empty() { break } reach.extend(more); }
    let tell = || format!("packages {ps:#?}, from {ws:?}");
    let resolved: BTreeSet<usize> = reach.iter().map(|x| x.0).collect();
    let all: BTreeSet<usize> = resolved.iter().copied().chain(ws.iter().map(|w| w.0)).collect();
    let mut got: BTreeMap<usize, AptosPackage> = BTreeMap::new(); let mut errors = 0;
    for p in &loaded.packages { match p {
        LoadedPackage::ManifestParseError(_) => errors += 1,
        LoadedPackage::Package(a) => { let Some(i) = index.get(&a.manifest_path().to_string()) else { return Err(format!("a package at {}, where there is none", a.manifest_path())) }; if got.insert(*i, a.clone()).is_some() { return Err(format!("package {i} is loaded twice; {}", tell())) } }
    } }
    let bad = all.iter().filter(|i| ps[**i].bad).count();
    if errors != bad { return Err(format!("{errors} broken manifests instead of {bad}; {}", tell())) }
    let want: BTreeSet<usize> = all.iter().copied().filter(|i| !ps[*i].bad).collect(); let have: BTreeSet<usize> = got.keys().copied().collect();
    if want != have { return Err(format!("packages {have:?} are loaded instead of {want:?}; {}", tell())) }
    if loaded.valid_packages().len() != got.len() { return Err(format!("valid_packages: {}; {}", loaded.valid_packages().len(), tell())) }
    let deps_at = |i: usize| -> Vec<Place> { match got.get(&i) { Some(a) if a.resolve_deps => leads(&ps, (i, !a.is_local())), _ => vec![] } };
    let name_at = |i: usize| -> Option<String> { if got.contains_key(&i) { ps[i].name.clone() } else { None } };
    for (i, a) in &got {
        let p = &ps[*i];
        if a.package_name != p.name { return Err(format!("package {i} has name {:?}; {}", a.package_name, tell())) }
        if a.resolve_deps != resolved.contains(i) { return Err(format!("package {i}: dependencies resolved {}; {}", a.resolve_deps, tell())) }
        if !(reach.contains(&(*i, !a.is_local())) || (a.is_local() && !a.resolve_deps)) { return Err(format!("package {i}: local {}; {}", a.is_local(), tell())) }
        let named: Vec<(String, String)> = [false, true].iter().flat_map(|d| { let mut v: Vec<(String, String)> = p.addrs.iter().filter(|x| x.2 == *d).map(|x| (x.0.clone(), x.1.clone())).collect(); v.sort(); v }).collect();
        let mut have = a.named_addresses.clone(); let k = p.addrs.iter().filter(|x| !x.2).count(); have[..k.min(a.named_addresses.len())].sort(); if have.len() >= k { have[k..].sort(); }
        if have != named { return Err(format!("package {i}: addresses {:?}; {}", a.named_addresses, tell())) }
        let missing: Vec<String> = if a.resolve_deps { declared(&ps, *i).iter().filter(|d| d.to.is_none()).map(|d| d.name.clone()).collect() } else { vec![] };
        if a.missing_dependencies != missing { return Err(format!("package {i}: missing {:?} instead of {missing:?}; {}", a.missing_dependencies, tell())) }
        let mut list: Vec<Place> = vec![];
        for (d, k) in a.dep_roots() { let Some(j) = roots.get(d.as_str()) else { return Err(format!("package {i} depends on {d}, where there is no package; {}", tell())) }; list.push((*j, *k == PackageKind::Git)); }
        let own = deps_at(*i);
        let tell = || format!("package {i} (local {}) depends on {list:?} (package, from git), it declares {own:?}; {}", a.is_local(), tell());
        for k in 0..list.len() {
            for j in 0..k { if list[j].0 == list[k].0 { return Err(format!("twice the same; {}", tell())) } if name_at(list[k].0).is_some() && name_at(list[j].0) == name_at(list[k].0) { return Err(format!("twice one name; {}", tell())) } }
            if !own.contains(&list[k]) && !list[..k].iter().any(|x| deps_at(x.0).contains(&list[k])) { return Err(format!("{:?} is there before the one that needs it; {}", list[k], tell())) }
        }
        let covered = |x: usize| list.iter().any(|y| y.0 == x || (name_at(x).is_some() && name_at(y.0) == name_at(x)));
        for x in own.iter().copied().chain(list.iter().flat_map(|x| deps_at(x.0))) { if !covered(x.0) { return Err(format!("{} is left out; {}", x.0, tell())) } }
        for k in 0..own.len() { if !list.iter().any(|y| y.0 == own[k].0) && !(0..k).any(|j| name_at(own[k].0).is_some() && name_at(own[j].0) == name_at(own[k].0)) { return Err(format!("the declared {} gave way to another; {}", own[k].0, tell())) } }
    }
    if what == "graph" {
        let pkgs: Vec<AptosPackage> = got.values().cloned().collect();
        let gone = if r.chance(1, 4) { Some(r.below(ps.len())) } else { None };
        let id = |i: usize| vfs::FileId(100 + i as u32);
        let mut load = |p: &AbsPath| -> Option<vfs::FileId> { let i = *index.get(p.as_str())?; if Some(i) == gone { None } else { Some(id(i)) } };
        let g = dep_graph::collect(&pkgs, &mut load);
        let lost = got.iter().any(|(i, a)| Some(*i) == gone || a.dep_roots().iter().any(|(d, _)| gone.is_some_and(|x| roots[d.as_str()] == x)));
        match g {
            None => if !lost { return Err(format!("no graph; {}", tell())) },
            Some(_) if lost => return Err(format!("a graph without {gone:?}; {}", tell())),
            Some(g) => {
                if g.len() != got.len() { return Err(format!("{} in the graph instead of {}; {}", g.len(), got.len(), tell())) }
                for (i, a) in &got {
                    let Some(m) = g.get(&id(*i)) else { return Err(format!("package {i} is not in the graph; {}", tell())) };
                    let want = base_db::inputs::PackageMetadata { package_name: a.package_name.clone(), dep_manifest_ids: std::sync::Arc::new(a.dep_roots().iter().map(|(d, _)| id(roots[d.as_str()])).collect()), resolve_deps: a.resolve_deps, named_addresses: a.named_addresses.clone(), missing_dependencies: a.missing_dependencies.clone() };
                    if *m != want { return Err(format!("package {i} in the graph: {m:?} instead of {want:?}; {}", tell())) }
                }
            }
        }
    }
    Ok(())
}
/// which manifests are found below the roots, and for which file which one
fn find_case(seed: u64) -> Result<(), String> {
    let mut r = Rng(seed);
    let s = scratch();
    clear(&format!("{s}/ws")); clear(&format!("{s}/out")); clear(&format!("{s}/home"));
    std::fs::create_dir_all(format!("{s}/ws")).unwrap();
    const DIRS: [&str; 12] = ["", "aptos-move", "aptos-move/framework", "aptos-move/framework/std", "aptos-move/framework-x", "aptos-move/move-examples/a", "testsuite/module-publish/src/packages/p", "testsuite/module-publish", "pkg", "pkg/sources", "pkg/sources/inner", "pkg/tests/deep/er"];
    let mut at = BTreeSet::new();
    for d in DIRS { if r.chance(1, 3) { at.insert(d); } }
    let core = r.chance(1, 2);
    if core { std::fs::create_dir_all(format!("{s}/ws/aptos-move/framework")).unwrap(); } else { at.retain(|d| !d.starts_with("aptos-move/framework")); if at.iter().any(|d| d.starts_with("aptos-move/framework/")) { unreachable!() } }
    for d in DIRS { if r.chance(1, 3) && (core || !d.starts_with("aptos-move/framework")) { std::fs::create_dir_all(format!("{s}/ws/{d}")).unwrap(); } }
    for d in &at { let d = if d.is_empty() { "".into() } else { format!("/{d}") }; write(&format!("{s}/ws{d}/Move.toml"), "[package]\n"); if r.chance(1, 4) { write(&format!("{s}/ws{d}/Other.toml"), "x"); } }
    // these are none
    for d in DIRS { if !at.contains(d) && (core || !d.starts_with("aptos-move/framework")) && r.chance(1, 4) { match r.below(3) { 0 => write(&format!("{s}/ws/{d}/move.toml"), "[package]\n"), 1 => write(&format!("{s}/ws/{d}/xMove.toml"), "[package]\n"), _ => std::fs::create_dir_all(format!("{s}/ws/{d}/Move.toml")).unwrap() } } }
    let core = std::path::Path::new(&format!("{s}/ws/aptos-move/framework")).exists();
    let join = |d: &str| if d.is_empty() { format!("{s}/ws") } else { format!("{s}/ws/{d}") };
    let below = |d: &str, c: &str| d == c || d.starts_with(&format!("{c}/"));
    let mut roots = vec![("", s.clone() + "/ws")]; if r.chance(1, 3) { roots.push(("pkg", join("pkg"))); } if r.chance(1, 4) { roots.push(("", s.clone() + "/ws")); }
    let mut want = BTreeSet::new();
    for (k, root) in &roots { for d in &at { if k.is_empty() || below(d, k) {
        let open = !k.is_empty() || !core || ["aptos-move/framework", "aptos-move/move-examples", "testsuite/module-publish/src/packages"].iter().any(|c| below(d, c));
        want.insert((format!("{}/Move.toml", join(d)), open));
    } } }
    let got = DiscoveredManifest::discover_all(&roots.iter().map(|x| AbsPathBuf::try_from(x.1.as_str()).unwrap()).collect::<Vec<_>>());
    let set: BTreeSet<(String, bool)> = got.iter().map(|m| (m.move_toml_file.to_string(), m.resolve_deps)).collect();
    if set != want || got.len() != want.len() { return Err(format!("manifests {got:?} instead of {want:?} from {roots:?}")) }
    for d in DIRS { for f in ["a.move", "sources/a.move", "tests/x/a.move", "scripts/a.move", "sources2/a.move", "build/sources/a.move", "doc/a.move", "sources"] {
        let file = format!("{}/{f}", join(d));
        let parent = std::path::Path::new(&file).parent().unwrap().to_path_buf();
        let mut want = None;
        for a in parent.ancestors() {
            let a = a.to_str().unwrap();
            if let Some(m) = at.iter().find(|m| join(m) == a) { if ["sources", "tests", "scripts"].iter().any(|x| below(&file, &format!("{a}/{x}"))) { want = Some((format!("{}/Move.toml", join(m)), true)); } break }
        }
        let got = DiscoveredManifest::discover_for_file(&AbsPathBuf::try_from(file.as_str()).unwrap()).map(|m| (m.move_toml_file.to_string(), m.resolve_deps));
        if got != want { return Err(format!("{file} belongs to {got:?} instead of {want:?}; manifests in {at:?}")) }
    } }
    Ok(())
}
fn main() {
    let mut run = Run::from_args();
    let what = std::env::args().nth(1).unwrap_or_default();
    if !["load", "graph", "find", "both"].contains(&what.as_str()) { eprintln!("load|graph|find|both"); std::process::exit(2) }
    std::fs::create_dir_all(scratch()).unwrap();
    unsafe { std::env::set_var("HOME", format!("{}/home", scratch())); }
    let case = |s: u64| if what == "find" || (what == "both" && s % 3 == 0) { find_case(s) } else { load_case(s, if what == "both" { "graph" } else { &what }) };
    let seed = run.rng.next();
    let a: Vec<String> = std::env::args().collect();
    if let Some(k) = a.iter().position(|x| x == "--only").and_then(|i| a.get(i + 1)).cloned() {
        let s: u64 = k.parse().unwrap();
        run.case(&k, true, || case(s));
    } else {
        let mut n = 0u64;
        while run.time_left() { let s = seed.wrapping_add(n); run.case(&s.to_string(), true, || case(s)); n += 1; }
    }
    std::fs::remove_dir_all(scratch()).ok();
    run.finish()
}
