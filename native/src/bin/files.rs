//! Oracle for the path from changed files to the analysis database, against the real functions of /repo.
#![allow(dead_code, unused, non_local_definitions)]
use native::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
#[path = "../../../build/repo/crates/stdext/src/line_endings.rs"]
mod line_endings;
mod code { include!("../../../build/gen/files.rs"); }

/// salsa: each input is a numbered cell
pub mod salsa {
    use std::any::Any; use std::cell::RefCell; use std::sync::Arc;
    #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
    pub struct Durability(pub u8);
    impl Durability { pub const LOW: Self = Self(0); pub const MEDIUM: Self = Self(1); pub const HIGH: Self = Self(2); pub const MAX: Self = Self(3); }
    pub trait Database { fn synthetic_write(&mut self, d: Durability) {} }
    pub struct Storage<T>(std::marker::PhantomData<T>);
    impl<T> Default for Storage<T> { fn default() -> Self { Storage(Default::default()) } }
    impl<T> Clone for Storage<T> { fn clone(&self) -> Self { Storage(Default::default()) } }
    thread_local!(pub static CELLS: RefCell<Vec<Vec<Box<dyn Any>>>> = RefCell::new(vec![]));
    pub fn alloc(v: Vec<Box<dyn Any>>) -> usize { CELLS.with(|c| { c.borrow_mut().push(v); c.borrow().len() - 1 }) }
    pub fn get<T: Clone + 'static>(h: usize, k: usize) -> T { CELLS.with(|c| c.borrow()[h][k].downcast_ref::<T>().unwrap().clone()) }
    pub fn set<T: 'static>(h: usize, k: usize, v: T) { CELLS.with(|c| c.borrow_mut()[h][k] = Box::new(v)) }
    pub struct Set<T> { pub h: usize, pub k: usize, pub t: std::marker::PhantomData<T> }
    impl<T: Clone + 'static> Set<T> { pub fn with_durability(self, d: Durability) -> Self { self } pub fn to(self, v: T) -> T { let o = get::<T>(self.h, self.k); set(self.h, self.k, v); o } }
    #[macro_export]
    macro_rules! salsa_input {
        ($n:ident { $f:ident : $t:ty }) => { $crate::salsa_input!(@ $n, $f: $t = 0, ); };
        ($n:ident { $f:ident : $t:ty, $g:ident : $u:ty }) => { $crate::salsa_input!(@ $n, $f: $t = 0, $g: $u = 1,); };
        (@ $n:ident, $($f:ident : $t:ty = $k:expr,)*) => {
            #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
            pub struct $n(pub usize);
            const _: () = {
                pub struct B { v: Vec<Box<dyn std::any::Any>> }
                impl B { pub fn durability(self, d: $crate::salsa::Durability) -> B { self } pub fn new<D: ?Sized>(self, db: &D) -> $n { $n($crate::salsa::alloc(self.v)) } }
                impl $n {
                    pub fn builder($($f: $t),*) -> B2 { B2(B { v: vec![$(Box::new($f) as Box<dyn std::any::Any>),*] }) }
                    pub fn new<D: ?Sized>(db: &D, $($f: $t),*) -> $n { $n($crate::salsa::alloc(vec![$(Box::new($f) as Box<dyn std::any::Any>),*])) }
                }
                pub struct B2(B);
                impl B2 { pub fn durability(self, d: $crate::salsa::Durability) -> B { self.0 } pub fn new<D: ?Sized>(self, db: &D) -> $n { self.0.new(db) } }
                $crate::salsa_accessors!($n $($f : $t = $k,)*);
            };
        };
    }
    #[macro_export]
    macro_rules! salsa_accessors {
        ($n:ident data : $t:ty = $k:expr, $($r:tt)*) => { impl $n { pub fn data<D: ?Sized>(&self, db: &D) -> $t { $crate::salsa::get(self.0, $k) } pub fn set_data<D: ?Sized>(&self, db: &mut D) -> $crate::salsa::Set<$t> { $crate::salsa::Set { h: self.0, k: $k, t: Default::default() } } } $crate::salsa_accessors!($n $($r)*); };
        ($n:ident text : $t:ty = $k:expr, $($r:tt)*) => { impl $n { pub fn text<D: ?Sized>(&self, db: &D) -> $t { $crate::salsa::get(self.0, $k) } pub fn set_text<D: ?Sized>(&self, db: &mut D) -> $crate::salsa::Set<$t> { $crate::salsa::Set { h: self.0, k: $k, t: Default::default() } } } $crate::salsa_accessors!($n $($r)*); };
        ($n:ident metadata : $t:ty = $k:expr, $($r:tt)*) => { impl $n { pub fn metadata<D: ?Sized>(&self, db: &D) -> $t { $crate::salsa::get(self.0, $k) } pub fn set_metadata<D: ?Sized>(&self, db: &mut D) -> $crate::salsa::Set<$t> { $crate::salsa::Set { h: self.0, k: $k, t: Default::default() } } } $crate::salsa_accessors!($n $($r)*); };
        ($n:ident idx : $t:ty = $k:expr, $($r:tt)*) => { impl $n { pub fn idx<D: ?Sized>(&self, db: &D) -> $t { $crate::salsa::get(self.0, $k) } } $crate::salsa_accessors!($n $($r)*); };
        ($n:ident file_id : $t:ty = $k:expr, $($r:tt)*) => { impl $n { pub fn file_id<D: ?Sized>(&self, db: &D) -> $t { $crate::salsa::get(self.0, $k) } } $crate::salsa_accessors!($n $($r)*); };
        ($n:ident) => {};
    }
}
/// as much of dashmap as the code uses
pub mod dashmap {
    use std::cell::{Ref, RefCell, RefMut}; use std::collections::HashMap; use std::hash::Hash;
    pub struct DashMap<K, V>(RefCell<HashMap<K, V>>);
    impl<K, V> Default for DashMap<K, V> { fn default() -> Self { DashMap(RefCell::new(HashMap::new())) } }
    pub enum Entry<'a, K, V> { Occupied(Occupied<'a, K, V>), Vacant(Vacant<'a, K, V>) }
    pub struct Occupied<'a, K, V> { m: RefMut<'a, HashMap<K, V>>, k: K }
    pub struct Vacant<'a, K, V> { m: RefMut<'a, HashMap<K, V>>, k: K }
    impl<'a, K: Eq + Hash, V> Occupied<'a, K, V> { pub fn get_mut(&mut self) -> &mut V { self.m.get_mut(&self.k).unwrap() } pub fn get(&self) -> &V { self.m.get(&self.k).unwrap() } pub fn insert(&mut self, v: V) where K: Clone { self.m.insert(self.k.clone(), v); } }
    impl<'a, K: Eq + Hash, V> Vacant<'a, K, V> { pub fn insert(mut self, v: V) { self.m.insert(self.k, v); } }
    impl<K: Eq + Hash, V> DashMap<K, V> {
        pub fn get(&self, k: &K) -> Option<Ref<'_, V>> { Ref::filter_map(self.0.borrow(), |m| m.get(k)).ok() }
        pub fn insert(&self, k: K, v: V) -> Option<V> { self.0.borrow_mut().insert(k, v) }
        pub fn remove(&self, k: &K) -> Option<(K, V)> { self.0.borrow_mut().remove_entry(k) }
        pub fn contains_key(&self, k: &K) -> bool { self.0.borrow().contains_key(k) }
        pub fn clear(&self) { self.0.borrow_mut().clear() }
        pub fn entry(&self, k: K) -> Entry<'_, K, V> { let m = self.0.borrow_mut(); if m.contains_key(&k) { Entry::Occupied(Occupied { m, k }) } else { Entry::Vacant(Vacant { m, k }) } }
    }
}
/// as much of the vfs crate as the code uses
pub mod vfs {
    use std::collections::{BTreeMap, HashMap};
    #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
    pub struct FileId(pub u32);
    impl FileId { pub fn index(self) -> u32 { self.0 } pub fn from_raw(r: u32) -> FileId { FileId(r) } }
    #[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
    pub struct AbsPath(String);
    pub type AbsPathBuf = AbsPath;
    impl AbsPath { pub fn to_path_buf(&self) -> AbsPathBuf { self.clone() } pub fn file_name(&self) -> Option<&str> { self.0.rsplit('/').next().filter(|s| !s.is_empty()) } }
    impl AsRef<AbsPath> for AbsPath { fn as_ref(&self) -> &AbsPath { self } }
    /// "!/..." stands for a virtual path
    #[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
    pub struct VfsPath(pub String, Option<AbsPath>);
    impl VfsPath {
        pub fn new(s: &str) -> VfsPath { VfsPath(s.into(), if s.starts_with('!') { None } else { Some(AbsPath(s.into())) }) }
        pub fn as_path(&self) -> Option<&AbsPath> { self.1.as_ref() }
        pub fn name_and_extension(&self) -> Option<(&str, Option<&str>)> {
            let n = self.0.rsplit('/').next().filter(|s| !s.is_empty())?;
            Some(match n.rfind('.') { None | Some(0) => (n, None), Some(i) => (&n[..i], Some(&n[i + 1..])) })
        }
        pub fn dir(&self) -> &str { &self.0[..self.0.rfind('/').unwrap()] }
    }
    impl std::fmt::Display for VfsPath { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum Change { Create(Vec<u8>, u64), Modify(Vec<u8>, u64), Delete }
    #[derive(Clone, Debug)]
    pub struct ChangedFile { pub file_id: FileId, pub change: Change }
    impl ChangedFile { pub fn exists(&self) -> bool { self.change != Change::Delete } pub fn kind(&self) -> u8 { 0 } }
    #[derive(Default)]
    pub struct Changes { v: Vec<ChangedFile> }
    impl Changes { pub fn is_empty(&self) -> bool { self.v.is_empty() } pub fn len(&self) -> usize { self.v.len() } pub fn into_values(self) -> std::vec::IntoIter<ChangedFile> { self.v.into_iter() }
        pub fn into_iter(self) -> impl Iterator<Item = (FileId, ChangedFile)> { self.v.into_iter().map(|c| (c.file_id, c)) } }
    #[derive(Default)]
    pub struct Vfs { pub paths: Vec<VfsPath>, pub now: BTreeMap<FileId, Vec<u8>>, pub before: BTreeMap<FileId, Vec<u8>>, pub order: Vec<FileId> }
    impl Vfs {
        pub fn id(&mut self, p: &VfsPath) -> FileId { if let Some(i) = self.paths.iter().position(|q| q == p) { FileId(i as u32) } else { self.paths.push(p.clone()); FileId(self.paths.len() as u32 - 1) } }
        pub fn set_file_contents(&mut self, p: VfsPath, c: Option<Vec<u8>>) -> bool {
            let f = self.id(&p);
            let old = self.now.get(&f).cloned();
            if old == c { return false }
            match c { Some(b) => { self.now.insert(f, b); } None => { self.now.remove(&f); } }
            if !self.order.contains(&f) { self.order.push(f) }
            true
        }
        /// what changed since the last call, once per file
        pub fn take_changes(&mut self) -> Changes {
            let mut v = vec![];
            for f in std::mem::take(&mut self.order) {
                let change = match (self.before.get(&f), self.now.get(&f)) { (None, None) => continue, (None, Some(b)) => Change::Create(b.clone(), 0), (Some(a), Some(b)) => Change::Modify(b.clone(), 0), (Some(_), None) => Change::Delete };
                v.push(ChangedFile { file_id: f, change });
            }
            self.before = self.now.clone();
            Changes { v }
        }
        pub fn file_path(&self, f: FileId) -> &VfsPath { &self.paths[f.0 as usize] }
        pub fn exists(&self, f: FileId) -> bool { self.now.contains_key(&f) }
        pub fn file_id(&self, p: &VfsPath) -> Option<(FileId, u8)> { self.paths.iter().position(|q| q == p).map(|i| FileId(i as u32)).filter(|f| self.now.contains_key(f)).map(|f| (f, 0)) }
        pub fn iter(&self) -> impl Iterator<Item = (FileId, &VfsPath)> + '_ { self.now.keys().map(|f| (*f, &self.paths[f.0 as usize])) }
    }
    pub mod file_set {
        use super::*;
        #[derive(Clone, Debug, PartialEq, Eq, Default)]
        pub struct FileSet { pub files: HashMap<VfsPath, FileId>, pub paths: BTreeMap<FileId, VfsPath> }
        impl FileSet {
            pub fn path_for_file(&self, f: &FileId) -> Option<&VfsPath> { self.paths.get(f) }
            pub fn file_for_path(&self, p: &VfsPath) -> Option<&FileId> { self.files.get(p) }
            pub fn iter(&self) -> impl Iterator<Item = FileId> + '_ { self.paths.keys().copied() }
            pub fn insert(&mut self, f: FileId, p: VfsPath) { self.files.insert(p.clone(), f); self.paths.insert(f, p); }
            pub fn len(&self) -> usize { self.paths.len() }
        }
        #[derive(Default)]
        pub struct FileSetConfig { pub dirs: Vec<String> }
        pub fn set_of(dirs: &[String], p: &VfsPath) -> usize {
            let mut best = (0, dirs.len());
            for (i, d) in dirs.iter().enumerate() { if p.0.starts_with(&format!("{d}/")) && d.len() > best.0 { best = (d.len(), i) } }
            best.1
        }
        impl FileSetConfig {
            pub fn partition(&self, v: &Vfs) -> Vec<FileSet> {
                let mut r = vec![FileSet::default(); self.dirs.len() + 1];
                for (f, p) in v.iter() { r[set_of(&self.dirs, p)].insert(f, p.clone()) }
                r
            }
        }
    }
}
pub use vfs::AbsPathBuf;
use vfs::{FileId, VfsPath};
pub struct LoadPackagesRequest { pub force_reload_package_deps: bool }
#[derive(Default)]
pub struct Queue { pub asked: Vec<bool> }
impl Queue { pub fn request_op(&mut self, cause: String, r: LoadPackagesRequest) { self.asked.push(r.force_reload_package_deps) } }
pub struct GlobalState {
    pub vfs: Arc<parking_lot::RwLock<(vfs::Vfs, HashMap<FileId, line_endings::LineEndings>)>>,
    pub package_root_config: code::project_folders::PackageRootConfig, pub analysis_host: code::ide::AnalysisHost, pub load_aptos_packages_queue: Queue,
}
use code::{change::FileChanges, inputs::*, package_root::*, root_db::RootDatabase, source_db::SourceDatabase};

fn bytes(r: &mut Rng) -> Vec<u8> {
    let n = r.below(8);
    let mut b: Vec<u8> = vec![];
    for _ in 0..n { b.extend_from_slice(*r.pick(&[&b"a"[..], b"\n", b"\r\n", b"\r", "é".as_bytes(), b"m", b"\xff", b"\r\n", b"x"])); }
    b
}
/// reference: CRLF pairs become LF
fn unix(b: &[u8]) -> Option<(String, bool)> { let s = String::from_utf8(b.to_vec()).ok()?; Some((s.replace("\r\n", "\n"), s.contains("\r\n"))) }
const DIRS: [&str; 4] = ["/w/a", "/w/a/b", "/w/c", "/d"];
const NAMES: [&str; 9] = ["sources/m.move", "sources/m.spec.move", "sources/n.move", "m.spec.move", "Move.toml", "sources/m.spec.spec.move", "tests/m.move", "n.spec.move", ".move"];
type R = Result<(), String>;
fn partners(paths: &BTreeMap<FileId, String>, f: FileId) -> BTreeSet<FileId> {
    let name = |p: &str| p.rsplit('/').next().unwrap().to_string();
    let n = name(&paths[&f]);
    let Some(stem) = n.strip_suffix(".move").filter(|s| !s.is_empty()) else { return BTreeSet::new() };
    let stem = stem.strip_suffix(".spec").unwrap_or(stem);
    paths.iter().filter(|(_, p)| !p.starts_with('!') && (name(p) == format!("{stem}.move") || name(p) == format!("{stem}.spec.move"))).map(|(g, _)| *g).collect()
}
fn run_case(seed: u64, steps: usize, what: &str) -> R {
    let mut r = Rng(seed);
    let nd = r.range(0, DIRS.len());
    let mut dirs: Vec<String> = DIRS.iter().map(|s| s.to_string()).collect();
    for i in (1..dirs.len()).rev() { let j = r.below(i + 1); dirs.swap(i, j); }
    dirs.truncate(nd);
    let local: Vec<u64> = (0..=nd as u64).filter(|_| r.chance(1, 2)).collect();
    let manifests: Vec<VfsPath> = dirs.iter().map(|d| VfsPath::new(&format!("{d}/Move.toml"))).collect();
    let mut v = vfs::Vfs::default();
    let bp = VfsPath::new("!/builtins.move");
    let bid = v.id(&bp);
    v.set_file_contents(bp.clone(), Some(b"b".to_vec()));
    let mut ch = FileChanges::new();
    ch.add_builtins_file(bid, "built in".into());
    let mut st = GlobalState { vfs: Arc::new(parking_lot::RwLock::new((v, HashMap::new()))), package_root_config: code::project_folders::PackageRootConfig { fileset_root_manifests: manifests.clone(), fsc: vfs::file_set::FileSetConfig { dirs: dirs.clone() }, local_filesets: local.clone() },
        analysis_host: code::ide::AnalysisHost { db: RootDatabase::new() }, load_aptos_packages_queue: Queue::default() };
    st.analysis_host.apply_change(ch);
    let mut texts: BTreeMap<FileId, String> = BTreeMap::new();
    texts.insert(bid, "built in".into());
    let mut ends: BTreeMap<FileId, bool> = BTreeMap::new();
    let mut asked = 0;
    let mut packages: Option<BTreeMap<FileId, (usize, String)>> = None;
    for step in 0..steps {
        for _ in 0..r.below(4) {
            let p = VfsPath::new(&format!("{}/{}", r.pick(&DIRS), r.pick(&NAMES)));
            let c = if r.chance(1, 5) { None } else { Some(bytes(&mut r)) };
            st.vfs.write().0.set_file_contents(p, c);
        }
        // what is pending
        let (pend, present): (Vec<(FileId, VfsPath, u8, Option<Vec<u8>>)>, BTreeMap<FileId, String>) = {
            let g = st.vfs.read(); let v = &g.0;
            (v.order.iter().filter_map(|f| { let (a, b) = (v.before.get(f), v.now.get(f)); if a.is_none() && b.is_none() { return None } Some((*f, v.file_path(*f).clone(), if a.is_none() { 0 } else if b.is_none() { 2 } else { 1 }, b.cloned())) }).collect(),
             v.now.keys().map(|f| (*f, v.paths[f.0 as usize].0.clone())).collect())
        };
        let mut notable = false;
        for (f, p, k, b) in &pend {
            if p.as_path().is_some() && (*k != 1 || p.0.ends_with("/Move.toml")) { notable = true }
            match b.as_ref().and_then(|b| unix(b)) { Some((t, crlf)) => { texts.insert(*f, t); ends.insert(*f, crlf); } None => { texts.insert(*f, String::new()); } }
        }
        if notable { asked += 1; packages = Some(present.iter().map(|(f, p)| (*f, (vfs::file_set::set_of(&dirs, &VfsPath::new(p)), p.clone()))).collect()); }
        let got = st.process_pending_file_changes();
        if got != !pend.is_empty() { return Err(format!("step {step}: reported {got} with {} pending changes", pend.len())) }
        let db = &st.analysis_host.db;
        if what != "packages" {
            for (f, t) in &texts {
                let g = db.file_text(*f);
                if &*g.text(db) != t.as_str() { return Err(format!("step {step}: the text of {} is {:?} instead of {t:?}", st.vfs.read().0.file_path(*f), g.text(db))) }
                if g.file_id(db) != *f { return Err(format!("step {step}: the text of {} is filed under {:?}", f.0, g.file_id(db))) }
            }
            if st.load_aptos_packages_queue.asked.len() != asked || st.load_aptos_packages_queue.asked.iter().any(|b| !b) { return Err(format!("step {step}: reloads {:?} instead of {asked}", st.load_aptos_packages_queue.asked)) }
            let g = st.vfs.read();
            let e: BTreeMap<FileId, bool> = g.1.iter().map(|(f, e)| (*f, *e == line_endings::LineEndings::Dos)).collect();
            if e != ends { return Err(format!("step {step}: line ends {e:?} instead of {ends:?}")) }
        }
        if what != "texts" {
            if let Some(pk) = &packages {
                let ids = db.all_package_ids().data(db);
                if ids.len() != dirs.len() + 1 { return Err(format!("step {step}: {} packages instead of {}", ids.len(), dirs.len() + 1)) }
                for (i, id) in ids.iter().enumerate() {
                    if id.idx(db) != i as u32 { return Err(format!("step {step}: package {i} has number {}", id.idx(db))) }
                    let root = db.package_root(*id).data(db);
                    let want: BTreeMap<FileId, String> = pk.iter().filter(|(_, (k, _))| *k == i).map(|(f, (_, p))| (*f, p.clone())).collect();
                    let have: BTreeMap<FileId, String> = root.file_set.paths.iter().map(|(f, p)| (*f, p.0.clone())).collect();
                    if want != have { return Err(format!("step {step}: package {i} holds {have:?} instead of {want:?}")) }
                    if (root.kind == PackageKind::Local) != local.contains(&(i as u64)) { return Err(format!("step {step}: package {i} is {:?}", root.kind)) }
                    let m = want.iter().find(|(_, p)| i < dirs.len() && **p == format!("{}/Move.toml", dirs[i])).map(|(f, _)| *f);
                    if root.manifest_file_id != m { return Err(format!("step {step}: manifest of package {i} is {:?} instead of {m:?}", root.manifest_file_id)) }
                    for f in want.keys() {
                        if db.file_package_id(*f) != *id { return Err(format!("step {step}: file {} is in the wrong package", want[f])) }
                        let mut s = db.spec_related_files(*f).data(db);
                        s.sort();
                        let p: Vec<FileId> = partners(&want, *f).into_iter().collect();
                        if s != p { return Err(format!("step {step}: spec files of {} are {s:?} instead of {p:?}", want[f])) }
                    }
                }
            }
            if db.builtins_file_id().map(|b| b.data(db)) != Some(bid) { return Err("builtins lost".into()) }
            db.spec_related_files(bid);
        }
    }
    Ok(())
}
fn main() {
    let mut run = Run::from_args();
    let what = std::env::args().nth(1).unwrap_or_default();
    if !["texts", "packages"].contains(&what.as_str()) { eprintln!("texts|packages"); std::process::exit(2) }
    let seed = run.rng.next();
    let a: Vec<String> = std::env::args().collect();
    let only = a.iter().position(|x| x == "--only").and_then(|i| a.get(i + 1)).cloned();
    if let Some(k) = only {
        let p: Vec<u64> = k.split('/').map(|s| s.parse().unwrap()).collect();
        run.case(&k, true, || run_case(p[0], p[1] as usize, &what));
        return run.finish();
    }
    let mut n = 0u64;
    while run.time_left() {
        let steps = [1, 2, 4, 8, 16][(n % 5) as usize];
        let s = seed.wrapping_add(n);
        run.case(&format!("{s}/{steps}"), true, || run_case(s, steps, &what));
        n += 1;
        salsa::CELLS.with(|c| c.borrow_mut().clear());
    }
    run.finish()
}
