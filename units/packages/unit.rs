#![feature(allocator_api)]
#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
verus! {
//@include ../common/prelude.rs
fn main() {}
//@eqcalls
//@prewrite tracing :: error ! ( $$a ) ; =>>
//@prewrite tracing :: info ! ( $$a ) ; =>>
//@prewrite let _p = tracing :: info_span ! ( $$a ) . entered ( ) ; =>>
//@prewrite cfg ! ( target_os = "macos" ) || cfg ! ( target_os = "windows" ) =>> vx_caseless()
// ================= maps, sets and queues (trusted: as std documents them)
pub mod coll {
use vstd::prelude::*;
/// what makes two keys equal
pub trait Key: Sized { type K; spec fn key(&self) -> Self::K; }
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct HashMap<K: Key, V> { k: std::marker::PhantomData<(K, V)> }
#[verifier::external_body] #[verifier::accept_recursive_types(K)]
pub struct HashSet<K: Key> { k: std::marker::PhantomData<K> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct VecDeque<T> { k: std::marker::PhantomData<T> }
impl<K: Key, V> View for HashMap<K, V> { type V = Map<K::K, V>; uninterp spec fn view(&self) -> Map<K::K, V>; }
impl<K: Key> View for HashSet<K> { type V = Set<K::K>; uninterp spec fn view(&self) -> Set<K::K>; }
impl<T> View for VecDeque<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<K: Key, V> HashMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K::K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.dom().contains(k.key()) && *v == self@[k.key()], None => !self@.dom().contains(k.key()) } { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(k.key()) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.key(), v) { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, o: HashMap<K, V>) ensures final(self)@ == old(self)@.union_prefer_right(o@) { unimplemented!() }
    /// `for (k, v) in map`
    #[verifier::external_body] pub fn vx_entries(self) -> (r: Vec<(K, V)>)
        ensures entries(r@, self@)
    { unimplemented!() }
    /// `.iter().filter_map(..).collect()` where the closure keeps the keys
    #[verifier::external_body] pub fn vx_filter_map<W, F: Fn((&K, &V)) -> Option<(K, W)>>(&self, f: F) -> (r: HashMap<K, W>)
        requires forall|k: &K, v: &V| #[trigger] f.requires(((k, v),)), forall|k: &K, v: &V, o: Option<(K, W)>| #[trigger] f.ensures(((k, v),), o) && o is Some ==> (o->0).0.key() == k.key()
        ensures forall|q: K::K| #[trigger] self@.dom().contains(q) ==> exists|k: K, o: Option<(K, W)>| k.key() == q && #[trigger] f.ensures(((&k, &self@[q]),), o) && match o { Some(e) => r@.dom().contains(q) && r@[q] == e.1, None => !r@.dom().contains(q) },
            r@.dom().subset_of(self@.dom()),
    { unimplemented!() }
}
pub open spec fn entries<K: Key, V>(r: Seq<(K, V)>, m: Map<K::K, V>) -> bool {
    r.len() == m.dom().len() && (forall|i: int| 0 <= i < r.len() ==> m.dom().contains((#[trigger] r[i]).0.key()) && m[r[i].0.key()] == r[i].1)
    && (forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0.key() != (#[trigger] r[j]).0.key())
    && (forall|k: K::K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0.key() == k)
}
impl<K: Key> HashSet<K> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K::K>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(k.key()) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k.key()), r == !old(self)@.contains(k.key()) { unimplemented!() }
}
impl<T> VecDeque<T> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push_back(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
    #[verifier::external_body] pub fn push_front(&mut self, t: T) ensures final(self)@ == seq![t] + old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<T>) ensures match r { Some(t) => old(self)@ == seq![t] + final(self)@, None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body] pub fn pop_back(&mut self) -> (r: Option<T>) ensures match r { Some(t) => old(self)@ == final(self)@.push(t), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, o: Vec<T>) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
}
impl Key for String { type K = Seq<char>; open spec fn key(&self) -> Seq<char> { self@ } }
}
use coll::*;

// ================= texts, paths
pub trait VxEq<B: ?Sized> { spec fn same(&self, o: &B) -> bool; fn vx_same(&self, o: &B) -> (r: bool) ensures r == self.same(o); }
/// `==`
pub fn vx_eq<A: VxEq<B>, B>(a: &A, b: &B) -> (r: bool) ensures r == a.same(b) { a.vx_same(b) }
impl VxEq<PackageKind> for PackageKind { open spec fn same(&self, o: &PackageKind) -> bool { *self == *o } fn vx_same(&self, o: &PackageKind) -> (r: bool) { match (*self, *o) { (PackageKind::Local, PackageKind::Local) => true, (PackageKind::Git, PackageKind::Git) => true, _ => false } } }
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
/// trusted: a clone is the same value
#[verifier::external_body]
pub fn vx_clone<T>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }
#[verifier::external_body]
pub fn vx_clone_opt<T>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }
pub type Path = Seq<Seq<char>>;
/// a path is the names on it (trusted: `paths`, `camino`, `std::path` as documented, on a platform with `/`)
#[verifier::external_body]
pub struct AbsPathBuf { }
#[verifier::external_body]
pub struct PathBuf { }
#[verifier::external_body]
pub struct Utf8PathBuf { }
#[verifier::external_body]
pub struct OsString { }
impl View for AbsPathBuf { type V = Path; uninterp spec fn view(&self) -> Path; }
impl View for PathBuf { type V = Path; uninterp spec fn view(&self) -> Path; }
impl View for Utf8PathBuf { type V = Path; uninterp spec fn view(&self) -> Path; }
impl View for OsString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub open spec fn parent_of(p: Path) -> Option<Path> { if p.len() > 0 { Some(p.drop_last()) } else { None } }
/// the file system: what is in a directory (the names, and whether each is a file)
pub uninterp spec fn listing(dir: Path) -> Option<Seq<(Seq<char>, bool)>>;
pub uninterp spec fn text_at(p: Path) -> Option<Seq<char>>;
pub uninterp spec fn joined_path(p: Path, rest: Seq<char>) -> Path;
/// a single name
pub open spec fn simple(n: Seq<char>) -> bool { n.len() > 0 && n[0] != '.' && !n.contains('/') }
pub open spec fn joined(p: Path, rest: Seq<char>) -> Path { if simple(rest) { p.push(rest) } else { joined_path(p, rest) } }
/// everything below a directory, and the directory
pub uninterp spec fn walked(dir: Path) -> Seq<Path>;
pub uninterp spec fn exists_at(p: Path) -> bool;
pub uninterp spec fn usable(p: Path) -> bool;
pub uninterp spec fn home() -> Option<Path>;
pub uninterp spec fn caseless() -> bool;
pub uninterp spec fn lowered(n: Seq<char>) -> Seq<char>;
pub open spec fn manifest_name(n: Seq<char>) -> bool { if caseless() { lowered(n) == "move.toml"@ } else { n == "Move.toml"@ } }
pub open spec fn is_manifest(p: Path) -> bool { p.len() > 0 && manifest_name(p.last()) }
/// without `.` and `..`
pub open spec fn normal(p: Path) -> Path decreases p.len() {
    if p.len() == 0 { p } else { let q = normal(p.drop_last()); if p.last() == seq!['.'] { q } else if p.last() == seq!['.', '.'] { if q.len() == 0 { q } else { q.drop_last() } } else { q.push(p.last()) } }
}
pub open spec fn starts(p: Path, dir: Path) -> bool { dir.len() <= p.len() && p.take(dir.len() as int) == dir }
#[verifier::external_body]
pub fn vx_caseless() -> (r: bool) ensures r == caseless() { unimplemented!() }
pub trait VxStr { spec fn t(&self) -> Seq<char>; }
impl VxStr for String { open spec fn t(&self) -> Seq<char> { self@ } }
impl<'a> VxStr for &'a str { open spec fn t(&self) -> Seq<char> { self@ } }
impl AbsPathBuf {
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&AbsPathBuf>) ensures match r { Some(p) => parent_of(self@) == Some(p@), None => parent_of(self@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: AbsPathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn as_path(&self) -> (r: &AbsPathBuf) ensures *r == *self { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: AbsPathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn join<S: VxStr>(&self, rest: S) -> (r: AbsPathBuf) ensures r@ == joined(self@, rest.t()) { unimplemented!() }
    #[verifier::external_body] pub fn normalize(&self) -> (r: AbsPathBuf) ensures r@ == normal(self@) { unimplemented!() }
    #[verifier::external_body] pub fn starts_with(&self, dir: &AbsPathBuf) -> (r: bool) ensures r == starts(self@, dir@) { unimplemented!() }
    #[verifier::external_body] pub fn assert_utf8(p: PathBuf) -> (r: AbsPathBuf) ensures r@ == p@ { unimplemented!() }
    #[verifier::external_body] pub fn try_from(p: Utf8PathBuf) -> (r: Result<AbsPathBuf, Utf8PathBuf>) ensures match r { Ok(a) => usable(p@) && a@ == p@, Err(_) => !usable(p@) } { unimplemented!() }
    /// `.file_name().unwrap_or_default()`
    #[verifier::external_body] pub fn vx_file_name(&self) -> (r: OsString) ensures self@.len() > 0 ==> r@ == self@.last(), self@.len() == 0 ==> r@.len() == 0 { unimplemented!() }
}
impl Utf8PathBuf {
    /// one that is not UTF-8 is not usable
    #[verifier::external_body] pub fn from_path_buf(p: PathBuf) -> (r: Result<Utf8PathBuf, PathBuf>) ensures match r { Ok(a) => a@ == p@, Err(_) => !usable(p@) } { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body] pub fn join<S: VxStr>(&self, rest: S) -> (r: PathBuf) ensures r@ == joined(self@, rest.t()) { unimplemented!() }
    #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r == file_at(self@) { unimplemented!() }
    #[verifier::external_body] pub fn file_name(&self) -> (r: Option<OsString>) ensures match r { Some(n) => self@.len() > 0 && n@ == self@.last(), None => self@.len() == 0 } { unimplemented!() }
}
impl OsString {
    pub fn into(self) -> (r: OsString) ensures r == self { self }
    #[verifier::external_body] pub fn to_ascii_lowercase(&self) -> (r: OsString) ensures r@ == lowered(self@) { unimplemented!() }
}
impl<'a> VxEq<&'a str> for OsString { open spec fn same(&self, o: &&'a str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_same(&self, o: &&'a str) -> bool { unimplemented!() } }
pub uninterp spec fn file_at(p: Path) -> bool;
pub mod dirs { use super::*; verus! { #[verifier::external_body] pub fn home_dir() -> (r: Option<PathBuf>) ensures match r { Some(p) => home() == Some(p@), None => home() is None } { unimplemented!() } } }
pub struct DirEntry { pub p: PathBuf }
impl DirEntry { #[verifier::external_body] pub fn path(&self) -> (r: PathBuf) ensures r@ == self.p@ { unimplemented!() } }
/// `fs::read_dir(dir).ok()?.filter_map(|it| it.ok())`
#[verifier::external_body]
pub fn vx_read_dir(dir: &AbsPathBuf) -> (r: Option<Vec<DirEntry>>)
    ensures match r { Some(v) => listing(dir@) matches Some(l) && v@.len() == l.len() && forall|i: int| #![trigger v@[i]] #![trigger l[i]] 0 <= i < l.len() ==> v@[i].p@ == dir@.push(l[i].0) && file_at(v@[i].p@) == l[i].1 && l[i].0 != seq!['.'] && l[i].0 != seq!['.', '.'], None => listing(dir@) is None }
{ unimplemented!() }
pub mod anyhow { pub struct Error { } pub type Result<T> = core::result::Result<T, Error>; }
//@rewrite & AbsPath =>> &AbsPathBuf
//@prewrite fs :: read_dir ( dep_root ) . ok ( ) ? . filter_map ( | it | it . ok ( ) ) =>> vx_read_dir(dep_root)?
//@prewrite move_toml_file . file_name ( ) . unwrap_or_default ( ) =>> move_toml_file.vx_file_name()
//@rewrite impl Iterator < Item = & MoveTomlDependency > =>> Vec<&MoveTomlDependency>
//@rewrite self . $a . iter ( ) . chain ( self . $b . iter ( ) ) . cloned ( ) . collect ( ) =>> vx_chain_cloned(&self.$a, &self.$b)
//@rewrite self . $a . iter ( ) . chain ( self . $b . iter ( ) ) =>> vx_chain(&self.$a, &self.$b)

//@rewrite tracing :: error ! ( $$a ) ; =>>
//@rewrite VecDeque :: new ( ) =>> VecDeque::new()
//@item crates/project-model/src/aptos_package.rs PackageKind derive(Clone, Copy)
//@item crates/project-model/src/manifest_path.rs ManifestPath derive()
impl Key for ManifestPath { type K = Path; open spec fn key(&self) -> Path { self.file@ } }
/// the manifest of a directory: the first file in it with that name
pub open spec fn first_manifest(dir: Path, l: Seq<(Seq<char>, bool)>, k: int) -> Option<Path> decreases l.len() - k {
    if k < 0 || k >= l.len() { None } else if l[k].1 && manifest_name(l[k].0) { Some(normal(dir.push(l[k].0))) } else { first_manifest(dir, l, k + 1) }
}
pub open spec fn manifest_in(dir: Path) -> Option<Path> { match listing(dir) { Some(l) => first_manifest(dir, l, 0), None => None } }
//@fn crates/project-model/src/manifest_path.rs is_move_toml strlits
//@ret r
//@spec
    ensures r == manifest_name(file_name@)
//@end
//@fn crates/project-model/src/aptos_package/load_from_fs.rs try_find_move_toml_at_root
//@ret r
//@spec
    ensures match r { Some(p) => manifest_in(dep_root@) == Some(p@) && is_manifest(p@), None => manifest_in(dep_root@) is None }
//@loop 0 iter it
    invariant listing(dep_root@) matches Some(l) && it.seq().len() == l.len() && (forall|i: int| #![trigger it.seq()[i]] #![trigger l[i]] 0 <= i < l.len() ==> it.seq()[i].p@ == dep_root@.push(l[i].0) && file_at(it.seq()[i].p@) == l[i].1 && l[i].0 != seq!['.'] && l[i].0 != seq!['.', '.'])
        && manifest_in(dep_root@) == first_manifest(dep_root@, l, it.index@ as int),
//@in loop 0 begin
    proof { let l = listing(dep_root@)->0; lemma_first(dep_root@, l, it.index@ as int); assert(dep_root@.push(l[it.index@ as int].0).last() == l[it.index@ as int].0); }
//@end
impl ManifestPath {
    #[verifier::external_body] pub fn clone(&self) -> (r: ManifestPath) ensures r == *self { unimplemented!() }
//@fn crates/project-model/src/manifest_path.rs ManifestPath::new
//@ret r
//@spec
    requires is_manifest(move_toml_file@)
    ensures r.file == move_toml_file
//@end
//@fn crates/project-model/src/manifest_path.rs ManifestPath::content_root
//@ret r
//@spec
    requires is_manifest(self.file@)
    ensures r@ == self.file@.drop_last()
//@end
}
#[verifier::external_body]
pub fn vx_chain<'a, T>(a: &'a Vec<T>, b: &'a Vec<T>) -> (r: Vec<&'a T>) ensures r@.len() == a@.len() + b@.len(), forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == (a@ + b@)[i] { unimplemented!() }
#[verifier::external_body]
pub fn vx_chain_cloned<T>(a: &Vec<T>, b: &Vec<T>) -> (r: Vec<T>) ensures r@ == a@ + b@ { unimplemented!() }
//@item crates/project-model/src/move_toml.rs MoveToml derive()
//@item crates/project-model/src/move_toml.rs Package derive()
//@item crates/project-model/src/move_toml.rs MoveTomlDependency derive()
//@item crates/project-model/src/move_toml.rs LocalDependency derive()
//@item crates/project-model/src/move_toml.rs GitDependency derive()
/// trusted: what `toml` reads
pub uninterp spec fn toml_of(t: Seq<char>) -> Option<MoveToml>;
pub open spec fn toml_at(p: Path) -> Option<MoveToml> { match text_at(p) { Some(t) => toml_of(t), None => None } }
/// where the compiler puts a package from git
pub open spec fn git_dir_char(c: char) -> char { if c == '/' || c == ':' || c == '.' || c == '@' { '_' } else { c } }
pub open spec fn git_dir(git: Seq<char>, rev: Seq<char>) -> Seq<char> { git.map_values(|c: char| git_dir_char(c)) + seq!['_'] + rev.map_values(|c: char| if c == '/' { '_' } else { c }) }
pub open spec fn git_root(d: GitDependency) -> Option<Path> {
    match (home(), d.rev) { (Some(h), Some(rev)) => { let p = joined(joined(joined(h, ".move"@), git_dir(d.git@, rev@)), match d.subdir { Some(s) => s@, None => Seq::empty() }); if usable(p) { Some(p) } else { None } }, _ => None }
}
pub open spec fn dep_root_of(d: MoveTomlDependency, root: Path) -> Option<Path> { match d { MoveTomlDependency::Git(g) => git_root(g), MoveTomlDependency::Local(l) => Some(joined(root, l.path@)) } }
pub open spec fn dep_name_of(d: MoveTomlDependency) -> Seq<char> { match d { MoveTomlDependency::Git(g) => g.name@, MoveTomlDependency::Local(l) => l.name@ } }
impl MoveToml {
    pub open spec fn all_deps(self) -> Seq<MoveTomlDependency> { self.dependencies@ + self.dev_dependencies@ }
    #[verifier::external_body] pub fn from_str(s: &str) -> (r: anyhow::Result<MoveToml>) ensures match r { Ok(t) => toml_of(s@) == Some(t), Err(_) => toml_of(s@) is None } { unimplemented!() }
//@fn crates/project-model/src/move_toml.rs MoveToml::declared_dependencies
//@ret r
//@spec
    ensures r@.len() == self.all_deps().len(), forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == self.all_deps()[i]
//@end
//@fn crates/project-model/src/move_toml.rs MoveToml::declared_named_addresses
//@ret r
//@spec
    ensures r@ == self.addresses@ + self.dev_addresses@
//@end
}
impl LocalDependency {
//@fn crates/project-model/src/move_toml.rs LocalDependency::dep_root
//@rewrite self . path . clone ( ) =>> vx_clone(&self.path)
//@ret r
//@spec
    ensures r@ == joined(move_toml_root@, self.path@)
//@end
}
pub open spec fn mapped(t: Seq<char>, f: spec_fn(char) -> char) -> Seq<char> { t.map_values(f) }
#[verifier::external_body]
pub fn vx_map_chars<F: Fn(char) -> char>(s: &String, f: F) -> (r: String) requires forall|c: char| #[trigger] f.requires((c,)) ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> f.ensures((s@[i],), #[trigger] r@[i]) { unimplemented!() }
#[verifier::external_body]
pub fn vx_replace1(s: String, from: &str, to: &str) -> (r: String) requires from@.len() == 1, to@.len() == 1 ensures r@ == s@.map_values(|c: char| if c == from@[0] { to@[0] } else { c }) { unimplemented!() }
/// `format!("{a}_{b}")`
#[verifier::external_body]
pub fn vx_under(a: &String, b: &String) -> (r: String) ensures r@ == a@ + seq!['_'] + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_or_empty(s: Option<String>) -> (r: String) ensures r@ == match s { Some(t) => t@, None => Seq::empty() } { unimplemented!() }
//@prewrite format ! ( "{sanitized_repo_name}_{rev_name}" ) =>> vx_under(&sanitized_repo_name, &rev_name)
impl GitDependency {
//@fn crates/project-model/src/move_toml.rs GitDependency::dep_root strlits
//@rewrite self . git . chars ( ) . map ( $$f ) . collect ( ) =>> vx_map_chars(&self.git, $f)
//@rewrite self . rev . clone ( ) ? . replace ( $a , $b ) =>> vx_replace1(vx_clone(&self.rev)?, $a, $b)
//@rewrite self . subdir . clone ( ) . unwrap_or_default ( ) =>> vx_or_empty(vx_clone(&self.subdir))
//@ret r
//@spec
    ensures match r { Some(p) => git_root(*self) == Some(p@), None => git_root(*self) is None }
//@closure 0
    |ch: char| -> (o: char) ensures o == git_dir_char(ch)
//@after let dep_dir_name
    proof { assert(dep_dir_name@ =~= git_dir(self.git@, self.rev->0@)); }
//@end
}
impl MoveTomlDependency {
//@fn crates/project-model/src/move_toml.rs MoveTomlDependency::name
//@rewrite $a . name . clone ( ) =>> vx_clone(&$a.name)
//@ret r
//@spec
    ensures r@ == dep_name_of(*self)
//@end
//@fn crates/project-model/src/move_toml.rs MoveTomlDependency::dep_root
//@ret r
//@spec
    ensures match r { Some(p) => dep_root_of(*self, current_pkg_root@) == Some(p@), None => dep_root_of(*self, current_pkg_root@) is None }
//@end
}
#[verifier::external_body]
pub fn vx_read(p: &ManifestPath) -> (r: anyhow::Result<String>) ensures match r { Ok(t) => text_at(p.file@) == Some(t@), Err(_) => text_at(p.file@) is None } { unimplemented!() }
//@prewrite . with_context ( $$c ) =>>
//@prewrite fs :: read_to_string ( & path ) =>> vx_read(path)
//@fn crates/project-model/src/aptos_package/load_from_fs.rs read_manifest_from_fs
//@ret r
//@spec
    ensures match r { Ok(t) => toml_at(path.file@) == Some(t), Err(_) => toml_at(path.file@) is None }
//@end
//@item crates/project-model/src/aptos_package/load_from_fs.rs ManifestEntry derive()
pub type AddressPair = (String, String);
pub type Dep = (ManifestPath, PackageKind);
pub type Valid = Map<Path, ManifestEntry>;
// ================= P01: the dependencies of a package
pub open spec fn name_at(v: Valid, p: Path) -> Option<Seq<char>> { if v.dom().contains(p) { match v[p].package_name { Some(n) => Some(n@), None => None } } else { None } }
pub open spec fn deps_at(v: Valid, p: Path) -> Seq<Dep> { if v.dom().contains(p) { v[p].declared_deps@ } else { Seq::empty() } }
pub open spec fn at(r: Seq<Dep>, i: int) -> Path { r[i].0.key() }
pub open spec fn listed(r: Seq<Dep>, p: Path) -> bool { exists|i: int| 0 <= i < r.len() && #[trigger] at(r, i) == p }
/// a package of that name is there
pub open spec fn named(v: Valid, r: Seq<Dep>, n: Option<Seq<char>>) -> bool { n is Some && exists|i: int| 0 <= i < r.len() && name_at(v, #[trigger] at(r, i)) == n }
pub open spec fn covered(v: Valid, r: Seq<Dep>, p: Path) -> bool { listed(r, p) || named(v, r, name_at(v, p)) }
pub open spec fn well_sourced(v: Valid, declared: Seq<Dep>, r: Seq<Dep>, x: Dep) -> bool { declared.contains(x) || exists|j: int| 0 <= j < r.len() && (#[trigger] deps_at(v, at(r, j))).contains(x) }
/// each package once, each name once
pub open spec fn once(v: Valid, r: Seq<Dep>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> #[trigger] at(r, i) != #[trigger] at(r, j) && (name_at(v, at(r, i)) is Some ==> name_at(v, at(r, i)) != name_at(v, at(r, j))) }
pub open spec fn sourced(v: Valid, declared: Seq<Dep>, r: Seq<Dep>) -> bool { forall|i: int| 0 <= i < r.len() ==> well_sourced(v, declared, r.take(i), #[trigger] r[i]) }
/// one that is declared first goes first
pub open spec fn taken_before(v: Valid, declared: Seq<Dep>, k: int) -> bool { name_at(v, at(declared, k)) is Some && exists|j: int| 0 <= j < k && name_at(v, #[trigger] at(declared, j)) == name_at(v, at(declared, k)) }
pub open spec fn own_first(v: Valid, declared: Seq<Dep>, r: Seq<Dep>, n: int) -> bool { forall|k: int| 0 <= k < n ==> listed(r, #[trigger] at(declared, k)) || taken_before(v, declared, k) }
pub open spec fn is_closure(v: Valid, declared: Seq<Dep>, r: Seq<Dep>) -> bool {
    once(v, r) && sourced(v, declared, r) && own_first(v, declared, r, declared.len() as int)
    && (forall|x: Dep| #[trigger] well_sourced(v, declared, r, x) ==> covered(v, r, x.0.key()))
}
pub open spec fn unseen(v: Valid, seen: Set<Path>) -> nat { v.dom().difference(seen).len() }
pub open spec fn lined_up(q: Seq<Dep>, declared: Seq<Dep>, done: int) -> bool { done <= declared.len() ==> q.len() >= declared.len() - done && q.take(declared.len() - done) == declared.skip(done) }
proof fn lemma_next(q: Seq<Dep>, c: Dep, declared: Seq<Dep>, done: int)
    requires lined_up(seq![c] + q, declared, done), done >= 0
    ensures lined_up(q, declared, done + 1), done < declared.len() ==> c == declared[done], forall|x: Dep| #[trigger] (seq![c] + q).contains(x) ==> x == c || q.contains(x), (seq![c] + q)[0] == c, forall|i: int| 0 <= i < q.len() ==> (seq![c] + q)[i + 1] == #[trigger] q[i]
{
    let q0 = seq![c] + q;
    if done < declared.len() {
        assert(q0.take(declared.len() - done)[0] == declared.skip(done)[0]);
        assert(q.take(declared.len() - done - 1) =~= q0.take(declared.len() - done).skip(1)); assert(declared.skip(done + 1) =~= declared.skip(done).skip(1));
    }
    assert forall|x: Dep| #[trigger] q0.contains(x) implies x == c || q.contains(x) by { let i = choose|i: int| 0 <= i < q0.len() && q0[i] == x; if i > 0 { assert(q[i - 1] == x); } }
}
proof fn lemma_push(v: Valid, declared: Seq<Dep>, r: Seq<Dep>, x: Dep)
    requires once(v, r), sourced(v, declared, r), !listed(r, x.0.key()), !named(v, r, name_at(v, x.0.key())), well_sourced(v, declared, r, x)
    ensures once(v, r.push(x)), sourced(v, declared, r.push(x)), forall|p: Path| #![trigger listed(r, p)] #![trigger listed(r.push(x), p)] listed(r.push(x), p) == (listed(r, p) || p == x.0.key()), listed(r.push(x), x.0.key()),
        forall|n: Option<Seq<char>>| #[trigger] named(v, r.push(x), n) == (named(v, r, n) || n is Some && name_at(v, x.0.key()) == n),
        forall|p: Path| #[trigger] covered(v, r, p) ==> covered(v, r.push(x), p), covered(v, r.push(x), x.0.key()),
        forall|y: Dep| #[trigger] well_sourced(v, declared, r.push(x), y) == (well_sourced(v, declared, r, y) || deps_at(v, x.0.key()).contains(y)),
{
    let s = r.push(x); let n = r.len() as int;
    assert(at(s, n) == x.0.key());
    assert(forall|i: int| 0 <= i < n ==> #[trigger] at(s, i) == at(r, i));
    assert forall|p: Path| listed(s, p) == (#[trigger] listed(r, p) || p == x.0.key()) by { if listed(r, p) { let i = choose|i: int| 0 <= i < r.len() && at(r, i) == p; assert(at(s, i) == p); } }
    assert forall|m: Option<Seq<char>>| #[trigger] named(v, s, m) == (named(v, r, m) || m is Some && name_at(v, x.0.key()) == m) by { if named(v, r, m) { let i = choose|i: int| 0 <= i < r.len() && name_at(v, at(r, i)) == m; assert(at(s, i) == at(r, i)); } }
    assert forall|y: Dep| #[trigger] well_sourced(v, declared, s, y) == (well_sourced(v, declared, r, y) || deps_at(v, x.0.key()).contains(y)) by {
        if well_sourced(v, declared, r, y) && !declared.contains(y) { let j = choose|j: int| 0 <= j < r.len() && deps_at(v, at(r, j)).contains(y); assert(at(s, j) == at(r, j)); }
    }
    assert forall|i: int| 0 <= i < s.len() implies well_sourced(v, declared, s.take(i), #[trigger] s[i]) by { assert(s.take(i) =~= r.take(i)); if i < n { assert(r[i] == s[i]); } else { assert(r.take(n) =~= r); } }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] at(s, i) != #[trigger] at(s, j) && (name_at(v, at(s, i)) is Some ==> name_at(v, at(s, i)) != name_at(v, at(s, j))) by { if j == n { assert(at(r, i) == at(s, i)); } else { assert(at(r, i) != at(r, j)); } }
}
proof fn lemma_unseen(v: Valid, seen: Set<Path>, p: Path)
    ensures unseen(v, seen.insert(p)) <= unseen(v, seen), v.dom().contains(p) && !seen.contains(p) ==> unseen(v, seen.insert(p)) < unseen(v, seen)
{
    let a = v.dom().difference(seen); let b = v.dom().difference(seen.insert(p));
    assert(b =~= a.remove(p));
}
//@fn crates/project-model/src/aptos_package/load_from_fs.rs collect_deps_transitively
//@rewrite transitive_dep . clone ( ) =>> vx_clone(transitive_dep)
//@ret r
//@spec
    ensures is_closure(valid_manifest_entries@, declared_deps@, r@)
//@in fn begin
    let ghost v = valid_manifest_entries@; let ghost declared = declared_deps@; let ghost mut done: int = 0; 
//@loop 0
    invariant v == valid_manifest_entries@, 0 <= done, lined_up(deps_queue@, declared, done),
        once(v, res@), sourced(v, declared, res@),
        forall|k: int| 0 <= k < done && k < declared.len() ==> listed(res@, #[trigger] at(declared, k)) || taken_before(v, declared, k),
        forall|i: int| 0 <= i < deps_queue@.len() ==> well_sourced(v, declared, res@, #[trigger] deps_queue@[i]),
        forall|x: Dep| #[trigger] well_sourced(v, declared, res@, x) ==> covered(v, res@, x.0.key()) || deps_queue@.contains(x),
        forall|p: Path| #[trigger] visited_dep_manifests@.contains(p) ==> covered(v, res@, p),
        forall|p: Path| done <= declared.len() && #[trigger] visited_dep_manifests@.contains(p) ==> exists|j: int| 0 <= j < done && #[trigger] at(declared, j) == p,
        forall|p: Path| #[trigger] listed(res@, p) ==> visited_dep_manifests@.contains(p),
        forall|n: Seq<char>| #[trigger] visited_dep_names@.contains(n) == named(v, res@, Some(n)),
    ensures deps_queue@.len() == 0,
    decreases unseen(v, visited_dep_manifests@), deps_queue@.len()
//@in loop 0 begin
    let ghost q1 = deps_queue@; let ghost c = current_dep; let ghost r0 = res@; let ghost q0 = seq![c] + q1; let ghost seen0 = visited_dep_manifests@;
    proof {
        lemma_next(q1, c, declared, done);
        assert(well_sourced(v, declared, r0, q0[0]));
        assert(forall|i: int| 0 <= i < q1.len() ==> well_sourced(v, declared, r0, #[trigger] q1[i])) by { assert(forall|i: int| 0 <= i < q1.len() ==> q0[i + 1] == #[trigger] q1[i]); }
        if done < declared.len() {
            assert(at(declared, done) == c.0.key());
            if visited_dep_manifests@.contains(c.0.key()) {
                let j = choose|j: int| 0 <= j < done && #[trigger] at(declared, j) == c.0.key(); assert(listed(r0, at(declared, j)) || taken_before(v, declared, j));
                if !listed(r0, c.0.key()) { assert(taken_before(v, declared, done)); }
            }
        }
        if done < declared.len() && named(v, r0, name_at(v, c.0.key())) {
            let i = choose|i: int| 0 <= i < r0.len() && name_at(v, #[trigger] at(r0, i)) == name_at(v, c.0.key());
            assert(listed(r0, at(r0, i)));
            let j = choose|j: int| 0 <= j < done && #[trigger] at(declared, j) == at(r0, i);
            assert(taken_before(v, declared, done));
        }
        lemma_unseen(v, seen0, c.0.key());
        assert forall|x: Seq<Dep>| lined_up(#[trigger] (q1 + x), declared, done + 1) by { if done + 1 <= declared.len() { let n = declared.len() - done - 1; assert((q1 + x).take(n) =~= q1.take(n)); } }
        assert(q1 + Seq::<Dep>::empty() =~= q1);
        done = done + 1;
    }
//@loop 1 iter it
    invariant deps_queue@ == q1 + deps_at(v, c.0.key()).take(it.index@ as int), it.seq().len() == deps_at(v, c.0.key()).len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == deps_at(v, c.0.key())[i],
//@after @loop 1
    proof {
        let d = deps_at(v, c.0.key()); assert(d.take(d.len() as int) =~= d); assert(deps_queue@ == q1 + d);
        assert forall|y: Dep| q1.contains(y) || d.contains(y) implies (q1 + d).contains(y) by {
            if q1.contains(y) { let i = choose|i: int| 0 <= i < q1.len() && q1[i] == y; assert((q1 + d)[i] == y); } else { let i = choose|i: int| 0 <= i < d.len() && d[i] == y; assert((q1 + d)[q1.len() + i] == y); }
        }
    }
//@before res . push #0
    proof { lemma_push(v, declared, r0, c); }
//@before res . push #1
    proof { lemma_push(v, declared, r0, c); }
//@in fn end
    proof {
        assert(deps_queue@.len() == 0); assert(done >= declared.len());
        assert forall|x: Dep| #[trigger] well_sourced(v, declared, res@, x) implies covered(v, res@, x.0.key()) by { assert(!deps_queue@.contains(x)); }
    }
//@end
// ================= P01: every package that is reached
pub open spec fn target(m: Path, d: MoveTomlDependency) -> Option<Path> { match dep_root_of(d, m.drop_last()) { Some(r) => manifest_in(r), None => None } }
/// what a package from git names is from git
pub open spec fn kind_of(outer: PackageKind, d: MoveTomlDependency) -> PackageKind { if d is Git || outer == PackageKind::Git { PackageKind::Git } else { PackageKind::Local } }
pub type Place = (Path, PackageKind);
/// the manifests the first k dependencies stand for
pub open spec fn deps_upto(m: Path, t: MoveToml, outer: PackageKind, k: int) -> Seq<Place> decreases k {
    if k <= 0 || k > t.all_deps().len() { Seq::empty() } else { let d = t.all_deps()[k - 1]; match target(m, d) { Some(p) => deps_upto(m, t, outer, k - 1).push((p, kind_of(outer, d))), None => deps_upto(m, t, outer, k - 1) } }
}
pub open spec fn missing_upto(m: Path, t: MoveToml, k: int) -> Seq<Seq<char>> decreases k {
    if k <= 0 || k > t.all_deps().len() { Seq::empty() } else { let d = t.all_deps()[k - 1]; match dep_root_of(d, m.drop_last()) { Some(r) => if manifest_in(r) is None { missing_upto(m, t, k - 1).push(dep_name_of(d)) } else { missing_upto(m, t, k - 1) }, None => missing_upto(m, t, k - 1) } }
}
pub open spec fn deps_of(m: Place) -> Seq<Place> { match toml_at(m.0) { Some(t) => deps_upto(m.0, t, m.1, t.all_deps().len() as int), None => Seq::empty() } }
pub open spec fn missing_of(m: Path) -> Seq<Seq<char>> { match toml_at(m) { Some(t) => missing_upto(m, t, t.all_deps().len() as int), None => Seq::empty() } }
pub open spec fn place(d: Dep) -> Place { (d.0.key(), d.1) }
pub open spec fn places(s: Seq<Dep>) -> Seq<Place> { s.map_values(|d: Dep| place(d)) }
pub open spec fn texts(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|t: String| t@) }
pub open spec fn text(s: Option<String>) -> Option<Seq<char>> { match s { Some(t) => Some(t@), None => None } }
pub open spec fn toml_name(t: MoveToml) -> Option<Seq<char>> { match t.package { Some(p) => text(p.name), None => None } }
pub type Found = Map<Path, anyhow::Result<ManifestEntry>>;
/// what is recorded of a manifest is what it says
pub open spec fn entry_ok(p: Path, e: ManifestEntry) -> bool {
    &&& toml_at(p) matches Some(t) && text(e.package_name) == toml_name(t) && e.named_addresses@ == t.addresses@ + t.dev_addresses@
    &&& places(e.declared_deps@) == if e.resolve_deps { deps_of((p, e.kind)) } else { Seq::empty() }
    &&& texts(e.missing_dependencies@) == if e.resolve_deps { missing_of(p) } else { Seq::empty() }
    &&& forall|i: int| 0 <= i < e.declared_deps@.len() ==> is_manifest(#[trigger] at(e.declared_deps@, i))
}
pub open spec fn found_ok(m: Found) -> bool { forall|p: Path| #[trigger] m.dom().contains(p) ==> is_manifest(p) && match m[p] { Ok(e) => entry_ok(p, e), Err(_) => toml_at(p) is None } }
pub open spec fn resolved(m: Found, p: Path) -> bool { m.dom().contains(p) && (m[p] matches Ok(e) ==> e.resolve_deps) }
/// the dependencies of what is found are found
pub open spec fn leads(m: Found, p: Path, y: Place) -> bool { m.dom().contains(p) && (m[p] matches Ok(e) && e.resolve_deps && deps_of((p, e.kind)).contains(y)) }
pub open spec fn complete(m: Found) -> bool { forall|p: Path, y: Place| #[trigger] leads(m, p, y) ==> resolved(m, y.0) }
/// a set of manifests with the dependencies of each
pub open spec fn closed(s: ISet<Place>) -> bool { forall|x: Place, y: Place| s.contains(x) && #[trigger] deps_of(x).contains(y) ==> s.contains(y) }
pub open spec fn within(s: ISet<Place>, p: Path, r: anyhow::Result<ManifestEntry>) -> bool { match r { Ok(e) => s.contains((p, e.kind)), Err(_) => s.contains((p, PackageKind::Local)) || s.contains((p, PackageKind::Git)) } }
/// what one manifest reaches
pub open spec fn is_reach(ws: DiscoveredManifest, m: Found) -> bool {
    let p0 = ws.move_toml_file@;
    &&& m.dom().contains(p0) && found_ok(m) && complete(m)
    &&& ws.resolve_deps ==> forall|p: Path| #[trigger] m.dom().contains(p) ==> resolved(m, p)
    &&& !ws.resolve_deps ==> m.dom() =~= set![p0] && (m[p0] matches Ok(e) ==> !e.resolve_deps && e.kind == PackageKind::Local)
    &&& forall|s: ISet<Place>| #[trigger] closed(s) && s.contains((p0, PackageKind::Local)) ==> forall|p: Path| #[trigger] m.dom().contains(p) ==> within(s, p, m[p])
}
/// trusted: there are finitely many manifests
pub uninterp spec fn all_manifests() -> Set<Path>;
#[verifier::external_body]
proof fn axiom_finitely_many(dir: Path) ensures manifest_in(dir) matches Some(p) ==> all_manifests().contains(p) { }
proof fn lemma_first(dir: Path, l: Seq<(Seq<char>, bool)>, k: int)
    requires 0 <= k, forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).0 != seq!['.'] && l[i].0 != seq!['.', '.']
    ensures first_manifest(dir, l, k) matches Some(p) ==> is_manifest(p)
    decreases l.len() - k
{ if k < l.len() { if l[k].1 && manifest_name(l[k].0) { let p = dir.push(l[k].0); assert(p.drop_last() =~= dir); assert(p.last() == l[k].0); } else { lemma_first(dir, l, k + 1); } } }
//@item crates/project-model/src/lib.rs DiscoveredManifest derive()
//@fn crates/project-model/src/aptos_package/load_from_fs.rs collect_reachable_manifests
//@rewrite move_toml . package . as_ref ( ) . and_then ( | it | it . name . clone ( ) ) =>> vx_package_name(&move_toml.package)
//@rewrite dep_manifests . clone ( ) =>> vx_clone(&dep_manifests)
//@ret r
//@spec
    requires is_manifest(ws_manifest.move_toml_file@)
    ensures is_reach(*ws_manifest, r@)
//@in fn begin
    let ghost p0 = ws_manifest.move_toml_file@; let ghost known = all_manifests().insert(p0);
//@loop 0
    invariant p0 == ws_manifest.move_toml_file@, is_manifest(p0), known == all_manifests().insert(p0),
        found_ok(res@), res@.dom().subset_of(known),
        forall|i: int| 0 <= i < packages_queue@.len() ==> is_manifest((#[trigger] packages_queue@[i]).0.key()) && known.contains(packages_queue@[i].0.key()) && packages_queue@[i].2 == ws_manifest.resolve_deps,
        res@.dom().contains(p0) || packages_queue@.len() > 0 && packages_queue@[0].0.key() == p0 && packages_queue@[0].1 == PackageKind::Local,
        forall|x: Path, y: Place| #[trigger] leads(res@, x, y) ==> res@.dom().contains(y.0) || waits(packages_queue@, y.0),
        ws_manifest.resolve_deps ==> forall|p: Path| #[trigger] res@.dom().contains(p) ==> resolved(res@, p),
        !ws_manifest.resolve_deps ==> (if res@.dom().contains(p0) { packages_queue@.len() == 0 } else { packages_queue@.len() == 1 }) && res@.dom().subset_of(set![p0]) && (res@.dom().contains(p0) ==> (res@[p0] matches Ok(e) ==> !e.resolve_deps && e.kind == PackageKind::Local)),
        forall|s: ISet<Place>| #[trigger] closed(s) && s.contains((p0, PackageKind::Local)) ==> (forall|p: Path| #[trigger] res@.dom().contains(p) ==> within(s, p, res@[p])) && forall|i: int| 0 <= i < packages_queue@.len() ==> s.contains(((#[trigger] packages_queue@[i]).0.key(), packages_queue@[i].1)),
    ensures packages_queue@.len() == 0,
    decreases known.difference(res@.dom()).len(), packages_queue@.len()
//@in loop 0 begin
    let ghost q1 = packages_queue@; let ghost m0 = res@; let ghost c = (manifest_path, outer_package_kind, resolve_deps); let ghost q0 = seq![c] + q1; let ghost p = manifest_path.key();
    proof {
        assert(q0[0] == c); assert(forall|i: int| 0 <= i < q1.len() ==> q0[i + 1] == #[trigger] q1[i]);
        assert forall|x: Path| waits(q0, x) implies x == p || waits(q1, x) by { let i = choose|i: int| 0 <= i < q0.len() && (#[trigger] q0[i]).0.key() == x; if i > 0 { assert(q1[i - 1].0.key() == x); } }
        let a = known.difference(m0.dom()); if !m0.dom().contains(p) { assert(known.difference(m0.dom().insert(p)) =~= a.remove(p)); }
    }
//@after res . insert #0
    proof { assert forall|x: Path, y: Place| #[trigger] leads(res@, x, y) implies leads(m0, x, y) by { } }
//@before let mut missing_dependencies
    let ghost t = move_toml;
//@before for declared_toml_dep
    proof { assert(places(dep_manifests@) =~= Seq::empty()); assert(texts(missing_dependencies@) =~= Seq::empty()); }
//@loop 1 iter it
    invariant it.seq().len() == t.all_deps().len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == t.all_deps()[i],
        package_root@ == p.drop_last(), places(dep_manifests@) == deps_upto(p, t, c.1, it.index@ as int), texts(missing_dependencies@) == missing_upto(p, t, it.index@ as int), outer_package_kind == c.1,
        forall|i: int| 0 <= i < dep_manifests@.len() ==> is_manifest(#[trigger] at(dep_manifests@, i)) && all_manifests().contains(at(dep_manifests@, i)),
//@in loop 1 begin
    let ghost d0 = dep_manifests@; let ghost n0 = missing_dependencies@;
    proof {
        let k = it.index@ as int; let d = t.all_deps()[k]; assert(t.all_deps()[k + 1 - 1] == d); 
        match dep_root_of(d, p.drop_last()) { Some(r) => { axiom_finitely_many(r); }, None => {} }
        assert forall|x: Dep| places(#[trigger] d0.push(x)) == places(d0).push(place(x)) by { assert(places(d0.push(x)) =~= places(d0).push(place(x))); }
        assert forall|x: String| texts(#[trigger] n0.push(x)) == texts(n0).push(x@) by { assert(texts(n0.push(x)) =~= texts(n0).push(x@)); }
        assert forall|x: Dep, i: int| 0 <= i < d0.push(x).len() implies #[trigger] at(d0.push(x), i) == if i < d0.len() { at(d0, i) } else { x.0.key() } by { }
    }
//@after res . insert #1
    proof { let e = res@[p]->Ok_0; assert(places(e.declared_deps@) =~= Seq::empty()); assert(texts(e.missing_dependencies@) =~= Seq::empty()); assert(entry_ok(p, e)); assert forall|x: Path, y: Place| #[trigger] leads(res@, x, y) implies leads(m0, x, y) by { } }
//@after res . insert #2
    proof {
        let e = res@[p]->Ok_0; assert(entry_ok(p, e)); assert(found_ok(res@));
        assert forall|x: Path, y: Place| #[trigger] leads(res@, x, y) implies x == p && deps_of((p, c.1)).contains(y) || leads(m0, x, y) by { }
        assert forall|j: int| 0 <= j < dep_manifests@.len() implies deps_of((p, c.1)).contains(place(#[trigger] dep_manifests@[j])) by { assert(places(dep_manifests@)[j] == place(dep_manifests@[j])); assert(is_manifest(at(dep_manifests@, j))); }
    }
    let ghost deps = dep_manifests@;
//@loop 2 iter jt
    invariant jt.seq() == deps, packages_queue@.len() == q1.len() + jt.index@, forall|i: int| 0 <= i < q1.len() ==> #[trigger] packages_queue@[i] == q1[i],
        forall|i: int| q1.len() <= i < packages_queue@.len() ==> (#[trigger] packages_queue@[i]).0 == deps[i - q1.len()].0 && packages_queue@[i].1 == deps[i - q1.len()].1 && packages_queue@[i].2,
//@after @loop 2
    proof {
        let q = packages_queue@;
        assert forall|x: Path| waits(q1, x) implies waits(q, x) by { let i = choose|i: int| 0 <= i < q1.len() && (#[trigger] q1[i]).0.key() == x; assert(q[i].0.key() == x); }
        assert forall|y: Place| deps_of((p, c.1)).contains(y) implies waits(q, y.0) by { let j = choose|j: int| 0 <= j < deps_of((p, c.1)).len() && deps_of((p, c.1))[j] == y; assert(places(deps)[j] == place(deps[j])); assert(q[q1.len() + j].0.key() == y.0); }
        assert forall|i: int| q1.len() <= i < q.len() implies is_manifest((#[trigger] q[i]).0.key()) && all_manifests().contains(q[i].0.key()) by { assert(is_manifest(at(deps, i - q1.len()))); }
        assert forall|s: ISet<Place>| #[trigger] closed(s) && s.contains((p, c.1)) implies forall|i: int| q1.len() <= i < q.len() ==> s.contains(((#[trigger] q[i]).0.key(), q[i].1)) by { assert forall|i: int| q1.len() <= i < q.len() implies s.contains(((#[trigger] q[i]).0.key(), q[i].1)) by { assert(deps_of((p, c.1)).contains(place(deps[i - q1.len()]))); } }
    }
//@in fn end
    proof {
        assert(forall|x: Path| !waits(packages_queue@, x));
        if !ws_manifest.resolve_deps { assert(res@.dom() =~= set![p0]); }
        assert(res@.dom().contains(p0) && found_ok(res@));
        assert(complete(res@));
    }
//@end
pub open spec fn waits(q: Seq<(ManifestPath, PackageKind, bool)>, p: Path) -> bool { exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0.key() == p }
#[verifier::external_body]
pub fn vx_package_name(p: &Option<Package>) -> (r: Option<String>) ensures text(r) == match *p { Some(q) => text(q.name), None => None } { unimplemented!() }

// ================= the packages of the workspace
pub open spec fn valid_of(m: Found) -> Valid { m.restrict(m.dom().filter(|p: Path| m[p] is Ok)).map_values(|e: anyhow::Result<ManifestEntry>| e->Ok_0) }
/// one that only stands for itself
pub open spec fn lone(ws: Seq<DiscoveredManifest>, k: int, p: Path, r: anyhow::Result<ManifestEntry>) -> bool { (r matches Ok(e) ==> !e.resolve_deps && e.kind == PackageKind::Local) && exists|i: int| 0 <= i < k && #[trigger] ws[i].move_toml_file@ == p && !ws[i].resolve_deps }
pub open spec fn starts_in(ws: Seq<DiscoveredManifest>, k: int, s: ISet<Place>) -> bool { forall|i: int| 0 <= i < k && #[trigger] ws[i].resolve_deps ==> s.contains((ws[i].move_toml_file@, PackageKind::Local)) }
/// what the first k manifests of the workspace reach
pub open spec fn gathered(ws: Seq<DiscoveredManifest>, k: int, m: Found) -> bool {
    &&& found_ok(m) && complete(m)
    &&& forall|i: int| 0 <= i < k ==> m.dom().contains(#[trigger] ws[i].move_toml_file@) && (ws[i].resolve_deps ==> resolved(m, ws[i].move_toml_file@))
    &&& forall|s: ISet<Place>| #[trigger] closed(s) && starts_in(ws, k, s) ==> forall|p: Path| #[trigger] m.dom().contains(p) ==> within(s, p, m[p]) || lone(ws, k, p, m[p])
}
pub open spec fn merged(m0: Found, n: Found, keep: bool, m: Found) -> bool {
    m.dom() =~= m0.dom().union(n.dom()) && forall|p: Path| #[trigger] m.dom().contains(p) ==> m[p] == if n.dom().contains(p) && !(keep && m0.dom().contains(p)) { n[p] } else { m0[p] }
}
proof fn lemma_gather(ws: Seq<DiscoveredManifest>, k: int, m0: Found, n: Found, m: Found)
    requires 0 <= k < ws.len(), gathered(ws, k, m0), is_reach(ws[k], n), merged(m0, n, !ws[k].resolve_deps, m)
    ensures gathered(ws, k + 1, m)
{
    let w = ws[k]; let p0 = w.move_toml_file@;
    assert forall|p: Path, y: Place| #[trigger] leads(m, p, y) implies resolved(m, y.0) by {
        if n.dom().contains(p) && !(!w.resolve_deps && m0.dom().contains(p)) { assert(leads(n, p, y)); assert(resolved(n, y.0)); } else { assert(leads(m0, p, y)); assert(resolved(m0, y.0)); assert(m.dom().contains(y.0)); if n.dom().contains(y.0) { assert(w.resolve_deps ==> resolved(n, y.0)); } }
    }
    assert forall|i: int| 0 <= i < k + 1 implies m.dom().contains(#[trigger] ws[i].move_toml_file@) && (ws[i].resolve_deps ==> resolved(m, ws[i].move_toml_file@)) by {
        let q = ws[i].move_toml_file@; assert(m.dom() == m0.dom().union(n.dom()));
        if i < k { assert(m0.dom().contains(q)); } else { assert(n.dom().contains(q)); }
        if n.dom().contains(q) && w.resolve_deps { assert(resolved(n, q)); }
        assert(m.dom().contains(q));
        if i == k && w.resolve_deps { assert(resolved(n, q)); assert(m[q] == n[q]); assert(resolved(m, q)); }
        if i < k && ws[i].resolve_deps { assert(resolved(m0, q)); assert(resolved(m, q)); }
    }
    assert forall|s: ISet<Place>| #[trigger] closed(s) && starts_in(ws, k + 1, s) implies (forall|p: Path| #[trigger] m.dom().contains(p) ==> within(s, p, m[p]) || lone(ws, k + 1, p, m[p])) by {
        assert(starts_in(ws, k, s));
        assert forall|p: Path| #[trigger] m.dom().contains(p) implies within(s, p, m[p]) || lone(ws, k + 1, p, m[p]) by {
            if n.dom().contains(p) && !(!w.resolve_deps && m0.dom().contains(p)) {
                if w.resolve_deps { assert(within(s, p, n[p])); } else { assert(ws[k].move_toml_file@ == p); assert(lone(ws, k + 1, p, m[p])); }
            } else {
                assert(m0.dom().contains(p));
                if lone(ws, k, p, m0[p]) { let i = choose|i: int| 0 <= i < k && #[trigger] ws[i].move_toml_file@ == p && !ws[i].resolve_deps; assert(lone(ws, k + 1, p, m[p])); }
            }
        }
    }
}
//@item crates/project-model/src/aptos_package.rs AptosPackage derive()
//@item crates/project-model/src/aptos_package/load_from_fs.rs LoadedPackage derive()
//@item crates/project-model/src/aptos_package/load_from_fs.rs LoadedPackages derive()
pub open spec fn roots_of(r: Seq<Dep>, roots: Seq<(AbsPathBuf, PackageKind)>) -> bool { roots.len() == r.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] roots[i]).0@ == at(r, i).drop_last() && roots[i].1 == r[i].1 }
#[verifier::external_body]
pub fn vx_map<T, U, F: Fn(T) -> U>(v: Vec<T>, f: F) -> (r: Vec<U>) requires forall|i: int| 0 <= i < v@.len() ==> f.requires((#[trigger] v@[i],)) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((v@[i],), #[trigger] r@[i]) { unimplemented!() }
impl AptosPackage {
//@fn crates/project-model/src/aptos_package.rs AptosPackage::new
//@rewrite $v . into_iter ( ) . map ( | ( $a , $b ) | $$e ) . collect ( ) =>> vx_map($v, |vx_p: (ManifestPath, PackageKind)| -> (o: (AbsPathBuf, PackageKind)) requires is_manifest(vx_p.0.file@) ensures o.0@ == vx_p.0.file@.drop_last(), o.1 == vx_p.1 { let ($a, $b) = vx_p; $e })
//@ret r
//@spec
    requires forall|i: int| 0 <= i < dep_roots@.len() ==> is_manifest(#[trigger] at(dep_roots@, i))
    ensures r.package_name == package_name, r.manifest_path == manifest_path.file, r.kind == kind, r.resolve_deps == resolve_deps, r.named_addresses == named_addresses, r.missing_dependencies == missing_dependencies,
        roots_of(dep_roots@, r.transitive_dep_roots@)
//@in fn begin
    proof { assert forall|i: int| 0 <= i < dep_roots@.len() implies is_manifest((#[trigger] dep_roots@[i]).0.file@) by { assert(is_manifest(at(dep_roots@, i))); } }
//@end
}
/// a package is its manifest and the closure of what it declares
pub open spec fn pkg_ok(v: Valid, p: Path, e: ManifestEntry, a: AptosPackage) -> bool {
    &&& a.package_name == e.package_name && a.manifest_path@ == p && a.kind == e.kind && a.resolve_deps == e.resolve_deps && a.named_addresses == e.named_addresses && a.missing_dependencies == e.missing_dependencies
    &&& exists|r: Seq<Dep>| #[trigger] is_closure(v, e.declared_deps@, r) && roots_of(r, a.transitive_dep_roots@)
}
pub open spec fn deps_ok(s: Seq<Dep>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_manifest(#[trigger] at(s, i)) }
pub open spec fn valid_ok(v: Valid) -> bool { forall|p: Path| #[trigger] v.dom().contains(p) ==> deps_ok(v[p].declared_deps@) }
proof fn lemma_manifests(v: Valid, declared: Seq<Dep>, r: Seq<Dep>)
    requires valid_ok(v), deps_ok(declared), is_closure(v, declared, r)
    ensures deps_ok(r)
{
    assert forall|i: int| 0 <= i < r.len() implies is_manifest(#[trigger] at(r, i)) by {
        let x = r[i]; assert(well_sourced(v, declared, r.take(i), x));
        if declared.contains(x) { let j = choose|j: int| 0 <= j < declared.len() && declared[j] == x; assert(is_manifest(at(declared, j))); }
        else { let j = choose|j: int| 0 <= j < r.take(i).len() && (#[trigger] deps_at(v, at(r.take(i), j))).contains(x); let d = deps_at(v, at(r.take(i), j)); let h = choose|h: int| 0 <= h < d.len() && d[h] == x; assert(is_manifest(at(d, h))); }
    }
}
//@fn crates/project-model/src/aptos_package/load_from_fs.rs collect_package_from_manifest_entry
//@ret r
//@spec
    requires valid_ok(valid_manifest_entries@), deps_ok(manifest_entry.declared_deps@)
    ensures r matches LoadedPackage::Package(a) && pkg_ok(valid_manifest_entries@, manifest_path.key(), manifest_entry, a)
//@before let aptos_package
    proof { lemma_manifests(valid_manifest_entries@, manifest_entry.declared_deps@, collected_deps@); }
//@end
pub open spec fn loaded_at(m: Found, p: Path, k: LoadedPackage) -> bool { m.dom().contains(p) && match m[p] { Ok(e) => k matches LoadedPackage::Package(a) && pkg_ok(valid_of(m), p, e, a), Err(_) => k is ManifestParseError } }
/// each once, in some order
pub open spec fn lists(m: Found, es: Seq<Path>, ks: Seq<LoadedPackage>) -> bool {
    &&& es.no_duplicates() && ks.len() == es.len() && (forall|p: Path| #[trigger] m.dom().contains(p) ==> es.contains(p))
    &&& forall|i: int| 0 <= i < es.len() ==> loaded_at(m, #[trigger] es[i], ks[i])
}
/// P01
pub open spec fn loads(ws: Seq<DiscoveredManifest>, ks: Seq<LoadedPackage>) -> bool { exists|m: Found, es: Seq<Path>| gathered(ws, ws.len() as int, m) && #[trigger] lists(m, es, ks) }
//@fn crates/project-model/src/aptos_package/load_from_fs.rs load_aptos_packages
//@rewrite ws_manifests . clone ( ) =>> vx_clone(&ws_manifests)
//@rewrite? ( $a , $b ) in $m =>> ($a, $b) in $m.vx_entries()
//@rewrite $m . iter ( ) . filter_map ( | ( $a , $b ) | $$e ) . collect ( ) =>> $m.vx_filter_map(|vx_p: (&ManifestPath, &anyhow::Result<ManifestEntry>)| -> (o: Option<(ManifestPath, ManifestEntry)>) ensures match *vx_p.1 { Ok(e) => o == Some((*vx_p.0, e)), Err(_) => o is None } { let ($a, $b) = vx_p; $e })
//@rewrite manifest_entry . clone ( ) =>> vx_clone(manifest_entry)
//@ret r
//@spec
    requires forall|i: int| 0 <= i < ws_manifests@.len() ==> is_manifest((#[trigger] ws_manifests@[i]).move_toml_file@)
    ensures loads(ws_manifests@, r.packages@)
//@in fn begin
    let ghost ws = ws_manifests@;
//@loop 0 iter it
    invariant ws == ws_manifests@, it.seq() == ws, forall|i: int| 0 <= i < ws.len() ==> is_manifest((#[trigger] ws[i]).move_toml_file@), gathered(ws, it.index@ as int, all_reachable_manifests@),
//@in loop 0 begin
    let ghost m0 = all_reachable_manifests@; let ghost k = it.index@ as int;
//@before for ( manifest_path , manifest_entry ) in reachable_manifests #0
    let ghost n = reachable_manifests@;
//@loop 1 iter jt
    invariant ws_manifest == ws[k], entries(jt.seq(), n),
        forall|p: Path| #[trigger] all_reachable_manifests@.dom().contains(p) == (m0.dom().contains(p) || key_in(jt.seq(), jt.index@ as int, p)),
        forall|p: Path| #[trigger] all_reachable_manifests@.dom().contains(p) ==> all_reachable_manifests@[p] == if key_in(jt.seq(), jt.index@ as int, p) && !(!ws_manifest.resolve_deps && m0.dom().contains(p)) { n[p] } else { m0[p] },
//@in loop 0 end
    proof { lemma_gather(ws, k, m0, n, all_reachable_manifests@); }
//@before let mut all_reachable_aptos_packages
    let ghost m = all_reachable_manifests@; let ghost mut es: Seq<Path> = Seq::empty();
    proof {
        assert(gathered(ws, ws.len() as int, m));
        assert(valid_manifests@ =~= valid_of(m));
        assert forall|p: Path| #[trigger] valid_of(m).dom().contains(p) implies deps_ok(valid_of(m)[p].declared_deps@) by { assert(entry_ok(p, m[p]->Ok_0)); }
    }
//@loop 2 iter kt
    invariant ws == ws_manifests@, gathered(ws, ws.len() as int, m), entries(kt.seq(), m), found_ok(m), valid_manifests@ == valid_of(m), valid_ok(valid_of(m)), all_reachable_aptos_packages@.len() == kt.index@,
        es.len() == kt.index@, es.no_duplicates(), forall|i: int| 0 <= i < es.len() ==> #[trigger] es[i] == kt.seq()[i].0.key(),
        forall|p: Path| #[trigger] m.dom().contains(p) ==> es.contains(p) || exists|i: int| kt.index@ <= i < kt.seq().len() && (#[trigger] kt.seq()[i]).0.key() == p,
        forall|i: int| 0 <= i < es.len() ==> loaded_at(m, #[trigger] es[i], all_reachable_aptos_packages@[i]),
//@in loop 2 begin
    let ghost e0 = es; let ghost key = manifest_path.key();
//@in loop 2 end
    proof {
        es = es.push(key); assert(es[e0.len() as int] == key);
        assert forall|p: Path| #[trigger] m.dom().contains(p) implies es.contains(p) || exists|i: int| kt.index@ < i < kt.seq().len() && (#[trigger] kt.seq()[i]).0.key() == p by {
            if e0.contains(p) { let j = choose|j: int| 0 <= j < e0.len() && e0[j] == p; assert(es[j] == p); }
        }
        assert(es.no_duplicates());
    }
//@in fn end
    proof { assert(lists(m, es, all_reachable_aptos_packages@)); assert(ws == ws_manifests@); assert(gathered(ws_manifests@, ws_manifests@.len() as int, m)); assert(loads(ws_manifests@, all_reachable_aptos_packages@)); }
//@end
pub open spec fn key_in<V>(s: Seq<(ManifestPath, V)>, k: int, p: Path) -> bool { exists|i: int| 0 <= i < k && (#[trigger] s[i]).0.key() == p }

// ================= P02: where packages are found
//@item crates/project-model/src/aptos_package.rs PackageFolderRoot derive()
pub open spec fn sources_of(root: Path) -> Seq<Path> { seq![root.push("sources"@), root.push("tests"@), root.push("scripts"@)] }
pub open spec fn in_sources(f: Path, root: Path) -> bool { exists|i: int| 0 <= i < 3 && starts(f, #[trigger] sources_of(root)[i]) }
/// the manifest of the nearest directory that has one
pub open spec fn nearest(dir: Path) -> Option<Path> decreases dir.len() { match manifest_in(dir) { Some(m) => Some(m), None => if dir.len() > 0 { nearest(dir.drop_last()) } else { None } } }
pub open spec fn package_of(f: Path) -> Option<Path> { if f.len() == 0 { None } else { match nearest(f.drop_last()) { Some(m) => if in_sources(f, m.drop_last()) { Some(m) } else { None }, None => None } } }
pub open spec fn not_yet(o: Option<DiscoveredManifest>) -> bool { o is None }
pub open spec fn found_nearest(o: Option<DiscoveredManifest>, f: Path) -> bool { o matches Some(m) && nearest(f.drop_last()) == Some(m.move_toml_file@) && m.resolve_deps && is_manifest(m.move_toml_file@) }
pub trait VxAny<T> { spec fn items(&self) -> Seq<T>; fn vx_any<F: Fn(&T) -> bool>(&self, f: F) -> (r: bool) requires forall|i: int| 0 <= i < self.items().len() ==> #[trigger] f.requires((&self.items()[i],)) ensures r ==> exists|i: int| 0 <= i < self.items().len() && f.ensures((&#[trigger] self.items()[i],), true), !r ==> forall|i: int| 0 <= i < self.items().len() ==> f.ensures((&#[trigger] self.items()[i],), false); }
impl<T> VxAny<T> for Vec<T> { open spec fn items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_any<F: Fn(&T) -> bool>(&self, f: F) -> bool { unimplemented!() } }
//@rewrite . iter ( ) . any ( $$f ) =>> .vx_any($f)
impl PackageFolderRoot {
//@fn crates/project-model/src/aptos_package.rs PackageFolderRoot::content_root
//@ret r
//@spec
    requires self.manifest_file@.len() > 0
    ensures r@ == self.manifest_file@.drop_last()
//@end
//@fn crates/project-model/src/aptos_package.rs PackageFolderRoot::source_dirs strlits
//@ret r
//@spec
    requires self.manifest_file@.len() > 0
    ensures r@.len() == 3, forall|i: int| #![trigger r@[i]] #![trigger sources_of(self.manifest_file@.drop_last())[i]] 0 <= i < 3 ==> r@[i]@ == sources_of(self.manifest_file@.drop_last())[i]
//@in fn begin
    proof { assert("sources"@[0] == 's' && "tests"@[0] == 't' && "scripts"@[0] == 's'); assert(simple("sources"@) && simple("tests"@) && simple("scripts"@)); }
//@end
}
impl DiscoveredManifest {
    #[verifier::external_body] pub fn clone(&self) -> (r: DiscoveredManifest) ensures r == *self { unimplemented!() }
//@fn crates/project-model/src/lib.rs DiscoveredManifest::new
//@ret r
//@spec
    ensures r.move_toml_file == path, r.resolve_deps == resolve_deps
//@end
//@fn crates/project-model/src/lib.rs DiscoveredManifest::discover_for_file
//@ret r
//@spec
    ensures match r { Some(m) => package_of(fpath@) == Some(m.move_toml_file@) && m.resolve_deps && is_manifest(m.move_toml_file@), None => package_of(fpath@) is None }
//@loop 0
    invariant_except_break nearest(fpath@.drop_last()) == nearest(candidate_dir@), not_yet(vx_out),
    invariant fpath@.len() > 0,
    ensures found_nearest(vx_out, fpath@),
    decreases candidate_dir@.len()
//@closure 0
    |source_dir: &AbsPathBuf| -> (o: bool) ensures o == starts(fpath@, source_dir@)
//@end
}
/// trusted: what `walkdir` gives
#[verifier::external_body]
pub fn vx_walk(dir: &AbsPathBuf) -> (r: Vec<DirEntry>) ensures r@.len() == walked(dir@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).p@ == walked(dir@)[i] { unimplemented!() }
impl DirEntry { #[verifier::external_body] pub fn into_path(self) -> (r: PathBuf) ensures r@ == self.p@ { unimplemented!() } }
pub mod fs { use super::*; verus! { #[verifier::external_body] pub fn exists(p: &AbsPathBuf) -> (r: Result<bool, anyhow::Error>) ensures match r { Ok(b) => b == exists_at(p@), Err(_) => !exists_at(p@) } { unimplemented!() } } }
/// in a checkout of aptos-core, only what is below these directories gets its dependencies
pub open spec fn core_dirs(w: Path) -> Seq<Path> { seq![w.push("aptos-move"@).push("framework"@), w.push("aptos-move"@).push("move-examples"@), w.push("testsuite"@).push("module-publish"@).push("src"@).push("packages"@)] }
pub open spec fn is_core(w: Path) -> bool { exists_at(w.push("aptos-move"@).push("framework"@)) }
pub open spec fn below_core(w: Path, p: Path) -> bool { exists|i: int| 0 <= i < 3 && starts(p, #[trigger] core_dirs(w)[i]) }
pub open spec fn wanted(w: Path, p: Path) -> bool { !is_core(w) || below_core(w, p) }
pub open spec fn seen(ms: Seq<DiscoveredManifest>, m: Path, resolve: bool) -> bool { exists|j: int| 0 <= j < ms.len() && (#[trigger] ms[j]).move_toml_file@ == m && ms[j].resolve_deps == resolve }
/// a manifest below w
pub open spec fn holds_upto(w: Path, k: int, m: Path, resolve: bool) -> bool { exists|i: int| 0 <= i < k && manifest_in(#[trigger] walked(w)[i]) == Some(m) && wanted(w, walked(w)[i]) == resolve }
pub open spec fn holds(w: Path, m: Path, resolve: bool) -> bool { holds_upto(w, walked(w).len() as int, m, resolve) }
pub open spec fn below_any(d: Seq<AbsPathBuf>, p: Path) -> bool { exists|i: int| 0 <= i < d.len() && starts(p, (#[trigger] d[i])@) }
pub trait VxOpt<T> { spec fn opt(&self) -> Option<T>; fn vx_is_none_or<F: Fn(&T) -> bool>(&self, f: F) -> (r: bool) requires self.opt() matches Some(t) ==> f.requires((&t,)) ensures match self.opt() { Some(t) => f.ensures((&t,), r), None => r }; }
impl<T> VxOpt<T> for Option<T> { open spec fn opt(&self) -> Option<T> { *self } #[verifier::external_body] fn vx_is_none_or<F: Fn(&T) -> bool>(&self, f: F) -> bool { unimplemented!() } }
//@rewrite . as_ref ( ) . is_none_or =>> .vx_is_none_or
//@prewrite walkdir :: WalkDir :: new ( $r ) . into_iter ( ) . filter_map ( | it | it . ok ( ) ) =>> vx_walk($r)
//@prewrite let dirs_to_resolve = aptos_core_dirs . clone ( ) . into_iter ( ) . map ( $$f ) . collect :: < Vec < _ >> ( ) ; =>>
//@fn crates/project-model/src/lib.rs walk_and_discover_manifests strlits
//@ret r
//@spec
    ensures forall|m: Path, f: bool| #[trigger] seen(r@, m, f) == holds(ws_root@, m, f), forall|i: int| 0 <= i < r@.len() ==> is_manifest((#[trigger] r@[i]).move_toml_file@)
//@in fn begin
    let ghost w = ws_root@;
    proof { assert("aptos-move"@[0] == 'a' && "framework"@[0] == 'f' && "move-examples"@[0] == 'm' && "testsuite"@[0] == 't' && "module-publish"@[0] == 'm' && "src"@[0] == 's' && "packages"@[0] == 'p'); assert(simple("aptos-move"@) && simple("framework"@) && simple("move-examples"@) && simple("testsuite"@) && simple("module-publish"@) && simple("src"@) && simple("packages"@)); }
//@before let mut manifests
    proof { assert(match aptos_core_dirs { Some(d) => is_core(w) && d@.len() == 3 && forall|i: int| #![trigger d@[i]] #![trigger core_dirs(w)[i]] 0 <= i < 3 ==> d@[i]@ == core_dirs(w)[i], None => !is_core(w) }); }
//@loop 0 iter it
    invariant w == ws_root@, it.seq().len() == walked(w).len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).p@ == walked(w)[i],
        match aptos_core_dirs { Some(d) => is_core(w) && d@.len() == 3 && forall|i: int| #![trigger d@[i]] #![trigger core_dirs(w)[i]] 0 <= i < 3 ==> d@[i]@ == core_dirs(w)[i], None => !is_core(w) },
        forall|m: Path, f: bool| #[trigger] seen(manifests@, m, f) == holds_upto(w, it.index@ as int, m, f), forall|i: int| 0 <= i < manifests@.len() ==> is_manifest((#[trigger] manifests@[i]).move_toml_file@),
//@in loop 0 begin
    let ghost m0 = manifests@; let ghost k = it.index@ as int;
//@closure 0
    |dirs: &Vec<AbsPathBuf>| -> (o: bool) ensures o == below_any(dirs@, path@)
//@closure 1
    |dir: &AbsPathBuf| -> (o: bool) ensures o == starts(path@, dir@)
//@in loop 0 end
    proof {
        let p = walked(w)[k];
        if aptos_core_dirs is Some { let d = aptos_core_dirs->0;
            if below_core(w, p) { let i = choose|i: int| 0 <= i < 3 && starts(p, #[trigger] core_dirs(w)[i]); assert(starts(p, d@[i]@)); }
            else { assert forall|i: int| 0 <= i < d@.len() implies !starts(p, (#[trigger] d@[i])@) by { assert(core_dirs(w)[i] == d@[i]@); } }
        }
        assert forall|m: Path, f: bool| #[trigger] seen(manifests@, m, f) == holds_upto(w, k + 1, m, f) by {
            assert(seen(m0, m, f) == holds_upto(w, k, m, f));
            if seen(m0, m, f) { let j = choose|j: int| 0 <= j < m0.len() && (#[trigger] m0[j]).move_toml_file@ == m && m0[j].resolve_deps == f; assert(manifests@[j] == m0[j]); let i = choose|i: int| 0 <= i < k && manifest_in(#[trigger] walked(w)[i]) == Some(m) && wanted(w, walked(w)[i]) == f; assert(walked(w)[i] == walked(w)[i]); }
            if manifest_in(p) == Some(m) { assert(manifests@[m0.len() as int].move_toml_file@ == m); assert(wanted(w, p) == manifests@[m0.len() as int].resolve_deps); }
        }
    }
//@end
/// trusted: `extend`, `sort`, `dedup` of vectors
pub trait VxVec { spec fn ms(&self) -> Seq<DiscoveredManifest>;
    fn vx_extend(&mut self, o: Vec<DiscoveredManifest>) ensures final(self).ms() == old(self).ms() + o@;
    fn vx_sort(&mut self) ensures final(self).ms().to_multiset() == old(self).ms().to_multiset(), in_order(final(self).ms());
    fn vx_dedup(&mut self) ensures forall|m: Path, f: bool| #[trigger] seen(final(self).ms(), m, f) == seen(old(self).ms(), m, f), in_order(old(self).ms()) ==> once_each(final(self).ms());
}
pub uninterp spec fn in_order(s: Seq<DiscoveredManifest>) -> bool;
pub open spec fn once_each(s: Seq<DiscoveredManifest>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !((#[trigger] s[i]).move_toml_file@ == (#[trigger] s[j]).move_toml_file@ && s[i].resolve_deps == s[j].resolve_deps) }
impl VxVec for Vec<DiscoveredManifest> { open spec fn ms(&self) -> Seq<DiscoveredManifest> { self@ }
    #[verifier::external_body] fn vx_extend(&mut self, o: Vec<DiscoveredManifest>) { unimplemented!() }
    #[verifier::external_body] fn vx_sort(&mut self) { unimplemented!() }
    #[verifier::external_body] fn vx_dedup(&mut self) { unimplemented!() } }
//@rewrite all_manifests . extend =>> all_manifests.vx_extend
//@rewrite . sort ( ) =>> .vx_sort()
//@rewrite . dedup ( ) =>> .vx_dedup()
proof fn lemma_seen(a: Seq<DiscoveredManifest>, b: Seq<DiscoveredManifest>)
    ensures forall|m: Path, f: bool| #[trigger] seen(a + b, m, f) == (seen(a, m, f) || seen(b, m, f)), a.to_multiset() == b.to_multiset() ==> forall|m: Path, f: bool| #![trigger seen(a, m, f)] #![trigger seen(b, m, f)] seen(a, m, f) == seen(b, m, f)
{
    assert forall|m: Path, f: bool| #[trigger] seen(a + b, m, f) == (seen(a, m, f) || seen(b, m, f)) by {
        let c = a + b;
        if seen(a, m, f) { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).move_toml_file@ == m && a[j].resolve_deps == f; assert(c[j] == a[j]); }
        if seen(b, m, f) { let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).move_toml_file@ == m && b[j].resolve_deps == f; assert(c[a.len() + j] == b[j]); }
        if seen(c, m, f) { let j = choose|j: int| 0 <= j < c.len() && (#[trigger] c[j]).move_toml_file@ == m && c[j].resolve_deps == f; if j < a.len() { assert(a[j] == c[j]); } else { assert(b[j - a.len()] == c[j]); } }
    }
    if a.to_multiset() == b.to_multiset() {
        a.to_multiset_ensures(); b.to_multiset_ensures();
        assert forall|x: DiscoveredManifest| a.contains(x) == b.contains(x) by { assert(a.contains(x) == (a.to_multiset().count(x) > 0)); assert(b.contains(x) == (b.to_multiset().count(x) > 0)); }
        assert forall|m: Path, f: bool| #[trigger] seen(a, m, f) == seen(b, m, f) by {
            if seen(a, m, f) { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).move_toml_file@ == m && a[j].resolve_deps == f; assert(a.contains(a[j])); assert(b.contains(a[j])); let i = choose|i: int| 0 <= i < b.len() && b[i] == a[j]; assert(b[i].move_toml_file@ == m); }
            if seen(b, m, f) { let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).move_toml_file@ == m && b[j].resolve_deps == f; assert(b.contains(b[j])); assert(a.contains(b[j])); let i = choose|i: int| 0 <= i < a.len() && a[i] == b[j]; assert(a[i].move_toml_file@ == m); }
        }
    }
}
pub open spec fn held_upto(ws: Seq<AbsPathBuf>, k: int, m: Path, resolve: bool) -> bool { exists|i: int| 0 <= i < k && holds((#[trigger] ws[i])@, m, resolve) }
impl DiscoveredManifest {
//@fn crates/project-model/src/lib.rs DiscoveredManifest::discover_all
//@ret r
//@spec
    ensures forall|m: Path, f: bool| #[trigger] seen(r@, m, f) == held_upto(ws_roots@, ws_roots@.len() as int, m, f), once_each(r@)
//@loop 0 iter it
    invariant it.seq().len() == ws_roots@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == ws_roots@[i], forall|m: Path, f: bool| #[trigger] seen(all_manifests@, m, f) == held_upto(ws_roots@, it.index@ as int, m, f),
//@in loop 0 begin
    let ghost m0 = all_manifests@; let ghost k = it.index@ as int; 
//@before all_manifests . extend
    let ghost n = manifests@;
//@in loop 0 end
    proof {
        lemma_seen(m0, n);
        assert forall|m: Path, f: bool| #[trigger] seen(all_manifests@, m, f) == held_upto(ws_roots@, k + 1, m, f) by {
            assert(seen(m0, m, f) == held_upto(ws_roots@, k, m, f)); assert(seen(n, m, f) == holds(ws_roots@[k]@, m, f));
            if held_upto(ws_roots@, k, m, f) { let i = choose|i: int| 0 <= i < k && holds((#[trigger] ws_roots@[i])@, m, f); assert(holds(ws_roots@[i]@, m, f)); }
        }
    }
//@before? all_manifests . sort
    let ghost s0 = all_manifests@;
//@after? all_manifests . sort
    proof { lemma_seen(s0, all_manifests@); }
//@end
}
// ================= the package graph
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct FileId { pub raw: u32 }
pub type ManifestFileId = FileId;
impl Key for FileId { type K = FileId; open spec fn key(&self) -> FileId { *self } }
pub type PackageGraph = HashMap<ManifestFileId, PackageMetadata>;
//@rewrite Arc < Vec < ManifestFileId > > =>> Vec<ManifestFileId>
//@rewrite Arc :: new ( $a ) =>> $a
//@rewrite PackageGraph :: default ( ) =>> HashMap::new()
//@rewrite VfsLoader < '_ > =>> &mut VxLoader
//@rewrite load_from_vfs ( $a ) =>> load_from_vfs.vx_load($a)
//@item crates/base-db/src/inputs.rs PackageMetadata derive()
/// trusted: the virtual file system gives a file the same id each time
pub struct VxLoader { }
pub uninterp spec fn id_at(p: Path) -> Option<FileId>;
impl VxLoader { #[verifier::external_body] pub fn vx_load(&mut self, p: &AbsPathBuf) -> (r: Option<FileId>) ensures r == id_at(p@) { unimplemented!() } }
//@fn crates/project-model/src/dep_graph.rs load_package_file_id
//@rewrite & move_toml_path =>> move_toml_path
//@ret r
//@spec
    ensures r == id_at(move_toml_path@)
//@end
pub open spec fn dep_id(root: Path) -> Option<FileId> { match manifest_in(root) { Some(m) => id_at(m), None => None } }
/// its own id, and those of its dependencies in order
pub open spec fn has_entry(a: AptosPackage, e: (FileId, Seq<FileId>)) -> bool {
    id_at(a.manifest_path@) == Some(e.0) && e.1.len() == a.transitive_dep_roots@.len() && forall|i: int| 0 <= i < e.1.len() ==> dep_id((#[trigger] a.transitive_dep_roots@[i]).0@) == Some(e.1[i])
}
pub open spec fn loadable(a: AptosPackage) -> bool { id_at(a.manifest_path@) is Some && forall|i: int| 0 <= i < a.transitive_dep_roots@.len() ==> dep_id((#[trigger] a.transitive_dep_roots@[i]).0@) is Some }
impl AptosPackage {
//@fn crates/project-model/src/aptos_package.rs AptosPackage::dep_roots
//@ret r
//@spec
    ensures r@ == self.transitive_dep_roots@
//@end
//@fn crates/project-model/src/aptos_package.rs AptosPackage::manifest_path
//@ret r
//@spec
    ensures r@ == self.manifest_path@
//@end
//@fn crates/project-model/src/dep_graph.rs AptosPackage::dep_graph_entry
//@ret r
//@spec
    ensures match r { Some(e) => has_entry(*self, (e.0, e.1@)), None => !loadable(*self) }
//@loop 0 iter it
    invariant it.seq().len() == self.transitive_dep_roots@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.transitive_dep_roots@[i],
        dep_ids@.len() == it.index@, forall|i: int| 0 <= i < dep_ids@.len() ==> dep_id((#[trigger] self.transitive_dep_roots@[i]).0@) == Some(dep_ids@[i]),
//@end
}
pub open spec fn meta_ok(a: AptosPackage, m: PackageMetadata) -> bool { m.package_name == a.package_name && m.resolve_deps == a.resolve_deps && m.named_addresses == a.named_addresses && m.missing_dependencies == a.missing_dependencies && id_at(a.manifest_path@) is Some && has_entry(a, (id_at(a.manifest_path@)->0, m.dep_manifest_ids@)) }
pub open spec fn id_of(a: AptosPackage) -> FileId { id_at(a.manifest_path@)->0 }
/// the graph of the first k packages
pub open spec fn graphed(ps: Seq<AptosPackage>, k: int, g: Map<FileId, PackageMetadata>) -> bool {
    &&& forall|i: int| 0 <= i < k ==> g.dom().contains(id_of(#[trigger] ps[i]))
    &&& forall|x: FileId| #[trigger] g.dom().contains(x) ==> exists|i: int| 0 <= i < k && id_of(#[trigger] ps[i]) == x && meta_ok(ps[i], g[x])
}
//@fn crates/project-model/src/dep_graph.rs collect
//@rewrite aptos_package . $f . clone ( ) =>> vx_clone(&aptos_package.$f)
//@ret r
//@spec
    ensures match r { Some(g) => graphed(aptos_packages@, aptos_packages@.len() as int, g@), None => exists|i: int| 0 <= i < aptos_packages@.len() && !loadable(#[trigger] aptos_packages@[i]) }
//@loop 0 iter it
    invariant it.seq().len() == aptos_packages@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == aptos_packages@[i], graphed(aptos_packages@, it.index@ as int, global_dep_graph@),
//@in loop 0 begin
    let ghost g0 = global_dep_graph@; let ghost k = it.index@ as int;
//@in loop 0 end
    proof {
        let x0 = id_of(aptos_packages@[k]); assert(meta_ok(aptos_packages@[k], global_dep_graph@[x0]));
        assert forall|x: FileId| #[trigger] global_dep_graph@.dom().contains(x) implies exists|i: int| 0 <= i < k + 1 && id_of(#[trigger] aptos_packages@[i]) == x && meta_ok(aptos_packages@[i], global_dep_graph@[x]) by {
            if x != x0 { assert(g0.dom().contains(x)); let i = choose|i: int| 0 <= i < k && id_of(#[trigger] aptos_packages@[i]) == x && meta_ok(aptos_packages@[i], g0[x]); assert(id_of(aptos_packages@[i]) == x); }
        }
    }
//@end
}
