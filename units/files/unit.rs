#![feature(allocator_api)]
#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include ../common/prelude.rs
fn main() {}

// ---- identities
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct FileId { pub raw: u32 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct VfsPath { pub raw: u64 }
pub type AbsPathBuf = VfsPath;
pub type ManifestFileId = FileId;
/// the path is one of the file system (not a virtual one)
pub uninterp spec fn is_real(p: VfsPath) -> bool;
/// the last component of the path
pub uninterp spec fn file_name_of(p: VfsPath) -> Option<Seq<char>>;
/// its parts before and after the last dot
pub uninterp spec fn name_ext_of(p: VfsPath) -> Option<(Seq<char>, Option<Seq<char>>)>;
pub open spec fn opt_view(r: Option<&str>) -> Option<Seq<char>> { match r { Some(s) => Some(s@), None => None } }
impl VfsPath {
    #[verifier::external_body]
    pub fn name_and_extension(&self) -> (r: Option<(&str, Option<&str>)>)
        ensures match r { Some((n, e)) => name_ext_of(*self) == Some((n@, opt_view(e))), None => name_ext_of(*self) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: Option<&VfsPath>) ensures r == (if is_real(*self) { Some(self) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: Option<&str>) ensures opt_view(r) == file_name_of(*self) { unimplemented!() }
    pub fn to_path_buf(&self) -> (r: VfsPath) ensures r == *self { *self }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct FileIdInput { pub h: u64 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct FileIdSet { pub h: u64 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct PackageIdSet { pub h: u64 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct FileText { pub h: u64 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct PackageRootInput { pub h: u64 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct PackageMetadataInput { pub h: u64 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct PackageId { pub h: u64 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Durability { pub level: u8 }
impl Durability { pub const LOW: Durability = Durability { level: 0 }; pub const MEDIUM: Durability = Durability { level: 1 }; pub const HIGH: Durability = Durability { level: 2 }; }
#[verifier::external_body]
pub struct PackageMetadata { }

// ---- the `vfs` crate's file sets
#[verifier::external_body]
pub struct FileSet { }
impl View for FileSet { type V = Map<FileId, VfsPath>; uninterp spec fn view(&self) -> Map<FileId, VfsPath>; }
impl FileSet {
    #[verifier::external_body]
    pub fn path_for_file(&self, f: &FileId) -> (r: Option<&VfsPath>) ensures r == (if self@.dom().contains(*f) { Some(&self@[*f]) } else { None }) { unimplemented!() }
    /// trusted: every file of the set, once
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Vec<FileId>) ensures r@.no_duplicates(), forall|f: FileId| r@.contains(f) == #[trigger] self@.dom().contains(f) { unimplemented!() }
}
//@item crates/base-db/src/package_root.rs PackageKind
//@item crates/base-db/src/package_root.rs PackageRoot
pub open spec fn roots_eq(a: PackageRoot, b: PackageRoot) -> bool { a.file_set@ == b.file_set@ && a.kind == b.kind && a.manifest_file_id == b.manifest_file_id }
impl PackageRoot {
    pub open spec fn dom(self) -> Set<FileId> { self.file_set@.dom() }
//@fn crates/base-db/src/package_root.rs PackageRoot::file_ids
//@ret r
//@rewrite impl Iterator < Item = FileId > =>> Vec<FileId>
//@spec
    ensures r@.no_duplicates(), forall|f: FileId| r@.contains(f) == #[trigger] self.dom().contains(f)
//@end
//@fn crates/base-db/src/package_root.rs PackageRoot::path_for_file
//@ret r
//@spec
    ensures r == (if self.dom().contains(*file) { Some(&self.file_set@[*file]) } else { None })
//@end
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PackageRoot) ensures r == *self { unimplemented!() }
}

// ---- salsa: each input is a cell, read and written through its handle
pub struct VxStore {
    pub texts: Ghost<Map<FileText, Seq<char>>>, pub of_file: Ghost<Map<FileText, FileId>>,
    pub sets: Ghost<Map<FileIdSet, Seq<FileId>>>, pub roots: Ghost<Map<PackageRootInput, PackageRoot>>,
    pub metas: Ghost<Map<PackageMetadataInput, PackageMetadata>>, pub ids: Ghost<Map<PackageId, u32>>, pub id_sets: Ghost<Map<PackageIdSet, Seq<PackageId>>>,
    pub builtins_file_id: Option<FileIdInput>,
}
pub uninterp spec fn interned(f: FileIdInput) -> FileId;
impl FileIdInput {
    #[verifier::external_body]
    pub fn data(&self, db: &VxStore) -> (r: FileId) ensures r == interned(*self) { unimplemented!() }
}
impl FileId {
    #[verifier::external_body]
    pub fn intern(self, db: &VxStore) -> (r: FileIdInput) ensures interned(r) == self { unimplemented!() }
}
impl VxStore {
    pub fn builtins_file_id(&self) -> (r: Option<FileIdInput>) ensures r == self.builtins_file_id { self.builtins_file_id }
    #[verifier::external_body]
    pub fn set_text(&mut self, h: &mut FileText, t: &str)
        requires old(self).texts@.dom().contains(*old(h))
        ensures *final(h) == *old(h), *final(self) == (VxStore { texts: Ghost(old(self).texts@.insert(*old(h), t@)), ..*old(self) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn new_text(&mut self, t: &str, f: FileId) -> (r: FileText)
        ensures !old(self).texts@.dom().contains(r), *final(self) == (VxStore { texts: Ghost(old(self).texts@.insert(r, t@)), of_file: Ghost(old(self).of_file@.insert(r, f)), ..*old(self) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_set(&mut self, h: &mut FileIdSet, v: Vec<FileId>)
        requires old(self).sets@.dom().contains(*old(h))
        ensures *final(h) == *old(h), *final(self) == (VxStore { sets: Ghost(old(self).sets@.insert(*old(h), v@)), ..*old(self) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn new_set(&mut self, v: Vec<FileId>) -> (r: FileIdSet)
        ensures !old(self).sets@.dom().contains(r), *final(self) == (VxStore { sets: Ghost(old(self).sets@.insert(r, v@)), ..*old(self) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn new_root(&mut self, v: PackageRoot) -> (r: PackageRootInput)
        ensures !old(self).roots@.dom().contains(r), *final(self) == (VxStore { roots: Ghost(old(self).roots@.insert(r, v)), ..*old(self) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_meta(&mut self, h: &mut PackageMetadataInput, v: PackageMetadata)
        requires old(self).metas@.dom().contains(*old(h))
        ensures *final(h) == *old(h), *final(self) == (VxStore { metas: Ghost(old(self).metas@.insert(*old(h), v)), ..*old(self) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn new_meta(&mut self, v: PackageMetadata) -> (r: PackageMetadataInput)
        ensures !old(self).metas@.dom().contains(r), *final(self) == (VxStore { metas: Ghost(old(self).metas@.insert(r, v)), ..*old(self) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn new_package_id(&mut self, v: u32) -> (r: PackageId)
        ensures !old(self).ids@.dom().contains(r), *final(self) == (VxStore { ids: Ghost(old(self).ids@.insert(r, v)), ..*old(self) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_package_ids(&mut self, h: PackageIdSet, v: Vec<PackageId>)
        requires old(self).id_sets@.dom().contains(h)
        ensures *final(self) == (VxStore { id_sets: Ghost(old(self).id_sets@.insert(h, v@)), ..*old(self) }) { unimplemented!() }
}
// ---- dashmap
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct DashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K, V> View for DashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct OccupiedEntry<'a, K, V> { pub map: &'a mut DashMap<K, V>, pub key: Ghost<K> }
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct VacantEntry<'a, K, V> { pub map: &'a mut DashMap<K, V>, pub key: Ghost<K> }
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
impl<K, V> DashMap<K, V> {
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r == (if self@.dom().contains(*k) { Some(&self@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: Entry<'_, K, V>)
        ensures match r {
            Entry::Occupied(e) => old(self)@.dom().contains(k) && e.key@ == k && *e.map == *old(self) && *final(self) == *final(e.map),
            Entry::Vacant(e) => !old(self)@.dom().contains(k) && e.key@ == k && *e.map == *old(self) && *final(self) == *final(e.map) } { unimplemented!() }
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: &mut V)
        ensures *r == old(self).map@[old(self).key@], final(self).map@ == old(self).map@.insert(old(self).key@, *final(r)), final(self).key == old(self).key, 
            *final(final(self).map) == *final(old(self).map)
    { unimplemented!() }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V) ensures final(self.map)@ == old(self.map)@.insert(self.key@, v) { unimplemented!() }
}

// ================= what the database says
//@rewrite Arc < DashMap < $k , $v > > =>> DashMap<$k, $v>
//@item crates/base-db/src/inputs.rs Files
/// the cells a map points to are there and no two entries share one
pub open spec fn cells<K, H, V>(m: Map<K, H>, s: Map<H, V>) -> bool {
    (forall|k: K| #[trigger] m.dom().contains(k) ==> s.dom().contains(m[k]))
    && (forall|a: K, b: K| #[trigger] m.dom().contains(a) && #[trigger] m.dom().contains(b) && a != b ==> m[a] != m[b])
}
pub open spec fn reading<K, H, V>(m: Map<K, H>, s: Map<H, V>) -> Map<K, V> { m.map_values(|h: H| s[h]) }
pub open spec fn core(f: Files, s: VxStore) -> bool {
    cells(f.files@, s.texts@) && cells(f.spec_file_sets@, s.sets@) && cells(f.package_metadata@, s.metas@) && cells(f.package_roots@, s.roots@)
    && (forall|k: PackageId| #[trigger] f.package_roots@.dom().contains(k) ==> s.ids@.dom().contains(k))
    && f.all_package_ids is Some && s.id_sets@.dom().contains(f.all_package_ids->0)
}
pub open spec fn wf(f: Files, s: VxStore) -> bool {
    core(f, s) && (forall|k: FileId| #[trigger] f.file_package_ids@.dom().contains(k) ==> f.package_roots@.dom().contains(f.file_package_ids@[k]))
}
pub open spec fn texts(f: Files, s: VxStore) -> Map<FileId, Seq<char>> { reading(f.files@, s.texts@) }
pub open spec fn sets(f: Files, s: VxStore) -> Map<FileId, Seq<FileId>> { reading(f.spec_file_sets@, s.sets@) }
pub open spec fn metas(f: Files, s: VxStore) -> Map<ManifestFileId, PackageMetadata> { reading(f.package_metadata@, s.metas@) }
pub open spec fn roots(f: Files, s: VxStore) -> Map<PackageId, PackageRoot> { reading(f.package_roots@, s.roots@) }
/// what is not about texts is as before
pub open spec fn same_but_texts(f: Files, s: VxStore, g: Files, t: VxStore) -> bool {
    sets(f, s) == sets(g, t) && metas(f, s) == metas(g, t) && same_packages(f, s, g, t)
}
pub open spec fn same_packages(f: Files, s: VxStore, g: Files, t: VxStore) -> bool {
    f.file_package_ids@ == g.file_package_ids@ && f.package_roots@ == g.package_roots@ && s.roots@ == t.roots@ && s.ids@ == t.ids@ && f.all_package_ids == g.all_package_ids && s.id_sets@ == t.id_sets@ && s.builtins_file_id == t.builtins_file_id
}
pub proof fn lemma_cells<K, H, V>(m: Map<K, H>, s: Map<H, V>, k: K, h: H, v: V)
    requires cells(m, s), if m.dom().contains(k) { h == m[k] } else { !s.dom().contains(h) }
    ensures cells(m.insert(k, h), s.insert(h, v)), reading(m.insert(k, h), s.insert(h, v)) == reading(m, s).insert(k, v)
{
    let (n, t) = (m.insert(k, h), s.insert(h, v));
    assert forall|a: K| #[trigger] m.dom().contains(a) && a != k implies m[a] != h by { if m.dom().contains(k) { assert(m[a] != m[k]); } }
    assert forall|a: K, b: K| #[trigger] n.dom().contains(a) && #[trigger] n.dom().contains(b) && a != b implies n[a] != n[b] by {
        if a != k { assert(m.dom().contains(a)); } if b != k { assert(m.dom().contains(b)); }
    }
    assert forall|a: K| #[trigger] n.dom().contains(a) implies t.dom().contains(n[a]) by { if a != k { assert(m.dom().contains(a)); } }
    assert(reading(n, t) =~= reading(m, s).insert(k, v)) by {
        assert forall|a: K| #[trigger] n.dom().contains(a) implies t[n[a]] == (reading(m, s).insert(k, v))[a] by { if a != k { assert(m.dom().contains(a)); } }
    }
}
pub broadcast proof fn lemma_insert_same<K, H>(m: Map<K, H>, k: K) ensures m.dom().contains(k) ==> #[trigger] m.insert(k, m[k]) == m { if m.dom().contains(k) { assert(m.insert(k, m[k]) =~= m); } }
/// files of the same module: X.move and X.spec.move
pub open spec fn dot_spec() -> Seq<char> { seq!['.', 's', 'p', 'e', 'c'] }
pub open spec fn dot_move() -> Seq<char> { seq!['.', 'm', 'o', 'v', 'e'] }
pub open spec fn has_suffix(s: Seq<char>, t: Seq<char>) -> bool { s.len() >= t.len() && s.skip(s.len() - t.len()) == t }
pub open spec fn module_name(n: Seq<char>) -> Seq<char> { if has_suffix(n, dot_spec()) { n.take(n.len() - 5) } else { n } }
pub open spec fn is_partner(p: VfsPath, module: Seq<char>) -> bool { is_real(p) && (file_name_of(p) == Some(module + dot_move()) || file_name_of(p) == Some(module + dot_spec() + dot_move())) }
pub open spec fn partners(root: PackageRoot, f: FileId) -> Set<FileId> {
    match name_ext_of(root.file_set@[f]) {
        Some((n, Some(e))) => if root.dom().contains(f) && e == dot_move().skip(1) { root.dom().filter(|g: FileId| is_partner(root.file_set@[g], module_name(n))) } else { Set::empty() },
        _ => Set::empty() }
}
pub open spec fn is_set(v: Seq<FileId>, s: Set<FileId>) -> bool { v.no_duplicates() && forall|f: FileId| v.contains(f) == #[trigger] s.contains(f) }
#[verifier::external_body]
pub fn vx_is(e: Option<&str>, l: &str) -> (r: bool) ensures r == (opt_view(e) == Some(l@)) { e == Some(l) }
#[verifier::external_body]
pub fn vx_strip_suffix<'a>(s: &'a str, t: &str) -> (r: Option<&'a str>) ensures opt_view(r) == (if has_suffix(s@, t@) { Some(s@.take(s@.len() - t@.len())) } else { None }) { s.strip_suffix(t) }
/// trusted: `format!` with one argument put before literal text
#[verifier::external_body]
pub fn vx_format1(l: &str, a: &str) -> (r: String) ensures l@ == "{prefix_name}.move"@ ==> r@ == a@ + dot_move(), l@ == "{prefix_name}.spec.move"@ ==> r@ == a@ + dot_spec() + dot_move() { unimplemented!() }
pub struct VxNames { pub names: Vec<String> }
impl VxNames {
    #[verifier::external_body]
    pub fn contains(&self, s: &str) -> (r: bool) ensures r == (exists|i: int| 0 <= i < self.names@.len() && (#[trigger] self.names@[i])@ == s@) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_pair(a: String, b: String) -> (r: VxNames) ensures r.names@ == seq![a, b] { unimplemented!() }

pub proof fn lemma_lits() ensures ".spec"@ == dot_spec(), "move"@ == dot_move().skip(1) { reveal_strlit(".spec"); reveal_strlit("move"); assert(".spec"@ =~= dot_spec()); assert("move"@ =~= dot_move().skip(1)); }
impl VfsPath {
    pub fn vx_real_name(&self) -> (r: Option<&str>) ensures opt_view(r) == (if is_real(*self) { file_name_of(*self) } else { None }) { match self.as_path() { Some(p) => p.file_name(), None => None } }
}
pub trait VxOrElse<T> { fn vx_or_else(self, x: T) -> T; }
//@rewrite & mut dyn SourceDatabase =>> &mut VxStore
//@rewrite $o . get_mut ( ) . set_text ( db ) . with_durability ( $$d ) . to ( Arc :: from ( $t ) ) =>> db.set_text($o.get_mut(), $t)
//@rewrite FileText :: builder ( Arc :: from ( $t ) , $f ) . durability ( $$d ) . new ( db ) =>> db.new_text($t, $f)
//@rewrite $o . get_mut ( ) . set_metadata ( db ) . with_durability ( $$d ) . to ( $t ) =>> db.set_meta($o.get_mut(), $t)
//@rewrite PackageMetadataInput :: builder ( $t ) . durability ( $$d ) . new ( db ) =>> db.new_meta($t)
//@rewrite $o . get_mut ( ) . set_data ( db ) . to ( $t ) =>> db.set_set($o.get_mut(), $t)
//@rewrite FileIdSet :: new ( db , $t ) =>> db.new_set($t)
//@rewrite PackageId :: new ( db , $$t ) =>> db.new_package_id($t)
//@rewrite PackageRootInput :: builder ( Arc :: from ( $t ) ) . durability ( $$d ) . new ( db ) =>> db.new_root($t)
//@rewrite self . all_package_ids . unwrap ( ) . set_data ( db ) . with_durability ( $$d ) . to ( $t ) =>> db.set_package_ids(self.all_package_ids.unwrap(), $t)
impl Files {
//@fn crates/base-db/src/inputs.rs Files::file_text
//@ret r
//@spec
    requires self.files@.dom().contains(file_id)
    ensures r == self.files@[file_id]
//@end
//@fn crates/base-db/src/inputs.rs Files::set_file_text_with_durability
//@rewrite & self =>> &mut self
//@spec
    requires core(*old(self), *old(db))
    ensures core(*final(self), *final(db)), texts(*final(self), *final(db)) == texts(*old(self), *old(db)).insert(file_id, text@),
        same_but_texts(*final(self), *final(db), *old(self), *old(db))
//@in fn begin
    broadcast use lemma_insert_same;
    proof {
        assert forall|h: FileText| (if self.files@.dom().contains(file_id) { h == self.files@[file_id] } else { !db.texts@.dom().contains(h) }) implies
            cells(self.files@.insert(file_id, h), #[trigger] db.texts@.insert(h, text@)) && reading(self.files@.insert(file_id, h), db.texts@.insert(h, text@)) == texts(*self, *db).insert(file_id, text@)
        by { lemma_cells(self.files@, db.texts@, file_id, h, text@); }
    }
//@end
//@fn crates/base-db/src/inputs.rs Files::package_root
//@ret r
//@spec
    requires self.package_roots@.dom().contains(package_id)
    ensures r == self.package_roots@[package_id]
//@end
//@fn crates/base-db/src/inputs.rs Files::file_package_id
//@ret r
//@spec
    requires self.file_package_ids@.dom().contains(file_id)
    ensures r == self.file_package_ids@[file_id]
//@end
//@fn crates/base-db/src/inputs.rs Files::package_metadata
//@ret r
//@rewrite? . unwrap_or_else ( | | { panic ! $a ; } ) =>> .unwrap()
//@spec
    requires self.package_metadata@.dom().contains(manifest_file_id)
    ensures r == self.package_metadata@[manifest_file_id]
//@end
//@fn crates/base-db/src/inputs.rs Files::set_package_metadata
//@rewrite & self =>> &mut self
//@spec
    requires core(*old(self), *old(db))
    ensures core(*final(self), *final(db)), metas(*final(self), *final(db)) == metas(*old(self), *old(db)).insert(package_manifest_id, metadata),
        texts(*final(self), *final(db)) == texts(*old(self), *old(db)), sets(*final(self), *final(db)) == sets(*old(self), *old(db)), same_packages(*final(self), *final(db), *old(self), *old(db))
//@in fn begin
    broadcast use lemma_insert_same;
    proof {
        assert forall|h: PackageMetadataInput| (if self.package_metadata@.dom().contains(package_manifest_id) { h == self.package_metadata@[package_manifest_id] } else { !db.metas@.dom().contains(h) }) implies
            cells(self.package_metadata@.insert(package_manifest_id, h), #[trigger] db.metas@.insert(h, metadata)) && reading(self.package_metadata@.insert(package_manifest_id, h), db.metas@.insert(h, metadata)) == metas(*self, *db).insert(package_manifest_id, metadata)
        by { lemma_cells(self.package_metadata@, db.metas@, package_manifest_id, h, metadata); }
    }
//@end
//@fn crates/base-db/src/inputs.rs Files::spec_related_files
//@ret r
//@spec
    requires self.spec_file_sets@.dom().contains(file_id)
    ensures r == self.spec_file_sets@[file_id]
//@end
//@fn crates/base-db/src/inputs.rs Files::set_spec_related_files
//@rewrite & self =>> &mut self
//@spec
    requires core(*old(self), *old(db))
    ensures core(*final(self), *final(db)), sets(*final(self), *final(db)) == sets(*old(self), *old(db)).insert(file_id, spec_related_files@),
        texts(*final(self), *final(db)) == texts(*old(self), *old(db)), metas(*final(self), *final(db)) == metas(*old(self), *old(db)), same_packages(*final(self), *final(db), *old(self), *old(db))
//@in fn begin
    broadcast use lemma_insert_same;
    proof {
        let v = spec_related_files@;
        assert forall|h: FileIdSet| (if self.spec_file_sets@.dom().contains(file_id) { h == self.spec_file_sets@[file_id] } else { !db.sets@.dom().contains(h) }) implies
            cells(self.spec_file_sets@.insert(file_id, h), #[trigger] db.sets@.insert(h, v)) && reading(self.spec_file_sets@.insert(file_id, h), db.sets@.insert(h, v)) == sets(*self, *db).insert(file_id, v)
        by { lemma_cells(self.spec_file_sets@, db.sets@, file_id, h, v); }
    }
//@end
}
//@fn crates/base-db/src/inputs.rs find_spec_file_set strlits
//@ret r
//@rewrite ext != Some ( $l ) =>> !vx_is(ext, $l)
//@rewrite $s . strip_suffix ( $l ) =>> vx_strip_suffix($s, $l)
//@rewrite HashSet :: from ( [ $$a , $$b ] ) =>> vx_pair($a, $b)
//@rewrite format ! ( $l ) =>> vx_format1($l, prefix_name)
//@rewrite . as_path ( ) . and_then ( | it | it . file_name ( ) ) =>> .vx_real_name()
//@spec
    ensures match r { Some(v) => is_set(v@, partners(root, file_id)), None => partners(root, file_id) == Set::<FileId>::empty() }
//@in fn begin
    let ghost f0 = file_id;
    proof { lemma_lits(); }
//@before let mut spec_file_ids
    let ghost names = expected_file_names.names@;
    let ghost md = module_name(file_name@);
    proof {
        assert(partners(root, f0) =~= root.dom().filter(|g: FileId| is_partner(root.file_set@[g], md)));
        assert(names[0]@ == md + dot_move() && names[1]@ == md + dot_spec() + dot_move() && names.len() == 2);
    }
//@loop 0 iter it
    invariant expected_file_names.names@ == names, names.len() == 2, names[0]@ == md + dot_move(), names[1]@ == md + dot_spec() + dot_move(),
        it.seq().no_duplicates(), forall|f: FileId| it.seq().contains(f) == #[trigger] root.file_set@.dom().contains(f), it.index@ <= it.seq().len(),
        spec_file_ids@.no_duplicates(),
        forall|f: FileId| #[trigger] spec_file_ids@.contains(f) ==> it.seq().take(it.index@).contains(f) && is_partner(root.file_set@[f], md),
        forall|i: int| 0 <= i < it.index@ && is_partner(root.file_set@[#[trigger] it.seq()[i]], md) ==> spec_file_ids@.contains(it.seq()[i]),
//@in loop 0 begin
    let ghost ids0 = spec_file_ids@; let ghost sq = it.seq(); let ghost ix = it.index@;
    proof { assert(file_id == sq[ix]); assert(sq.contains(file_id)); assert(sq.take(ix + 1) =~= sq.take(ix).push(file_id)); if ids0.contains(file_id) { let j = choose|j: int| 0 <= j < ix && sq.take(ix)[j] == file_id; assert(sq[j] == sq[ix]); } }
//@in loop 0 end
    proof {
        assert(is_partner(root.file_set@[file_id], md) ==> spec_file_ids@ == ids0.push(file_id));
        assert(!is_partner(root.file_set@[file_id], md) ==> spec_file_ids@ == ids0);
        assert forall|f: FileId| #[trigger] spec_file_ids@.contains(f) implies sq.take(ix + 1).contains(f) && is_partner(root.file_set@[f], md) by {
            let j = choose|j: int| 0 <= j < spec_file_ids@.len() && spec_file_ids@[j] == f;
            if spec_file_ids@ == ids0 || j < ids0.len() { assert(ids0.contains(f)); let m = choose|m: int| 0 <= m < ix && sq.take(ix)[m] == f; assert(sq.take(ix + 1)[m] == f); } else { assert(sq.take(ix + 1)[ix] == f); }
        }
        assert forall|i: int| 0 <= i < ix + 1 && is_partner(root.file_set@[#[trigger] sq[i]], md) implies spec_file_ids@.contains(sq[i]) by {
            if i < ix { assert(ids0.contains(sq[i])); let j = choose|j: int| 0 <= j < ids0.len() && ids0[j] == sq[i]; assert(spec_file_ids@[j] == sq[i]); } else { assert(spec_file_ids@[ids0.len() as int] == file_id); }
        }
    }
//@end

//@fn crates/base-db/src/inputs.rs package_root_durability
//@end
/// file sets of different packages have no file in common
pub open spec fn apart(v: Seq<PackageRoot>) -> bool { forall|i: int, j: int, f: FileId| 0 <= i < v.len() && 0 <= j < v.len() && #[trigger] v[i].dom().contains(f) && #[trigger] v[j].dom().contains(f) ==> i == j }
/// packages 0..n are the ids, in order, and each has its root
pub open spec fn numbered(f: Files, s: VxStore, v: Seq<PackageRoot>, ids: Seq<PackageId>, n: int) -> bool {
    &&& ids.len() == n && ids.no_duplicates()
    &&& forall|i: int| 0 <= i < n ==> s.ids@.dom().contains(#[trigger] ids[i]) && s.ids@[ids[i]] == i
    &&& forall|i: int| 0 <= i < n ==> f.package_roots@.dom().contains(#[trigger] ids[i]) && s.roots@[f.package_roots@[ids[i]]] == v[i]
    &&& forall|k: PackageId| #[trigger] f.package_roots@.dom().contains(k) ==> ids.contains(k)
}
/// the file belongs to this package and knows the files of its module
pub open spec fn belongs(f: Files, s: VxStore, root: PackageRoot, id: PackageId, x: FileId) -> bool {
    f.file_package_ids@.dom().contains(x) && f.file_package_ids@[x] == id && f.spec_file_sets@.dom().contains(x) && is_set(s.sets@[f.spec_file_sets@[x]], partners(root, x))
}
pub open spec fn all_belong(f: Files, s: VxStore, v: Seq<PackageRoot>, ids: Seq<PackageId>, n: int) -> bool {
    forall|i: int, x: FileId| 0 <= i < n && #[trigger] v[i].dom().contains(x) ==> belongs(f, s, v[i], ids[i], x)
}
pub open spec fn in_some(v: Seq<PackageRoot>, n: int, x: FileId) -> bool { exists|i: int| 0 <= i < n && #[trigger] v[i].dom().contains(x) }
/// no other file belongs to a package
pub open spec fn no_stray(f: Files, v: Seq<PackageRoot>, n: int) -> bool { forall|x: FileId| #[trigger] f.file_package_ids@.dom().contains(x) ==> in_some(v, n, x) }
pub open spec fn packaged(f: Files, s: VxStore, v: Seq<PackageRoot>) -> bool {
    let ids = s.id_sets@[f.all_package_ids->0]; let n = v.len() as int;
    numbered(f, s, v, ids, n) && all_belong(f, s, v, ids, n) && no_stray(f, v, n)
}
#[verifier::external_body]
pub fn vx_enumerate<T>(v: Vec<T>) -> (r: Vec<(usize, T)>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == (i as usize, v@[i]) { v.into_iter().enumerate().collect() }
impl Files {
//@fn crates/base-db/src/inputs.rs Files::replace_package_roots
//@rewrite db . set_spec_related_files ( $$a ) =>> self.set_spec_related_files(db, $a)
//@rewrite & self =>> &mut self
//@rewrite $v . into_iter ( ) . enumerate ( ) =>> vx_enumerate($v)
//@spec
    requires wf(*old(self), *old(db)), apart(package_roots@), package_roots@.len() <= u32::MAX,
    ensures wf(*final(self), *final(db)), packaged(*final(self), *final(db), package_roots@),
        texts(*final(self), *final(db)) == texts(*old(self), *old(db)), metas(*final(self), *final(db)) == metas(*old(self), *old(db)),
        final(db).builtins_file_id == old(db).builtins_file_id,
        old(db).builtins_file_id matches Some(b) ==> final(self).spec_file_sets@.dom().contains(interned(b)) && (!in_some(package_roots@, package_roots@.len() as int, interned(b)) ==> sets(*final(self), *final(db))[interned(b)] == Seq::<FileId>::empty())
//@in fn begin
    let ghost v = package_roots@; let ghost (f0, s0) = (*self, *db);
//@loop 0 iter it
    invariant 
        it.index@ <= v.len(), it.seq().len() == v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] it.seq()[i] == (i as usize, v[i]), v.len() <= u32::MAX,
        core(*self, *db), apart(v),
        numbered(*self, *db, v, all_package_ids@, it.index@), all_belong(*self, *db, v, all_package_ids@, it.index@), no_stray(*self, v, it.index@),
        texts(*self, *db) == texts(f0, s0), metas(*self, *db) == metas(f0, s0), db.builtins_file_id == s0.builtins_file_id, self.all_package_ids == f0.all_package_ids, db.id_sets@ == s0.id_sets@,
        s0.builtins_file_id matches Some(b) ==> self.spec_file_sets@.dom().contains(interned(b)) && (!in_some(v, v.len() as int, interned(b)) ==> sets(*self, *db)[interned(b)] == Seq::<FileId>::empty()),
//@in loop 0 begin
    let ghost n = it.index@; let ghost ids = all_package_ids@; let ghost (f1, s1) = (*self, *db);
    proof { assert(it.seq()[n] == (n as usize, v[n])); assert(package_root == v[n]); }
//@loop 1 iter jt
    invariant
        core(*self, *db), 0 <= n < v.len(), apart(v), v[n] == package_root, idx == n, v.len() <= u32::MAX,
        !s1.ids@.dom().contains(package_id), db.ids@ == s1.ids@.insert(package_id, n as u32),
        jt.seq().no_duplicates(), forall|f: FileId| jt.seq().contains(f) == #[trigger] v[n].dom().contains(f), jt.index@ <= jt.seq().len(),
        self.package_roots@ == f1.package_roots@, db.roots@ == s1.roots@,
        numbered(f1, s1, v, ids, n), all_belong(*self, *db, v, ids, n), no_stray(*self, v, n + 1),
        forall|j: int| 0 <= j < jt.index@ ==> belongs(*self, *db, v[n], package_id, #[trigger] jt.seq()[j]),
        texts(*self, *db) == texts(f0, s0), metas(*self, *db) == metas(f0, s0), db.builtins_file_id == s0.builtins_file_id, self.all_package_ids == f0.all_package_ids, db.id_sets@ == s0.id_sets@,
        s0.builtins_file_id matches Some(b) ==> self.spec_file_sets@.dom().contains(interned(b)) && (!in_some(v, v.len() as int, interned(b)) ==> sets(*self, *db)[interned(b)] == Seq::<FileId>::empty()),
//@in loop 1 begin
    let ghost (f2, s2) = (*self, *db);
    proof { assert(file_id == jt.seq()[jt.index@]); assert(jt.seq().contains(file_id)); assert(v[n].dom().contains(file_id)); assert(in_some(v, n + 1, file_id)); assert(in_some(v, v.len() as int, file_id)); }
//@in loop 1 end
    proof {
        assert forall|i: int, x: FileId| 0 <= i < n && #[trigger] v[i].dom().contains(x) implies belongs(*self, *db, v[i], ids[i], x) by {
            assert(belongs(f2, s2, v[i], ids[i], x)); assert(x != file_id);
            assert(sets(*self, *db)[x] == sets(f2, s2)[x]);
        }
        assert forall|x: FileId| belongs(f2, s2, v[n], package_id, x) && x != file_id implies #[trigger] belongs(*self, *db, v[n], package_id, x) by { assert(sets(*self, *db)[x] == sets(f2, s2)[x]); }
        assert(sets(*self, *db)[file_id] == db.sets@[self.spec_file_sets@[file_id]]);
        assert(belongs(*self, *db, v[n], package_id, file_id));
        assert forall|x: FileId| #[trigger] self.file_package_ids@.dom().contains(x) implies in_some(v, n + 1, x) by { if x != file_id { assert(f2.file_package_ids@.dom().contains(x)); } }
    }
//@in loop 0 end
    proof {
        let new = all_package_ids@;
        assert(new =~= ids.push(package_id));
        assert forall|i: int| 0 <= i < n implies #[trigger] ids[i] != package_id by { assert(s1.ids@.dom().contains(ids[i])); }
        assert forall|i: int| 0 <= i < n + 1 implies db.ids@.dom().contains(#[trigger] new[i]) && db.ids@[new[i]] == i && self.package_roots@.dom().contains(new[i]) && db.roots@[self.package_roots@[new[i]]] == v[i] by {
            if i < n { assert(new[i] == ids[i]); assert(f1.package_roots@.dom().contains(ids[i])); assert(s1.roots@.dom().contains(f1.package_roots@[ids[i]])); }
        }
        assert forall|k: PackageId| #[trigger] self.package_roots@.dom().contains(k) implies new.contains(k) by {
            if k == package_id { assert(new[n] == k); } else { assert(f1.package_roots@.dom().contains(k)); let j = choose|j: int| 0 <= j < ids.len() && ids[j] == k; assert(new[j] == k); }
        }
        lemma_cells(f1.package_roots@, s1.roots@, package_id, self.package_roots@[package_id], v[n]);
    }
//@end
}

// ================= the database
pub struct RootDatabase { pub files: Files, pub store: VxStore }
impl RootDatabase {
    pub open spec fn wf(self) -> bool { wf(self.files, self.store) }
    pub open spec fn texts(self) -> Map<FileId, Seq<char>> { texts(self.files, self.store) }
    pub open spec fn sets(self) -> Map<FileId, Seq<FileId>> { sets(self.files, self.store) }
    pub open spec fn metas(self) -> Map<ManifestFileId, PackageMetadata> { metas(self.files, self.store) }
    pub open spec fn builtins(self) -> Option<FileId> { match self.store.builtins_file_id { Some(b) => Some(interned(b)), None => None } }
    pub open spec fn packaged(self, v: Seq<PackageRoot>) -> bool { packaged(self.files, self.store, v) }
    pub open spec fn same_packages(self, o: RootDatabase) -> bool { same_packages(self.files, self.store, o.files, o.store) }
    pub open spec fn same_but_builtins(self, o: RootDatabase) -> bool { self.files == o.files && self.store == (VxStore { builtins_file_id: self.store.builtins_file_id, ..o.store }) }
    pub open spec fn package_of(self, f: FileId) -> Option<PackageRoot> {
        if self.files.file_package_ids@.dom().contains(f) { Some(self.store.roots@[self.files.package_roots@[self.files.file_package_ids@[f]]]) } else { None }
    }
}
impl PackageRootInput {
    #[verifier::external_body]
    pub fn data(&self, db: &RootDatabase) -> (r: PackageRoot) requires db.store.roots@.dom().contains(*self) ensures r == db.store.roots@[*self] { unimplemented!() }
}
//@rewrite let files = Arc :: clone ( & self . files ) ; =>>
//@rewrite files . set_file_text_with_durability ( self , $$a ) =>> self.files.set_file_text_with_durability(&mut self.store, $a)
//@rewrite files . replace_package_roots ( self , $$a ) =>> self.files.replace_package_roots(&mut self.store, $a)
//@rewrite files . set_package_metadata ( self , $$a ) =>> self.files.set_package_metadata(&mut self.store, $a)
//@rewrite files . set_spec_related_files ( self , $$a ) =>> self.files.set_spec_related_files(&mut self.store, $a)
//@rewrite self . builtins_file_id =>> self.store.builtins_file_id
//@rewrite . intern ( self ) =>> .intern(&self.store)
//@rewrite $x . map ( | $y | $$b ) =>> match $x { Some($y) => Some($b), None => None }
impl RootDatabase {
//@fn crates/ide-db/src/root_db.rs SourceDatabase@RootDatabase::file_text
//@ret r
//@spec
    requires self.files.files@.dom().contains(file_id)
    ensures r == self.files.files@[file_id]
//@end
//@fn crates/ide-db/src/root_db.rs SourceDatabase@RootDatabase::set_file_text
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).texts() == old(self).texts().insert(file_id, text@), final(self).sets() == old(self).sets(), final(self).metas() == old(self).metas(), final(self).same_packages(*old(self))
//@end
//@fn crates/ide-db/src/root_db.rs SourceDatabase@RootDatabase::set_file_text_with_durability
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).texts() == old(self).texts().insert(file_id, text@), final(self).sets() == old(self).sets(), final(self).metas() == old(self).metas(), final(self).same_packages(*old(self))
//@end
//@fn crates/ide-db/src/root_db.rs SourceDatabase@RootDatabase::package_root
//@ret r
//@spec
    requires self.files.package_roots@.dom().contains(package_id)
    ensures r == self.files.package_roots@[package_id]
//@end
//@fn crates/ide-db/src/root_db.rs SourceDatabase@RootDatabase::replace_package_roots
//@spec
    requires old(self).wf(), apart(package_roots@), package_roots@.len() <= u32::MAX,
    ensures final(self).wf(), final(self).packaged(package_roots@), final(self).texts() == old(self).texts(), final(self).metas() == old(self).metas(),
        final(self).store.builtins_file_id == old(self).store.builtins_file_id,
        old(self).builtins() matches Some(b) ==> final(self).files.spec_file_sets@.dom().contains(b)
//@end
//@fn crates/ide-db/src/root_db.rs SourceDatabase@RootDatabase::file_package_id
//@ret r
//@spec
    requires self.files.file_package_ids@.dom().contains(id)
    ensures r == self.files.file_package_ids@[id]
//@end
//@fn crates/ide-db/src/root_db.rs SourceDatabase@RootDatabase::builtins_file_id
//@ret r
//@spec
    ensures r == self.store.builtins_file_id
//@end
//@fn crates/ide-db/src/root_db.rs SourceDatabase@RootDatabase::set_builtins_file_id
//@spec
    ensures final(self).same_but_builtins(*old(self)), final(self).builtins() == file_id
//@end
//@fn crates/ide-db/src/root_db.rs SourceDatabase@RootDatabase::package_metadata
//@ret r
//@spec
    requires self.files.package_metadata@.dom().contains(manifest_file_id)
    ensures r == self.files.package_metadata@[manifest_file_id]
//@end
//@fn crates/ide-db/src/root_db.rs SourceDatabase@RootDatabase::set_package_metadata
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).metas() == old(self).metas().insert(package_manifest_id, package_metadata),
        final(self).texts() == old(self).texts(), final(self).sets() == old(self).sets(), final(self).same_packages(*old(self))
//@end
//@fn crates/ide-db/src/root_db.rs SourceDatabase@RootDatabase::spec_related_files
//@ret r
//@spec
    requires self.files.spec_file_sets@.dom().contains(file_id)
    ensures r == self.files.spec_file_sets@[file_id]
//@end
//@fn crates/ide-db/src/root_db.rs SourceDatabase@RootDatabase::set_spec_related_files
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).sets() == old(self).sets().insert(file_id, file_set@),
        final(self).texts() == old(self).texts(), final(self).metas() == old(self).metas(), final(self).same_packages(*old(self))
//@end
}
pub proof fn lemma_packaged(a: RootDatabase, b: RootDatabase, v: Seq<PackageRoot>)
    requires a.packaged(v), b.files.file_package_ids@ == a.files.file_package_ids@, b.files.package_roots@ == a.files.package_roots@, b.store.roots@ == a.store.roots@, b.store.ids@ == a.store.ids@,
        b.files.all_package_ids == a.files.all_package_ids, b.store.id_sets@ == a.store.id_sets@,
        forall|x: FileId| #[trigger] a.sets().dom().contains(x) && in_some(v, v.len() as int, x) ==> b.sets().dom().contains(x) && b.sets()[x] == a.sets()[x]
    ensures b.packaged(v)
{
    let ids = a.store.id_sets@[a.files.all_package_ids->0]; let n = v.len() as int;
    assert forall|i: int, x: FileId| 0 <= i < n && #[trigger] v[i].dom().contains(x) implies belongs(b.files, b.store, v[i], ids[i], x) by {
        assert(belongs(a.files, a.store, v[i], ids[i], x)); assert(a.sets().dom().contains(x)); assert(in_some(v, n, x));
        assert(b.sets().dom().contains(x) && b.sets()[x] == a.sets()[x]);
    }
}
/// what `RootDatabase::new` leaves
impl RootDatabase {
//@fn crates/ide-db/src/root_db.rs RootDatabase::new
//@ret r
//@rewrite RootDatabase { $$a } =>> RootDatabase { files: vx_no_files(), store: vx_no_store() }
//@rewrite PackageIdSet :: builder ( $$v ) . durability ( $$d ) . new ( & mut db ) =>> db.store.new_package_ids($v)
//@rewrite Arc :: get_mut ( & mut $$x ) . expect ( $$m ) =>> $x
//@spec
    ensures r.wf(), r.texts() == Map::<FileId, Seq<char>>::empty(), r.packaged(Seq::empty()), r.builtins() is None
//@end
}
#[verifier::external_body]
pub fn vx_no_files() -> (r: Files) ensures r.files@ == Map::<FileId, FileText>::empty(), r.file_package_ids@ == Map::<FileId, PackageId>::empty(), r.package_roots@ == Map::<PackageId, PackageRootInput>::empty(),
    r.package_metadata@ == Map::<FileId, PackageMetadataInput>::empty(), r.spec_file_sets@ == Map::<FileId, FileIdSet>::empty(), r.all_package_ids is None { unimplemented!() }
#[verifier::external_body]
pub fn vx_no_store() -> (r: VxStore) ensures r.builtins_file_id is None { unimplemented!() }
impl VxStore {
    #[verifier::external_body]
    pub fn new_package_ids(&mut self, v: Vec<PackageId>) -> (r: PackageIdSet)
        ensures !old(self).id_sets@.dom().contains(r), *final(self) == (VxStore { id_sets: Ghost(old(self).id_sets@.insert(r, v@)), ..*old(self) }) { unimplemented!() }
}

// ================= applying a batch of changes
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    /// trusted: every entry once
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: Vec<(K, V)>)
        ensures forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0 != (#[trigger] r@[j]).0,
            forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains((#[trigger] r@[i]).0) && self@[r@[i].0] == r@[i].1,
            forall|k: K| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k { unimplemented!() }
}
pub type PackageGraph = HashMap<ManifestFileId, PackageMetadata>;
//@item crates/base-db/src/change.rs FileChanges
/// the new text of a file; nothing if it is gone or unreadable
pub open spec fn new_text(t: Option<String>) -> Seq<char> { match t { Some(s) => s@, None => Seq::empty() } }
pub open spec fn with_texts(m: Map<FileId, Seq<char>>, v: Seq<(FileId, Option<String>)>, n: int) -> Map<FileId, Seq<char>> decreases n {
    if n <= 0 { m } else { with_texts(m, v, n - 1).insert(v[n - 1].0, new_text(v[n - 1].1)) }
}
pub open spec fn with_builtins(m: Map<FileId, Seq<char>>, b: Option<(FileId, String)>) -> Map<FileId, Seq<char>> { match b { Some((f, t)) => m.insert(f, t@), None => m } }
pub open spec fn with_metas(m: Map<ManifestFileId, PackageMetadata>, o: Map<ManifestFileId, PackageMetadata>, g: Map<ManifestFileId, PackageMetadata>) -> bool {
    forall|k: ManifestFileId| #[trigger] m.dom().contains(k) == (g.dom().contains(k) || o.dom().contains(k)) && (m.dom().contains(k) ==> m[k] == (if g.dom().contains(k) { g[k] } else { o[k] }))
}
pub trait VxDefault { spec fn vx_text(self) -> Seq<char>; fn vx_or_default(self) -> (r: String) ensures r@ == self.vx_text(); }
impl VxDefault for Option<String> { open spec fn vx_text(self) -> Seq<char> { new_text(self) } #[verifier::external_body] fn vx_or_default(self) -> (r: String) { self.unwrap_or_default() } }
#[verifier::external_body]
pub fn vx_clone_roots(v: &Option<Vec<PackageRoot>>) -> (r: Option<Vec<PackageRoot>>) ensures r == *v { unimplemented!() }
//@rewrite let _p = $$a ; =>>
//@rewrite self . package_roots . clone ( ) =>> vx_clone_roots(&self.package_roots)
//@rewrite . unwrap_or_default ( ) =>> .vx_or_default()
//@fn crates/base-db/src/change.rs file_text_durability
//@end
impl FileChanges {
//@fn crates/base-db/src/change.rs FileChanges::change_file
//@spec
    ensures final(self).files_changed@ == old(self).files_changed@.push((file_id, new_text)), final(self).builtins_file == old(self).builtins_file, final(self).package_roots == old(self).package_roots, final(self).package_graph == old(self).package_graph
//@end
//@fn crates/base-db/src/change.rs FileChanges::set_package_roots
//@spec
    ensures *final(self) == (FileChanges { package_roots: Some(package_roots), ..*old(self) })
//@end
//@fn crates/base-db/src/change.rs FileChanges::set_package_graph
//@spec
    ensures *final(self) == (FileChanges { package_graph: Some(package_graph), ..*old(self) })
//@end
//@fn crates/base-db/src/change.rs FileChanges::add_builtins_file
//@spec
    ensures *final(self) == (FileChanges { builtins_file: Some((file_id, builtins_text)), ..*old(self) })
//@end
    /// the batch may be applied: packages do not overlap, and a present file is in one of the new packages
    pub open spec fn may_apply(self, db: RootDatabase) -> bool {
        self.package_roots matches Some(v) ==> apart(v@) && v@.len() <= u32::MAX
            && (self.builtins_file matches Some(b) ==> !in_some(v@, v@.len() as int, b.0))
            && (forall|i: int| 0 <= i < self.files_changed@.len() && (#[trigger] self.files_changed@[i]).1 is Some ==> in_some(v@, v@.len() as int, self.files_changed@[i].0))
    }
//@fn crates/base-db/src/change.rs FileChanges::apply
//@rewrite & mut dyn SourceDatabase =>> &mut RootDatabase
//@spec
    requires old(db).wf(), self.may_apply(*old(db))
    ensures final(db).wf(),
        final(db).texts() == with_texts(with_builtins(old(db).texts(), self.builtins_file), self.files_changed@, self.files_changed@.len() as int),
        self.package_roots matches Some(v) ==> final(db).packaged(v@),
        self.package_roots is None && self.builtins_file is None ==> final(db).same_packages(*old(db)) && final(db).sets() == old(db).sets(),
        self.builtins_file matches Some(b) ==> final(db).builtins() == Some(b.0) && final(db).sets().dom().contains(b.0) && final(db).sets()[b.0] == Seq::<FileId>::empty(),
        self.builtins_file is None ==> final(db).builtins() == old(db).builtins(),
        self.package_graph matches Some(g) ==> with_metas(final(db).metas(), old(db).metas(), g@),
        self.package_graph is None ==> final(db).metas() == old(db).metas(),
//@in fn begin
    let ghost (d0, ch) = (*db, self);
//@before if let Some ( ( builtins_file_id , builtins_text ) )
    let ghost d9 = *db;
//@before if let Some ( package_graph )
    let ghost d1 = *db;
    proof { if let Some(v) = ch.package_roots { lemma_packaged(d9, d1, v@); } }
//@loop 0 iter it
    invariant db.wf(), db.texts() == d1.texts(), db.same_packages(d1), db.sets() == d1.sets(),
        self.files_changed@ == ch.files_changed@, self.package_roots == ch.package_roots,
        forall|i: int, j: int| 0 <= i < j < it.seq().len() ==> (#[trigger] it.seq()[i]).0 != (#[trigger] it.seq()[j]).0, it.index@ <= it.seq().len(),
        forall|i: int| 0 <= i < it.index@ ==> db.metas().dom().contains((#[trigger] it.seq()[i]).0) && db.metas()[it.seq()[i].0] == it.seq()[i].1,
        forall|k: FileId| d1.metas().dom().contains(k) ==> #[trigger] db.metas().dom().contains(k),
        forall|k: FileId| #[trigger] db.metas().dom().contains(k) ==> (d1.metas().dom().contains(k) && db.metas()[k] == d1.metas()[k]) || (exists|i: int| 0 <= i < it.index@ && (#[trigger] it.seq()[i]).0 == k),
//@in loop 0 begin
    let ghost m0 = db.metas(); let ghost ix = it.index@; let ghost sq = it.seq();
//@in loop 0 end
    proof {
        assert((package_manifest_id, package_metadata) == sq[ix] || true);
        assert forall|k: FileId| #[trigger] db.metas().dom().contains(k) implies (d1.metas().dom().contains(k) && db.metas()[k] == d1.metas()[k]) || (exists|i: int| 0 <= i < ix + 1 && (#[trigger] sq[i]).0 == k) by {
            if k == package_manifest_id { assert(sq[ix].0 == k); } else { assert(m0.dom().contains(k)); }
        }
    }
//@before let is_replacing_package_roots
    let ghost d2 = *db;
    proof { if let Some(v) = ch.package_roots { lemma_packaged(d1, d2, v@); } }
//@loop 1 iter jt
    invariant db.wf(), d2.wf(), ch.may_apply(d0), db.same_packages(d2), db.sets() == d2.sets(), db.metas() == d2.metas(), jt.seq() == ch.files_changed@, jt.index@ <= jt.seq().len(),
        db.texts() == with_texts(d2.texts(), ch.files_changed@, jt.index@), is_replacing_package_roots == ch.package_roots is Some,
        ch.package_roots matches Some(v) ==> db.packaged(v@),
//@in loop 1 end
    proof { if let Some(v) = ch.package_roots { lemma_packaged(d3, *db, v@); } }
//@in loop 1 begin
    let ghost d3 = *db;
    proof { assert((file_id, text) == ch.files_changed@[jt.index@]); 
        if let Some(v) = ch.package_roots { if text is Some { assert(in_some(v@, v@.len() as int, file_id)); let i = choose|i: int| 0 <= i < v@.len() && #[trigger] v@[i].dom().contains(file_id); assert(belongs(db.files, db.store, v@[i], db.store.id_sets@[db.files.all_package_ids->0][i], file_id)); } } }
//@end
}

// ================= from the file watcher to the database
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct VxHash { pub h: u64 }
pub enum Change { Create(Vec<u8>, VxHash), Modify(Vec<u8>, VxHash), Delete }
pub struct ChangedFile { pub file_id: FileId, pub change: Change }
pub struct VxChanges { pub v: Vec<ChangedFile> }
impl VxChanges {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.v@.len() == 0) { unimplemented!() }
    pub fn into_values(self) -> (r: Vec<ChangedFile>) ensures r == self.v { self.v }
}
/// the `vfs` crate: where each file is, which files are there now, and what changed since last asked
#[verifier::external_body]
pub struct VxVfs { }
impl VxVfs {
    pub uninterp spec fn paths(self) -> Map<FileId, VfsPath>;
    pub uninterp spec fn present(self) -> Set<FileId>;
    pub uninterp spec fn pending(self) -> Seq<ChangedFile>;
    /// trusted: a file id is pending at most once, has a path, and is present unless its last change deletes it
    pub open spec fn wf(self) -> bool {
        forall|i: int| 0 <= i < self.pending().len() ==> self.paths().dom().contains((#[trigger] self.pending()[i]).file_id) && (!(self.pending()[i].change is Delete) ==> self.present().contains(self.pending()[i].file_id))
    }
    #[verifier::external_body]
    pub fn take_changes(&mut self) -> (r: VxChanges)
        ensures r.v@ == old(self).pending(), final(self).pending() == Seq::<ChangedFile>::empty(), final(self).paths() == old(self).paths(), final(self).present() == old(self).present() { unimplemented!() }
    #[verifier::external_body]
    pub fn file_path(&self, f: FileId) -> (r: &VfsPath) requires self.paths().dom().contains(f) ensures *r == self.paths()[f] { unimplemented!() }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum LineEndings { Unix, Dos }
/// the text with Unix line ends (specified and proved in unit line_endings)
/// the line ends it had
pub uninterp spec fn endings(s: Seq<char>) -> LineEndings;
pub uninterp spec fn to_unix(s: Seq<char>) -> Seq<char>;
impl LineEndings {
    #[verifier::external_body]
    pub fn normalize(s: String) -> (r: (String, LineEndings)) ensures r.0@ == to_unix(s@), r.1 == endings(s@) { unimplemented!() }
}
/// the text of these bytes, if they are one
pub open spec fn text_of(b: Seq<u8>) -> Option<Seq<char>> { if valid_utf8(b) { Some(decode_utf8(b)) } else { None } }
#[verifier::external_body]
pub fn vx_text(b: Vec<u8>) -> (r: Option<String>) ensures match r { Some(s) => text_of(b@) == Some(s@), None => text_of(b@) is None } { String::from_utf8(b).ok() }
#[verifier::external_body]
pub fn is_manifest_file(p: &VfsPath) -> (r: bool) ensures r == is_manifest(*p) { unimplemented!() }
pub uninterp spec fn is_manifest(p: VfsPath) -> bool;
//@item crates/aptos-language-server/src/file_changes.rs WorkspaceStructureChanges
/// the text the analysis must see for a changed file
pub open spec fn seen_text(c: Change) -> Option<Seq<char>> {
    match c { Change::Create(b, _) => seen_bytes(b@), Change::Modify(b, _) => seen_bytes(b@), Change::Delete => None }
}
pub open spec fn seen_bytes(b: Seq<u8>) -> Option<Seq<char>> { match text_of(b) { Some(t) => Some(to_unix(t)), None => None } }
/// files came or went, or a manifest was edited
pub open spec fn notable(c: ChangedFile, paths: Map<FileId, VfsPath>) -> bool {
    is_real(paths[c.file_id]) && (c.change is Create || c.change is Delete || is_manifest(paths[c.file_id]))
}
pub open spec fn same_text(a: Option<String>, b: Option<Seq<char>>) -> bool { match a { Some(s) => b == Some(s@), None => b is None } }
impl WorkspaceStructureChanges {
    pub open spec fn any(self) -> bool { self.files_created@.len() > 0 || self.files_deleted@.len() > 0 || self.manifests_changed@.len() > 0 }
//@fn crates/aptos-language-server/src/file_changes.rs WorkspaceStructureChanges::has_changes
//@ret r
//@spec
    ensures r == self.any()
//@end
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures !r.any() { unimplemented!() }
}
impl FileChanges {
    pub open spec fn is_empty(self) -> bool { self.files_changed@.len() == 0 && self.package_roots is None && self.package_graph is None && self.builtins_file is None }
//@fn crates/base-db/src/change.rs FileChanges::new
//@ret r
//@spec
    ensures r.is_empty()
//@end
    /// trusted: `#[derive(Default)]`
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.is_empty() { unimplemented!() }
}
pub struct AnalysisHost { pub db: RootDatabase }
#[verifier::external_body]
pub struct FileSetConfig { }
/// the files of each set of the configuration; the last set takes what no other claims
impl FileSetConfig {
    #[verifier::external_body]
    pub fn partition(&self, vfs: &VxVfs) -> (r: Vec<FileSet>)
        ensures r@.len() <= u32::MAX,
            forall|i: int, j: int, f: FileId| 0 <= i < r@.len() && 0 <= j < r@.len() && #[trigger] r@[i]@.dom().contains(f) && #[trigger] r@[j]@.dom().contains(f) ==> i == j,
            forall|f: FileId| #[trigger] vfs.present().contains(f) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@.dom().contains(f),
    { unimplemented!() }
}
impl FileSet {
    #[verifier::external_body]
    pub fn file_for_path(&self, p: &VfsPath) -> (r: Option<&FileId>)
        ensures match r { Some(f) => self@.dom().contains(*f) && self@[*f] == *p, None => forall|f: FileId| #[trigger] self@.dom().contains(f) ==> self@[f] != *p } { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_contains(v: &Vec<u64>, x: &u64) -> (r: bool) ensures r == v@.contains(*x) { v.contains(x) }
//@item crates/project-model/src/project_folders.rs PackageRootConfig
/// the package's manifest is one of the configured ones, and the package has one if it contains any of them
pub open spec fn right_manifest(r: PackageRoot, manifests: Seq<VfsPath>) -> bool {
    match r.manifest_file_id {
        Some(m) => r.dom().contains(m) && manifests.contains(r.file_set@[m]),
        None => forall|f: FileId| #[trigger] r.dom().contains(f) ==> !manifests.contains(r.file_set@[f]) }
}
impl PackageRoot {
//@fn crates/base-db/src/package_root.rs PackageRoot::new
//@ret r
//@spec
    ensures r.file_set == file_set, r.kind == kind, r.manifest_file_id == manifest_file_id
//@end
}
//@rewrite vfs :: Vfs =>> VxVfs
impl PackageRootConfig {
//@fn crates/project-model/src/project_folders.rs PackageRootConfig::partition_into_package_roots
//@ret r
//@rewrite? vec ! [ ] =>> Vec::<PackageRoot>::new()
//@rewrite $v . into_iter ( ) . enumerate ( ) =>> vx_enumerate($v)
//@rewrite $s . local_filesets . contains ( $$a ) =>> vx_contains(&$s.local_filesets, $a)
//@spec
    ensures apart(r@), r@.len() <= u32::MAX, forall|f: FileId| #[trigger] vfs.present().contains(f) ==> in_some(r@, r@.len() as int, f),
        forall|i: int| 0 <= i < r@.len() ==> ((#[trigger] r@[i]).kind is Local == self.local_filesets@.contains(i as u64)) && right_manifest(r@[i], self.fileset_root_manifests@),
//@loop 0 iter it
    invariant it.index@ <= sets.len(), it.seq().len() == sets.len(), forall|i: int| 0 <= i < sets.len() ==> #[trigger] it.seq()[i] == (i as usize, sets[i]), sets.len() <= u32::MAX,
        package_roots@.len() == it.index@,
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] package_roots@[i]).file_set == sets[i] && (package_roots@[i].kind is Local == self.local_filesets@.contains(i as u64)) && right_manifest(package_roots@[i], self.fileset_root_manifests@),
//@loop 1 iter jt
    invariant jt.seq().len() == self.fileset_root_manifests@.len(), forall|i: int| 0 <= i < jt.seq().len() ==> *(#[trigger] jt.seq()[i]) == self.fileset_root_manifests@[i], jt.index@ <= jt.seq().len(),
        match package_manifest_file_id {
            Some(m) => package_file_set@.dom().contains(m) && self.fileset_root_manifests@.contains(package_file_set@[m]),
            None => forall|f: FileId, i: int| 0 <= i < jt.index@ && #[trigger] package_file_set@.dom().contains(f) ==> package_file_set@[f] != #[trigger] self.fileset_root_manifests@[i] },
//@in loop 0 begin
    proof { assert(it.seq()[it.index@] == (it.index@ as usize, sets[it.index@])); }
//@before let mut package_roots
    let ghost sets = package_file_sets@;
//@after @loop 0
    proof { assert forall|f: FileId| #[trigger] vfs.present().contains(f) implies in_some(package_roots@, package_roots@.len() as int, f) by {
        let i = choose|i: int| 0 <= i < sets.len() && (#[trigger] sets[i])@.dom().contains(f); assert(package_roots@[i].dom().contains(f)); } }
//@end
}

impl RootDatabase {
    /// salsa's cancellation of running queries; no input changes
    #[verifier::external_body]
    pub fn request_cancellation(&mut self) ensures *final(self) == *old(self) { unimplemented!() }
//@fn crates/ide-db/src/apply_change.rs RootDatabase::apply_change
//@spec
    requires old(self).wf(), change.may_apply(*old(self))
    ensures final(self).wf(),
        final(self).texts() == with_texts(with_builtins(old(self).texts(), change.builtins_file), change.files_changed@, change.files_changed@.len() as int),
        change.package_roots matches Some(v) ==> final(self).packaged(v@),
        change.package_roots is None && change.builtins_file is None ==> final(self).same_packages(*old(self)) && final(self).sets() == old(self).sets(),
        change.builtins_file is None ==> final(self).builtins() == old(self).builtins(),
        change.package_graph is None ==> final(self).metas() == old(self).metas(),
//@end
}
impl AnalysisHost {
//@fn crates/ide/src/lib.rs AnalysisHost::apply_change
//@spec
    requires old(self).db.wf(), change.may_apply(old(self).db)
    ensures final(self).db.wf(),
        final(self).db.texts() == with_texts(with_builtins(old(self).db.texts(), change.builtins_file), change.files_changed@, change.files_changed@.len() as int),
        change.package_roots matches Some(v) ==> final(self).db.packaged(v@),
        change.package_roots is None && change.builtins_file is None ==> final(self).db.same_packages(old(self).db) && final(self).db.sets() == old(self).db.sets(),
        change.builtins_file is None ==> final(self).db.builtins() == old(self).db.builtins(),
        change.package_graph is None ==> final(self).db.metas() == old(self).db.metas(),
//@end
}
pub struct LoadPackagesRequest { pub force_reload_package_deps: bool }
/// the queue of package reloads (see unit op_queue); what was asked
pub struct VxQueue { pub asked: Ghost<Seq<bool>> }
impl VxQueue { pub fn request_op(&mut self, cause: String, r: LoadPackagesRequest) ensures final(self).asked@ == old(self).asked@.push(r.force_reload_package_deps) { proof { self.asked@ = self.asked@.push(r.force_reload_package_deps); } } }
pub struct GlobalState { pub vfs: (VxVfs, HashMap<FileId, LineEndings>), pub package_root_config: PackageRootConfig, pub analysis_host: AnalysisHost, pub load_aptos_packages_queue: VxQueue }
/// the changes of the watcher, in order, with the text the analysis must see
pub open spec fn carried(v: Seq<(FileId, Option<String>)>, p: Seq<ChangedFile>) -> bool {
    v.len() == p.len() && forall|i: int| 0 <= i < p.len() ==> (#[trigger] v[i]).0 == p[i].file_id && same_text(v[i].1, seen_text(p[i].change))
}
pub open spec fn any_notable(p: Seq<ChangedFile>, n: int, paths: Map<FileId, VfsPath>) -> bool { exists|i: int| 0 <= i < n && #[trigger] notable(p[i], paths) }
/// the texts after the watcher's changes
pub open spec fn after(m: Map<FileId, Seq<char>>, p: Seq<ChangedFile>, n: int) -> Map<FileId, Seq<char>> decreases n {
    if n <= 0 { m } else { after(m, p, n - 1).insert(p[n - 1].file_id, match seen_text(p[n - 1].change) { Some(t) => t, None => Seq::empty() }) }
}
pub open spec fn bytes_of(c: Change) -> Option<Seq<u8>> { match c { Change::Create(b, _) => Some(b@), Change::Modify(b, _) => Some(b@), Change::Delete => None } }
pub open spec fn seen_endings(c: Change) -> Option<LineEndings> { match bytes_of(c) { Some(b) => match text_of(b) { Some(t) => Some(endings(t)), None => None }, None => None } }
/// the remembered line ends after the watcher's changes
pub open spec fn endings_after(m: Map<FileId, LineEndings>, p: Seq<ChangedFile>, n: int) -> Map<FileId, LineEndings> decreases n {
    if n <= 0 { m } else { match seen_endings(p[n - 1].change) { Some(e) => endings_after(m, p, n - 1).insert(p[n - 1].file_id, e), None => endings_after(m, p, n - 1) } }
}
pub open spec fn read(a: Option<(String, LineEndings)>, c: Change) -> bool { match a { Some((s, e)) => seen_text(c) == Some(s@) && seen_endings(c) == Some(e), None => seen_text(c) is None && seen_endings(c) is None } }
proof fn lemma_after(m: Map<FileId, Seq<char>>, v: Seq<(FileId, Option<String>)>, p: Seq<ChangedFile>, n: int)
    requires carried(v, p), n <= p.len() ensures with_texts(m, v, n) == after(m, p, n) decreases n
{ if n > 0 { lemma_after(m, v, p, n - 1); assert(v[n - 1].0 == p[n - 1].file_id); assert(same_text(v[n - 1].1, seen_text(p[n - 1].change))); } }
//@rewrite self . vfs . write ( ) =>> (&mut self.vfs)
//@rewrite self . vfs . read ( ) =>> self.vfs
//@rewrite RwLockWriteGuard :: downgrade_to_upgradable ( $x ) =>> $x
//@rewrite let ( _ , $m ) = & mut * RwLockUpgradableReadGuard :: upgrade ( $x ) ; =>> let $m = &mut $x.1;
//@rewrite String :: from_utf8 ( $b ) . ok ( ) =>> vx_text($b)
//@rewrite reload :: is_manifest_file =>> is_manifest_file
//@rewrite vfs :: Change =>> Change
impl GlobalState {
//@fn crates/aptos-language-server/src/file_changes.rs GlobalState::fetch_pending_file_changes
//@ret r
//@rewrite? vec ! [ ] =>> Vec::<(FileId, Option<(String, LineEndings)>)>::new()
//@spec
    requires old(self).vfs.0.wf()
    ensures final(self).vfs.0.wf(), final(self).vfs.0.pending().len() == 0, final(self).vfs.0.paths() == old(self).vfs.0.paths(), final(self).vfs.0.present() == old(self).vfs.0.present(),
        final(self).package_root_config == old(self).package_root_config, final(self).analysis_host == old(self).analysis_host, final(self).load_aptos_packages_queue == old(self).load_aptos_packages_queue,
        match r {
            Some((c, w)) => old(self).vfs.0.pending().len() > 0 && carried(c.files_changed@, old(self).vfs.0.pending()) && c.package_roots is None && c.builtins_file is None && c.package_graph is None
                && w.any() == any_notable(old(self).vfs.0.pending(), old(self).vfs.0.pending().len() as int, old(self).vfs.0.paths()),
            None => old(self).vfs.0.pending().len() == 0 },
        final(self).vfs.1@ == endings_after(old(self).vfs.1@, old(self).vfs.0.pending(), old(self).vfs.0.pending().len() as int)
//@in fn begin
    let ghost p = self.vfs.0.pending(); let ghost paths = self.vfs.0.paths(); let ghost m0 = self.vfs.1@; let ghost v0 = self.vfs.0;
//@loop 0 iter it
    invariant it.seq() == p, it.index@ <= p.len(), v0.wf(), v0.pending() == p, v0.paths() == paths, vfs.paths() == paths,
        files_with_text@.len() == it.index@, notable_changes.any() == any_notable(p, it.index@, paths),
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] files_with_text@[i]).0 == p[i].file_id && read(files_with_text@[i].1, p[i].change),
//@in loop 0 begin
    let ghost ix = it.index@; let ghost w0 = notable_changes.any();
    proof { assert(changed_file == p[ix]); assert(any_notable(p, ix + 1, paths) == (any_notable(p, ix, paths) || notable(p[ix], paths))); }
//@loop 1 iter jt
    invariant jt.seq().len() == p.len(), jt.index@ <= p.len(), 
        forall|i: int| 0 <= i < p.len() ==> (#[trigger] jt.seq()[i]).0 == p[i].file_id && read(jt.seq()[i].1, p[i].change),
        changes.files_changed@.len() == jt.index@, changes.package_roots is None, changes.builtins_file is None, changes.package_graph is None,
        forall|i: int| 0 <= i < jt.index@ ==> (#[trigger] changes.files_changed@[i]).0 == p[i].file_id && same_text(changes.files_changed@[i].1, seen_text(p[i].change)),
        line_endings_map@ == endings_after(m0, p, jt.index@),
//@in loop 1 begin
    proof { assert((file_id, text_with_line_endings) == jt.seq()[jt.index@]); }
//@end
//@fn crates/aptos-language-server/src/file_changes.rs GlobalState::process_pending_file_changes
//@ret r
//@spec
    requires old(self).vfs.0.wf(), old(self).analysis_host.db.wf()
    ensures final(self).analysis_host.db.wf(), final(self).vfs.0.pending().len() == 0, r == (old(self).vfs.0.pending().len() > 0),
        final(self).analysis_host.db.texts() == after(old(self).analysis_host.db.texts(), old(self).vfs.0.pending(), old(self).vfs.0.pending().len() as int),
        final(self).vfs.1@ == endings_after(old(self).vfs.1@, old(self).vfs.0.pending(), old(self).vfs.0.pending().len() as int),
        ({ let any = any_notable(old(self).vfs.0.pending(), old(self).vfs.0.pending().len() as int, old(self).vfs.0.paths());
           if any { (exists|v: Seq<PackageRoot>| #[trigger] final(self).analysis_host.db.packaged(v) && apart(v) && (forall|f: FileId| #[trigger] old(self).vfs.0.present().contains(f) ==> in_some(v, v.len() as int, f)))
                 && final(self).load_aptos_packages_queue.asked@ == old(self).load_aptos_packages_queue.asked@.push(true) }
           else { final(self).analysis_host.db.same_packages(old(self).analysis_host.db) && final(self).analysis_host.db.sets() == old(self).analysis_host.db.sets() && final(self).load_aptos_packages_queue == old(self).load_aptos_packages_queue } }),
//@in fn begin
    let ghost p = self.vfs.0.pending(); let ghost v0 = self.vfs.0; let ghost d0 = self.analysis_host.db;
    proof { assert(after(d0.texts(), Seq::<ChangedFile>::empty(), 0) == d0.texts()); }
//@before self . analysis_host . apply_change
    proof {
        lemma_after(d0.texts(), changes.files_changed@, p, p.len() as int);
        if changes.package_roots is Some {
            let v = changes.package_roots->0;
            assert forall|i: int| 0 <= i < changes.files_changed@.len() && (#[trigger] changes.files_changed@[i]).1 is Some implies in_some(v@, v@.len() as int, changes.files_changed@[i].0) by {
                assert(same_text(changes.files_changed@[i].1, seen_text(p[i].change))); assert(v0.present().contains(p[i].file_id));
            }
        }
    }
//@end
}
} // verus!
