#![feature(allocator_api)]
#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
verus! {
//@include ../common/prelude.rs
fn main() {}
//@eqcalls
// ================= texts
pub trait VxEq<B: ?Sized> { spec fn same(&self, o: &B) -> bool; fn vx_same(&self, o: &B) -> (r: bool) ensures r == self.same(o); }
/// `==`
pub fn vx_eq<A: VxEq<B>, B>(a: &A, b: &B) -> (r: bool) ensures r == a.same(b) { a.vx_same(b) }
impl VxEq<String> for String { open spec fn same(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_same(&self, o: &String) -> (r: bool) { self == o } }
impl<'a> VxEq<&'a str> for String { open spec fn same(&self, o: &&'a str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_same(&self, o: &&'a str) -> (r: bool) { self == o } }
impl<'a, 'b> VxEq<&'b str> for &'a str { open spec fn same(&self, o: &&'b str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_same(&self, o: &&'b str) -> (r: bool) { self == o } }
impl<'a> VxEq<String> for &'a str { open spec fn same(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_same(&self, o: &String) -> (r: bool) { self == o } }
impl<'a, 'b> VxEq<&'b String> for &'a String { open spec fn same(&self, o: &&'b String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_same(&self, o: &&'b String) -> (r: bool) { self == o } }
impl VxEq<usize> for usize { open spec fn same(&self, o: &usize) -> bool { *self == *o } fn vx_same(&self, o: &usize) -> (r: bool) { *self == *o } }
impl VxEq<bool> for bool { open spec fn same(&self, o: &bool) -> bool { *self == *o } fn vx_same(&self, o: &bool) -> (r: bool) { *self == *o } }

pub open spec fn begins(t: Seq<char>, p: Seq<char>) -> bool { p.len() <= t.len() && t.take(p.len() as int) == p }
pub open spec fn trimmed(t: Seq<char>, p: char) -> Seq<char> decreases t.len() { if t.len() > 0 && t[0] == p { trimmed(t.skip(1), p) } else { t } }
pub open spec fn lower(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
pub open spec fn lowered(t: Seq<char>) -> Seq<char> { t.map_values(|c: char| lower(c)) }
pub open spec fn without(t: Seq<char>, x: char) -> Seq<char> { t.filter(|c: char| c != x) }
/// trusted: as much of `str` as the code uses
pub trait VxText {
    spec fn vx_text(&self) -> Seq<char>;
    fn vx_starts_with(&self, p: &str) -> (r: bool) ensures r == begins(self.vx_text(), p@);
    fn vx_strip_prefix(&self, p: &str) -> (r: Option<&str>) ensures match r { Some(s) => begins(self.vx_text(), p@) && s@ == self.vx_text().skip(p@.len() as int), None => !begins(self.vx_text(), p@) };
    fn vx_trim_start_matches(&self, p: &str) -> (r: &str) requires p@.len() == 1 ensures r@ == trimmed(self.vx_text(), p@[0]);
    fn vx_replace(&self, c: char, with: &str) -> (r: String) requires with@.len() == 0 ensures r@ == without(self.vx_text(), c);
    fn vx_to_ascii_lowercase(&self) -> (r: String) ensures r@ == lowered(self.vx_text());
    fn vx_from(&self, at: usize) -> (r: &str) requires at <= self.vx_text().len(), forall|i: int| 0 <= i < at ==> (#[trigger] self.vx_text()[i] as u32) < 128 ensures r@ == self.vx_text().skip(at as int);
}
impl VxText for str {
    open spec fn vx_text(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_starts_with(&self, p: &str) -> bool { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix(&self, p: &str) -> Option<&str> { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start_matches(&self, p: &str) -> &str { unimplemented!() }
    #[verifier::external_body] fn vx_replace(&self, c: char, with: &str) -> String { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> String { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, at: usize) -> &str { unimplemented!() }
}
impl VxText for String {
    open spec fn vx_text(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_starts_with(&self, p: &str) -> bool { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix(&self, p: &str) -> Option<&str> { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start_matches(&self, p: &str) -> &str { unimplemented!() }
    #[verifier::external_body] fn vx_replace(&self, c: char, with: &str) -> String { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> String { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, at: usize) -> &str { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
/// `format!("{a}{b}")`
#[verifier::external_body]
pub fn vx_concat(a: &str, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
//@rewrite . starts_with =>> . vx_starts_with
//@rewrite . strip_prefix =>> . vx_strip_prefix
//@rewrite . trim_start_matches =>> . vx_trim_start_matches
//@rewrite . to_ascii_lowercase =>> . vx_to_ascii_lowercase
//@rewrite . replace =>> . vx_replace
//@rewrite & $t [ $a .. ] =>> $t.vx_from($a)
//@rewrite $a . $b . to_string ( ) =>> vx_string(&$a.$b)
//@rewrite $a . to_string ( ) =>> vx_string($a)
//@rewrite $a . to_owned ( ) =>> vx_string($a)

// ================= the value of an address
pub open spec fn is_digit(c: char) -> bool { ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
/// `0x` and hexadecimal digits, which may be separated by `_`
pub open spec fn is_hex(t: Seq<char>) -> bool { t.len() >= 2 && t[0] == '0' && t[1] == 'x' && forall|i: int| 2 <= i < t.len() ==> is_digit(#[trigger] t[i]) || t[i] == '_' }
pub open spec fn digit(c: char) -> nat { if c <= '9' { (c as u32 - '0' as u32) as nat } else if c <= 'F' { (c as u32 - 'A' as u32 + 10) as nat } else { (c as u32 - 'a' as u32 + 10) as nat } }
/// the number the digits stand for
pub open spec fn number(d: Seq<char>) -> nat decreases d.len() {
    if d.len() == 0 { 0 } else if d.last() == '_' { number(d.drop_last()) } else { number(d.drop_last()) * 16 + digit(d.last()) }
}
pub open spec fn value(t: Seq<char>) -> nat { number(t.skip(2)) }
/// the one way to write it that is compared
pub open spec fn canon(t: Seq<char>) -> Seq<char> {
    if t.len() == 0 || t[0] != '0' { t } else {
        let d = trimmed(lowered(without(if begins(t, seq!['0', 'x']) { t.skip(2) } else { t.skip(1) }, '_')), '0');
        seq!['0', 'x'] + if d.len() == 0 { seq!['0'] } else { d }
    }
}
pub open spec fn plain(d: Seq<char>) -> bool { forall|i: int| 0 <= i < d.len() ==> is_digit(#[trigger] d[i]) && d[i] == lower(d[i]) }
proof fn lemma_without(d: Seq<char>)
    requires forall|i: int| 0 <= i < d.len() ==> is_digit(#[trigger] d[i]) || d[i] == '_'
    ensures number(without(d, '_')) == number(d), forall|i: int| 0 <= i < without(d, '_').len() ==> is_digit(#[trigger] without(d, '_')[i])
    decreases d.len()
{
    reveal(Seq::filter);
    if d.len() > 0 {
        lemma_without(d.drop_last()); let w = without(d.drop_last(), '_');
        if d.last() != '_' { assert(without(d, '_') =~= w.push(d.last())); assert(w.push(d.last()).drop_last() =~= w); }
        else { assert(without(d, '_') =~= w); }
    } else { assert(without(d, '_') =~= d); }
}
proof fn lemma_lowered(d: Seq<char>)
    requires forall|i: int| 0 <= i < d.len() ==> is_digit(#[trigger] d[i])
    ensures number(lowered(d)) == number(d), plain(lowered(d))
    decreases d.len()
{
    if d.len() > 0 {
        lemma_lowered(d.drop_last()); let l = lowered(d);
        assert(l.drop_last() =~= lowered(d.drop_last()));
        assert(forall|c: char| is_digit(c) ==> is_digit(#[trigger] lower(c)) && lower(lower(c)) == lower(c) && digit(lower(c)) == digit(c) && lower(c) != '_');
    }
}
proof fn lemma_zero(d: Seq<char>)
    requires d.len() > 0, d[0] == '0'
    ensures number(d.skip(1)) == number(d)
    decreases d.len()
{
    if d.len() > 1 { lemma_zero(d.drop_last()); assert(d.skip(1).drop_last() =~= d.drop_last().skip(1)); }
    else { assert(d.skip(1).len() == 0); assert(number(d.drop_last()) == 0); }
}
proof fn lemma_trimmed(d: Seq<char>)
    requires plain(d)
    ensures number(trimmed(d, '0')) == number(d), plain(trimmed(d, '0')), trimmed(d, '0').len() > 0 ==> trimmed(d, '0')[0] != '0'
    decreases d.len()
{
    if d.len() > 0 && d[0] == '0' { lemma_zero(d); lemma_trimmed(d.skip(1)); }
}
proof fn lemma_positive(d: Seq<char>)
    requires plain(d), d.len() > 0, d[0] != '0'
    ensures number(d) > 0
    decreases d.len()
{
    assert(is_digit(d[0])); assert(is_digit(d.last())); 
    if d.len() > 1 { lemma_positive(d.drop_last()); } else { assert(d.last() == d[0]); assert(number(d.drop_last()) == 0); }
}
/// digits that say the same number are the same
proof fn lemma_unique(a: Seq<char>, b: Seq<char>)
    requires plain(a), plain(b), a.len() > 0 ==> a[0] != '0', b.len() > 0 ==> b[0] != '0', number(a) == number(b)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 { if b.len() > 0 { lemma_positive(b); } assert(a =~= b); }
    else if b.len() == 0 { lemma_positive(a); }
    else {
        let (x, y) = (a.last(), b.last()); let (p, q) = (a.drop_last(), b.drop_last());
        assert(is_digit(x) && is_digit(y)); assert(x == lower(x) && y == lower(y)); assert(digit(x) < 16 && digit(y) < 16);
        assert(number(p) == number(q) && digit(x) == digit(y)) by (nonlinear_arith) requires number(p) * 16 + digit(x) == number(q) * 16 + digit(y), digit(x) < 16, digit(y) < 16;
        assert(x == y);
        lemma_unique(p, q);
        assert(a =~= p.push(x)); assert(b =~= q.push(y));
    }
}
proof fn lemma_canon_of(t: Seq<char>) -> (d: Seq<char>)
    requires is_hex(t)
    ensures canon(t) == seq!['0', 'x'] + if d.len() == 0 { seq!['0'] } else { d }, plain(d), number(d) == value(t), d.len() > 0 ==> d[0] != '0'
{
    let s = t.skip(2); assert(t.take(2) =~= seq!['0', 'x']);
    assert forall|i: int| 0 <= i < s.len() implies is_digit(#[trigger] s[i]) || s[i] == '_' by { assert(s[i] == t[i + 2]); }
    lemma_without(s); lemma_lowered(without(s, '_')); lemma_trimmed(lowered(without(s, '_')));
    trimmed(lowered(without(s, '_')), '0')
}
/// A01: what is compared is the same exactly when the values are
proof fn theorem_canon(t: Seq<char>, u: Seq<char>)
    requires is_hex(t), is_hex(u)
    ensures canon(t) == canon(u) <==> value(t) == value(u)
{
    let a = lemma_canon_of(t); let b = lemma_canon_of(u);
    if value(t) == value(u) { lemma_unique(a, b); }
    if canon(t) == canon(u) {
        let (x, y) = (canon(t).skip(2), canon(u).skip(2));
        assert(x =~= if a.len() == 0 { seq!['0'] } else { a }); assert(y =~= if b.len() == 0 { seq!['0'] } else { b });
        if a.len() == 0 && b.len() > 0 { assert(b[0] == '0'); } if b.len() == 0 && a.len() > 0 { assert(a[0] == '0'); }
        assert(a =~= b);
    }
}

// ================= addresses
//@item crates/lang/src/nameres/address.rs NumericAddress
//@item crates/lang/src/nameres/address.rs NamedAddr
//@item crates/lang/src/nameres/address.rs ValueAddr
//@item crates/lang/src/nameres/address.rs Address
impl NumericAddress {
    #[verifier::external_body] pub fn clone(&self) -> (r: NumericAddress) ensures r.value@ == self.value@ { unimplemented!() }
//@fn crates/lang/src/nameres/address.rs NumericAddress::is_underscore strlits
//@ret r
//@spec
    ensures r == (self.value@ == seq!['_'])
//@in fn begin
    proof { assert("_"@ =~= seq!['_']); }
//@end
//@fn crates/lang/src/nameres/address.rs NumericAddress::original
//@ret r
//@spec
    ensures r@ == self.value@
//@end
//@fn crates/lang/src/nameres/address.rs NumericAddress::short strlits
//@ret r
//@rewrite? format ! ( "0x{}" , $$a ) =>> vx_concat("0x", $a)
//@rewrite? format ! ( "0x{trimmed_address}" ) =>> vx_concat("0x", trimmed_address)
//@spec
    ensures r@ == canon(self.value@)
//@in fn begin
    proof { assert("0"@ =~= seq!['0']); assert("0x"@ =~= seq!['0', 'x']); let t = self.value@; 
        if begins(t, "0"@) { assert(t.take(1)[0] == '0'); } if t.len() > 0 && t[0] == '0' { assert(t.take(1) =~= "0"@); } if begins(t, "0x"@) { assert(t.take(2)[0] == '0' && t.take(2)[1] == 'x'); } }
//@end
//@fn crates/lang/src/nameres/address.rs NumericAddress::normalized
//@ret r
//@spec
    ensures r@ == canon(self.value@)
//@end
}
impl VxEq<NamedAddr> for NamedAddr { open spec fn same(&self, o: &NamedAddr) -> bool { self.name@ == o.name@ } #[verifier::external_body] fn vx_same(&self, o: &NamedAddr) -> (r: bool) { unimplemented!() } }
impl<'a, 'b> VxEq<&'b NamedAddr> for &'a NamedAddr { open spec fn same(&self, o: &&'b NamedAddr) -> bool { self.name@ == o.name@ } #[verifier::external_body] fn vx_same(&self, o: &&'b NamedAddr) -> (r: bool) { unimplemented!() } }
/// trusted: the derived `==`
impl VxEq<Address> for Address { open spec fn same(&self, o: &Address) -> bool { spelled(*self, *o) } #[verifier::external_body] fn vx_same(&self, o: &Address) -> (r: bool) { unimplemented!() } }
impl<'a, 'b> VxEq<&'b Address> for &'a Address { open spec fn same(&self, o: &&'b Address) -> bool { spelled(**self, **o) } #[verifier::external_body] fn vx_same(&self, o: &&'b Address) -> (r: bool) { unimplemented!() } }
pub open spec fn spelled(a: Address, b: Address) -> bool {
    match (a, b) { (Address::Named(x), Address::Named(y)) => x.name@ == y.name@, (Address::Value(x), Address::Value(y)) => x.numeric_address.value@ == y.numeric_address.value@, _ => false }
}
// ---- what packages say
#[verifier::external_body]
pub struct VxMap { }
impl View for VxMap { type V = Map<Seq<char>, Seq<char>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>; }
impl VxMap {
    #[verifier::external_body] pub fn new() -> (r: VxMap) ensures r@ == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: String) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, o: VxMap) ensures final(self)@ == old(self)@.union_prefer_right(o@) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &String) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&String>) ensures match r { Some(v) => self@.dom().contains(k@) && v@ == self@[k@], None => !self@.dom().contains(k@) } { unimplemented!() }
}
//@rewrite HashMap < String , String > =>> VxMap
//@rewrite HashMap :: new ( ) =>> VxMap::new()
//@rewrite & 'db dyn SourceDatabase =>> &VxDb
//@rewrite dyn SourceDatabase =>> VxDb
//@rewrite AddressInput < 'db > =>> AddressInput
//@rewrite hir_db :: =>>
//@rewrite self :: named_addresses =>> named_addresses
//@rewrite source_db :: metadata_for_package_id =>> metadata_for_package_id
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct FileId { pub raw: u32 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct PackageId { pub h: u64 }
#[verifier::external_body]
pub struct VxDb { }
pub struct VxIds { }
pub struct PackageMetadata { pub dep_manifest_ids: Vec<FileId>, pub named_addresses: Vec<(String, String)>, pub resolve_deps: bool }
impl VxDb {
    pub uninterp spec fn packages(&self) -> Seq<PackageId>;
    pub uninterp spec fn meta(&self, p: PackageId) -> Option<PackageMetadata>;
    pub uninterp spec fn package_of(&self, f: FileId) -> PackageId;
    #[verifier::external_body] pub fn all_package_ids(&self) -> (r: VxIds) { unimplemented!() }
    #[verifier::external_body] pub fn file_package_id(&self, f: FileId) -> (r: PackageId) ensures r == self.package_of(f) { unimplemented!() }
}
impl VxIds { #[verifier::external_body] pub fn data(&self, db: &VxDb) -> (r: Vec<PackageId>) ensures r@ == db.packages() { unimplemented!() } }
#[verifier::external_body]
pub fn metadata_for_package_id(db: &VxDb, p: PackageId) -> (r: Option<PackageMetadata>) ensures r == db.meta(p) { unimplemented!() }
pub open spec fn is_framework(n: Seq<char>) -> bool { n == "std"@ || n == "aptos_std"@ || n == "aptos_framework"@ || n == "aptos_token"@ }
/// m and the first k of the names and values of a package
pub open spec fn taught(m: Map<Seq<char>, Seq<char>>, p: Seq<(String, String)>, k: int) -> Map<Seq<char>, Seq<char>> decreases k {
    if k <= 0 || k > p.len() { m } else { taught(m, p, k - 1).insert(p[k - 1].0@, p[k - 1].1@) }
}
/// what the first k packages say, the last one that does of several
pub open spec fn said(db: &VxDb, k: int) -> Map<Seq<char>, Seq<char>> decreases k {
    if k <= 0 || k > db.packages().len() { Map::empty() } else { match db.meta(db.packages()[k - 1]) { Some(d) => taught(said(db, k - 1), d.named_addresses@, d.named_addresses@.len() as int), None => said(db, k - 1) } }
}
pub open spec fn all_said(db: &VxDb) -> Map<Seq<char>, Seq<char>> { said(db, db.packages().len() as int) }
/// what a name stands for
pub open spec fn stands_for(db: &VxDb, n: Seq<char>) -> Option<Seq<char>> {
    if is_framework(n) { Some(seq!['0', 'x', '1']) } else if all_said(db).dom().contains(n) { Some(all_said(db)[n]) } else { None }
}
//@prewrite APTOS_FRAMEWORK_ADDRESSES . map ( | it | it . to_string ( ) ) =>> vx_strings(&vx_frameworks())
//@prewrite APTOS_FRAMEWORK_ADDRESSES . contains ( & $n ) =>> vx_contains(&vx_frameworks(), $n)
//@rewrite pub const APTOS_FRAMEWORK_ADDRESSES : [ & str ; $n ] = $e ; =>> pub fn vx_frameworks() -> (r: [&'static str; $n]) ensures r@.len() == 4, forall|n: Seq<char>| #[trigger] is_framework(n) == exists|i: int| 0 <= i < 4 && #[trigger] r@[i]@ == n { let r: [&'static str; $n] = $e; /*@{ assert(is_framework(r@[0]@) && is_framework(r@[1]@) && is_framework(r@[2]@) && is_framework(r@[3]@)); }@*/ r }
//@item crates/lang/src/hir_db.rs APTOS_FRAMEWORK_ADDRESSES

#[verifier::external_body]
pub fn vx_strings(a: &[&'static str; 4]) -> (r: Vec<String>) ensures r@.len() == 4, forall|i: int| #![trigger r@[i]@] #![trigger a@[i]@] 0 <= i < 4 ==> r@[i]@ == a@[i]@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_contains(a: &[&'static str; 4], n: &str) -> (r: bool) ensures r == exists|i: int| 0 <= i < 4 && #[trigger] a@[i]@ == n@ { unimplemented!() }
//@fn crates/lang/src/hir_db.rs named_addresses_tracked
//@ret r
//@spec
    ensures r@ == all_said(db)
//@loop 0 iter it
    invariant it.seq() == db.packages(), all_addresses@ == said(db, it.index@)
//@in loop 0 begin
    let ghost k = it.index@; let ghost m0 = all_addresses@;
//@loop 1 iter jt
    invariant 0 <= k < db.packages().len(), m0 == said(db, k), db.meta(db.packages()[k]) matches Some(d) && jt.seq() == d.named_addresses@, all_addresses@ == taught(m0, jt.seq(), jt.index@),
//@end
//@fn crates/lang/src/hir_db.rs named_addresses strlits
//@ret r
//@spec
    ensures forall|n: Seq<char>| #[trigger] r@.dom().contains(n) == (is_framework(n) || all_said(db).dom().contains(n)),
        forall|n: Seq<char>| #[trigger] r@.dom().contains(n) ==> r@[n] == if all_said(db).dom().contains(n) { all_said(db)[n] } else { seq!['0', 'x', '1'] }
//@in fn begin
    proof { assert("0x1"@ =~= seq!['0', 'x', '1']); }
//@loop 0 iter it
    invariant it.seq().len() == 4, "0x1"@ == seq!['0', 'x', '1'],
        forall|n: Seq<char>| #[trigger] is_framework(n) == exists|i: int| 0 <= i < 4 && #[trigger] it.seq()[i]@ == n,
        forall|n: Seq<char>| #[trigger] all_addresses@.dom().contains(n) == (all_said(db).dom().contains(n) || exists|i: int| 0 <= i < it.index@ && #[trigger] it.seq()[i]@ == n),
        forall|n: Seq<char>| #[trigger] all_addresses@.dom().contains(n) ==> all_addresses@[n] == if all_said(db).dom().contains(n) { all_said(db)[n] } else { seq!['0', 'x', '1'] },
//@end
//@fn crates/lang/src/nameres/address.rs resolve_named_address strlits
//@ret r
//@spec
    ensures match r { Some(v) => stands_for(db, name@) == Some(v.value@), None => stands_for(db, name@) is None }
//@in fn begin
    proof { assert("0x1"@ =~= seq!['0', 'x', '1']); }
//@end
impl NamedAddr {
//@fn crates/lang/src/nameres/address.rs NamedAddr::new
//@ret r
//@spec
    ensures r.name == name
//@end
}
impl ValueAddr {
//@fn crates/lang/src/nameres/address.rs ValueAddr::new
//@ret r
//@spec
    ensures r.numeric_address.value == value
//@end
}
impl Address {
    /// the text of the number it stands for
    pub open spec fn number_text(self, db: &VxDb) -> Option<Seq<char>> { match self { Address::Named(n) => stands_for(db, n.name@), Address::Value(v) => Some(v.numeric_address.value@) } }
    pub open spec fn is_named(self) -> bool { self is Named }
//@fn crates/lang/src/nameres/address.rs Address::named
//@ret r
//@spec
    ensures r matches Address::Named(n) && n.name@ == name@
//@end
//@fn crates/lang/src/nameres/address.rs Address::value
//@ret r
//@spec
    ensures r matches Address::Value(v) && v.numeric_address.value@ == value@
//@end
//@fn crates/lang/src/nameres/address.rs Address::resolve_to_numeric_address
//@ret r
//@spec
    ensures match r { Some(v) => self.number_text(db) == Some(v.value@), None => self.number_text(db) is None }
//@end
//@fn crates/lang/src/nameres/address.rs Address::is_0x0 strlits
//@ret r
//@spec
    ensures r == (self matches Address::Value(v) && canon(v.numeric_address.value@) == seq!['0', 'x', '0'])
//@in fn begin
    proof { assert("0x0"@ =~= seq!['0', 'x', '0']); }
//@end
//@fn crates/lang/src/nameres/address.rs Address::is_0x1 strlits
//@ret r
//@spec
    ensures r == (self matches Address::Value(v) && canon(v.numeric_address.value@) == seq!['0', 'x', '1'])
//@in fn begin
    proof { assert("0x1"@ =~= seq!['0', 'x', '1']); }
//@end
//@fn crates/lang/src/nameres/address.rs Address::identifier_text
//@ret r
//@spec
    ensures r@ == (match *self { Address::Named(n) => n.name@, Address::Value(v) => v.numeric_address.value@ })
//@end
//@fn crates/lang/src/nameres/address.rs Address::equals_to
//@ret r
//@spec
    ensures r == meets(db, *self, *candidate_address, is_completion)
//@end
}
/// A01
pub open spec fn meets(db: &VxDb, a: Address, b: Address, completion: bool) -> bool {
    spelled(a, b) || (match (a.number_text(db), b.number_text(db)) { (Some(x), Some(y)) => x != seq!['_'] && y != seq!['_'] && canon(x) == canon(y), _ => false } && !(completion && a.is_named() && b.is_named()))
}
/// A01: hexadecimal addresses meet exactly when they are the same number; so do names that stand for them
proof fn theorem_meets(db: &VxDb, a: Address, b: Address, c: Address)
    ensures
        meets(db, a, a, false), meets(db, a, b, false) == meets(db, b, a, false), meets(db, a, b, true) ==> meets(db, a, b, false),
        (a.number_text(db) matches Some(x) && b.number_text(db) matches Some(y) && is_hex(x) && is_hex(y)) ==> (meets(db, a, b, false) <==> value(a.number_text(db)->0) == value(b.number_text(db)->0)),
        a.number_text(db) is None || a.number_text(db) == Some(seq!['_']) ==> (meets(db, a, b, false) <==> spelled(a, b)),
        meets(db, a, b, false) && meets(db, b, c, false) ==> meets(db, a, c, false),
{
    if a.number_text(db) is Some && b.number_text(db) is Some { let (x, y) = (a.number_text(db)->0, b.number_text(db)->0); if is_hex(x) && is_hex(y) { theorem_canon(x, y); } }
}
proof fn theorem_zero(v: Seq<char>)
    requires is_hex(v)
    ensures (canon(v) == seq!['0', 'x', '0']) == (value(v) == 0), (canon(v) == seq!['0', 'x', '1']) == (value(v) == 1)
{
    let (z, o) = (seq!['0', 'x', '0'], seq!['0', 'x', '1']);
    reveal_with_fuel(number, 3); reveal_with_fuel(trimmed, 3); 
    assert(z.skip(2) =~= seq!['0']); assert(o.skip(2) =~= seq!['1']);
    assert(z.skip(2).drop_last().len() == 0); assert(o.skip(2).drop_last().len() == 0);
    assert(value(z) == 0); assert(value(o) == 1);
    theorem_canon(v, z); theorem_canon(v, o);
    let d = lemma_canon_of(z); assert(d.len() > 0 ==> number(d) > 0) by { if d.len() > 0 { lemma_positive(d); } } assert(canon(z) =~= z);
    let e = lemma_canon_of(o); assert(number(seq!['1']) == 1) by { assert(seq!['1'].drop_last().len() == 0); } lemma_unique(e, seq!['1']); assert(canon(o) =~= o);
}

// ================= N01: the modules a path with an address can mean
#[verifier::external_body]
pub struct Module { }
#[verifier::external_body]
pub struct ScopeEntry { }
pub struct VxTree { pub f: FileId }
pub struct FileIdInput { pub f: FileId }
pub struct AddressInput { pub a: Address }
pub struct VxRootInput { pub p: PackageId }
pub struct VxRoot { pub file_set: VxFileSet }
pub struct VxFileSet { pub p: PackageId, pub files: Ghost<Seq<FileId>> }
pub uninterp spec fn modules_in(db: &VxDb, f: FileId) -> Seq<Module>;
/// the files of a package
pub uninterp spec fn files_in(db: &VxDb, p: PackageId) -> Seq<FileId>;
pub uninterp spec fn entries_of(m: Seq<Module>, f: FileId) -> Seq<ScopeEntry>;
impl FileId { pub fn intern(self, db: &VxDb) -> (r: FileIdInput) ensures r.f == self { FileIdInput { f: self } } }
impl AddressInput {
    pub fn new(db: &VxDb, a: Address) -> (r: AddressInput) ensures r.a == a { AddressInput { a } }
    #[verifier::external_body] pub fn data(&self, db: &VxDb) -> (r: Address) ensures r == self.a { unimplemented!() }
}
impl Address { #[verifier::external_body] pub fn clone(&self) -> (r: Address) ensures r == *self { unimplemented!() } }
impl VxDb { pub fn package_root(&self, p: PackageId) -> (r: VxRootInput) ensures r.p == p { VxRootInput { p } } }
impl VxRootInput { #[verifier::external_body] pub fn data(&self, db: &VxDb) -> (r: VxRoot) ensures r.file_set.files@ == files_in(db, self.p) { unimplemented!() } }
impl VxFileSet { #[verifier::external_body] pub fn vx_files(&self) -> (r: Vec<FileId>) ensures r@ == self.files@ { unimplemented!() } }
impl Module {
    pub uninterp spec fn at(&self) -> Option<Address>;
    #[verifier::external_body] pub fn address(&self) -> (r: Option<Address>) ensures r == self.at() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_modules(db: &VxDb, f: FileIdInput) -> (r: Vec<Module>) ensures r@ == modules_in(db, f.f) { unimplemented!() }
#[verifier::external_body]
pub fn vx_entries(m: Vec<Module>, f: FileId) -> (r: Vec<ScopeEntry>) ensures r@ == entries_of(m@, f) { unimplemented!() }
#[verifier::external_body]
pub fn vx_extend<T>(v: &mut Vec<T>, o: Vec<T>) ensures final(v)@ == old(v)@ + o@ { unimplemented!() }
/// `v.extend(s.iter().map(f))`
#[verifier::external_body]
pub fn vx_extend_map<T, U, F: Fn(&T) -> U>(v: &mut Vec<U>, s: &Vec<T>, f: F)
    requires forall|t: &T| call_requires(f, (t,))
    ensures final(v)@.len() == old(v)@.len() + s@.len(), forall|i: int| 0 <= i < old(v)@.len() ==> final(v)@[i] == old(v)@[i],
        forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&#[trigger] s@[i],), final(v)@[old(v)@.len() + i]) { unimplemented!() }
#[verifier::external_body]
pub fn vx_has(v: &Vec<PackageId>, x: &PackageId) -> (r: bool) ensures r == v@.contains(*x) { unimplemented!() }
//@rewrite source_db :: parse ( db , $$f ) . tree ( ) =>> vx_tree($f)
//@rewrite . file_set . iter ( ) . collect ( ) =>> .file_set.vx_files()
//@rewrite file_set . iter ( ) . collect ( ) =>> file_set.vx_files()
//@rewrite $m . to_entries ( $f ) =>> vx_entries($m, $f)
//@rewrite module_entries . extend ( $$a ) ; =>> vx_extend(&mut module_entries, $a);
//@rewrite $m . contains ( & of ) =>> vx_has(&$m, &of)
//@rewrite? tracing :: debug ! ( $$a ) =>> ()
//@rewrite Vec :: with_capacity ( $$a ) =>> Vec::new()

/// the package and what it depends on
pub open spec fn deps(db: &VxDb, p: PackageId) -> Seq<PackageId> {
    match db.meta(p) { None => seq![p], Some(m) => seq![p] + m.dep_manifest_ids@.map_values(|f: FileId| db.package_of(f)) }
}
pub open spec fn stands_at(db: &VxDb, m: Module, a: Address) -> bool { m.at() is Some && meets(db, m.at()->0, a, false) }
pub open spec fn matching(db: &VxDb, f: FileId, k: int, a: Address) -> Seq<Module> decreases k {
    if k <= 0 || k > modules_in(db, f).len() { seq![] } else { let m = modules_in(db, f)[k - 1]; if stands_at(db, m, a) { matching(db, f, k - 1, a).push(m) } else { matching(db, f, k - 1, a) } }
}
pub open spec fn all_matching(db: &VxDb, f: FileId, a: Address) -> Seq<Module> { matching(db, f, modules_in(db, f).len() as int, a) }
/// files among the first k of fs with such a module
pub open spec fn having(db: &VxDb, fs: Seq<FileId>, k: int, a: Address) -> Seq<FileId> decreases k {
    if k <= 0 || k > fs.len() { seq![] } else if all_matching(db, fs[k - 1], a).len() > 0 { having(db, fs, k - 1, a).push(fs[k - 1]) } else { having(db, fs, k - 1, a) }
}
pub open spec fn reached(db: &VxDb, ps: Seq<PackageId>, k: int, a: Address) -> Seq<FileId> decreases k {
    if k <= 0 || k > ps.len() { seq![] } else { reached(db, ps, k - 1, a) + having(db, files_in(db, ps[k - 1]), files_in(db, ps[k - 1]).len() as int, a) }
}
pub open spec fn candidates(db: &VxDb, p: PackageId, a: Address) -> Seq<FileId> { reached(db, deps(db, p), deps(db, p).len() as int, a) }
pub open spec fn entries(db: &VxDb, fs: Seq<FileId>, k: int, a: Address) -> Seq<ScopeEntry> decreases k {
    if k <= 0 || k > fs.len() { seq![] } else { entries(db, fs, k - 1, a) + entries_of(all_matching(db, fs[k - 1], a), fs[k - 1]) }
}
//@fn crates/lang/src/hir_db.rs source_file_ids_in_package
//@ret r

//@spec
    ensures r@ == files_in(db, package_id)
//@end
//@fn crates/lang/src/hir_db.rs transitive_dep_package_ids
//@ret r
//@rewrite? entries . extend ( $x . iter ( ) . map ( $$c ) , ) ; =>> vx_extend_map(&mut entries, &$x, $c);
//@rewrite? entries . extend ( $x . iter ( ) . map ( $$c ) ) ; =>> vx_extend_map(&mut entries, &$x, $c);
//@spec
    ensures r@ =~= deps(db, package_id)
//@closure 0
    |file_id: &FileId| -> (p: PackageId) ensures p == db.package_of(*file_id)
//@end
//@fn crates/lang/src/hir_db.rs get_modules_in_file
//@ret r
//@rewrite Vec < ast :: Module > =>> Vec<Module>
//@rewrite $$f . all_modules ( ) =>> $f
//@rewrite source_db :: parse ( db , $$f ) . tree ( ) =>> vx_modules(db, $f)
//@spec
    ensures r@ == all_matching(db, file_id, address)
//@loop 0 iter it
    invariant it.seq() == modules_in(db, file_id), module_candidates@ == matching(db, file_id, it.index@, address)
//@end
//@fn crates/lang/src/hir_db.rs file_ids_by_module_address_tracked
//@ret r
//@rewrite * source_file_id =>> source_file_id
//@spec
    ensures r@ == candidates(db, package_id, address.a)
//@loop 0 iter it
    invariant it.seq() == deps(db, package_id), files_with_modules@ == reached(db, deps(db, package_id), it.index@, address)
//@in loop 0 begin
    let ghost f0 = files_with_modules@; let ghost k = it.index@;
//@loop 1 iter jt
    invariant jt.seq() == files_in(db, dep_package_id), files_with_modules@ =~= f0 + having(db, jt.seq(), jt.index@, address), 
//@end
//@fn crates/lang/src/hir_db.rs file_ids_by_module_address
//@ret r
//@spec
    ensures r@ == candidates(db, package_id, address)
//@end
//@fn crates/lang/src/nameres/name_resolution.rs get_modules_as_entries
//@ret r
//@rewrite? let _p = $$a . entered ( ) ; =>>
//@spec
    ensures r@ == entries(db, candidates(db, package_id, address), candidates(db, package_id, address).len() as int, address)
//@loop 0 iter it
    invariant it.seq() == candidates(db, package_id, address), module_entries@ == entries(db, it.seq(), it.index@, address)
//@end
//@fn crates/lang/src/hir_db.rs reverse_transitive_dep_package_ids
//@ret r
//@spec
    ensures forall|p: PackageId| #[trigger] r@.contains(p) == (p == of || (db.packages().contains(p) && deps(db, p).contains(of)))
//@before? for
    proof { assert(rev_deps@[0] == of); assert(rev_deps@ =~= seq![of]); }
//@loop 0 iter it
    invariant it.seq() == db.packages(), forall|p: PackageId| #[trigger] rev_deps@.contains(p) == (p == of || exists|i: int| 0 <= i < it.index@ && #[trigger] it.seq()[i] == p && deps(db, p).contains(of))
//@in loop 0 begin
    let ghost r0 = rev_deps@; let ghost k = it.index@;
//@in loop 0 end
    proof { assert forall|p: PackageId| #[trigger] rev_deps@.contains(p) == (r0.contains(p) || (p == dep_id && deps(db, p).contains(of))) by {
        if rev_deps@.len() > r0.len() { assert(rev_deps@ == r0.push(dep_id)); assert(rev_deps@[r0.len() as int] == dep_id); if r0.contains(p) { let i = choose|i: int| 0 <= i < r0.len() && r0[i] == p; assert(rev_deps@[i] == p); } } } 
        assert(it.seq()[k] == dep_id); }
//@end
proof fn lemma_matching(db: &VxDb, f: FileId, k: int, a: Address)
    requires 0 <= k <= modules_in(db, f).len()
    ensures forall|m: Module| #[trigger] matching(db, f, k, a).contains(m) == (stands_at(db, m, a) && exists|i: int| 0 <= i < k && #[trigger] modules_in(db, f)[i] == m)
    decreases k
{
    if k > 0 {
        lemma_matching(db, f, k - 1, a); let l = matching(db, f, k - 1, a); let n = modules_in(db, f)[k - 1];
        assert forall|m: Module| #[trigger] matching(db, f, k, a).contains(m) == (stands_at(db, m, a) && exists|i: int| 0 <= i < k && #[trigger] modules_in(db, f)[i] == m) by {
            if stands_at(db, n, a) { assert(l.push(n)[l.len() as int] == n); if l.contains(m) { let i = choose|i: int| 0 <= i < l.len() && l[i] == m; assert(l.push(n)[i] == m); } }
        }
    }
}
proof fn lemma_having(db: &VxDb, fs: Seq<FileId>, k: int, a: Address)
    requires 0 <= k <= fs.len()
    ensures forall|f: FileId| #[trigger] having(db, fs, k, a).contains(f) == (all_matching(db, f, a).len() > 0 && exists|i: int| 0 <= i < k && #[trigger] fs[i] == f)
    decreases k
{
    if k > 0 {
        lemma_having(db, fs, k - 1, a); let l = having(db, fs, k - 1, a); let n = fs[k - 1];
        assert forall|f: FileId| #[trigger] having(db, fs, k, a).contains(f) == (all_matching(db, f, a).len() > 0 && exists|i: int| 0 <= i < k && #[trigger] fs[i] == f) by {
            if all_matching(db, n, a).len() > 0 { assert(l.push(n)[l.len() as int] == n); if l.contains(f) { let i = choose|i: int| 0 <= i < l.len() && l[i] == f; assert(l.push(n)[i] == f); } }
        }
    }
}
proof fn lemma_reached(db: &VxDb, ps: Seq<PackageId>, k: int, a: Address)
    requires 0 <= k <= ps.len()
    ensures forall|f: FileId| #[trigger] reached(db, ps, k, a).contains(f) == (all_matching(db, f, a).len() > 0 && exists|i: int| 0 <= i < k && files_in(db, #[trigger] ps[i]).contains(f))
    decreases k
{
    if k > 0 {
        lemma_reached(db, ps, k - 1, a); let l = reached(db, ps, k - 1, a); let fs = files_in(db, ps[k - 1]); lemma_having(db, fs, fs.len() as int, a); let h = having(db, fs, fs.len() as int, a);
        assert forall|f: FileId| #[trigger] reached(db, ps, k, a).contains(f) == (all_matching(db, f, a).len() > 0 && exists|i: int| 0 <= i < k && files_in(db, #[trigger] ps[i]).contains(f)) by {
            if l.contains(f) { let i = choose|i: int| 0 <= i < l.len() && l[i] == f; assert((l + h)[i] == f); }
            if h.contains(f) { let i = choose|i: int| 0 <= i < h.len() && h[i] == f; assert((l + h)[l.len() + i] == f); }
            if (l + h).contains(f) { let i = choose|i: int| 0 <= i < (l + h).len() && (l + h)[i] == f; if i < l.len() { assert(l[i] == f); } else { assert(h[i - l.len()] == f); } }
            if fs.contains(f) { let i = choose|i: int| 0 <= i < fs.len() && fs[i] == f; assert(fs[i] == f); }
            if exists|i: int| 0 <= i < fs.len() && #[trigger] fs[i] == f { assert(fs.contains(f)); }
        }
    }
}
/// N01: exactly the files of the package and of what it depends on in which a module stands at the address
proof fn theorem_candidates(db: &VxDb, p: PackageId, a: Address, f: FileId)
    ensures candidates(db, p, a).contains(f) <==> (exists|i: int| 0 <= i < deps(db, p).len() && files_in(db, #[trigger] deps(db, p)[i]).contains(f)) && (exists|m: Module| #[trigger] modules_in(db, f).contains(m) && stands_at(db, m, a))
{
    lemma_reached(db, deps(db, p), deps(db, p).len() as int, a); lemma_matching(db, f, modules_in(db, f).len() as int, a); let l = all_matching(db, f, a);
    if l.len() > 0 { assert(l.contains(l[0])); assert(modules_in(db, f).contains(l[0])); }
    if exists|m: Module| #[trigger] modules_in(db, f).contains(m) && stands_at(db, m, a) { let m = choose|m: Module| #[trigger] modules_in(db, f).contains(m) && stands_at(db, m, a); let i = choose|i: int| 0 <= i < modules_in(db, f).len() && modules_in(db, f)[i] == m; assert(modules_in(db, f)[i] == m); assert(l.contains(m)); }
}
}
