// ---- byte offsets of characters
/// byte offset of the k-th character
pub open spec fn bo(t: Seq<char>, k: int) -> int { vstd::utf8::encode_utf8(t.take(k)).len() as int }
pub open spec fn is_bo(t: Seq<char>, b: int) -> bool { exists|k: int| 0 <= k <= t.len() && #[trigger] bo(t, k) == b }
pub open spec fn width1(c: char) -> int { vstd::utf8::encode_scalar(c as u32).len() as int }
pub proof fn lemma_bo_zero(t: Seq<char>) ensures bo(t, 0) == 0 { assert(t.take(0) =~= Seq::<char>::empty()); assert(vstd::utf8::encode_utf8(Seq::<char>::empty()).len() == 0) by { reveal_with_fuel(vstd::utf8::encode_utf8, 2); } }
pub proof fn lemma_bo_step(t: Seq<char>, k: int)
    requires 0 <= k < t.len() ensures bo(t, k + 1) == bo(t, k) + width1(t[k]), 1 <= width1(t[k]) <= 4, (t[k] as u32) < 0x80 ==> width1(t[k]) == 1
{ assert(t.take(k + 1) =~= t.take(k).push(t[k])); vstd::utf8::encode_utf8_push(t.take(k), t[k]); }
pub proof fn lemma_bo(t: Seq<char>, j: int, k: int)
    requires 0 <= j <= k <= t.len()
    ensures 0 <= bo(t, j) <= bo(t, k) <= vstd::utf8::encode_utf8(t).len(), j < k ==> bo(t, j) < bo(t, k), k - j <= bo(t, k) - bo(t, j)
    decreases k
{
    if j < k { lemma_bo(t, j, k - 1); lemma_bo_step(t, k - 1); }
    vstd::utf8::encode_utf8_concat(t.take(k), t.skip(k)); assert(t.take(k) + t.skip(k) =~= t);
}
pub proof fn lemma_bo_ascii_from(t: Seq<char>, i: int, k: int)
    requires 0 <= i <= k <= t.len(), forall|j: int| i <= j < k ==> (#[trigger] t[j] as u32) < 0x80 ensures bo(t, k) == bo(t, i) + k - i decreases k
{ if i < k { lemma_bo_ascii_from(t, i, k - 1); lemma_bo_step(t, k - 1); } }
pub proof fn lemma_bo_ascii(t: Seq<char>, k: int)
    requires 0 <= k <= t.len(), forall|j: int| 0 <= j < k ==> (#[trigger] t[j] as u32) < 0x80 ensures bo(t, k) == k
{ lemma_bo_zero(t); lemma_bo_ascii_from(t, 0, k); }
pub proof fn lemma_bo_skip(t: Seq<char>, k: int, n: int)
    requires 0 <= k, 0 <= n, k + n <= t.len() ensures bo(t, k + n) == bo(t, k) + bo(t.skip(k), n), bo(t.skip(k), n) >= 0
{ vstd::utf8::encode_utf8_concat(t.take(k), t.skip(k).take(n)); assert(t.take(k) + t.skip(k).take(n) =~= t.take(k + n)); }

// ---- trusted: str
#[verifier::external_body]
pub fn vx_len(t: &str) -> (r: usize) ensures r == vstd::utf8::encode_utf8(t@).len() { t.len() }
#[verifier::external_body]
pub fn vx_str_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@), r == (a@.len() == b@.len() && forall|i: int| 0 <= i < b@.len() ==> a@[i] == b@[i]) { a == b }
#[verifier::external_body]
pub fn vx_sw(t: &str, p: &str) -> (r: bool) ensures r == (p@.len() <= t@.len() && forall|i: int| 0 <= i < p@.len() ==> t@[i] == p@[i]) { t.starts_with(p) }
#[verifier::external_body]
pub fn vx_from<'a>(t: &'a str, a: usize) -> (r: &'a str) requires is_bo(t@, a as int)
    ensures forall|k: int| 0 <= k <= t@.len() && #[trigger] bo(t@, k) == a ==> r@ == t@.skip(k) { &t[a..] }
#[verifier::external_body]
pub fn vx_to<'a>(t: &'a str, b: usize) -> (r: &'a str) requires is_bo(t@, b as int)
    ensures forall|k: int| 0 <= k <= t@.len() && #[trigger] bo(t@, k) == b ==> r@ == t@.take(k) { &t[..b] }
#[verifier::external_body]
pub fn vx_slice<'a>(t: &'a str, a: usize, b: usize) -> (r: &'a str) requires a <= b, is_bo(t@, a as int), is_bo(t@, b as int)
    ensures vstd::utf8::encode_utf8(r@).len() == b - a,
        forall|i: int, k: int| 0 <= i <= k <= t@.len() && #[trigger] bo(t@, i) == a && #[trigger] bo(t@, k) == b ==> r@ == t@.subrange(i, k) { &t[a..b] }
/// `str::chars`, optionally peekable
pub struct VxChars { pub t: Ghost<Seq<char>>, pub k: Ghost<int> }
#[verifier::external_body]
pub fn vx_chars(t: &str) -> (r: VxChars) ensures r.t@ == t@, r.k@ == 0 { unimplemented!() }
impl VxChars {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures final(self).t == old(self).t, 0 <= old(self).k@ < old(self).t@.len() ==> r == Some(old(self).t@[old(self).k@]) && final(self).k@ == old(self).k@ + 1,
            old(self).k@ == old(self).t@.len() ==> r is None && final(self).k == old(self).k { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<char>)
        ensures *final(self) == *old(self), 0 <= old(self).k@ < old(self).t@.len() ==> r == Some(old(self).t@[old(self).k@]), old(self).k@ == old(self).t@.len() ==> r is None { unimplemented!() }
}
