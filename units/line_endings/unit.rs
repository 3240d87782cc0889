#![feature(allocator_api)]
#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include ../common/prelude.rs
fn main() {}

// ================= specification, from the property statement
/// a CRLF pair starts at character i
pub open spec fn crlf_c(s: Seq<char>, i: int) -> bool { 0 <= i && i + 1 < s.len() && s[i] == '\r' && s[i + 1] == '\n' }
/// first n characters of s, with the CR of every CRLF pair of s dropped
pub open spec fn unix_text(s: Seq<char>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() }
    else if crlf_c(s, n - 1) { unix_text(s, n - 1) }
    else { unix_text(s, n - 1).push(s[n - 1]) }
}
pub open spec fn to_unix(s: Seq<char>) -> Seq<char> { unix_text(s, s.len() as int) }
/// every LF written as CRLF
pub open spec fn to_dos(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s.last() == '\n' { to_dos(s.drop_last()).push('\r').push('\n') }
    else { to_dos(s.drop_last()).push(s.last()) }
}
/// a file that consistently uses CRLF
pub open spec fn pure_crlf(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() && #[trigger] s[i] == '\n' ==> i > 0 && s[i - 1] == '\r' }
pub open spec fn has_crlf(s: Seq<char>) -> bool { exists|i: int| #[trigger] crlf_c(s, i) }

// ================= the same on bytes
pub open spec fn crlf_at(s: Seq<u8>, i: int) -> bool { 0 <= i && i + 1 < s.len() && s[i] == 13u8 && s[i+1] == 10u8 }
pub open spec fn d2u(s: Seq<u8>, n: int) -> Seq<u8> decreases n {
    if n <= 0 { Seq::empty() }
    else if crlf_at(s, n - 1) { d2u(s, n - 1) }
    else { d2u(s, n - 1).push(s[n - 1]) }
}
pub open spec fn has_crlf_b(s: Seq<u8>) -> bool { exists|i: int| #[trigger] crlf_at(s, i) }

proof fn lemma_copy_run(s: Seq<u8>, a: int, b: int)
  requires 0 <= a <= b <= s.len(), forall|j: int| a <= j < b ==> !crlf_at(s, j)
  ensures d2u(s, b) == d2u(s, a) + s.subrange(a, b)
  decreases b - a
{
  if a < b { lemma_copy_run(s, a, b - 1);
    assert(s.subrange(a, b) =~= s.subrange(a, b-1).push(s[b-1]));
    assert(d2u(s, b) =~= d2u(s, a) + s.subrange(a, b)); }
  else { assert(s.subrange(a, b) =~= Seq::<u8>::empty()); assert(d2u(s, b) =~= d2u(s, a) + s.subrange(a, b)); }
}

// ================= trusted: std and memchr
pub assume_specification [std::string::String::into_bytes] (_0: std::string::String) -> (r: std::vec::Vec<u8>)
  ensures r@ == encode_utf8(_0@), r@.len() <= isize::MAX;
pub assume_specification<T, A: std::alloc::Allocator> [std::vec::Vec::<T, A>::set_len] (_0: &mut std::vec::Vec<T, A>, _1: usize)
  requires _1 <= old(_0)@.len() ensures final(_0)@ == old(_0)@.take(_1 as int);
pub assume_specification [std::string::String::from_utf8_unchecked] (_0: std::vec::Vec<u8>) -> (r: std::string::String)
  requires valid_utf8(_0@) ensures encode_utf8(r@) == _0@;

pub mod memmem { use super::*;
  pub struct Finder { pub pat: Ghost<Seq<u8>> }
  impl Finder {
    #[verifier::external_body]
    pub fn new(p: &[u8]) -> (r: Finder) ensures r.pat@ == p@ { unimplemented!() }
    #[verifier::external_body]
    pub fn find(&self, h: &[u8]) -> (r: Option<usize>)
      ensures match r {
        Some(i) => i + self.pat@.len() <= h@.len() && h@.subrange(i as int, i + self.pat@.len()) == self.pat@
            && (forall|j: int| 0 <= j < i ==> #[trigger] h@.subrange(j, j + self.pat@.len()) != self.pat@),
        None => forall|j: int| 0 <= j && j + self.pat@.len() <= h@.len() ==> #[trigger] h@.subrange(j, j + self.pat@.len()) != self.pat@ }
    { unimplemented!() }
  }
}

pub open spec fn crlf_pat(pat: Seq<u8>) -> bool { pat.len() == 2 && pat[0] == 13u8 && pat[1] == 10u8 }

/// a search for CRLF in the unprocessed part of the buffer, phrased on the source
proof fn lemma_find(s: Seq<u8>, c: int, h: Seq<u8>, pat: Seq<u8>)
  requires crlf_pat(pat), 0 <= c <= s.len(), h == s.skip(c)
  ensures forall|j: int| 0 <= j && j + 2 <= h.len() ==> ((#[trigger] h.subrange(j, j + 2) == pat) <==> crlf_at(s, c + j)),
    (c == 0 && forall|j: int| 0 <= j && j + 2 <= h.len() ==> #[trigger] h.subrange(j, j + 2) != pat)
      ==> d2u(s, s.len() as int) == s && !has_crlf_b(s),
{
  assert forall|j: int| 0 <= j && j + 2 <= h.len() implies ((#[trigger] h.subrange(j, j + 2) == pat) <==> crlf_at(s, c + j)) by {
    if crlf_at(s, c + j) { assert(h.subrange(j, j+2) =~= pat); }
    else if h.subrange(j,j+2) == pat { assert(h.subrange(j,j+2)[0] == h[j]); assert(h.subrange(j,j+2)[1] == h[j+1]); }
  }
  if c == 0 && forall|j: int| 0 <= j && j + 2 <= h.len() ==> #[trigger] h.subrange(j, j + 2) != pat {
    assert forall|j: int| !crlf_at(s, j) by {
      if crlf_at(s, j) { assert((h.subrange(j, j + 2) == pat) <==> crlf_at(s, c + j)); }
    }
    lemma_copy_run(s, 0, s.len() as int);
    assert(s.subrange(0, s.len() as int) =~= s);
    assert(d2u(s, 0) + s =~= s);
  }
}

proof fn lemma_inj(a: Seq<char>, b: Seq<char>)
  ensures encode_utf8(a) == encode_utf8(b) ==> a == b
{ encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(b); }

/// one iteration of the compaction
proof fn lemma_step(s: Seq<u8>, t0: Seq<u8>, t1: Seq<u8>, gap: int, idx: int, rest: Seq<u8>)
  requires 0 <= gap <= idx <= t0.len() <= s.len(), t1.len() == t0.len(),
    t0.skip(gap) == s.skip(s.len() - t0.len() + gap),
    forall|i: int| 0 <= i < t1.len() ==> t1[i] == (if i < idx - gap { t0[i + gap] } else { t0[i] }),
    forall|j: int| s.len() - t0.len() + gap <= j < s.len() - t0.len() + idx ==> !crlf_at(s, j),
  ensures ({ let c = s.len() - t0.len() + gap; let c1 = s.len() - t0.len() + idx;
    &&& d2u(s, c1) == d2u(s, c) + t1.take(idx - gap)
    &&& t1.skip(idx - gap).skip(gap) == s.skip(c1)
    &&& crlf_at(s, c1) ==> d2u(s, c1 + 1) == d2u(s, c1)
    &&& idx < t0.len() ==> t1.skip(idx - gap).skip(gap + 1) == s.skip(c1 + 1)
    &&& d2u(s, c) + (t1.take(idx - gap) + rest) == d2u(s, c1) + rest })
{
  let c = s.len() - t0.len() + gap; let c1 = s.len() - t0.len() + idx;
  lemma_copy_run(s, c, c1);
  assert forall|i: int| gap <= i < t0.len() implies t0[i] == s[s.len() - t0.len() + i] by {
    assert(t0.skip(gap)[i - gap] == s.skip(c)[i - gap]);
  }
  assert(t1.take(idx - gap) =~= s.subrange(c, c1));
  assert(t1.skip(idx - gap).skip(gap) =~= s.skip(c1));
  if idx < t0.len() { assert(t1.skip(idx - gap).skip(gap + 1) =~= s.skip(c1 + 1)); }
  assert(d2u(s, c) + (t1.take(idx - gap) + rest) =~= d2u(s, c1) + rest);
}

/// the bytes of a character: CR and LF only come from the characters CR and LF
proof fn lemma_scalar(c: char)
  ensures
    c == '\r' ==> encode_scalar(c as u32) == seq![13u8],
    c == '\n' ==> encode_scalar(c as u32) == seq![10u8],
    encode_scalar(c as u32).len() >= 1,
    forall|i: int| 0 <= i < encode_scalar(c as u32).len() && c != '\r' ==> #[trigger] encode_scalar(c as u32)[i] != 13u8,
    forall|i: int| 0 <= i < encode_scalar(c as u32).len() && c != '\n' ==> #[trigger] encode_scalar(c as u32)[i] != 10u8,
{
  let s = c as u32;
  assert(s <= 0x7f ==> (s & 0x7f) as u8 == s as u8 && (s as u8 == 13u8 <==> s == 13) && (s as u8 == 10u8 <==> s == 10)) by (bit_vector);
  assert(((0xC0u8) | (((s >> 6) & 0x1f) as u8)) >= 0x80u8) by (bit_vector);
  assert(((0xE0u8) | (((s >> 12) & 0x0f) as u8)) >= 0x80u8) by (bit_vector);
  assert(((0xF0u8) | (((s >> 18) & 0x07) as u8)) >= 0x80u8) by (bit_vector);
  assert(((0x80u8) | ((s & 0x3f) as u8)) >= 0x80u8) by (bit_vector);
  assert(((0x80u8) | (((s >> 6) & 0x3f) as u8)) >= 0x80u8) by (bit_vector);
  assert(((0x80u8) | (((s >> 12) & 0x3f) as u8)) >= 0x80u8) by (bit_vector);
  if s <= 0x7f { assert(encode_scalar(s).len() == 1); assert(encode_scalar(s)[0] == leading_byte_width_1(s)); 
     assert(leading_byte_width_1(s) == s as u8);
     if s == 13 { assert(encode_scalar(s) =~= seq![13u8]);  }
  } else {
     assert(forall|i: int| 0 <= i < encode_scalar(c as u32).len() ==> #[trigger] encode_scalar(c as u32)[i] >= 0x80u8);
  }
}

pub open spec fn off(cs: Seq<char>, k: int) -> int { encode_utf8(cs.take(k)).len() as int }

/// layout of the bytes of character k
proof fn lemma_layout(cs: Seq<char>, k: int)
  requires 0 <= k < cs.len()
  ensures
    off(cs, k + 1) == off(cs, k) + encode_scalar(cs[k] as u32).len(),
    off(cs, k + 1) <= encode_utf8(cs).len(),
    forall|i: int| 0 <= i < encode_scalar(cs[k] as u32).len() ==> encode_utf8(cs)[off(cs, k) + i] == #[trigger] encode_scalar(cs[k] as u32)[i],
    k + 1 == cs.len() ==> off(cs, k + 1) == encode_utf8(cs).len(),
{
  encode_utf8_push(cs.take(k), cs[k]);
  assert(cs.take(k).push(cs[k]) =~= cs.take(k + 1));
  encode_utf8_concat(cs.take(k + 1), cs.skip(k + 1));
  assert(cs.take(k + 1) + cs.skip(k + 1) =~= cs);
  if k + 1 == cs.len() { assert(cs.take(k + 1) =~= cs); }
}

proof fn lemma_prefix(cs: Seq<char>, k: int)
  requires 0 <= k <= cs.len()
  ensures d2u(encode_utf8(cs), off(cs, k)) == encode_utf8(unix_text(cs, k)),
    (exists|i: int| 0 <= i < off(cs, k) && #[trigger] crlf_at(encode_utf8(cs), i)) <==> (exists|i: int| 0 <= i < k && #[trigger] crlf_c(cs, i)),
  decreases k
{
  let b = encode_utf8(cs);
  if k == 0 {
    assert(cs.take(0) =~= Seq::<char>::empty());
    assert(off(cs, 0) == 0);
    assert(unix_text(cs, 0) =~= Seq::<char>::empty());
    assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
  } else {
    let j = k - 1;
    lemma_prefix(cs, j);
    lemma_layout(cs, j);
    if j > 0 { lemma_layout(cs, j - 1); } else { assert(cs.take(0) =~= Seq::<char>::empty()); }
    let c = cs[j];
    let e = encode_scalar(c as u32);
    let o = off(cs, j);
    lemma_scalar(c);
    encode_utf8_push(unix_text(cs, j), c);
    if k < cs.len() { lemma_layout(cs, k); lemma_scalar(cs[k]); assert(b[off(cs, k)] == encode_scalar(cs[k] as u32)[0]); }
    // every byte of the character is the start of a CRLF iff the character is
    if c == '\r' {
      assert(b[o] == e[0]);
      assert(crlf_at(b, o) <==> crlf_c(cs, j));
    } else {
      assert forall|i: int| o <= i < off(cs, k) implies !crlf_at(b, i) by { assert(b[o + (i - o)] == e[i - o]); }
    }
    if crlf_c(cs, j) {
      assert(d2u(b, off(cs, k)) == d2u(b, o));
      assert(crlf_at(b, o));
    } else {
      assert forall|i: int| o <= i < off(cs, k) implies !crlf_at(b, i) by { }
      lemma_copy_run(b, o, off(cs, k));
      assert(b.subrange(o, off(cs, k)) =~= e) by {
        assert forall|i: int| 0 <= i < e.len() implies #[trigger] b.subrange(o, off(cs, k))[i] == e[i] by { assert(b[o + i] == e[i]); }
      }
      assert(unix_text(cs, k) == unix_text(cs, j).push(c));
      assert forall|i: int| 0 <= i < off(cs, k) && crlf_at(b, i) implies i < o by { }
    }
  }
}

proof fn lemma_chars(cs: Seq<char>)
  ensures d2u(encode_utf8(cs), encode_utf8(cs).len() as int) == encode_utf8(to_unix(cs)),
    has_crlf_b(encode_utf8(cs)) <==> has_crlf(cs),
    valid_utf8(encode_utf8(to_unix(cs))),
    forall|x: Seq<char>| #[trigger] encode_utf8(x) == encode_utf8(to_unix(cs)) ==> x == to_unix(cs),
{
  lemma_prefix(cs, cs.len() as int);
  assert(cs.take(cs.len() as int) =~= cs);
  encode_utf8_valid_utf8(to_unix(cs));
  assert forall|x: Seq<char>| #[trigger] encode_utf8(x) == encode_utf8(to_unix(cs)) implies x == to_unix(cs) by { lemma_inj(x, to_unix(cs)); }
  let b = encode_utf8(cs);
  if has_crlf_b(b) { let i = choose|i: int| #[trigger] crlf_at(b, i); assert(0 <= i < off(cs, cs.len() as int)); }
  if has_crlf(cs) { let i = choose|i: int| #[trigger] crlf_c(cs, i); assert(0 <= i < cs.len()); }
}

/// what `str::replace(char, &str)` returns
pub open spec fn replaced(s: Seq<char>, c: char, to: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s.last() == c { replaced(s.drop_last(), c, to) + to }
    else { replaced(s.drop_last(), c, to).push(s.last()) }
}
#[verifier::external_body]
pub fn vx_replace(s: &str, c: char, to: &str) -> (r: String) ensures r@ == replaced(s@, c, to@) { s.replace(c, to) }

proof fn lemma_replaced(s: Seq<char>) ensures replaced(s, '\n', seq!['\r', '\n']) == to_dos(s) decreases s.len()
{
  if s.len() > 0 { lemma_replaced(s.drop_last());
    assert(to_dos(s.drop_last()) + seq!['\r', '\n'] =~= to_dos(s.drop_last()).push('\r').push('\n')); }
}

// ================= the round trips, over the two contracts
proof fn lemma_unix_ext(a: Seq<char>, b: Seq<char>, n: int)
  requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i <= n && i < a.len() ==> i < b.len() && a[i] == b[i],
    n == a.len() && n < b.len() && n > 0 ==> !(a[n - 1] == '\r' && b[n] == '\n'),
  ensures unix_text(a, n) == unix_text(b, n)
  decreases n
{ if n > 0 {
    assert(a[n - 1] == b[n - 1]);
    lemma_unix_ext2(a, b, n - 1);
  } }
proof fn lemma_unix_ext2(a: Seq<char>, b: Seq<char>, n: int)
  requires 0 <= n < a.len(), n < b.len(), forall|i: int| 0 <= i <= n ==> a[i] == b[i],
  ensures unix_text(a, n) == unix_text(b, n)
  decreases n
{ if n > 0 { lemma_unix_ext2(a, b, n - 1); } }

/// reading back what was written for a CRLF file gives the text
proof fn theorem_write_then_read(t: Seq<char>) ensures to_unix(to_dos(t)) == t decreases t.len()
{
  let d = to_dos(t);
  if t.len() > 0 {
    let p = t.drop_last(); let dp = to_dos(p);
    theorem_write_then_read(p);
    lemma_dos_last(p);
    // the prefix of d of length |dp| reads the same as dp: d[|dp|] is LF only if a CR sits before it
    if t.last() == '\n' {
      assert(d =~= dp.push('\r').push('\n'));
      lemma_unix_ext(dp, d, dp.len() as int);
      assert(!crlf_c(d, dp.len() as int + 1));
      assert(crlf_c(d, dp.len() as int));
      assert(unix_text(d, dp.len() as int + 1) == unix_text(dp, dp.len() as int));
      assert(to_unix(d) =~= p.push('\n'));
    } else {
      assert(d =~= dp.push(t.last()));
      lemma_unix_ext(dp, d, dp.len() as int);
      assert(to_unix(d) =~= p.push(t.last()));
    }
    assert(t =~= p.push(t.last()));
  }
}
proof fn lemma_dos_last(t: Seq<char>) ensures t.len() > 0 ==> to_dos(t).len() > 0 && to_dos(t).last() == t.last(), t.len() == 0 ==> to_dos(t).len() == 0 {}

/// writing back an unmodified file that consistently uses CRLF reproduces it
proof fn theorem_read_then_write(s: Seq<char>) requires pure_crlf(s) ensures to_dos(to_unix(s)) == s
{ lemma_rw(s, s.len() as int); assert(s.take(s.len() as int) =~= s); }
proof fn lemma_rw(s: Seq<char>, n: int)
  requires pure_crlf(s), 0 <= n <= s.len(), !(n > 0 && crlf_c(s, n - 1)),
  ensures to_dos(unix_text(s, n)) == s.take(n)
  decreases n
{
  if n == 0 { assert(s.take(0) =~= Seq::<char>::empty()); }
  else if s[n - 1] == '\n' {
    assert(s[n - 2] == '\r'); assert(crlf_c(s, n - 2)); assert(!crlf_c(s, n - 1));
    assert(unix_text(s, n - 1) == unix_text(s, n - 2));
    assert(unix_text(s, n) == unix_text(s, n - 2).push('\n'));
    if n - 2 > 0 && crlf_c(s, n - 3) { assert(false); }
    lemma_rw(s, n - 2);
    assert(unix_text(s, n).drop_last() =~= unix_text(s, n - 2));
    assert(s.take(n) =~= s.take(n - 2).push('\r').push('\n'));
  } else {
    assert(unix_text(s, n) == unix_text(s, n - 1).push(s[n - 1]));
    if n - 1 > 0 && crlf_c(s, n - 2) { assert(false); }
    lemma_rw(s, n - 1);
    assert(unix_text(s, n).drop_last() =~= unix_text(s, n - 1));
    assert(s.take(n) =~= s.take(n - 1).push(s[n - 1]));
  }
}

//@item crates/stdext/src/line_endings.rs LineEndings derive(Clone, Copy, PartialEq, Eq, Structural)
impl LineEndings {
//@fn crates/stdext/src/line_endings.rs LineEndings::normalize
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@ret res
//@spec
  ensures
    res.0@ == to_unix(src@),
    res.1 == (if has_crlf(src@) { LineEndings::Dos } else { LineEndings::Unix }),
//@in fn begin
  hide(d2u); hide(encode_utf8); hide(valid_utf8); hide(unix_text);
//@after let mut buf
  let ghost s = buf@;
  proof { lemma_chars(src@); reveal_with_fuel(d2u, 1); assert(d2u(s, 0) =~= Seq::<u8>::empty()); }
//@loop 0
  invariant_except_break
    tail@.len() <= s.len(), gap_len <= tail@.len(),
    d2u(s, s.len() - tail@.len() + gap_len).len() == s.len() - tail@.len(),
    tail@.skip(gap_len as int) =~= s.skip(s.len() - tail@.len() + gap_len),
    after_borrow(buf)@ =~= d2u(s, s.len() - tail@.len() + gap_len) + final(tail)@,
    !crlf_seen ==> gap_len == 0 && tail@ == s,
  invariant
    crlf_seen ==> has_crlf_b(s),
  ensures
    gap_len <= s.len(),
    after_borrow(buf)@.len() == s.len(),
    after_borrow(buf)@.take(s.len() - gap_len) =~= d2u(s, s.len() as int),
    crlf_seen,
  decreases tail@.len() - gap_len
//@in loop 0 begin
  let ghost c = s.len() - tail@.len() + gap_len;
  let ghost t0 = tail@;
  proof { lemma_find(s, c, tail@.skip(gap_len as int), finder.pat@); }
//@after @loop 0
  proof { assert(buf@.len() == s.len()); assert(buf@.take(s.len() - gap_len) == encode_utf8(to_unix(src@))); }
//@after let idx
  proof {
    if crlf_seen && idx < t0.len() { assert(crlf_at(s, s.len() - t0.len() + idx)); }
    assert forall|j: int| c <= j < s.len() - t0.len() + idx implies !crlf_at(s, j) by {
      let h = t0.skip(gap_len as int);
      if j - c + 2 <= h.len() { assert((h.subrange(j - c, j - c + 2) == finder.pat@) <==> crlf_at(s, c + (j - c))); }
    }
  }
//@after tail . copy_within
  let ghost t1 = tail@;
//@before if tail . len ( ) == gap_len
  proof {
    lemma_step(s, t0, t1, gap_len as int, idx as int, final(tail)@);
    assert(t1.skip(idx - gap_len) == tail@);
  }
//@end
//@fn crates/stdext/src/line_endings.rs LineEndings::map
//@ret res
//@spec
  ensures
    *self == LineEndings::Unix ==> res@ == text@,
    *self == LineEndings::Dos ==> res@ == to_dos(text@),
//@in fn begin
  proof { lemma_replaced(text@); reveal_strlit("\r\n"); assert("\r\n"@ =~= seq!['\r', '\n']); }
//@rewrite? $a . replace ( $b , $c ) =>> vx_replace(&$a, $b, $c)
//@end
}
}
