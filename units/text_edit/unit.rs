#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::multiset::*;
verus! {
//@include ../common/prelude.rs
//@include ../common/text.rs
fn main() {}
pub fn max(a: TextSize, b: TextSize) -> (r: TextSize) ensures r.raw == (if a.raw >= b.raw { a.raw } else { b.raw }) { a.max(b) }

// ================= specification
/// what a change means: bytes s..e become `new`
pub struct Ch { pub s: int, pub e: int, pub new: Seq<char> }
impl Ch {
    pub open spec fn bytes(self) -> Seq<u8> { encode_utf8(self.new) }
    pub open spec fn is_insert(self) -> bool { self.s == self.e }
    pub open spec fn wf(self) -> bool { 0 <= self.s <= self.e <= u32::MAX }
}
pub open spec fn ch(c: TextChange) -> Ch { Ch { s: c.range.start.raw as int, e: c.range.end.raw as int, new: c.new_text@ } }
pub open spec fn chs(v: Seq<TextChange>) -> Seq<Ch> { v.map_values(|c: TextChange| ch(c)) }
pub open spec fn chr(v: Seq<&TextChange>) -> Seq<Ch> { v.map_values(|c: &TextChange| ch(*c)) }
/// all ranges are ranges
pub open spec fn ranges(v: Seq<Ch>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).wf() }
/// sorted, and no two overlap
pub open spec fn disjoint(v: Seq<Ch>) -> bool {
    ranges(v) && forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).e <= (#[trigger] v[j]).s
}
/// two changes that can both be made
pub open spec fn compatible(a: Ch, b: Ch) -> bool { a == b || a.e <= b.s || b.e <= a.s }
pub open spec fn all_compatible(v: Seq<Ch>) -> bool { forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() ==> compatible(#[trigger] v[i], #[trigger] v[j]) }
pub open spec fn cross_compatible(v: Seq<Ch>, w: Seq<Ch>) -> bool { forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < w.len() ==> compatible(#[trigger] v[i], #[trigger] w[j]) }
/// the text from byte `from` on after making changes k.. of v: every listed range replaced, everything between kept
pub open spec fn edited(t: Seq<u8>, v: Seq<Ch>, k: int, from: int) -> Seq<u8> decreases v.len() - k {
    if k >= v.len() { t.skip(from) }
    else { t.subrange(from, v[k].s) + v[k].bytes() + edited(t, v, k + 1, v[k].e) }
}
pub open spec fn apply_all(t: Seq<u8>, v: Seq<Ch>) -> Seq<u8> { edited(t, v, 0, 0) }
/// the changes fit the text
pub open spec fn fits(t: Seq<u8>, v: Seq<Ch>) -> bool {
    disjoint(v) && forall|i: int| 0 <= i < v.len() ==> boundary(t, (#[trigger] v[i]).s) && boundary(t, v[i].e)
}
pub open spec fn added(v: Seq<Ch>, n: int) -> int decreases n { if n <= 0 { 0 } else { added(v, n - 1) + v[n - 1].bytes().len() } }
pub open spec fn removed(v: Seq<Ch>, n: int) -> int decreases n { if n <= 0 { 0 } else { removed(v, n - 1) + v[n - 1].e - v[n - 1].s } }

proof fn lemma_removed(v: Seq<Ch>, n: int)
    requires disjoint(v), 0 <= n <= v.len()
    ensures 0 <= removed(v, n) <= (if n == 0 { 0 } else { v[n - 1].e })
    decreases n
{ if n > 0 { lemma_removed(v, n - 1); } }
proof fn lemma_added(v: Seq<Ch>, n: int, m: int)
    requires 0 <= n <= m <= v.len() ensures 0 <= added(v, n) <= added(v, m) decreases m
{ if n < m { lemma_added(v, n, m - 1); } else if m > 0 { lemma_added(v, n - 1, m - 1); } }
proof fn lemma_edited_len(t: Seq<u8>, v: Seq<Ch>, k: int, from: int)
    requires disjoint(v), 0 <= k <= v.len(), 0 <= from <= t.len(), k < v.len() ==> from <= v[k].s, forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).e <= t.len()
    ensures edited(t, v, k, from).len() == t.len() - from + added(v, v.len() as int) - added(v, k) - removed(v, v.len() as int) + removed(v, k)
    decreases v.len() - k
{ if k < v.len() { lemma_edited_len(t, v, k + 1, v[k].e); } }
proof fn lemma_splice(t: Seq<u8>, v: Seq<Ch>, k: int, cur: Seq<u8>, next: Seq<u8>)
    requires 0 <= k < v.len(), fits(t, v), v[k].e <= t.len(),
        cur == t.take(v[k].e) + edited(t, v, k + 1, v[k].e),
        next == cur.take(v[k].s) + v[k].bytes() + cur.skip(v[k].e),
    ensures next == t.take(if k == 0 { 0 } else { v[k - 1].e }) + edited(t, v, k, if k == 0 { 0 } else { v[k - 1].e })
{
    let from = if k == 0 { 0 } else { v[k - 1].e };
    assert(cur.skip(v[k].e) =~= edited(t, v, k + 1, v[k].e));
    assert(cur.take(v[k].s) =~= t.take(from) + t.subrange(from, v[k].s));
    assert(next =~= t.take(from) + edited(t, v, k, from));
}

/// order in which changes are listed
pub open spec fn key_le(a: Ch, b: Ch) -> bool { a.s < b.s || (a.s == b.s && a.e <= b.e) }
pub open spec fn same_place(a: Ch, b: Ch) -> bool { a.s == b.s && a.e == b.e }
pub open spec fn at(c: Ch) -> spec_fn(Ch) -> bool { |d: Ch| same_place(c, d) }
pub open spec fn sorted(v: Seq<Ch>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> key_le(#[trigger] v[i], #[trigger] v[j]) }
/// v in the listed order, changes at the same place in the order they were made
pub open spec fn stable_sorted(v: Seq<Ch>, w: Seq<Ch>) -> bool {
    sorted(w) && w.to_multiset() == v.to_multiset()
    && forall|c: Ch| #[trigger] w.filter(at(c)) == v.filter(at(c))
}
pub open spec fn chained(a: Ch, b: Ch) -> bool { a.e <= b.s || a == b }
pub open spec fn adjacent_ok(v: Seq<Ch>) -> bool { forall|i: int| 0 <= i && i + 1 < v.len() ==> chained(#[trigger] v[i], v[i + 1]) }
/// the same replacement or deletion listed twice is one change; insertions all count
pub open spec fn same_change(a: Ch, b: Ch) -> bool { a == b && !a.is_insert() }
pub open spec fn dedup(v: Seq<Ch>, eq: spec_fn(Ch, Ch) -> bool) -> Seq<Ch> decreases v.len() {
    if v.len() <= 1 { v }
    else { let d = dedup(v.drop_last(), eq); if eq(d.last(), v.last()) { d } else { d.push(v.last()) } }
}
pub open spec fn eq_change() -> spec_fn(Ch, Ch) -> bool { |a: Ch, b: Ch| same_change(a, b) }
/// neighbouring changes that touch, joined
pub open spec fn join(a: Ch, b: Ch) -> Option<Ch> { if a.e == b.s { Some(Ch { s: a.s, e: b.e, new: a.new + b.new }) } else { None } }
pub open spec fn coalesce(v: Seq<Ch>, g: spec_fn(Ch, Ch) -> Option<Ch>) -> Seq<Ch> decreases v.len() {
    if v.len() <= 1 { v }
    else { let d = coalesce(v.drop_last(), g);
        match g(d.last(), v.last()) { Some(x) => d.drop_last().push(x), None => d.push(v.last()) } }
}
pub open spec fn joiner() -> spec_fn(Ch, Ch) -> Option<Ch> { |a: Ch, b: Ch| join(a, b) }

proof fn lemma_adjacent(v: Seq<Ch>)
    requires sorted(v), all_compatible(v), ranges(v) ensures adjacent_ok(v)
{ assert forall|i: int| 0 <= i && i + 1 < v.len() implies chained(#[trigger] v[i], v[i + 1]) by {
    assert(compatible(v[i], v[i + 1])); assert(key_le(v[i], v[i + 1])); assert(v[i].wf() && v[i + 1].wf()); } }
proof fn lemma_dedup(v: Seq<Ch>)
    requires adjacent_ok(v), ranges(v)
    ensures ({ let d = dedup(v, eq_change()); disjoint(d) && (v.len() > 0 ==> d.len() > 0 && d.last() == v.last()) && d.len() <= v.len()
        && (forall|c: Ch| v.contains(c) <==> d.contains(c)) })
    decreases v.len()
{
    if v.len() > 1 {
        let p = v.drop_last(); let d0 = dedup(p, eq_change()); let d = dedup(v, eq_change());
        assert forall|i: int| 0 <= i && i + 1 < p.len() implies chained(#[trigger] p[i], p[i + 1]) by { assert(chained(v[i], v[i + 1])); }
        assert(ranges(p)) by { assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).wf() by { assert(v[i].wf()); } }
        lemma_dedup(p);
        assert(p.last() == v[v.len() - 2]); assert(chained(v[v.len() - 2], v[v.len() - 1]));
        assert(v.last().wf()); assert(p.last().wf());
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).e <= (#[trigger] d[j]).s by {
            if j < d0.len() { assert(d0[i].e <= d0[j].s); } else { assert(d[j] == v.last()); if i < d0.len() - 1 { assert(d0[i].e <= d0.last().s); } 
               assert(d0.last().wf()); }
        }
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).wf() by { if i < d0.len() { assert(d0[i].wf()); } }
        assert forall|c: Ch| v.contains(c) <==> d.contains(c) by {
            if v.contains(c) { let i = choose|i: int| 0 <= i < v.len() && v[i] == c; if i < p.len() { assert(p[i] == c); assert(d0.contains(c)); let j = choose|j: int| 0 <= j < d0.len() && d0[j] == c; assert(d[j] == c); } else { assert(d[d.len() - 1] == c); } }
            if d.contains(c) { let i = choose|i: int| 0 <= i < d.len() && d[i] == c; if i < d0.len() { assert(d0[i] == c); assert(p.contains(c)); let j = choose|j: int| 0 <= j < p.len() && p[j] == c; assert(v[j] == c); } else { assert(v[v.len() - 1] == c); } }
        }
    } else {
        assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).e <= (#[trigger] v[j]).s by {}
    }
}
/// joining neighbours changes neither the listed order nor the effect
proof fn lemma_coalesce(v: Seq<Ch>)
    requires disjoint(v)
    ensures ({ let c = coalesce(v, joiner());
        disjoint(c) && c.len() <= v.len() && (v.len() > 0 ==> c.len() > 0 && c.last().e == v.last().e && c.last().s <= v.last().s && c[0].s == v[0].s) })
    decreases v.len()
{
    if v.len() > 1 {
        let p = v.drop_last(); let c0 = coalesce(p, joiner()); let c = coalesce(v, joiner());
        assert(disjoint(p)) by {
            assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).wf() by { assert(v[i].wf()); }
            assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).e <= (#[trigger] p[j]).s by { assert(v[i].e <= v[j].s); } }
        lemma_coalesce(p);
        assert(v[v.len() - 2].e <= v[v.len() - 1].s); assert(p.last() == v[v.len() - 2]); assert(v.last().wf());
        assert(c0.last().wf());
        assert forall|i: int, j: int| 0 <= i < j < c.len() implies (#[trigger] c[i]).e <= (#[trigger] c[j]).s by {
            if i < c0.len() - 1 && j < c0.len() { assert(c0[i].e <= c0[j].s); }
            if i < c0.len() - 1 && j == c0.len() { assert(c0[i].e <= c0.last().s); }
        }
        assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).wf() by { if i < c0.len() { assert(c0[i].wf()); } }
    }
}
/// edited(.., k ..) only looks at the tail
proof fn lemma_edited_ext(t: Seq<u8>, v: Seq<Ch>, w: Seq<Ch>, k: int, from: int)
    requires v =~= w ensures edited(t, v, k, from) == edited(t, w, k, from) {}
/// effect of the first changes, up to the end of the last one
pub open spec fn head(t: Seq<u8>, v: Seq<Ch>, n: int) -> Seq<u8> decreases n {
    if n <= 0 { Seq::empty() } else { head(t, v, n - 1) + t.subrange(if n == 1 { 0 } else { v[n - 2].e }, v[n - 1].s) + v[n - 1].bytes() }
}
pub open spec fn end_of(v: Seq<Ch>, n: int) -> int { if n <= 0 { 0 } else { v[n - 1].e } }
proof fn lemma_head(t: Seq<u8>, v: Seq<Ch>, n: int)
    requires 0 <= n <= v.len() ensures apply_all(t, v) == head(t, v, n) + edited(t, v, n, end_of(v, n)) decreases n
{
    if n > 0 { lemma_head(t, v, n - 1);
      assert(apply_all(t, v) =~= head(t, v, n) + edited(t, v, n, end_of(v, n)));
    } else { assert(apply_all(t, v) =~= head(t, v, n) + edited(t, v, n, end_of(v, n))); }
}
proof fn lemma_head_prefix(t: Seq<u8>, v: Seq<Ch>, w: Seq<Ch>, n: int)
    requires 0 <= n <= v.len(), n <= w.len(), forall|i: int| 0 <= i < n ==> v[i] == w[i]
    ensures head(t, v, n) == head(t, w, n) decreases n
{ if n > 0 { lemma_head_prefix(t, v, w, n - 1); } }
proof fn lemma_coalesce_effect(t: Seq<u8>, v: Seq<Ch>)
    requires disjoint(v), v.len() > 0 ==> v.last().e <= t.len()
    ensures apply_all(t, coalesce(v, joiner())) == apply_all(t, v)
{
    lemma_coalesce(v);
    let c = coalesce(v, joiner());
    lemma_coalesce_head(t, v);
    lemma_head(t, v, v.len() as int);
    lemma_head(t, c, c.len() as int);
}
proof fn lemma_coalesce_head(t: Seq<u8>, v: Seq<Ch>)
    requires disjoint(v), v.len() > 0 ==> v.last().e <= t.len()
    ensures head(t, coalesce(v, joiner()), coalesce(v, joiner()).len() as int) == head(t, v, v.len() as int)
    decreases v.len()
{
    if v.len() > 1 {
        let p = v.drop_last(); let c0 = coalesce(p, joiner()); let c = coalesce(v, joiner());
        assert(disjoint(p)) by {
            assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).wf() by { assert(v[i].wf()); }
            assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).e <= (#[trigger] p[j]).s by { assert(v[i].e <= v[j].s); } }
        assert(v[v.len() - 2].e <= v[v.len() - 1].s); assert(v.last().wf()); assert(v[v.len() - 2].wf());
        lemma_coalesce_head(t, p); lemma_coalesce(p);
        lemma_head_prefix(t, v, p, p.len() as int);
        let n0 = c0.len() as int;
        let a = c0.last(); let b = v.last();
        assert(head(t, v, v.len() as int) == head(t, p, p.len() as int) + t.subrange(p.last().e, b.s) + b.bytes());
        match join(a, b) {
            Some(x) => {
                lemma_head_prefix(t, c, c0, n0 - 1);
                encode_utf8_concat(a.new, b.new);
                assert(t.subrange(p.last().e, b.s) =~= Seq::<u8>::empty());
                assert(c.len() == n0);
                assert(head(t, c, n0) =~= head(t, c0, n0) + b.bytes());
                assert(head(t, v, v.len() as int) =~= head(t, c, n0));
            }
            None => { lemma_head_prefix(t, c, c0, n0); assert(c.len() == n0 + 1); assert(c[n0] == b); }
        }
    } else { }
}

// ================= trusted: std and itertools, over the closure's own contract
/// slice::sort_by_key is a stable sort
#[verifier::external_body]
pub fn vx_sort_by_key<F: Fn(&TextChange) -> (TextSize, TextSize)>(v: &mut Vec<TextChange>, f: F)
    requires forall|c: &TextChange| call_requires(f, (c,)),
        forall|c: &TextChange, k: (TextSize, TextSize)| call_ensures(f, (c,), k) ==> k.0.raw == ch(*c).s && k.1.raw == ch(*c).e,
    ensures stable_sorted(chs(old(v)@), chs(final(v)@)), final(v)@.to_multiset() == old(v)@.to_multiset(),
{ unimplemented!() }
pub fn vx_refs(v: &Vec<TextChange>) -> (r: Vec<&TextChange>)
    ensures chr(r@) == chs(v@)
{
    let mut r: Vec<&TextChange> = Vec::new();
    let mut i = 0;
    while i < v.len() invariant i <= v.len(), chr(r@) =~= chs(v@).take(i as int), decreases v.len() - i { let ghost r0 = r@; r.push(&v[i]); assert(chr(r@) =~= chr(r0).push(ch(v@[i as int]))); assert(chs(v@).take(i + 1) =~= chs(v@).take(i as int).push(ch(v@[i as int]))); i += 1; }
    assert(chs(v@).take(i as int) =~= chs(v@));
    r
}
pub fn vx_all_adjacent<F: Fn(&TextChange, &TextChange) -> bool>(v: &Vec<&TextChange>, f: F, Ghost(g): Ghost<spec_fn(Ch, Ch) -> bool>) -> (r: bool)
    requires forall|a: &TextChange, b: &TextChange| call_requires(f, (a, b)),
        forall|a: &TextChange, b: &TextChange, x: bool| call_ensures(f, (a, b), x) ==> x == g(ch(*a), ch(*b)),
    ensures r == (forall|i: int| 0 <= i && i + 1 < v@.len() ==> g(#[trigger] chr(v@)[i], chr(v@)[i + 1]))
{
    let mut i = 0;
    while i + 1 < v.len()
        invariant i <= v.len(), forall|a: &TextChange, b: &TextChange| call_requires(f, (a, b)),
          forall|a: &TextChange, b: &TextChange, x: bool| call_ensures(f, (a, b), x) ==> x == g(ch(*a), ch(*b)),
          forall|k: int| 0 <= k < i ==> g(#[trigger] chr(v@)[k], chr(v@)[k + 1]),
          v@.len() > 0 ==> i < v@.len(),
        decreases v.len() - i
    { if !f(v[i], v[i + 1]) { assert(!g(chr(v@)[i as int], chr(v@)[i + 1])); return false; } i += 1; }
    true
}
/// a merge of v and w: where each entry comes from, and that `first(v entry, w entry)` decided
pub open spec fn merged(v: Seq<Ch>, w: Seq<Ch>, r: Seq<Ch>, first: spec_fn(Ch, Ch) -> bool) -> bool decreases v.len() + w.len() {
    if v.len() == 0 { r == w } else if w.len() == 0 { r == v }
    else if first(v[0], w[0]) { r.len() > 0 && r[0] == v[0] && merged(v.skip(1), w, r.skip(1), first) }
    else { r.len() > 0 && r[0] == w[0] && merged(v, w.skip(1), r.skip(1), first) }
}
/// Itertools::merge_by
#[verifier::external_body]
pub fn vx_merge_by<'a, F: Fn(&TextChange, &TextChange) -> bool>(v: &'a Vec<TextChange>, w: &'a Vec<TextChange>, f: F, Ghost(g): Ghost<spec_fn(Ch, Ch) -> bool>) -> (r: Vec<&'a TextChange>)
    requires forall|a: &TextChange, b: &TextChange| call_requires(f, (a, b)),
        forall|a: &TextChange, b: &TextChange, x: bool| call_ensures(f, (a, b), x) ==> x == g(ch(*a), ch(*b)),
    ensures merged(chs(v@), chs(w@), chr(r@), g)
{ unimplemented!() }
/// Itertools::dedup_by, then cloned().collect(); Vec::dedup_by
#[verifier::external_body]
pub fn vx_dedup_cloned<F: Fn(&TextChange, &TextChange) -> bool>(v: Vec<&TextChange>, f: F, Ghost(g): Ghost<spec_fn(Ch, Ch) -> bool>) -> (r: Vec<TextChange>)
    requires forall|a: &TextChange, b: &TextChange| call_requires(f, (a, b)),
        forall|a: &TextChange, b: &TextChange, x: bool| call_ensures(f, (a, b), x) ==> x == g(ch(*a), ch(*b)),
    ensures chs(r@) == dedup(chr(v@), g)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_dedup<F: Fn(&TextChange, &TextChange) -> bool>(v: &mut Vec<TextChange>, f: F, Ghost(g): Ghost<spec_fn(Ch, Ch) -> bool>)
    requires forall|a: &TextChange, b: &TextChange| call_requires(f, (a, b)),
        forall|a: &TextChange, b: &TextChange, x: bool| call_ensures(f, (a, b), x) ==> x == g(ch(*b), ch(*a)),
    ensures chs(final(v)@) == dedup(chs(old(v)@), g)
{ unimplemented!() }
/// Itertools::coalesce(..).collect_vec()
#[verifier::external_body]
pub fn vx_coalesce<F: Fn(TextChange, TextChange) -> Result<TextChange, (TextChange, TextChange)>>(v: Vec<TextChange>, f: F, Ghost(g): Ghost<spec_fn(Ch, Ch) -> Option<Ch>>) -> (r: Vec<TextChange>)
    requires forall|a: TextChange, b: TextChange| a.range.wf() && b.range.wf() && ch(a).e <= ch(b).s ==> call_requires(f, (a, b)), disjoint(chs(v@)),
        forall|a: TextChange, b: TextChange, x: Result<TextChange, (TextChange, TextChange)>| call_ensures(f, (a, b), x) && a.range.wf() && b.range.wf() ==> (match x {
            Ok(y) => g(ch(a), ch(b)) == Some(ch(y)), Err((y, z)) => g(ch(a), ch(b)) == None::<Ch> && ch(y) == ch(a) && ch(z) == ch(b) }),
    ensures chs(r@) == coalesce(chs(v@), g)
{ unimplemented!() }
pub assume_specification [std::string::String::reserve] (_0: &mut String, _1: usize) ensures final(_0)@ == old(_0)@;

proof fn lemma_merge_sorted(v: Seq<Ch>, w: Seq<Ch>, r: Seq<Ch>)
    requires merged(v, w, r, first_of()), disjoint(v), disjoint(w),
    ensures ranges(r), forall|c: Ch| r.contains(c) <==> (v.contains(c) || w.contains(c)), cross_compatible(v, w) ==> adjacent_ok(r),
        r.len() > 0 ==> (v.len() > 0 && r[0] == v[0]) || (w.len() > 0 && r[0] == w[0]), v.len() + w.len() == r.len(),
        adjacent_ok(r) ==> cross_compatible(v, w),
    decreases v.len() + w.len()
{
    if v.len() == 0 { assert forall|c: Ch| r.contains(c) <==> (v.contains(c) || w.contains(c)) by {} assert(adjacent_ok(r)); }
    else if w.len() == 0 { assert(adjacent_ok(r)); }
    else {
        let t = r.skip(1);
        let fv = key_le(v[0], w[0]);
        let v1 = if fv { v.skip(1) } else { v }; let w1 = if fv { w } else { w.skip(1) };
        assert(disjoint(v1)) by { lemma_disjoint_skip(v); } assert(disjoint(w1)) by { lemma_disjoint_skip(w); }
        assert(merged(v1, w1, t, first_of()));
        lemma_merge_sorted(v1, w1, t);
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).wf() by { if i > 0 { assert(t[i - 1].wf()); } else { assert(v[0].wf() && w[0].wf()); } }
        lemma_contains_skip(r); lemma_contains_skip(v); lemma_contains_skip(w);
        assert(v[0].wf() && w[0].wf());
        if cross_compatible(v, w) {
            assert(cross_compatible(v1, w1)) by {
                assert forall|i: int, j: int| 0 <= i < v1.len() && 0 <= j < w1.len() implies compatible(#[trigger] v1[i], #[trigger] w1[j]) by {
                    assert(compatible(v[if fv { i + 1 } else { i }], w[if fv { j } else { j + 1 }])); } }
            assert forall|i: int| 0 <= i && i + 1 < r.len() implies chained(#[trigger] r[i], r[i + 1]) by {
                if i > 0 { assert(chained(t[i - 1], t[i])); } else {
                    assert(r[1] == t[0]);
                    assert(compatible(v[0], w[0]));
                    if v.len() > 1 { assert(v[0].e <= v[1].s); } if w.len() > 1 { assert(w[0].e <= w[1].s); }
                }
            }
        }
        if adjacent_ok(r) {
            assert forall|i: int| 0 <= i && i + 1 < t.len() implies chained(#[trigger] t[i], t[i + 1]) by { assert(chained(r[i + 1], r[i + 2])); }
            // everything after r[0] starts at or behind its end, or is the same change
            lemma_after(r);
            assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < w.len() implies compatible(#[trigger] v[i], #[trigger] w[j]) by {
                if fv && i == 0 { assert(w1.contains(w[j])); assert(t.contains(w[j])); let k = choose|k: int| 0 <= k < t.len() && t[k] == w[j]; assert(r[k + 1] == w[j]); assert(chained(r[0], r[k + 1])); }
                else if !fv && j == 0 { assert(v1.contains(v[i])); assert(t.contains(v[i])); let k = choose|k: int| 0 <= k < t.len() && t[k] == v[i]; assert(r[k + 1] == v[i]); assert(chained(r[0], r[k + 1])); }
                else if fv { assert(compatible(v1[i - 1], w1[j])); } else { assert(compatible(v1[i], w1[j - 1])); }
            }
        }
    }
}
proof fn lemma_after(r: Seq<Ch>)
    requires adjacent_ok(r), ranges(r) ensures forall|k: int| 0 < k < r.len() ==> chained(r[0], #[trigger] r[k])
{ assert forall|k: int| 0 < k < r.len() implies chained(r[0], #[trigger] r[k]) by { lemma_after_k(r, k); } }
proof fn lemma_after_k(r: Seq<Ch>, k: int)
    requires adjacent_ok(r), ranges(r), 0 < k < r.len() ensures chained(r[0], r[k]) decreases k
{ assert(chained(r[k - 1], r[k])); assert(r[k - 1].wf()); if k > 1 { lemma_after_k(r, k - 1); } }
proof fn lemma_disjoint_skip(v: Seq<Ch>) requires disjoint(v), v.len() > 0 ensures disjoint(v.skip(1))
{ let s = v.skip(1);
  assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).wf() by { assert(v[i + 1].wf()); }
  assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).e <= (#[trigger] s[j]).s by { assert(v[i + 1].e <= v[j + 1].s); } }
proof fn lemma_contains_skip(v: Seq<Ch>) requires v.len() > 0 ensures forall|c: Ch| v.contains(c) <==> (c == v[0] || v.skip(1).contains(c))
{ let s = v.skip(1);
  assert forall|c: Ch| v.contains(c) <==> (c == v[0] || s.contains(c)) by {
    if v.contains(c) { let i = choose|i: int| 0 <= i < v.len() && v[i] == c; if i > 0 { assert(s[i - 1] == c); } }
    if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(v[i + 1] == c); } } }
/// on a tie (same place) the edit already there comes first
pub open spec fn first_of() -> spec_fn(Ch, Ch) -> bool { |a: Ch, b: Ch| key_le(a, b) }
/// insertions are never merged away
pub open spec fn inserts(v: Seq<Ch>) -> Multiset<Ch> { v.filter(|c: Ch| c.is_insert()).to_multiset() }

pub fn vx_any<F: Fn(&TextChange) -> bool>(v: &Vec<TextChange>, f: F, Ghost(g): Ghost<spec_fn(Ch) -> bool>) -> (r: bool)
    requires forall|a: &TextChange| call_requires(f, (a,)), forall|a: &TextChange, x: bool| call_ensures(f, (a,), x) ==> x == g(ch(*a)),
    ensures r == exists|i: int| 0 <= i < v@.len() && g(#[trigger] chs(v@)[i])
{
    let mut i = 0;
    while i < v.len()
        invariant i <= v.len(), forall|a: &TextChange| call_requires(f, (a,)), forall|a: &TextChange, x: bool| call_ensures(f, (a,), x) ==> x == g(ch(*a)),
          forall|k: int| 0 <= k < i ==> !g(#[trigger] chs(v@)[k]),
        decreases v.len() - i
    { if f(&v[i]) { assert(g(chs(v@)[i as int])); return true; } i += 1; }
    false
}
proof fn lemma_in(v: Seq<Ch>, w: Seq<Ch>) requires v.to_multiset() == w.to_multiset() ensures forall|i: int| 0 <= i < w.len() ==> v.contains(#[trigger] w[i])
{ v.to_multiset_ensures(); w.to_multiset_ensures();
  assert forall|i: int| 0 <= i < w.len() implies v.contains(#[trigger] w[i]) by { assert(w.contains(w[i])); assert(w.to_multiset().count(w[i]) > 0); } }
proof fn lemma_sorted_ok(v: Seq<Ch>, w: Seq<Ch>)
    requires stable_sorted(v, w), ranges(v), all_compatible(v) ensures adjacent_ok(w), ranges(w), all_compatible(w)
{
    lemma_in(v, w);
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).wf() by { assert(v.contains(w[i])); let k = choose|k: int| 0 <= k < v.len() && v[k] == w[i]; assert(v[k].wf()); }
    assert forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() implies compatible(#[trigger] w[i], #[trigger] w[j]) by {
        assert(v.contains(w[i]) && v.contains(w[j]));
        let k = choose|k: int| 0 <= k < v.len() && v[k] == w[i]; let l = choose|l: int| 0 <= l < v.len() && v[l] == w[j]; assert(compatible(v[k], v[l])); }
    lemma_adjacent(w);
}
// ================= the code
//@known iter into_iter
//@item crates/ide-db/src/text_edit.rs TextChange
//@item crates/ide-db/src/text_edit.rs TextEdit
//@item crates/ide-db/src/text_edit.rs TextEditBuilder
impl PartialEq for TextChange { #[verifier::external_body] fn eq(&self, o: &TextChange) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for TextChange {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &TextChange) -> bool { ch(*self) == ch(*o) }
}
//@rewrite . into ( ) =>> .vx_usize()
//@rewrite $t . replace_range ( $$a .. $$b , & $$c ) =>> vx_replace_range($t, $a, $b, &$c)
impl TextChange {
//@fn crates/ide-db/src/text_edit.rs TextChange::insert
//@ret r
//@spec
  ensures ch(r) == (Ch { s: offset.raw as int, e: offset.raw as int, new: text@ }),
//@end
//@fn crates/ide-db/src/text_edit.rs TextChange::delete
//@ret r
//@spec
  ensures ch(r) == (Ch { s: range.start.raw as int, e: range.end.raw as int, new: Seq::empty() }),
//@end
//@fn crates/ide-db/src/text_edit.rs TextChange::replace
//@ret r
//@spec
  ensures ch(r) == (Ch { s: range.start.raw as int, e: range.end.raw as int, new: replace_with@ }), r.range == range,
//@end
//@fn crates/ide-db/src/text_edit.rs TextChange::new_range
//@ret r
//@spec
  requires self.range.start.raw + ch(*self).bytes().len() <= u32::MAX,
  ensures r.start == self.range.start, r.end.raw == self.range.start.raw + ch(*self).bytes().len(),
//@end
//@fn crates/ide-db/src/text_edit.rs TextChange::apply
//@spec
  requires ch(*self).wf(), boundary(encode_utf8(old(text)@), ch(*self).s), boundary(encode_utf8(old(text)@), ch(*self).e),
  ensures ({ let t = encode_utf8(old(text)@); encode_utf8(final(text)@) == t.take(ch(*self).s) + ch(*self).bytes() + t.skip(ch(*self).e) }),
//@end
}
impl TextEdit {
//@fn crates/ide-db/src/text_edit.rs TextEdit::len
//@ret r
//@spec
  ensures r == self.changes@.len(),
//@end
//@fn crates/ide-db/src/text_edit.rs TextEdit::apply
//@spec
  requires fits(encode_utf8(old(text)@), chs(self.changes@)),
    encode_utf8(old(text)@).len() + added(chs(self.changes@), self.changes@.len() as int) <= u32::MAX,
  ensures encode_utf8(final(text)@) == apply_all(encode_utf8(old(text)@), chs(self.changes@)),
//@in fn begin
  let ghost t = encode_utf8(text@);
  let ghost v = chs(self.changes@);
  proof {
    if v.len() == 1 { assert(edited(t, v, 1, v[0].e) =~= t.skip(v[0].e)); assert(t.subrange(0, v[0].s) =~= t.take(v[0].s)); }
    if v.len() == 0 { assert(t.skip(0) =~= t); }
    lemma_added(v, 0, v.len() as int);
  }
//@loop 0 iter it
  invariant v == chs(self.changes@), fits(t, v), it.index@ <= v.len(), t.len() + added(v, v.len() as int) <= u32::MAX,
    total_len.raw == t.len() + added(v, it.index@) - removed(v, it.index@), original_len.raw == t.len(),
    max_total_len.raw >= original_len.raw,
//@in loop 0 begin
  proof { let n = it.index@ as int; lemma_removed(v, n); lemma_removed(v, n + 1); lemma_added(v, n + 1, v.len() as int); lemma_added(v, n, n + 1); assert(v[n].wf()); assert(boundary(t, v[n].e)); }
//@loop 1 iter jt
  invariant v == chs(self.changes@), fits(t, v), jt.index@ <= v.len(),
    encode_utf8(text@) == t.take(end_of(v, v.len() - jt.index@)) + edited(t, v, v.len() - jt.index@, end_of(v, v.len() - jt.index@)),
//@in loop 1 begin
  let ghost n = v.len() - jt.index@ - 1;
  let ghost cur = encode_utf8(text@);
  proof { assert(v[n].wf()); assert(boundary(t, v[n].s) && boundary(t, v[n].e)); assert(cur.take(v[n].e) =~= t.take(v[n].e)); assert(cur.take(v[n].s) =~= t.take(v[n].s)); }
//@in loop 1 end
  proof { lemma_splice(t, v, n, cur, encode_utf8(text@)); }
//@before @loop 1
  proof { let n = v.len() as int; assert(v[n - 1].wf()); assert(boundary(t, v[n - 1].e)); assert(t.take(v[n - 1].e) + t.skip(v[n - 1].e) =~= t); }
//@after @loop 1
  proof { assert(t.take(0) + edited(t, v, 0, 0) =~= apply_all(t, v));
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).e <= t.len() by { assert(boundary(t, v[i].e)); }
    assert(v[0].wf());
    lemma_edited_len(t, v, 0, 0); lemma_removed(v, v.len() as int); }
//@end
//@fn crates/ide-db/src/text_edit.rs TextEdit::is_empty
//@ret r
//@spec
  ensures r == (self.changes@.len() == 0),
//@end
//@fn crates/ide-db/src/text_edit.rs TextEdit::union
//@ret r
//@rewrite $a . iter ( ) . merge_by ( $b . iter ( ) , | $l , $r | $$c ) =>> vx_merge_by(&$a.changes, &$b.changes, |$l: &TextChange, $r: &TextChange| -> (x: bool) ensures x == key_le(ch(*$l), ch(*$r)) { $c }, Ghost(first_of()))
//@rewrite? ( $$a , $$b ) <= ( $$c , $$d ) =>> vx_pair_le(($a, $b), ($c, $d))
//@rewrite & mut $x . clone ( ) =>> &$x
//@rewrite $v . dedup_by ( | $a , $b | $$c ) . cloned ( ) . collect ( ) =>> vx_dedup_cloned($v, |$a: &TextChange, $b: &TextChange| -> (x: bool) ensures x == same_change(ch(*$a), ch(*$b)) { $c }, Ghost(eq_change()))
//@spec
  requires disjoint(chs(old(self).changes@)), disjoint(chs(other.changes@)),
  ensures ({ let (v, w, u) = (chs(old(self).changes@), chs(other.changes@), chs(final(self).changes@));
    &&& r is Ok <==> cross_compatible(v, w)
    &&& r is Ok ==> disjoint(u) && (forall|c: Ch| u.contains(c) <==> (v.contains(c) || w.contains(c)))
          && exists|m: Seq<Ch>| merged(v, w, m, first_of()) && u == #[trigger] dedup(m, eq_change())
    &&& r is Err ==> u == v && r->Err_0 == other }),
//@after let iter_merge
  let ghost v = chs(self.changes@); let ghost w = chs(other.changes@); let ghost m = chr(iter_merge@);
  proof { lemma_merge_sorted(v, w, m); if adjacent_ok(m) { lemma_dedup(m); } }
//@end
//@fn crates/ide-db/src/text_edit.rs TextEdit::apply_to_offset
//@ret r
//@spec
  requires disjoint(chs(self.changes@)), offset.raw + added(chs(self.changes@), self.changes@.len() as int) <= u32::MAX,
  ensures ({ let v = chs(self.changes@);
    &&& r is None <==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).s < offset.raw < v[i].e
    &&& r matches Some(p) ==> exists|n: int| 0 <= n <= v.len() && #[trigger] end_of(v, n) <= offset.raw && (n > 0 ==> v[n - 1].s < offset.raw) && (n < v.len() ==> offset.raw <= v[n].s)
          && p.raw == offset.raw + added(v, n) - removed(v, n) }),
//@in fn begin
  let ghost v = chs(self.changes@);
  let ghost mut n: int = 0;
//@loop 0 iter it
  invariant_except_break it.index@ <= v.len(), n == it.index@,
  invariant v == chs(self.changes@), disjoint(v), offset.raw + added(v, v.len() as int) <= u32::MAX, 0 <= n <= v.len(),
    end_of(v, n) <= offset.raw, n > 0 ==> v[n - 1].s < offset.raw, res.raw == offset.raw + added(v, n) - removed(v, n),
  ensures 0 <= n <= v.len(), end_of(v, n) <= offset.raw, n > 0 ==> v[n - 1].s < offset.raw, n < v.len() ==> offset.raw <= v[n].s, res.raw == offset.raw + added(v, n) - removed(v, n),
//@in loop 0 begin
  proof { lemma_removed(v, n); lemma_removed(v, n + 1); lemma_added(v, n + 1, v.len() as int); lemma_added(v, n, n + 1); assert(v[n].wf()); }
//@in loop 0 end
  proof { n = n + 1; }
//@after @loop 0
  proof {
    assert forall|i: int| 0 <= i < v.len() implies !((#[trigger] v[i]).s < offset.raw < v[i].e) by {
      if i < n - 1 { assert(v[i].e <= v[n - 1].s); } else if i > n { assert(v[n].e <= v[i].s); assert(v[n].wf()); }
    }
  }
//@end
}
pub fn vx_pair_le(a: (TextSize, TextSize), b: (TextSize, TextSize)) -> (r: bool)
    ensures r == (a.0.raw < b.0.raw || (a.0.raw == b.0.raw && a.1.raw <= b.1.raw))
{ a.0 < b.0 || (a.0 == b.0 && a.1 <= b.1) }

//@fn crates/ide-db/src/text_edit.rs check_disjoint
//@sig fn check_disjoint(text_changes: &Vec<&TextChange>) -> (r: bool)
//@ret r
//@rewrite $a . clone ( ) . zip ( $b . skip ( 1 ) ) . all ( | ( $l , $r ) | $$c ) =>> vx_all_adjacent($a, |$l: &TextChange, $r: &TextChange| -> (x: bool) ensures x == chained(ch(*$l), ch(*$r)) { $c }, Ghost(|a: Ch, b: Ch| chained(a, b)))
//@spec
  ensures r == adjacent_ok(chr(text_changes@)),
//@end
//@fn crates/ide-db/src/text_edit.rs check_disjoint_and_sort
//@sig fn check_disjoint_and_sort(text_changes: &mut Vec<TextChange>) -> (r: bool)
//@ret r
//@rewrite $v . sort_by_key ( | $c | ( $$a , $$b ) ) =>> vx_sort_by_key($v, |$c: &TextChange| -> (k: (TextSize, TextSize)) ensures k.0.raw == ch(*$c).s, k.1.raw == ch(*$c).e { ($a, $b) })
//@rewrite & mut $x . iter ( ) =>> &vx_refs($x)
//@spec
  ensures stable_sorted(chs(old(text_changes)@), chs(final(text_changes)@)), r == adjacent_ok(chs(final(text_changes)@)),
//@end
//@fn crates/ide-db/src/text_edit.rs assert_disjoint_or_equal
//@sig fn assert_disjoint_or_equal(text_changes: &mut Vec<TextChange>)
//@spec
  requires ranges(chs(old(text_changes)@)), all_compatible(chs(old(text_changes)@)),
  ensures stable_sorted(chs(old(text_changes)@), chs(final(text_changes)@)), adjacent_ok(chs(final(text_changes)@)), ranges(chs(final(text_changes)@)), all_compatible(chs(final(text_changes)@)),
//@in fn begin
  let ghost v = chs(text_changes@);
  proof { assert forall|w: Seq<Ch>| #[trigger] stable_sorted(v, w) implies adjacent_ok(w) && ranges(w) && all_compatible(w) by { lemma_sorted_ok(v, w); } }
//@end
//@fn crates/ide-db/src/text_edit.rs coalesce_text_changes
//@ret r
//@rewrite $v . into_iter ( ) . coalesce ( | mut $a , $b | $c ) . collect_vec ( ) =>> vx_coalesce($v, |$a: TextChange, $b: TextChange| -> (res: Result<TextChange, (TextChange, TextChange)>) requires $a.range.wf(), $b.range.wf() ensures (match res { Ok(y) => join(ch($a), ch($b)) == Some(ch(y)), Err((y, z)) => join(ch($a), ch($b)) == None::<Ch> && ch(y) == ch($a) && ch(z) == ch($b) }) { let mut $a = $a; $c }, Ghost(joiner()))
//@spec
  requires disjoint(chs(indels@)),
  ensures chs(r@) == coalesce(chs(indels@), joiner()),
//@end
impl TextEditBuilder {
//@fn crates/ide-db/src/text_edit.rs TextEditBuilder::add_change
//@spec
  requires ch(change).wf(), ranges(chs(old(self).text_changes@)), all_compatible(chs(old(self).text_changes@).push(ch(change))),
  ensures ranges(chs(final(self).text_changes@)), all_compatible(chs(final(self).text_changes@)),
    chs(final(self).text_changes@).to_multiset() == chs(old(self).text_changes@).to_multiset().insert(ch(change)),
    forall|c: Ch| #[trigger] chs(final(self).text_changes@).filter(at(c)) == chs(old(self).text_changes@).push(ch(change)).filter(at(c)),
//@in fn begin
  let ghost v = chs(self.text_changes@).push(ch(change));
  proof {
    chs(self.text_changes@).to_multiset_ensures();
    assert(chs(self.text_changes@.push(change)) =~= v);
    assert(ranges(v)) by { assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).wf() by { if i < v.len() - 1 { assert(chs(self.text_changes@)[i].wf()); } } }
    assert forall|w: Seq<Ch>| #[trigger] stable_sorted(v, w) implies ranges(w) && all_compatible(w) by { lemma_sorted_ok(v, w); }
  }
//@end
//@fn crates/ide-db/src/text_edit.rs TextEditBuilder::finish
//@ret r
//@rewrite? $v . dedup_by ( | $a , $b | $$c ) =>> vx_dedup(&mut $v, |$a: &TextChange, $b: &TextChange| -> (x: bool) ensures x == same_change(ch(*$b), ch(*$a)) { $c }, Ghost(eq_change()))
//@spec
  requires ranges(chs(self.text_changes@)), all_compatible(chs(self.text_changes@)),
  ensures disjoint(chs(r.changes@)),
    exists|m: Seq<Ch>| stable_sorted(chs(self.text_changes@), m)
      && (forall|t: Seq<u8>| fits(t, dedup(m, eq_change())) ==> #[trigger] apply_all(t, chs(r.changes@)) == apply_all(t, dedup(m, eq_change()))),
//@in fn begin
  let ghost v = chs(self.text_changes@);
  proof {
    assert forall|m: Seq<Ch>| #[trigger] stable_sorted(v, m) implies ({ let d = dedup(m, eq_change()); disjoint(d) && disjoint(coalesce(d, joiner()))
        && (forall|t: Seq<u8>| fits(t, d) ==> #[trigger] apply_all(t, coalesce(d, joiner())) == apply_all(t, d)) }) by {
      lemma_sorted_ok(v, m); lemma_dedup(m); let d = dedup(m, eq_change()); lemma_coalesce(d);
      assert forall|t: Seq<u8>| fits(t, d) implies #[trigger] apply_all(t, coalesce(d, joiner())) == apply_all(t, d) by {
        if d.len() > 0 { assert(boundary(t, d[d.len() - 1].e)); } lemma_coalesce_effect(t, d); }
    }
  }
//@end
//@fn crates/ide-db/src/text_edit.rs TextEditBuilder::invalidates_offset
//@ret r
//@rewrite $s . $v . iter ( ) . any ( | $c | $$b ) =>> vx_any(&$s.$v, |$c: &TextChange| -> (x: bool) ensures x == (ch(*$c).s <= offset.raw <= ch(*$c).e) { $b }, Ghost(|c: Ch| c.s <= offset.raw <= c.e))
//@spec
  ensures r == exists|i: int| 0 <= i < self.text_changes@.len() && (#[trigger] chs(self.text_changes@)[i]).s <= offset.raw <= chs(self.text_changes@)[i].e,
//@end
}
}
