#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
verus! {
//@include ../common/prelude.rs
//@include ../common/text.rs
fn main() {}
// ---- what a highlight is does not matter here: a tag, copied along
#[derive(Clone, Copy)]
pub struct HlTag { pub tag: u64 }
#[derive(Clone, Copy)]
pub struct Highlight { pub tag: HlTag }
pub uninterp spec fn no_tag() -> HlTag;
/// `HlTag::None`
#[verifier::external_body]
pub fn vx_no_tag() -> (r: HlTag) ensures r == no_tag() { unimplemented!() }
pub fn vx_highlight(t: HlTag) -> (r: Highlight) ensures r == (Highlight { tag: t }) { Highlight { tag: t } }
//@rewrite HlTag :: None . into ( ) =>> vx_highlight(vx_no_tag())
//@item crates/ide/src/syntax_highlighting.rs HlRange derive(Clone, Copy)
//@item crates/ide/src/syntax_highlighting/highlights.rs Highlights
//@item crates/ide/src/syntax_highlighting/highlights.rs Node

// ---- trusted: slices and vectors
pub struct VxRange { pub start: usize, pub end: usize }
impl Clone for VxRange { fn clone(&self) -> (r: VxRange) ensures r == *self { VxRange { start: self.start, end: self.end } } }
impl VxRange { pub fn is_empty(&self) -> (r: bool) ensures r == !(self.start < self.end) { !(self.start < self.end) }
    pub fn len(&self) -> (r: usize) ensures r == (if self.start <= self.end { self.end - self.start } else { 0 }) { if self.start <= self.end { self.end - self.start } else { 0 } } }
/// `stdx::equal_range_by`: the elements which compare equal, in a list which `f` divides into less, equal and greater
#[verifier::external_body]
pub fn vx_equal_range_by<F: Fn(&Node) -> std::cmp::Ordering>(v: &Vec<Node>, f: F, Ghost(g): Ghost<spec_fn(Node) -> std::cmp::Ordering>) -> (r: VxRange)
    requires forall|n: &Node| #[trigger] f.requires((n,)), forall|n: &Node, o: std::cmp::Ordering| #[trigger] f.ensures((n,), o) ==> o == g(*n),
        forall|i: int, j: int| 0 <= i < j < v@.len() ==> (#[trigger] g(v@[i]) is Greater ==> #[trigger] g(v@[j]) is Greater) && (g(v@[j]) is Less ==> g(v@[i]) is Less),
    ensures r.start <= r.end <= v@.len(),
        forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> match g(v@[i]) { std::cmp::Ordering::Less => i < r.start, std::cmp::Ordering::Equal => r.start <= i < r.end, std::cmp::Ordering::Greater => r.end <= i }
{ unimplemented!() }
/// `TextRange::ordering` (text-size)
pub open spec fn ordering(a: TextRange, b: TextRange) -> std::cmp::Ordering {
    if a.end.raw <= b.start.raw { std::cmp::Ordering::Less } else if b.end.raw <= a.start.raw { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal }
}
impl TextRange {
    pub fn ordering(a: TextRange, b: TextRange) -> (r: std::cmp::Ordering) ensures r == ordering(a, b)
    { if a.end <= b.start { std::cmp::Ordering::Less } else if b.end <= a.start { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal } }
}
/// `v.splice(range, once(n)).collect()`
#[verifier::external_body]
pub fn vx_splice(v: &mut Vec<Node>, g: VxRange, n: Node) -> (r: Vec<Node>)
    requires g.start <= g.end <= old(v)@.len()
    ensures r@ == old(v)@.subrange(g.start as int, g.end as int), final(v)@ == old(v)@.take(g.start as int).push(n) + old(v)@.skip(g.end as int)
{ unimplemented!() }

/// `v.iter()` over children
pub struct VxNodes<'a> { pub v: &'a Vec<Node>, pub k: Ghost<int> }
#[verifier::external_body]
pub fn vx_nodes<'a>(v: &'a Vec<Node>) -> (r: VxNodes<'a>) ensures r.v == v, r.k@ == 0 { unimplemented!() }
impl<'a> VxNodes<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a Node>)
        ensures final(self).v == old(self).v, 0 <= old(self).k@ < old(self).v@.len() ==> (r matches Some(n) && *n == old(self).v@[old(self).k@]) && final(self).k@ == old(self).k@ + 1,
            old(self).k@ == old(self).v@.len() ==> r is None && final(self).k == old(self).k { unimplemented!() }
}
// ================= specification
impl Node {
    pub open spec fn g(self) -> TextRange { self.hl_range.range }
}
pub proof fn lemma_child(n: Node, i: int) requires 0 <= i < n.nested@.len() ensures decreases_to!(n => n.nested@[i])
{ broadcast use vstd::std_specs::vec::axiom_vec_index_decreases; assert(decreases_to!(n.nested => n.nested[i])); }
/// children in order, apart, within their parent
pub open spec fn wf(n: Node) -> bool decreases n via wf_dec {
    &&& n.g().wf()
    &&& apart(n.nested@)
    &&& forall|i: int| #![trigger n.nested@[i]] 0 <= i < n.nested@.len() ==> wf(n.nested@[i]) && inside(n.nested@[i].g(), n.g())
}
#[via_fn]
proof fn wf_dec(n: Node) { assert forall|i: int| #![trigger n.nested@[i]] 0 <= i < n.nested@.len() implies decreases_to!(n => n.nested@[i]) by { lemma_child(n, i); } }
/// r is apart from each range of the tree, within it, or around it
pub open spec fn fits(n: Node, r: TextRange) -> bool decreases n via fits_dec {
    laminar(n.g(), r) && forall|i: int| #![trigger n.nested@[i]] 0 <= i < n.nested@.len() ==> fits(n.nested@[i], r)
}
#[via_fn]
proof fn fits_dec(n: Node, r: TextRange) { assert forall|i: int| #![trigger n.nested@[i]] 0 <= i < n.nested@.len() implies decreases_to!(n => n.nested@[i]) by { lemma_child(n, i); } }
/// the child with position i
pub open spec fn is_child(n: Node, i: int, c: int) -> bool { 0 <= c < n.nested@.len() && n.nested@[c].g().has(i) }
/// the innermost range at position i
pub open spec fn at(n: Node, i: int) -> HlRange decreases n via at_dec {
    if exists|c: int| is_child(n, i, c) { at(n.nested@[choose|c: int| is_child(n, i, c)], i) } else { n.hl_range }
}
#[via_fn]
proof fn at_dec(n: Node, i: int) { if exists|c: int| is_child(n, i, c) { let c = choose|c: int| is_child(n, i, c); lemma_child(n, c); } }
pub open spec fn inside(a: TextRange, b: TextRange) -> bool { b.start.raw <= a.start.raw && a.end.raw <= b.end.raw }
pub open spec fn laminar(a: TextRange, b: TextRange) -> bool { ordering(a, b) !is Equal || inside(a, b) || inside(b, a) }
pub open spec fn apart(v: Seq<Node>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).g().end.raw <= (#[trigger] v[j]).g().start.raw }
/// the range at position i once `h` is added to a tree where it was `old`: the smaller one, the newer of equals
pub open spec fn refined(old: HlRange, h: HlRange, i: int) -> HlRange { if h.range.has(i) && inside(h.range, old.range) { h } else { old } }
/// consecutive non-empty pieces from a to b
pub open spec fn tiles(v: Seq<HlRange>, a: int, b: int) -> bool decreases v.len() {
    if v.len() == 0 { a == b } else { v.last().range.start.raw < v.last().range.end.raw == b && tiles(v.drop_last(), a, v.last().range.start.raw as int) }
}
pub open spec fn shows(v: Seq<HlRange>, n: Node) -> bool {
    forall|k: int, i: int| 0 <= k < v.len() && #[trigger] v[k].range.has(i) ==> v[k].highlight == #[trigger] at(n, i).highlight
}
pub proof fn lemma_at_child(n: Node, i: int, c: int)
    requires wf(n), is_child(n, i, c) ensures at(n, i) == at(n.nested@[c], i)
{ let d = choose|d: int| is_child(n, i, d); assert(n.nested@[c].g().has(i) && n.nested@[d].g().has(i)); if c < d { } else if d < c { } }
pub proof fn lemma_at(n: Node, i: int)
    requires wf(n), n.g().has(i) ensures at(n, i).range.has(i), inside(at(n, i).range, n.g()) decreases n
{ if exists|c: int| is_child(n, i, c) { let c = choose|c: int| is_child(n, i, c); lemma_child(n, c); lemma_at(n.nested@[c], i); } }
/// one child replaced by a tree which differs by h
pub broadcast proof fn lemma_child_added(o: Node, n: Node, oc: Node, nc: Node, h: HlRange)
    requires wf(o), n.hl_range == o.hl_range, #[trigger] added(oc, nc, h), inside(h.range, oc.g()),
        exists|c: int| replaced(o, n, c, #[trigger] o.nested@[c], oc, nc)
    ensures #[trigger] added(o, n, h)
{
    let c = choose|c: int| replaced(o, n, c, #[trigger] o.nested@[c], oc, nc);
    assert(n.nested@[c] == nc);
    assert(oc.g() == nc.g());
    assert forall|j: int| #![trigger n.nested@[j]] 0 <= j < n.nested@.len() implies wf(n.nested@[j]) && n.nested@[j].g() == o.nested@[j].g() && inside(n.nested@[j].g(), n.g()) by { let _ = o.nested@[j]; }
    assert(wf(n));
    assert forall|i: int| o.g().has(i) implies #[trigger] at(n, i) == refined(at(o, i), h, i) by {
        if exists|d: int| is_child(o, i, d) {
            let d = choose|d: int| is_child(o, i, d);
            assert(is_child(n, i, d)); lemma_at_child(o, i, d); lemma_at_child(n, i, d);
            if d != c { let _ = o.nested@[c]; let _ = o.nested@[d]; assert(!h.range.has(i)) by { if d < c { } else { } } }
        } else {
            assert forall|d: int| !is_child(n, i, d) by { if is_child(n, i, d) { assert(is_child(o, i, d)); } }
            assert(!oc.g().has(i)) by { if oc.g().has(i) { assert(is_child(o, i, c)); } }
        }
    }
    assert forall|r: TextRange| #[trigger] fits(o, r) && laminar(h.range, r) implies fits(n, r) by {
        assert(fits(o.nested@[c], r));
        assert forall|j: int| #![trigger n.nested@[j]] 0 <= j < n.nested@.len() implies fits(n.nested@[j], r) by { assert(fits(o.nested@[j], r)); }
    }
}
pub open spec fn replaced(o: Node, n: Node, c: int, x: Node, oc: Node, nc: Node) -> bool { 0 <= c < o.nested@.len() && x == oc && n.nested@ =~= o.nested@.update(c, nc) }
/// a new last child
pub broadcast proof fn lemma_pushed(o: Node, n: Node, h: HlRange)
    requires wf(o), fits(o, h.range), h.range.wf(), inside(h.range, o.g()), n.hl_range == o.hl_range,
        o.nested@.len() > 0 ==> o.nested@.last().g().end.raw <= h.range.start.raw,
        n.nested@.len() == o.nested@.len() + 1, n.nested@.drop_last() =~= o.nested@, n.nested@.last().hl_range == h, n.nested@.last().nested@ =~= Seq::<Node>::empty()
    ensures #[trigger] added(o, n, h)
{
    let k = o.nested@.len() as int;
    assert(n.nested@ =~= o.nested@.take(k).push(n.nested@.last()) + o.nested@.skip(k));
    assert forall|i: int| 0 <= i < k implies ordering((#[trigger] o.nested@[i]).g(), h.range) is Less by { assert(wf(o.nested@[k - 1])); if i < k - 1 { assert(o.nested@[i].g().end.raw <= o.nested@[k - 1].g().start.raw); } }
    assert(n.nested@.last().nested@ =~= o.nested@.subrange(k, k));
    lemma_wrapped(o, n, n.nested@.last(), k, k, h);
}
/// n is the tree o with h added
pub open spec fn added(o: Node, n: Node, h: HlRange) -> bool {
    &&& wf(n)
    &&& n.hl_range == o.hl_range
    &&& forall|i: int| o.g().has(i) ==> #[trigger] at(n, i) == refined(at(o, i), h, i)
    &&& forall|r: TextRange| #[trigger] fits(o, r) && laminar(h.range, r) ==> fits(n, r)
}
/// the children from a to b moved under a new child for h
proof fn lemma_wrapped(o: Node, n: Node, c: Node, a: int, b: int, h: HlRange)
    requires wf(o), fits(o, h.range), h.range.wf(), inside(h.range, o.g()), n.hl_range == o.hl_range, 0 <= a <= b <= o.nested@.len(),
        c.hl_range == h, c.nested@ == o.nested@.subrange(a, b), n.nested@ == o.nested@.take(a).push(c) + o.nested@.skip(b),
        forall|i: int| 0 <= i < o.nested@.len() ==> match ordering((#[trigger] o.nested@[i]).g(), h.range) { std::cmp::Ordering::Less => i < a, std::cmp::Ordering::Equal => a <= i < b, std::cmp::Ordering::Greater => b <= i },
        !(b - a == 1 && inside(h.range, o.nested@[a].g())),
    ensures added(o, n, h)
{
    assert forall|i: int| a <= i < b implies inside((#[trigger] o.nested@[i]).g(), h.range) && !inside(h.range, o.nested@[i].g()) by {
        assert(fits(o.nested@[i], h.range));
        if inside(h.range, o.nested@[i].g()) {
            if i > a { let _ = o.nested@[i - 1]; assert(ordering(o.nested@[i - 1].g(), h.range) is Equal); }
            if i + 1 < b { let _ = o.nested@[i + 1]; assert(ordering(o.nested@[i + 1].g(), h.range) is Equal); }
        }
    }
    assert forall|i: int| #![trigger c.nested@[i]] 0 <= i < c.nested@.len() implies wf(c.nested@[i]) && inside(c.nested@[i].g(), c.g()) by { assert(c.nested@[i] == o.nested@[a + i]); }
    assert(apart(c.nested@)) by { assert forall|i: int, j: int| 0 <= i < j < c.nested@.len() implies (#[trigger] c.nested@[i]).g().end.raw <= (#[trigger] c.nested@[j]).g().start.raw by { let _ = o.nested@[a + i]; let _ = o.nested@[a + j]; } }
    assert(wf(c));
    assert forall|i: int| #![trigger n.nested@[i]] 0 <= i < n.nested@.len() implies n.nested@[i] == (if i < a { o.nested@[i] } else if i == a { c } else { o.nested@[i - a - 1 + b] }) by { }
    assert forall|i: int| #![trigger n.nested@[i]] 0 <= i < n.nested@.len() implies wf(n.nested@[i]) && inside(n.nested@[i].g(), n.g()) && n.nested@[i].g().wf() by {
        if i < a { assert(wf(o.nested@[i])); } else if i > a { assert(wf(o.nested@[i - a - 1 + b])); } }
    assert(apart(n.nested@)) by {
        assert forall|i: int, j: int| 0 <= i < j < n.nested@.len() implies (#[trigger] n.nested@[i]).g().end.raw <= (#[trigger] n.nested@[j]).g().start.raw by {
            let oi = if i < a { i } else { i - a - 1 + b }; let oj = if j < a { j } else { j - a - 1 + b };
            if i != a { let _ = o.nested@[oi]; } if j != a { let _ = o.nested@[oj]; }
        }
    }
    assert(wf(n));
    assert forall|i: int| o.g().has(i) implies #[trigger] at(n, i) == refined(at(o, i), h, i) by {
        if exists|d: int| is_child(o, i, d) {
            let d = choose|d: int| is_child(o, i, d); lemma_at_child(o, i, d); let _ = o.nested@[d];
            lemma_at(o.nested@[d], i);
            if a <= d < b {
                assert(c.nested@[d - a] == o.nested@[d]); assert(is_child(c, i, d - a)); lemma_at_child(c, i, d - a);
                assert(n.nested@[a] == c); assert(is_child(n, i, a)); lemma_at_child(n, i, a);
                assert(!inside(h.range, at(o, i).range));
            } else {
                let e = if d < a { d } else { d - b + a + 1 };
                assert(n.nested@[e] == o.nested@[d]); assert(is_child(n, i, e)); lemma_at_child(n, i, e);
            }
        } else if h.range.has(i) {
            assert(n.nested@[a] == c); assert(is_child(n, i, a)); lemma_at_child(n, i, a);
            assert forall|d: int| !is_child(c, i, d) by { if is_child(c, i, d) { assert(c.nested@[d] == o.nested@[a + d]); assert(is_child(o, i, a + d)); } }
        } else {
            assert forall|d: int| !is_child(n, i, d) by { if is_child(n, i, d) { let _ = n.nested@[d]; if d < a { assert(is_child(o, i, d)); } else if d > a { assert(is_child(o, i, d - a - 1 + b)); } } }
        }
    }
    assert forall|r: TextRange| #[trigger] fits(o, r) && laminar(h.range, r) implies fits(n, r) by {
        assert forall|j: int| #![trigger c.nested@[j]] 0 <= j < c.nested@.len() implies fits(c.nested@[j], r) by { assert(c.nested@[j] == o.nested@[a + j]); }
        assert(fits(c, r));
        assert forall|j: int| #![trigger n.nested@[j]] 0 <= j < n.nested@.len() implies fits(n.nested@[j], r) by { if j < a { let _ = o.nested@[j]; } else if j > a { let _ = o.nested@[j - a - 1 + b]; } }
    }
}

impl Node {
//@fn crates/ide/src/syntax_highlighting/highlights.rs Node::new
//@ret r
//@spec
    ensures r.hl_range == hl_range, r.nested@ == Seq::<Node>::empty(), hl_range.range.wf() ==> wf(r)
//@end
//@fn crates/ide/src/syntax_highlighting/highlights.rs Node::add
//@rewrite equal_range_by ( & self . nested , $$f ) =>> vx_equal_range_by(&self.nested, $f, Ghost(|n: Node| ordering(n.g(), hl_range.range)))
//@rewrite self . nested . splice ( $$a , iter :: once ( $$b ) ) . collect :: < Vec < _ >> ( ) =>> vx_splice(&mut self.nested, $a, $b)
//@spec
    requires wf(*old(self)), hl_range.range.wf(), inside(hl_range.range, old(self).g()), fits(*old(self), hl_range.range)
    ensures added(*old(self), *final(self), hl_range)
    decreases *old(self)
//@in fn begin
    let ghost o = *self;
    broadcast use {lemma_child_added, lemma_pushed};
    proof {
        assert forall|i: int, j: int| 0 <= i < j < o.nested@.len() implies
            (ordering((#[trigger] o.nested@[i]).g(), hl_range.range) is Greater ==> ordering((#[trigger] o.nested@[j]).g(), hl_range.range) is Greater)
            && (ordering(o.nested@[j].g(), hl_range.range) is Less ==> ordering(o.nested@[i].g(), hl_range.range) is Less) by { assert(wf(o.nested@[i]) && wf(o.nested@[j])); }
        assert forall|i: int| #![trigger o.nested@[i]] 0 <= i < o.nested@.len() implies fits(o.nested@[i], hl_range.range) by { }
    }
//@after let overlapping
    proof {
        assert(self.nested@ == o.nested@);
        assert forall|i: int| #![trigger o.nested@[i]] 0 <= i < o.nested@.len() implies match ordering(o.nested@[i].g(), hl_range.range) { std::cmp::Ordering::Less => i < overlapping.start, std::cmp::Ordering::Equal => overlapping.start <= i < overlapping.end, std::cmp::Ordering::Greater => overlapping.end <= i } by { let _ = self.nested@[i]; }
    }
//@in fn end
    proof {
        let (a, b) = (overlapping.start as int, overlapping.end as int);
        assert(self.nested@[a].nested@ =~= o.nested@.subrange(a, b)); assert(self.nested@ =~= o.nested@.take(a).push(self.nested@[a]) + o.nested@.skip(b));
        lemma_wrapped(o, *self, self.nested@[a], a, b, hl_range);
    }
//@closure 0
    |n: &Node| -> (r: std::cmp::Ordering) ensures r == ordering(n.g(), hl_range.range)
//@end
//@fn crates/ide/src/syntax_highlighting/highlights.rs Node::flatten
//@spec
    requires wf(*self)
    ensures flat(*self, old(acc)@, final(acc)@)
    decreases *self
//@rewrite self . nested . iter ( ) =>> vx_nodes(&self.nested)
//@rewrite next . map_or ( $$a , | it | $$b ) =>> (match next { Some(it) => $b, None => $a })
//@in fn begin
    let ghost a0 = acc@; let ghost n = *self; let ghost s0 = self.hl_range.range.start.raw as int;
//@loop 0
    invariant_except_break
        wf(n), *self == n, nested.v == &self.nested, 0 <= nested.k@ <= n.nested@.len(), s0 == n.g().start.raw,
        start.raw == (if nested.k@ == 0 { s0 as u32 } else { n.nested@[nested.k@ - 1].g().end.raw }), start.raw <= n.g().end.raw,
        a0.len() <= acc@.len(), acc@.take(a0.len() as int) == a0, tiles(acc@.skip(a0.len() as int), s0, start.raw as int), shows(acc@.skip(a0.len() as int), n),
    ensures flat(n, a0, acc@)
    decreases n.nested@.len() - nested.k@
//@in loop 0 begin
    let ghost acc1 = acc@;
//@before start = match
    let ghost acc2 = acc@;
    proof {
        let v = acc1.skip(a0.len() as int); let w = acc2.skip(a0.len() as int); let k = nested.k@;
        if acc1 != acc2 { assert(w.drop_last() =~= v); assert(acc2.take(a0.len() as int) =~= acc1.take(a0.len() as int)); }
        assert(tiles(w, s0, end.raw as int));
        assert forall|q: int, i: int| 0 <= q < w.len() && #[trigger] w[q].range.has(i) implies w[q].highlight == #[trigger] at(n, i).highlight by {
            if q >= v.len() {
                assert forall|d: int| !is_child(n, i, d) by { if is_child(n, i, d) { let _ = n.nested@[d];
                    let m = if next is Some { k - 1 } else { k };
                    assert(wf(n.nested@[d])); if d < m { if d < m - 1 { assert(wf(n.nested@[m - 1]) && n.nested@[d].g().end.raw <= n.nested@[m - 1].g().start.raw); } } else if d > m { assert(wf(n.nested@[m]) && n.nested@[m].g().end.raw <= n.nested@[d].g().start.raw); } } }
            } else { assert(v[q].range.has(i)); }
        }
    }
//@in loop 0 end
    proof {
        let v = acc2.skip(a0.len() as int); let c = n.nested@[nested.k@ - 1]; let u = acc@.skip(acc2.len() as int); let w = acc@.skip(a0.len() as int);
        assert(w =~= v + u); assert(acc@.take(a0.len() as int) =~= acc@.take(acc2.len() as int).take(a0.len() as int)); assert(acc2.take(a0.len() as int) =~= a0);
        lemma_tiles(v, u, s0, c.g().start.raw as int, c.g().end.raw as int);
        assert forall|q: int, i: int| 0 <= q < w.len() && #[trigger] w[q].range.has(i) implies w[q].highlight == #[trigger] at(n, i).highlight by {
            if q >= v.len() {
                assert(u[q - v.len()].range.has(i)); lemma_tile_in(u, c.g().start.raw as int, c.g().end.raw as int, q - v.len());
                assert(is_child(n, i, nested.k@ - 1)); lemma_at_child(n, i, nested.k@ - 1);
                assert(at(c, i).highlight == w[q].highlight);
            } else { assert(v[q].range.has(i)); }
        }
    }
//@end
}
impl Highlights {
//@fn crates/ide/src/syntax_highlighting/highlights.rs Highlights::new
//@ret r
//@spec
    requires range.wf()
    ensures wf(r.root), r.root.g() == range, forall|i: int| at(r.root, i) == r.root.hl_range, r.root.hl_range.highlight.tag == no_tag()
//@end
//@fn crates/ide/src/syntax_highlighting/highlights.rs Highlights::add
//@spec
    requires wf(old(self).root), hl_range.range.wf(), inside(hl_range.range, old(self).root.g()), fits(old(self).root, hl_range.range)
    ensures added(old(self).root, final(self).root, hl_range)
//@end
//@fn crates/ide/src/syntax_highlighting/highlights.rs Highlights::to_vec
//@ret r
//@spec
    requires wf(self.root)
    ensures tiles(r@, self.root.g().start.raw as int, self.root.g().end.raw as int), shows(r@, self.root)
//@in fn end
    proof { assert(res@.skip(0) =~= res@); }
//@end
}
proof fn lemma_tiles(v: Seq<HlRange>, u: Seq<HlRange>, a: int, m: int, b: int)
    requires tiles(v, a, m), tiles(u, m, b) ensures tiles(v + u, a, b) decreases u.len()
{
    if u.len() == 0 { assert(v + u =~= v); } else { lemma_tiles(v, u.drop_last(), a, m, u.last().range.start.raw as int); assert((v + u).drop_last() =~= v + u.drop_last()); }
}
proof fn lemma_tile_in(u: Seq<HlRange>, a: int, b: int, q: int)
    requires tiles(u, a, b), 0 <= q < u.len() ensures a <= u[q].range.start.raw < u[q].range.end.raw <= b decreases u.len()
{ if u.len() > 0 { lemma_tile_order(u.drop_last(), a, u.last().range.start.raw as int); if q < u.len() - 1 { lemma_tile_in(u.drop_last(), a, u.last().range.start.raw as int, q); } } }
proof fn lemma_tile_order(u: Seq<HlRange>, a: int, b: int) requires tiles(u, a, b) ensures a <= b decreases u.len()
{ if u.len() > 0 { lemma_tile_order(u.drop_last(), a, u.last().range.start.raw as int); } }
pub open spec fn flat(n: Node, a: Seq<HlRange>, b: Seq<HlRange>) -> bool {
    let v = b.skip(a.len() as int);
    a.len() <= b.len() && b.take(a.len() as int) == a && tiles(v, n.g().start.raw as int, n.g().end.raw as int) && shows(v, n)
}
}
