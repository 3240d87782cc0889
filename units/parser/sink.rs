// ================= from tokens to events to the tree
//@rewrite mem :: replace ( & mut events [ $i ] , $$b ) =>> vx_replace_at(&mut events, $i, $b)
//@rewrite mem :: replace ( & mut $s . state , $$b ) =>> vx_replace(&mut $s.state, $b)
#[verifier::external_body]
pub fn vx_replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { std::mem::replace(a, b) }
#[verifier::external_body]
pub fn vx_replace_at(v: &mut Vec<Event>, i: usize, b: Event) -> (r: Event) requires i < old(v)@.len() ensures r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, b) { std::mem::replace(&mut v[i], b) }
/// `v.drain(..).rev()`
#[verifier::external_body]
pub fn vx_drain_rev<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures final(v)@.len() == 0, r@ == old(v)@.reverse() { v.drain(..).rev().collect() }
/// `&v[a..b]`
#[verifier::external_body]
pub fn vx_sub<T>(v: &[T], a: usize, b: usize) -> (r: &[T]) requires a <= b <= v@.len() ensures r@ == v@.subrange(a as int, b as int) { &v[a..b] }
/// `.iter().map(f).sum()`
#[verifier::external_body]
pub fn vx_map_sum<F: Fn(&RawToken) -> TextSize>(v: &[RawToken], f: F) -> (r: TextSize)
    requires forall|x: &RawToken| call_requires(f, (x,)), forall|x: &RawToken, y: TextSize| call_ensures(f, (x,), y) ==> y == x.len, rsum(v@, v@.len() as int) <= u32::MAX
    ensures r.raw == rsum(v@, v@.len() as int) { unimplemented!() }
/// `.iter().take_while(f).count()`
#[verifier::external_body]
pub fn vx_take_while_count<F: Fn(&RawToken) -> bool>(v: &[RawToken], f: F) -> (r: usize)
    requires forall|x: &RawToken| call_requires(f, (x,))
    ensures r <= v@.len(), forall|i: int| 0 <= i < r ==> call_ensures(f, (&#[trigger] v@[i],), true), r < v@.len() ==> call_ensures(f, (&v@[r as int],), false) { unimplemented!() }
pub struct VxPeek<'a> { pub v: Ghost<Seq<(SyntaxKind, &'a str)>>, pub k: Ghost<int> }
/// `.enumerate().peekable()` over the trivia
#[verifier::external_body]
pub fn vx_enum_peekable<'a>(v: Vec<(SyntaxKind, &'a str)>) -> (r: VxPeek<'a>) ensures r.v@ == v@, r.k@ == 0 { unimplemented!() }
impl<'a> VxPeek<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, (SyntaxKind, &'a str))>)
        ensures final(self).v == old(self).v, 0 <= old(self).k@ < old(self).v@.len() ==> r == Some((old(self).k@ as usize, old(self).v@[old(self).k@])) && final(self).k@ == old(self).k@ + 1 && old(self).k@ <= usize::MAX,
            old(self).k@ == old(self).v@.len() ==> r is None && final(self).k == old(self).k { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<(SyntaxKind, &'a str)>)
        ensures *final(self) == *old(self), 0 <= old(self).k@ < old(self).v@.len() ==> r == Some(old(self).v@[old(self).k@]), old(self).k@ == old(self).v@.len() ==> r is None { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_contains(t: &str, p: &str) -> bool { t.contains(p) }
//@item crates/syntax/src/ast/token_ext.rs CommentShape derive(Clone, Copy, PartialEq, Eq, Structural)
//@item crates/syntax/src/ast/token_ext.rs CommentPlacement derive(Clone, Copy, PartialEq, Eq, Structural)
//@item crates/syntax/src/ast/token_ext.rs CommentKind derive(Clone, Copy)
//@pin crates/syntax/src/ast/token_ext.rs const BY_PREFIX
/// trusted here: a text which starts like a comment has a comment kind (the prefix table ends with // and /*)
#[verifier::external_body]
pub fn vx_comment_kind(t: &str) -> CommentKind requires is_comment(t@) { unimplemented!() }
//@pin crates/syntax/src/ast/token_ext.rs ( "//" , CommentKind { shape : CommentShape :: Line , doc : None , } , )
//@pin crates/syntax/src/ast/token_ext.rs ( "/*" , CommentKind { shape : CommentShape :: Block , doc : None , } , )

// ---- trusted: rowan's tree builder, as used by SyntaxTreeBuilder
#[verifier::external_body]
pub struct GreenNode { }
impl GreenNode { pub uninterp spec fn text(self) -> Seq<char>; }
pub struct SyntaxTreeBuilder { pub text: Ghost<Seq<char>>, pub depth: Ghost<int>, pub roots: Ghost<int> }
//@pin crates/syntax/src/syntax_node.rs pub fn token ( & mut self , kind : SyntaxKind , text : & str ) { let kind = Aptos :: kind_to_raw ( kind ) ; self . inner . token ( kind , text ) ; }
//@pin crates/syntax/src/syntax_node.rs pub fn start_node ( & mut self , kind : SyntaxKind ) { let kind = Aptos :: kind_to_raw ( kind ) ; self . inner . start_node ( kind ) ; }
//@pin crates/syntax/src/syntax_node.rs pub fn finish_node ( & mut self ) { self . inner . finish_node ( ) ; }
impl SyntaxTreeBuilder {
    #[verifier::external_body]
    pub fn default() -> (r: SyntaxTreeBuilder) ensures r.text@ == Seq::<char>::empty(), r.depth@ == 0, r.roots@ == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn token(&mut self, kind: SyntaxKind, text: &str) requires old(self).depth@ >= 1
        ensures final(self).text@ == old(self).text@ + text@, final(self).depth == old(self).depth, final(self).roots == old(self).roots { unimplemented!() }
    #[verifier::external_body]
    pub fn start_node(&mut self, kind: SyntaxKind)
        ensures final(self).text == old(self).text, final(self).depth@ == old(self).depth@ + 1, final(self).roots == old(self).roots { unimplemented!() }
    #[verifier::external_body]
    pub fn finish_node(&mut self) requires old(self).depth@ >= 1
        ensures final(self).text == old(self).text, final(self).depth@ == old(self).depth@ - 1, final(self).roots@ == old(self).roots@ + (if old(self).depth@ == 1 { 1int } else { 0 }) { unimplemented!() }
    #[verifier::external_body]
    pub fn error(&mut self, error: ParseError, text_pos: TextSize)
        ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish_raw(self) -> (r: (GreenNode, Vec<SyntaxError>)) requires self.depth@ == 0, self.roots@ == 1 ensures r.0.text() == self.text@ { unimplemented!() }
}
// ---- lemmas about raw tokens
pub proof fn lemma_rsum(t: Seq<char>, v: Seq<RawToken>, i: int, k: int)
    requires raw_ok(t, v), 0 <= i <= k <= v.len()
    ensures 0 <= rsum(v, i) <= rsum(v, k) <= u32::MAX, i < k ==> rsum(v, i) < rsum(v, k), k <= rsum(v, k) <= encode_utf8(t).len(), v.len() <= u32::MAX decreases k - i
{ lemma_rsum_pos(v, i); lemma_rsum_up(t, v, k); lemma_len(t, v, k); lemma_len(t, v, v.len() as int); if i < k { lemma_rsum(t, v, i, k - 1); } }
pub proof fn lemma_rsum_pos(v: Seq<RawToken>, i: int) requires 0 <= i <= v.len() ensures rsum(v, i) >= 0 decreases i { if i > 0 { lemma_rsum_pos(v, i - 1); } }
pub proof fn lemma_rsum_up(t: Seq<char>, v: Seq<RawToken>, k: int) requires raw_ok(t, v), 0 <= k <= v.len() ensures rsum(v, k) <= rsum(v, v.len() as int) decreases v.len() - k
{ if k < v.len() { lemma_rsum_up(t, v, k + 1); } }
pub proof fn lemma_rsum_cat(v: Seq<RawToken>, a: int, b: int)
    requires 0 <= a <= b <= v.len() ensures rsum(v.subrange(a, b), b - a) == rsum(v, b) - rsum(v, a) decreases b
{
    if a < b { lemma_rsum_cat(v, a, b - 1); let w = v.subrange(a, b); let u = v.subrange(a, b - 1); lemma_rsum_pre(w, u, b - 1 - a); assert(w[b - a - 1] == v[b - 1]); }
}
pub proof fn lemma_rsum_pre(w: Seq<RawToken>, u: Seq<RawToken>, k: int)
    requires 0 <= k <= w.len(), k <= u.len(), forall|i: int| 0 <= i < k ==> w[i] == u[i] ensures rsum(w, k) == rsum(u, k) decreases k
{ if k > 0 { lemma_rsum_pre(w, u, k - 1); } }
/// the non-trivia tokens of a prefix are a prefix of all of them
pub proof fn lemma_nt(v: Seq<RawToken>, i: int, k: int)
    requires 0 <= i <= k <= v.len() ensures nt(v, i).len() <= nt(v, k).len(), nt(v, i) == nt(v, k).take(nt(v, i).len() as int), i < k && !trivia(v[i].kind) ==> nt(v, i).len() < nt(v, k).len() && nt(v, k)[nt(v, i).len() as int] == (v[i], TextSize { raw: rsum(v, i) as u32 }) decreases k
{
    if i < k { lemma_nt(v, i, k - 1); let a = nt(v, i); let b = nt(v, k - 1); let c = nt(v, k); assert(c.take(a.len() as int) =~= b.take(a.len() as int)); }
    else { assert(nt(v, k).take(nt(v, k).len() as int) =~= nt(v, k)); }
}
pub proof fn lemma_nt_in(t: Seq<char>, v: Seq<RawToken>, k: int, j: int)
    requires raw_ok(t, v), 0 <= k <= v.len(), 0 <= j < nt(v, k).len()
    ensures exists|i: int| 0 <= i < k && nt(v, k)[j].0 == #[trigger] v[i] && nt(v, k)[j].1.raw == rsum(v, i) && !trivia(v[i].kind) && nt(v, i).len() == j decreases k
{ if k > 0 { lemma_rsum(t, v, k - 1, k); if !trivia(v[k - 1].kind) && j == nt(v, k - 1).len() { assert(nt(v, k)[j].0 == v[k - 1]); } else { lemma_nt_in(t, v, k - 1, j); } } }
/// tokens that touch are next to each other
pub proof fn lemma_joint(t: Seq<char>, v: Seq<RawToken>, i: int)
    requires raw_ok(t, v), 0 <= i < v.len(), !trivia(v[i].kind), joint(nt(v, v.len() as int), nt(v, i).len() as int)
    ensures i + 1 < v.len(), !trivia(v[i + 1].kind), nt(v, i + 1).len() == nt(v, i).len() + 1
{
    let n = v.len() as int; let a = nt(v, n); let c = nt(v, i).len() as int;
    lemma_nt(v, i, n); lemma_rsum(t, v, i, n);
    lemma_nt_in(t, v, n, c + 1);
    let k = choose|k: int| 0 <= k < n && a[c + 1].0 == #[trigger] v[k] && a[c + 1].1.raw == rsum(v, k) && !trivia(v[k].kind) && nt(v, k).len() == c + 1;
    if k <= i { lemma_nt(v, k, i); }
    if k > i + 1 { lemma_rsum(t, v, i + 1, k); }
    assert(rsum(v, i + 1) == rsum(v, i) + v[i].len.raw);
}
pub proof fn lemma_toks_ok(t: Seq<char>, v: Seq<RawToken>, k: int)
    requires raw_ok(t, v), 0 <= k <= v.len() ensures toks_ok(t, nt(v, k)), nt(v, k).len() <= k, nt(v, k).len() > 0 ==> nt(v, k).last().1.raw + nt(v, k).last().0.len.raw <= rsum(v, k) decreases k
{ if k > 0 { lemma_toks_ok(t, v, k - 1); reveal(words_from); lemma_rsum(t, v, k - 1, k); lemma_rsum(t, v, k, k); assert(rsum(v, k) == rsum(v, k - 1) + v[k - 1].len.raw); assert(is_bo(t, rsum(v, k - 1))); assert(is_bo(t, rsum(v, k))); } }
pub proof fn lemma_len(t: Seq<char>, v: Seq<RawToken>, k: int) requires raw_ok(t, v), 0 <= k <= v.len() ensures k <= rsum(v, k) decreases k { if k > 0 { lemma_len(t, v, k - 1); } }

impl SyntaxKind {
    //@fn crates/syntax/src/syntax_kind.rs SyntaxKind::is_trivia
    //@ret r
    //@spec
        ensures r == trivia(self)
    //@end
}
impl TextTokenSource {
    //@fn crates/syntax/src/parse/text_token_source.rs TextTokenSource::new
    //@ret r
    //@rewrite let raw_tokens_with_offsets : Vec < _ > = raw_tokens . iter ( ) . filter_map ( { let mut offset = 0 . into ( ) ; move | token | $b } ) . collect ( ) ; =>> let mut raw_tokens_with_offsets: Vec<(RawToken, TextSize)> = Vec::new(); let mut offset: TextSize = TextSize::new(0); let mut vx_i: usize = 0; while vx_i < raw_tokens.len() /*@{ invariant raw_ok(text@, raw_tokens@), vx_i <= raw_tokens@.len(), offset.raw == rsum(raw_tokens@, vx_i as int), raw_tokens_with_offsets@ == nt(raw_tokens@, vx_i as int), decreases raw_tokens@.len() - vx_i }@*/ { let token = &raw_tokens[vx_i]; /*@{ proof { lemma_rsum(text@, raw_tokens@, vx_i as int, vx_i + 1); } }@*/ let vx_x = $b; if let Some(x) = vx_x { raw_tokens_with_offsets.push(x); } vx_i += 1; }
    //@rewrite text . to_string ( ) =>> vx_to_string(text)
    //@spec
        requires raw_ok(text@, raw_tokens@)
        ensures r.wf(), r.text@ == text@, r.toks() == nt(raw_tokens@, raw_tokens@.len() as int), r.curr.1 == 0
    //@in fn begin
        hide(raw_ok);
        proof { lemma_toks_ok(text@, raw_tokens@, raw_tokens@.len() as int); lemma_rsum(text@, raw_tokens@, 0, raw_tokens@.len() as int); assert(nt(raw_tokens@, 0) =~= Seq::empty()); }
    //@end
}
#[verifier::external_body]
pub fn vx_to_string(t: &str) -> (r: String) ensures r@ == t@ { t.to_string() }
//@rewrite & $a [ $$x .. $$y ] =>> vx_sub(&$a, $x, $y)

//@item crates/syntax/src/parse/text_tree_sink.rs State
//@item crates/syntax/src/parse/text_tree_sink.rs TextTreeSink
impl<'t> TextTreeSink<'t> {
    /// nodes open, once a pending end of node is carried out
    pub open spec fn depth(self) -> int { self.tree_builder.depth@ - (if self.state is PendingFinish { 1int } else { 0 }) }
    /// tokens other than whitespace and comments placed so far
    pub open spec fn placed(self) -> int { nt(self.tokens@, self.token_pos as int).len() as int }
    pub open spec fn wf(self) -> bool {
        &&& raw_ok(self.text@, self.tokens@)
        &&& self.token_pos <= self.tokens@.len() && self.text_pos.raw == rsum(self.tokens@, self.token_pos as int)
        &&& forall|k: int| 0 <= k <= self.text@.len() && #[trigger] bo(self.text@, k) == self.text_pos.raw ==> self.tree_builder.text@ == self.text@.take(k)
        &&& self.tree_builder.roots@ == 0
        &&& (self.state is PendingStart ==> self.tree_builder.depth@ == 0 && self.token_pos == 0)
        &&& (!(self.state is PendingStart) ==> self.tree_builder.depth@ >= 1)
    }
    pub open spec fn keeps(self, o: Self) -> bool { self.text == o.text && self.tokens == o.tokens && self.token_pos >= o.token_pos }
    //@fn crates/syntax/src/parse/text_tree_sink.rs TextTreeSink::new
    //@ret r
    //@rewrite 0 . into ( ) =>> TextSize::new(0)
    //@spec
        requires raw_ok(text@, tokens@)
        ensures r.wf(), r.text == text, r.tokens == tokens, r.token_pos == 0, r.state is PendingStart
    //@in fn begin
        proof { lemma_rsum(text@, tokens@, 0, 0); lemma_bo_zero(text@); assert forall|k: int| 0 <= k <= text@.len() && #[trigger] bo(text@, k) == 0 implies text@.take(k) =~= Seq::<char>::empty() by { lemma_bo(text@, 0, k); } }
    //@end
    //@fn crates/syntax/src/parse/text_tree_sink.rs TextTreeSink::do_token
    //@rewrite & self . text [ range ] =>> vx_slice(self.text, range.start().vx_usize(), range.end().vx_usize())
    //@spec
        requires old(self).wf(), old(self).state is Normal || old(self).state is PendingFinish, old(self).token_pos + n_tokens <= old(self).tokens@.len(),
            len.raw == rsum(old(self).tokens@, old(self).token_pos + n_tokens) - rsum(old(self).tokens@, old(self).token_pos as int)
        ensures final(self).wf(), final(self).keeps(*old(self)), final(self).token_pos == old(self).token_pos + n_tokens, final(self).state == old(self).state, final(self).tree_builder.depth == old(self).tree_builder.depth
    //@in fn begin
        proof {
            let a = self.token_pos as int; let z = a + n_tokens; let t = self.text@; let v = self.tokens@;
            lemma_rsum(t, v, a, z);
            assert(is_bo(t, rsum(v, a)) && is_bo(t, rsum(v, z)));
            let i = choose|i: int| 0 <= i <= t.len() && bo(t, i) == rsum(v, a); let k = choose|k: int| 0 <= k <= t.len() && bo(t, k) == rsum(v, z);
            assert(bo(t, i) == rsum(v, a) && bo(t, k) == rsum(v, z));
            if k < i { lemma_bo(t, k, i); }
            assert(t.take(i) + t.subrange(i, k) =~= t.take(k));
            assert forall|j: int| 0 <= j <= t.len() && #[trigger] bo(t, j) == rsum(v, z) implies j == k by { if j < k { lemma_bo(t, j, k); } if k < j { lemma_bo(t, k, j); } }
        }
    //@end
    //@fn crates/syntax/src/parse/text_tree_sink.rs TextTreeSink::eat_trivias
    //@rewrite Some ( & token ) =>> Some(token)
    //@spec
        requires old(self).wf(), old(self).state is Normal || old(self).state is PendingFinish
        ensures final(self).wf(), final(self).keeps(*old(self)), final(self).state == old(self).state, final(self).tree_builder.depth == old(self).tree_builder.depth, final(self).placed() == old(self).placed(),
            final(self).token_pos < final(self).tokens@.len() ==> !trivia(final(self).tokens@[final(self).token_pos as int].kind)
    //@loop 0
        invariant self.wf(), self.keeps(*old(self)), self.state == old(self).state, self.state is Normal || self.state is PendingFinish, self.tree_builder.depth == old(self).tree_builder.depth, self.placed() == old(self).placed()
        ensures self.token_pos < self.tokens@.len() ==> !trivia(self.tokens@[self.token_pos as int].kind)
        decreases self.tokens@.len() - self.token_pos
    //@end
    //@fn crates/syntax/src/parse/text_tree_sink.rs TextTreeSink::eat_n_trivias
    //@spec
        requires old(self).wf(), old(self).state is Normal || old(self).state is PendingFinish, old(self).token_pos + n <= old(self).tokens@.len(),
            forall|i: int| old(self).token_pos <= i < old(self).token_pos + n ==> trivia(#[trigger] old(self).tokens@[i].kind)
        ensures final(self).wf(), final(self).keeps(*old(self)), final(self).state == old(self).state, final(self).tree_builder.depth == old(self).tree_builder.depth, final(self).placed() == old(self).placed(), final(self).token_pos == old(self).token_pos + n
    //@loop 0 iter it
        invariant self.wf(), self.keeps(*old(self)), self.state == old(self).state, self.state is Normal || self.state is PendingFinish, self.tree_builder.depth == old(self).tree_builder.depth, self.placed() == old(self).placed(),
            self.token_pos == old(self).token_pos + it.index@, old(self).token_pos + n <= old(self).tokens@.len(), forall|i: int| old(self).token_pos <= i < old(self).token_pos + n ==> trivia(#[trigger] old(self).tokens@[i].kind)
    //@end
    //@fn crates/syntax/src/parse/text_tree_sink.rs TextTreeSink::token
    //@rewrite self . tokens [ $$x .. $$y ] . iter ( ) . map ( | $i | $$f ) . sum :: < TextSize > ( ) =>> vx_map_sum(vx_sub(self.tokens, $x, $y), |$i: &RawToken| -> (l: TextSize) ensures l == $i.len { $f })
    //@spec
        requires old(self).wf(), !(old(self).state is PendingStart), old(self).depth() >= 1, n_tokens >= 1,
            old(self).placed() + n_tokens <= nt(old(self).tokens@, old(self).tokens@.len() as int).len(),
            forall|j: int| old(self).placed() <= j < old(self).placed() + n_tokens - 1 ==> joint(nt(old(self).tokens@, old(self).tokens@.len() as int), j)
        ensures final(self).wf(), final(self).keeps(*old(self)), !(final(self).state is PendingStart), final(self).depth() == old(self).depth(), final(self).placed() == old(self).placed() + n_tokens
    //@after eat_trivias
        proof { lemma_rsum(self.text@, self.tokens@, self.token_pos as int, self.tokens@.len() as int); lemma_run_of(self.text@, self.tokens@, self.token_pos as int, n_tokens as int); lemma_rsum_cat(self.tokens@, self.token_pos as int, self.token_pos + n_tokens); lemma_rsum(self.text@, self.tokens@, self.token_pos as int, self.token_pos + n_tokens); }
    //@end
    //@fn crates/syntax/src/parse/text_tree_sink.rs TextTreeSink::start_node
    //@rewrite self . tokens [ $$x .. ] . iter ( ) . take_while ( | $i | $$f ) . count ( ) =>> vx_take_while_count(vx_sub(self.tokens, $x, self.tokens.len()), |$i: &RawToken| -> (b: bool) ensures b == trivia($i.kind) { $f })
    //@rewrite leading_trivias . iter ( ) . map ( | $i | $$f ) . sum :: < TextSize > ( ) =>> vx_map_sum(leading_trivias, |$i: &RawToken| -> (l: TextSize) ensures l == $i.len { $f })
    //@rewrite let leading_trivias = leading_trivias . iter ( ) . rev ( ) . map ( | it | $b ) ; =>> let mut vx_v: Vec<(SyntaxKind, &str)> = Vec::new(); let mut vx_i = leading_trivias.len(); while vx_i > 0 /*@{ invariant raw_ok(self.text@, self.tokens@), vx_i <= leading_trivias@.len(), vx_v@.len() == leading_trivias@.len() - vx_i, leading_trivias@ == self.tokens@.subrange(self.token_pos as int, self.token_pos + leading_trivias@.len()), self.token_pos + leading_trivias@.len() <= self.tokens@.len(), trivia_end.raw == rsum(self.tokens@, self.token_pos + vx_i), forall|i: int| 0 <= i < vx_v@.len() ==> ((#[trigger] vx_v@[i]).0 == COMMENT ==> is_comment(vx_v@[i].1@)), decreases vx_i }@*/ { vx_i -= 1; /*@{ proof { let k = self.token_pos + vx_i; lemma_rsum(self.text@, self.tokens@, k, k + 1); lemma_rsum(self.text@, self.tokens@, k, k); assert(is_bo(self.text@, rsum(self.tokens@, k)) && is_bo(self.text@, rsum(self.tokens@, k + 1))); lemma_comment(self.text@, self.tokens@, k); } }@*/ let it = &leading_trivias[vx_i]; let vx_x: (SyntaxKind, &str) = $b; vx_v.push(vx_x); } let leading_trivias = vx_v;
    //@rewrite & self . text [ range ] =>> vx_slice(self.text, range.start().vx_usize(), range.end().vx_usize())
    //@spec
        requires old(self).wf(), old(self).state is PendingStart || old(self).depth() >= 1
        ensures final(self).wf(), final(self).keeps(*old(self)), final(self).state is Normal, final(self).placed() == old(self).placed(),
            final(self).depth() == (if old(self).state is PendingStart { 1 } else { old(self).depth() + 1 })
    //@in fn begin
        proof { lemma_rsum(self.text@, self.tokens@, self.token_pos as int, self.tokens@.len() as int); }
    //@after let n_trivias
        proof {
            let a = self.token_pos as int; let n = n_trivias as int; let w = self.tokens@.subrange(a, self.tokens@.len() as int);
            assert forall|i: int| a <= i < a + n implies trivia(#[trigger] self.tokens@[i].kind) by { assert(w[i - a] == self.tokens@[i]); assert(trivia(w[i - a].kind)); }
            lemma_rsum_cat(self.tokens@, a, a + n); lemma_rsum(self.text@, self.tokens@, a, a + n);
            lemma_rsum(self.text@, self.tokens@, a + n, self.tokens@.len() as int);
        }
    //@end
    //@fn crates/syntax/src/parse/text_tree_sink.rs TextTreeSink::finish_node
    //@spec
        requires old(self).wf(), !(old(self).state is PendingStart), old(self).depth() >= 1
        ensures final(self).wf(), final(self).keeps(*old(self)), final(self).state is PendingFinish, final(self).depth() == old(self).depth() - 1, final(self).placed() == old(self).placed()
    //@end
    //@fn crates/syntax/src/parse/text_tree_sink.rs TextTreeSink::finish
    //@ret r
    //@spec
        requires self.wf(), self.state is PendingFinish, self.depth() == 0, self.placed() == nt(self.tokens@, self.tokens@.len() as int).len()
        ensures r.0.text() == self.text@
    //@after eat_trivias
        proof {
            let t = self.text@; let v = self.tokens@; let n = v.len() as int; let k = vx_self.token_pos as int;
            lemma_rsum(t, v, k, n); if k < n { lemma_nt(v, k, n); }
            assert(t.take(t.len() as int) =~= t); assert(bo(t, t.len() as int) == encode_utf8(t).len());
        }
    //@end
    //@fn crates/syntax/src/parse/text_tree_sink.rs TextTreeSink::error
    //@spec
        requires old(self).wf() ensures *final(self) == *old(self)
    //@end
}
/// a comment token is a comment wherever it is cut out
pub proof fn lemma_comment(t: Seq<char>, v: Seq<RawToken>, k: int)
    requires raw_ok(t, v), 0 <= k < v.len()
    ensures v[k].kind == COMMENT ==> exists|i: int, j: int| 0 <= i <= j <= t.len() && #[trigger] bo(t, i) == rsum(v, k) && #[trigger] bo(t, j) == rsum(v, k + 1) && is_comment(t.subrange(i, j))
{
    assert(is_bo(t, rsum(v, k)) && is_bo(t, rsum(v, k + 1)));
    let i = choose|i: int| 0 <= i <= t.len() && bo(t, i) == rsum(v, k); let j = choose|j: int| 0 <= j <= t.len() && bo(t, j) == rsum(v, k + 1);
    assert(rsum(v, k + 1) >= rsum(v, k));
    if j < i { lemma_bo(t, j, i); }
    assert(bo(t, i) == rsum(v, k) && bo(t, j) == rsum(v, k + 1));
}
//@fn crates/syntax/src/parse/text_tree_sink.rs n_attached_trivias
//@ret r
//@rewrite impl Iterator < Item = ( SyntaxKind , & 'a str ) > =>> Vec<(SyntaxKind, &'a str)>
//@rewrite trivias . enumerate ( ) . peekable ( ) =>> vx_enum_peekable(trivias)
//@rewrite trivias . peek ( ) . map ( | ( _ , pair ) | pair ) =>> trivias.peek()
//@rewrite ast :: CommentKind :: from_text ( $a ) =>> vx_comment_kind($a)
//@rewrite ast :: CommentPlacement =>> CommentPlacement
//@rewrite text . contains ( $a ) =>> vx_contains(text, $a)
//@spec
    requires forall|i: int| 0 <= i < trivias@.len() ==> ((#[trigger] trivias@[i]).0 == COMMENT ==> is_comment(trivias@[i].1@)), trivias@.len() < usize::MAX
    ensures r <= trivias@.len()
//@in fn begin
    let ghost v0 = trivias@;
//@loop 0
    invariant trivias.v@ == v0, 0 <= trivias.k@ <= v0.len(), v0.len() < usize::MAX, res <= v0.len(), forall|i: int| 0 <= i < v0.len() ==> ((#[trigger] v0[i]).0 == COMMENT ==> is_comment(v0[i].1@))
    ensures res <= v0.len()
    decreases v0.len() - trivias.k@
//@end
/// the next n tokens of the parser are the next n raw tokens
pub proof fn lemma_run_of(t: Seq<char>, v: Seq<RawToken>, a: int, n: int)
    requires raw_ok(t, v), 0 <= a <= v.len(), n >= 1, a < v.len() ==> !trivia(v[a].kind), nt(v, a).len() + n <= nt(v, v.len() as int).len(),
        forall|j: int| nt(v, a).len() <= j < nt(v, a).len() + n - 1 ==> joint(nt(v, v.len() as int), j)
    ensures a + n <= v.len(), nt(v, a + n).len() == nt(v, a).len() + n decreases n
{
    if n == 1 { if a == v.len() {} else { } }
    else { lemma_joint(t, v, a); assert forall|j: int| nt(v, a + 1).len() <= j < nt(v, a + 1).len() + (n - 1) - 1 implies joint(nt(v, v.len() as int), j) by { } lemma_run_of(t, v, a + 1, n - 1); }
}

// ---- events to sink calls
pub open spec fn nst(ev: Seq<Event>, i: int) -> int decreases ev.len() - i { if i < 0 || i >= ev.len() { 0 } else { (if is_node(ev[i]) { 1int } else { 0 }) + nst(ev, i + 1) } }
pub open spec fn tomb() -> Event { Event::Start { kind: TOMBSTONE, forward_parent: None } }
/// each start event is as it was or already emitted
pub open spec fn wornb(o: Seq<Event>, n: Seq<Event>, k: int) -> bool { n.len() == o.len() && forall|i: int| 0 <= i < o.len() ==> #[trigger] n[i] == o[i] || ((o[i] is Start || i < k) && n[i] == tomb()) }
pub proof fn lemma_nst_update(ev: Seq<Event>, j: int, i: int)
    requires 0 <= j < ev.len(), ev[j] is Start, 0 <= i <= ev.len()
    ensures nst(ev.update(j, tomb()), i) == nst(ev, i) - (if i <= j && is_node(ev[j]) { 1int } else { 0 }) decreases ev.len() - i
{ if i < ev.len() { lemma_nst_update(ev, j, i + 1); } }
pub proof fn lemma_nst_worn(o: Seq<Event>, n: Seq<Event>, i: int, k: int) requires wornb(o, n, k), 0 <= i <= o.len() ensures 0 <= nst(n, i) <= nst(o, i) decreases o.len() - i
{ if i < o.len() { lemma_nst_worn(o, n, i + 1, k); assert(n[i] == o[i] || n[i] == tomb()); } }
pub open spec fn nodes(s: Seq<SyntaxKind>) -> int decreases s.len() { if s.len() == 0 { 0 } else { nodes(s.drop_last()) + (if s.last() != TOMBSTONE { 1int } else { 0 }) } }
pub proof fn lemma_nodes_push(s: Seq<SyntaxKind>, k: SyntaxKind) ensures nodes(s.push(k)) == nodes(s) + (if k != TOMBSTONE { 1int } else { 0 }) { assert(s.push(k).drop_last() =~= s); }
pub proof fn lemma_nodes_rev(s: Seq<SyntaxKind>, k: int) requires 0 <= k <= s.len() ensures nodes(s.reverse().take(k)) == nodes(s) - nodes(s.take(s.len() - k)), nodes(s) >= 0 decreases k
{ lemma_nodes_pos(s); if k == 0 { assert(s.take(s.len() as int) =~= s); assert(s.reverse().take(0) =~= Seq::<SyntaxKind>::empty()); } else { lemma_nodes_rev(s, k - 1); assert(s.reverse().take(k) =~= s.reverse().take(k - 1).push(s[s.len() - k])); lemma_nodes_push(s.reverse().take(k - 1), s[s.len() - k]); assert(s.take(s.len() - k + 1) =~= s.take(s.len() - k).push(s[s.len() - k])); lemma_nodes_push(s.take(s.len() - k), s[s.len() - k]); } }
pub proof fn lemma_nodes_pos(s: Seq<SyntaxKind>) ensures nodes(s) >= 0 decreases s.len() { if s.len() > 0 { lemma_nodes_pos(s.drop_last()); } }
/// a complete parse: one root node around everything, all tokens consumed
pub open spec fn complete(ev: Seq<Event>, toks: Toks) -> bool {
    &&& evs(ev, toks) && used(ev) == toks.len() && ev.len() >= 2
    &&& ev[0] matches Event::Start { kind, forward_parent: None } && kind != TOMBSTONE
    &&& ev.last() is Finish
    &&& forall|k: int| 1 <= k < ev.len() ==> #[trigger] depth(ev.take(k)) >= 1
}
pub proof fn lemma_ev_at(ev: Seq<Event>, toks: Toks, i: int)
    requires ev_ok(ev, toks), 0 <= i < ev.len()
    ensures ev[i] matches Event::Token { kind, n_raw_tokens } ==> n_raw_tokens >= 1 && used(ev.take(i)) + n_raw_tokens <= toks.len() && forall|j: int| used(ev.take(i)) <= j < used(ev.take(i)) + n_raw_tokens - 1 ==> joint(toks, j)
{ lemma_take(ev, i + 1, toks); lemma_take_step(ev, i); assert(ev.take(i + 1).drop_last() =~= ev.take(i)); }
pub open spec fn nd(e: Event) -> int { if is_node(e) { 1 } else { 0 } }
/// what one event does to the counts
pub proof fn lemma_step(o: Seq<Event>, ev: Seq<Event>, toks: Toks, i: int)
    requires evs(o, toks), wornb(o, ev, i), 0 <= i < o.len()
    ensures ev.len() == o.len(), ev[i] == o[i] || (o[i] is Start && ev[i] == tomb()), wornb(o, ev.update(i, tomb()), i + 1),
        nst(ev, i) == nd(ev[i]) + nst(ev.update(i, tomb()), i + 1), nst(o, i) == nd(o[i]) + nst(o, i + 1),
        used(o.take(i + 1)) == used(o.take(i)) + ntok(o[i]), depth(o.take(i + 1)) == depth(o.take(i)) + dd(o[i]), depth(o.take(i + 1)) >= 0,
        used(o.take(i)) >= 0, 0 <= nst(ev, i) <= nst(o, i), 0 <= nst(ev.update(i, tomb()), i + 1) <= nst(o, i + 1),
        ev[i] matches Event::Start { kind, forward_parent: Some(d) } ==> i + d < o.len() && o[i + d] is Start && d > 0,
        o[i] matches Event::Token { kind, n_raw_tokens } ==> n_raw_tokens >= 1 && used(o.take(i)) + n_raw_tokens <= toks.len() && forall|j: int| used(o.take(i)) <= j < used(o.take(i)) + n_raw_tokens - 1 ==> joint(toks, j)
{
    let u = ev.update(i, tomb());
    lemma_ev_at(o, toks, i); lemma_take_step(o, i); lemma_nst_same(ev, u, i + 1);
    assert(wornb(o, u, i + 1));
    lemma_nst_worn(o, ev, i, i); lemma_nst_worn(o, u, i + 1, i + 1); lemma_take(o, i, toks); lemma_take(o, i + 1, toks); lemma_used(o.take(i), toks);
    if let Event::Start { kind, forward_parent: Some(d) } = ev[i] { assert(fwd(o, i) == i + d); }
}
/// an event taken early, as the forward parent of an earlier one
pub proof fn lemma_early(o: Seq<Event>, ev: Seq<Event>, toks: Toks, i: int, j: int)
    requires evs(o, toks), wornb(o, ev, i + 1), 0 <= i < j < o.len(), o[j] is Start
    ensures ev[j] is Start, wornb(o, ev.update(j, tomb()), i + 1), nst(ev.update(j, tomb()), i + 1) == nst(ev, i + 1) - nd(ev[j]),
        ev[j] matches Event::Start { kind, forward_parent: Some(d) } ==> j + d < o.len() && o[j + d] is Start && d > 0,
{
    assert(ev[j] == o[j] || ev[j] == tomb());
    lemma_nst_update(ev, j, i + 1);
    if let Event::Start { kind, forward_parent: Some(d) } = ev[j] { assert(fwd(o, j) == j + d); }
}
//@fn crates/syntax/src/parse/event.rs process
//@rewrite for $k in forward_parents . drain ( .. ) . rev ( ) $b =>> for $k in /*@{ vx_it: }@*/ vx_drain_rev(&mut forward_parents) $b
//@spec
    requires old(sink).wf(), old(sink).state is PendingStart, old(sink).token_pos == 0, complete(events@, nt(old(sink).tokens@, old(sink).tokens@.len() as int))
    ensures final(sink).wf(), final(sink).keeps(*old(sink)), final(sink).state is PendingFinish, final(sink).depth() == 0,
        final(sink).placed() == nt(old(sink).tokens@, old(sink).tokens@.len() as int).len()
//@in fn begin
    hide(TextTreeSink::wf); hide(used); hide(depth); hide(nst); hide(ev_ok); hide(evs); hide(wornb); hide(nodes); hide(joint);
    let ghost o = events@; let ghost T = nt(sink.tokens@, sink.tokens@.len() as int); let ghost s0 = *sink;
    proof { assert(o.take(0) =~= Seq::<Event>::empty()); assert(o.take(o.len() as int) =~= o); assert(sink.tree_builder.depth@ == 0) by { reveal(TextTreeSink::wf); } assert(sink.placed() == 0) by { reveal_with_fuel(nt, 1); } }
    proof { assert(wornb(o, events@, 0)) by { reveal(wornb); } assert(depth(o.take(0)) == 0 && used(o.take(0)) == 0) by { reveal(depth); reveal(used); } assert(evs(o, T)); assert(depth(o) == 0) by { reveal(evs); } assert(nst(o, o.len() as int) == 0) by { reveal(nst); } }
//@loop 0 iter it
    invariant wornb(o, events@, it.index@), complete(o, T), evs(o, T), sink.wf(), sink.keeps(s0), T == nt(s0.tokens@, s0.tokens@.len() as int), forward_parents@.len() == 0,
        it.index@ == 0 ==> sink.state is PendingStart && events@ == o, it.index@ > 0 ==> !(sink.state is PendingStart),
        0 <= it.index@ <= o.len(), it.seq().len() == o.len(), o.take(o.len() as int) == o, events@.len() == o.len(), it.index@ == 0 ==> depth(o.take(it.index@)) == 0,
        sink.depth() == depth(o.take(it.index@)) + nst(o, it.index@) - nst(events@, it.index@),
        sink.placed() == used(o.take(it.index@)),
        it.index@ > 0 && o[it.index@ - 1] is Finish ==> sink.state is PendingFinish,
//@in loop 0 begin
    let ghost ev0 = events@; let ghost d0 = sink.depth(); let ghost u0 = used(o.take(i as int));
    proof { lemma_step(o, ev0, T, i as int); assert(events.len() <= usize::MAX); if i > 0 { assert(depth(o.take(i as int)) >= 1); assert(d0 >= 1); } }
//@after @loop 0
    proof { assert(nst(events@, o.len() as int) == 0) by { reveal(nst); } assert(depth(o) == 0) by { reveal(evs); } assert(used(o) == T.len()); }
//@before mut idx
    proof { assert(nodes(forward_parents@) == nd(ev0[i as int])) by { reveal_with_fuel(nodes, 2); } }
//@loop 1
    invariant wornb(o, events@, i + 1), evs(o, T), i <= idx < o.len(), events@.len() == o.len(), o.len() <= usize::MAX,
        fp matches Some(d) ==> idx < idx + d < o.len() && o[idx + d] is Start,
        forward_parents@.len() >= 1, i == 0 ==> forward_parents@[0] != TOMBSTONE,
        i == 0 ==> forward_parents@.len() == 1 && fp is None,
        nodes(forward_parents@) + nst(events@, i + 1) == nst(ev0, i as int),
    decreases o.len() - idx
//@in loop 1 begin
    let ghost ev1 = events@; let ghost f1 = forward_parents@;
    proof { lemma_early(o, ev1, T, i as int, idx + fwd); assert forall|k: SyntaxKind| nodes(#[trigger] f1.push(k)) == nodes(f1) + (if k != TOMBSTONE { 1int } else { 0 }) by { lemma_nodes_push(f1, k); } }
//@after @loop 1
    let ghost all = forward_parents@;
    proof { lemma_nodes_rev(all, all.len() as int); assert(all.take(0) =~= Seq::<SyntaxKind>::empty()); assert(all.reverse().take(all.len() as int) =~= all.reverse()); assert(all.reverse().take(0) =~= Seq::<SyntaxKind>::empty()); assert(nodes(Seq::<SyntaxKind>::empty()) == 0) by { reveal(nodes); } }
//@loop 2
    invariant nodes(all.reverse().take(0)) == 0, sink.wf(), sink.keeps(s0), forward_parents@.len() == 0, all.reverse().len() == all.len(), vx_it.seq() == all.reverse(), 0 <= vx_it.index@ <= all.len(),
        i > 0 ==> !(sink.state is PendingStart), i == 0 ==> all.len() == 1 && d0 == 0 && all[0] != TOMBSTONE, i == 0 && vx_it.index@ == 0 ==> sink.state is PendingStart,
        sink.depth() == d0 + nodes(all.reverse().take(vx_it.index@)), i > 0 ==> d0 >= 1,
        sink.placed() == u0, i == 0 && vx_it.index@ == 1 ==> !(sink.state is PendingStart)
//@in loop 2 begin
    proof { let r = all.reverse(); let n = vx_it.index@; assert(r[n] == kind); assert(r.take(n + 1) =~= r.take(n).push(r[n])); lemma_nodes_push(r.take(n), r[n]); lemma_nodes_pos(r.take(n)); if i == 0 { assert(r[0] == all[0]); } }
//@end
pub proof fn lemma_nst_same(a: Seq<Event>, b: Seq<Event>, i: int) requires a.len() == b.len(), 0 <= i, forall|j: int| i <= j < a.len() ==> a[j] == b[j] ensures nst(a, i) == nst(b, i) decreases a.len() - i { if i < a.len() { lemma_nst_same(a, b, i + 1); } }

// ---- the whole way: text -> tokens -> events -> tree
pub proof fn lemma_mono(o: Parser, n: Parser, k: int)
    requires o.wf(), n.wf(), extk(o, n, k), k == o.ev().len() ensures n.at_pos() >= o.at_pos()
{ assert(n.ev().take(k) =~= o.ev()); lemma_take(n.ev(), k, n.toks()); }
//@trust grammar
//@fn crates/syntax/src/parse/grammar/attributes.rs attrs
//@spec
    requires old(p).wf() ensures rule(*old(p), *final(p))
//@end
//@fn crates/syntax/src/parse/grammar.rs module
//@spec
    requires old(p).wf(), old(p).fresh(m), old(p).at_k(MODULE_KW) ensures final(p).wf(), extk(*old(p), *final(p), m.pos as int), final(p).open@ == old(p).open@ - 1, final(p).at_pos() > old(p).at_pos()
//@end
//@fn crates/syntax/src/parse/grammar.rs module_spec
//@spec
    requires old(p).wf(), old(p).fresh(m), old(p).at_k(SPEC_KW) ensures final(p).wf(), extk(*old(p), *final(p), m.pos as int), final(p).open@ == old(p).open@ - 1, final(p).at_pos() > old(p).at_pos()
//@end
//@fn crates/syntax/src/parse/grammar.rs script
//@spec
    requires old(p).wf(), old(p).fresh(m), old(p).at_k(SCRIPT_KW) ensures final(p).wf(), extk(*old(p), *final(p), m.pos as int), final(p).open@ == old(p).open@ - 1, final(p).at_pos() > old(p).at_pos()
//@end
//@fn crates/syntax/src/parse/grammar.rs address_def
//@spec
    requires old(p).wf(), old(p).fresh(m), old(p).cur() != EOF ensures final(p).wf(), extk(*old(p), *final(p), m.pos as int), final(p).open@ == old(p).open@ - 1, final(p).at_pos() > old(p).at_pos()
//@end
//@trust off
pub proof fn lemma_fresh_start(o: Parser, n: Parser, m: Marker)
    requires o.wf(), n.wf(), ext(o, n), n.live(m), m.pos == o.ev().len() ensures n.fresh(m)
{ assert(n.ev().take(m.pos as int) =~= o.ev()); }
pub proof fn lemma_eof_moves(o: Parser, n: Parser) requires o.wf(), n.wf(), n.token_source.same(o.token_source), o.cur() != n.cur() ensures o.at_pos() != n.at_pos() {}
pub proof fn lemma_eof(p: Parser) requires p.wf(), p.cur() == EOF ensures p.at_pos() == p.toks().len() {}
/// closing the root node around a list of events
pub proof fn lemma_complete(ev: Seq<Event>, toks: Toks, k: SyntaxKind)
    requires evs(ev, toks), used(ev) == toks.len(), live_at(ev, 0), k != TOMBSTONE
    ensures complete(ev.update(0, Event::Start { kind: k, forward_parent: None }).push(Event::Finish), toks)
{
    let e = Event::Start { kind: k, forward_parent: None }; let w = ev.update(0, e); let z = w.push(Event::Finish);
    lemma_update(ev, 0, e, toks); lemma_push_ok(w, Event::Finish, toks); lemma_push(w, Event::Finish);
    assert forall|i: int| 1 <= i < z.len() implies #[trigger] depth(z.take(i)) >= 1 by {
        lemma_take(ev, i, toks); lemma_update(ev.take(i), 0, e, toks); assert(z.take(i) =~= ev.take(i).update(0, e));
    }
    assert forall|i: int| 0 <= i < z.len() && (#[trigger] z[i] matches Event::Start { kind, forward_parent: Some(d) }) implies i < fwd(z, i) < z.len() && z[fwd(z, i)] is Start by { assert(ev[i] == z[i]); }
}
/// a fresh parser
pub open spec fn fresh_parser(p: Parser, t: Toks) -> bool { p.wf() && p.ev().len() == 0 && p.stk() == 0 && p.toks() == t }
//@fn crates/syntax/src/parse/grammar.rs entry_points::source_file
//@spec
    requires fresh_parser(*old(p), old(p).toks())
    ensures complete(final(p).ev(), old(p).toks())
//@closure 0
    |p: &mut Parser| -> (b: ControlFlow<()>)
        requires old(p).wf(), old(p).cur() != EOF
        ensures rule(*old(p), *final(p)), b is Continue, final(p).at_pos() > old(p).at_pos()
//@in fn begin
    hide(evs); hide(toks_ok); hide(used); hide(tok_at);
//@after let m #1
    let ghost p1 = *p; let ghost k = p.ev().len() as int; proof { lemma_fresh_start(*old(p), p1, m); }
//@after attrs
    let ghost p2 = *p; proof { lemma_mono(p1, p2, k); lemma_fresh(p1, p2, k, m); if p1.cur() != p2.cur() { lemma_eof_moves(p1, p2); } }
//@after iterate_to_EOF
    let ghost pe = *p; proof { axiom_empty_set(); lemma_eof(pe); }
//@in fn end
    proof { lemma_complete(pe.ev(), pe.toks(), SOURCE_FILE); }
//@end
/// proved in the lexer unit (theorem_raw_ok)
#[verifier::external_body]
pub fn tokenize(text: &str) -> (r: (Vec<RawToken>, Vec<SyntaxError>)) requires encode_utf8(text@).len() <= u32::MAX ensures raw_ok(text@, r.0@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_clone_tokens(v: &Vec<RawToken>) -> (r: Vec<RawToken>) ensures r@ == v@ { v.clone() }
#[verifier::external_body]
pub fn vx_extend(v: &mut Vec<SyntaxError>, w: Vec<SyntaxError>) { v.extend(w) }
//@fn crates/syntax/src/parse.rs parse_text
//@ret r
//@rewrite entry_point : fn ( & mut Parser ) =>> entry_point: impl FnOnce(&mut Parser)
//@rewrite raw_tokens . clone ( ) =>> vx_clone_tokens(&raw_tokens)
//@rewrite event :: process =>> process
//@rewrite parser_errors . extend ( lexer_errors ) =>> vx_extend(&mut parser_errors, lexer_errors)
//@spec
    requires encode_utf8(text@).len() <= u32::MAX,
        forall|x: &mut Parser| fresh_parser(*x, (*x).toks()) ==> #[trigger] call_requires(entry_point, (x,)),
        forall|x: &mut Parser| fresh_parser(*x, (*x).toks()) && #[trigger] call_ensures(entry_point, (x,), ()) ==> complete((*final(x)).ev(), (*x).toks())
    ensures r.0.text() == text@
//@end
/// C: whatever the text, the tree of a source file spells the text
pub fn theorem_parse(text: &str) -> (r: (GreenNode, Vec<SyntaxError>))
    requires encode_utf8(text@).len() <= u32::MAX
    ensures r.0.text() == text@
{ parse_text(text, source_file) }
