// ---- trusted std shims
#[derive(Clone, Copy)]
pub struct DropBomb { }
impl DropBomb {
    pub fn new(m: &str) -> (r: DropBomb) { DropBomb { } }
    pub fn defuse(&self) { }
}
#[verifier::external_body]
pub fn vx_err() -> Box<String> { unimplemented!() }
/// trusted: fewer than 2^32 events (32 bytes each) fit in memory
#[verifier::external_body]
pub fn vx_push_event(v: &mut Vec<Event>, e: Event)
    ensures final(v)@ == old(v)@.push(e), old(v)@.len() < u32::MAX { v.push(e) }
#[verifier::external_body]
pub fn vx_event_at<'a>(v: &'a mut Vec<Event>, i: usize) -> (r: &'a mut Event)
    requires i < old(v)@.len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { &mut v[i] }
/// `Option::replace`
#[verifier::external_body]
pub fn vx_opt_replace<T>(o: &mut Option<T>, t: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(t) { o.replace(t) }
//@rewrite ( mut self , $$a ) =>> (self, $a)
//@rewrite assert ! ( $$a , $b , $$c ) =>> assert!($a)
//@rewrite vec ! [ ] =>> Vec::new()
//@rewrite & format ! ( $$a ) =>> ""
//@rewrite format ! ( $$a ) =>> ""
//@rewrite message : impl Into < String > =>> message: &str
//@rewrite Box :: new ( message . into ( ) ) =>> vx_err()
//@rewrite & mut p . events [ idx ] =>> vx_event_at(&mut p.events, idx)
//@rewrite self . events . push ( event ) =>> vx_push_event(&mut self.events, event)
//@rewrite Event :: Start { kind : slot , .. } =>> Event::Start { kind: slot, forward_parent: _ }
//@rewrite Event :: Start { forward_parent , .. } =>> Event::Start { kind: _, forward_parent }
//@rewrite & self . text [ TextRange :: at ( * $a , $$b ) ] =>> vx_slice(&self.text, $a.vx_usize(), ($a.vx_usize() + $b.vx_usize()))
//@rewrite self . raw_tokens_with_offsets . get ( $$a ) . map ( | ( token , offset ) | $$b ) . unwrap_or_default ( ) =>> match self.raw_tokens_with_offsets.get($a) { Some((token, offset)) => $b, None => "" }
//@rewrite self . raw_tokens_with_offsets . get ( $$a ) . map_or ( false , | ( token , offset ) | { $$b == kw } ) =>> match self.raw_tokens_with_offsets.get($a) { Some((token, offset)) => vx_str_is($b, kw), None => false }
//@rewrite self . raw_tokens_with_offsets . get ( $$a ) . map ( | ( token , offset ) | $$b ) =>> match self.raw_tokens_with_offsets.get($a) { Some((token, offset)) => Some($b), None => None }
//@rewrite tokens_with_offsets . get ( $$a ) . map_or ( false , | ( _ , next_offset ) | $$b ) =>> match tokens_with_offsets.get($a) { Some((_, next_offset)) => $b, None => false }
//@rewrite TextRange :: at ( * $a , $$b ) =>> TextRange::at(*$a, $b)
//@rewrite offset + raw_token . len == =>> *offset + raw_token.len ==

//@fn crates/syntax/src/parse/text_token_source.rs token_at_pos
//@ret r
//@spec
    requires pos < usize::MAX, forall|i: int| 0 <= i < tokens_with_offsets@.len() ==> (#[trigger] tokens_with_offsets@[i]).1.raw + tokens_with_offsets@[i].0.len.raw <= u32::MAX
    ensures r == tok_at(tokens_with_offsets@, pos as int)
//@end
/// the character at a byte offset
pub open spec fn ix_of(t: Seq<char>, b: int) -> int { choose|k: int| 0 <= k <= t.len() && #[trigger] bo(t, k) == b }
pub proof fn lemma_ix(t: Seq<char>, a: int, b: int)
    requires is_bo(t, a), is_bo(t, b), a <= b ensures 0 <= ix_of(t, a) <= ix_of(t, b) <= t.len(), bo(t, ix_of(t, a)) == a, bo(t, ix_of(t, b)) == b
{ let i = ix_of(t, a); let k = ix_of(t, b); if k < i { lemma_bo(t, k, i); } }
//@item crates/syntax/src/parse/text_token_source.rs TextTokenSource
impl TextTokenSource {
    pub open spec fn toks(self) -> Toks { self.raw_tokens_with_offsets@ }
    pub open spec fn wf(self) -> bool {
        &&& toks_ok(self.text@, self.toks())
        &&& self.curr.1 <= self.toks().len() < 0x1_0000_0000
        &&& self.curr.0 == tok_at(self.toks(), self.curr.1 as int)
    }
    /// the token at the cursor spells kw
    pub open spec fn kw(self, kw: Seq<char>) -> bool {
        let i = self.curr.1 as int;
        0 <= i < self.toks().len() && self.text@.subrange(ix_of(self.text@, self.toks()[i].1.raw as int), ix_of(self.text@, self.toks()[i].1.raw + self.toks()[i].0.len.raw)) == kw
    }
    pub open spec fn same(self, o: TextTokenSource) -> bool { self.text@ == o.text@ && self.toks() == o.toks() }
    //@fn crates/syntax/src/parse/text_token_source.rs TextTokenSource::current
    //@ret r
    //@spec
        ensures r == self.curr.0
    //@end
    //@fn crates/syntax/src/parse/text_token_source.rs TextTokenSource::current_pos
    //@ret r
    //@spec
        ensures r == self.curr.1
    //@end
    //@fn crates/syntax/src/parse/text_token_source.rs TextTokenSource::curr_pos
    //@ret r
    //@spec
        ensures r == self.curr.1
    //@end
    //@fn crates/syntax/src/parse/text_token_source.rs TextTokenSource::lookahead_nth
    //@ret r
    //@spec
        requires self.wf(), n <= 0x1_0000_0010
        ensures r == tok_at(self.toks(), self.curr.1 + n)
    //@end
    //@fn crates/syntax/src/parse/text_token_source.rs TextTokenSource::bump
    //@spec
        requires old(self).wf()
        ensures final(self).wf(), final(self).same(*old(self)),
            final(self).curr.1 == (if old(self).curr.1 < old(self).toks().len() { old(self).curr.1 + 1 } else { old(self).curr.1 as int }),
    //@end
    //@fn crates/syntax/src/parse/text_token_source.rs TextTokenSource::pop_position
    //@spec
        requires old(self).wf(), old(self).curr.1 > 0
        ensures final(self).wf(), final(self).same(*old(self)), final(self).curr.1 == old(self).curr.1 - 1
    //@end
    //@fn crates/syntax/src/parse/text_token_source.rs TextTokenSource::token_range
    //@ret r
    //@spec
        requires self.wf()
        ensures r == (if offset < self.toks().len() { Some(TextRange { start: self.toks()[offset as int].1, end: TextSize { raw: (self.toks()[offset as int].1.raw + self.toks()[offset as int].0.len.raw) as u32 } }) } else { None::<TextRange> })
    //@end
    //@fn crates/syntax/src/parse/text_token_source.rs TextTokenSource::nth_text
    //@ret r
    //@spec
        requires self.wf(), n <= 0x1_0000_0010
    //@end
    //@fn crates/syntax/src/parse/text_token_source.rs TextTokenSource::current_text
    //@ret r
    //@spec
        requires self.wf()
    //@end
    //@fn crates/syntax/src/parse/text_token_source.rs TextTokenSource::next_text
    //@ret r
    //@spec
        requires self.wf()
    //@end
    //@fn crates/syntax/src/parse/text_token_source.rs TextTokenSource::is_keyword
    //@ret r
    //@spec
        requires self.wf() ensures r == self.kw(kw@)
    //@in fn begin
        proof { let i = self.curr.1 as int; if i < self.toks().len() { lemma_ix(self.text@, self.toks()[i].1.raw as int, self.toks()[i].1.raw + self.toks()[i].0.len.raw); } }
    //@end
}
// ---- token sets and recovery sets: which tokens they hold does not matter to the contracts below
#[derive(Clone, Copy)]
pub struct TokenSet(pub u128);
#[verifier::external_body]
pub struct RecoverySet { }
#[verifier::external_body]
pub struct RecoveryToken { }
impl TokenSet {
    pub uninterp spec fn has(self, k: SyntaxKind) -> bool;
    pub const EMPTY: TokenSet = TokenSet(0);
    #[verifier::external_body]
    pub fn contains(&self, k: SyntaxKind) -> (r: bool) ensures r == self.has(k) { unimplemented!() }
}
/// trusted: the empty set holds nothing, a set of one kind holds that kind
pub axiom fn axiom_empty_set() ensures forall|k: SyntaxKind| !#[trigger] TokenSet::EMPTY.has(k);
pub trait VxIntoTs: Sized { spec fn ts_has(self, k: SyntaxKind) -> bool; fn vx_into_ts(self) -> (r: TokenSet) ensures forall|k: SyntaxKind| #[trigger] r.has(k) == self.ts_has(k); }
impl VxIntoTs for TokenSet { open spec fn ts_has(self, k: SyntaxKind) -> bool { self.has(k) } #[verifier::external_body] fn vx_into_ts(self) -> TokenSet { unimplemented!() } }
impl VxIntoTs for SyntaxKind { open spec fn ts_has(self, k: SyntaxKind) -> bool { k == self } #[verifier::external_body] fn vx_into_ts(self) -> TokenSet { unimplemented!() } }
pub trait VxIntoRs: Sized { spec fn rs_has(self, k: SyntaxKind) -> bool; fn vx_into_rs(self) -> (r: RecoverySet) ensures forall|k: SyntaxKind| #[trigger] r.has(k) == self.rs_has(k); }
impl VxIntoRs for TokenSet { open spec fn rs_has(self, k: SyntaxKind) -> bool { self.has(k) } #[verifier::external_body] fn vx_into_rs(self) -> RecoverySet { unimplemented!() } }
impl VxIntoRs for RecoverySet { open spec fn rs_has(self, k: SyntaxKind) -> bool { self.has(k) } #[verifier::external_body] fn vx_into_rs(self) -> RecoverySet { unimplemented!() } }
impl VxIntoRs for SyntaxKind { open spec fn rs_has(self, k: SyntaxKind) -> bool { k == self } #[verifier::external_body] fn vx_into_rs(self) -> RecoverySet { unimplemented!() } }
pub trait VxIntoRt { fn vx_into_rt(self) -> RecoveryToken; }
impl VxIntoRt for SyntaxKind { #[verifier::external_body] fn vx_into_rt(self) -> RecoveryToken { unimplemented!() } }
impl VxIntoRt for &str { #[verifier::external_body] fn vx_into_rt(self) -> RecoveryToken { unimplemented!() } }
impl VxIntoRt for RecoveryToken { #[verifier::external_body] fn vx_into_rt(self) -> RecoveryToken { unimplemented!() } }
impl Clone for RecoverySet { #[verifier::external_body] fn clone(&self) -> RecoverySet { unimplemented!() } }
#[verifier::external_body]
pub fn vx_ts(k: &[SyntaxKind]) -> TokenSet { unimplemented!() }
impl RecoverySet {
    pub uninterp spec fn has(self, k: SyntaxKind) -> bool;
    #[verifier::external_body] pub fn new() -> (r: RecoverySet) ensures forall|k: SyntaxKind| !#[trigger] r.has(k) { unimplemented!() }
    #[verifier::external_body] pub fn vx_has(&self, k: SyntaxKind) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn vx_has_kw(&self, k: &str) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn token_set_contains(&self, k: SyntaxKind) -> (r: bool) ensures r == self.has(k) { unimplemented!() }
    #[verifier::external_body] pub fn contains_current(&self, p: &Parser) -> bool requires p.wf() { unimplemented!() }
    #[verifier::external_body] pub fn with_another_rs(self, o: RecoverySet) -> RecoverySet { unimplemented!() }
    #[verifier::external_body] pub fn with_ts<T: VxIntoTs>(self, o: T) -> RecoverySet { unimplemented!() }
    #[verifier::external_body] pub fn with_kw(self, k: &str) -> RecoverySet { unimplemented!() }
    #[verifier::external_body] pub fn from_ts(o: TokenSet) -> RecoverySet { unimplemented!() }
    #[verifier::external_body] pub fn with_recovery_token(self, o: RecoveryToken) -> RecoverySet { unimplemented!() }
    #[verifier::external_body] pub fn without_recovery_token(self, o: RecoveryToken) -> RecoverySet { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> bool { unimplemented!() }
}
//@item crates/syntax/src/parse/grammar/expressions/blocks.rs StmtKind derive(Clone, Copy, PartialEq, Eq, Structural)
//@rewrite stmt_kind : Option < StmtKind > , =>> stmt_kind: Option<StmtKind>, pub open: Ghost<int>,
//@rewrite stmt_kind : None , =>> stmt_kind: None, open: Ghost(0),
//@rewrite $t : impl Into < TokenSet > =>> $t: impl VxIntoTs
//@rewrite $t : impl Into < RecoverySet > =>> $t: impl VxIntoRs
//@rewrite $t : impl Into < RecoveryToken > =>> $t: impl VxIntoRt
//@rewrite f : impl FnOnce ( & mut Parser ) -> T =>> f: impl FnOnce(&mut Parser) -> T
//@item crates/syntax/src/parse/parser.rs Parser
//@item crates/syntax/src/parse/parser.rs Marker
//@item crates/syntax/src/parse/parser.rs CompletedMarker
// ---- what a kind at the cursor means: a token of that kind, or its characters as touching tokens
pub open spec fn at2(toks: Toks, i: int, a: SyntaxKind, b: SyntaxKind) -> bool { tok_at(toks, i).kind == a && joint(toks, i) && tok_at(toks, i + 1).kind == b }
pub open spec fn at3(toks: Toks, i: int, a: SyntaxKind, b: SyntaxKind, c: SyntaxKind) -> bool { at2(toks, i, a, b) && joint(toks, i + 1) && tok_at(toks, i + 2).kind == c }
pub open spec fn at_kind(toks: Toks, i: int, k: SyntaxKind) -> bool {
    match k {
        AMP_AMP => at2(toks, i, AMP, AMP), SHL => at2(toks, i, L_ANGLE, L_ANGLE), LT_EQ => at2(toks, i, L_ANGLE, EQ), GT_EQ => at2(toks, i, R_ANGLE, EQ),
        SHR => at2(toks, i, R_ANGLE, R_ANGLE), PIPE_PIPE => at2(toks, i, PIPE, PIPE), SHL_EQ => at3(toks, i, L_ANGLE, L_ANGLE, EQ), SHR_EQ => at3(toks, i, R_ANGLE, R_ANGLE, EQ),
        LESS_IMPLIES => at2(toks, i, L_ANGLE, IMPLIES), _ => tok_at(toks, i).kind == k,
    }
}
/// how many tokens a kind stands for
pub open spec fn width(k: SyntaxKind) -> int {
    match k { AMP_AMP => 2, SHL => 2, LT_EQ => 2, GT_EQ => 2, SHR => 2, PIPE_PIPE => 2, LESS_IMPLIES => 2, SHL_EQ => 3, SHR_EQ => 3, _ => 1 }
}
pub open spec fn kind_of(e: Event) -> SyntaxKind { match e { Event::Start { kind, forward_parent } => kind, _ => EOF } }
impl Parser {
    pub open spec fn ev(self) -> Seq<Event> { self.events@ }
    pub open spec fn toks(self) -> Toks { self.token_source.toks() }
    /// depth of the stack of recovery sets
    pub open spec fn stk(self) -> int { self.recovery_set_stack@.len() as int }
    pub open spec fn at_pos(self) -> int { self.token_source.curr.1 as int }
    pub open spec fn wf(self) -> bool {
        &&& self.token_source.wf() && evs(self.ev(), self.toks())
        &&& used(self.ev()) == self.at_pos()
        &&& self.ev().len() <= u32::MAX
    }
    /// the cursor, the events and the open markers are the same
    pub open spec fn eqv(self, o: Parser) -> bool { self.ev() == o.ev() && self.token_source == o.token_source && self.open == o.open }
    pub open spec fn at_k(self, k: SyntaxKind) -> bool { at_kind(self.toks(), self.at_pos(), k) }
    /// the token at the cursor spells kw
    pub open spec fn kw(self, kw: Seq<char>) -> bool { self.token_source.kw(kw) }
    pub open spec fn cur(self) -> SyntaxKind { tok_at(self.toks(), self.at_pos()).kind }
    /// a node that was started and not yet completed
    pub open spec fn live(self, m: Marker) -> bool { live_at(self.ev(), m.pos as int) }
    /// nothing before it refers to it: it can still be abandoned
    pub open spec fn fresh(self, m: Marker) -> bool { self.live(m) && evs(self.ev().take(m.pos as int), self.toks()) }
    pub open spec fn done(self, c: CompletedMarker) -> bool { start_at(self.ev(), c.pos as int) }
}
/// new only adds to old: the first k events are as they were
pub open spec fn extk(o: Parser, n: Parser, k: int) -> bool {
    &&& n.token_source.same(o.token_source) && n.stk() == o.stk()
    &&& n.ev().len() >= k && o.ev().len() >= k && forall|i: int| 0 <= i < k ==> #[trigger] n.ev()[i] == o.ev()[i]
}
/// recovery sets are pushed and popped in pairs
pub open spec fn stk_back(o: Parser, n: Parser, x0: Parser, x1: Parser) -> bool { x1.stk() == x0.stk() ==> n.stk() == o.stk() }
pub open spec fn ext(o: Parser, n: Parser) -> bool { extk(o, n, o.ev().len() as int) }
pub proof fn lemma_fresh(o: Parser, n: Parser, k: int, m: Marker)
    requires extk(o, n, k), o.fresh(m), m.pos < k ensures n.fresh(m)
{ assert(n.ev().take(m.pos as int) =~= o.ev().take(m.pos as int)); }

impl Parser {
    //@fn crates/syntax/src/parse/parser.rs Parser::new
    //@ret r
    //@spec
        requires token_source.wf(), token_source.curr.1 == 0
        ensures r.wf(), r.ev() == Seq::<Event>::empty(), r.open@ == 0, r.token_source == token_source, r.stk() == 0
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::stmt_kind
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::with_stmt_kind
    //@ret r
    //@rewrite self . stmt_kind . replace ( $$a ) =>> vx_opt_replace(&mut self.stmt_kind, $a)
    //@spec
        requires old(self).wf(), forall|x: &mut Parser| (*x).eqv(*old(self)) ==> #[trigger] call_requires(f, (x,))
        ensures exists|x: &mut Parser| (*x).eqv(*old(self)) && #[trigger] call_ensures(f, (x,), r) && (*final(x)).eqv(*final(self)) && stk_back(*old(self), *final(self), *x, *final(x)),
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::finish
    //@ret r
    //@spec
        ensures r@ == self.ev()
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::pos
    //@ret r
    //@spec
        ensures r == self.at_pos()
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::should_stop
    //@ret r
    //@spec
        requires self.wf()
        ensures r == stop_at.has(self.cur())
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::at_same_pos_as
    //@rewrite last_pos . is_some_and ( | it | $$a ) =>> match last_pos { Some(it) => $a, None => false }
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::event_pos
    //@ret r
    //@spec
        requires self.ev().len() > 0 ensures r == self.ev().len() - 1
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::current
    //@ret r
    //@spec
        requires self.wf() ensures r == self.cur()
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::current_text
    //@spec
        requires self.wf()
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::nth_text
    //@spec
        requires self.wf(), n <= 0x1_0000_0010
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::nth_is_jointed_to_next
    //@ret r
    //@spec
        requires self.wf(), n <= 0x1_0000_0010 ensures r == joint(self.toks(), self.at_pos() + n)
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::nth
    //@ret r
    //@spec
        requires self.wf(), n <= 3 ensures r == tok_at(self.toks(), self.at_pos() + n).kind
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::at
    //@ret r
    //@spec
        requires self.wf() ensures r == self.at_k(kind)
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::nth_at_ts
    //@ret r
    //@spec
        requires self.wf(), n <= 3 ensures r == ts.has(tok_at(self.toks(), self.at_pos() + n).kind)
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::at_composite2
    //@ret r
    //@spec
        requires self.wf(), n <= 0x1_0000_0000 ensures r == at2(self.toks(), self.at_pos() + n, k1, k2)
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::at_composite3
    //@ret r
    //@spec
        requires self.wf(), n < 0x1_0000_0000 ensures r == at3(self.toks(), self.at_pos() + n, k1, k2, k3)
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::nth_at
    //@ret r
    //@spec
        requires self.wf(), n < 0x1_0000_0000 ensures r == at_kind(self.toks(), self.at_pos() + n, kind)
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::at_ts
    //@ret r
    //@spec
        requires self.wf() ensures r == kinds.has(self.cur())
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::at_ts_fn
    //@ret r
    //@spec
        requires self.wf(), call_requires(kinds, (self,)) ensures call_ensures(kinds, (self,), r)
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::at_contextual_kw
    //@ret r
    //@spec
        requires self.wf() ensures r == self.kw(kw@)
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::at_contextual_kw_ident
    //@ret r
    //@spec
        requires self.wf() ensures r == (self.cur() == IDENT && self.kw(kw@))
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::push_event
    //@spec
        ensures final(self).stk() == old(self).stk(), final(self).ev() == old(self).ev().push(event), final(self).token_source == old(self).token_source, final(self).open == old(self).open, final(self).ev().len() <= u32::MAX
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::start
    //@ret r
    //@spec
        requires old(self).wf()
        ensures final(self).wf(), final(self).ev() == old(self).ev().push(Event::Start { kind: TOMBSTONE, forward_parent: None }), ext(*old(self), *final(self)),
            final(self).token_source == old(self).token_source, final(self).open@ == old(self).open@ + 1,
            r.pos == old(self).ev().len(), final(self).fresh(r)
    //@in fn begin
        proof { lemma_push_ok(self.ev(), Event::Start { kind: TOMBSTONE, forward_parent: None }, self.toks()); lemma_push(self.ev(), Event::Start { kind: TOMBSTONE, forward_parent: None }); assert(self.ev().push(Event::Start { kind: TOMBSTONE, forward_parent: None }).take(self.ev().len() as int) =~= self.ev()); self.open@ = self.open@ + 1; }
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::do_bump
    //@spec
        requires old(self).wf(), n_raw_tokens >= 1, old(self).at_pos() + n_raw_tokens <= old(self).toks().len(),
            forall|j: int| old(self).at_pos() <= j < old(self).at_pos() + n_raw_tokens - 1 ==> joint(old(self).toks(), j),
        ensures final(self).wf(), ext(*old(self), *final(self)), final(self).open == old(self).open, final(self).ev() == old(self).ev().push(Event::Token { kind, n_raw_tokens }), final(self).at_pos() == old(self).at_pos() + n_raw_tokens
    //@in fn begin
        proof { lemma_push_ok(self.ev(), Event::Token { kind, n_raw_tokens }, self.toks()); lemma_push(self.ev(), Event::Token { kind, n_raw_tokens }); }
    //@loop 0 iter it
        invariant self.stk() == old(self).stk(), self.ev() == old(self).ev(), self.open == old(self).open, self.token_source.wf(), self.token_source.same(old(self).token_source),
            old(self).at_pos() + n_raw_tokens <= old(self).toks().len(), self.at_pos() == old(self).at_pos() + it.index@,
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::pop_event
    //@ret r
    //@spec
        requires old(self).token_source.wf(), used(old(self).ev()) == old(self).at_pos(), old(self).ev().len() > 0, used(old(self).ev().drop_last()) >= 0
        ensures final(self).stk() == old(self).stk(), final(self).token_source.wf(), final(self).token_source.same(old(self).token_source), final(self).ev() == old(self).ev().drop_last(), used(final(self).ev()) == final(self).at_pos(), final(self).open == old(self).open
    //@loop 0 iter it
        invariant self.stk() == old(self).stk(), self.ev() == old(self).ev().drop_last(), self.open == old(self).open, self.token_source.wf(), self.token_source.same(old(self).token_source),
            old(self).at_pos() - *n_raw_tokens >= 0, self.at_pos() == old(self).at_pos() - it.index@,
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::eat
    //@ret r
    //@spec
        requires old(self).wf(), kind != EOF
        ensures final(self).wf(), ext(*old(self), *final(self)), final(self).open == old(self).open,
            r == old(self).at_k(kind), !r ==> *final(self) == *old(self), r ==> final(self).at_pos() == old(self).at_pos() + width(kind)
    //@in fn begin
        hide(evs); hide(toks_ok);
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::bump
    //@spec
        requires old(self).wf(), kind != EOF, old(self).at_k(kind)
        ensures final(self).wf(), ext(*old(self), *final(self)), final(self).open == old(self).open, final(self).at_pos() == old(self).at_pos() + width(kind)
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::bump_any
    //@spec
        requires old(self).wf()
        ensures final(self).wf(), ext(*old(self), *final(self)), final(self).open == old(self).open, old(self).cur() != EOF ==> final(self).at_pos() == old(self).at_pos() + 1, final(self).at_pos() >= old(self).at_pos()
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::bump_remap
    //@spec
        requires old(self).wf()
        ensures final(self).wf(), ext(*old(self), *final(self)), final(self).open == old(self).open, old(self).cur() != EOF ==> final(self).at_pos() == old(self).at_pos() + 1, final(self).at_pos() >= old(self).at_pos()
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::bump_remap_many
    //@spec
        requires old(self).wf(), old(self).cur() != EOF ==> n_tokens >= 1 && old(self).at_pos() + n_tokens <= old(self).toks().len() && forall|j: int| old(self).at_pos() <= j < old(self).at_pos() + n_tokens - 1 ==> joint(old(self).toks(), j),
        ensures final(self).wf(), ext(*old(self), *final(self)), final(self).open == old(self).open
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::push_error
    //@spec
        requires old(self).wf()
        ensures final(self).wf(), ext(*old(self), *final(self)), final(self).open == old(self).open, final(self).token_source == old(self).token_source
    //@in fn begin
        proof { assert forall|e: Event| e is Error implies evs(#[trigger] self.ev().push(e), self.toks()) && used(self.ev().push(e)) == used(self.ev()) by { lemma_push_ok(self.ev(), e, self.toks()); lemma_push(self.ev(), e); } }
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::error
    //@spec
        requires old(self).wf()
        ensures final(self).wf(), ext(*old(self), *final(self)), final(self).open == old(self).open, final(self).token_source == old(self).token_source
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::expect
    //@ret r
    //@spec
        requires old(self).wf(), kind != EOF
        ensures final(self).wf(), ext(*old(self), *final(self)), final(self).open == old(self).open
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::expect_with_error
    //@ret r
    //@spec
        requires old(self).wf(), kind != EOF
        ensures final(self).wf(), ext(*old(self), *final(self)), final(self).open == old(self).open
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::wrap_with_error
    //@spec
        requires old(self).wf(), old(self).done(cm)
        ensures final(self).wf(), extk(*old(self), *final(self), cm.pos as int), final(self).open == old(self).open, final(self).token_source == old(self).token_source
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::error_and_bump
    //@spec
        requires old(self).wf()
        ensures final(self).at_pos() >= old(self).at_pos(), old(self).cur() != EOF ==> final(self).at_pos() > old(self).at_pos(), final(self).wf(), ext(*old(self), *final(self)), final(self).open == old(self).open
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::error_and_recover
    //@rewrite extra_rs . into ( ) =>> extra_rs.vx_into_rs()
    //@spec
        requires old(self).wf()
        ensures final(self).wf(), ext(*old(self), *final(self)), final(self).open == old(self).open
    //@loop 0
        invariant self.wf(), ext(*old(self), *self), self.open == old(self).open
        decreases self.toks().len() - self.at_pos()
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::if_at
    //@spec
        requires old(self).wf(), forall|x: &mut Parser| (*x).wf() && (*x).at_k(kind) ==> #[trigger] call_requires(f, (x,)),
            forall|x: &mut Parser| #[trigger] call_ensures(f, (x,), ()) ==> (*final(x)).wf() && ext(*x, *final(x)) && (*final(x)).open == (*x).open
        ensures final(self).wf(), ext(*old(self), *final(self)), final(self).open == old(self).open
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::prev_ws
    //@rewrite ( $$a ) . into ( ) =>> ($a).vx_usize()
    //@spec
        requires self.wf()
    //@end
}
impl Event {
    //@fn crates/syntax/src/parse/event.rs Event::tombstone
    //@ret r
    //@spec
        ensures r == (Event::Start { kind: TOMBSTONE, forward_parent: None })
    //@end
}
impl Marker {
    //@fn crates/syntax/src/parse/parser.rs Marker::new
    //@ret r
    //@spec
        ensures r.pos == pos
    //@end
    //@fn crates/syntax/src/parse/parser.rs Marker::complete
    //@ret r
    //@spec
        requires old(p).wf(), old(p).live(self), kind != TOMBSTONE
        ensures final(p).wf(), final(p).ev() == old(p).ev().update(self.pos as int, Event::Start { kind, forward_parent: None }).push(Event::Finish),
            extk(*old(p), *final(p), self.pos as int), final(p).token_source == old(p).token_source, final(p).open@ == old(p).open@ - 1,
            r.pos == self.pos, r.kind == kind, final(p).done(r)
    //@in fn begin
        proof { let w = p.ev().update(self.pos as int, Event::Start { kind, forward_parent: None }); lemma_update(p.ev(), self.pos as int, Event::Start { kind, forward_parent: None }, p.toks()); lemma_push_ok(w, Event::Finish, p.toks()); lemma_push(w, Event::Finish);
            assert forall|i: int| 0 <= i < w.push(Event::Finish).len() && (#[trigger] w.push(Event::Finish)[i] matches Event::Start { kind, forward_parent: Some(d) }) implies i < fwd(w.push(Event::Finish), i) < w.push(Event::Finish).len() && w.push(Event::Finish)[fwd(w.push(Event::Finish), i)] is Start by { assert(p.ev()[i] == w[i]); }
            p.open@ = p.open@ - 1; }
    //@end
    //@fn crates/syntax/src/parse/parser.rs Marker::abandon
    //@spec
        requires old(p).wf(), old(p).fresh(self)
        ensures final(p).wf(), extk(*old(p), *final(p), self.pos as int), final(p).token_source == old(p).token_source, final(p).open@ == old(p).open@ - 1,
            final(p).ev() == (if self.pos == old(p).ev().len() - 1 { old(p).ev().drop_last() } else { old(p).ev() })
    //@in fn begin
        proof { lemma_take(p.ev(), self.pos as int, p.toks()); if self.pos == p.ev().len() - 1 { assert(p.ev().take(self.pos as int) =~= p.ev().drop_last()); } p.open@ = p.open@ - 1; }
    //@end
    //@fn crates/syntax/src/parse/parser.rs Marker::abandon_with_rollback
    //@spec
        requires old(p).wf(), old(p).fresh(self)
        ensures final(p).wf(), extk(*old(p), *final(p), self.pos as int), final(p).open@ == old(p).open@ - 1, final(p).ev() == old(p).ev().take(self.pos as int)
    //@in fn begin
        proof { lemma_take(p.ev(), self.pos as int, p.toks()); if self.pos == p.ev().len() - 1 { assert(p.ev().take(self.pos as int) =~= p.ev().drop_last()); } p.open@ = p.open@ - 1; }
        let ghost e0 = p.ev(); let ghost n0 = p.ev().len();
    //@loop 0 iter it
        invariant p.stk() == old(p).stk(), e0 == old(p).ev(), n0 == e0.len(), p.token_source.wf(), p.token_source.same(old(p).token_source), used(p.ev()) == p.at_pos(), p.open@ == old(p).open@ - 1,
            idx == self.pos, p.ev() == e0.take(n0 - it.index@), 0 <= it.index@ <= n0 - idx, ev_ok(e0, p.toks()),
    //@in loop 0 begin
        proof { let k = p.ev().len() - 1; lemma_take(e0, k, p.toks()); assert(e0.take(k + 1).drop_last() =~= e0.take(k)); }
    //@end
}
impl CompletedMarker {
    //@fn crates/syntax/src/parse/parser.rs CompletedMarker::new
    //@ret r
    //@spec
        ensures r.pos == pos, r.kind == kind
    //@end
    //@fn crates/syntax/src/parse/parser.rs CompletedMarker::kind
    //@ret r
    //@spec
        ensures r == self.kind
    //@end
    //@fn crates/syntax/src/parse/parser.rs CompletedMarker::precede
    //@ret r
    //@spec
        requires old(p).wf(), old(p).done(self)
        ensures final(p).wf(), extk(*old(p), *final(p), self.pos as int), final(p).token_source == old(p).token_source, final(p).open@ == old(p).open@ + 1,
            r.pos == old(p).ev().len(), final(p).ev().len() == r.pos + 1, final(p).live(r), forall|i: int| 0 <= i < old(p).ev().len() && i != self.pos ==> #[trigger] final(p).ev()[i] == old(p).ev()[i], final(p).done(self)
    //@in fn begin
        let ghost e0 = p.ev();
        proof { let w = e0.push(Event::Start { kind: TOMBSTONE, forward_parent: None }); let i = self.pos as int; let e = Event::Start { kind: kind_of(e0[i]), forward_parent: Some((e0.len() - i) as u32) };
            lemma_push_ok(e0, Event::Start { kind: TOMBSTONE, forward_parent: None }, p.toks()); lemma_push(e0, Event::Start { kind: TOMBSTONE, forward_parent: None });
            lemma_update(w, i, e, p.toks());
            assert forall|j: int| 0 <= j < w.len() && (#[trigger] w.update(i, e)[j] matches Event::Start { kind, forward_parent: Some(d) }) implies j < fwd(w.update(i, e), j) < w.len() && w.update(i, e)[fwd(w.update(i, e), j)] is Start by { if j != i { assert(e0[j] == w[j]); } }
        }
    //@end
    //@fn crates/syntax/src/parse/parser.rs CompletedMarker::extend_to
    //@ret r
    //@spec
        requires old(p).wf(), old(p).done(self), old(p).live(m), m.pos < self.pos
        ensures final(p).wf(), extk(*old(p), *final(p), m.pos as int), final(p).token_source == old(p).token_source, final(p).open@ == old(p).open@ - 1, r == self, final(p).done(r),
            final(p).ev().len() == old(p).ev().len(), forall|i: int| 0 <= i < old(p).ev().len() && i != m.pos ==> #[trigger] final(p).ev()[i] == old(p).ev()[i]
    //@in fn begin
        proof { let w = p.ev(); let i = m.pos as int; let e = Event::Start { kind: TOMBSTONE, forward_parent: Some((self.pos - m.pos) as u32) };
            lemma_update(w, i, e, p.toks());
            assert forall|j: int| 0 <= j < w.len() && (#[trigger] w.update(i, e)[j] matches Event::Start { kind, forward_parent: Some(d) }) implies j < fwd(w.update(i, e), j) < w.len() && w.update(i, e)[fwd(w.update(i, e), j)] is Start by { if j != i { assert(w[j] == w.update(i, e)[j]); } }
            p.open@ = p.open@ - 1; }
    //@end
    //@fn crates/syntax/src/parse/parser.rs CompletedMarker::abandon_with_rollback
    //@spec
        requires old(p).wf(), parent_event_pos + 1 <= old(p).ev().len(), evs(old(p).ev().take(parent_event_pos + 1), old(p).toks())
        ensures final(p).wf(), extk(*old(p), *final(p), parent_event_pos + 1), final(p).open == old(p).open, final(p).ev() == old(p).ev().take(parent_event_pos + 1)
    //@in fn begin
        let ghost e0 = p.ev();
        proof { assert(e0.take(e0.len() as int) =~= e0); }
    //@loop 0
        invariant p.stk() == old(p).stk(), e0 == old(p).ev(), p.token_source.wf(), p.token_source.same(old(p).token_source), used(p.ev()) == p.at_pos(), p.open == old(p).open,
            parent_event_pos + 1 <= p.ev().len() <= e0.len(), p.ev() == e0.take(p.ev().len() as int), ev_ok(e0, p.toks()),
        decreases p.ev().len()
    //@in loop 0 begin
        proof { let k = p.ev().len() as int; lemma_take(e0, k - 1, p.toks()); assert(e0.take(k).drop_last() =~= e0.take(k - 1)); }
    //@end
}
/// a grammar rule: keeps the parser well-formed, only adds to its events, leaves no marker open
pub open spec fn rule(o: Parser, n: Parser) -> bool { n.wf() && ext(o, n) && n.open == o.open }
// recovery
impl Parser {
    //@fn crates/syntax/src/parse/parser.rs Parser::outer_recovery_set
    //@ret r
    //@spec
        ensures self.stk() == 0 ==> forall|k: SyntaxKind| !#[trigger] r.has(k)
    //@rewrite self . recovery_set_stack . last ( ) . cloned ( ) . unwrap_or ( $$a ) =>> vx_last_or(&self.recovery_set_stack, $a)
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::with_recovery
    //@ret r
    //@spec
        requires old(self).wf(), forall|x: &mut Parser| (*x).eqv(*old(self)) ==> #[trigger] call_requires(f, (x,))
        ensures exists|x: &mut Parser| (*x).eqv(*old(self)) && #[trigger] call_ensures(f, (x,), r) && (*final(x)).eqv(*final(self)) && stk_back(*old(self), *final(self), *x, *final(x)),
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::reset_recovery
    //@ret r
    //@spec
        requires old(self).wf(), forall|x: &mut Parser| (*x).eqv(*old(self)) ==> #[trigger] call_requires(f, (x,))
        ensures exists|x: &mut Parser| (*x).eqv(*old(self)) && #[trigger] call_ensures(f, (x,), r) && (*final(x)).eqv(*final(self)) && stk_back(*old(self), *final(self), *x, *final(x)),
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::with_recovery_token_set
    //@ret r
    //@spec
        requires old(self).wf(), forall|x: &mut Parser| (*x).eqv(*old(self)) ==> #[trigger] call_requires(f, (x,))
        ensures exists|x: &mut Parser| (*x).eqv(*old(self)) && #[trigger] call_ensures(f, (x,), r) && (*final(x)).eqv(*final(self)) && stk_back(*old(self), *final(self), *x, *final(x)),
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::with_recovery_tokens
    //@ret r
    //@rewrite tokens . clone ( ) =>> tokens
    //@spec
        requires old(self).wf(), forall|x: &mut Parser| (*x).eqv(*old(self)) ==> #[trigger] call_requires(f, (x,))
        ensures exists|x: &mut Parser| (*x).eqv(*old(self)) && #[trigger] call_ensures(f, (x,), r) && (*final(x)).eqv(*final(self)) && stk_back(*old(self), *final(self), *x, *final(x)),
    //@loop 0 iter it
        invariant *self == *old(self)
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::with_recovery_token
    //@ret r
    //@rewrite < 't , T > =>> <T>
    //@rewrite vec ! [ $t . into ( ) ] =>> vx_one($t.vx_into_rt())
    //@spec
        requires old(self).wf(), forall|x: &mut Parser| (*x).eqv(*old(self)) ==> #[trigger] call_requires(f, (x,))
        ensures exists|x: &mut Parser| (*x).eqv(*old(self)) && #[trigger] call_ensures(f, (x,), r) && (*final(x)).eqv(*final(self)) && stk_back(*old(self), *final(self), *x, *final(x)),
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::iterate_to_EOF_rec
    //@rewrite stop_at_rec . into ( ) =>> stop_at_rec.vx_into_rs()
    //@attr #[verifier::exec_allows_no_decreases_clause]
    //@spec
        requires old(self).wf(), forall|x: &mut Parser| (*x).wf() && (*x).cur() != EOF ==> #[trigger] call_requires(f, (x,)),
            forall|x: &mut Parser, b: ControlFlow<()>| (*x).wf() && (*x).cur() != EOF && #[trigger] call_ensures(f, (x,), b) ==> rule(*x, *final(x))
        ensures rule(*old(self), *final(self)),
            // a step which always moves on and never breaks off reaches the end or a stop token
            (old(self).stk() == 0 && forall|x: &mut Parser, b: ControlFlow<()>| (*x).wf() && (*x).cur() != EOF && #[trigger] call_ensures(f, (x,), b) ==> b is Continue && (*final(x)).at_pos() > (*x).at_pos())
                ==> final(self).cur() == EOF || stop_at_rec.rs_has(final(self).cur())
    //@in fn begin
        hide(evs); hide(toks_ok); hide(used); hide(tok_at);
        let ghost moves = forall|x: &mut Parser, b: ControlFlow<()>| (*x).wf() && (*x).cur() != EOF && #[trigger] call_ensures(f, (x,), b) ==> b is Continue && (*final(x)).at_pos() > (*x).at_pos();
    //@loop 0
        invariant_except_break self.wf(), rule(*old(self), *self), forall|x: &mut Parser| (*x).wf() && (*x).cur() != EOF ==> #[trigger] call_requires(f, (x,)),
            forall|x: &mut Parser, b: ControlFlow<()>| (*x).wf() && (*x).cur() != EOF && #[trigger] call_ensures(f, (x,), b) ==> rule(*x, *final(x)),
            0 <= self.stk(), moves == (forall|x: &mut Parser, b: ControlFlow<()>| (*x).wf() && (*x).cur() != EOF && #[trigger] call_ensures(f, (x,), b) ==> b is Continue && (*final(x)).at_pos() > (*x).at_pos())
        ensures rule(*old(self), *self), self.wf(), old(self).stk() == 0 && moves ==> self.cur() == EOF || stop_at.has(self.cur())
    //@end
    //@fn crates/syntax/src/parse/parser.rs Parser::iterate_to_EOF
    //@rewrite stop_at . into ( ) =>> stop_at.vx_into_ts()
    //@spec
        requires old(self).wf(), forall|x: &mut Parser| (*x).wf() && (*x).cur() != EOF ==> #[trigger] call_requires(f, (x,)),
            forall|x: &mut Parser, b: ControlFlow<()>| (*x).wf() && (*x).cur() != EOF && #[trigger] call_ensures(f, (x,), b) ==> rule(*x, *final(x))
        ensures rule(*old(self), *final(self)),
            (old(self).stk() == 0 && forall|x: &mut Parser, b: ControlFlow<()>| (*x).wf() && (*x).cur() != EOF && #[trigger] call_ensures(f, (x,), b) ==> b is Continue && (*final(x)).at_pos() > (*x).at_pos())
                ==> final(self).cur() == EOF || stop_at.ts_has(final(self).cur())
    //@end
}
#[verifier::external_body]
pub fn vx_last_or(v: &Vec<RecoverySet>, d: RecoverySet) -> (r: RecoverySet) ensures v@.len() == 0 ==> r == d { unimplemented!() }
#[verifier::external_body]
pub fn vx_one<T>(t: T) -> (r: Vec<T>) ensures r@ == seq![t] { vec![t] }
