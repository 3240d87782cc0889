// ---- the contract of a grammar rule
/// new is well-formed, its first k events are those of old, d markers more are closed
pub open spec fn gr(o: Parser, n: Parser, k: int, d: int) -> bool { n.wf() && extk(o, n, k) && n.open@ == o.open@ - d }
pub trait VxOk { spec fn vx_ok(self, p: Parser, k: int) -> bool; }
/// a completed marker of p which was not there before event k
impl VxOk for CompletedMarker { open spec fn vx_ok(self, p: Parser, k: int) -> bool { p.done(self) && self.pos >= k } }
impl VxOk for Option<CompletedMarker> { open spec fn vx_ok(self, p: Parser, k: int) -> bool { self matches Some(c) ==> p.done(c) && c.pos >= k } }
impl VxOk for (CompletedMarker, BlockLike) { open spec fn vx_ok(self, p: Parser, k: int) -> bool { p.done(self.0) && self.0.pos >= k } }
impl VxOk for Option<(CompletedMarker, BlockLike)> { open spec fn vx_ok(self, p: Parser, k: int) -> bool { self matches Some(c) ==> p.done(c.0) && c.0.pos >= k } }
pub open spec fn vx_opt_pos(m: Option<Marker>, p: Parser) -> int { match m { Some(m) => m.pos as int, None => p.ev().len() as int } }
pub open spec fn vx_opt_n(m: Option<Marker>) -> int { if m is Some { 1 } else { 0 } }
pub broadcast proof fn b_fresh(o: Parser, n: Parser, k: int, m: Marker)
    requires #[trigger] extk(o, n, k), o.fresh(m), m.pos < k ensures #[trigger] n.fresh(m)
{ lemma_fresh(o, n, k, m); }
pub broadcast proof fn b_with(o: Parser, n: Parser, x: Parser, fx: Parser, k: int, d: int)
    requires #[trigger] stk_back(o, n, x, fx), #[trigger] gr(x, fx, k, d), x.eqv(o), fx.eqv(n) ensures gr(o, n, k, d)
{ }
pub broadcast proof fn b_mono(o: Parser, n: Parser, k: int)
    requires o.wf(), n.wf(), #[trigger] extk(o, n, k), k == o.ev().len() ensures n.at_pos() >= o.at_pos()
{ assert(n.ev().take(k) =~= o.ev()); lemma_take(n.ev(), k, n.toks()); }
pub broadcast proof fn b_rule(o: Parser, n: Parser, k: int)
    requires #[trigger] gr(o, n, k, 0), k == o.ev().len() ensures #[trigger] rule(o, n)
{ }
/// a token which spells `for` is an identifier
pub proof fn lemma_for(p: Parser) requires p.wf(), p.kw("for"@) ensures p.cur() == IDENT
{
    reveal(tok_at); reveal(toks_ok); reveal(word_at);
    let i = p.at_pos(); let a = p.toks()[i].1.raw as int; let b = a + p.toks()[i].0.len.raw;
    lemma_ix(p.token_source.text@, a, b);
}
pub proof fn lemma_in(t: Toks, i: int) ensures tok_at(t, i).kind != EOF ==> 0 <= i < t.len() { reveal(tok_at); }
pub broadcast group grammar_lemmas { b_fresh, b_with, b_mono, b_rule }
// ---- shims
#[verifier::external_body]
pub fn vx_any_bool() -> bool { unimplemented!() }
#[verifier::external_body]
pub fn vx_any_u32() -> u32 { unimplemented!() }
/// a counter which may overflow
#[verifier::external_body]
pub fn vx_count_u8() requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_count_i32() requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_count_u32() requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_count_usize() requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_any_u8() -> u8 { unimplemented!() }
#[verifier::external_body]
pub fn vx_any_i32() -> i32 { unimplemented!() }
#[verifier::external_body]
pub fn vx_any_usize() -> usize { unimplemented!() }
pub trait VxInto<T> { fn vx_into(self) -> T; }
impl<S: VxIntoRs> VxInto<RecoverySet> for S { #[verifier::external_body] fn vx_into(self) -> RecoverySet { unimplemented!() } }
impl<S: VxIntoTs> VxInto<TokenSet> for S { #[verifier::external_body] fn vx_into(self) -> TokenSet { unimplemented!() } }
impl<S: VxIntoRt> VxInto<RecoveryToken> for S { #[verifier::external_body] fn vx_into(self) -> RecoveryToken { unimplemented!() } }
impl core::ops::BitOr<SyntaxKind> for TokenSet { type Output = TokenSet; #[verifier::external_body] fn bitor(self, o: SyntaxKind) -> TokenSet { unimplemented!() } }
impl core::ops::BitOr<SyntaxKind> for SyntaxKind { type Output = TokenSet; #[verifier::external_body] fn bitor(self, o: SyntaxKind) -> TokenSet { unimplemented!() } }
impl core::ops::BitOr<TokenSet> for SyntaxKind { type Output = TokenSet; #[verifier::external_body] fn bitor(self, o: TokenSet) -> TokenSet { unimplemented!() } }
impl vstd::std_specs::ops::BitOrSpecImpl<SyntaxKind> for TokenSet { open spec fn obeys_bitor_spec() -> bool { false } open spec fn bitor_req(self, o: SyntaxKind) -> bool { true } open spec fn bitor_spec(self, o: SyntaxKind) -> TokenSet { arbitrary() } }
impl vstd::std_specs::ops::BitOrSpecImpl<SyntaxKind> for SyntaxKind { open spec fn obeys_bitor_spec() -> bool { false } open spec fn bitor_req(self, o: SyntaxKind) -> bool { true } open spec fn bitor_spec(self, o: SyntaxKind) -> TokenSet { arbitrary() } }
impl vstd::std_specs::ops::BitOrSpecImpl<TokenSet> for SyntaxKind { open spec fn obeys_bitor_spec() -> bool { false } open spec fn bitor_req(self, o: TokenSet) -> bool { true } open spec fn bitor_spec(self, o: TokenSet) -> TokenSet { arbitrary() } }
pub fn vx_ts_from<T: VxIntoTs>(t: T) -> TokenSet { t.vx_into_ts() }
pub fn vx_rt_from<T: VxIntoRt>(t: T) -> RecoveryToken { t.vx_into_rt() }
//@rewrite . into ( ) =>> .vx_into()
//@rewrite TokenSet :: new ( $$a ) =>> vx_ts($a)
//@rewrite TokenSet :: from ( $$a ) =>> vx_ts_from($a)
//@rewrite RecoveryToken :: from ( $$a ) =>> vx_rt_from($a)
//@rewrite ts ! ( $$a ) =>> vx_ts(&[$a])
//@rewrite vec ! [ $a ] =>> vx_one($a)
//@rewrite expressions :: $x =>> $x
//@rewrite attributes :: $x =>> $x
//@rewrite specs :: $x =>> $x
//@rewrite items :: $x =>> $x
//@rewrite paths :: $x =>> $x
//@rewrite patterns :: $x =>> $x
//@rewrite types :: $x =>> $x
//@rewrite type_args :: $x =>> $x
//@rewrite type_params :: $x =>> $x
//@rewrite params :: $x =>> $x
//@rewrite fun :: $x =>> $x
//@rewrite adt :: $x =>> $x
//@rewrite item_spec :: $x =>> $x
//@rewrite use_item :: $x =>> $x
//@rewrite blocks :: $x =>> $x
//@rewrite atom :: $x =>> $x
//@rewrite quants :: $x =>> $x
//@rewrite behavior :: $x =>> $x
//@rewrite stdx :: panic_context :: enter ( $$a ) =>> ()
//@rewrite proof ( p ) =>> vx_proof(p)
//@prewrite $m . unwrap_or_else ( | | p . start ( ) ) =>> match $m { Some(vx_m) => vx_m, None => p.start() }
//@prewrite expr_bp ( $$a ) . map ( | it | it . 0 ) =>> match expr_bp($a) { Some(it) => Some(it.0), None => None }
//@prewrite list_end . map ( | it | it . into ( ) ) . unwrap_or ( $$a ) =>> match list_end { Some(it) => it.into(), None => $a }
//@item crates/syntax/src/parse/grammar/paths.rs PathMode derive(Clone, Copy, PartialEq, Eq, Structural)
//@item crates/syntax/src/parse/grammar/expressions.rs BlockLike derive(Clone, Copy, PartialEq, Eq, Structural)
//@item crates/syntax/src/parse/grammar/expressions.rs Restrictions derive(Clone, Copy)
/// `#[derive(Default)]`
impl Restrictions { pub fn default() -> Restrictions { Restrictions { forbid_structs: false, prefer_stmt: false } } }
impl BlockLike {
    //@fn crates/syntax/src/parse/grammar/expressions.rs BlockLike::is_block
    //@end
    //@fn crates/syntax/src/parse/grammar/expressions.rs BlockLike::is_blocklike
    //@end
}
impl StmtKind {
    //@fn crates/syntax/src/parse/grammar/expressions/blocks.rs StmtKind::is_spec
    //@end
}
impl Parser {
    //@fn crates/syntax/src/parse/parser.rs Parser::nth_at_rset
    //@rewrite rs . keywords . contains ( text ) =>> rs.vx_has_kw(text)
    //@spec
        requires self.wf(), n <= 3
    //@end
}
// ---- rules with more to say than their signatures do
//@fn crates/syntax/src/parse/grammar.rs module auto
//@spec
    ensures final(p).at_pos() > old(p).at_pos()
//@end
//@fn crates/syntax/src/parse/grammar.rs module_spec auto
//@spec
    ensures final(p).at_pos() > old(p).at_pos()
//@end
//@fn crates/syntax/src/parse/grammar.rs script auto
//@spec
    ensures final(p).at_pos() > old(p).at_pos()
//@end
//@fn crates/syntax/src/parse/grammar.rs address_def auto
//@spec
    requires old(p).cur() != EOF
    ensures final(p).at_pos() > old(p).at_pos()
//@end
//@fn crates/syntax/src/parse/grammar.rs name_ref auto
//@spec
    ensures old(p).cur() == IDENT ==> vx_r && final(p).at_pos() == old(p).at_pos() + 1
//@end
//@fn crates/syntax/src/parse/grammar/attributes.rs attrs auto
//@spec
    ensures forall|i: int| 0 <= i < vx_r@.len() ==> final(p).done(#[trigger] vx_r@[i]) && vx_r@[i].pos >= old(p).ev().len()
//@loop 0
    invariant p.wf(), gr(*old(p), *p, old(p).ev().len() as int, 0int), forall|i: int| 0 <= i < attrs@.len() ==> p.done(#[trigger] attrs@[i]) && attrs@[i].pos >= old(p).ev().len()
//@end
//@fn crates/syntax/src/parse/grammar/attributes.rs attr_item_list auto
//@spec
    requires lparen != EOF, rparen != EOF
//@end
//@fn crates/syntax/src/parse/grammar/utils.rs delimited_with_recovery auto
//@spec
    requires delimiter != EOF
    requires list_end != Some(EOF)
    requires forall|x: &mut Parser| (*x).wf() ==> #[trigger] call_requires(element, (x,))
    requires forall|x: &mut Parser, b: bool| (*x).wf() && #[trigger] call_ensures(element, (x,), b) ==> rule(*x, *final(x))
//@closure 0
    |p: &Parser| -> (r: bool) requires p.wf()
//@before let at_element
    let ghost vx_c1 = *p;
//@closure 1
    |p: &mut Parser| -> (r: bool) requires (*old(p)).eqv(vx_c1) ensures gr(*old(p), *final(p), old(p).ev().len() as int, 0int)
//@end
//@fn crates/syntax/src/parse/grammar/paths.rs path auto
//@before loop
    let ghost vx_l0 = *p; let ghost vx_k = old(p).ev().len() as int;
//@loop 0
    invariant p.wf(), gr(*old(p), *p, vx_k, 0int), p.done(qual_path), qual_path.pos >= vx_k
//@end
//@fn crates/syntax/src/parse/grammar/expressions.rs current_op auto
//@rewrite const NOT_AN_OP : ( u8 , SyntaxKind ) = $$a ; =>> 
//@rewrite NOT_AN_OP =>> (0, AT)
//@spec
    ensures vx_r.0 == 0 || vx_r.1 != EOF && (p.at_k(vx_r.1) || vx_r.1 == IS_KW && p.cur() == IDENT && p.kw("is"@)), vx_r.0 <= 12
//@end
//@fn crates/syntax/src/parse/grammar/expressions.rs expr_bp auto
//@spec
    requires bp >= 1
//@loop 0
    invariant p.wf(), gr(*old(p), *p, old(p).ev().len() as int, 0int), p.done(lhs), lhs.pos >= old(p).ev().len()
//@end
//@fn crates/syntax/src/parse/grammar/expressions.rs postfix_expr auto
//@before loop
    let ghost vx_k = lhs.pos as int;
//@loop 0
    invariant p.wf(), gr(*old(p), *p, vx_k, 0int), p.done(lhs), lhs.pos >= vx_k
//@end
//@fn crates/syntax/src/parse/grammar/specs/quants.rs is_at_quant_kw auto
//@spec
    ensures *final(p) == *old(p)
    ensures vx_r ==> old(p).kw("forall"@) || old(p).kw("exists"@) || old(p).kw("choose"@)
//@end
//@fn crates/syntax/src/parse/grammar/specs/quants.rs forall_expr auto
//@spec
    ensures vx_r is None ==> *final(p) == *old(p) && !(old(p).cur() == IDENT && old(p).kw("forall"@))
//@end
//@fn crates/syntax/src/parse/grammar/specs/quants.rs exists_expr auto
//@spec
    ensures vx_r is None ==> *final(p) == *old(p) && !(old(p).cur() == IDENT && old(p).kw("exists"@))
//@end
//@fn crates/syntax/src/parse/grammar/specs/quants.rs choose_expr auto
//@spec
    ensures vx_r is None ==> *final(p) == *old(p) && !(old(p).cur() == IDENT && old(p).kw("choose"@))
//@end
//@fn crates/syntax/src/parse/grammar/items.rs opt_item auto
//@spec only
    requires old(p).wf(), old(p).fresh(m)
    ensures vx_r matches Err(m2) ==> m2.pos == m.pos && *final(p) == *old(p), vx_r is Ok ==> gr(*old(p), *final(p), m.pos as int, 1int)
//@end
//@fn crates/syntax/src/parse/grammar/expressions/atom.rs is_assert_ident auto
//@spec
    ensures vx_r ==> p.cur() == IDENT
//@end
//@fn crates/syntax/src/parse/grammar/expressions/atom.rs atom_expr auto
//@before let cm = for_expr
    proof { lemma_for(*p); }
//@end
//@fn crates/syntax/src/parse/grammar/expressions/atom.rs match_expr auto
//@spec
    requires tok_at(old(p).toks(), old(p).at_pos() + 1).kind == L_PAREN
//@in fn begin
    proof { reveal(tok_at); reveal(toks_ok); }
//@end
//@fn crates/syntax/src/parse/grammar/expressions/atom.rs assert_macro_expr auto
//@spec
    requires tok_at(old(p).toks(), old(p).at_pos() + 1).kind == BANG
//@end
//@fn crates/syntax/src/parse/grammar/specs/schemas.rs wildcard_ident auto
//@in fn begin
    let ghost vx_t = p.toks(); let ghost vx_n = p.at_pos();
//@in loop 0 begin
    proof { lemma_in(vx_t, vx_n + i); }
//@loop 0
    invariant_except_break n_tokens == i, vx_n + i <= vx_t.len(), forall|j: int| vx_n <= j < vx_n + i ==> #[trigger] joint(vx_t, j)
    invariant p.wf(), *p == *old(p), vx_t.len() <= u32::MAX
    ensures n_tokens >= 1 ==> vx_n + n_tokens <= vx_t.len() && forall|j: int| vx_n <= j < vx_n + n_tokens - 1 ==> #[trigger] joint(vx_t, j)
//@end
//@fn crates/syntax/src/parse/grammar/specs/schemas.rs inner_expr auto
//@spec
    requires bp >= 1
//@end
//@fn crates/syntax/src/parse/grammar/specs/schemas.rs include_schema_expr auto
//@spec
    requires old(p).ev().len() > 0
//@after let parent_pos
    let ghost vx_p1 = *p;
//@before lhs_expr . abandon_with_rollback
    proof { assert(p.ev().take(parent_pos + 1) =~= vx_p1.ev()); }
//@after let parent_pos #1
    let ghost vx_p2 = *p;
//@before lhs_expr . abandon_with_rollback #1
    proof { assert(p.ev().take(parent_pos + 1) =~= vx_p2.ev()); }
//@rewrite? p . error_and_recover ( "expected schema lit" , INCLUDE_SCHEMA_RECOVERY_SET ) ; return None ; =>> p.error_and_recover("expected schema lit", INCLUDE_SCHEMA_RECOVERY_SET); /*@{ m.abandon(p); }@*/ return None;
//@end
//@fn crates/syntax/src/parse/grammar/specs/proofs_and_lemmas.rs proof auto as vx_proof
//@end
//@allfns crates/syntax/src/parse/grammar.rs
//@allfns crates/syntax/src/parse/grammar/utils.rs
//@allfns crates/syntax/src/parse/grammar/attributes.rs
//@allfns crates/syntax/src/parse/grammar/lambdas.rs
//@allfns crates/syntax/src/parse/grammar/params.rs
//@allfns crates/syntax/src/parse/grammar/paths.rs
//@allfns crates/syntax/src/parse/grammar/type_args.rs
//@allfns crates/syntax/src/parse/grammar/type_params.rs
//@allfns crates/syntax/src/parse/grammar/types.rs
//@allfns crates/syntax/src/parse/grammar/patterns.rs const_pat
//@allfns crates/syntax/src/parse/grammar/items.rs
//@allfns crates/syntax/src/parse/grammar/items/adt.rs
//@allfns crates/syntax/src/parse/grammar/items/fun.rs bump_modifier_if_possible function_modifier_tokens
//@allfns crates/syntax/src/parse/grammar/items/item_spec.rs
//@allfns crates/syntax/src/parse/grammar/items/use_item.rs
//@allfns crates/syntax/src/parse/grammar/expressions.rs STMT_FIRST
//@allfns crates/syntax/src/parse/grammar/expressions/atom.rs
//@allfns crates/syntax/src/parse/grammar/expressions/blocks.rs
//@allfns crates/syntax/src/parse/grammar/specs.rs
//@allfns crates/syntax/src/parse/grammar/specs/behavior.rs
//@allfns crates/syntax/src/parse/grammar/specs/predicates.rs on_predicate_start
//@allfns crates/syntax/src/parse/grammar/specs/proofs_and_lemmas.rs
//@allfns crates/syntax/src/parse/grammar/specs/quants.rs
//@allfns crates/syntax/src/parse/grammar/specs/schemas.rs
