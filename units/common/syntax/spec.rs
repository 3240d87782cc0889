global size_of usize == 8;
//@rewrite T ! [ < = = > ] =>> SyntaxKind::LT_EQ_EQ_GT
//@tmacro crates/syntax/src/syntax_kind/generated.rs
//@item crates/syntax/src/syntax_kind/generated.rs SyntaxKind derive(Clone, Copy, PartialEq, Eq, Structural)
//@item crates/syntax/src/parse/lexer.rs RawToken derive(Clone, Copy)
//@item crates/syntax/src/parse.rs Token derive(Clone, Copy)
//@item crates/syntax/src/parse.rs ParseError
//@item crates/syntax/src/parse/event.rs Event
use SyntaxKind::*;
pub struct SyntaxError { }
pub type Toks = Seq<(RawToken, TextSize)>;
pub open spec fn trivia(k: SyntaxKind) -> bool { k == WHITESPACE || k == COMMENT }
//@include raw.rs
/// the tokens without whitespace and comments, with their offsets
pub open spec fn nt(v: Seq<RawToken>, k: int) -> Toks decreases k {
    if k <= 0 { Seq::empty() } else if trivia(v[k - 1].kind) { nt(v, k - 1) } else { nt(v, k - 1).push((v[k - 1], TextSize { raw: rsum(v, k - 1) as u32 })) }
}
pub open spec fn joint(toks: Toks, i: int) -> bool { 0 <= i && i + 1 < toks.len() && toks[i].1.raw + toks[i].0.len.raw == toks[i + 1].1.raw }
pub open spec fn tok_at(toks: Toks, i: int) -> Token {
    if 0 <= i < toks.len() { Token { kind: toks[i].0.kind, is_jointed_to_next: joint(toks, i) } } else { Token { kind: EOF, is_jointed_to_next: false } }
}
//@include word.rs
pub open spec fn toks_ok(t: Seq<char>, toks: Toks) -> bool {
    forall|i: int| 0 <= i < toks.len() ==> (#[trigger] toks[i]).0.kind != EOF && toks[i].1.raw + toks[i].0.len.raw <= u32::MAX
        && word_at(t, toks[i].1.raw as int, toks[i].1.raw + toks[i].0.len.raw, toks[i].0.kind)
        && is_bo(t, toks[i].1.raw as int) && is_bo(t, toks[i].1.raw + toks[i].0.len.raw)
        && (i > 0 ==> toks[i - 1].1.raw + toks[i - 1].0.len.raw <= toks[i].1.raw)
}
// ---- events
pub open spec fn ntok(e: Event) -> int { match e { Event::Token { kind, n_raw_tokens } => n_raw_tokens as int, _ => 0 } }
/// tokens consumed by a list of events
pub open spec fn used(ev: Seq<Event>) -> int decreases ev.len() { if ev.len() == 0 { 0 } else { used(ev.drop_last()) + ntok(ev.last()) } }
pub open spec fn is_node(e: Event) -> bool { e matches Event::Start { kind, forward_parent } && kind != TOMBSTONE }
pub open spec fn dd(e: Event) -> int { if is_node(e) { 1 } else if e is Finish { -1 } else { 0 } }
/// started minus finished nodes
pub open spec fn depth(ev: Seq<Event>) -> int decreases ev.len() { if ev.len() == 0 { 0 } else { depth(ev.drop_last()) + dd(ev.last()) } }
/// forward parent of an event, as an index
pub open spec fn fwd(ev: Seq<Event>, i: int) -> int { match ev[i] { Event::Start { kind, forward_parent: Some(d) } => i + d, _ => i } }
/// every token event stands for tokens which are there and which touch; no prefix finishes more nodes than it starts
pub open spec fn ev_ok(ev: Seq<Event>, toks: Toks) -> bool decreases ev.len() {
    ev.len() > 0 ==> {
        &&& ev_ok(ev.drop_last(), toks)
        &&& depth(ev) >= 0
        &&& used(ev) <= toks.len()
        &&& ev.last() matches Event::Token { kind, n_raw_tokens } ==> n_raw_tokens >= 1 && forall|j: int| used(ev.drop_last()) <= j < used(ev) - 1 ==> joint(toks, j)
    }
}
/// forward parents are later start events
pub open spec fn fwd_ok(ev: Seq<Event>) -> bool {
    forall|i: int| 0 <= i < ev.len() && (#[trigger] ev[i] matches Event::Start { kind, forward_parent: Some(d) }) ==> i < fwd(ev, i) < ev.len() && ev[fwd(ev, i)] is Start
}
pub open spec fn evs(ev: Seq<Event>, toks: Toks) -> bool { ev_ok(ev, toks) && fwd_ok(ev) && depth(ev) == 0 }
pub open spec fn start_at(ev: Seq<Event>, i: int) -> bool { 0 <= i < ev.len() && ev[i] is Start }
pub open spec fn live_at(ev: Seq<Event>, i: int) -> bool { 0 <= i < ev.len() && ev[i] == (Event::Start { kind: TOMBSTONE, forward_parent: None }) }
// ---- lemmas over event lists
pub proof fn lemma_push(ev: Seq<Event>, e: Event)
    ensures used(ev.push(e)) == used(ev) + ntok(e), depth(ev.push(e)) == depth(ev) + dd(e)
{ assert(ev.push(e).drop_last() =~= ev); }
pub proof fn lemma_push_ok(ev: Seq<Event>, e: Event, toks: Toks)
    requires ev_ok(ev, toks), used(ev) <= toks.len(), depth(ev) + dd(e) >= 0, used(ev) + ntok(e) <= toks.len(),
        e matches Event::Token { kind, n_raw_tokens } ==> n_raw_tokens >= 1 && forall|j: int| used(ev) <= j < used(ev) + n_raw_tokens - 1 ==> joint(toks, j)
    ensures ev_ok(ev.push(e), toks)
{ lemma_push(ev, e); assert(ev.push(e).drop_last() =~= ev); }
pub proof fn lemma_used(ev: Seq<Event>, toks: Toks) requires ev_ok(ev, toks) ensures 0 <= used(ev) <= toks.len() decreases ev.len()
{ if ev.len() > 0 { lemma_used(ev.drop_last(), toks); } }
/// a start event becomes another start event
pub proof fn lemma_update(ev: Seq<Event>, i: int, e: Event, toks: Toks)
    requires start_at(ev, i), e is Start, ev_ok(ev, toks), dd(e) >= dd(ev[i])
    ensures ev_ok(ev.update(i, e), toks), used(ev.update(i, e)) == used(ev), depth(ev.update(i, e)) == depth(ev) + dd(e) - dd(ev[i])
    decreases ev.len()
{
    let w = ev.update(i, e); let d = ev.drop_last();
    if i == ev.len() - 1 { assert(w.drop_last() =~= d); }
    else { lemma_update(d, i, e, toks); assert(w.drop_last() =~= d.update(i, e)); }
}
pub proof fn lemma_take(ev: Seq<Event>, k: int, toks: Toks)
    requires ev_ok(ev, toks), 0 <= k <= ev.len() ensures ev_ok(ev.take(k), toks), 0 <= used(ev.take(k)) <= used(ev), depth(ev.take(k)) >= 0 decreases ev.len()
{
    if k == ev.len() { assert(ev.take(k) =~= ev); lemma_used(ev, toks); }
    else { lemma_take(ev.drop_last(), k, toks); assert(ev.drop_last().take(k) =~= ev.take(k)); }
}
pub proof fn lemma_take_step(ev: Seq<Event>, k: int)
    requires 0 <= k < ev.len() ensures used(ev.take(k + 1)) == used(ev.take(k)) + ntok(ev[k]), depth(ev.take(k + 1)) == depth(ev.take(k)) + dd(ev[k])
{ assert(ev.take(k + 1) =~= ev.take(k).push(ev[k])); lemma_push(ev.take(k), ev[k]); }
