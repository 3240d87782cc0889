/// what the lexer guarantees: the tokens cut the text into nonempty pieces (theorem_raw_ok in the lexer unit)
pub open spec fn rsum(v: Seq<RawToken>, k: int) -> int decreases k { if k <= 0 { 0 } else { rsum(v, k - 1) + v[k - 1].len.raw } }
pub open spec fn raw_ok(t: Seq<char>, v: Seq<RawToken>) -> bool {
    &&& encode_utf8(t).len() <= u32::MAX
    &&& rsum(v, v.len() as int) == encode_utf8(t).len()
    &&& forall|k: int| 0 <= k <= v.len() ==> is_bo(t, #[trigger] rsum(v, k))
    &&& forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).len.raw >= 1 && v[k].kind != SyntaxKind::EOF && (v[k].kind == SyntaxKind::COMMENT ==> comment_at(t, rsum(v, k), rsum(v, k + 1)))
    &&& words_from(t, v, 0)
}
#[verifier::opaque]
pub open spec fn words_from(t: Seq<char>, v: Seq<RawToken>, i: int) -> bool { forall|k: int| i <= k < v.len() ==> word_at(t, rsum(v, k), rsum(v, k) + (#[trigger] v[k]).len.raw, v[k].kind) }
/// the piece of text starts like a comment
pub open spec fn comment_at(t: Seq<char>, a: int, b: int) -> bool {
    forall|i: int, k: int| 0 <= i <= k <= t.len() && #[trigger] bo(t, i) == a && #[trigger] bo(t, k) == b ==> is_comment(t.subrange(i, k))
}
pub open spec fn is_comment(s: Seq<char>) -> bool { s.len() >= 2 && s[0] == '/' && (s[1] == '/' || s[1] == '*') }
