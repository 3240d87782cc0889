/// `for` is an identifier to the lexer (a keyword only in context)
#[verifier::opaque]
pub open spec fn word_at(t: Seq<char>, a: int, b: int, kind: SyntaxKind) -> bool {
    forall|i: int, k: int| 0 <= i <= k <= t.len() && #[trigger] bo(t, i) == a && #[trigger] bo(t, k) == b && t.subrange(i, k) == "for"@ ==> kind == SyntaxKind::IDENT
}
