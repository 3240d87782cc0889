#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include ../common/prelude.rs
//@include ../common/text.rs
//@include ../common/bytes.rs
fn main() {}
//@tmacro crates/syntax/src/syntax_kind/generated.rs
//@item crates/syntax/src/syntax_kind/generated.rs SyntaxKind derive(Clone, Copy)
//@item crates/syntax/src/parse/lexer/move_model.rs Tok derive(Clone, Copy)
//@item crates/syntax/src/parse/lexer.rs RawToken derive(Clone, Copy)
pub struct SyntaxError { }
use SyntaxKind::*;

// ================= specification: the tokens of Move
pub enum Class { Name, Ws, Dec, Hex, Alnum, NotNl }
pub open spec fn isc(cl: Class, c: char) -> bool {
    match cl {
        Class::Name => ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || c == '_' || ('0' <= c && c <= '9'),
        Class::Ws => c == ' ' || c == '\t' || c == '\n',
        Class::Dec => ('0' <= c && c <= '9') || c == '_',
        Class::Hex => ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') || ('0' <= c && c <= '9') || c == '_',
        Class::Alnum => ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9'),
        Class::NotNl => c != '\n',
    }
}
pub open spec fn alpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || c == '_' }
/// where the run of characters of a class which begins at i ends
pub open spec fn run(t: Seq<char>, i: int, cl: Class) -> int decreases t.len() - i { if 0 <= i < t.len() && isc(cl, t[i]) { run(t, i + 1, cl) } else { i } }
pub open spec fn at(t: Seq<char>, i: int, c: char) -> bool { 0 <= i < t.len() && t[i] == c }
/// the first line, without its line break
pub open spec fn line_len(t: Seq<char>) -> int { let k = run(t, 0, Class::NotNl); if k < t.len() && k > 0 && t[k - 1] == '\r' { k - 1 } else { k } }
/// the end of a block comment whose inside continues at k with `depth` nested comments open; the end of the text if it is not closed
pub open spec fn comment_end(t: Seq<char>, k: int, depth: nat) -> int decreases t.len() - k {
    if k + 1 >= t.len() || k < 0 { t.len() as int }
    else if t[k] == '/' && t[k + 1] == '*' { comment_end(t, k + 2, depth + 1) }
    else if t[k] == '*' && t[k + 1] == '/' { if depth == 0 { k + 2 } else { comment_end(t, k + 2, (depth - 1) as nat) } }
    else { comment_end(t, k + 1, depth) }
}
/// the end of a byte string whose inside continues at k, on a single line
pub open spec fn string_end(l: Seq<char>, k: int) -> Option<int> decreases l.len() - k {
    if k < 0 || k >= l.len() { None } else if l[k] == '"' { Some(k + 1) }
    else if l[k] == '\\' { if k + 1 < l.len() { string_end(l, k + 2) } else { None } }
    else { string_end(l, k + 1) }
}
pub open spec fn byte_string(l: Seq<char>) -> Option<int> { if at(l, 0, 'b') && at(l, 1, '"') { string_end(l, 2) } else { None } }
pub open spec fn hex_string(l: Seq<char>) -> Option<int> { if at(l, 0, 'x') && at(l, 1, '"') { let k = run(l, 2, Class::Alnum); Some(if at(l, k, '"') { k + 1 } else { k }) } else { None } }
pub open spec fn label(t: Seq<char>) -> Option<int> { if at(t, 0, '\'') && t.len() >= 2 && alpha(t[1]) { Some(run(t, 2, Class::Name)) } else { None } }
pub open spec fn suffix2(t: Seq<char>, i: int, a: char) -> bool { (at(t, i, 'u') || at(t, i, 'i')) && at(t, i + 1, a) }
pub open spec fn suffix3(t: Seq<char>, i: int, a: char, b: char) -> bool { suffix2(t, i, a) && at(t, i + 2, b) }
pub open spec fn suffix4(t: Seq<char>, i: int, a: char, b: char, c: char) -> bool { suffix3(t, i, a, b) && at(t, i + 3, c) }
pub open spec fn suffix(t: Seq<char>, i: int) -> int {
    if suffix2(t, i, '8') { 2 }
    else if suffix3(t, i, '1', '6') || suffix3(t, i, '3', '2') || suffix3(t, i, '6', '4') { 3 }
    else if suffix4(t, i, '1', '2', '8') || suffix4(t, i, '2', '5', '6') { 4 } else { 0 }
}
/// digits up to n, then a type suffix if there is one
pub open spec fn number(t: Seq<char>, n: int) -> (Tok, int) { if suffix(t, n) > 0 { (Tok::NumTypedValue, n + suffix(t, n)) } else { (Tok::NumValue, n) } }
pub open spec fn keyword(s: Seq<char>) -> Tok { if s == "abort"@ { Tok::Abort } else if s == "acquires"@ { Tok::Acquires } else if s == "as"@ { Tok::As } else if s == "break"@ { Tok::Break } else if s == "const"@ { Tok::Const } else if s == "continue"@ { Tok::Continue } else if s == "else"@ { Tok::Else } else if s == "false"@ { Tok::False } else if s == "fun"@ { Tok::Fun } else if s == "friend"@ { Tok::Friend } else if s == "if"@ { Tok::If } else if s == "invariant"@ { Tok::Invariant } else if s == "let"@ { Tok::Let } else if s == "loop"@ { Tok::Loop } else if s == "inline"@ { Tok::Inline } else if s == "module"@ { Tok::Module } else if s == "move"@ { Tok::Move } else if s == "native"@ { Tok::Native } else if s == "public"@ { Tok::Public } else if s == "return"@ { Tok::Return } else if s == "script"@ { Tok::Script } else if s == "spec"@ { Tok::Spec } else if s == "struct"@ { Tok::Struct } else if s == "true"@ { Tok::True } else if s == "use"@ { Tok::Use } else if s == "while"@ { Tok::While } else if s == "mut"@ { Tok::Mut } else if s == "_"@ { Tok::Underscore } else { Tok::Identifier } }
uninterp spec fn vx_grapheme(t: Seq<char>) -> int;
/// how many characters the first grapheme cluster of a text has
pub closed spec fn grapheme(t: Seq<char>) -> int { let g = vx_grapheme(t); if g < 1 { 1 } else if g > t.len() { t.len() as int } else { g } }
/// the first token of a nonempty text: what it is, and how many characters it has
pub open spec fn token(t: Seq<char>) -> (Tok, int) {
    let c = t[0]; let d = if t.len() > 1 { t[1] } else { '\0' }; let e = if t.len() > 2 { t[2] } else { '\0' };
    if grapheme(t) > 1 { (Tok::BadCharacter, grapheme(t)) }
    else if c == '/' && d == '/' { (Tok::LineComment, line_len(t)) }
    else if c == '/' && d == '*' { (Tok::BlockComment, comment_end(t, 2, 0)) }
    else if isc(Class::Ws, c) { (Tok::Whitespace, run(t, 0, Class::Ws)) }
    else if c == '0' && d == 'x' && t.len() > 2 {
        let h = number(t.skip(2), run(t.skip(2), 0, Class::Hex));
        if h.1 == 0 { (Tok::NumValue, 1) } else { (h.0, 2 + h.1) }
    }
    else if '0' <= c && c <= '9' { number(t, run(t, 0, Class::Dec)) }
    else if c == 'x' && d == '"' { (Tok::HexStringValue, hex_string(t.take(line_len(t))).unwrap()) }
    else if c == 'b' && d == '"' { (Tok::ByteStringValue, match byte_string(t.take(line_len(t))) { Some(k) => k, None => line_len(t) }) }
    else if alpha(c) { (keyword(t.take(run(t, 0, Class::Name))), run(t, 0, Class::Name)) }
    else if c == '\'' { match label(t) { Some(k) => (Tok::Label, k), None => (Tok::BadCharacter, 1) } }
    else if c == '=' { if d == '=' && e == '>' { (Tok::EqualEqualGreater, 3) } else if d == '>' { (Tok::EqualGreater, 2) } else if d == '=' { (Tok::EqualEqual, 2) } else { (Tok::Equal, 1) } }
    else if c == '(' { (Tok::LParen, 1) }
    else if c == ')' { (Tok::RParen, 1) }
    else if c == '[' { (Tok::LBracket, 1) }
    else if c == ']' { (Tok::RBracket, 1) }
    else if c == ',' { (Tok::Comma, 1) }
    else if c == ';' { (Tok::Semicolon, 1) }
    else if c == '{' { (Tok::LBrace, 1) }
    else if c == '}' { (Tok::RBrace, 1) }
    else if c == '#' { (Tok::NumSign, 1) }
    else if c == '@' { (Tok::AtSign, 1) }
    else if c == '<' { (Tok::Less, 1) }
    else if c == '>' { (Tok::Greater, 1) }
    else if c == '&' { if d == '=' { (Tok::BitAndEqual, 2) } else { (Tok::Amp, 1) } }
    else if c == '|' { if d == '=' { (Tok::BitOrEqual, 2) } else { (Tok::Pipe, 1) } }
    else if c == '!' { if d == '=' { (Tok::ExclaimEqual, 2) } else { (Tok::Exclaim, 1) } }
    else if c == ':' { if d == ':' { (Tok::ColonColon, 2) } else { (Tok::Colon, 1) } }
    else if c == '%' { if d == '=' { (Tok::ModEqual, 2) } else { (Tok::Percent, 1) } }
    else if c == '*' { if d == '=' { (Tok::MulEqual, 2) } else { (Tok::Star, 1) } }
    else if c == '+' { if d == '=' { (Tok::PlusEqual, 2) } else { (Tok::Plus, 1) } }
    else if c == '-' { if d == '=' { (Tok::SubEqual, 2) } else { (Tok::Minus, 1) } }
    else if c == '.' { if d == '.' { (Tok::PeriodPeriod, 2) } else { (Tok::Period, 1) } }
    else if c == '/' { if d == '=' { (Tok::DivEqual, 2) } else { (Tok::Slash, 1) } }
    else if c == '^' { if d == '=' { (Tok::XorEqual, 2) } else { (Tok::Caret, 1) } }
    else { (Tok::BadCharacter, 1) }
}
/// the syntax kind of a token
pub open spec fn kind(tok: Tok) -> SyntaxKind {
    match tok {
        Tok::Whitespace => SyntaxKind::WHITESPACE,
        Tok::LineComment => SyntaxKind::COMMENT,
        Tok::BlockComment => SyntaxKind::COMMENT,
        Tok::BadCharacter => SyntaxKind::BAD_CHARACTER,
        Tok::NumValue => SyntaxKind::INT_NUMBER,
        Tok::NumTypedValue => SyntaxKind::INT_NUMBER,
        Tok::Identifier => SyntaxKind::IDENT,
        Tok::Label => SyntaxKind::QUOTE_IDENT,
        Tok::ByteStringValue => SyntaxKind::BYTE_STRING,
        Tok::HexStringValue => SyntaxKind::HEX_STRING,
        Tok::Plus => SyntaxKind::PLUS,
        Tok::Minus => SyntaxKind::MINUS,
        Tok::Star => SyntaxKind::STAR,
        Tok::Slash => SyntaxKind::SLASH,
        Tok::Percent => SyntaxKind::PERCENT,
        Tok::AtSign => SyntaxKind::AT,
        Tok::NumSign => SyntaxKind::POUND,
        Tok::Underscore => SyntaxKind::UNDERSCORE,
        Tok::LParen => SyntaxKind::L_PAREN,
        Tok::RParen => SyntaxKind::R_PAREN,
        Tok::LBrace => SyntaxKind::L_CURLY,
        Tok::RBrace => SyntaxKind::R_CURLY,
        Tok::LBracket => SyntaxKind::L_BRACK,
        Tok::RBracket => SyntaxKind::R_BRACK,
        Tok::Less => SyntaxKind::L_ANGLE,
        Tok::Greater => SyntaxKind::R_ANGLE,
        Tok::EqualEqual => SyntaxKind::EQ_EQ,
        Tok::ExclaimEqual => SyntaxKind::NOT_EQ,
        Tok::Caret => SyntaxKind::CARET,
        Tok::Amp => SyntaxKind::AMP,
        Tok::Pipe => SyntaxKind::PIPE,
        Tok::PlusEqual => SyntaxKind::PLUS_EQ,
        Tok::SubEqual => SyntaxKind::MINUS_EQ,
        Tok::MulEqual => SyntaxKind::STAR_EQ,
        Tok::DivEqual => SyntaxKind::SLASH_EQ,
        Tok::ModEqual => SyntaxKind::PERCENT_EQ,
        Tok::XorEqual => SyntaxKind::CARET_EQ,
        Tok::BitAndEqual => SyntaxKind::AMP_EQ,
        Tok::BitOrEqual => SyntaxKind::PIPE_EQ,
        Tok::EqualGreater => SyntaxKind::FAT_ARROW,
        Tok::EqualEqualGreater => SyntaxKind::IMPLIES,
        Tok::Equal => SyntaxKind::EQ,
        Tok::Exclaim => SyntaxKind::BANG,
        Tok::Period => SyntaxKind::DOT,
        Tok::Comma => SyntaxKind::COMMA,
        Tok::Semicolon => SyntaxKind::SEMICOLON,
        Tok::Colon => SyntaxKind::COLON,
        Tok::ColonColon => SyntaxKind::COLON_COLON,
        Tok::PeriodPeriod => SyntaxKind::DOT_DOT,
        Tok::Abort => SyntaxKind::ABORT_KW,
        Tok::Acquires => SyntaxKind::ACQUIRES_KW,
        Tok::As => SyntaxKind::AS_KW,
        Tok::Break => SyntaxKind::BREAK_KW,
        Tok::Const => SyntaxKind::CONST_KW,
        Tok::Continue => SyntaxKind::CONTINUE_KW,
        Tok::Else => SyntaxKind::ELSE_KW,
        Tok::False => SyntaxKind::FALSE_KW,
        Tok::Fun => SyntaxKind::FUN_KW,
        Tok::Friend => SyntaxKind::FRIEND_KW,
        Tok::If => SyntaxKind::IF_KW,
        Tok::Invariant => SyntaxKind::INVARIANT_KW,
        Tok::Let => SyntaxKind::LET_KW,
        Tok::Loop => SyntaxKind::LOOP_KW,
        Tok::Inline => SyntaxKind::INLINE_KW,
        Tok::Module => SyntaxKind::MODULE_KW,
        Tok::Move => SyntaxKind::MOVE_KW,
        Tok::Native => SyntaxKind::NATIVE_KW,
        Tok::Public => SyntaxKind::PUBLIC_KW,
        Tok::Return => SyntaxKind::RETURN_KW,
        Tok::Script => SyntaxKind::SCRIPT_KW,
        Tok::Spec => SyntaxKind::SPEC_KW,
        Tok::Struct => SyntaxKind::STRUCT_KW,
        Tok::True => SyntaxKind::TRUE_KW,
        Tok::Use => SyntaxKind::USE_KW,
        Tok::While => SyntaxKind::WHILE_KW,
        Tok::Mut => SyntaxKind::MUT_KW,
        _ => SyntaxKind::ERROR,
    }
}
pub open spec fn lexable(tok: Tok) -> bool { !(tok is EOF || tok is Copy || tok is PipePipe) }
/// all tokens of a text: their kinds and how many bytes each has
pub open spec fn lex(t: Seq<char>) -> Seq<(SyntaxKind, int)> decreases t.len() {
    let (tok, n) = token(t);
    if t.len() == 0 || n < 1 || n > t.len() { Seq::empty() } else { seq![(kind(tok), bo(t, n))] + lex(t.skip(n)) }
}
pub open spec fn total(s: Seq<(SyntaxKind, int)>) -> int decreases s.len() { if s.len() == 0 { 0 } else { s[0].1 + total(s.skip(1)) } }

pub proof fn lemma_run(t: Seq<char>, i: int, cl: Class)
    requires 0 <= i <= t.len()
    ensures i <= run(t, i, cl) <= t.len(), forall|j: int| i <= j < run(t, i, cl) ==> isc(cl, #[trigger] t[j]), run(t, i, cl) < t.len() ==> !isc(cl, t[run(t, i, cl)])
    decreases t.len() - i
{ if i < t.len() && isc(cl, t[i]) { lemma_run(t, i + 1, cl); } }
pub proof fn lemma_run_is(t: Seq<char>, i: int, cl: Class, k: int)
    requires 0 <= i <= k <= t.len(), forall|j: int| i <= j < k ==> isc(cl, #[trigger] t[j]), k < t.len() ==> !isc(cl, t[k])
    ensures run(t, i, cl) == k
    decreases k - i
{ if i < k { assert(isc(cl, t[i])); lemma_run_is(t, i + 1, cl, k); } }
pub proof fn lemma_class(cl: Class, c: char) ensures isc(cl, c) && !(cl is NotNl) ==> (c as u32) < 0x80 { }
/// a run of ascii characters has as many bytes as characters
pub proof fn lemma_ascii_run(t: Seq<char>, cl: Class, i: int)
    requires 0 <= i <= t.len(), !(cl is NotNl), forall|j: int| 0 <= j < i ==> (#[trigger] t[j] as u32) < 0x80
    ensures bo(t, run(t, i, cl)) == run(t, i, cl), i <= run(t, i, cl) <= t.len(), i < t.len() && isc(cl, t[i]) ==> run(t, i, cl) > i
{
    lemma_run(t, i, cl);
    let k = run(t, i, cl);
    assert forall|j: int| 0 <= j < k implies (#[trigger] t[j] as u32) < 0x80 by { if j >= i { lemma_class(cl, t[j]); } }
    lemma_bo_ascii(t, k);
    if i < t.len() && isc(cl, t[i]) { lemma_run(t, i + 1, cl); }
}
pub proof fn lemma_comment_end(t: Seq<char>, k: int, d: nat)
    requires 0 <= k <= t.len() ensures k <= comment_end(t, k, d) <= t.len() decreases t.len() - k
{ if k + 1 >= t.len() { } else if t[k] == '/' && t[k + 1] == '*' { lemma_comment_end(t, k + 2, d + 1); } else if t[k] == '*' && t[k + 1] == '/' { if d > 0 { lemma_comment_end(t, k + 2, (d - 1) as nat); } } else { lemma_comment_end(t, k + 1, d); } }
pub proof fn lemma_string_end(l: Seq<char>, k: int)
    requires 0 <= k <= l.len() ensures string_end(l, k) matches Some(e) ==> k < e <= l.len() decreases l.len() - k
{ if k < l.len() && l[k] != '"' { if l[k] == '\\' { if k + 1 < l.len() { lemma_string_end(l, k + 2); } } else { lemma_string_end(l, k + 1); } } }
/// how many characters a token can have
pub proof fn lemma_token(t: Seq<char>)
    requires t.len() > 0 ensures 1 <= token(t).1 <= t.len(), lexable(token(t).0)
{
    let c = t[0];
    lemma_run(t, 0, Class::NotNl); lemma_run(t, 0, Class::Ws); lemma_run(t, 0, Class::Dec); lemma_run(t, 0, Class::Name);
    if c == '/' && t.len() > 1 { lemma_comment_end(t, 2, 0);
        if t[1] == '/' { assert(run(t, 0, Class::NotNl) >= 2) by { assert(isc(Class::NotNl, t[0])); assert(isc(Class::NotNl, t[1])); lemma_run(t, 2, Class::NotNl); reveal_with_fuel(run, 3); } } }
    if (c == 'x' || c == 'b') && t.len() > 1 && t[1] == '"' { lemma_line2(t); let l = t.take(line_len(t)); lemma_run(l, 2, Class::Alnum); lemma_string_end(l, 2); }
    if isc(Class::Ws, c) { lemma_run(t, 1, Class::Ws); }
    if isc(Class::Dec, c) { lemma_run(t, 1, Class::Dec); }
    if isc(Class::Name, c) { lemma_run(t, 1, Class::Name); }
    if c == '\'' && t.len() > 1 { lemma_run(t, 2, Class::Name); }
    if t.len() > 2 { lemma_run(t.skip(2), 0, Class::Hex); }
}
/// a line which begins with two characters that are no line breaks has at least these two
pub proof fn lemma_line2(t: Seq<char>)
    requires t.len() > 1, t[0] != '\n', t[1] != '\n', t[1] != '\r' ensures 2 <= line_len(t) <= t.len()
{ lemma_run(t, 0, Class::NotNl); assert(isc(Class::NotNl, t[0])); assert(isc(Class::NotNl, t[1])); lemma_run(t, 2, Class::NotNl); reveal_with_fuel(run, 3); }
/// X01: the tokens of a text are nonempty, and together exactly as long as the text
pub proof fn theorem_lossless(t: Seq<char>)
    ensures total(lex(t)) == encode_utf8(t).len(), forall|i: int| 0 <= i < lex(t).len() ==> #[trigger] lex(t)[i].1 >= 1
    decreases t.len()
{
    if t.len() == 0 { assert(t =~= Seq::<char>::empty()); lemma_bo_ascii(t, 0); assert(t.take(0) =~= t); }
    else {
        lemma_token(t); let n = token(t).1; let r = t.skip(n);
        theorem_lossless(r);
        let h = seq![(kind(token(t).0), bo(t, n))];
        assert((h + lex(r)).skip(1) =~= lex(r));
        encode_utf8_concat(t.take(n), r); assert(t.take(n) + r =~= t);
        lemma_bo(t, 0, n); assert(t.take(0) =~= Seq::<char>::empty());
        assert forall|i: int| 0 <= i < lex(t).len() implies #[trigger] lex(t)[i].1 >= 1 by { if i > 0 { assert(lex(t)[i] == lex(r)[i - 1]); } }
    }
}

pub open spec fn hint(k: int) -> bool { true }
// ---- trusted: std, regex and unicode-segmentation
#[verifier::external_body]
pub fn vx_first_grapheme(t: &str) -> (r: Option<&str>)
    ensures t@.len() == 0 <==> r is None, r matches Some(g) ==> g@ == t@.take(grapheme(t@)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_first_line(t: &str) -> (r: &str) requires t@.len() > 0 ensures r@ == t@.take(line_len(t@)) { unimplemented!() }
/// position of the first character the closure accepts, counted in characters
#[verifier::external_body]
pub fn vx_char_pos<F: Fn(char) -> bool>(t: &str, f: F) -> (r: Option<usize>)
    requires forall|c: char| call_requires(f, (c,))
    ensures match r {
        Some(k) => hint(k as int) && k < t@.len() && call_ensures(f, (t@[k as int],), true) && forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] t@[i],), false),
        None => hint(t@.len() as int) && forall|i: int| 0 <= i < t@.len() ==> call_ensures(f, (#[trigger] t@[i],), false) } { unimplemented!() }
/// the same, counted in bytes
#[verifier::external_body]
pub fn vx_find_char<F: Fn(char) -> bool>(t: &str, f: F) -> (r: Option<usize>)
    requires forall|c: char| call_requires(f, (c,))
    ensures match r {
        Some(b) => exists|k: int| 0 <= k < t@.len() && hint(k) && b == #[trigger] bo(t@, k) && call_ensures(f, (t@[k as int],), true) && forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] t@[i],), false),
        None => hint(t@.len() as int) && forall|i: int| 0 <= i < t@.len() ==> call_ensures(f, (#[trigger] t@[i],), false) } { unimplemented!() }
pub struct VxMatch { pub n: usize }
impl VxMatch { pub fn len(&self) -> (r: usize) ensures r == self.n { self.n } }
pub fn vx_match_len(m: Option<VxMatch>) -> (r: Option<usize>) ensures r == (match m { Some(m) => Some(m.n), None => None }) { match m { Some(m) => Some(m.n), None => None } }
//@pin crates/syntax/src/parse/lexer/move_model.rs static HEX_STRING_REGEX : LazyLock < Regex > = LazyLock :: new ( || Regex :: new ( r#"^x"[0-9a-zA-Z]*(")?"# ) . unwrap ( ) )
//@pin crates/syntax/src/parse/lexer/move_model.rs static BYTE_STRING_REGEX : LazyLock < Regex > = LazyLock :: new ( || Regex :: new ( r#"^b"([^"\\]|\\.)*""# ) . unwrap ( ) )
//@pin crates/syntax/src/parse/lexer/move_model.rs static QUOTE_IDENT_REGEX : LazyLock < Regex > = LazyLock :: new ( || Regex :: new ( r#"^'[_a-zA-Z][_a-zA-Z0-9]*"# ) . unwrap ( ) )
pub open spec fn matched(t: Seq<char>, k: Option<int>, r: Option<VxMatch>) -> bool { match k { Some(k) => r matches Some(m) && m.n == bo(t, k), None => r is None } }
#[verifier::external_body]
pub fn vx_match_hex(t: &str) -> (r: Option<VxMatch>) ensures matched(t@, hex_string(t@), r) { unimplemented!() }
/// on a single line
#[verifier::external_body]
pub fn vx_match_byte(t: &str) -> (r: Option<VxMatch>) requires forall|i: int| 0 <= i < t@.len() ==> t@[i] != '\n' ensures matched(t@, byte_string(t@), r) { unimplemented!() }
#[verifier::external_body]
pub fn vx_match_label(t: &str) -> (r: Option<VxMatch>) ensures matched(t@, label(t@), r) { unimplemented!() }

//@rewrite $t . graphemes ( true ) . next ( ) =>> vx_first_grapheme($t)
//@rewrite & $t . lines ( ) . next ( ) . unwrap ( ) =>> vx_first_line($t)
//@rewrite $t . lines ( ) . next ( ) . unwrap ( ) =>> vx_first_line($t)
//@rewrite HEX_STRING_REGEX . find ( $t ) . map ( | m | m . len ( ) ) =>> vx_match_len(vx_match_hex($t))
//@rewrite BYTE_STRING_REGEX . find ( $t ) . map ( | m | m . len ( ) ) =>> vx_match_len(vx_match_byte($t))
//@rewrite QUOTE_IDENT_REGEX . find ( $t ) . map ( | m | m . len ( ) ) =>> vx_match_len(vx_match_label($t))
//@rewrite HEX_STRING_REGEX . find ( $t ) =>> vx_match_hex($t)
//@rewrite BYTE_STRING_REGEX . find ( $t ) =>> vx_match_byte($t)
//@rewrite QUOTE_IDENT_REGEX . find ( $t ) =>> vx_match_label($t)
//@rewrite & self . text [ $$a .. ] =>> vx_from(self.text, $a)
//@rewrite & self . text [ $$a .. $$b ] =>> vx_slice(self.text, $a, $b)
//@rewrite self . text . len ( ) =>> vx_len(self.text)
//@rewrite & $t [ .. $$b ] =>> vx_to($t, $b)
//@rewrite & $t [ $a .. ] =>> vx_from($t, $a)
//@rewrite $t [ $a .. ] . chars ( ) . peekable ( ) =>> vx_chars(vx_from($t, $a))
//@rewrite $t . chars ( ) . position ( $$c ) =>> vx_char_pos($t, $c)
//@rewrite text . find ( $$c ) =>> vx_find_char(text, $c)
//@rewrite $t . chars ( ) =>> vx_chars($t)
//@rewrite $t . starts_with ( $s ) =>> vx_sw($t, $s)
//@rewrite text . len ( ) =>> vx_len(text)
//@rewrite line . len ( ) =>> vx_len(line)
//@rewrite curr . len ( ) =>> vx_len(curr)
//@rewrite rest . len ( ) =>> vx_len(rest)
//@rewrite $t . content ( ) . len ( ) =>> vx_len($t.content())
//@rewrite move_model :: Lexer =>> Lexer
//@rewrite let mut nested_counter = 0 ; =>> let mut nested_counter: i32 = 0;
//@rewrite Some ( & next ) =>> Some(next)

//@fn crates/syntax/src/parse/lexer/move_model.rs is_num
//@ret r
//@spec
    requires s@.len() > 0
    ensures r == (s@.len() == 1 && '0' <= s@[0] && s@[0] <= '9')
//@end
//@fn crates/syntax/src/parse/lexer/move_model.rs is_alphabetic
//@ret r
//@spec
    requires s@.len() > 0
    ensures r == (s@.len() == 1 && alpha(s@[0]))
//@end
//@fn crates/syntax/src/parse/lexer/move_model.rs get_name_len
//@ret r
//@spec
    ensures r == run(text@, 0, Class::Name), r == bo(text@, run(text@, 0, Class::Name))
//@in fn begin
    proof { lemma_ascii_run(text@, Class::Name, 0); lemma_run(text@, 0, Class::Name); assert(text@.take(text@.len() as int) =~= text@);
        assert forall|k: int| 0 <= k <= text@.len() && (forall|i: int| 0 <= i < k ==> isc(Class::Name, #[trigger] text@[i])) && (k < text@.len() ==> !isc(Class::Name, text@[k])) implies #[trigger] hint(k) && k == run(text@, 0, Class::Name) by { lemma_run_is(text@, 0, Class::Name, k); } }
//@closure 0
    |c: char| -> (b: bool) ensures b == !isc(Class::Name, c)
//@end
//@fn crates/syntax/src/parse/lexer/move_model.rs get_ws_len
//@ret r
//@spec
    ensures r == run(text@, 0, Class::Ws), r == bo(text@, run(text@, 0, Class::Ws))
//@in fn begin
    proof { lemma_ascii_run(text@, Class::Ws, 0); lemma_run(text@, 0, Class::Ws); assert(text@.take(text@.len() as int) =~= text@);
        assert forall|k: int| 0 <= k <= text@.len() && (forall|i: int| 0 <= i < k ==> isc(Class::Ws, #[trigger] text@[i])) && (k < text@.len() ==> !isc(Class::Ws, text@[k])) implies #[trigger] hint(k) && k == run(text@, 0, Class::Ws) by { lemma_run_is(text@, 0, Class::Ws, k); } }
//@closure 0
    |c: char| -> (b: bool) ensures b == !isc(Class::Ws, c)
//@end
//@fn crates/syntax/src/parse/lexer/move_model.rs get_number_maybe_with_suffix strlits
//@ret r
//@spec
    requires encode_utf8(text@).len() <= u32::MAX, num_text_len <= text@.len(), bo(text@, num_text_len as int) == num_text_len
    ensures r.0 == number(text@, num_text_len as int).0, r.1 == number(text@, num_text_len as int).1, r.1 == bo(text@, number(text@, num_text_len as int).1), number(text@, num_text_len as int).1 <= text@.len()
//@in fn begin
    proof { lemma_suffix(text@, num_text_len as int); let m = num_text_len as int + suffix(text@, num_text_len as int); lemma_bo(text@, m, m); lemma_bo(text@, num_text_len as int, text@.len() as int); }
//@after let rest
    proof {
        let n = num_text_len as int;
        assert(bo(text@, n) == n); assert(rest@ == text@.skip(n));
        lemma_bo(text@, n, text@.len() as int);
        assert(rest@.len() > 0 ==> rest@[0] == text@[n]); assert(rest@.len() > 1 ==> rest@[1] == text@[n + 1]); assert(rest@.len() > 2 ==> rest@[2] == text@[n + 2]); assert(rest@.len() > 3 ==> rest@[3] == text@[n + 3]);
    }
//@end
pub proof fn lemma_suffix(t: Seq<char>, n: int)
    requires 0 <= n <= t.len(), bo(t, n) == n ensures n + suffix(t, n) <= t.len(), bo(t, n + suffix(t, n)) == n + suffix(t, n)
{
    let m = n + suffix(t, n);
    assert forall|j: int| n <= j < m implies (#[trigger] t[j] as u32) < 0x80 by { }
    lemma_bo_ascii_from(t, n, m);
}
//@fn crates/syntax/src/parse/lexer/move_model.rs get_decimal_number
//@ret r
//@spec
    requires encode_utf8(text@).len() <= u32::MAX
    ensures ({ let n = number(text@, run(text@, 0, Class::Dec)); r.0 == n.0 && r.1 == n.1 && r.1 == bo(text@, n.1) })
//@in fn begin
    proof { lemma_ascii_run(text@, Class::Dec, 0); lemma_run(text@, 0, Class::Dec); assert(text@.take(text@.len() as int) =~= text@);
        assert forall|k: int| 0 <= k <= text@.len() && (forall|i: int| 0 <= i < k ==> isc(Class::Dec, #[trigger] text@[i])) && (k < text@.len() ==> !isc(Class::Dec, text@[k])) implies #[trigger] hint(k) && k == run(text@, 0, Class::Dec) by { lemma_run_is(text@, 0, Class::Dec, k); } }
//@closure 0
    |c: char| -> (b: bool) ensures b == !isc(Class::Dec, c)
//@end
//@fn crates/syntax/src/parse/lexer/move_model.rs get_hex_number
//@ret r
//@spec
    requires encode_utf8(text@).len() <= u32::MAX
    ensures ({ let n = number(text@, run(text@, 0, Class::Hex)); r.0 == n.0 && r.1 == n.1 && r.1 == bo(text@, n.1) })
//@in fn begin
    proof { lemma_ascii_run(text@, Class::Hex, 0); lemma_run(text@, 0, Class::Hex); assert(text@.take(text@.len() as int) =~= text@);
        assert forall|k: int| 0 <= k <= text@.len() && (forall|i: int| 0 <= i < k ==> isc(Class::Hex, #[trigger] text@[i])) && (k < text@.len() ==> !isc(Class::Hex, text@[k])) implies #[trigger] hint(k) && k == run(text@, 0, Class::Hex) by { lemma_run_is(text@, 0, Class::Hex, k); } }
//@closure 0
    |c: char| -> (b: bool) ensures b == !isc(Class::Hex, c)
//@end
//@fn crates/syntax/src/parse/lexer/move_model.rs get_block_comment_len strlits
//@ret r
//@spec
    requires encode_utf8(text@).len() <= u32::MAX, at(text@, 0, '/'), at(text@, 1, '*')
    ensures r == bo(text@, comment_end(text@, 2, 0))
//@in fn begin
    proof { lemma_bo_ascii(text@, 2); lemma_comment_end(text@, 2, 0); assert(text@.take(text@.len() as int) =~= text@); }
//@loop 0
    invariant encode_utf8(text@).len() <= u32::MAX, at(text@, 0, '/'), at(text@, 1, '*'), bo(text@, 2) == 2,
        text@.take(text@.len() as int) == text@,
        0 <= chars.k@ <= text@.len() - 2, chars.t@ == text@.skip(2),
        0 <= nested_counter, 2 * nested_counter <= pos, 2 + pos == bo(text@, 2 + chars.k@),
        comment_end(text@, 2, 0) == comment_end(text@, 2 + chars.k@, nested_counter as nat),
    ensures
        2 + pos == bo(text@, 2 + chars.k@), chars.k@ == text@.len() - 2,
        comment_end(text@, 2, 0) == comment_end(text@, 2 + chars.k@, nested_counter as nat),
    decreases text@.len() - chars.k@
//@in loop 0 begin
    proof { let k = 2 + chars.k@ - 1; assert(curr == text@[k]); lemma_bo_step(text@, k); if k + 1 < text@.len() { lemma_bo_step(text@, k + 1); lemma_bo(text@, k + 2, text@.len() as int); } else { lemma_bo(text@, k, text@.len() as int); } }
//@end
//@fn crates/syntax/src/parse/lexer/move_model.rs get_name_token strlits
//@ret r
//@spec
    ensures r == keyword(name@)
//@end
//@fn crates/syntax/src/parse/lexer/move_model.rs find_token strlits
//@ret r
//@spec
    requires encode_utf8(text@).len() <= u32::MAX
    ensures text@.len() == 0 ==> r == (Tok::EOF, 0usize),
        text@.len() > 0 ==> r.0 == token(text@).0 && r.1 == bo(text@, token(text@).1),
//@in fn begin
    proof {
        let t = text@;
        if t.len() > 0 {
            lemma_token(t); lemma_bo_step(t, 0); lemma_bo_zero(t);
            if t.len() > 1 { lemma_bo_step(t, 1); } if t.len() > 2 { lemma_bo_step(t, 2); }
            lemma_bo(t, 0, t.len() as int); lemma_bo(t, 1, t.len() as int); assert(t.take(t.len() as int) =~= t);
            if t.len() > 2 { lemma_bo(t, 2, t.len() as int); lemma_bo(t, 3, t.len() as int); }
            if t.len() > 1 && (t[0] == 'x' || t[0] == 'b') && t[1] == '"' { lemma_line2(t); lemma_run(t, 0, Class::NotNl);
                let l = t.take(line_len(t)); lemma_string_end(l, 2); lemma_run(l, 2, Class::Alnum);
                assert forall|k: int| 0 <= k <= l.len() implies #[trigger] bo(l, k) == bo(t, k) by { assert(l.take(k) =~= t.take(k)); } }
            if t.len() > 2 && t[0] == '0' && t[1] == 'x' { let r = t.skip(2); lemma_run(r, 0, Class::Hex); let n = number(r, run(r, 0, Class::Hex)).1; lemma_ascii_run(r, Class::Hex, 0); lemma_suffix(r, run(r, 0, Class::Hex)); lemma_bo_skip(t, 2, n); lemma_bo_skip(t, 2, r.len() as int); assert(r.take(r.len() as int) =~= r); assert(bo(t, (2 + r.len()) as int) == bo(t, 2) + bo(r, r.len() as int)); assert(encode_utf8(r) == encode_utf8(r.take(r.len() as int))); }
            lemma_bo(t, 0, grapheme(t));
        }
    }
//@end
//@item crates/syntax/src/parse/lexer/move_model.rs Lexer
impl<'input> Lexer<'input> {
    pub open spec fn wf(self) -> bool { self.cur_start <= self.cur_end && is_bo(self.text@, self.cur_start as int) && is_bo(self.text@, self.cur_end as int) && encode_utf8(self.text@).len() <= u32::MAX }
    //@fn crates/syntax/src/parse/lexer/move_model.rs Lexer::new
    //@ret r
    //@spec
        requires encode_utf8(text@).len() <= u32::MAX ensures r.wf(), r.text == text, r.cur_end == 0, r.token is EOF
    //@in fn begin
        proof { lemma_bo_zero(text@); assert(bo(text@, 0) == 0); }
    //@end
    //@fn crates/syntax/src/parse/lexer/move_model.rs Lexer::peek
    //@ret r
    //@spec
        ensures r == self.token
    //@end
    //@fn crates/syntax/src/parse/lexer/move_model.rs Lexer::content
    //@ret r
    //@spec
        requires self.wf()
        ensures encode_utf8(r@).len() == self.cur_end - self.cur_start
    //@end
    //@fn crates/syntax/src/parse/lexer/move_model.rs Lexer::advance
    //@spec
        requires old(self).wf()
        ensures final(self).wf(), final(self).text == old(self).text, final(self).cur_start == old(self).cur_end,
            forall|k: int| 0 <= k <= old(self).text@.len() && #[trigger] bo(old(self).text@, k) == old(self).cur_end ==> ({
                let rest = old(self).text@.skip(k);
                if rest.len() == 0 { final(self).token is EOF && final(self).cur_end == old(self).cur_end }
                else { final(self).token == token(rest).0 && final(self).cur_end == bo(old(self).text@, k + token(rest).1) } }),
    //@in fn begin
        proof {
            let t = self.text@; let c = self.cur_end as int;
            let k = choose|k: int| 0 <= k <= t.len() && bo(t, k) == c;
            assert(bo(t, k) == c);
            let rest = t.skip(k);
            lemma_bo_skip(t, k, rest.len() as int); assert(rest.take(rest.len() as int) =~= rest); assert(t.take(t.len() as int) =~= t);
            if rest.len() > 0 { lemma_token(rest); lemma_bo_skip(t, k, token(rest).1); lemma_bo(t, k, k + token(rest).1); assert(bo(t, k + token(rest).1) == bo(t, k) + bo(rest, token(rest).1)); } else { lemma_bo_zero(rest); }
            assert forall|j: int| 0 <= j <= t.len() && #[trigger] bo(t, j) == c implies j == k by { if j < k { lemma_bo(t, j, k); } if k < j { lemma_bo(t, k, j); } }
        }
    //@end
}
//@fn crates/syntax/src/parse/lexer.rs aptos_token_kind_to_syntax_kind
//@ret r
//@spec
    requires lexable(aptos_token_kind)
    ensures r == kind(aptos_token_kind)
//@end
pub open spec fn view(v: Seq<RawToken>) -> Seq<(SyntaxKind, int)> { v.map(|i: int, r: RawToken| (r.kind, r.len.raw as int)) }
//@include ../common/syntax/word.rs
//@include ../common/syntax/raw.rs
pub proof fn lemma_comment_long(t: Seq<char>)
    requires t.len() > 0, kind(token(t).0) == SyntaxKind::COMMENT ensures is_comment(t.take(token(t).1))
{ lemma_token(t); lemma_kw(t.take(run(t, 0, Class::Name))); if t[0] == '/' && t.len() > 1 && t[1] == '/' { lemma_line2(t); } else if t[0] == '/' && t.len() > 1 && t[1] == '*' { lemma_comment_end(t, 2, 0); } }
pub proof fn lemma_kw(s: Seq<char>) ensures kind(keyword(s)) != SyntaxKind::COMMENT, kind(keyword(s)) != SyntaxKind::EOF { }
pub proof fn lemma_not_eof(t: Seq<char>) requires t.len() > 0 ensures kind(token(t).0) != SyntaxKind::EOF { lemma_token(t); lemma_kw(t.take(run(t, 0, Class::Name))); }
/// UAX #29: no letter or digit of ASCII extends a grapheme cluster
#[verifier::external_body]
pub proof fn axiom_ascii_grapheme(t: Seq<char>)
    requires t.len() >= 2, isc(Class::Name, t[0]), isc(Class::Name, t[1]) ensures grapheme(t) == 1
{ }
pub proof fn lemma_for(t: Seq<char>)
    requires t.len() > 0, t.take(token(t).1) == "for"@, 0 <= token(t).1 <= t.len() ensures kind(token(t).0) == SyntaxKind::IDENT
{
    reveal_strlit("for"); let s = t.take(token(t).1); assert(s.len() == 3);
    assert(s[0] == t[0] && s[1] == t[1]);
    axiom_ascii_grapheme(t);
    reveal_strlit("abort"); reveal_strlit("acquires"); reveal_strlit("as"); reveal_strlit("break"); reveal_strlit("const"); reveal_strlit("continue"); reveal_strlit("else"); reveal_strlit("false"); reveal_strlit("fun"); reveal_strlit("friend"); reveal_strlit("if"); reveal_strlit("invariant"); reveal_strlit("let"); reveal_strlit("loop"); reveal_strlit("inline"); reveal_strlit("module"); reveal_strlit("move"); reveal_strlit("native"); reveal_strlit("public"); reveal_strlit("return"); reveal_strlit("script"); reveal_strlit("spec"); reveal_strlit("struct"); reveal_strlit("true"); reveal_strlit("use"); reveal_strlit("while"); reveal_strlit("mut"); reveal_strlit("_");
    assert("for"@[1] == 'o' && "fun"@[1] != 'o' && "let"@[1] != 'o' && "use"@[1] != 'o' && "mut"@[1] != 'o');
    assert(keyword("for"@) is Identifier);
}
pub proof fn lemma_word_at(t: Seq<char>, j: int, n: int)
    requires 0 <= j < t.len(), token(t.skip(j)).1 == n, 0 <= n <= t.len() - j ensures word_at(t, bo(t, j), bo(t, j + n), kind(token(t.skip(j)).0))
{
    reveal(word_at);
    assert forall|a: int, b: int| 0 <= a <= b <= t.len() && #[trigger] bo(t, a) == bo(t, j) && #[trigger] bo(t, b) == bo(t, j + n) && t.subrange(a, b) == "for"@ implies kind(token(t.skip(j)).0) == SyntaxKind::IDENT by {
        if a < j { lemma_bo(t, a, j); } if j < a { lemma_bo(t, j, a); } if b < j + n { lemma_bo(t, b, j + n); } if j + n < b { lemma_bo(t, j + n, b); }
        assert(t.subrange(j, j + n) =~= t.skip(j).take(n)); lemma_for(t.skip(j));
    }
}
pub open spec fn raw_from(t: Seq<char>, v: Seq<RawToken>, i: int) -> bool {
    &&& rsum(v, v.len() as int) == encode_utf8(t).len()
    &&& forall|k: int| i <= k <= v.len() ==> is_bo(t, #[trigger] rsum(v, k))
    &&& forall|k: int| i <= k < v.len() ==> (#[trigger] v[k]).len.raw >= 1 && v[k].kind != SyntaxKind::EOF && (v[k].kind == SyntaxKind::COMMENT ==> comment_at(t, rsum(v, k), rsum(v, k + 1)))
    &&& words_from(t, v, i)
}
pub proof fn lemma_raw_from(t: Seq<char>, v: Seq<RawToken>, i: int, j: int)
    requires 0 <= i <= v.len(), 0 <= j <= t.len(), view(v).skip(i) == lex(t.skip(j)), rsum(v, i) == bo(t, j), encode_utf8(t).len() <= u32::MAX
    ensures raw_from(t, v, i) decreases v.len() - i
{
    let r = t.skip(j);
    assert(view(v).len() == v.len()); assert(is_bo(t, bo(t, j)));
    if j == t.len() { reveal(words_from); assert(lex(r) =~= Seq::empty()); assert(view(v).skip(i).len() == 0); assert(t.take(j) =~= t); }
    else {
        lemma_token(r); let n = token(r).1;
        assert(lex(r).len() >= 1); assert(view(v).skip(i).len() == v.len() - i); assert(view(v).skip(i)[0] == view(v)[i]); assert(lex(r)[0] == (kind(token(r).0), bo(r, n)));
        lemma_bo_skip(t, j, n); assert(rsum(v, i + 1) == bo(t, j + n));
        assert(view(v).skip(i + 1) =~= view(v).skip(i).skip(1)); assert(lex(r).skip(1) =~= lex(r.skip(n))); assert(r.skip(n) =~= t.skip(j + n));
        lemma_raw_from(t, v, i + 1, j + n);
        lemma_bo(r, 0, n); lemma_bo_zero(r); lemma_not_eof(r);
        if v[i].kind == SyntaxKind::COMMENT {
            lemma_comment_long(r);
            assert forall|a: int, b: int| 0 <= a <= b <= t.len() && #[trigger] bo(t, a) == rsum(v, i) && #[trigger] bo(t, b) == rsum(v, i + 1) implies is_comment(t.subrange(a, b)) by {
                lemma_bo(t, 0, a); if a < j { lemma_bo(t, a, j); } if j < a { lemma_bo(t, j, a); } if b < j + n { lemma_bo(t, b, j + n); } if j + n < b { lemma_bo(t, j + n, b); }
                assert(t.subrange(j, j + n) =~= r.take(n));
            }
        }
        lemma_word_at(t, j, n); assert(words_from(t, v, i)) by { reveal(words_from); }
    }
}
/// the form in which the parser uses it: the tokens cut the text into nonempty pieces between characters
pub proof fn theorem_raw_ok(t: Seq<char>, v: Seq<RawToken>)
    requires view(v) == lex(t), encode_utf8(t).len() <= u32::MAX ensures raw_ok(t, v)
{ lemma_bo_zero(t); assert(view(v).skip(0) =~= view(v)); assert(t.skip(0) =~= t); lemma_raw_from(t, v, 0, 0); }
//@fn crates/syntax/src/parse/lexer.rs tokenize
//@ret r
//@rewrite text . is_empty ( ) =>> (vx_len(text) == 0)
//@rewrite Default :: default ( ) =>> (Vec::new(), Vec::new())
//@rewrite lex_tokens . peek ( ) == Tok :: EOF =>> (matches!(lex_tokens.peek(), Tok::EOF))
//@spec
    requires encode_utf8(text@).len() <= u32::MAX
    ensures view(r.0@) == lex(text@)
//@in fn begin
    proof { lemma_bo_zero(text@); lemma_bo(text@, 0, text@.len() as int); assert(text@.take(text@.len() as int) =~= text@); assert(text@.skip(0) =~= text@); assert(view(Seq::empty()) =~= Seq::empty()); }
    let ghost mut k: int = 0;
//@loop 0
    invariant lex_tokens.wf(), lex_tokens.text == text, 0 <= k <= text@.len(), bo(text@, k) == lex_tokens.cur_end, encode_utf8(text@).len() <= u32::MAX,
        view(tokens@) + lex(text@.skip(k)) == lex(text@),
    ensures view(tokens@) == lex(text@)
    decreases text@.len() - k
//@in loop 0 begin
    let ghost rest = text@.skip(k); let ghost toks0 = tokens@; let ghost n = token(rest).1;
    proof { if k < text@.len() { lemma_token(rest); lemma_bo_skip(text@, k, n); lemma_bo(text@, k, k + n); assert(bo(text@, k + n) == bo(text@, k) + bo(rest, n)); lemma_bo(rest, 0, n); lemma_bo_zero(rest); } }
//@in loop 0 end
    proof {
        assert(rest.skip(n) =~= text@.skip(k + n)); k = k + n;
        assert(view(tokens@) =~= view(toks0) + seq![(kind(token(rest).0), bo(rest, n))]);
        assert(view(toks0) + lex(rest) =~= view(tokens@) + lex(rest.skip(n)));
    }
//@before break
    proof { assert(view(tokens@) + lex(text@.skip(k)) =~= view(tokens@)); }
//@end
//@fn crates/syntax/src/parse/lexer.rs parse_single_token
//@ret r
//@spec
    requires encode_utf8(text@).len() <= u32::MAX
    ensures match r { Some(t) => lex(text@).len() == 1 && (t.kind, t.len.raw as int) == lex(text@)[0], None => lex(text@).len() != 1 }
//@in fn begin
    proof { assert(forall|v: Seq<RawToken>| #[trigger] view(v).len() == v.len()); assert(forall|v: Seq<RawToken>, i: int| 0 <= i < v.len() ==> (#[trigger] v[i].kind, v[i].len.raw as int) == view(v)[i]); }
//@end
} // verus!
