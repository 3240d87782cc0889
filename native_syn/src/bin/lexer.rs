//! X01/X02: the real `tokenize` against a reference lexer over characters.
use native::*;
use synparse::*;
use unicode_segmentation::UnicodeSegmentation;
use SyntaxKind::*;

const KEYWORDS: &[(&str, SyntaxKind)] = &[
    ("abort", ABORT_KW), ("acquires", ACQUIRES_KW), ("as", AS_KW), ("break", BREAK_KW), ("const", CONST_KW), ("continue", CONTINUE_KW), ("else", ELSE_KW), ("false", FALSE_KW),
    ("fun", FUN_KW), ("friend", FRIEND_KW), ("if", IF_KW), ("invariant", INVARIANT_KW), ("let", LET_KW), ("loop", LOOP_KW), ("inline", INLINE_KW), ("module", MODULE_KW),
    ("move", MOVE_KW), ("native", NATIVE_KW), ("public", PUBLIC_KW), ("return", RETURN_KW), ("script", SCRIPT_KW), ("spec", SPEC_KW), ("struct", STRUCT_KW), ("true", TRUE_KW),
    ("use", USE_KW), ("while", WHILE_KW), ("mut", MUT_KW), ("_", UNDERSCORE),
];
const PUNCT: &[(&str, SyntaxKind)] = &[
    ("==>", IMPLIES), ("=>", FAT_ARROW), ("==", EQ_EQ), ("=", EQ), ("!=", NOT_EQ), ("!", BANG), ("&=", AMP_EQ), ("&", AMP), ("|=", PIPE_EQ), ("|", PIPE), ("::", COLON_COLON), (":", COLON),
    ("%=", PERCENT_EQ), ("%", PERCENT), ("*=", STAR_EQ), ("*", STAR), ("+=", PLUS_EQ), ("+", PLUS), ("-=", MINUS_EQ), ("-", MINUS), ("..", DOT_DOT), (".", DOT), ("/=", SLASH_EQ), ("/", SLASH),
    ("^=", CARET_EQ), ("^", CARET), ("(", L_PAREN), (")", R_PAREN), ("[", L_BRACK), ("]", R_BRACK), ("{", L_CURLY), ("}", R_CURLY), (",", COMMA), (";", SEMICOLON), ("#", POUND), ("@", AT), ("<", L_ANGLE), (">", R_ANGLE),
];
fn name(c: char) -> bool { c.is_ascii_alphanumeric() || c == '_' }
fn starts(t: &[char], p: &str) -> bool { p.chars().enumerate().all(|(i, c)| t.get(i) == Some(&c)) }
fn run(t: &[char], from: usize, p: impl Fn(char) -> bool) -> usize { let mut k = from; while k < t.len() && p(t[k]) { k += 1 } k }
fn number(t: &[char], n: usize) -> usize {
    for s in ["u8", "i8", "u16", "u32", "u64", "i16", "i32", "i64", "u128", "u256", "i128", "i256"] { if starts(&t[n..], s) { return n + s.len() } }
    n
}
/// kind and number of characters of the first token
fn token(t: &[char]) -> (SyntaxKind, usize) {
    let s: String = t.iter().collect();
    let g = s.graphemes(true).next().unwrap().chars().count();
    if g > 1 { return (BAD_CHARACTER, g) }
    let c = t[0];
    let nl = run(t, 0, |c| c != '\n');
    let line = if nl < t.len() && nl > 0 && t[nl - 1] == '\r' { nl - 1 } else { nl };
    if starts(t, "//") { return (COMMENT, line) }
    if starts(t, "/*") {
        let (mut k, mut d) = (2, 0);
        while k + 1 < t.len() {
            if starts(&t[k..], "/*") { d += 1; k += 2 } else if starts(&t[k..], "*/") { k += 2; if d == 0 { return (COMMENT, k) } d -= 1 } else { k += 1 }
        }
        return (COMMENT, t.len());
    }
    if matches!(c, ' ' | '\t' | '\n') { return (WHITESPACE, run(t, 0, |c| matches!(c, ' ' | '\t' | '\n'))) }
    if starts(t, "0x") && t.len() > 2 {
        let h = number(t, run(t, 2, |c| c.is_ascii_hexdigit() || c == '_'));
        return (INT_NUMBER, if h == 2 { 1 } else { h });
    }
    if c.is_ascii_digit() { return (INT_NUMBER, number(t, run(t, 0, |c| c.is_ascii_digit() || c == '_'))) }
    if starts(t, "x\"") { let k = run(&t[..line], 2, |c| c.is_ascii_alphanumeric()); return (HEX_STRING, if k < line && t[k] == '"' { k + 1 } else { k }) }
    if starts(t, "b\"") {
        let mut k = 2;
        while k < line { if t[k] == '"' { return (BYTE_STRING, k + 1) } k += if t[k] == '\\' { 2 } else { 1 } }
        return (BYTE_STRING, line);
    }
    if name(c) {
        let k = run(t, 0, name);
        let w: String = t[..k].iter().collect();
        return (KEYWORDS.iter().find(|x| x.0 == w).map(|x| x.1).unwrap_or(IDENT), k);
    }
    if c == '\'' { return if t.len() > 1 && name(t[1]) && !t[1].is_ascii_digit() { (QUOTE_IDENT, run(t, 2, name)) } else { (BAD_CHARACTER, 1) } }
    for (p, k) in PUNCT { if starts(t, p) { return (*k, p.len()) } }
    (BAD_CHARACTER, 1)
}
fn check(s: &str, lengths_only: bool) -> Result<(), String> {
    let (toks, _) = lexer::tokenize(s);
    let mut at = 0;
    for t in &toks {
        let n = u32::from(t.len) as usize;
        if n == 0 { return Err(format!("empty token at {at}")) }
        if !s.is_char_boundary(at + n) { return Err(format!("token at {at} of {n} bytes ends inside a character")) }
        at += n;
    }
    if at != s.len() { return Err(format!("tokens cover {at} of {} bytes", s.len())) }
    if lengths_only { return Ok(()) }
    let chars: Vec<char> = s.chars().collect();
    let (mut k, mut i, mut at) = (0, 0, 0);
    while k < chars.len() {
        let (kind, n) = token(&chars[k..]);
        let len: usize = chars[k..k + n].iter().map(|c| c.len_utf8()).sum();
        let Some(t) = toks.get(i) else { return Err("too few tokens".into()) };
        if t.kind != kind || u32::from(t.len) as usize != len { return Err(format!("token at {at}: {:?} of {} bytes, expected {kind:?} of {len}", t.kind, u32::from(t.len))) }
        k += n; i += 1; at += len;
    }
    let one = lexer::parse_single_token(s);
    if one.is_some() != (toks.len() == 1) || one.is_some_and(|o| o != toks[0]) { return Err(format!("parse_single_token gives {one:?}")) }
    Ok(())
}
fn main() {
    let mut r = Run::from_args();
    let lengths = std::env::args().any(|a| a == "lossless");
    for s in ["", "/*", "/**/", "/*/", "/* /* */", "/* é */x", "/*é", "b\"", "b\"\\", "b\"a\\\"", "x\"", "x\"1g\"", "'", "'a", "0x", "0xu8", "1u8", "1u7", "\r\n", "a\u{301}", "//\r\nx", "\u{1F600}", "//a\r", "_", "_a"] { r.case(&format!("{s:?}"), true, || check(s, lengths)); }
    // all short texts over the characters which matter
    let alpha: Vec<char> = if lengths { "/*\"xb0 \n'\\é=ua_".chars().collect() } else { "/*\"xb0=>:u8a'\n é_\\".chars().collect() };
    let n = if r.thorough { 6 } else { 4 };
    let mut idx = vec![0usize; 0];
    'all: loop {
        let s: String = idx.iter().map(|i| alpha[*i]).collect();
        r.case(&format!("{s:?}"), s.len() > 1, || check(&s, lengths));
        if r.failed() || !r.time_left() { break }
        let mut p = 0;
        loop {
            if p == idx.len() { if idx.len() == n { r.exhausted(&format!("all texts of up to {n} of the characters {:?}", alpha.iter().collect::<String>())); break 'all } idx.push(0); for x in idx.iter_mut() { *x = 0 } break }
            idx[p] += 1;
            if idx[p] < alpha.len() { break }
            idx[p] = 0; p += 1;
        }
    }
    let frags: Vec<&str> = vec!["abort", "acquires", "as", "break", "const", "continue", "else", "false", "fun", "friend", "if", "invariant", "let", "loop", "inline", "module", "move", "native", "public", "return", "script", "spec", "struct", "true", "use", "while", "mut", "_", "copy", "fn", "x", "b", "x\"", "b\"", "\"", "\\", "\\\"", "0x", "0", "12", "1_000", "ff", "FF", "u8", "u16", "u32", "u64", "u128", "u256", "i8", "i16", "i32", "i64", "i128", "i256", "u1", "'", "'a", "'_1", "//", "/*", "*/", "/", "*", "\n", "\r\n", "\r", " ", "\t", "é", "\u{301}", "\u{1F468}\u{200D}\u{1F469}", "日本", "==>", "=>", "==", "=", "!=", "!", "&=", "&&", "||", "|=", "<=", ">=", "<<=", ">>", "::", ":", "%=", "*=", "+=", "-=", "..", "...", "^=", "^", "#[", "@", "(", ")", "{", "}", "[", "]", ",", ";", "$", "`", "?", "~", "\u{0}", "\u{7f}", "g", "Z9", "__"];
    while r.time_left() {
        let s = if r.rng.chance(1, 4) { movegen::text(&mut r.rng) } else { let n = r.rng.range(1, 9); (0..n).map(|_| *r.rng.pick(&frags)).collect::<String>() };
        r.case(&format!("{s:?}"), s.len() > 3, || check(&s, lengths));
    }
    r.finish()
}
