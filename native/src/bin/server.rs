//! Oracle for the highlighting, semantic token and operation queue contracts, against the real code of /repo.
#![allow(dead_code, unused)]
use native::*;
#[path = "../../../build/repo/crates/stdext/src/line_endings.rs"]
mod line_endings;
mod code {
    pub use crate::line_endings::LineEndings;
    include!("../../../build/gen/server.rs");
}
#[path = "../line_index.rs"]
pub mod line_index;
use code::line_index_rs::{LineIndex, PositionEncoding};
use code::syntax_highlighting::HlRange;
use code::tags::*;
use code::{semantic_tokens, to_proto};
use line_index::{TextRange, TextSize, WideEncoding};
use std::sync::Arc;
pub mod lsp_types {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
    pub struct Position { pub line: u32, pub character: u32 }
    impl Position { pub fn new(line: u32, character: u32) -> Self { Position { line, character } } }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
    pub struct Range { pub start: Position, pub end: Position }
    impl Range { pub fn new(start: Position, end: Position) -> Self { Range { start, end } } }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
    pub struct SemanticToken { pub delta_line: u32, pub delta_start: u32, pub length: u32, pub token_type: u32, pub token_modifiers_bitset: u32 }
    #[derive(Clone, Debug, PartialEq, Default)]
    pub struct SemanticTokens { pub result_id: Option<String>, pub data: Vec<SemanticToken> }
    #[derive(Clone, Debug, PartialEq, Default)]
    pub struct SemanticTokensEdit { pub start: u32, pub delete_count: u32, pub data: Option<Vec<SemanticToken>> }
    macro_rules! types { ($($v:ident $s:literal),*) => { #[derive(Clone, Debug, PartialEq)] pub enum SemanticTokenTypes { $($v),* } impl SemanticTokenTypes { pub fn as_str(&self) -> &'static str { match self { $(SemanticTokenTypes::$v => $s),* } } } } }
    types!(Comment "comment", Decorator "decorator", EnumMember "enumMember", Enum "enum", Function "function", Interface "interface", Keyword "keyword", Macro "macro", Method "method", Namespace "namespace", Number "number",
        Operator "operator", Parameter "parameter", Property "property", String "string", Struct "struct", TypeParameter "typeParameter", Variable "variable", Type "type", Label "label", Class "class", Event "event", Modifier "modifier", Regexp "regexp");
}
/// `stdx::equal_range_by`
pub fn equal_range_by<T, F: FnMut(&T) -> std::cmp::Ordering>(slice: &[T], mut key: F) -> std::ops::Range<usize> {
    let start = slice.partition_point(|it| key(it) == std::cmp::Ordering::Less);
    let len = slice[start..].partition_point(|it| key(it) == std::cmp::Ordering::Equal);
    start..start + len
}
fn range(a: usize, b: usize) -> TextRange { TextRange::new((a as u32).into(), (b as u32).into()) }
const TAGS: [HlTag; 6] = [HlTag::Comment, HlTag::Keyword, HlTag::StringLiteral, HlTag::NumericLiteral, HlTag::BuiltinType, HlTag::None];
// ---- H01
/// every position shows the innermost range around it, of equals the last one added
fn check_highlights(root: TextRange, v: &[HlRange]) -> Result<(), String> {
    let got = code::syntax_highlighting::highlights::run(root, v.to_vec());
    let mut at = u32::from(root.start());
    for h in &got {
        let (a, b) = (u32::from(h.range.start()), u32::from(h.range.end()));
        if a != at || a >= b { return Err(format!("a piece {a}..{b} after {at}: {got:?}")); }
        at = b;
        for i in a..b {
            let mut best: Option<&HlRange> = None;
            for c in v { if u32::from(c.range.start()) <= i && i < u32::from(c.range.end()) && best.map_or(true, |x| x.range.contains_range(c.range)) { best = Some(c) } }
            let want = best.map_or(Highlight::from(HlTag::None), |c| c.highlight);
            if h.highlight != want { return Err(format!("position {i} shows {:?}, expected {want:?}", h.highlight)); }
        }
    }
    if at != u32::from(root.end()) { return Err(format!("the pieces end at {at}, the range at {:?}: {got:?}", root.end())); }
    Ok(())
}
fn laminar(a: TextRange, b: TextRange) -> bool { a.end() <= b.start() || b.end() <= a.start() || a.contains_range(b) || b.contains_range(a) }
// ---- H02
fn units(enc: PositionEncoding, s: &str) -> u32 {
    (match enc { PositionEncoding::Utf8 => s.len(), PositionEncoding::Wide(WideEncoding::Utf16) => s.encode_utf16().count(), PositionEncoding::Wide(WideEncoding::Utf32) => s.chars().count() }) as u32
}
const ENCS: [(&str, PositionEncoding); 3] = [("utf-8", PositionEncoding::Utf8), ("utf-16", PositionEncoding::Wide(WideEncoding::Utf16)), ("utf-32", PositionEncoding::Wide(WideEncoding::Utf32))];
type Tok = (u32, u32, u32, String);
fn legend() -> Vec<String> { semantic_tokens::SupportedType::iter().map(|t| t.to_string()).collect() }
fn decode(v: &[lsp_types::SemanticToken]) -> Vec<Tok> {
    let names = legend(); let (mut l, mut c) = (0u32, 0u32);
    v.iter().map(|t| { if t.delta_line > 0 { c = 0 } l += t.delta_line; c += t.delta_start; (l, c, t.length, names.get(t.token_type as usize).cloned().unwrap_or("?".into())) }).collect()
}
fn kind(t: HlTag) -> &'static str {
    match t { HlTag::Comment => "comment", HlTag::Keyword => "keyword", HlTag::StringLiteral => "string", HlTag::NumericLiteral => "number", HlTag::BuiltinType => "builtinType", _ => "?" }
}
fn check_tokens(enc: PositionEncoding, t: &str, v: &[HlRange]) -> Result<(), String> {
    let ix = LineIndex { index: Arc::new(line_index::LineIndex::new(t)), endings: code::LineEndings::Unix, encoding: enc };
    let got = decode(&to_proto::semantic_tokens(t, &ix, v.to_vec()).data);
    let mut want: Vec<Tok> = vec![];
    for h in v {
        if h.highlight.is_empty() { continue }
        let (mut a, b) = (usize::from(h.range.start()), usize::from(h.range.end()));
        while a < b {
            let e = t[a..b].find('\n').map_or(b, |i| a + i + 1);
            let ls = t[..a].rfind('\n').map_or(0, |i| i + 1);
            want.push((t[..a].matches('\n').count() as u32, units(enc, &t[ls..a]), units(enc, t[a..e].trim_end_matches('\n')), kind(h.highlight.tag).into()));
            a = e;
        }
    }
    if got != want { return Err(format!("the client reads {got:?}, the highlights are {want:?}")); }
    Ok(())
}
fn check_legend() -> Result<(), String> {
    let names = legend();
    for (i, k) in semantic_tokens::SupportedType::iter().enumerate() {
        if semantic_tokens::type_index(*k) as usize != i { return Err(format!("{k:?} is sent as {}, its place in the legend is {i}", semantic_tokens::type_index(*k))); }
        if names.iter().filter(|n| **n == names[i]).count() != 1 { return Err(format!("{:?} is in the legend twice", names[i])); }
    }
    Ok(())
}
fn check_diff(old: &[lsp_types::SemanticToken], new: &[lsp_types::SemanticToken]) -> Result<(), String> {
    let flat = |v: &[lsp_types::SemanticToken]| v.iter().flat_map(|t| [t.delta_line, t.delta_start, t.length, t.token_type, t.token_modifiers_bitset]).collect::<Vec<u32>>();
    let edits = semantic_tokens::diff_tokens(old, new);
    let mut v = flat(old);
    for e in &edits { let (a, d) = (e.start as usize, e.delete_count as usize); if a + d > v.len() { return Err(format!("{e:?} reaches past the list")); } v.splice(a..a + d, flat(e.data.as_deref().unwrap_or(&[]))); }
    if v != flat(new) || edits.len() > 1 { return Err(format!("{edits:?} do not lead from the old list to the new one")); }
    Ok(())
}
// ---- O01
fn check_queue(ops: &[usize]) -> Result<(), String> {
    let mut q: code::op_queue::OpQueue<usize, usize> = Default::default();
    let (mut asked, mut busy, mut last) = (None, false, None);
    for (i, o) in ops.iter().enumerate() {
        match o {
            0 => { q.request_op(format!("c{i}"), i); asked = Some((format!("c{i}"), i)); }
            1 => { let want = if busy { None } else { asked.take() }; let got = q.should_start_op(); if got != want { return Err(format!("step {i}: starts {got:?}, expected {want:?}")); } busy |= want.is_some(); }
            _ => if busy { q.op_completed(i); busy = false; last = Some(i) }
        }
        let got = (q.op_requested(), q.op_in_progress(), q.last_op_result().copied()); let want = (asked.is_some(), busy, last);
        if got != want { return Err(format!("step {i}: (requested, in progress, last result) is {got:?}, expected {want:?}")); }
    }
    Ok(())
}
fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    let mut run = Run::from_args();
    match mode.as_str() {
        "highlights" => {
            let n = 4; let all: Vec<TextRange> = (0..=n).flat_map(|a| (a..=n).map(move |b| range(a, b))).collect();
            for k in 0..=3 { words(all.len(), k, |w| {
                let v: Vec<HlRange> = w.iter().enumerate().map(|(i, &x)| HlRange { range: all[x], highlight: TAGS[i].into() }).collect();
                if v.iter().enumerate().any(|(i, a)| v[..i].iter().any(|b| !laminar(a.range, b.range))) { return true }
                run.case(&format!("{:?}", v), k > 1, || check_highlights(range(0, n), &v)); !run.failed()
            }); }
            run.exhausted("up to 3 ranges (nested or apart) within 0..4");
            while run.time_left() {
                let r = &mut run.rng; let n = r.range(1, 14); let base = r.below(3); let mut v: Vec<HlRange> = vec![];
                for _ in 0..r.range(1, 9) { let (a, b) = (r.below(n + 1), r.below(n + 1)); let g = range(base + a.min(b), base + a.max(b)); let tag = TAGS[r.below(6)];
                    if v.iter().all(|h| laminar(h.range, g)) { v.push(HlRange { range: g, highlight: tag.into() }) } }
                run.case(&format!("{v:?} in {base}..{}", base + n), v.len() > 1, || check_highlights(range(base, base + n), &v));
            }
        }
        "tokens" => {
            run.case("every kind of token has its place in the legend", true, check_legend);
            for a in 0..=3 { words(2, a, |w| { let old: Vec<_> = w.iter().map(|&i| lsp_types::SemanticToken { delta_line: i as u32, ..Default::default() }).collect();
                for b in 0..=4 { words(2, b, |w| { let new: Vec<_> = w.iter().map(|&i| lsp_types::SemanticToken { delta_line: i as u32, ..Default::default() }).collect();
                    run.case(&format!("diff {old:?} {new:?}"), a > 0, || check_diff(&old, &new)); !run.failed() }); } !run.failed() }); }
            run.exhausted("edits between lists of up to 3 and up to 4 tokens over two values");
            while run.time_left() {
                let (en, enc) = ENCS[run.rng.below(3)]; let r = &mut run.rng;
                if r.chance(1, 5) {
                    let mut list = |r: &mut Rng| { let n = r.below(8); (0..n).map(|_| lsp_types::SemanticToken { delta_line: r.below(2) as u32, delta_start: r.below(2) as u32, length: r.below(2) as u32, token_type: 1, token_modifiers_bitset: 0 }).collect::<Vec<_>>() };
                    let (old, new) = (list(r), list(r));
                    run.case(&format!("diff {old:?} {new:?}"), true, || check_diff(&old, &new)); continue
                }
                let n = r.below(20); let t: String = (0..n).map(|_| *r.pick(&['a', 'b', '\n', '\n', 'é', '€', '𝄞', ' '])).collect();
                let bs: Vec<usize> = (0..=t.len()).filter(|&i| t.is_char_boundary(i)).collect();
                let mut at = 0; let mut v = vec![];
                while at < bs.len() - 1 && v.len() < 6 { let a = (at + r.below(3)).min(bs.len() - 1); let b = (a + r.below(6)).min(bs.len() - 1); v.push(HlRange { range: range(bs[a], bs[b]), highlight: TAGS[r.below(6)].into() }); at = b; if r.chance(1, 9) { break } }
                run.case(&format!("{en} {t:?} {v:?}"), v.len() > 1, || check_tokens(enc, &t, &v));
            }
        }
        "queue" => {
            for n in 0..=9 { words(3, n, |w| { run.case(&format!("{w:?}"), n > 1, || check_queue(w)); !run.failed() }); }
            run.exhausted("every sequence of up to 9 operations (ask, start, complete)");
            while run.time_left() { let r = &mut run.rng; let n = r.range(10, 30); let v: Vec<usize> = (0..n).map(|_| r.below(3)).collect(); run.case(&format!("{v:?}"), true, || check_queue(&v)); if run.failed() { break } }
        }
        m => panic!("mode {m}"),
    }
    run.finish()
}
