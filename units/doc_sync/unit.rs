#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::utf8::*;
use std::sync::Arc;
verus! {
//@include ../common/prelude.rs
//@include ../common/text.rs
fn main() {}
// ---- client protocol types (lsp-types)
#[derive(Clone, Copy)]
pub struct Position { pub line: u32, pub character: u32 }
impl Position { pub fn new(line: u32, character: u32) -> (r: Position) ensures r == (Position { line, character }) { Position { line, character } } }
#[derive(Clone, Copy)]
pub struct Range { pub start: Position, pub end: Position }
impl Range { pub fn new(start: Position, end: Position) -> (r: Range) ensures r == (Range { start, end }) { Range { start, end } } }
pub open spec fn vx_pos_cmp(a: Position, b: Position) -> std::cmp::Ordering {
    if a.line < b.line || (a.line == b.line && a.character < b.character) { std::cmp::Ordering::Less } else if a == b { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater }
}
impl PartialEq for Position { fn eq(&self, o: &Position) -> bool { self.line == o.line && self.character == o.character } }
impl Eq for Position {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Position {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &Position) -> bool { *self == *o }
}
impl PartialOrd for Position { fn partial_cmp(&self, o: &Position) -> Option<std::cmp::Ordering> {
  if self.line < o.line || (self.line == o.line && self.character < o.character) { Some(std::cmp::Ordering::Less) } else if self.line == o.line && self.character == o.character { Some(std::cmp::Ordering::Equal) } else { Some(std::cmp::Ordering::Greater) } } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Position {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &Position) -> Option<std::cmp::Ordering> { Some(vx_pos_cmp(*self, *o)) }
}
pub open spec fn le(a: Position, b: Position) -> bool { a.line < b.line || (a.line == b.line && a.character <= b.character) }
pub struct TextEdit { pub range: Range, pub new_text: String }
pub struct InsertReplaceEdit { pub new_text: String, pub insert: Range, pub replace: Range }
pub enum CompletionItemTextEdit { TextEdit(TextEdit), InsertReplaceEdit(InsertReplaceEdit) }
pub struct CompletionItem { pub text_edit: Option<CompletionItemTextEdit>, pub additional_text_edits: Option<Vec<TextEdit>> }
pub struct Partial { pub range: Range, pub text: String }
pub struct Whole { pub text: String }
pub enum Change { TextDocumentContentChangePartial(Partial), TextDocumentContentChangeWholeDocument(Whole) }
pub struct VxError { }
#[derive(Clone, Copy)]
pub enum WideEncoding { Utf16, Utf32 }
//@rewrite line_index :: WideEncoding =>> WideEncoding
//@rewrite lsp_types :: TextDocumentContentChangeEvent =>> Change
//@rewrite lsp_types :: Position =>> Position
//@rewrite lsp_types :: Range =>> Range
//@rewrite anyhow :: Result < $t > =>> Result<$t, VxError>
//@rewrite format_err ! ( $$a ) =>> VxError { }
//@rewrite . ok_or_else ( | | $a ) =>> .ok_or($a)
//@rewrite . ok_or_else ( | | $a { } ) =>> .ok_or($a { })
//@rewrite TextSize :: from ( $$a ) =>> TextSize::new($a)
//@item crates/aptos-language-server/src/line_index.rs PositionEncoding derive(Clone, Copy)

// ================= specification: what a position means
/// how many units of the client's encoding a character takes
pub open spec fn units(enc: PositionEncoding, c: char) -> nat {
    match enc {
        PositionEncoding::Utf8 => encode_scalar(c as u32).len(),
        PositionEncoding::Wide(WideEncoding::Utf16) => if c as u32 >= 0x10000 { 2 } else { 1 },
        PositionEncoding::Wide(WideEncoding::Utf32) => 1,
    }
}
pub open spec fn width(enc: PositionEncoding, s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { width(enc, s.drop_last()) + units(enc, s.last()) } }
/// the line of the k-th character, and where that line starts
pub open spec fn nls(t: Seq<char>, k: int) -> nat decreases k { if k <= 0 { 0 } else { nls(t, k - 1) + if t[k - 1] == '\n' { 1nat } else { 0 } } }
pub open spec fn line_start(t: Seq<char>, k: int) -> int decreases k { if k <= 0 { 0 } else if t[k - 1] == '\n' { k } else { line_start(t, k - 1) } }
/// the line break before which the position lies, or the end
pub open spec fn lines(t: Seq<char>) -> nat { nls(t, t.len() as int) }
/// position p is the place before the k-th character of t
pub open spec fn denotes(enc: PositionEncoding, t: Seq<char>, p: Position, k: int) -> bool {
    0 <= k <= t.len() && nls(t, k) == p.line && width(enc, t.subrange(line_start(t, k), k)) == p.character
}
/// byte offset of the k-th character
pub open spec fn bo(t: Seq<char>, k: int) -> int { encode_utf8(t.take(k)).len() as int }
pub open spec fn is_lstart(t: Seq<char>, l: int, k: int) -> bool { 0 <= k <= t.len() && nls(t, k) == l && line_start(t, k) == k }
pub open spec fn lstart(t: Seq<char>, l: int) -> int { choose|k: int| is_lstart(t, l, k) }

pub proof fn lemma_nls(t: Seq<char>, j: int, k: int)
    requires 0 <= j <= k <= t.len()
    ensures nls(t, j) <= nls(t, k), 0 <= line_start(t, k) <= k, line_start(t, j) <= line_start(t, k),
        nls(t, j) == nls(t, k) ==> line_start(t, j) == line_start(t, k),
        nls(t, line_start(t, k)) == nls(t, k), line_start(t, line_start(t, k)) == line_start(t, k),
    decreases k
{ if j < k { lemma_nls(t, j, k - 1); } else if k > 0 { lemma_nls(t, k - 1, k - 1); } }
pub proof fn lemma_nls_take(t: Seq<char>, n: int, k: int)
    requires 0 <= k <= n <= t.len() ensures nls(t.take(n), k) == nls(t, k), line_start(t.take(n), k) == line_start(t, k), t.take(n).take(k) == t.take(k)
    decreases k
{ if k > 0 { lemma_nls_take(t, n, k - 1); } assert(t.take(n).take(k) =~= t.take(k)); }
pub proof fn lemma_lstart(t: Seq<char>, l: int)
    requires 0 <= l <= lines(t)
    ensures is_lstart(t, l, lstart(t, l)), forall|k: int| 0 <= k <= t.len() && #[trigger] nls(t, k) == l ==> line_start(t, k) == lstart(t, l)
{
    lemma_lstart_in(t, l, t.len() as int);
    let j = lstart(t, l);
    assert forall|k: int| 0 <= k <= t.len() && #[trigger] nls(t, k) == l implies line_start(t, k) == j by {
        if j <= k { lemma_nls(t, j, k); } else { lemma_nls(t, k, j); }
    }
}
proof fn lemma_lstart_in(t: Seq<char>, l: int, k: int)
    requires 0 <= l <= nls(t, k), 0 <= k <= t.len() ensures exists|j: int| is_lstart(t, l, j) decreases k
{
    if nls(t, k) == l { lemma_nls(t, k, k); let j = line_start(t, k); assert(is_lstart(t, l, j)); } else { lemma_lstart_in(t, l, k - 1); }
}
pub proof fn lemma_units(enc: PositionEncoding, c: char) ensures units(enc, c) >= 1 { }
pub proof fn lemma_width_push(enc: PositionEncoding, s: Seq<char>, c: char) ensures width(enc, s.push(c)) == width(enc, s) + units(enc, c)
{ assert(s.push(c).drop_last() =~= s); }
pub proof fn lemma_width(enc: PositionEncoding, t: Seq<char>, s: int, j: int, k: int)
    requires 0 <= s <= j <= k <= t.len()
    ensures width(enc, t.subrange(s, j)) <= width(enc, t.subrange(s, k)), j < k ==> width(enc, t.subrange(s, j)) < width(enc, t.subrange(s, k))
    decreases k
{ if j < k { lemma_width(enc, t, s, j, k - 1); assert(t.subrange(s, k) =~= t.subrange(s, k - 1).push(t[k - 1])); lemma_width_push(enc, t.subrange(s, k - 1), t[k - 1]); lemma_units(enc, t[k - 1]); } }
pub proof fn lemma_bo(t: Seq<char>, j: int, k: int)
    requires 0 <= j <= k <= t.len()
    ensures 0 <= bo(t, j) <= bo(t, k) <= encode_utf8(t).len(), j < k ==> bo(t, j) < bo(t, k),
        bo(t, k) - bo(t, j) == width(PositionEncoding::Utf8, t.subrange(j, k)),
    decreases k
{
    if j < k {
        lemma_bo(t, j, k - 1);
        assert(t.take(k) =~= t.take(k - 1).push(t[k - 1])); encode_utf8_push(t.take(k - 1), t[k - 1]); lemma_units(PositionEncoding::Utf8, t[k - 1]);
        assert(t.subrange(j, k) =~= t.subrange(j, k - 1).push(t[k - 1])); lemma_width_push(PositionEncoding::Utf8, t.subrange(j, k - 1), t[k - 1]);
    } else { assert(t.subrange(j, k) =~= Seq::<char>::empty()); }
    encode_utf8_concat(t.take(k), t.skip(k)); assert(t.take(k) + t.skip(k) =~= t);
}
/// a position is at most one place
pub proof fn lemma_denotes(enc: PositionEncoding, t: Seq<char>, p: Position, j: int, k: int)
    requires denotes(enc, t, p, j), denotes(enc, t, p, k) ensures j == k
{
    if j < k { lemma_nls(t, j, k); lemma_nls(t, j, j); lemma_width(enc, t, line_start(t, k), j, k); }
    if k < j { lemma_nls(t, k, j); lemma_nls(t, k, k); lemma_width(enc, t, line_start(t, j), k, j); }
}
pub proof fn lemma_denotes_order(enc: PositionEncoding, t: Seq<char>, p: Position, q: Position, j: int, k: int)
    requires denotes(enc, t, p, j), denotes(enc, t, q, k), p.line < q.line ensures j < k
{ if k <= j { lemma_nls(t, k, j); } }

// ---- the `line-index` crate, with the contracts of its documentation
#[derive(Clone, Copy)]
pub struct LineCol { pub line: u32, pub col: u32 }
#[derive(Clone, Copy)]
pub struct WideLineCol { pub line: u32, pub col: u32 }
#[verifier::external_body]
pub struct VxLineIndex { }
impl View for VxLineIndex { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxLineIndex {
    #[verifier::external_body]
    pub fn new(t: &str) -> (r: VxLineIndex) requires encode_utf8(t@).len() <= u32::MAX ensures r@ == t@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: TextSize) ensures r.raw == encode_utf8(self@).len() { unimplemented!() }
    /// the bytes of a line, including its line break
    #[verifier::external_body]
    pub fn line(&self, l: u32) -> (r: Option<TextRange>)
        ensures encode_utf8(self@).len() <= u32::MAX, match r {
            Some(g) => l <= lines(self@) && g.wf() && g.start.raw == bo(self@, lstart(self@, l as int))
                && g.end.raw == (if l < lines(self@) { bo(self@, lstart(self@, l + 1)) } else { encode_utf8(self@).len() as int }),
            None => l > lines(self@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn to_utf8(&self, enc: WideEncoding, p: WideLineCol) -> (r: Option<LineCol>)
        ensures forall|pos: Position, k: int| pos.line == p.line && pos.character == p.col && #[trigger] denotes(PositionEncoding::Wide(enc), self@, pos, k)
                ==> (r matches Some(q) && q.line == p.line && q.col == bo(self@, k) - bo(self@, line_start(self@, k))),
            r matches Some(q) ==> q.line == p.line { unimplemented!() }
    #[verifier::external_body]
    pub fn line_col(&self, o: TextSize) -> (r: LineCol)
        requires exists|k: int| 0 <= k <= self@.len() && #[trigger] bo(self@, k) == o.raw
        ensures forall|k: int| 0 <= k <= self@.len() && #[trigger] bo(self@, k) == o.raw ==> r.line == nls(self@, k) && r.col == o.raw - bo(self@, line_start(self@, k)) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_wide(&self, enc: WideEncoding, p: LineCol) -> (r: Option<WideLineCol>)
        ensures forall|pos: Position, k: int| pos.line == p.line && pos.character == p.col && #[trigger] denotes(PositionEncoding::Utf8, self@, pos, k)
                ==> (r matches Some(q) && q.line == p.line && q.col == width(PositionEncoding::Wide(enc), self@.subrange(line_start(self@, k), k))) { unimplemented!() }
}
pub struct LineEndings { pub crlf: bool }
pub struct LineIndex { pub index: std::sync::Arc<VxLineIndex>, pub endings: LineEndings, pub encoding: PositionEncoding }
impl LineIndex { pub open spec fn text(self) -> Seq<char> { (*self.index)@ } }
pub proof fn lemma_line_end(t: Seq<char>, k: int)
    requires 0 <= k <= t.len()
    ensures nls(t, k) < lines(t) ==> bo(t, k) < bo(t, lstart(t, nls(t, k) as int + 1)), bo(t, k) <= encode_utf8(t).len(),
        line_start(t, k) == lstart(t, nls(t, k) as int), nls(t, k) <= lines(t)
{
    lemma_bo(t, k, t.len() as int); lemma_nls(t, k, t.len() as int); assert(t.take(t.len() as int) =~= t);
    lemma_lstart(t, nls(t, k) as int);
    if nls(t, k) < lines(t) { let l = nls(t, k) as int + 1; lemma_lstart(t, l); let n = lstart(t, l); if n <= k { lemma_nls(t, n, k); } lemma_bo(t, k, n); }
}

//@fn crates/aptos-language-server/src/lsp/from_proto.rs offset
//@ret r
//@spec
    ensures
        forall|k: int| #[trigger] denotes(line_index.encoding, line_index.text(), position, k) ==> (r matches Ok(o) && o.raw == bo(line_index.text(), k)),
        position.line > lines(line_index.text()) ==> r is Err,
        r matches Ok(o) ==> position.line <= lines(line_index.text()) && bo(line_index.text(), lstart(line_index.text(), position.line as int)) <= o.raw,
//@in fn begin
    proof {
        let t = line_index.text();
        assert(position == Position { line: position.line, character: position.character });
        if let PositionEncoding::Wide(enc) = line_index.encoding { assert forall|k: int| #[trigger] denotes(line_index.encoding, t, position, k) implies denotes(PositionEncoding::Wide(enc), line_index.text(), position, k) by { } }
        assert forall|k: int| #[trigger] denotes(line_index.encoding, t, position, k) implies
            bo(t, k) >= bo(t, lstart(t, position.line as int)) && position.line <= lines(t)
            && bo(t, k) <= (if position.line < lines(t) { bo(t, lstart(t, position.line + 1)) } else { encode_utf8(t).len() as int })
            && line_start(t, k) == lstart(t, position.line as int)
            && (line_index.encoding is Utf8 ==> position.character == bo(t, k) - bo(t, line_start(t, k)))
        by { lemma_line_end(t, k); lemma_nls(t, k, k); lemma_bo(t, line_start(t, k), k); }
    }
//@end
//@fn crates/aptos-language-server/src/lsp/from_proto.rs text_range
//@ret r
//@rewrite? match $$a { true => $b , false => $$c , } =>> if $a { $b } else { $c }

//@spec
    ensures
        forall|j: int, k: int| #[trigger] denotes(line_index.encoding, line_index.text(), range.start, j) && #[trigger] denotes(line_index.encoding, line_index.text(), range.end, k) ==>
            (if j <= k { r matches Ok(g) && g.start.raw == bo(line_index.text(), j) && g.end.raw == bo(line_index.text(), k) } else { r is Err }),
        range.start.line > lines(line_index.text()) || range.end.line > lines(line_index.text()) ==> r is Err,
        r matches Ok(g) ==> g.wf(),
        range.start.line > range.end.line && (exists|k: int| denotes(line_index.encoding, line_index.text(), range.end, k)) ==> r is Err,
//@in fn begin
    proof {
        let t = line_index.text();
        assert forall|j: int, k: int| 0 <= j <= t.len() && 0 <= k <= t.len() implies (if j <= k { #[trigger] bo(t, j) <= #[trigger] bo(t, k) } else { bo(t, k) < bo(t, j) }) by {
            if j <= k { lemma_bo(t, j, k); } else { lemma_bo(t, k, j); } }
        if range.start.line > range.end.line && range.start.line <= lines(t) && (exists|k: int| denotes(line_index.encoding, t, range.end, k)) {
            let k = choose|k: int| denotes(line_index.encoding, t, range.end, k);
            lemma_lstart(t, range.start.line as int); let j = lstart(t, range.start.line as int);
            if j <= k { lemma_nls(t, j, k); } lemma_bo(t, k, j);
        }
    }
//@end

//@fn crates/aptos-language-server/src/lsp/to_proto.rs lsp_position
//@ret r
//@rewrite lsp_types :: =>>
//@spec
    requires exists|k: int| 0 <= k <= line_index.text().len() && #[trigger] bo(line_index.text(), k) == offset.raw
    ensures forall|k: int| 0 <= k <= line_index.text().len() && #[trigger] bo(line_index.text(), k) == offset.raw ==> denotes(line_index.encoding, line_index.text(), r, k)
//@in fn begin
    proof {
        let t = line_index.text();
        assert forall|k: int| 0 <= k <= t.len() && #[trigger] bo(t, k) == offset.raw implies
            denotes(PositionEncoding::Utf8, t, Position { line: nls(t, k) as u32, character: (offset.raw - bo(t, line_start(t, k))) as u32 }, k)
        by { lemma_nls(t, k, k); lemma_bo(t, line_start(t, k), k); lemma_bo(t, 0, line_start(t, k)); lemma_nls_len(t, k); }
    }
//@end
//@fn crates/aptos-language-server/src/lsp/to_proto.rs lsp_range
//@ret r
//@rewrite? lsp_types :: =>>
//@spec
    requires range.wf(), exists|k: int| 0 <= k <= line_index.text().len() && #[trigger] bo(line_index.text(), k) == range.start.raw,
        exists|k: int| 0 <= k <= line_index.text().len() && #[trigger] bo(line_index.text(), k) == range.end.raw
    ensures forall|j: int, k: int| 0 <= j <= line_index.text().len() && 0 <= k <= line_index.text().len() && #[trigger] bo(line_index.text(), j) == range.start.raw && #[trigger] bo(line_index.text(), k) == range.end.raw
        ==> denotes(line_index.encoding, line_index.text(), r.start, j) && denotes(line_index.encoding, line_index.text(), r.end, k)
//@end
pub proof fn lemma_nls_len(t: Seq<char>, k: int) requires 0 <= k <= t.len() ensures nls(t, k) <= bo(t, k) decreases k
{ if k > 0 { lemma_nls_len(t, k - 1); lemma_bo(t, k - 1, k); } }
/// T02: a place sent to the client and sent back is the same place
proof fn theorem_round_trip(ix: &LineIndex, k: int, p: Position, r: Result<TextSize, VxError>)
    requires 0 <= k <= ix.text().len(), encode_utf8(ix.text()).len() <= u32::MAX,
        denotes(ix.encoding, ix.text(), p, k), // what lsp_position ensures
        denotes(ix.encoding, ix.text(), p, k) ==> (r matches Ok(o) && o.raw == bo(ix.text(), k)), // what offset ensures
    ensures r matches Ok(o) && o.raw == bo(ix.text(), k)
{ }

// ================= document changes
/// the document after the client's change: the characters between the two positions replaced.
/// A change which names no place of the document, or ends before it starts, changes nothing.
pub open spec fn valid_at(enc: PositionEncoding, t: Seq<char>, c: Partial, j: int, k: int) -> bool { j <= k && denotes(enc, t, c.range.start, j) && denotes(enc, t, c.range.end, k) }
pub open spec fn valid(enc: PositionEncoding, t: Seq<char>, c: Partial) -> bool { exists|j: int, k: int| valid_at(enc, t, c, j, k) }
pub open spec fn spliced(t: Seq<char>, j: int, k: int, new: Seq<char>) -> Seq<char> { t.take(j) + new + t.skip(k) }
pub open spec fn step(enc: PositionEncoding, t: Seq<char>, c: Partial) -> Seq<char> {
    if valid(enc, t, c) { let (j, k) = choose|j: int, k: int| valid_at(enc, t, c, j, k); spliced(t, j, k, c.text@) } else { t }
}
pub open spec fn placed(enc: PositionEncoding, t: Seq<char>, p: Position) -> bool { exists|k: int| denotes(enc, t, p, k) }
/// a change the client may send: its positions are places between characters, or it is recognisably wrong
pub open spec fn sendable(enc: PositionEncoding, t: Seq<char>, c: Partial) -> bool {
    ||| valid(enc, t, c)
    ||| c.range.end.line > lines(t)
    ||| placed(enc, t, c.range.end) && (placed(enc, t, c.range.start) || c.range.start.line > c.range.end.line)
}
pub open spec fn after(enc: PositionEncoding, t: Seq<char>, v: Seq<Partial>, n: int) -> Seq<char> decreases n { if n <= 0 { t } else { step(enc, after(enc, t, v, n - 1), v[n - 1]) } }
pub open spec fn all_sendable(enc: PositionEncoding, t: Seq<char>, v: Seq<Partial>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> sendable(enc, after(enc, t, v, i), #[trigger] v[i]) && encode_utf8(after(enc, t, v, i)).len() <= u32::MAX
}
pub proof fn lemma_valid(enc: PositionEncoding, t: Seq<char>, c: Partial, j: int, k: int)
    requires valid_at(enc, t, c, j, k) ensures valid(enc, t, c), step(enc, t, c) == spliced(t, j, k, c.text@)
{
    let (a, b) = choose|a: int, b: int| valid_at(enc, t, c, a, b);
    lemma_denotes(enc, t, c.range.start, a, j); lemma_denotes(enc, t, c.range.end, b, k);
}
/// lines before `l` are the same in both texts
pub open spec fn same_before(a: Seq<char>, b: Seq<char>, l: int) -> bool {
    a == b || exists|n: int| common(a, b, l, n)
}
pub open spec fn common(a: Seq<char>, b: Seq<char>, l: int, n: int) -> bool { 0 <= n <= a.len() && n <= b.len() && a.take(n) == b.take(n) && nls(b, n) >= l }
pub proof fn lemma_same_place(enc: PositionEncoding, a: Seq<char>, b: Seq<char>, l: int, p: Position, k: int)
    requires same_before(a, b, l), p.line < l, denotes(enc, b, p, k) ensures denotes(enc, a, p, k)
{
    if a != b {
        let n = choose|n: int| common(a, b, l, n);
        if k >= n { lemma_nls(b, n, k); }
        lemma_nls_take(a, n, k); lemma_nls_take(b, n, k); lemma_nls(b, k, k);
        assert(a.subrange(line_start(b, k), k) =~= a.take(n).subrange(line_start(b, k), k));
        assert(b.subrange(line_start(b, k), k) =~= b.take(n).subrange(line_start(b, k), k));
    }
}
pub proof fn lemma_same_lines(a: Seq<char>, b: Seq<char>, l: int)
    requires same_before(a, b, l), a != b ensures lines(a) >= l, lines(b) >= l
{
    let n = choose|n: int| common(a, b, l, n);
    lemma_nls(a, n, a.len() as int); lemma_nls(b, n, b.len() as int); lemma_nls_take(a, n, n); lemma_nls_take(b, n, n);
}
pub proof fn lemma_prefix(a: Seq<char>, b: Seq<char>, c: Seq<char>, l: int, m: int, j: int)
    requires same_before(a, b, l), 0 <= j <= b.len(), j <= c.len(), b.take(j) == c.take(j), nls(b, j) == m, a == b || m < l
    ensures same_before(a, c, m)
{
    lemma_nls_take(b, j, j); lemma_nls_take(c, j, j);
    if a == b { assert(common(a, c, m, j)); }
    else {
        let n = choose|n: int| common(a, b, l, n);
        if j >= n { lemma_nls(b, n, j); }
        assert(a.take(j) =~= a.take(n).take(j)); assert(b.take(j) =~= b.take(n).take(j));
        assert(common(a, c, m, j));
    }
}
/// a text whose early lines are those of the document places a change there as the document does
pub proof fn lemma_located(enc: PositionEncoding, ix: Seq<char>, t: Seq<char>, l: int, c: Partial)
    requires sendable(enc, t, c), ix == t || same_before(ix, t, l) && c.range.end.line < l
    ensures
        valid(enc, t, c) ==> exists|j: int, k: int| valid_at(enc, t, c, j, k) && #[trigger] valid_at(enc, ix, c, j, k) && bo(ix, j) == bo(t, j) && bo(ix, k) == bo(t, k),
        !valid(enc, t, c) ==> c.range.start.line > lines(ix) || c.range.end.line > lines(ix)
            || (exists|j: int, k: int| k < j && #[trigger] denotes(enc, ix, c.range.start, j) && #[trigger] denotes(enc, ix, c.range.end, k))
            || c.range.start.line > c.range.end.line && placed(enc, ix, c.range.end)
{
    let (s, e) = (c.range.start, c.range.end);
    if ix != t { lemma_same_lines(ix, t, l); }
    if valid(enc, t, c) {
        let (j, k) = choose|j: int, k: int| valid_at(enc, t, c, j, k);
        lemma_nls(t, j, k);
        if ix != t {
            lemma_same_place(enc, ix, t, l, s, j); lemma_same_place(enc, ix, t, l, e, k); lemma_prefix_bo(ix, t, l, j); lemma_prefix_bo(ix, t, l, k);
        }
        assert(valid_at(enc, ix, c, j, k));
    } else if e.line <= lines(t) {
        if placed(enc, t, e) {
            let k = choose|k: int| denotes(enc, t, e, k);
            if ix != t { lemma_same_place(enc, ix, t, l, e, k); }
            assert(placed(enc, ix, e));
            if s.line <= e.line {
                let j = choose|j: int| denotes(enc, t, s, j);
                if ix != t { lemma_same_place(enc, ix, t, l, s, j); }
                if j <= k { assert(valid_at(enc, t, c, j, k)); }
                assert(denotes(enc, ix, s, j) && denotes(enc, ix, e, k));
            }
        }
    }
}
pub proof fn lemma_prefix_bo(a: Seq<char>, b: Seq<char>, l: int, k: int)
    requires same_before(a, b, l), a != b, 0 <= k <= b.len(), nls(b, k) < l ensures bo(a, k) == bo(b, k), k <= a.len(), a.take(k) == b.take(k)
{
    let n = choose|n: int| common(a, b, l, n);
    if k >= n { lemma_nls(b, n, k); }
    assert(a.take(k) =~= a.take(n).take(k)); assert(b.take(k) =~= b.take(n).take(k));
}
pub proof fn lemma_inj(a: Seq<char>, b: Seq<char>) ensures encode_utf8(a) == encode_utf8(b) ==> a == b { encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(b); }
pub proof fn lemma_cut(t: Seq<char>, k: int)
    requires 0 <= k <= t.len()
    ensures boundary(encode_utf8(t), bo(t, k)), encode_utf8(t).take(bo(t, k)) == encode_utf8(t.take(k)), encode_utf8(t).skip(bo(t, k)) == encode_utf8(t.skip(k))
{
    encode_utf8_concat(t.take(k), t.skip(k)); assert(t.take(k) + t.skip(k) =~= t);
    assert(encode_utf8(t).take(bo(t, k)) =~= encode_utf8(t.take(k))); assert(encode_utf8(t).skip(bo(t, k)) =~= encode_utf8(t.skip(k)));
    encode_utf8_valid_utf8(t.take(k));
}
pub proof fn lemma_splice(t: Seq<char>, j: int, k: int, new: Seq<char>, out: Seq<char>)
    requires 0 <= j <= k <= t.len(), encode_utf8(out) == encode_utf8(t).take(bo(t, j)) + encode_utf8(new) + encode_utf8(t).skip(bo(t, k))
    ensures out == spliced(t, j, k, new)
{
    lemma_cut(t, j); lemma_cut(t, k); encode_utf8_concat(t.take(j), new); encode_utf8_concat(t.take(j) + new, t.skip(k)); lemma_inj(out, spliced(t, j, k, new));
}
/// the partial changes after the last whole-document change, and the text they start from
pub open spec fn last_whole(v: Seq<Change>) -> int decreases v.len() {
    if v.len() == 0 { -1 } else { match v.last() { Change::TextDocumentContentChangeWholeDocument(_) => v.len() - 1, _ => last_whole(v.drop_last()) } }
}
pub open spec fn partial(c: Change) -> Partial { c->TextDocumentContentChangePartial_0 }
pub open spec fn partials(v: Seq<Change>) -> Seq<Partial> { v.skip(last_whole(v) + 1).map_values(|c: Change| partial(c)) }
pub open spec fn start_text(t: Seq<char>, v: Seq<Change>) -> Seq<char> { if last_whole(v) >= 0 { v[last_whole(v)]->TextDocumentContentChangeWholeDocument_0.text@ } else { t } }
/// the client's document after a list of changes
pub open spec fn document(enc: PositionEncoding, t: Seq<char>, v: Seq<Change>) -> Seq<char> { let p = partials(v); after(enc, start_text(t, v), p, p.len() as int) }
pub open spec fn may_send(enc: PositionEncoding, t: Seq<char>, v: Seq<Change>) -> bool {
    all_sendable(enc, start_text(t, v), partials(v)) && encode_utf8(start_text(t, v)).len() <= u32::MAX
}
/// one step of the backwards scan
pub open spec fn scan(acc: Seq<Partial>, c: Change) -> Result<Seq<Partial>, (Seq<char>, Seq<Partial>)> {
    match c { Change::TextDocumentContentChangePartial(p) => Ok(acc.push(p)), Change::TextDocumentContentChangeWholeDocument(w) => Err((w.text@, acc)) }
}
pub open spec fn scan_view(r: Result<Vec<Partial>, (Whole, Vec<Partial>)>) -> Result<Seq<Partial>, (Seq<char>, Seq<Partial>)> {
    match r { Ok(v) => Ok(v@), Err((w, v)) => Err((w.text@, v@)) }
}
pub open spec fn rev_fold(v: Seq<Change>, acc: Seq<Partial>, g: spec_fn(Seq<Partial>, Change) -> Result<Seq<Partial>, (Seq<char>, Seq<Partial>)>) -> Result<Seq<Partial>, (Seq<char>, Seq<Partial>)> decreases v.len() {
    if v.len() == 0 { Ok(acc) } else { match g(acc, v.last()) { Ok(a) => rev_fold(v.drop_last(), a, g), Err(e) => Err(e) } }
}
pub open spec fn scanner() -> spec_fn(Seq<Partial>, Change) -> Result<Seq<Partial>, (Seq<char>, Seq<Partial>)> { |a: Seq<Partial>, c: Change| scan(a, c) }
/// trusted: `v.iter_mut().rev().try_fold(init, f)` (by value: the list is not used again)
#[verifier::external_body]
pub fn vx_rev_try_fold<F: Fn(Vec<Partial>, Change) -> Result<Vec<Partial>, (Whole, Vec<Partial>)>>(v: Vec<Change>, init: Vec<Partial>, f: F,
    Ghost(g): Ghost<spec_fn(Seq<Partial>, Change) -> Result<Seq<Partial>, (Seq<char>, Seq<Partial>)>>) -> (r: Result<Vec<Partial>, (Whole, Vec<Partial>)>)
    requires forall|a: Vec<Partial>, c: Change| f.requires((a, c)), forall|a: Vec<Partial>, c: Change, r: Result<Vec<Partial>, (Whole, Vec<Partial>)>| #[trigger] f.ensures((a, c), r) ==> scan_view(r) == g(a@, c)
    ensures scan_view(r) == rev_fold(v@, init@, g)
{ unimplemented!() }
proof fn lemma_scan(v: Seq<Change>, acc: Seq<Partial>)
    ensures ({ let p = partials(v); match rev_fold(v, acc, scanner()) {
        Ok(r) => last_whole(v) == -1 && r == acc + p.reverse(),
        Err((w, r)) => 0 <= last_whole(v) < v.len() && (v[last_whole(v)] matches Change::TextDocumentContentChangeWholeDocument(x) && w == x.text@) && r == acc + p.reverse() } }),
        -1 <= last_whole(v) < v.len()
    decreases v.len()
{
    if v.len() == 0 { assert(partials(v) =~= Seq::<Partial>::empty()); assert(acc + partials(v).reverse() =~= acc); }
    else {
        let u = v.drop_last();
        match v.last() {
            Change::TextDocumentContentChangePartial(p) => {
                lemma_scan(u, acc.push(p));
                assert(v.skip(last_whole(v) + 1) =~= u.skip(last_whole(u) + 1).push(v.last()));
                assert(partials(v) =~= partials(u).push(p));
                assert(partials(v).reverse() =~= seq![p] + partials(u).reverse());
                assert(acc.push(p) + partials(u).reverse() =~= acc + partials(v).reverse());
            }
            Change::TextDocumentContentChangeWholeDocument(w) => { assert(partials(v) =~= Seq::<Partial>::empty()); assert(acc + partials(v).reverse() =~= acc); }
        }
    }
}
/// trusted: an owned copy
#[verifier::external_body]
pub fn vx_owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_owned() }
#[verifier::external_body]
pub fn vx_empty() -> String { String::new() }

//@fn crates/aptos-language-server/src/lsp/utils.rs apply_document_changes
//@ret r
//@rewrite mut content_changes : =>> content_changes:
//@rewrite let ( mut $a , $b ) ; =>> let mut $a: String = vx_empty(); let mut $b: Vec<Partial> = Vec::new();
//@rewrite content_changes . iter_mut ( ) . rev ( ) . try_fold ( Vec :: new ( ) , | mut $a , $c | $$d ) =>> vx_rev_try_fold(content_changes, Vec::new(), |$a: Vec<Partial>, $c: Change| -> (x: Result<Vec<Partial>, (Whole, Vec<Partial>)>) ensures scan_view(x) == scan($a@, $c) { let mut $a = $a; $d }, Ghost(scanner()))
//@rewrite mem :: take ( & mut $x . text ) =>> $x.text
//@rewrite $x . to_owned ( ) =>> vx_owned($x)
//@rewrite line_index :: LineIndex :: new ( & $x ) =>> VxLineIndex::new(&$x)
//@rewrite * Arc :: make_mut ( & mut $x . index ) = $$y ; =>> $x.index = Arc::new($y);
//@rewrite LineEndings :: Unix =>> LineEndings { crlf: false }
//@rewrite from_proto :: text_range =>> text_range
//@rewrite $t . replace_range ( Range :: < usize > :: from ( $r ) , & $$c ) =>> vx_replace_range(&mut $t, $r.start().vx_usize(), $r.end().vx_usize(), &$c)
//@spec
    requires may_send(encoding, file_contents@, content_changes@)
    ensures r@ == document(encoding, file_contents@, content_changes@)
//@in fn begin
    let ghost t0 = start_text(file_contents@, content_changes@);
    let ghost ps = partials(content_changes@);
    proof { lemma_scan(content_changes@, Seq::empty()); assert(Seq::<Partial>::empty() + ps.reverse() =~= ps.reverse()); assert(ps.reverse().reverse() =~= ps); }
//@before if
    assert(text@ == t0 && r_partial_changes@ == ps.reverse());
//@loop 0 iter it
    invariant
        r_partial_changes@ == ps.reverse(), it.index@ <= ps.len(),
        all_sendable(encoding, t0, ps),
        text@ == after(encoding, t0, ps, it.index@),
        line_index.encoding == encoding, same_before(line_index.text(), text@, index_valid as int),
//@in loop 0 begin
    let ghost t1 = text@; let ghost c = ps[it.index@]; let ghost l0 = index_valid as int; let ghost ix0 = line_index.text();
    proof { assert(*change == c); assert(sendable(encoding, t1, c)); }
//@before if let Ok
    let ghost ix = line_index.text();
    proof {
        assert(ix == t1 || same_before(ix, t1, l0) && c.range.end.line < l0);
        lemma_located(encoding, ix, t1, l0, c);
        assert forall|j: int| 0 <= j <= t1.len() implies boundary(encode_utf8(t1), #[trigger] bo(t1, j)) by { lemma_cut(t1, j); }
    }
//@in loop 0 end
    proof {
        if valid(encoding, t1, c) {
            let (j, k) = choose|j: int, k: int| valid_at(encoding, t1, c, j, k) && #[trigger] valid_at(encoding, ix, c, j, k) && bo(ix, j) == bo(t1, j) && bo(ix, k) == bo(t1, k);
            lemma_valid(encoding, t1, c, j, k);
            lemma_splice(t1, j, k, c.text@, text@);
            lemma_nls(t1, j, k);
            assert(text@.take(j) =~= t1.take(j));
            lemma_prefix(ix, t1, text@, l0, c.range.start.line as int, j);
        }
    }
//@end

// ================= completion edits
pub open spec fn apart(a: Range, b: Range) -> bool { le(a.end, b.start) || le(b.end, a.start) }
pub open spec fn all_apart(v: Seq<Range>) -> bool { forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j ==> apart(#[trigger] v[i], #[trigger] v[j]) }
pub open spec fn edit_ranges_of(v: Seq<TextEdit>) -> Seq<Range> { v.map_values(|e: TextEdit| e.range) }
pub open spec fn main_range(c: CompletionItem) -> Seq<Range> {
    match c.text_edit { Some(CompletionItemTextEdit::TextEdit(e)) => seq![e.range], Some(CompletionItemTextEdit::InsertReplaceEdit(e)) => seq![e.replace], None => Seq::empty() }
}
pub open spec fn all_ranges(c: CompletionItem, more: Seq<TextEdit>) -> Seq<Range> {
    main_range(c) + (match c.additional_text_edits { Some(v) => edit_ranges_of(v@), None => Seq::empty() }) + edit_ranges_of(more)
}
/// what is inserted is a prefix of what is replaced
pub open spec fn insert_fits(c: CompletionItem) -> bool {
    match c.text_edit { Some(CompletionItemTextEdit::InsertReplaceEdit(e)) => e.replace.start == e.insert.start && le(e.insert.start, e.insert.end) && le(e.insert.end, e.replace.end), _ => true }
}
pub open spec fn range_le(a: Range, b: Range) -> bool { if a.start == b.start { le(a.end, b.end) } else { le(a.start, b.start) } }
pub open spec fn hit(p: spec_fn(int) -> int, n: int, k: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] p(i) == k }
pub open spec fn is_perm(p: spec_fn(int) -> int, n: int) -> bool {
    (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p(i) < n) && (forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j ==> #[trigger] p(i) != #[trigger] p(j))
    && (forall|k: int| 0 <= k < n ==> #[trigger] hit(p, n, k))
}
pub open spec fn permuted(a: Seq<Range>, b: Seq<Range>, p: spec_fn(int) -> int) -> bool { a.len() == b.len() && is_perm(p, a.len() as int) && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[p(i)] }
/// trusted: `v.extend(w.iter().map(f))`
#[verifier::external_body]
pub fn vx_extend<F: Fn(&TextEdit) -> Range>(v: &mut Vec<Range>, w: &[TextEdit], f: F)
    requires forall|e: &TextEdit| f.requires((e,)), forall|e: &TextEdit, r: Range| #[trigger] f.ensures((e,), r) ==> r == e.range
    ensures final(v)@ == old(v)@ + edit_ranges_of(w@)
{ v.extend(w.iter().map(f)) }
/// trusted: `v.sort_by_key(f)`
#[verifier::external_body]
pub fn vx_sort_by_key<F: Fn(&Range) -> (Position, Position)>(v: &mut Vec<Range>, f: F)
    requires forall|e: &Range| f.requires((e,)), forall|e: &Range, k: (Position, Position)| #[trigger] f.ensures((e,), k) ==> k == (e.start, e.end)
    ensures exists|p: spec_fn(int) -> int| permuted(old(v)@, final(v)@, p), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> range_le(#[trigger] final(v)@[i], #[trigger] final(v)@[j])
{ unimplemented!() }
/// trusted: `v.iter().zip(v.iter().skip(1)).all(|(a, b)| f(a, b))`
#[verifier::external_body]
pub fn vx_all_adjacent<F: Fn(&Range, &Range) -> bool>(v: &Vec<Range>, f: F, Ghost(g): Ghost<spec_fn(Range, Range) -> bool>) -> (r: bool)
    requires forall|a: &Range, b: &Range| f.requires((a, b)), forall|a: &Range, b: &Range, x: bool| #[trigger] f.ensures((a, b), x) ==> x == g(*a, *b)
    ensures r == (forall|i: int| 0 <= i && i + 1 < v@.len() ==> g(#[trigger] v@[i], v@[i + 1]))
{ unimplemented!() }
pub open spec fn before() -> spec_fn(Range, Range) -> bool { |a: Range, b: Range| le(a.end, b.start) }
proof fn lemma_sorted_apart(v: Seq<Range>)
    requires forall|i: int, j: int| 0 <= i < j < v.len() ==> range_le(#[trigger] v[i], #[trigger] v[j]), forall|i: int| 0 <= i < v.len() ==> le((#[trigger] v[i]).start, v[i].end)
    ensures all_apart(v) <==> (forall|i: int| 0 <= i && i + 1 < v.len() ==> before()(#[trigger] v[i], v[i + 1]))
{
    if all_apart(v) {
        assert forall|i: int| 0 <= i && i + 1 < v.len() implies before()(#[trigger] v[i], v[i + 1]) by { assert(apart(v[i], v[i + 1])); assert(range_le(v[i], v[i + 1])); assert(le(v[i].start, v[i].end)); assert(le(v[i + 1].start, v[i + 1].end)); }
    }
    if forall|i: int| 0 <= i && i + 1 < v.len() ==> before()(#[trigger] v[i], v[i + 1]) {
        assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j implies apart(#[trigger] v[i], #[trigger] v[j]) by {
            let (a, b) = if i < j { (i, j) } else { (j, i) };
            assert(before()(v[a], v[a + 1])); assert(a + 1 < b ==> range_le(v[a + 1], v[b])); assert(le(v[a + 1].start, v[b].start));
        }
    }
}
proof fn lemma_permuted_apart(a: Seq<Range>, b: Seq<Range>, p: spec_fn(int) -> int)
    requires permuted(a, b, p) ensures all_apart(a) <==> all_apart(b)
{
    if all_apart(a) { assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies apart(#[trigger] b[i], #[trigger] b[j]) by { assert(apart(a[p(i)], a[p(j)])); } }
    if all_apart(b) { assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies apart(#[trigger] a[i], #[trigger] a[j]) by {
        assert(hit(p, a.len() as int, i)); assert(hit(p, a.len() as int, j));
        let x = choose|x: int| 0 <= x < a.len() && #[trigger] p(x) == i; let y = choose|y: int| 0 <= y < a.len() && #[trigger] p(y) == j; assert(apart(b[x], b[y])); } }
}
//@fn crates/aptos-language-server/src/lsp/utils.rs all_edits_are_disjoint
//@ret r
//@rewrite Vec :: new ( ) =>> Vec::<Range>::new()
//@rewrite lsp_types :: =>>
//@rewrite $v . extend ( $w . iter ( ) . map ( | $e | $$b ) ) =>> vx_extend(&mut $v, $w, |$e: &TextEdit| -> (x: Range) ensures x == $e.range { $b })
//@rewrite $v . sort_by_key ( | $e | ( $$a , $$b ) ) =>> vx_sort_by_key(&mut $v, |$e: &Range| -> (k: (Position, Position)) ensures k == ($e.start, $e.end) { ($a, $b) })
//@rewrite $v . iter ( ) . zip ( $w . iter ( ) . skip ( 1 ) ) . all ( | ( $a , $b ) | $$c ) =>> vx_all_adjacent(&$v, |$a: &Range, $b: &Range| -> (x: bool) ensures x == before()(*$a, *$b) { $c }, Ghost(before()))
//@spec
    requires forall|i: int| 0 <= i < all_ranges(*completion, additional_edits@).len() ==> le((#[trigger] all_ranges(*completion, additional_edits@)[i]).start, all_ranges(*completion, additional_edits@)[i].end)
    ensures r == (insert_fits(*completion) && all_apart(all_ranges(*completion, additional_edits@)))
//@in fn begin
    let ghost rs = all_ranges(*completion, additional_edits@);
//@before edit_ranges . sort_by_key
    proof { assert(edit_ranges@ =~= rs); }
    let ghost unsorted = edit_ranges@;
//@after edit_ranges . sort_by_key
    proof {
        let p = choose|p: spec_fn(int) -> int| permuted(unsorted, edit_ranges@, p);
        lemma_permuted_apart(unsorted, edit_ranges@, p);
        assert forall|i: int| 0 <= i < edit_ranges@.len() implies le((#[trigger] edit_ranges@[i]).start, edit_ranges@[i].end) by { assert(edit_ranges@[i] == rs[p(i)]); }
        lemma_sorted_apart(edit_ranges@);
    }
//@end

// ================= the documents the client has open
//@rewrite vfs :: VfsPath =>> VfsPath
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct VfsPath { pub raw: u64 }
pub type AbsPathBuf = VfsPath;
impl VfsPath {
    pub fn from(p: AbsPathBuf) -> (r: VfsPath) ensures r == p { p }
    /// the paths of this server are all real ones (made by `abs_path`)
    pub fn as_path(&self) -> (r: Option<&VfsPath>) ensures r == Some(self) { Some(self) }
    pub fn to_path_buf(&self) -> (r: VfsPath) ensures r == *self { *self }
}
pub struct Uri { pub raw: u64 }
pub uninterp spec fn uri_path(u: Uri) -> Option<VfsPath>;
#[verifier::external_body]
pub fn vfs_path(u: &Uri) -> (r: Result<VfsPath, VxError>) ensures (match r { Ok(p) => uri_path(*u) == Some(p), Err(_) => uri_path(*u) == None::<VfsPath> }) { unimplemented!() }
/// std's HashMap
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r == (if self@.dom().contains(*k) { Some(&self@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r { Some(v) => old(self)@.dom().contains(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)), None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@ } { unimplemented!() }
}
//@item crates/aptos-language-server/src/opened_files.rs OpenedFiles
//@item crates/aptos-language-server/src/opened_files.rs DocumentData
impl OpenedFiles { pub closed spec fn docs(self) -> Map<VfsPath, DocumentData> { self.files@ } }
impl OpenedFiles {
//@fn crates/aptos-language-server/src/opened_files.rs OpenedFiles::contains
//@ret r
//@spec
    ensures r == self.docs().dom().contains(*path)
//@end
//@fn crates/aptos-language-server/src/opened_files.rs OpenedFiles::insert
//@ret r
//@spec
    ensures final(self).docs() == old(self).docs().insert(path, data), r is Err == old(self).docs().dom().contains(path)
//@end
//@fn crates/aptos-language-server/src/opened_files.rs OpenedFiles::remove
//@ret r
//@spec
    ensures final(self).docs() == old(self).docs().remove(*path), r is Ok == old(self).docs().dom().contains(*path)
//@end
//@fn crates/aptos-language-server/src/opened_files.rs OpenedFiles::get
//@ret r
//@spec
    ensures r == (if self.docs().dom().contains(*path) { Some(&self.docs()[*path]) } else { None })
//@end
//@fn crates/aptos-language-server/src/opened_files.rs OpenedFiles::get_mut
//@ret r
//@spec
    ensures match r { Some(v) => old(self).docs().dom().contains(*path) && *v == old(self).docs()[*path] && final(self).docs() == old(self).docs().insert(*path, *final(v)), None => !old(self).docs().dom().contains(*path) && final(self).docs() == old(self).docs() }
//@end
}
impl DocumentData {
//@fn crates/aptos-language-server/src/opened_files.rs DocumentData::new
//@ret r
//@spec
    ensures r.version == version, r.data == data
//@end
}
/// the `vfs` crate: what was last stored for each path (None: the file is gone)
#[verifier::external_body]
pub struct VxVfs { }
impl View for VxVfs { type V = Map<VfsPath, Option<Seq<u8>>>; uninterp spec fn view(&self) -> Map<VfsPath, Option<Seq<u8>>>; }
pub open spec fn bytes_of(c: Option<Vec<u8>>) -> Option<Seq<u8>> { match c { Some(v) => Some(v@), None => None } }
pub open spec fn has_file(m: Map<VfsPath, Option<Seq<u8>>>, p: VfsPath) -> bool { m.dom().contains(p) && m[p] is Some }
impl VxVfs {
    #[verifier::external_body]
    pub fn set_file_contents(&mut self, p: VfsPath, c: Option<Vec<u8>>) -> (r: bool) ensures final(self)@ == old(self)@.insert(p, bytes_of(c)) { unimplemented!() }
    #[verifier::external_body]
    pub fn file_id(&self, p: &VfsPath) -> (r: Option<u32>) ensures r is Some == has_file(self@, *p) { unimplemented!() }
}
/// the file loader; the paths it was told to read again
pub struct VxHandle { pub asked: Ghost<Seq<VfsPath>> }
impl VxHandle { pub fn invalidate(&mut self, p: VfsPath) ensures final(self).asked@ == old(self).asked@.push(p) { proof { self.asked@ = self.asked@.push(p); } } }
pub struct VxLoader { pub handle: VxHandle }
pub struct Config { pub encoding: PositionEncoding }
impl Config { pub fn negotiated_encoding(&self) -> (r: PositionEncoding) ensures r == self.encoding { self.encoding } }
pub struct GlobalState { pub opened_files: OpenedFiles, pub vfs: VxVfs, pub config: Config, pub vfs_loader: VxLoader }
pub struct TextDocumentItem { pub uri: Uri, pub version: i32, pub text: String }
pub struct DidOpenTextDocumentParams { pub text_document: TextDocumentItem }
pub struct TextDocumentIdentifier { pub uri: Uri }
pub struct VersionedTextDocumentIdentifier { pub text_document_identifier: TextDocumentIdentifier, pub version: i32 }
pub struct DidChangeTextDocumentParams { pub text_document: VersionedTextDocumentIdentifier, pub content_changes: Vec<Change> }
pub struct DidCloseTextDocumentParams { pub text_document: TextDocumentIdentifier }
impl GlobalState {
    pub open spec fn docs(self) -> Map<VfsPath, DocumentData> { self.opened_files.docs() }
    /// for every open document the files the analysis works on hold what the client last sent
    pub open spec fn in_sync(self) -> bool {
        forall|p: VfsPath| #[trigger] self.docs().dom().contains(p) ==> valid_utf8(self.docs()[p].data@) && self.vfs@.dom().contains(p) && self.vfs@[p] == Some(self.docs()[p].data@)
    }
    pub open spec fn same(self, o: GlobalState) -> bool { self.config == o.config && self.docs() == o.docs() && self.vfs@ == o.vfs@ }
    /// nothing but `p` changed
    pub open spec fn only(self, o: GlobalState, p: VfsPath) -> bool {
        self.config == o.config && self.docs().remove(p) =~= o.docs().remove(p) && self.vfs@.remove(p) =~= o.vfs@.remove(p)
    }
}
pub trait VxBytes: Sized { spec fn vx_bytes(self) -> Seq<u8>; fn vx_into_bytes(self) -> (r: Vec<u8>) ensures r@ == self.vx_bytes(); }
impl VxBytes for String { open spec fn vx_bytes(self) -> Seq<u8> { encode_utf8(self@) } #[verifier::external_body] fn vx_into_bytes(self) -> (r: Vec<u8>) { self.into_bytes() } }
/// a change of one document which keeps that document in step keeps all of them in step
pub broadcast proof fn lemma_sync(f: GlobalState, o: GlobalState, p: VfsPath)
    ensures #[trigger] f.only(o, p) && o.in_sync()
        && (f.docs().dom().contains(p) ==> valid_utf8(f.docs()[p].data@) && f.vfs@.dom().contains(p) && f.vfs@[p] == Some(f.docs()[p].data@)) ==> f.in_sync()
{
    if f.only(o, p) && o.in_sync() && (f.docs().dom().contains(p) ==> valid_utf8(f.docs()[p].data@) && f.vfs@.dom().contains(p) && f.vfs@[p] == Some(f.docs()[p].data@)) {
        assert forall|q: VfsPath| #[trigger] f.docs().dom().contains(q) implies valid_utf8(f.docs()[q].data@) && f.vfs@.dom().contains(q) && f.vfs@[q] == Some(f.docs()[q].data@) by {
            if q != p { assert(f.docs().remove(p).dom().contains(q)); assert(o.docs().dom().contains(q)); assert(o.vfs@.remove(p).dom().contains(q)); assert(f.vfs@.remove(p).dom().contains(q)); assert(f.docs().remove(p)[q] == o.docs().remove(p)[q]); assert(f.vfs@.remove(p)[q] == o.vfs@.remove(p)[q]); }
        }
    }
}
pub broadcast proof fn lemma_sync_same(f: GlobalState, o: GlobalState) ensures #[trigger] f.same(o) && o.in_sync() ==> f.in_sync()
{
    if f.same(o) && o.in_sync() { assert forall|q: VfsPath| #[trigger] f.docs().dom().contains(q) implies valid_utf8(f.docs()[q].data@) && f.vfs@.dom().contains(q) && f.vfs@[q] == Some(f.docs()[q].data@) by { assert(o.docs().dom().contains(q)); } }
}
#[verifier::external_body]
pub fn vx_from_utf8(b: &Vec<u8>) -> (r: &str) requires valid_utf8(b@) ensures encode_utf8(r@) == b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_bytes_ne(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool) ensures r == (a@ != b@) { a != b }
#[verifier::external_body]
pub fn vx_clone_bytes(a: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == a@ { a.clone() }
//@rewrite anyhow :: Result < ( ) > =>> Result<(), VxError>
//@rewrite from_proto :: vfs_path =>> vfs_path
//@rewrite . into_bytes ( ) =>> .vx_into_bytes()
//@rewrite $s . vfs . write ( ) . 0 =>> $s.vfs
//@rewrite let _p = $$a ; =>>
//@fn crates/aptos-language-server/src/handlers/notification.rs handle_did_open_text_document
//@ret r
//@spec
    requires old(state).in_sync()
    ensures r is Ok,
        match uri_path(params.text_document.uri) {
            Some(p) => final(state).only(*old(state), p) && final(state).docs().dom().contains(p)
                && final(state).docs()[p].data@ == encode_utf8(params.text_document.text@) && final(state).docs()[p].version == params.text_document.version,
            None => final(state).same(*old(state)) },
        final(state).in_sync()
//@in fn begin
    broadcast use {lemma_sync, lemma_sync_same};
    proof { encode_utf8_valid_utf8(params.text_document.text@); }
//@end

//@fn crates/aptos-language-server/src/handlers/notification.rs handle_did_change_text_document
//@ret r
//@rewrite std :: str :: from_utf8 ( $x ) . unwrap ( ) =>> vx_from_utf8($x)
//@rewrite * $a != $b =>> vx_bytes_ne($a, &$b)
//@rewrite $a . clone_from ( & $b ) =>> *$a = vx_clone_bytes(&$b)
//@spec
    requires old(state).in_sync(),
        forall|p: VfsPath, t: Seq<char>| uri_path(params.text_document.text_document_identifier.uri) == Some(p) && old(state).docs().dom().contains(p) && encode_utf8(t) == old(state).docs()[p].data@
            ==> #[trigger] may_send_to(old(state).config.encoding, t, params.content_changes@, p)
    ensures final(state).in_sync(), r is Ok,
        match uri_path(params.text_document.text_document_identifier.uri) {
            Some(p) => if old(state).docs().dom().contains(p) {
                    final(state).only(*old(state), p) && final(state).docs().dom().contains(p) && final(state).docs()[p].version == params.text_document.version
                    && forall|t: Seq<char>| #[trigger] encode_utf8(t) == old(state).docs()[p].data@ ==> final(state).docs()[p].data@ == encode_utf8(document(old(state).config.encoding, t, params.content_changes@))
                } else { final(state).same(*old(state)) },
            None => final(state).same(*old(state)) }
//@in fn begin
    broadcast use {lemma_sync, lemma_sync_same};
    proof {
        assert(uri_path(params.text_document.text_document_identifier.uri) matches Some(p) ==> state.docs().dom().contains(p) ==> valid_utf8(state.docs()[p].data@));
        if let Some(p) = uri_path(params.text_document.text_document_identifier.uri) { if state.docs().dom().contains(p) {
            assert forall|t: Seq<char>| #[trigger] encode_utf8(t) == state.docs()[p].data@ implies may_send(state.config.encoding, t, params.content_changes@) by { assert(may_send_to(state.config.encoding, t, params.content_changes@, p)); }
        } }
        assert forall|s: Seq<char>| valid_utf8(#[trigger] encode_utf8(s)) by { encode_utf8_valid_utf8(s); }
        assert forall|a: Seq<char>, b: Seq<char>| #[trigger] encode_utf8(a) == #[trigger] encode_utf8(b) implies a == b by { lemma_inj(a, b); }
    }
//@end
pub open spec fn may_send_to(enc: PositionEncoding, t: Seq<char>, v: Seq<Change>, p: VfsPath) -> bool { may_send(enc, t, v) }
//@fn crates/aptos-language-server/src/handlers/notification.rs handle_did_close_text_document
//@ret r
//@spec
    requires old(state).in_sync()
    ensures r is Ok,
        match uri_path(params.text_document.uri) {
            Some(p) => final(state).only(*old(state), p) && !final(state).docs().dom().contains(p) && final(state).vfs_loader.handle.asked@ == old(state).vfs_loader.handle.asked@.push(p),
            None => final(state).same(*old(state)) },
        final(state).in_sync()
//@in fn begin
    broadcast use {lemma_sync, lemma_sync_same};
    let ghost o = *state;
//@before Ok ( ( ) )
    proof { if let Some(p) = uri_path(params.text_document.uri) { assert(state.only(o, p)); } }
//@end
impl GlobalState {
}
/// one file found on disk: an open document is never replaced; an unknown or changed file is taken over
pub open spec fn load_one(m: Map<VfsPath, Option<Seq<u8>>>, docs: Map<VfsPath, DocumentData>, p: VfsPath, c: Option<Vec<u8>>, changed: bool) -> Map<VfsPath, Option<Seq<u8>>> {
    if docs.dom().contains(p) || !(changed || !has_file(m, p)) { m } else { m.insert(p, bytes_of(c)) }
}
pub open spec fn loaded(m: Map<VfsPath, Option<Seq<u8>>>, docs: Map<VfsPath, DocumentData>, v: Seq<(VfsPath, Option<Vec<u8>>)>, n: int, changed: bool) -> Map<VfsPath, Option<Seq<u8>>> decreases n {
    if n <= 0 { m } else { load_one(loaded(m, docs, v, n - 1, changed), docs, v[n - 1].0, v[n - 1].1, changed) }
}
proof fn lemma_loaded(m: Map<VfsPath, Option<Seq<u8>>>, docs: Map<VfsPath, DocumentData>, v: Seq<(VfsPath, Option<Vec<u8>>)>, n: int, changed: bool)
    ensures forall|p: VfsPath| #[trigger] docs.dom().contains(p) ==> loaded(m, docs, v, n, changed).dom().contains(p) == m.dom().contains(p) && loaded(m, docs, v, n, changed)[p] == m[p]
    decreases n
{ if n > 0 { lemma_loaded(m, docs, v, n - 1, changed); } }
impl GlobalState {
//@fn crates/aptos-language-server/src/main_loop.rs GlobalState::load_files_into_vfs
//@spec
    requires old(self).in_sync()
    ensures final(self).in_sync(), final(self).opened_files == old(self).opened_files, final(self).config == old(self).config,
        final(self).vfs@ == loaded(old(self).vfs@, old(self).docs(), files@, files@.len() as int, is_changed),
//@loop 0 iter it
    invariant self.opened_files == old(self).opened_files, self.config == old(self).config, old(self).in_sync(),
        it.index@ <= files@.len(),
        vfs@ == loaded(old(self).vfs@, old(self).docs(), files@, it.index@, is_changed),
//@after @loop 0
    proof { lemma_loaded(old(self).vfs@, old(self).docs(), files@, files@.len() as int, is_changed); }
//@end
}

// ================= semantic tokens
pub struct SemanticToken { pub delta_line: u32, pub delta_start: u32, pub length: u32, pub token_type: u32, pub token_modifiers_bitset: u32 }
impl PartialEq for SemanticToken { fn eq(&self, o: &SemanticToken) -> bool { self.delta_line == o.delta_line && self.delta_start == o.delta_start && self.length == o.length && self.token_type == o.token_type && self.token_modifiers_bitset == o.token_modifiers_bitset } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for SemanticToken {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &SemanticToken) -> bool { *self == *o }
}
pub struct SemanticTokens { pub result_id: Option<String>, pub data: Vec<SemanticToken> }
pub struct SemanticTokensEdit { pub start: u32, pub delete_count: u32, pub data: Option<Vec<SemanticToken>> }
/// a highlight: a tag (which the code maps to a kind of token) and whether there is one
#[derive(Clone, Copy)]
pub struct Highlight { pub tag: u64 }
#[derive(Clone, Copy)]
pub struct HlRange { pub range: TextRange, pub highlight: Highlight }
#[derive(Clone, Copy)]
pub struct SupportedType { pub kind: u32 }
impl Highlight {
    pub uninterp spec fn blank(self) -> bool;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == self.blank() { unimplemented!() }
}
pub uninterp spec fn kind_of(h: Highlight) -> SupportedType;
/// trusted: the kind the code gives to a highlight, and its index (checked on every kind by the native run)
#[verifier::external_body]
pub fn semantic_token_type(h: Highlight) -> (r: SupportedType) ensures r == kind_of(h) { unimplemented!() }
pub fn vx_type_index(k: SupportedType) -> (r: u32) ensures r == k.kind { k.kind }
/// what a token says: where it starts, how long it is (in the client's units), of which kind
pub ghost struct Tok { pub line: int, pub start: int, pub len: int, pub kind: int }
/// LSP: each token is placed relative to the one before it
pub open spec fn decode(v: Seq<SemanticToken>) -> Seq<Tok> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else {
        let d = decode(v.drop_last()); let t = v.last();
        let (l, c) = if d.len() == 0 { (0int, 0int) } else { (d.last().line, d.last().start) };
        d.push(Tok { line: l + t.delta_line, start: if t.delta_line == 0 { c + t.delta_start } else { t.delta_start as int }, len: t.length as int, kind: t.token_type as int })
    }
}
proof fn lemma_decode_len(v: Seq<SemanticToken>) ensures decode(v).len() == v.len() decreases v.len() { if v.len() > 0 { lemma_decode_len(v.drop_last()); } }
/// the piece of [j, k) which ends with the line of j
pub open spec fn piece_end(t: Seq<char>, j: int, k: int) -> int decreases k - j { if j + 1 >= k || t[j] == '\n' { j + 1 } else { piece_end(t, j + 1, k) } }
pub open spec fn pieces(t: Seq<char>, j: int, k: int) -> Seq<(int, int)> decreases k - j via pieces_dec {
    if 0 <= j < k { seq![(j, piece_end(t, j, k))] + pieces(t, piece_end(t, j, k), k) } else { Seq::empty() }
}
#[via_fn]
proof fn pieces_dec(t: Seq<char>, j: int, k: int) { if j < k { lemma_piece_end(t, j, k); } }
proof fn lemma_piece_end(t: Seq<char>, j: int, k: int) requires j < k ensures j < piece_end(t, j, k) <= k, forall|i: int| j <= i < piece_end(t, j, k) - 1 ==> t[i] != '\n' decreases k - j
{ if j + 1 >= k || t[j] == '\n' { } else { lemma_piece_end(t, j + 1, k); } }
/// a piece without its line break
pub open spec fn shown_end(t: Seq<char>, p: (int, int)) -> int { if p.0 < p.1 && t[p.1 - 1] == '\n' { p.1 - 1 } else { p.1 } }
pub open spec fn tok(enc: PositionEncoding, t: Seq<char>, p: (int, int), h: Highlight) -> Tok {
    Tok { line: nls(t, p.0) as int, start: width(enc, t.subrange(line_start(t, p.0), p.0)) as int, len: width(enc, t.subrange(p.0, shown_end(t, p))) as int, kind: kind_of(h).kind as int }
}
pub open spec fn place(t: Seq<char>, b: int) -> int { choose|k: int| 0 <= k <= t.len() && bo(t, k) == b }
pub open spec fn is_place(t: Seq<char>, b: int) -> bool { exists|k: int| 0 <= k <= t.len() && #[trigger] bo(t, k) == b }
proof fn lemma_place(t: Seq<char>, b: int, k: int) requires 0 <= k <= t.len(), bo(t, k) == b ensures place(t, b) == k
{ let j = place(t, b); if j < k { lemma_bo(t, j, k); } else if k < j { lemma_bo(t, k, j); } }
pub open spec fn toks_of(enc: PositionEncoding, t: Seq<char>, h: HlRange) -> Seq<Tok> {
    if h.highlight.blank() { Seq::empty() } else { shown(enc, t, h.highlight, pieces(t, place(t, h.range.start.raw as int), place(t, h.range.end.raw as int))) }
}
/// the tokens of a list of highlights: one for each line a highlight touches
pub open spec fn toks(enc: PositionEncoding, t: Seq<char>, v: Seq<HlRange>) -> Seq<Tok> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { toks(enc, t, v.drop_last()) + toks_of(enc, t, v.last()) }
}
/// highlights in order, between characters
pub open spec fn ordered(t: Seq<char>, v: Seq<HlRange>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).range.wf() && is_place(t, v[i].range.start.raw as int) && is_place(t, v[i].range.end.raw as int)
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).range.end.raw <= (#[trigger] v[j]).range.start.raw
}
impl VxLineIndex {
    /// the pieces of a range, one per line (line breaks included)
    #[verifier::external_body]
    pub fn lines(&self, range: TextRange) -> (r: Vec<TextRange>)
        requires range.wf(), is_place(self@, range.start.raw as int), is_place(self@, range.end.raw as int)
        ensures ({ let v = pieces(self@, place(self@, range.start.raw as int), place(self@, range.end.raw as int));
            r@.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] r@[i]).start.raw == bo(self@, v[i].0) && r@[i].end.raw == bo(self@, v[i].1) }) { unimplemented!() }
}
/// trusted: `text[range].ends_with(c)`
#[verifier::external_body]
pub fn vx_ends_with(t: &str, g: TextRange, c: char) -> (r: bool)
    requires g.wf(), is_place(t@, g.start.raw as int), is_place(t@, g.end.raw as int)
    ensures ({ let (j, k) = (place(t@, g.start.raw as int), place(t@, g.end.raw as int)); r == (j < k && t@[k - 1] == c) }) { unimplemented!() }
proof fn lemma_width_add(enc: PositionEncoding, t: Seq<char>, a: int, b: int, c: int)
    requires 0 <= a <= b <= c <= t.len() ensures width(enc, t.subrange(a, c)) == width(enc, t.subrange(a, b)) + width(enc, t.subrange(b, c)) decreases c
{
    if b < c {
        lemma_width_add(enc, t, a, b, c - 1);
        assert(t.subrange(a, c) =~= t.subrange(a, c - 1).push(t[c - 1])); lemma_width_push(enc, t.subrange(a, c - 1), t[c - 1]);
        assert(t.subrange(b, c) =~= t.subrange(b, c - 1).push(t[c - 1])); lemma_width_push(enc, t.subrange(b, c - 1), t[c - 1]);
    } else { assert(t.subrange(b, c) =~= Seq::<char>::empty()); }
}
proof fn lemma_one_line(t: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= t.len(), forall|i: int| a <= i < b ==> t[i] != '\n' ensures nls(t, b) == nls(t, a), line_start(t, b) == line_start(t, a) decreases b
{ if a < b { lemma_one_line(t, a, b - 1); } }
proof fn lemma_pieces(t: Seq<char>, j: int, k: int, i: int)
    requires 0 <= j <= k <= t.len(), 0 <= i < pieces(t, j, k).len()
    ensures ({ let p = pieces(t, j, k)[i]; j <= p.0 < p.1 <= k && (forall|x: int| p.0 <= x < p.1 - 1 ==> t[x] != '\n') && (i > 0 ==> p.0 == pieces(t, j, k)[i - 1].1) && (i == 0 ==> p.0 == j) })
    decreases k - j
{
    if j < k {
        lemma_piece_end(t, j, k); let e = piece_end(t, j, k);
        assert(pieces(t, j, k) =~= seq![(j, e)] + pieces(t, e, k));
        if i > 0 { lemma_pieces(t, e, k, i - 1); }
    }
}
//@item crates/aptos-language-server/src/lsp/semantic_tokens.rs SemanticTokensBuilder
impl SemanticTokensBuilder {
    pub open spec fn wf(self) -> bool { self.data@.len() > 0 ==> decode(self.data@).last().line == self.prev_line && decode(self.data@).last().start == self.prev_char }
    /// a token may come next if it does not start before the last one
    pub open spec fn may_follow(self, p: Position) -> bool { self.data@.len() > 0 ==> self.prev_line < p.line || (self.prev_line == p.line && self.prev_char <= p.character) }
//@fn crates/aptos-language-server/src/lsp/semantic_tokens.rs SemanticTokensBuilder::new
//@ret r
//@spec
    ensures r.wf(), r.data@ == Seq::<SemanticToken>::empty()
//@end
//@fn crates/aptos-language-server/src/lsp/semantic_tokens.rs SemanticTokensBuilder::push
//@spec
    requires old(self).wf(), old(self).may_follow(range.start), range.start.line == range.end.line, range.start.character <= range.end.character
    ensures final(self).wf(), final(self).data@.len() == old(self).data@.len() + 1, final(self).prev_line == range.start.line, final(self).prev_char == range.start.character,
        decode(final(self).data@) == decode(old(self).data@).push(Tok { line: range.start.line as int, start: range.start.character as int, len: range.end.character - range.start.character, kind: token_index as int })
//@in fn begin
    let ghost d0 = self.data@;
    proof { lemma_decode_len(d0); }
//@in fn end
    proof { assert(self.data@.drop_last() =~= d0); }
//@end
//@fn crates/aptos-language-server/src/lsp/semantic_tokens.rs SemanticTokensBuilder::build
//@ret r
//@spec
    ensures r.data == self.data
//@end
}
//@fn crates/aptos-language-server/src/lsp/to_proto.rs semantic_tokens
//@ret r
//@rewrite lsp_types :: SemanticTokens =>> SemanticTokens
//@rewrite TOKEN_RESULT_COUNTER . fetch_add ( $$a ) . to_string ( ) =>> vx_format()
//@rewrite semantic_tokens :: SemanticTokensBuilder =>> SemanticTokensBuilder
//@rewrite semantic_tokens :: type_index =>> vx_type_index
//@rewrite text [ text_range ] . ends_with ( $$a ) =>> vx_ends_with(text, text_range, $a)
//@spec
    requires text@ == line_index.text(), encode_utf8(text@).len() <= u32::MAX, ordered(text@, highlights@)
    ensures decode(r.data@) == toks(line_index.encoding, text@, highlights@)
//@in fn begin
    let ghost t = text@; let ghost hs = highlights@; let ghost enc = line_index.encoding; let ghost mut m = 0int;
    proof { lemma_bo(t, 0, 0); assert(t.take(0) =~= Seq::<char>::empty()); assert(encode_utf8(Seq::<char>::empty()).len() == 0) by { reveal_with_fuel(encode_utf8, 2); } }
//@loop 0 iter it
    invariant t == text@, t == line_index.text(), enc == line_index.encoding, ordered(t, hs), it.seq() == hs, it.index@ <= hs.len(), encode_utf8(t).len() <= u32::MAX,
        builder.wf(), follows(enc, t, builder, m), forall|i: int| it.index@ <= i < hs.len() ==> bo(t, m) <= (#[trigger] hs[i]).range.start.raw,
        decode(builder.data@) == toks(enc, t, hs.take(it.index@)),
//@in loop 0 begin
    let ghost n = it.index@; let ghost h = hs[n]; let ghost (j, k) = (place(t, h.range.start.raw as int), place(t, h.range.end.raw as int)); let ghost ps = pieces(t, j, k);
    let ghost d0 = decode(builder.data@);
    proof {
        assert(hs.take(n + 1).drop_last() =~= hs.take(n)); assert(h == highlight_range);
        assert(bo(t, j) == h.range.start.raw && bo(t, k) == h.range.end.raw && 0 <= j <= t.len() && 0 <= k <= t.len());
        if k < j { lemma_bo(t, k, j); }
        if j < m { lemma_bo(t, j, m); }
        assert(decode(builder.data@) + Seq::<Tok>::empty() =~= decode(builder.data@));
        assert forall|i: int| n < i < hs.len() implies bo(t, k) <= (#[trigger] hs[i]).range.start.raw by { assert(hs[n].range.end.raw <= hs[i].range.start.raw); }
        lemma_bo(t, j, k);
    }
//@loop 1 iter it1
    invariant t == text@, t == line_index.text(), enc == line_index.encoding, h == highlight_range, token_index == kind_of(h.highlight).kind,
        builder.wf(), follows(enc, t, builder, m), 0 <= it1.index@ <= ps.len(), it1.seq().len() == ps.len(), encode_utf8(t).len() <= u32::MAX, 0 <= j <= k <= t.len(),
        forall|i: int| 0 <= i < ps.len() ==> (#[trigger] it1.seq()[i]).start.raw == bo(t, ps[i].0) && it1.seq()[i].end.raw == bo(t, ps[i].1),
        ps == pieces(t, j, k), m <= (if it1.index@ == 0 { j } else { ps[it1.index@ - 1].1 }), m <= k,
        decode(builder.data@) == d0 + shown(enc, t, h.highlight, ps.take(it1.index@)),
//@in loop 1 begin
    let ghost q = it1.index@; let ghost p = ps[q]; let ghost e = shown_end(t, p);
    proof {
        assert(it1.seq()[q] == text_range);
        lemma_pieces(t, j, k, q); lemma_tok(enc, t, h.highlight, p, m); lemma_shown(enc, t, h.highlight, ps, d0, q);
        assert(bo(t, p.0) == text_range.start.raw && bo(t, p.1) == text_range.end.raw);
    }
//@in loop 1 end
    proof { m = p.0; }
//@after @loop 1
    proof { lemma_bo(t, m, k); assert(ps.take(ps.len() as int) =~= ps); }
//@after @loop 0
    proof { assert(hs.take(hs.len() as int) =~= hs); }
//@end
pub open spec fn shown(enc: PositionEncoding, t: Seq<char>, h: Highlight, ps: Seq<(int, int)>) -> Seq<Tok> { ps.map_values(|p: (int, int)| tok(enc, t, p, h)) }
proof fn lemma_shown(enc: PositionEncoding, t: Seq<char>, h: Highlight, ps: Seq<(int, int)>, d: Seq<Tok>, q: int)
    requires 0 <= q < ps.len() ensures d + shown(enc, t, h, ps.take(q + 1)) == (d + shown(enc, t, h, ps.take(q))).push(tok(enc, t, ps[q], h))
{
    assert(ps.take(q + 1) =~= ps.take(q).push(ps[q]));
    assert(shown(enc, t, h, ps.take(q + 1)) =~= shown(enc, t, h, ps.take(q)).push(tok(enc, t, ps[q], h)));
    assert(d + shown(enc, t, h, ps.take(q + 1)) =~= (d + shown(enc, t, h, ps.take(q))).push(tok(enc, t, ps[q], h)));
}
/// one piece: its ends are places, its token lies on one line, after the token at m
proof fn lemma_tok(enc: PositionEncoding, t: Seq<char>, h: Highlight, p: (int, int), m: int)
    requires 0 <= m <= p.0 < p.1 <= t.len(), forall|x: int| p.0 <= x < p.1 - 1 ==> t[x] != '\n', encode_utf8(t).len() <= u32::MAX
    ensures ({ let e = shown_end(t, p);
        bo(t, p.0) < bo(t, p.1) <= u32::MAX && bo(t, p.0) <= bo(t, e) && is_place(t, bo(t, p.0)) && is_place(t, bo(t, p.1)) && is_place(t, bo(t, e)) && place(t, bo(t, p.0)) == p.0 && place(t, bo(t, p.1)) == p.1
        && (t[p.1 - 1] == '\n' ==> bo(t, p.1) - 1 == bo(t, e)) && encode_scalar('\n' as u32).len() == 1
        && nls(t, e) == nls(t, p.0) && line_start(t, e) == line_start(t, p.0)
        && width(enc, t.subrange(line_start(t, p.0), e)) == width(enc, t.subrange(line_start(t, p.0), p.0)) + width(enc, t.subrange(p.0, e))
        && nls(t, m) <= nls(t, p.0) && (nls(t, m) == nls(t, p.0) ==> width(enc, t.subrange(line_start(t, m), m)) <= width(enc, t.subrange(line_start(t, p.0), p.0))) })
{
    let e = shown_end(t, p);
    lemma_bo(t, p.0, p.1); lemma_place(t, bo(t, p.0), p.0); lemma_place(t, bo(t, p.1), p.1); lemma_bo(t, p.0, e); lemma_bo(t, p.1 - 1, p.1);
    assert(is_place(t, bo(t, p.0)) && is_place(t, bo(t, p.1)) && is_place(t, bo(t, e)));
    assert(encode_scalar('\n' as u32).len() == 1);
    if t[p.1 - 1] == '\n' { assert(t.subrange(p.1 - 1, p.1) =~= Seq::<char>::empty().push(t[p.1 - 1])); lemma_width_push(PositionEncoding::Utf8, Seq::empty(), t[p.1 - 1]); }
    lemma_one_line(t, p.0, e); lemma_nls(t, p.0, p.0); lemma_width_add(enc, t, line_start(t, p.0), p.0, e);
    lemma_nls(t, m, p.0); lemma_nls(t, m, m); if nls(t, m) == nls(t, p.0) { lemma_width(enc, t, line_start(t, p.0), m, p.0); }
}
/// the last token starts at the m-th character
pub open spec fn follows(enc: PositionEncoding, t: Seq<char>, b: SemanticTokensBuilder, m: int) -> bool {
    0 <= m <= t.len() && (b.data@.len() > 0 ==> b.prev_line == nls(t, m) && b.prev_char == width(enc, t.subrange(line_start(t, m), m)))
}
//@rewrite $a . split_at ( $$b ) =>> vx_split_at($a, $b)
/// trusted: `slice::split_at`
#[verifier::external_body]
pub fn vx_split_at<'a>(v: &'a [SemanticToken], k: usize) -> (r: (&'a [SemanticToken], &'a [SemanticToken])) requires k <= v@.len() ensures r.0@ == v@.take(k as int), r.1@ == v@.skip(k as int) { v.split_at(k) }
/// trusted: `a.iter().zip(b.iter()).take_while(f).count()`, and the same from the end
#[verifier::external_body]
pub fn vx_same<F: Fn(&SemanticToken, &SemanticToken) -> bool>(a: &[SemanticToken], b: &[SemanticToken], f: F) -> (r: usize)
    requires forall|x: &SemanticToken, y: &SemanticToken| #[trigger] f.requires((x, y))
    ensures r <= a@.len(), r <= b@.len(), forall|i: int| 0 <= i < r ==> f.ensures((&#[trigger] a@[i], &b@[i]), true) { unimplemented!() }
#[verifier::external_body]
pub fn vx_same_rev<F: Fn(&SemanticToken, &SemanticToken) -> bool>(a: &[SemanticToken], b: &[SemanticToken], f: F) -> (r: usize)
    requires forall|x: &SemanticToken, y: &SemanticToken| #[trigger] f.requires((x, y))
    ensures r <= a@.len(), r <= b@.len(), forall|i: int| a@.len() - r <= i < a@.len() ==> f.ensures((&#[trigger] a@[i], &b@[i - a@.len() + b@.len()]), true) { unimplemented!() }
#[verifier::external_body]
pub fn vx_to_vec(v: &[SemanticToken]) -> (r: Vec<SemanticToken>) ensures r@ == v@ { unimplemented!() }
/// the client's list after the edits (`start` and `delete_count` count the five numbers of a token each)
pub open spec fn edited(v: Seq<SemanticToken>, e: SemanticTokensEdit) -> Seq<SemanticToken> {
    v.take((e.start / 5) as int) + (match e.data { Some(d) => d@, None => Seq::<SemanticToken>::empty() }) + v.skip((e.start / 5 + e.delete_count / 5) as int)
}
pub open spec fn may_edit(v: Seq<SemanticToken>, e: SemanticTokensEdit) -> bool { e.start % 5 == 0 && e.delete_count % 5 == 0 && e.start / 5 + e.delete_count / 5 <= v.len() }
//@fn crates/aptos-language-server/src/lsp/semantic_tokens.rs diff_tokens
//@ret r
//@rewrite new . iter ( ) . zip ( old . iter ( ) ) . take_while ( | & ( n , p ) | $$c ) . count ( ) =>> vx_same(new, old, |n: &SemanticToken, p: &SemanticToken| -> (vx_r: bool) ensures vx_r ==> *n == *p { $c })
//@rewrite new . iter ( ) . rev ( ) . zip ( old . iter ( ) . rev ( ) ) . take_while ( | & ( n , p ) | $$c ) . count ( ) =>> vx_same_rev(new, old, |n: &SemanticToken, p: &SemanticToken| -> (vx_r: bool) ensures vx_r ==> *n == *p { $c })
//@rewrite new . into ( ) =>> vx_to_vec(new)
//@spec
    requires old@.len() * 5 <= u32::MAX
    ensures r@.len() <= 1, r@.len() == 0 ==> old@ == new@, r@.len() == 1 ==> may_edit(old@, r@[0]) && edited(old@, r@[0]) == new@
//@in fn begin
    let ghost (o, n) = (old@, new@);
//@after let offset_from_end
    let ghost (o1, n1) = (old@, new@);
    proof {
        let z = offset_from_end as int;
        assert forall|x: int| 0 <= x < z implies #[trigger] n1.skip(n1.len() - z)[x] == o1.skip(o1.len() - z)[x] by { let _ = n1[n1.len() - z + x]; }
        assert(n1.skip(n1.len() - z) =~= o1.skip(o1.len() - z));
    }
//@before if old . is_empty
    proof {
        let z = offset_from_end as int;
        assert(n.skip(offset + new@.len()) =~= n1.skip(n1.len() - z)); assert(o.skip(offset + old@.len()) =~= o1.skip(o1.len() - z));
        assert(o =~= o.take(offset as int) + old@ + o.skip(offset + old@.len()));
        assert(n.take(offset as int) =~= o.take(offset as int)); assert(n.skip(offset + new@.len()) =~= o.skip(offset + old@.len()));
        assert(n =~= o.take(offset as int) + new@ + o.skip(offset + old@.len()));
        assert(old@.len() == 0 && new@.len() == 0 ==> o =~= n);
    }
//@end
}
