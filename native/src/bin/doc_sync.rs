//! Oracle for the document-synchronisation contracts, against the real functions of /repo.
#![allow(dead_code, unused)]
use native::*;
#[path = "../../../build/repo/crates/stdext/src/line_endings.rs"]
mod line_endings;
mod code {
    pub use crate::line_endings::LineEndings;
    include!("../../../build/gen/doc_sync.rs");
}
#[path = "../line_index.rs"]
pub mod line_index;
use code::line_index_rs::{LineIndex, PositionEncoding};
use code::{from_proto, to_proto, utils};
use line_index::{TextSize, WideEncoding};
use lsp_types::*;
use std::collections::HashMap;
use std::sync::Arc;

pub mod lsp_types {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
    pub struct Position { pub line: u32, pub character: u32 }
    impl Position { pub fn new(line: u32, character: u32) -> Self { Position { line, character } } }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
    pub struct Range { pub start: Position, pub end: Position }
    impl Range { pub fn new(start: Position, end: Position) -> Self { Range { start, end } } }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct Uri(pub u32);
    impl std::fmt::Display for Uri { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
    #[derive(Clone, Debug, PartialEq)]
    pub struct TextDocumentContentChangePartial { pub range: Range, #[allow(deprecated)] pub range_length: Option<u32>, pub text: String }
    #[derive(Clone, Debug, PartialEq)]
    pub struct TextDocumentContentChangeWholeDocument { pub text: String }
    #[derive(Clone, Debug, PartialEq)]
    pub enum TextDocumentContentChangeEvent { TextDocumentContentChangePartial(TextDocumentContentChangePartial), TextDocumentContentChangeWholeDocument(TextDocumentContentChangeWholeDocument) }
    #[derive(Clone, Debug, PartialEq, Default)]
    pub struct TextEdit { pub range: Range, pub new_text: String }
    #[derive(Clone, Debug, PartialEq, Default)]
    pub struct InsertReplaceEdit { pub new_text: String, pub insert: Range, pub replace: Range }
    #[derive(Clone, Debug, PartialEq)]
    pub enum CompletionItemTextEdit { TextEdit(TextEdit), InsertReplaceEdit(InsertReplaceEdit) }
    #[derive(Clone, Debug, PartialEq, Default)]
    pub struct CompletionItem { pub text_edit: Option<CompletionItemTextEdit>, pub additional_text_edits: Option<Vec<TextEdit>> }
    #[derive(Clone, Debug)]
    pub struct TextDocumentItem { pub uri: Uri, pub version: i32, pub text: String }
    #[derive(Clone, Debug)]
    pub struct DidOpenTextDocumentParams { pub text_document: TextDocumentItem }
    #[derive(Clone, Debug)]
    pub struct TextDocumentIdentifier { pub uri: Uri }
    #[derive(Clone, Debug)]
    pub struct VersionedTextDocumentIdentifier { pub text_document_identifier: TextDocumentIdentifier, pub version: i32 }
    #[derive(Clone, Debug)]
    pub struct DidChangeTextDocumentParams { pub text_document: VersionedTextDocumentIdentifier, pub content_changes: Vec<TextDocumentContentChangeEvent> }
    #[derive(Clone, Debug)]
    pub struct DidCloseTextDocumentParams { pub text_document: TextDocumentIdentifier }
}
// ---- the server state the handlers work on
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct VfsPath(pub u32);
pub type AbsPathBuf = VfsPath;
impl VfsPath { pub fn as_path(&self) -> Option<&VfsPath> { Some(self) } pub fn to_path_buf(&self) -> VfsPath { *self } }
impl std::fmt::Display for VfsPath { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
#[derive(Default)]
pub struct Vfs { pub files: HashMap<VfsPath, Option<Vec<u8>>>, pub sets: usize }
impl Vfs {
    pub fn set_file_contents(&mut self, p: VfsPath, c: Option<Vec<u8>>) -> bool { self.sets += 1; self.files.insert(p, c); true }
    pub fn file_id(&self, p: &VfsPath) -> Option<(u32, u8)> { if matches!(self.files.get(p), Some(Some(_))) { Some((p.0, 0)) } else { None } }
}
pub struct Handle { pub invalidated: Vec<VfsPath> }
impl Handle { pub fn invalidate(&mut self, p: VfsPath) { self.invalidated.push(p) } }
pub struct Loader { pub handle: Handle }
pub struct Config { pub enc: PositionEncoding }
impl Config { pub fn negotiated_encoding(&self) -> PositionEncoding { self.enc } }
pub struct GlobalState { pub opened_files: code::opened_files::OpenedFiles, pub vfs: parking_lot::RwLock<(Vfs, ())>, pub vfs_loader: Loader, pub config: Config }

// ---- reference: the client's document
fn units(enc: PositionEncoding, s: &str) -> u32 {
    (match enc { PositionEncoding::Utf8 => s.len(), PositionEncoding::Wide(WideEncoding::Utf16) => s.encode_utf16().count(), PositionEncoding::Wide(WideEncoding::Utf32) => s.chars().count() }) as u32
}
fn pos_of(enc: PositionEncoding, t: &str, o: usize) -> Position {
    let pre = &t[..o]; let ls = pre.rfind('\n').map_or(0, |i| i + 1);
    Position { line: pre.matches('\n').count() as u32, character: units(enc, &pre[ls..]) }
}
fn place_of(enc: PositionEncoding, t: &str, p: Position) -> Option<usize> { (0..=t.len()).filter(|&o| t.is_char_boundary(o)).find(|&o| pos_of(enc, t, o) == p) }
type Ev = TextDocumentContentChangeEvent;
fn whole(t: &str) -> Ev { Ev::TextDocumentContentChangeWholeDocument(TextDocumentContentChangeWholeDocument { text: t.into() }) }
fn part(range: Range, t: &str) -> Ev { Ev::TextDocumentContentChangePartial(TextDocumentContentChangePartial { range, range_length: None, text: t.into() }) }
fn client(enc: PositionEncoding, t: &str, v: &[Ev]) -> String {
    let mut t = t.to_string();
    for e in v {
        match e {
            Ev::TextDocumentContentChangeWholeDocument(w) => t = w.text.clone(),
            Ev::TextDocumentContentChangePartial(p) => if let (Some(a), Some(b)) = (place_of(enc, &t, p.range.start), place_of(enc, &t, p.range.end)) { if a <= b { t.replace_range(a..b, &p.text) } },
        }
    }
    t
}
const ENCS: [(&str, PositionEncoding); 3] = [("utf-8", PositionEncoding::Utf8), ("utf-16", PositionEncoding::Wide(WideEncoding::Utf16)), ("utf-32", PositionEncoding::Wide(WideEncoding::Utf32))];
fn gen_text(r: &mut Rng, n: usize) -> String { (0..n).map(|_| *r.pick(&['a', 'b', '\n', '\n', 'é', '€', '𝄞', ' ', '\r'])).collect() }
/// a list of changes the client may send; whole-document changes anywhere, now and then a change that must be ignored
fn gen_changes(r: &mut Rng, enc: PositionEncoding, t: &str, n: usize, bad: bool) -> Vec<Ev> {
    let mut cur = t.to_string(); let mut v = vec![];
    let rev = r.chance(1, 3);
    let mut last = cur.len();
    for _ in 0..n {
        let k = r.below(5); let new = gen_text(r, k);
        if r.chance(1, 9) { let k = r.below(9); let w = gen_text(r, k); v.push(whole(&w)); cur = w; last = cur.len(); continue }
        let bs: Vec<usize> = (0..=cur.len()).filter(|&i| cur.is_char_boundary(i) && (!rev || i <= last)).collect();
        let (mut a, mut b) = (*r.pick(&bs), *r.pick(&bs));
        if a > b { std::mem::swap(&mut a, &mut b) }
        if r.chance(1, 3) { b = a }
        let mut range = Range { start: pos_of(enc, &cur, a), end: pos_of(enc, &cur, b) };
        if bad && r.chance(1, 4) {
            if r.chance(1, 2) { std::mem::swap(&mut range.start, &mut range.end) } else { range.end.line = cur.matches('\n').count() as u32 + 1 + r.below(2) as u32; }
        }
        let e = part(range, &new);
        cur = client(enc, &cur, &[e.clone()]);
        last = a;
        v.push(e);
    }
    v
}
fn index(enc: PositionEncoding, t: &str) -> LineIndex { LineIndex { index: Arc::new(line_index::LineIndex::new(t)), endings: code::LineEndings::Unix, encoding: enc } }
fn check_changes(enc: PositionEncoding, t: &str, v: &[Ev]) -> Result<(), String> {
    let got = utils::apply_document_changes(enc, t, v.to_vec());
    let want = client(enc, t, v);
    if got != want { return Err(format!("the server has {got:?}, the client {want:?}")); }
    Ok(())
}
fn check_positions(enc: PositionEncoding, t: &str) -> Result<(), String> {
    let ix = index(enc, t);
    let bs: Vec<usize> = (0..=t.len()).filter(|&i| t.is_char_boundary(i)).collect();
    for &o in &bs {
        let so = TextSize::from(o as u32);
        let p = to_proto::lsp_position(&ix, so);
        if p != pos_of(enc, t, o) { return Err(format!("offset {o} is sent as {p:?}, is {:?}", pos_of(enc, t, o))); }
        match from_proto::offset(&ix, p) { Ok(q) if q == so => {} q => return Err(format!("{p:?} is read as {q:?}, is {o}")) }
        for &e in &bs {
            let se = TextSize::from(e as u32);
            if e >= o {
                let r = to_proto::lsp_range(&ix, line_index::TextRange::new(so, se));
                if r != Range::new(pos_of(enc, t, o), pos_of(enc, t, e)) { return Err(format!("range {o}..{e} is sent as {r:?}")); }
            }
            let r = from_proto::text_range(&ix, Range::new(pos_of(enc, t, o), pos_of(enc, t, e)));
            match r { Ok(g) if o <= e && g.start() == so && g.end() == se => {} Err(_) if e < o => {} r => return Err(format!("the client's range {o}..{e} is read as {r:?}")) }
        }
    }
    let n = t.matches('\n').count() as u32;
    for l in n + 1..n + 3 { if from_proto::offset(&ix, Position::new(l, 0)).is_ok() { return Err(format!("line {l} does not exist")); } }
    Ok(())
}
fn check_disjoint(c: &CompletionItem, more: &[TextEdit]) -> Result<(), String> {
    let mut rs: Vec<Range> = vec![]; let mut fits = true;
    match &c.text_edit { Some(CompletionItemTextEdit::TextEdit(e)) => rs.push(e.range), Some(CompletionItemTextEdit::InsertReplaceEdit(e)) => { rs.push(e.replace); fits = e.replace.start == e.insert.start && e.insert.start <= e.insert.end && e.insert.end <= e.replace.end; } None => {} }
    rs.extend(c.additional_text_edits.iter().flatten().map(|e| e.range)); rs.extend(more.iter().map(|e| e.range));
    let mut want = fits;
    for i in 0..rs.len() { for j in 0..i { if !(rs[i].end <= rs[j].start || rs[j].end <= rs[i].start) { want = false } } }
    let got = utils::all_edits_are_disjoint(c, more);
    if got != want { return Err(format!("disjoint: got {got}, expected {want}")); }
    Ok(())
}
#[derive(Clone, Debug)]
enum Note { Open(u32, i32, String), Change(u32, i32, Vec<Ev>), Close(u32), Disk(Vec<(u32, Option<String>)>, bool) }
fn check_session(enc: PositionEncoding, notes: &[Note]) -> Result<(), String> {
    let mut s = GlobalState { opened_files: Default::default(), vfs: parking_lot::RwLock::new((Vfs::default(), ())), vfs_loader: Loader { handle: Handle { invalidated: vec![] } }, config: Config { enc } };
    let mut docs: HashMap<u32, (i32, String)> = HashMap::new(); let mut disk: HashMap<u32, Option<Vec<u8>>> = HashMap::new();
    for (i, n) in notes.iter().enumerate() {
        let id = |p: u32| TextDocumentIdentifier { uri: Uri(p) };
        let ok = match n {
            Note::Open(p, v, t) => { if *p != 99 { docs.insert(*p, (*v, t.clone())); disk.insert(*p, Some(t.clone().into_bytes())); }
                code::handlers::handle_did_open_text_document(&mut s, DidOpenTextDocumentParams { text_document: TextDocumentItem { uri: Uri(*p), version: *v, text: t.clone() } }).is_ok() }
            Note::Change(p, v, c) => { if let Some(d) = docs.get_mut(p) { *d = (*v, client(enc, &d.1, c)); disk.insert(*p, Some(d.1.clone().into_bytes())); }
                code::handlers::handle_did_change_text_document(&mut s, DidChangeTextDocumentParams { text_document: VersionedTextDocumentIdentifier { text_document_identifier: id(*p), version: *v }, content_changes: c.clone() }).is_ok() }
            Note::Close(p) => { docs.remove(p); let n = s.vfs_loader.handle.invalidated.len();
                let ok = code::handlers::handle_did_close_text_document(&mut s, DidCloseTextDocumentParams { text_document: id(*p) }).is_ok();
                if *p != 99 && s.vfs_loader.handle.invalidated.get(n) != Some(&VfsPath(*p)) { return Err(format!("step {i}: a closed document is not read from disk again")); }
                ok }
            Note::Disk(fs, changed) => {
                for (p, c) in fs { if !docs.contains_key(p) && (*changed || !matches!(disk.get(p), Some(Some(_)))) { disk.insert(*p, c.clone().map(|c| c.into_bytes())); } }
                s.load(fs.iter().map(|(p, c)| (VfsPath(*p), c.clone().map(|c| c.into_bytes()))).collect(), *changed); true }
        };
        if !ok { return Err(format!("step {i}: handler failed")); }
        let vfs = s.vfs.read();
        for p in 0..4 {
            let got = s.opened_files.get(&VfsPath(p)).map(|d| (d.version, d.data.clone()));
            let want = docs.get(&p).map(|(v, t)| (*v, t.clone().into_bytes()));
            if got != want || s.opened_files.contains(&VfsPath(p)) != want.is_some() { return Err(format!("after step {i} document {p} is {got:?}, the client has {want:?}")); }
            if vfs.0.files.get(&VfsPath(p)) != disk.get(&p) { return Err(format!("after step {i} the analysis sees {:?} for file {p}, expected {:?}", vfs.0.files.get(&VfsPath(p)), disk.get(&p))); }
        }
    }
    Ok(())
}
fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    let mut run = Run::from_args();
    match mode.as_str() {
        "changes" => {
            let t = "ab\n€c\n𝄞d\n";
            let bs: Vec<usize> = (0..=t.len()).filter(|&i| t.is_char_boundary(i)).collect();
            for (en, enc) in ENCS { for &a in &bs { for &b in &bs { for new in ["", "x", "é\n", "\n\n"] {
                let v = vec![part(Range::new(pos_of(enc, t, a), pos_of(enc, t, b)), new)];
                run.case(&format!("{en} {t:?} {v:?}"), true, || check_changes(enc, t, &v));
            } } } }
            run.exhausted("one change between any two places of a 3-line text with 1, 2 and 4 byte characters, 3 encodings");
            while run.time_left() {
                let (en, enc) = ENCS[run.rng.below(3)];
                let k = run.rng.below(14); let t = gen_text(&mut run.rng, k); let n = run.rng.range(1, 6); let bad = run.rng.chance(1, 2);
                let v = gen_changes(&mut run.rng, enc, &t, n, bad);
                run.case(&format!("{en} {t:?} {v:?}"), n > 1, || check_changes(enc, &t, &v));
            }
        }
        "positions" => {
            for n in 0..=4 { words(5, n, |w| {
                let t: String = w.iter().map(|&i| ['a', '\n', 'é', '𝄞', '\r'][i]).collect();
                for (en, enc) in ENCS { run.case(&format!("{en} {t:?}"), n > 0, || check_positions(enc, &t)); }
                !run.failed()
            }); }
            run.exhausted("every text of up to 4 characters over {a, LF, é, 𝄞, CR}, every offset and range, 3 encodings");
            while run.time_left() {
                let (en, enc) = ENCS[run.rng.below(3)]; let k = run.rng.below(30); let t = gen_text(&mut run.rng, k);
                run.case(&format!("{en} {t:?}"), true, || check_positions(enc, &t));
            }
        }
        "disjoint" => {
            while run.time_left() {
                let r = &mut run.rng;
                let mut range = |r: &mut Rng| { let mut p = [Position::new(r.below(3) as u32, r.below(4) as u32), Position::new(r.below(3) as u32, r.below(4) as u32)]; p.sort(); Range::new(p[0], p[1]) };
                let text_edit = match r.below(3) { 0 => None, 1 => Some(CompletionItemTextEdit::TextEdit(TextEdit { range: range(r), new_text: "x".into() })),
                    _ => { let replace = range(r); let mut insert = replace; if r.chance(1, 2) { insert.end = insert.start } else if r.chance(1, 2) { insert = range(r) } Some(CompletionItemTextEdit::InsertReplaceEdit(InsertReplaceEdit { new_text: "y".into(), insert, replace })) } };
                let mut es = |r: &mut Rng| { let n = r.below(4); (0..n).map(|_| TextEdit { range: { let g = range(r); if r.chance(1, 2) { Range::new(g.start, g.start) } else { g } }, new_text: "z".into() }).collect::<Vec<_>>() };
                let additional_text_edits = if r.chance(1, 3) { None } else { Some(es(r)) };
                let more = es(r);
                let c = CompletionItem { text_edit, additional_text_edits };
                run.case(&format!("{c:?} {more:?}"), true, || check_disjoint(&c, &more));
            }
        }
        "session" => {
            while run.time_left() {
                let (en, enc) = ENCS[run.rng.below(3)];
                let r = &mut run.rng; let mut notes = vec![]; let mut docs: HashMap<u32, String> = HashMap::new();
                for v in 0..r.range(2, 9) as i32 {
                    let p = r.below(4) as u32; let k = r.below(8); let t = gen_text(r, k);
                    notes.push(match r.below(8) {
                        0 | 1 => { docs.insert(p, t.clone()); Note::Open(p, v, t) }
                        2..=4 => { let d = docs.get(&p).cloned().unwrap_or_default(); let n = r.below(3); let bad = r.chance(1, 4); let c = gen_changes(r, enc, &d, n, bad);
                            if docs.contains_key(&p) { docs.insert(p, client(enc, &d, &c)); } Note::Change(p, v, c) }
                        5 => { docs.remove(&p); Note::Close(p) }
                        6 => Note::Disk((0..r.range(1, 3)).map(|_| { let k = r.below(4); (r.below(4) as u32, if r.chance(1, 4) { None } else { Some(gen_text(r, k)) }) }).collect(), r.chance(1, 2)),
                        _ => if r.chance(1, 2) { Note::Open(99, v, t) } else { Note::Disk(vec![(p, Some(t))], true) },
                    });
                }
                run.case(&format!("{en} {notes:?}"), true, || check_session(enc, &notes));
            }
        }
        m => panic!("mode {m}"),
    }
    run.finish()
}
