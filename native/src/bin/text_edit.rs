//! Oracle for the text-edit contracts, against the real module of /repo.
#[path = "../../../build/repo/crates/ide-db/src/text_edit.rs"]
#[allow(dead_code)]
mod text_edit;
use native::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use syntax::{TextRange, TextSize};
use text_edit::*;

#[derive(Clone, Debug, PartialEq)]
struct C { s: usize, e: usize, new: String }
fn tr(c: &C) -> TextRange { TextRange::new((c.s as u32).into(), (c.e as u32).into()) }
fn compatible(a: &C, b: &C) -> bool { a == b || a.e <= b.s || b.e <= a.s }
/// changes in listed order, equal replacements once
fn norm(v: &[C]) -> Vec<C> {
    let mut w: Vec<C> = v.to_vec();
    w.sort_by(|a, b| (a.s, a.e).cmp(&(b.s, b.e)));
    let mut r: Vec<C> = vec![];
    for c in w { if c.s != c.e && r.last() == Some(&c) { continue } r.push(c) }
    r
}
fn apply_ref(t: &str, v: &[C]) -> String {
    let mut out = String::new(); let mut p = 0;
    for c in norm(v) { out.push_str(&t[p..c.s]); out.push_str(&c.new); p = c.e; }
    out.push_str(&t[p..]); out
}
fn build(v: &[C]) -> Result<TextEdit, ()> {
    catch_unwind(AssertUnwindSafe(|| {
        let mut b = TextEdit::builder();
        for c in v {
            if c.s == c.e { b.insert((c.s as u32).into(), c.new.clone()) } else if c.new.is_empty() { b.delete(tr(c)) } else { b.replace(tr(c), c.new.clone()) }
        }
        b.finish()
    })).map_err(|_| ())
}
fn listed(e: &TextEdit) -> Vec<C> { e.iter().map(|c| C { s: usize::from(c.range.start()), e: usize::from(c.range.end()), new: c.new_text.clone() }).collect() }
fn disjoint(v: &[C]) -> bool { v.windows(2).all(|w| w[0].e <= w[1].s) && v.iter().all(|c| c.s <= c.e) }
fn all_compatible(v: &[C]) -> bool { v.iter().all(|a| v.iter().all(|b| compatible(a, b))) }

fn check_build(t: &str, v: &[C]) -> Result<TextEdit, String> {
    let ok = all_compatible(v);
    let e = match build(v) {
        Err(()) => return Err(if ok { "compatible changes were refused".into() } else { String::new() }),
        Ok(_) if !ok => return Err("overlapping changes were accepted".into()),
        Ok(e) => e,
    };
    let l = listed(&e);
    if !disjoint(&l) { return Err(format!("listed changes overlap or are not in order: {l:?}")); }
    let want = apply_ref(t, v); let got = apply_ref(t, &l);
    if want != got { return Err(format!("the edit means {got:?}, expected {want:?}")); }
    if e.len() != l.len() || e.is_empty() != l.is_empty() { return Err("len/is_empty".into()); }
    Ok(e)
}
fn check_apply(t: &str, v: &[C]) -> Result<(), String> {
    if !all_compatible(v) { return Ok(()) }
    let Ok(e) = build(v) else { return Err("compatible changes were refused".into()) };
    let mut s = t.to_string(); e.apply(&mut s);
    let want = apply_ref(t, &listed(&e));
    if s != want { return Err(format!("applied: {s:?}, expected {want:?}")); }
    for c in e.iter() {
        let mut s = t.to_string(); c.apply(&mut s);
        let (a, z) = (usize::from(c.range.start()), usize::from(c.range.end()));
        if s != format!("{}{}{}", &t[..a], c.new_text, &t[z..]) { return Err(format!("change applied: {s:?}")); }
        let nr = c.new_range();
        if s[nr] != c.new_text { return Err(format!("new_range {nr:?}")); }
    }
    if e.len() == 1 { }
    let i = TextEdit::insert(0.into(), "q".into()); let mut s = t.to_string(); i.apply(&mut s);
    if s != format!("q{t}") { return Err("TextEdit::insert".into()); }
    Ok(())
}
fn check_union(t: &str, v: &[C], w: &[C]) -> Result<(), String> {
    match check_build(t, v) { Err(m) if m.is_empty() => return Ok(()), Err(m) => return Err(m), Ok(_) => {} }
    let (Ok(mut a), Ok(b)) = (build(v), build(w)) else { return Ok(()) };
    let (la, lb) = (listed(&a), listed(&b));
    let comp = la.iter().all(|x| lb.iter().all(|y| compatible(x, y)));
    match a.union(b.clone()) {
        Ok(()) => {
            if !comp { return Err(format!("overlapping edits {la:?} and {lb:?} were merged")); }
            let l = listed(&a);
            if !disjoint(&l) { return Err(format!("merged changes overlap: {l:?}")); }
            let both: Vec<C> = la.iter().chain(&lb).cloned().collect();
            let (want, got) = (apply_ref(t, &both), apply_ref(t, &l));
            if want != got { return Err(format!("the merged edit means {got:?}, expected {want:?}")); }
        }
        Err(o) => {
            if comp { return Err(format!("compatible edits {la:?} and {lb:?} were refused")); }
            if listed(&a) != la || listed(&o) != lb { return Err("a refused merge changed the edits".into()); }
        }
    }
    Ok(())
}
fn check_offset(t: &str, v: &[C]) -> Result<(), String> {
    if !all_compatible(v) { return Ok(()) }
    let Ok(e) = build(v) else { return Err("compatible changes were refused".into()) };
    let l = listed(&e);
    for o in 0..=t.len() {
        let inside = l.iter().any(|c| c.s < o && o < c.e);
        match e.apply_to_offset(TextSize::from(o as u32)) {
            None => if !inside { return Err(format!("offset {o} is in no changed range but was dropped")); },
            Some(p) => {
                if inside { return Err(format!("offset {o} is inside a changed range, mapped to {p:?}")); }
                let want: i64 = o as i64 + l.iter().filter(|c| c.s < o).map(|c| c.new.len() as i64 - (c.e - c.s) as i64).sum::<i64>();
                if u32::from(p) as i64 != want { return Err(format!("offset {o} mapped to {p:?}, expected {want}")); }
            }
        }
    }
    Ok(())
}
fn text(r: &mut Rng, n: usize) -> String { (0..n).map(|_| *r.pick(&['a', 'b', 'c', ' ', '\n', 'é', '€', '𝄞'])).collect() }
fn changes(r: &mut Rng, t: &str, n: usize, safe: bool) -> Vec<C> {
    let bs: Vec<usize> = (0..=t.len()).filter(|&i| t.is_char_boundary(i)).collect();
    let mut v: Vec<C> = vec![];
    for k in 0..n {
        let a = r.below(bs.len()); let b = (a + *r.pick(&[0, 0, 1, 1, 2, 3, 5])).min(bs.len() - 1);
        let new = match r.below(4) { 0 => String::new(), 1 => format!("{k}"), 2 => "é".into(), _ => { let n = r.below(6); text(r, n) } };
        let mut c = C { s: bs[a], e: bs[b], new };
        if !v.is_empty() && r.chance(1, 5) { c = r.pick(&v).clone(); }
        if !v.is_empty() && r.chance(1, 4) { c.s = r.pick(&v).e; c.e = c.e.max(c.s); }
        if safe && !v.iter().all(|x| compatible(x, &c)) { continue }
        v.push(c);
    }
    v
}
fn main() {
    let mut r = Run::from_args();
    let mode = std::env::args().nth(1).unwrap_or_default();
    let go = |r: &mut Run, t: &str, v: &[C], w: &[C]| {
        let nt = v.len() + w.len() > 0;
        match mode.as_str() {
            "apply" => r.case(&format!("{t:?} {v:?}"), nt, || check_apply(t, v)),
            "build" => r.case(&format!("{t:?} {v:?} {w:?}"), nt, || check_union(t, v, w)),
            _ => r.case(&format!("{t:?} {v:?}"), nt, || check_offset(t, v)),
        }
    };
    // all pairs of changes on a short text
    let t = "aé€b";
    let bs = [0usize, 1, 3, 6, 7];
    let mut all = vec![];
    for i in 0..5 { for j in i..5 { for new in ["", "x", "é"] { all.push(C { s: bs[i], e: bs[j], new: new.into() }); } } }
    for a in &all { for b in &all {
        go(&mut r, t, &[a.clone(), b.clone()], &[]);
        if mode == "build" { go(&mut r, t, &[a.clone()], &[b.clone()]); }
        if !r.time_left() { break }
    } }
    if r.time_left() { r.exhausted("all pairs of changes on one text of five character boundaries, three replacement texts"); }
    while r.time_left() {
        let big = r.rng.chance(1, 10);
        let n = r.rng.below(if big { 200 } else { 12 });
        let t = text(&mut r.rng, n);
        let safe = !r.rng.chance(1, 4);
        let k = if r.rng.chance(1, 8) { r.rng.range(17, 60) } else { r.rng.below(8) };
        let v = changes(&mut r.rng, &t, k, safe);
        let k = r.rng.below(5);
        let mut w = if mode == "build" { changes(&mut r.rng, &t, k, true) } else { vec![] };
        if r.rng.chance(1, 3) { w.retain(|c| v.iter().all(|x| compatible(x, c))); }
        go(&mut r, &t, &v, &w);
    }
    r.finish()
}
