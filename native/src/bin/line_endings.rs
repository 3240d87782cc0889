//! Oracle for the line-ending contracts, against the real module of /repo.
#[path = "../../../build/repo/crates/stdext/src/line_endings.rs"]
#[allow(dead_code)]
mod line_endings;
use line_endings::LineEndings;
use native::*;

fn to_unix(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    (0..c.len()).filter(|&i| !(c[i] == '\r' && i + 1 < c.len() && c[i + 1] == '\n')).map(|i| c[i]).collect()
}
fn to_dos(s: &str) -> String {
    s.chars().fold(String::new(), |mut a, c| { if c == '\n' { a.push('\r') } a.push(c); a })
}

fn check_read(s: &str) -> Result<(), String> {
    let (t, e) = LineEndings::normalize(s.to_string());
    if std::str::from_utf8(t.as_bytes()).is_err() { return Err("result is not UTF-8".into()); }
    if t != to_unix(s) { return Err(format!("normalize gave {t:?}, expected {:?}", to_unix(s))); }
    let dos = s.contains("\r\n");
    if (e == LineEndings::Dos) != dos { return Err(format!("style {e:?}, but the text {} CRLF", if dos { "has" } else { "has no" })); }
    Ok(())
}
fn check_write(s: &str) -> Result<(), String> {
    let u = LineEndings::Unix.map(s.to_string());
    if u != s { return Err(format!("LF file: {s:?} written as {u:?}")); }
    let d = LineEndings::Dos.map(s.to_string());
    if d != to_dos(s) { return Err(format!("CRLF file: written as {d:?}, expected {:?}", to_dos(s))); }
    let back = LineEndings::normalize(d.clone()).0;
    if back != s { return Err(format!("written {d:?}, read back {back:?}")); }
    // a file that consistently uses one style survives an open/save cycle
    let b = s.as_bytes();
    let pure = (0..b.len()).all(|i| b[i] != b'\n' || (i > 0 && b[i - 1] == b'\r'));
    let lf = !s.contains("\r\n");
    if pure || lf {
        let (t, e) = LineEndings::normalize(s.to_string());
        let w = e.map(t);
        if w != s { return Err(format!("open/save gave {w:?}")); }
    }
    Ok(())
}

fn main() {
    let mut r = Run::from_args();
    let which = std::env::args().nth(1).unwrap_or_default();
    let f: fn(&str) -> Result<(), String> = if which == "write" { check_write } else { check_read };
    let alpha = ['\r', '\n', 'a', 'é', '€', '𝄞', '\u{2028}'];
    let max = if r.thorough { 8 } else { 6 };
    for n in 0..=max {
        words(alpha.len(), n, |w| {
            let s: String = w.iter().map(|&i| alpha[i]).collect();
            r.case(&format!("{s:?}"), s.contains('\n'), || f(&s));
            r.time_left()
        });
        if r.time_left() { r.exhausted(&format!("all texts of {n} characters over CR, LF, and 1- to 4-byte characters")); }
    }
    while r.time_left() {
        let n = if r.rng.chance(1, 20) { r.rng.below(5000) } else { r.rng.below(80) };
        let dens = r.rng.range(1, 4);
        let mut s = String::new();
        for _ in 0..n {
            match r.rng.below(10) {
                x if x < dens => s.push_str("\r\n"),
                x if x < dens + 1 => s.push('\r'),
                x if x < dens + 2 => s.push('\n'),
                7 => s.push(*r.rng.pick(&['é', '€', '𝄞', '\u{85}', '\u{2028}', '\0', '\t'])),
                _ => { for _ in 0..r.rng.below(40) { s.push((b'a' + r.rng.below(26) as u8) as char) } }
            }
        }
        r.case(&format!("{s:?}"), s.contains('\n'), || f(&s));
    }
    r.finish()
}
