//! vx - mechanical extraction of functions/items from /repo into Verus units.
//!
//! usage: vx gen <template> -o <out.rs> [--repo DIR] [--report FILE] [--probes]
//!
//! exit 0: extracted; exit 3: an anchor/annotation could not be attached (message on stderr).
mod auto;
mod passes;
mod source;

use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

pub struct Lost(pub String);
pub type R<T> = Result<T, Lost>;
pub fn lost<T>(s: impl Into<String>) -> R<T> {
    Err(Lost(s.into()))
}

#[derive(Default)]
pub struct Report {
    pub functions: Vec<serde_json::Value>,
    pub items: Vec<serde_json::Value>,
    pub rewrites: BTreeMap<String, usize>,
    pub inlined: Vec<String>,
    pub probes: usize,
}

pub struct Ctx {
    pub repo: PathBuf,
    pub report: Report,
    pub probes: bool,
    pub spinoff: bool,
    pub global_rewrites: Vec<(String, String, bool)>,
    /// names of fns which the template itself defines/extracts (never inlined)
    pub known_fns: Vec<String>,
    /// expansion table of the repo's `T![..]` macro
    pub tmacro: Vec<(String, String)>,
    /// contracts between `//@trust on` and `//@trust off` are proved in another unit
    pub trust: Option<String>,
    /// names and return types of the fns with contracts read off their signatures
    pub auto_fns: Vec<(String, String)>,
    /// rewrites done before annotations are attached
    pub pre_rewrites: Vec<(String, String, bool)>,
    /// `==` is a call of the unit's `vx_eq` (for types whose `==` Verus does not know)
    pub eq_calls: bool,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut template = None;
    let mut out = None;
    let mut repo = std::env::var("VX_REPO").unwrap_or_else(|_| "/repo".to_string());
    let mut report = None;
    let mut probes = false;
    let mut spinoff = false;
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "-o" => { i += 1; out = Some(args[i].clone()); }
            "--repo" => { i += 1; repo = args[i].clone(); }
            "--report" => { i += 1; report = Some(args[i].clone()); }
            "--probes" => probes = true,
            "--spinoff" => spinoff = true,
            s => template = Some(s.to_string()),
        }
        i += 1;
    }
    let template = template.expect("template");
    let mut ctx = Ctx {
        repo: PathBuf::from(repo),
        report: Report::default(),
        probes,
        spinoff,
        global_rewrites: vec![],
        known_fns: vec![],
        tmacro: vec![],
        trust: None,
        auto_fns: vec![],
        pre_rewrites: vec![],
        eq_calls: false,
    };
    let text = match load_template(Path::new(&template)) {
        Ok(t) => t,
        Err(Lost(m)) => { eprintln!("TEMPLATE ERROR: {m}"); std::process::exit(4); }
    };
    match run(&mut ctx, &text) {
        Ok(res) => {
            if let Some(o) = out { std::fs::write(o, res).unwrap(); } else { print!("{res}"); }
            let r = &ctx.report;
            let j = serde_json::json!({
                "functions": r.functions, "items": r.items, "rewrites": r.rewrites,
                "inlined": r.inlined, "probes": r.probes,
            });
            if let Some(p) = report { std::fs::write(p, serde_json::to_string_pretty(&j).unwrap()).unwrap(); }
        }
        Err(Lost(m)) => {
            eprintln!("LOST ANCHOR: {m}");
            std::process::exit(3);
        }
    }
}

fn load_template(p: &Path) -> R<String> {
    let t = std::fs::read_to_string(p).map_err(|e| Lost(format!("{}: {e}", p.display())))?;
    let mut out = String::new();
    for line in t.lines() {
        if let Some(inc) = line.trim().strip_prefix("//@include ") {
            out.push_str(&load_template(&p.parent().unwrap().join(inc.trim()))?);
        } else {
            out.push_str(line);
            out.push('\n');
        }
    }
    Ok(out)
}

/// One annotation attached to an extracted function.
#[derive(Debug, Clone)]
pub struct Ann {
    pub kind: String,  // "spec", "loop", "in", "before", "after", "closure", "sig"
    pub args: String,
    pub payload: String,
    pub optional: bool,
}

#[derive(Debug, Default, Clone)]
pub struct FnDirective {
    pub file: String,
    pub path: String,
    pub rename: Option<String>,
    pub ret: Option<String>,
    pub anns: Vec<Ann>,
    pub rewrites: Vec<(String, String, bool)>,
    pub sig: Option<String>,
    pub no_probe_end: bool,
    pub strlits: bool,
    pub plain: bool, // native: no verus-specific passes
    pub attrs: String,
    pub auto: bool,
}

fn parse_rewrite(s: &str, opt: bool) -> R<(String, String, bool)> {
    // `pat` => `repl`
    let parts: Vec<&str> = s.splitn(2, "=>>").collect();
    if parts.len() != 2 {
        return lost(format!("bad rewrite {s}"));
    }
    Ok((parts[0].trim().to_string(), parts[1].trim().to_string(), opt))
}

fn run(ctx: &mut Ctx, text: &str) -> R<String> {
    let mut out = String::new();
    let lines: Vec<&str> = text.lines().collect();
    // collect known fn names
    for l in &lines {
        let t = l.trim();
        if let Some(rest) = t.strip_prefix("//@fn ") {
            let mut it = rest.split_whitespace();
            let _ = it.next();
            if let Some(p) = it.next() {
                ctx.known_fns.push(p.rsplit("::").next().unwrap().to_string());
            }
        } else if let Some(rest) = t.strip_prefix("//@allfns ") {
            let fs = auto::fns_of(ctx, rest.split_whitespace().next().unwrap_or(""))?;
            ctx.known_fns.extend(fs.iter().map(|f| f.0.clone()));
            ctx.auto_fns.extend(fs);
        } else if let Some(rest) = t.strip_prefix("//@known ") {
            ctx.known_fns.extend(rest.split_whitespace().map(|s| s.to_string()));
        } else if !t.starts_with("//") {
            // fn defined in the template text
            let mut s = t;
            while let Some(ix) = s.find("fn ") {
                let rest = &s[ix + 3..];
                let name: String = rest.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                if !name.is_empty() { ctx.known_fns.push(name); }
                s = rest;
            }
        }
    }
    let mut i = 0;
    while i < lines.len() {
        let t = lines[i].trim();
        if let Some(rest) = t.strip_prefix("//@fn ") {
            let mut d = FnDirective::default();
            let toks: Vec<&str> = rest.split_whitespace().collect();
            if toks.len() < 2 { return lost(format!("bad directive {t}")); }
            d.file = toks[0].to_string();
            d.path = toks[1].to_string();
            let mut k = 2;
            while k < toks.len() {
                match toks[k] {
                    "as" => { d.rename = Some(toks[k + 1].to_string()); k += 2; }
                    "noprobe" => { d.no_probe_end = true; k += 1; }
                    "strlits" => { d.strlits = true; k += 1; }
                    "auto" => { d.auto = true; k += 1; }
                    "plain" => { d.plain = true; k += 1; }
                    x => return lost(format!("bad option {x}")),
                }
            }
            i += 1;
            let mut cur: Option<Ann> = None;
            loop {
                if i >= lines.len() { return lost("unterminated //@fn"); }
                let t = lines[i].trim();
                if let Some(dir) = t.strip_prefix("//@") {
                    if let Some(a) = cur.take() { d.anns.push(a); }
                    let (word, args) = match dir.split_once(' ') { Some((a, b)) => (a, b.trim()), None => (dir, "") };
                    let (word, optional) = match word.strip_suffix('?') { Some(w) => (w, true), None => (word, false) };
                    match word {
                        "end" => { i += 1; break; }
                        "ret" => d.ret = Some(args.to_string()),
                        "sig" => d.sig = Some(args.to_string()),
                        "attr" => { d.attrs.push_str(args); d.attrs.push('\n'); }
                        "rewrite" => d.rewrites.push(parse_rewrite(args, optional)?),
                        "spec" | "loop" | "in" | "before" | "after" | "closure" | "arm" => {
                            cur = Some(Ann { kind: word.to_string(), args: args.to_string(), payload: String::new(), optional });
                        }
                        x => return lost(format!("unknown directive {x}")),
                    }
                } else if let Some(a) = cur.as_mut() {
                    a.payload.push_str(lines[i]);
                    a.payload.push('\n');
                }
                i += 1;
            }
            out.push_str(&passes::emit_fn(ctx, &d)?);
            continue;
        }
        if let Some(rest) = t.strip_prefix("//@item ") {
            out.push_str(&passes::emit_item(ctx, rest)?);
            i += 1;
            continue;
        }
        if let Some(rest) = t.strip_prefix("//@trust ") {
            let rest = rest.trim();
            ctx.trust = if rest == "off" { None } else { Some(rest.to_string()) };
            i += 1;
            continue;
        }
        if t.starts_with("//@known ") { i += 1; continue; }
        if t == "//@eqcalls" { ctx.eq_calls = true; i += 1; continue; }
        if let Some(rest) = t.strip_prefix("//@allfns ") {
            // every fn of the file that has no directive of its own
            let toks: Vec<String> = rest.split_whitespace().map(|s| s.to_string()).collect();
            let own: Vec<String> = lines.iter().filter_map(|l| l.trim().strip_prefix("//@fn ")).filter_map(|r| { let mut it = r.split_whitespace(); if it.next() == Some(&toks[0]) { it.next().map(|s| s.to_string()) } else { None } }).collect();
            out.push_str(&auto::consts_of(ctx, &toks[0], &toks[1..])?);
            for (name, _) in auto::fns_of(ctx, &toks[0])? {
                if own.contains(&name) || toks[1..].contains(&name) { continue; }
                let d = FnDirective { file: toks[0].clone(), path: name, auto: true, ..Default::default() };
                out.push_str(&passes::emit_fn(ctx, &d)?);
            }
            i += 1;
            continue;
        }
        if let Some(rest) = t.strip_prefix("//@tmacro ") {
            ctx.tmacro = source::tmacro_table(ctx, rest.trim())?;
            i += 1;
            continue;
        }
        if let Some(rest) = t.strip_prefix("//@pick ") {
            let mut text = source::pick(ctx, rest)?;
            for (p, r, _) in ctx.global_rewrites.clone() {
                let (t, n) = source::rewrite(&text, &p, &r)?;
                text = t;
                if n > 0 { *ctx.report.rewrites.entry(format!("{p} => {r}")).or_default() += n; }
            }
            out.push_str(&text);
            i += 1;
            continue;
        }
        if let Some(rest) = t.strip_prefix("//@rewrite ") {
            ctx.global_rewrites.push(parse_rewrite(rest, true)?);
            i += 1;
            continue;
        }
        if let Some(rest) = t.strip_prefix("//@prewrite ") {
            ctx.pre_rewrites.push(parse_rewrite(rest, true)?);
            i += 1;
            continue;
        }
        if let Some(rest) = t.strip_prefix("//@pin ") {
            // a fact about the repo an assumed contract relies on: FILE must contain these tokens
            let (file, pat) = rest.split_once(' ').ok_or(Lost("bad pin".into()))?;
            let src = source::read_file(ctx, file)?;
            let toks = source::tokens(&src)?;
            if source::find_all(pat, &toks, &src)?.is_empty() { return lost(format!("{file}: `{pat}` not found")); }
            i += 1;
            continue;
        }
        out.push_str(lines[i]);
        out.push('\n');
        i += 1;
    }
    if ctx.probes {
        out = out.replace("/*@VXPROBEDECL@*/", "pub uninterp spec fn vx_probe(k: int) -> bool;");
    }
    Ok(out)
}
