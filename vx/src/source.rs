use crate::*;
use proc_macro2::{TokenStream, TokenTree, Delimiter};
use std::ops::Range;
use syn::spanned::Spanned;

/// A flattened token with its byte range in the text.
#[derive(Clone, Debug)]
pub struct Tok {
    pub s: String,
    pub r: Range<usize>,
    /// for an opening delimiter: index of the closing token
    pub close: Option<usize>,
}

pub fn tokens(text: &str) -> R<Vec<Tok>> {
    let ts: TokenStream = text
        .parse()
        .map_err(|e| Lost(format!("cannot tokenize: {e}")))?;
    let mut v = vec![];
    flatten(ts, &mut v);
    Ok(v)
}

fn flatten(ts: TokenStream, v: &mut Vec<Tok>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                let ix = v.len();
                if !o.is_empty() {
                    v.push(Tok { s: o.into(), r: g.span_open().byte_range(), close: None });
                }
                flatten(g.stream(), v);
                if !o.is_empty() {
                    let cix = v.len();
                    v[ix].close = Some(cix);
                    v.push(Tok { s: c.into(), r: g.span_close().byte_range(), close: None });
                }
            }
            t => {
                let r = t.span().byte_range();
                v.push(Tok { s: t.to_string(), r, close: None });
            }
        }
    }
}

/// All matches of token pattern `pat` in `toks` (outermost-first, non-overlapping).
/// `$x` matches one token tree; `$$x` matches the shortest run of token trees.
pub struct Match {
    pub start: usize,
    pub end: usize, // exclusive token index
    pub caps: Vec<(String, Range<usize>)>, // token index ranges
}

#[derive(Debug, Clone)]
enum P {
    Lit(String),
    One(String),
    Many(String),
}

fn parse_pat(pat: &str) -> R<Vec<P>> {
    let toks = tokens(pat)?;
    let mut v = vec![];
    let mut i = 0;
    while i < toks.len() {
        if toks[i].s == "$" {
            if toks.get(i + 1).map(|t| t.s.as_str()) == Some("$") {
                v.push(P::Many(toks[i + 2].s.clone()));
                i += 3;
            } else {
                v.push(P::One(toks[i + 1].s.clone()));
                i += 2;
            }
        } else {
            v.push(P::Lit(toks[i].s.clone()));
            i += 1;
        }
    }
    Ok(v)
}

fn tree_end(toks: &[Tok], i: usize) -> usize {
    toks[i].close.map(|c| c + 1).unwrap_or(i + 1)
}

fn try_match(
    p: &[P],
    toks: &[Tok],
    i: usize,
    caps: &mut Vec<(String, Range<usize>)>,
    text: &str,
) -> Option<usize> {
    if p.is_empty() {
        return Some(i);
    }
    match &p[0] {
        P::Lit(s) => {
            if i < toks.len() && &toks[i].s == s {
                try_match(&p[1..], toks, i + 1, caps, text)
            } else {
                None
            }
        }
        P::One(n) => {
            if i >= toks.len() || matches!(toks[i].s.as_str(), ")" | "]" | "}") {
                return None;
            }
            let e = tree_end(toks, i);
            // same name must match the same text
            let cur = norm(toks, i..e);
            if let Some((_, r)) = caps.iter().find(|(m, _)| m == n) {
                if norm(toks, r.clone()) != cur {
                    return None;
                }
                return try_match(&p[1..], toks, e, caps, text);
            }
            let l = caps.len();
            caps.push((n.clone(), i..e));
            if let Some(x) = try_match(&p[1..], toks, e, caps, text) {
                return Some(x);
            }
            caps.truncate(l);
            None
        }
        P::Many(n) => {
            let mut e = i;
            loop {
                let l = caps.len();
                caps.push((n.clone(), i..e));
                if let Some(x) = try_match(&p[1..], toks, e, caps, text) {
                    return Some(x);
                }
                caps.truncate(l);
                if e >= toks.len() || matches!(toks[e].s.as_str(), ")" | "]" | "}" | ";") {
                    return None;
                }
                e = tree_end(toks, e);
            }
        }
    }
}

pub fn norm(toks: &[Tok], r: Range<usize>) -> String {
    toks[r].iter().map(|t| t.s.as_str()).collect::<Vec<_>>().join(" ")
}

pub fn find_all(pat: &str, toks: &[Tok], text: &str) -> R<Vec<Match>> {
    let p = parse_pat(pat)?;
    let mut res = vec![];
    let mut i = 0;
    while i < toks.len() {
        let mut caps = vec![];
        if let Some(e) = try_match(&p, toks, i, &mut caps, text) {
            if e > i {
                res.push(Match { start: i, end: e, caps });
                i = e;
                continue;
            }
        }
        i += 1;
    }
    Ok(res)
}

/// Apply `pat => repl` everywhere; returns (new text, count).
pub fn rewrite(text: &str, pat: &str, repl: &str) -> R<(String, usize)> {
    let mut text = text.to_string();
    let mut total = 0;
    // iterate from the last match to the first so that nested ones are handled by re-running
    let mut guard = 0;
    loop {
        let toks = tokens(&text)?;
        let ms = find_all(pat, &toks, &text)?;
        if ms.is_empty() {
            break;
        }
        total += ms.len();
        for m in ms.iter().rev() {
            let range = toks[m.start].r.start..toks[m.end - 1].r.end;
            let mut rep = String::new();
            let rt = repl;
            let mut k = 0;
            let b = rt.as_bytes();
            while k < b.len() {
                if b[k] == b'$' {
                    let name: String = rt[k + 1..]
                        .chars()
                        .take_while(|c| c.is_alphanumeric() || *c == '_')
                        .collect();
                    let r = m.caps.iter().find(|(n, _)| *n == name).map(|(_, r)| r.clone());
                    match r {
                        Some(r) if !r.is_empty() => {
                            // annotation markers around the captured tokens go with them
                            let a = if r.start > m.start { toks[r.start - 1].r.end } else { toks[r.start].r.start };
                            let z = if r.end < m.end && !m.caps.iter().any(|(_, c)| c.start == r.end && !c.is_empty()) { toks[r.end].r.start } else { toks[r.end - 1].r.end };
                            rep.push_str(&text[a..z])
                        }
                        Some(_) => {}
                        None => return lost(format!("unknown capture ${name} in {repl}")),
                    }
                    k += 1 + name.len();
                } else {
                    let ch = rt[k..].chars().next().unwrap();
                    rep.push(ch);
                    k += ch.len_utf8();
                }
            }
            text.replace_range(range, &rep);
        }
        guard += 1;
        if guard > 20 {
            break;
        }
        // a rewrite whose replacement contains its own pattern must not loop
        let rt = repl.replace('$', " ");
        if let (Ok(a), Ok(rtoks)) = (parse_pat(pat), tokens(&rt)) {
            let _ = a;
            if !find_all(pat, &rtoks, &rt)?.is_empty() {
                break;
            }
        }
    }
    Ok((text, total))
}

pub struct Located {
    pub text: String, // item text (without outer attributes/docs)
    pub line: usize,
    pub is_fn: bool,
    pub impl_generics: String,
}

fn ty_last_ident(t: &syn::Type) -> Option<String> {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        syn::Type::Reference(r) => ty_last_ident(&r.elem),
        _ => None,
    }
}

fn strip_attrs_range(attrs: &[syn::Attribute], full: Range<usize>) -> Range<usize> {
    let mut start = full.start;
    for a in attrs {
        if matches!(a.style, syn::AttrStyle::Outer) {
            start = start.max(a.span().byte_range().end);
        }
    }
    start..full.end
}

pub fn read_file(ctx: &Ctx, file: &str) -> R<String> {
    std::fs::read_to_string(ctx.repo.join(file)).map_err(|e| Lost(format!("{file}: {e}")))
}

pub fn locate(ctx: &Ctx, file: &str, path: &str) -> R<Located> {
    let src = read_file(ctx, file)?;
    locate_in(&src, file, path)
}

pub fn locate_in(src: &str, file: &str, path: &str) -> R<Located> {
    let ast = syn::parse_file(src).map_err(|e| Lost(format!("{file}: parse error {e}")))?;
    let mut found = vec![];
    collect_items(&ast.items, path, &mut found);
    if found.is_empty() {
        return lost(format!("{file}: item {path} not found"));
    }
    let (range, is_fn, line, generics) = found.into_iter().next().unwrap();
    Ok(Located {
        text: src[range].trim().to_string(),
        line,
        is_fn,
        impl_generics: generics,
    })
}

type Found = (Range<usize>, bool, usize, String);

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && quote::quote!(#a).to_string().contains("test"))
}

fn collect_items(items: &[syn::Item], path: &str, out: &mut Vec<Found>) {
    let segs: Vec<&str> = path.split("::").collect();
    for it in items {
        match it {
            syn::Item::Mod(m) => {
                if is_test(&m.attrs) { continue; }
                if let Some((_, its)) = &m.content {
                    if segs.len() > 1 && segs[0] == m.ident.to_string() {
                        collect_items(its, &segs[1..].join("::"), out);
                    } else {
                        collect_items(its, path, out);
                    }
                }
            }
            syn::Item::Fn(f) if segs.len() == 1 && f.sig.ident == segs[0] => {
                let r = strip_attrs_range(&f.attrs, it.span().byte_range());
                out.push((r, true, f.sig.span().start().line, String::new()));
            }
            syn::Item::Struct(s) if segs.len() == 1 && s.ident == segs[0] => {
                out.push((strip_attrs_range(&s.attrs, it.span().byte_range()), false, s.ident.span().start().line, String::new()));
            }
            syn::Item::Enum(s) if segs.len() == 1 && s.ident == segs[0] => {
                out.push((strip_attrs_range(&s.attrs, it.span().byte_range()), false, s.ident.span().start().line, String::new()));
            }
            syn::Item::Const(s) if segs.len() == 1 && s.ident == segs[0] => {
                out.push((strip_attrs_range(&s.attrs, it.span().byte_range()), false, s.ident.span().start().line, String::new()));
            }
            syn::Item::Static(s) if segs.len() == 1 && s.ident == segs[0] => {
                out.push((strip_attrs_range(&s.attrs, it.span().byte_range()), false, s.ident.span().start().line, String::new()));
            }
            syn::Item::Type(s) if segs.len() == 1 && s.ident == segs[0] => {
                out.push((strip_attrs_range(&s.attrs, it.span().byte_range()), false, s.ident.span().start().line, String::new()));
            }
            syn::Item::Trait(s) if segs.len() == 1 && s.ident == segs[0] => {
                out.push((strip_attrs_range(&s.attrs, it.span().byte_range()), false, s.ident.span().start().line, String::new()));
            }
            syn::Item::Trait(s) if segs.len() == 2 && s.ident == segs[0] => {
                for ti in &s.items {
                    if let syn::TraitItem::Fn(f) = ti {
                        if f.sig.ident == segs[1] {
                            out.push((strip_attrs_range(&f.attrs, ti.span().byte_range()), true, f.sig.span().start().line, String::new()));
                        }
                    }
                }
            }
            syn::Item::Macro(m) if segs.len() == 1 && m.ident.as_ref().is_some_and(|i| i == segs[0]) => {
                out.push((strip_attrs_range(&m.attrs, it.span().byte_range()), false, m.span().start().line, String::new()));
            }
            syn::Item::Impl(im) if segs.len() == 2 => {
                // Type::fn  or  Trait@Type::fn
                let (tr, ty) = match segs[0].split_once('@') {
                    Some((a, b)) => (Some(a), b),
                    None => (None, segs[0]),
                };
                if ty_last_ident(&im.self_ty).as_deref() != Some(ty) { continue; }
                match (&im.trait_, tr) {
                    (None, None) => {}
                    (Some((_, p, _)), Some(t)) if p.segments.last().is_some_and(|s| s.ident == t) => {}
                    _ => continue,
                }
                for ii in &im.items {
                    match ii {
                        syn::ImplItem::Fn(f) if f.sig.ident == segs[1] => {
                            let r = strip_attrs_range(&f.attrs, ii.span().byte_range());
                            let g = &im.generics;
                            out.push((r, true, f.sig.span().start().line, quote::quote!(#g).to_string()));
                        }
                        syn::ImplItem::Const(c) if c.ident == segs[1] => {
                            let r = strip_attrs_range(&c.attrs, ii.span().byte_range());
                            out.push((r, false, c.ident.span().start().line, String::new()));
                        }
                        _ => {}
                    }
                }
            }
            // whole impl blocks: `impl:Type` or `impl:Trait@Type`
            syn::Item::Impl(im) if segs.len() == 1 && segs[0].starts_with("impl:") => {
                let p = &segs[0][5..];
                let (tr, ty) = match p.split_once('@') { Some((a, b)) => (Some(a), b), None => (None, p) };
                if ty_last_ident(&im.self_ty).as_deref() != Some(ty) { continue; }
                match (&im.trait_, tr) {
                    (None, None) => {}
                    (Some((_, p, _)), Some(t)) if p.segments.last().is_some_and(|s| s.ident == t) => {}
                    _ => continue,
                }
                out.push((strip_attrs_range(&im.attrs, it.span().byte_range()), false, im.span().start().line, String::new()));
            }
            _ => {}
        }
    }
}


fn item_keys(it: &syn::Item) -> (Vec<String>, Vec<syn::Attribute>) {
    match it {
        syn::Item::Fn(f) => (vec![f.sig.ident.to_string()], f.attrs.clone()),
        syn::Item::Struct(f) => (vec![f.ident.to_string()], f.attrs.clone()),
        syn::Item::Enum(f) => (vec![f.ident.to_string()], f.attrs.clone()),
        syn::Item::Const(f) => (vec![f.ident.to_string()], f.attrs.clone()),
        syn::Item::Static(f) => (vec![f.ident.to_string()], f.attrs.clone()),
        syn::Item::Type(f) => (vec![f.ident.to_string()], f.attrs.clone()),
        syn::Item::Trait(f) => (vec![f.ident.to_string()], f.attrs.clone()),
        syn::Item::Mod(f) => (vec![f.ident.to_string()], f.attrs.clone()),
        syn::Item::Use(f) => (vec!["use".into()], f.attrs.clone()),
        syn::Item::Macro(f) => (
            f.ident.iter().map(|i| i.to_string())
                .chain(f.mac.path.segments.last().map(|s| format!("{}!", s.ident))).collect(),
            f.attrs.clone(),
        ),
        syn::Item::Impl(im) => {
            let ty = ty_last_ident(&im.self_ty).unwrap_or_default();
            let mut k = vec![format!("impls:{ty}")];
            match &im.trait_ {
                None => k.push(format!("impl:{ty}")),
                Some((_, p, _)) => k.push(format!("impl:{}@{ty}", p.segments.last().unwrap().ident)),
            }
            (k, im.attrs.clone())
        }
        _ => (vec![], vec![]),
    }
}

/// `FILE only|drop sel; sel; ..`: top-level items of FILE verbatim, without its `use`s and tests.
/// Selectors: a name, `impl:Type`, `impl:Trait@Type`, `impls:Type`, `Type::method`, `use` (keep uses).
pub fn pick(ctx: &Ctx, rest: &str) -> R<String> {
    let mut it = rest.trim().splitn(3, ' ');
    let file = it.next().unwrap();
    let mode = it.next().unwrap_or("drop");
    let sels: Vec<String> = it.next().unwrap_or("").split(';').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
    let src = read_file(ctx, file)?;
    let ast = syn::parse_file(&src).map_err(|e| Lost(format!("{file}: parse error {e}")))?;
    if mode == "closure" { return pick_closure(&src, file, &ast, &sels); }
    if mode == "traitfns" { return pick_traitfns(&src, file, &ast, &sels); }
    let mut out = String::new();
    let mut hit = vec![false; sels.len()];
    for it in &ast.items {
        let (keys, attrs) = item_keys(it);
        if is_test(&attrs) { continue; }
        let mut named = false;
        for (i, s) in sels.iter().enumerate() {
            if keys.contains(s) { hit[i] = true; named = true; }
        }
        let keep = match mode {
            "only" => named,
            _ => !named && (keys != ["use"]),
        };
        if !keep { continue; }
        let full = it.span().byte_range();
        // methods that were deselected / selected
        if let syn::Item::Impl(im) = it {
            let ty = ty_last_ident(&im.self_ty).unwrap_or_default();
            let mut cuts = vec![];
            for ii in &im.items {
                if let syn::ImplItem::Fn(f) = ii {
                    let k = format!("{ty}::{}", f.sig.ident);
                    if let Some(i) = sels.iter().position(|s| *s == k) {
                        if mode == "drop" { hit[i] = true; cuts.push(ii.span().byte_range()); }
                    }
                }
            }
            let mut pos = full.start;
            for c in cuts { out.push_str(&src[pos..c.start]); pos = c.end; }
            out.push_str(&src[pos..full.end]);
        } else {
            out.push_str(&src[full]);
        }
        out.push('\n');
    }
    if mode == "only" {
        if let Some(i) = hit.iter().position(|h| !h) {
            return lost(format!("{file}: `{}` not found", sels[i]));
        }
    }
    Ok(out)
}


/// `traitfns`: the default methods `Trait::method` and the methods of the trait which they mention;
/// `!method` keeps one out.
fn pick_traitfns(src: &str, file: &str, ast: &syn::File, sels: &[String]) -> R<String> {
    let mut out = String::new();
    for s in sels.iter().filter(|s| !s.starts_with('!')) {
        let Some((t, m)) = s.split_once("::") else { return lost(format!("{file}: `{s}` not found")) };
        let mut fns: Vec<(String, String)> = vec![];
        for it in &ast.items {
            if let syn::Item::Trait(tr) = it { if tr.ident == t {
                for x in &tr.items { if let syn::TraitItem::Fn(f) = x {
                    let n = f.sig.ident.to_string();
                    if f.default.is_some() && !sels.iter().any(|s| s.strip_prefix('!') == Some(&n)) { fns.push((n, src[x.span().byte_range()].to_string())); }
                } }
            } }
        }
        let mut on: Vec<String> = vec![m.to_string()];
        if !fns.iter().any(|f| f.0 == m) { return lost(format!("{file}: `{s}` not found")); }
        let mut i = 0;
        while i < on.len() {
            let text = &fns.iter().find(|f| f.0 == on[i]).unwrap().1;
            out.push_str(text); out.push('\n');
            for t in tokens(text)? { if fns.iter().any(|f| f.0 == t.s) && !on.contains(&t.s) { on.push(t.s.clone()); } }
            i += 1;
        }
    }
    Ok(out)
}

/// `closure`: the selected items and everything of the file they mention. Selectors: `name`,
/// `Type::method`, `impls:Type`, `impl:Trait@Type`; `!sel` keeps something out.
fn pick_closure(src: &str, file: &str, ast: &syn::File, sels: &[String]) -> R<String> {
    struct Unit { keys: Vec<String>, ty: Option<String>, name: Option<String>, head: String, text: String, on: bool }
    let mut units: Vec<Unit> = vec![];
    for it in &ast.items {
        let (keys, attrs) = item_keys(it);
        if is_test(&attrs) || keys == ["use"] { continue; }
        let full = it.span().byte_range();
        match it {
            syn::Item::Impl(im) if im.trait_.is_none() => {
                let ty = ty_last_ident(&im.self_ty).unwrap_or_default();
                let head = src[full.start..im.brace_token.span.open().byte_range().end].to_string();
                for ii in &im.items {
                    let name = match ii {
                        syn::ImplItem::Fn(f) => f.sig.ident.to_string(),
                        syn::ImplItem::Const(f) => f.ident.to_string(),
                        _ => continue,
                    };
                    let mut k = keys.clone();
                    k.push(format!("{ty}::{name}"));
                    units.push(Unit { keys: k, ty: Some(ty.clone()), name: Some(name), head: head.clone(), text: src[ii.span().byte_range()].to_string(), on: false });
                }
            }
            _ => {
                let name = match it { syn::Item::Impl(_) => None, _ => keys.first().cloned() };
                units.push(Unit { keys, ty: None, name, head: String::new(), text: src[full].to_string(), on: false });
            }
        }
    }
    let excluded = |u: &Unit| sels.iter().any(|s| s.strip_prefix('!').is_some_and(|s| u.keys.iter().any(|k| k == s)));
    units.retain(|u| !excluded(u));
    for s in sels.iter().filter(|s| !s.starts_with('!')) {
        let mut any = false;
        for u in units.iter_mut() { if u.keys.contains(s) { u.on = true; any = true; } }
        if !any { return lost(format!("{file}: `{s}` not found")); }
    }
    loop {
        let mut idents = std::collections::HashSet::new();
        let mut types = std::collections::HashSet::new();
        for u in units.iter().filter(|u| u.on) {
            for t in tokens(&u.text)? { idents.insert(t.s.clone()); }
            if let Some(t) = &u.ty { types.insert(t.clone()); idents.insert(t.clone()); }
        }
        let mut more = false;
        for u in units.iter_mut().filter(|u| !u.on) {
            let Some(n) = &u.name else { continue };
            let want = match &u.ty {
                Some(t) => idents.contains(n) && (types.contains(t) || idents.contains(t)),
                None => idents.contains(n),
            };
            if want { u.on = true; more = true; }
        }
        if !more { break; }
    }
    let mut out = String::new();
    for u in units.iter().filter(|u| u.on) {
        if u.head.is_empty() { out.push_str(&u.text); out.push('\n'); }
        else { out.push_str(&format!("{}\n{}\n}}\n", u.head, u.text)); }
    }
    Ok(out)
}

/// the `T![..]` table of the generated syntax kinds
pub fn tmacro_table(ctx: &Ctx, file: &str) -> R<Vec<(String, String)>> {
    let src = read_file(ctx, file)?;
    let i = src.find("macro_rules ! T {").or_else(|| src.find("macro_rules! T {")).ok_or(Lost("macro T not found".into()))?;
    let mut out = vec![];
    for part in src[i..].split(";") {
        let _ = part;
    }
    let body = &src[i..];
    let mut rest = &body[body.find('{').unwrap() + 1..];
    while let Some(k) = rest.find("] => {") {
        let head = &rest[..k];
        let a = head.find('[').ok_or(Lost("T table".into()))?;
        let key: String = head[a + 1..].chars().filter(|c| !c.is_whitespace()).collect();
        let after = &rest[k + 6..];
        let e = after.find('}').ok_or(Lost("T table".into()))?;
        let name = after[..e].rsplit("::").next().unwrap().trim().to_string();
        out.push((key, name));
        rest = &after[e + 1..];
    }
    Ok(out)
}

pub fn expand_t(ctx: &Ctx, text: &str) -> R<String> {
    if ctx.tmacro.is_empty() { return Ok(text.to_string()); }
    let toks = tokens(text)?;
    let mut out = text.to_string();
    let mut i = 0;
    let mut edits = vec![];
    while i + 3 < toks.len() {
        if toks[i].s == "T" && toks[i + 1].s == "!" && toks[i + 2].s == "[" {
            let mut depth = 0; let mut j = i + 2;
            loop {
                if toks[j].s == "[" { depth += 1 } else if toks[j].s == "]" { depth -= 1; if depth == 0 { break } }
                j += 1;
                if j >= toks.len() { return lost("T! macro"); }
            }
            let key: String = text[toks[i + 2].r.end..toks[j].r.start].chars().filter(|c| !c.is_whitespace()).collect();
            let name = ctx.tmacro.iter().find(|(k, _)| *k == key).ok_or(Lost(format!("T![{key}] unknown")))?.1.clone();
            edits.push((toks[i].r.start..toks[j].r.end, format!("SyntaxKind::{name}")));
            i = j;
        }
        i += 1;
    }
    for (r, s) in edits.into_iter().rev() { out.replace_range(r, &s); }
    Ok(out)
}
