use crate::source::*;
use crate::*;
use std::ops::Range;
use syn::parse::Parser;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

fn br<T: Spanned>(t: &T) -> Range<usize> {
    t.span().byte_range()
}

fn parse_fn(text: &str, what: &str) -> R<syn::ImplItemFn> {
    syn::parse_str::<syn::ImplItemFn>(text).map_err(|e| Lost(format!("{what}: cannot parse: {e}\n{text}")))
}

// ---------------------------------------------------------------- visitors

struct LoopInfo {
    header_expr: Option<Range<usize>>, // iterated expression of a `for`
    body: Range<usize>,
    full: Range<usize>,
    tail_blocklike: bool,
    tail: Option<Range<usize>>,
}

fn block_tail(b: &syn::Block) -> (Option<Range<usize>>, bool) {
    match b.stmts.last() {
        Some(syn::Stmt::Expr(e, None)) => {
            let bl = matches!(
                e,
                syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::Block(_) | syn::Expr::Unsafe(_)
                    | syn::Expr::Loop(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_)
            );
            (Some(br(e)), bl)
        }
        _ => (None, false),
    }
}

#[derive(Default)]
struct Collect {
    loops: Vec<LoopInfo>,
    stmts: Vec<Range<usize>>,
    closures: Vec<(Range<usize>, Range<usize>, Range<usize>, bool)>, // (full, header, body, body is block)
    arms: Vec<Range<usize>>,
}

impl<'a> Visit<'a> for Collect {
    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
        let (tail, tb) = block_tail(&e.body);
        self.loops.push(LoopInfo { header_expr: Some(br(&*e.expr)), body: br(&e.body), full: br(e), tail_blocklike: tb, tail });
        visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
        let (tail, tb) = block_tail(&e.body);
        self.loops.push(LoopInfo { header_expr: None, body: br(&e.body), full: br(e), tail_blocklike: tb, tail });
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) {
        let (tail, tb) = block_tail(&e.body);
        self.loops.push(LoopInfo { header_expr: None, body: br(&e.body), full: br(e), tail_blocklike: tb, tail });
        visit::visit_expr_loop(self, e);
    }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        self.stmts.push(br(s));
        visit::visit_stmt(self, s);
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        let header = br(&c.or1_token).start..match &c.output {
            syn::ReturnType::Default => br(&c.or2_token).end,
            syn::ReturnType::Type(_, t) => br(&**t).end,
        };
        self.closures.push((br(c), header, br(&*c.body), matches!(&*c.body, syn::Expr::Block(_))));
        visit::visit_expr_closure(self, c);
    }
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        self.arms.push(br(&*a.body));
        visit::visit_arm(self, a);
    }
}

/// text edits on one string
#[derive(Default)]
struct Edits(Vec<(Range<usize>, String)>);
impl Edits {
    fn ins(&mut self, at: usize, s: impl Into<String>) {
        self.0.push((at..at, s.into()));
    }
    fn rep(&mut self, r: Range<usize>, s: impl Into<String>) {
        self.0.push((r, s.into()));
    }
    fn apply(self, text: &str) -> R<String> {
        // stable: insertions at the same offset keep their order
        let mut v: Vec<(usize, (Range<usize>, String))> = self.0.into_iter().enumerate().collect();
        v.sort_by_key(|(i, (r, _))| (r.start, r.end, *i));
        let mut out = String::new();
        let mut pos = 0;
        for (_, (r, s)) in v {
            if r.start < pos {
                return lost("overlapping edits");
            }
            out.push_str(&text[pos..r.start]);
            out.push_str(&s);
            pos = r.end;
        }
        out.push_str(&text[pos..]);
        Ok(out)
    }
}

fn marker(k: usize) -> String {
    format!("/*@A{k}@*/")
}

fn split_nth(args: &str) -> (String, usize) {
    if let Some(ix) = args.rfind(" #") {
        if let Ok(n) = args[ix + 2..].trim().parse::<usize>() {
            return (args[..ix].trim().to_string(), n);
        }
    }
    (args.trim().to_string(), 0)
}

// ---------------------------------------------------------------- emit

pub fn emit_fn(ctx: &mut Ctx, d: &FnDirective) -> R<String> {
    let loc = locate(ctx, &d.file, &d.path)?;
    if !loc.is_fn {
        return lost(format!("{} is not a fn", d.path));
    }
    let what = format!("{}::{}", d.file, d.path);
    let mut text = loc.text.clone();
    let src_hash = text.len();

    text = strip_inner(&text, &what)?;
    if ctx.trust.is_some() {
        // only the signature and the contract are used here
        let f = parse_fn(&text, &what)?;
        let b = br(&f.block);
        text.replace_range(b, "{ unimplemented!() }");
    }
    if !d.plain { text = pass_for_ref(ctx, text, &what)?; }
    text = crate::source::expand_t(ctx, &text)?;
    if !d.plain {
        text = inline_helpers(ctx, &d.file, &d.path, text, &what)?;
    }

    if !d.plain {
        for (p, r, _) in ctx.pre_rewrites.clone() {
            let (t, n) = rewrite(&text, &p, &r)?;
            text = t;
            if n > 0 { *ctx.report.rewrites.entry(format!("{p} => {r}")).or_default() += n; }
        }
        if ctx.eq_calls { text = pass_eq(ctx, text, &what)?; }
        text = pass_label_block(ctx, text, &what)?;
        text = pass_any_list(ctx, text, &what)?;
    }
    if d.auto { text = pass_captured(ctx, text, &what)?; text = pass_eta(ctx, text, &what)?; text = pass_guards(ctx, text, &what)?; }
    let mut dd = d.clone();
    if d.auto { crate::auto::complete(ctx, &mut dd, &text, &what)?; }
    let d = &dd;
    // --- markers for the annotations
    let mut payloads: Vec<String> = vec![];
    let mut spec_payload = String::new();
    {
        let f = parse_fn(&text, &what)?;
        let mut c = Collect::default();
        c.visit_block(&f.block);
        let toks = tokens(&text)?;
        let mut ed = Edits::default();
        for a in &d.anns {
            if ctx.trust.is_some() && a.kind != "spec" { continue; }
            let res: R<()> = (|| {
                match a.kind.as_str() {
                    "spec" => {
                        spec_payload.push_str(&a.payload);
                    }
                    "loop" => {
                        let mut it = a.args.split_whitespace();
                        let n: usize = it.next().and_then(|s| s.parse().ok()).ok_or(Lost("loop index".into()))?;
                        let l = c.loops.get(n).ok_or(Lost(format!("{what}: loop {n} not found")))?;
                        let k = payloads.len();
                        payloads.push(format!("\n{}", a.payload));
                        ed.ins(l.body.start, marker(k));
                        if it.next() == Some("iter") {
                            let name = it.next().unwrap();
                            let h = l.header_expr.clone().ok_or(Lost(format!("{what}: loop {n} is not a for loop")))?;
                            let k = payloads.len();
                            payloads.push(format!("{name}: "));
                            ed.ins(h.start, marker(k));
                        }
                    }
                    "in" => {
                        let w: Vec<&str> = a.args.split_whitespace().collect();
                        let (body, tail, tb, is_loop) = match w[0] {
                            "fn" => {
                                let (t, tb) = block_tail(&f.block);
                                (br(&f.block), t, tb, false)
                            }
                            "loop" => {
                                let n: usize = w[1].parse().unwrap();
                                let l = c.loops.get(n).ok_or(Lost(format!("{what}: loop {n} not found")))?;
                                (l.body.clone(), l.tail.clone(), l.tail_blocklike, true)
                            }
                            _ => return lost("bad in"),
                        };
                        let k = payloads.len();
                        payloads.push(a.payload.clone());
                        let mut semi = "";
                        let pos = match *w.last().unwrap() {
                            "begin" => body.start + 1,
                            "end" if is_loop && !tb && tail.is_some() && !text[tail.clone().unwrap()].starts_with("break") && !text[tail.clone().unwrap()].starts_with("return") => { semi = ";"; tail.clone().unwrap().end }
                            "end" => match tail {
                                Some(t) if !(is_loop && tb) => t.start,
                                _ => body.end - 1,
                            },
                            _ => return lost("bad in"),
                        };
                        ed.ins(pos, format!("{semi}{}", marker(k)));
                    }
                    "before" | "after" => {
                        // `before loop K` / `after loop K` / pattern
                        let (pat, n) = split_nth(&a.args);
                        let at = if let Some(l) = pat.strip_prefix("@loop ") {
                            let li: usize = l.trim().parse().unwrap();
                            c.loops.get(li).ok_or(Lost(format!("{what}: loop {li} not found")))?.full.start
                        } else if let Some(b) = pat.strip_prefix("@byte ") {
                            b.trim().parse().unwrap()
                        } else {
                            let ms = find_all(&pat, &toks, &text)?;
                            let m = ms.get(n).ok_or(Lost(format!("{what}: pattern `{pat}` #{n} not found")))?;
                            toks[m.start].r.start
                        };
                        let st = c
                            .stmts
                            .iter()
                            .filter(|r| r.start <= at && at < r.end)
                            .min_by_key(|r| r.len())
                            .ok_or(Lost(format!("{what}: no statement for `{pat}`")))?;
                        let k = payloads.len();
                        payloads.push(a.payload.clone());
                        ed.ins(if a.kind == "before" { st.start } else { st.end }, marker(k));
                    }
                    "arm" => {
                        let (pat, n) = split_nth(&a.args);
                        let ms = find_all(&pat, &toks, &text)?;
                        let m = ms.get(n).ok_or(Lost(format!("{what}: pattern `{pat}` #{n} not found")))?;
                        let at = toks[m.start].r.start;
                        let r = c
                            .arms
                            .iter()
                            .filter(|r| r.start <= at && at < r.end)
                            .min_by_key(|r| r.len())
                            .ok_or(Lost(format!("{what}: no arm for `{pat}`")))?;
                        let k = payloads.len();
                        payloads.push(format!("{{ {}", a.payload));
                        payloads.push(" }".into());
                        ed.ins(r.start, marker(k));
                        ed.ins(r.end, marker(k + 1));
                    }
                    "closure" => {
                        let n: usize = a.args.trim().parse().map_err(|_| Lost("closure index".into()))?;
                        let (full, header, body, is_block) =
                            c.closures.get(n).ok_or(Lost(format!("{what}: closure {n} not found")))?;
                        let k = payloads.len();
                        payloads.push(a.payload.trim_end().to_string());
                        ed.ins(header.start, marker(k));
                        // the real header is dropped (its types/ensures are ghost or inferable)
                        ed.rep(header.clone(), "/*@CLH@*/");
                        if !is_block {
                            let k = payloads.len();
                            payloads.push(" { ".into());
                            payloads.push(" } ".into());
                            ed.ins(body.start, marker(k));
                            ed.ins(full.end, marker(k + 1));
                        }
                    }
                    x => return lost(format!("unknown annotation {x}")),
                }
                Ok(())
            })();
            if let Err(e) = res {
                if !a.optional {
                    return Err(e);
                }
            }
        }
        if !d.plain && ctx.trust.is_none() {
            // a loop without a contract is not a refuted obligation: nothing is claimed about it
            let annotated: std::collections::HashSet<usize> = d.anns.iter()
                .filter(|a| a.kind == "loop").filter_map(|a| a.args.split_whitespace().next().and_then(|s| s.parse().ok())).collect();
            if let Some(k) = (0..c.loops.len()).find(|k| !annotated.contains(k)) {
                return lost(format!("{what}: loop {k} has no contract"));
            }
        }
        if ctx.probes && !d.plain && ctx.trust.is_none() {
            let mut add = |pos: usize, ed: &mut Edits, payloads: &mut Vec<String>| {
                let k = payloads.len();
                let p = ctx.report.probes;
                ctx.report.probes += 1;
                payloads.push(format!(" assert(vx_probe({p})); /*@PROBE {p} {}@*/\n", d.path));
                ed.ins(pos, marker(k));
            };
            add(br(&f.block).start + 1, &mut ed, &mut payloads);
            for l in &c.loops {
                add(l.body.start + 1, &mut ed, &mut payloads);
            }
            if !d.no_probe_end {
                if let Some(s) = f.block.stmts.last() {
                    // a const/let tail cannot be diverging here
                    add(br(s).start, &mut ed, &mut payloads);
                }
            }
        }
        text = ed.apply(&text)?;
    }

    // --- rewrites
    // (those that introduce closure contracts come last: their result is no longer plain Rust)
    let apply = |ctx: &mut Ctx, mut text: String, late: bool| -> R<String> {
      for (p, r, opt) in &d.rewrites {
        if r.contains(" ensures ") != late { continue; }
        let (t, n) = rewrite(&text, p, r)?;
        if n == 0 && !opt && ctx.trust.is_none() {
            return lost(format!("{what}: rewrite `{p}` did not apply"));
        }
        text = t;
        if n > 0 { *ctx.report.rewrites.entry(format!("{p} => {r}")).or_default() += n; }
      }
      Ok(text)
    };
    text = apply(ctx, text, false)?;
    for (p, r, _) in ctx.global_rewrites.clone() {
        let (t, n) = rewrite(&text, &p, &r)?;
        text = t;
        if n > 0 { *ctx.report.rewrites.entry(format!("{p} => {r}")).or_default() += n; }
    }
    if !d.plain {
        text = pass_macros(ctx, text, &what)?;
        text = pass_bytestr(ctx, text)?;
        text = pass_let_chain(ctx, text, &what)?;
        text = pass_for_match_continue(ctx, text, &what)?;
        text = pass_loop_value(ctx, text, &what)?;
        text = pass_for_continue(ctx, text, &what)?;
        text = pass_str_match(ctx, text, &what)?;
        if d.strlits { let (t, p) = reveal_strlits(text, payloads.len(), &what)?; text = t; payloads.push(p); }
    }

    // --- `mut self` receivers: `fn f(mut self) { B }` is `fn f(self) { let mut vx_self = self; B[vx_self/self] }`
    if !d.plain {
        let f = parse_fn(&text, &what)?;
        if let Some(syn::FnArg::Receiver(r)) = f.sig.inputs.first() {
            if let (None, Some(m)) = (&r.reference, &r.mutability) {
                let body = br(&f.block);
                let mut ed = Edits::default();
                ed.rep(br(m), "");
                ed.ins(body.start + 1, " let mut vx_self = self; ");
                for t in tokens(&text)? {
                    if t.r.start > body.start && t.r.end < body.end && &text[t.r.clone()] == "self" { ed.rep(t.r, "vx_self"); }
                }
                text = ed.apply(&text)?;
            }
        }
    }
    // --- signature
    {
        let f = parse_fn(&text, &what)?;
        let mut ed = Edits::default();
        // visibility
        let sig_start = br(&f.sig).start;
        ed.rep(0..sig_start, "");
        if let Some(s) = &d.sig {
            ed.rep(sig_start..br(&f.block).start, format!("{s}\n{spec_payload}"));
        } else {
            if let Some(n) = &d.rename {
                ed.rep(br(&f.sig.ident), n.clone());
            }
            if let (Some(ret), syn::ReturnType::Type(_, t)) = (&d.ret, &f.sig.output) {
                let r = br(&**t);
                ed.ins(r.start, format!("({ret}: "));
                ed.ins(r.end, ")");
            }
            ed.ins(br(&f.block).start, format!("\n{spec_payload}"));
        }
        text = ed.apply(&text)?;
    }
    text = apply(ctx, text, true)?;
    // --- payloads
    for (k, p) in payloads.iter().enumerate() {
        let m = marker(k);
        if !text.contains(&m) {
            return lost(format!("{what}: annotation {k} dropped by a rewrite"));
        }
        text = text.replace(&m, p);
    }
    // verifier-only text carried by a rewrite
    text = text.replace("/*@{", "").replace("}@*/", "");
    ctx.report.functions.push(serde_json::json!({
        "file": d.file, "path": d.path, "line": loc.line, "bytes": src_hash,
        "contract": !spec_payload.trim().is_empty(), "proved_in": ctx.trust,
    }));
    let mode = if d.plain { "" } else { "pub " };
    Ok(format!(
        "// @src {} {} line {}\n{}{}{}\n// @endsrc\n",
        d.file, d.path, loc.line, format!("{}{}", if ctx.trust.is_some() { "#[verifier::external_body]\n" } else if ctx.spinoff && !d.plain { "#[verifier::spinoff_prover]\n" } else { "" }, d.attrs), if loc_is_trait_impl(&d.path) { "" } else { mode }, text
    ))
}

fn loc_is_trait_impl(path: &str) -> bool {
    path.contains('@')
}

/// drop inner doc comments / attributes on statements that the verifier does not know
fn strip_inner(text: &str, what: &str) -> R<String> {
    let f = parse_fn(text, what)?;
    struct V(Vec<Range<usize>>);
    impl<'a> Visit<'a> for V {
        fn visit_attribute(&mut self, a: &'a syn::Attribute) {
            self.0.push(br(a));
        }
        // `#[cfg(debug_assertions)]` statements are not part of the shipped (release) program
        fn visit_stmt(&mut self, s: &'a syn::Stmt) {
            let attrs: &[syn::Attribute] = match s {
                syn::Stmt::Local(l) => &l.attrs,
                syn::Stmt::Macro(m) => &m.attrs,
                syn::Stmt::Expr(syn::Expr::Macro(m), _) => &m.attrs,
                syn::Stmt::Expr(syn::Expr::Block(b), _) => &b.attrs,
                _ => &[],
            };
            if attrs.iter().any(|a| a.path().is_ident("cfg") && quote::quote!(#a).to_string().contains("debug_assertions") && !quote::quote!(#a).to_string().contains("not")) {
                self.0.push(br(s));
            } else {
                syn::visit::visit_stmt(self, s);
            }
        }
    }
    let mut v = V(vec![]);
    v.visit_impl_item_fn(&f);
    let mut ed = Edits::default();
    for r in v.0 {
        ed.rep(r, "");
    }
    ed.apply(text)
}

/// `'l: { .. if c { break 'l; } rest }` -> `{ .. if c { } else { rest } }` (the `if` in tail position)
fn pass_label_block(ctx: &mut Ctx, text: String, what: &str) -> R<String> {
    struct V<'a>(Vec<&'a syn::ExprBlock>);
    impl<'a> Visit<'a> for V<'a> {
        fn visit_expr_block(&mut self, b: &'a syn::ExprBlock) { if b.label.is_some() { self.0.push(b); } visit::visit_expr_block(self, b); }
    }
    fn ends_in_break<'a>(b: &'a syn::Block, l: &str) -> Option<&'a syn::Stmt> {
        match b.stmts.last() {
            Some(s @ syn::Stmt::Expr(syn::Expr::Break(k), _)) if k.expr.is_none() && k.label.as_ref().is_some_and(|x| x.ident == l) => Some(s),
            _ => None,
        }
    }
    fn tail(b: &syn::Block, l: &str, ed: &mut Edits) {
        for (i, s) in b.stmts.iter().enumerate() {
            let last = i + 1 == b.stmts.len();
            if let syn::Stmt::Expr(syn::Expr::If(e), _) = s {
                if let (Some(k), None) = (ends_in_break(&e.then_branch, l), &e.else_branch) {
                    ed.rep(br(k), "");
                    if !last { ed.ins(br(s).end, " else { "); ed.ins(br(b).end - 1, " } "); }
                } else if last {
                    tail(&e.then_branch, l, ed);
                    if let Some((_, x)) = &e.else_branch { if let syn::Expr::Block(x) = &**x { tail(&x.block, l, ed); } }
                }
            } else if last {
                if let syn::Stmt::Expr(syn::Expr::Break(k), _) = s { if k.label.as_ref().is_some_and(|x| x.ident == l) { ed.rep(br(s), ""); } }
            }
        }
    }
    let f = parse_fn(&text, what)?;
    let mut v = V(vec![]);
    v.visit_block(&f.block);
    if v.0.is_empty() { return Ok(text); }
    let mut ed = Edits::default();
    let mut names = vec![];
    for b in v.0 {
        let l = b.label.as_ref().unwrap();
        names.push(l.name.ident.to_string());
        ed.rep(br(l), "");
        tail(&b.block, &l.name.ident.to_string(), &mut ed);
        bump(ctx, "'l: { if c { break 'l } rest } => { if c { } else { rest } }");
    }
    let t = ed.apply(&text)?;
    if names.iter().any(|n| t.contains(&format!("break '{n}"))) { return lost(format!("{what}: break out of a labelled block")); }
    Ok(t)
}

/// `let l = vec![f, g]; .. l.iter().any(|x| x(p))` -> `(f(p) || g(p))`
fn pass_any_list(ctx: &mut Ctx, text: String, what: &str) -> R<String> {
    #[derive(Default)]
    struct V { lets: Vec<(String, Range<usize>, Vec<String>)>, uses: Vec<(String, Range<usize>, String)> }
    impl<'a> Visit<'a> for V {
        fn visit_local(&mut self, l: &'a syn::Local) {
            if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                if let syn::Expr::Macro(m) = &*init.expr {
                    if m.mac.path.is_ident("vec") {
                        let p = syn::punctuated::Punctuated::<syn::Path, syn::Token![,]>::parse_terminated;
                        if let Ok(a) = syn::parse::Parser::parse2(p, m.mac.tokens.clone()) {
                            self.lets.push((i.ident.to_string(), br(l), a.iter().map(|x| x.segments.last().unwrap().ident.to_string()).collect()));
                        }
                    }
                }
            }
            visit::visit_local(self, l);
        }
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            let hit = (|| {
                if m.method != "any" { return None; }
                let syn::Expr::MethodCall(it) = &*m.receiver else { return None };
                if it.method != "iter" { return None; }
                let syn::Expr::Path(l) = &*it.receiver else { return None };
                let syn::Expr::Closure(c) = m.args.first()? else { return None };
                let (Some(syn::Pat::Ident(x)), syn::Expr::Call(k)) = (c.inputs.first(), &*c.body) else { return None };
                let (syn::Expr::Path(f), Some(syn::Expr::Path(a))) = (&*k.func, k.args.first()) else { return None };
                if !f.path.is_ident(&x.ident) || k.args.len() != 1 { return None; }
                Some((l.path.get_ident()?.to_string(), a.path.get_ident()?.to_string()))
            })();
            if let Some((l, a)) = hit { self.uses.push((l, br(m), a)); }
            visit::visit_expr_method_call(self, m);
        }
    }
    let f = parse_fn(&text, what)?;
    let mut v = V::default();
    v.visit_block(&f.block);
    let mut ed = Edits::default();
    for (l, r, fs) in &v.lets {
        // the use which follows it
        let Some(u) = v.uses.iter().filter(|u| u.0 == *l && u.1.start > r.end).min_by_key(|u| u.1.start) else { continue };
        ed.rep(r.clone(), "");
        ed.rep(u.1.clone(), format!("({})", fs.iter().map(|f| format!("{f}({})", u.2)).collect::<Vec<_>>().join(" || ")));
        bump(ctx, "[f, g].iter().any(|x| x(p)) => f(p) || g(p)");
    }
    ed.apply(&text)
}

/// a grammar rule given as a value: `f` -> `|p| f(p)`
fn pass_eta(ctx: &mut Ctx, text: String, what: &str) -> R<String> {
    struct V { fns: Vec<String>, hits: Vec<(Range<usize>, String)> }
    impl V {
        fn args<'a>(&mut self, a: impl Iterator<Item = &'a syn::Expr>) {
            for e in a { if let syn::Expr::Path(x) = e { if let Some(l) = x.path.segments.last() { if self.fns.contains(&l.ident.to_string()) { self.hits.push((br(e), l.ident.to_string())); } } } }
        }
    }
    impl<'a> Visit<'a> for V {
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) { if m.method != "at_ts_fn" { self.args(m.args.iter()); } visit::visit_expr_method_call(self, m); }
        fn visit_expr_call(&mut self, m: &'a syn::ExprCall) { self.args(m.args.iter()); visit::visit_expr_call(self, m); }
    }
    let f = parse_fn(&text, what)?;
    // names bound here are not rules
    struct L(Vec<String>);
    impl<'a> Visit<'a> for L { fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.0.push(p.ident.to_string()); } }
    let mut l = L(vec![]);
    l.visit_impl_item_fn(&f);
    let mut v = V { fns: ctx.auto_fns.iter().map(|f| f.0.clone()).filter(|n| !l.0.contains(n)).collect(), hits: vec![] };
    v.visit_block(&f.block);
    let mut ed = Edits::default();
    for (r, n) in v.hits { let orig = text[r.clone()].to_string(); let _ = n; ed.rep(r, format!("|p| {orig}(p)")); bump(ctx, "f => |p| f(p)"); }
    ed.apply(&text)
}

/// A match with guards over constants: `match e { A | B => x, C if g => y, _ => z }` ->
/// `{ let s = e; if s == A || s == B { x } else if s == C && g { y } else { z } }`
fn pass_guards(ctx: &mut Ctx, mut text: String, what: &str) -> R<String> {
    fn consts(p: &syn::Pat, out: &mut Vec<Range<usize>>) -> bool {
        match p {
            syn::Pat::Ident(i) => { out.push(br(p)); i.subpat.is_none() && i.by_ref.is_none() && i.ident.to_string().chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit()) }
            syn::Pat::Path(_) | syn::Pat::Lit(_) => { out.push(br(p)); true }
            syn::Pat::Or(o) => o.cases.iter().all(|c| consts(c, out)),
            syn::Pat::Paren(x) => consts(&x.pat, out),
            _ => false,
        }
    }
    struct V(Option<(Range<usize>, String)>, String, usize);
    impl<'a> Visit<'a> for V {
        fn visit_expr_match(&mut self, m: &'a syn::ExprMatch) {
            visit::visit_expr_match(self, m);
            if self.0.is_some() || !m.arms.iter().any(|a| a.guard.is_some()) { return; }
            let Some(last) = m.arms.last() else { return };
            if !matches!(last.pat, syn::Pat::Wild(_)) || last.guard.is_some() { return; }
            let s = format!("vx_s{}", self.2);
            let mut out = format!("{{ let {s} = {}; ", &self.1[br(&*m.expr)]);
            for a in &m.arms {
                let body = &self.1[br(&*a.body)];
                let body = if matches!(&*a.body, syn::Expr::Block(b) if b.label.is_none() && b.attrs.is_empty()) { body.to_string() } else { format!("{{ {body} }}") };
                let mut v = vec![];
                if matches!(a.pat, syn::Pat::Wild(_)) {
                    match &a.guard { None => { out.push_str(&body); break; } Some((_, g)) => out.push_str(&format!("if {} {body} else ", &self.1[br(&**g)])) }
                    continue;
                }
                if !consts(&a.pat, &mut v) { return; }
                let c = v.iter().map(|r| format!("{s} == {}", &self.1[r.clone()])).collect::<Vec<_>>().join(" || ");
                match &a.guard { None => out.push_str(&format!("if {c} {body} else ")), Some((_, g)) => out.push_str(&format!("if ({c}) && ({}) {body} else ", &self.1[br(&**g)])) }
            }
            out.push_str(" }");
            self.0 = Some((br(m), out));
        }
    }
    for n in 0.. {
        let f = parse_fn(&text, what)?;
        let mut v = V(None, text.clone(), n);
        v.visit_block(&f.block);
        let Some((r, t)) = v.0 else { break };
        text.replace_range(r, &t);
        bump(ctx, "match e { A if g => x, _ => y } => if e == A && g { x } else { y }");
    }
    Ok(text)
}

/// A local which a closure assigns to: the verifier has no such closures.  The local becomes an
/// arbitrary value and the assignments go (nothing is then known of it, inside or outside).
fn text_is_one(e: &syn::Expr) -> bool { matches!(e, syn::Expr::Lit(l) if matches!(&l.lit, syn::Lit::Int(i) if i.base10_digits() == "1")) }
fn pass_captured(ctx: &mut Ctx, text: String, what: &str) -> R<String> {
    #[derive(Default)]
    struct V { lets: Vec<(String, Range<usize>, Option<String>)>, asg: Vec<(String, Range<usize>, bool, Range<usize>, bool)>, stmts: Vec<Range<usize>>, depth: usize }
    impl<'a> Visit<'a> for V {
        fn visit_stmt(&mut self, s: &'a syn::Stmt) { self.stmts.push(br(s)); visit::visit_stmt(self, s); }
        fn visit_local(&mut self, l: &'a syn::Local) {
            let pat = match &l.pat { syn::Pat::Type(t) => &*t.pat, p => p };
            let ty = match &l.pat { syn::Pat::Type(t) => { let t = &t.ty; Some(quote::quote!(#t).to_string()) } _ => match l.init.as_ref().map(|i| &*i.expr) { Some(syn::Expr::Lit(x)) if matches!(x.lit, syn::Lit::Bool(_)) => Some("bool".into()), _ => None } };
            if let syn::Pat::Ident(i) = pat { if i.mutability.is_some() && self.depth == 0 { self.lets.push((i.ident.to_string(), br(l), ty)); } }
            visit::visit_local(self, l);
        }
        fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) { self.depth += 1; visit::visit_expr_closure(self, c); self.depth -= 1; }
        fn visit_expr_assign(&mut self, a: &'a syn::ExprAssign) {
            if let syn::Expr::Path(p) = &*a.left { if let Some(i) = p.path.get_ident() { self.asg.push((i.to_string(), br(a), self.depth > 0, br(&*a.right), false)); } }
            visit::visit_expr_assign(self, a);
        }
        fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
            if matches!(b.op, syn::BinOp::AddAssign(_) | syn::BinOp::SubAssign(_) | syn::BinOp::BitOrAssign(_)) {
                if let syn::Expr::Path(p) = &*b.left { if let Some(i) = p.path.get_ident() { self.asg.push((i.to_string(), br(b), self.depth > 0, br(&*b.right), !(matches!(b.op, syn::BinOp::BitOrAssign(_)) || matches!(b.op, syn::BinOp::AddAssign(_)) && text_is_one(&*b.right)))); } }
            }
            visit::visit_expr_binary(self, b);
        }
    }
    let f = parse_fn(&text, what)?;
    let mut v = V::default();
    v.visit_block(&f.block);
    let mut ed = Edits::default();
    for (name, r, ty) in &v.lets {
        if !v.asg.iter().any(|a| a.0 == *name && a.2) { continue; }
        let Some(ty) = ty else { return lost(format!("{what}: closure assigns to {name}")) };
        if !["bool", "u32", "usize", "u8", "i32"].contains(&ty.as_str()) { return lost(format!("{what}: closure assigns to {name}: {ty}")); }
        ed.rep(r.clone(), format!("let {name}: {ty} = vx_any_{ty}();"));
        for a in v.asg.iter().filter(|a| a.0 == *name) {
            let st = v.stmts.iter().filter(|s| s.start == a.1.start).min_by_key(|s| s.len()).ok_or(Lost(format!("{what}: assignment to {name}")))?;
            // what is assigned is still worked out; a count of calls cannot exceed the number of tokens (32 bits)
            let c = if a.4 || a.3.len() == 1 && !["u32", "usize", "bool"].contains(&ty.as_str()) { format!("vx_count_{ty}();") } else { String::new() };
            let rhs = &text[a.3.clone()];
            ed.rep(st.clone(), if c.is_empty() && syn::parse_str::<syn::Lit>(rhs).is_ok() { String::new() } else { format!("{{ {c} let _ = {rhs}; }}") });
        }
        bump(ctx, "local assigned by a closure => arbitrary value");
    }
    ed.apply(&text)
}

pub fn emit_item(ctx: &mut Ctx, rest: &str) -> R<String> {
    // FILE PATH [derive(...)] [plain]
    let mut it = rest.splitn(3, ' ');
    let file = it.next().unwrap();
    let path = it.next().ok_or(Lost("item path".into()))?;
    let opts = it.next().unwrap_or("").trim();
    let loc = locate(ctx, file, path)?;
    let mut text = crate::source::expand_t(ctx, &loc.text)?;
    ctx.report.items.push(serde_json::json!({"file": file, "path": path, "line": loc.line}));
    if opts == "raw" {
        return Ok(format!("// @src {file} {path} line {}\n{text}\n// @endsrc\n", loc.line));
    }
    // strip attributes + docs + visibility
    if let Ok(item) = syn::parse_str::<syn::Item>(&text) {
        struct V { attrs: Vec<Range<usize>>, vis: Vec<Range<usize>> }
        impl<'a> Visit<'a> for V {
            fn visit_attribute(&mut self, a: &'a syn::Attribute) {
                self.attrs.push(br(a));
            }
            fn visit_visibility(&mut self, v: &'a syn::Visibility) {
                match v {
                    syn::Visibility::Inherited => {}
                    _ => self.vis.push(br(v)),
                }
            }
        }
        let mut v = V { attrs: vec![], vis: vec![] };
        v.visit_item(&item);
        let mut ed = Edits::default();
        for r in v.attrs { ed.rep(r, ""); }
        for r in v.vis { ed.rep(r, "pub"); }
        // make struct fields public
        if let syn::Item::Struct(s) = &item {
            for f in &s.fields {
                if matches!(f.vis, syn::Visibility::Inherited) {
                    let at = f.ident.as_ref().map(|i| br(i).start).unwrap_or(br(&f.ty).start);
                    ed.ins(at, "pub ");
                }
            }
        }
        let inherited = match &item {
            syn::Item::Struct(s) => matches!(s.vis, syn::Visibility::Inherited),
            syn::Item::Enum(s) => matches!(s.vis, syn::Visibility::Inherited),
            syn::Item::Const(s) => matches!(s.vis, syn::Visibility::Inherited),
            syn::Item::Type(s) => matches!(s.vis, syn::Visibility::Inherited),
            _ => false,
        };
        text = ed.apply(&text)?;
        if inherited { text = format!("pub {}", text.trim_start()); }
    } else if let Ok(_c) = syn::parse_str::<syn::ImplItemConst>(&text) {
        text = text.replacen("pub(crate) ", "pub ", 1);
    }
    for (p, r, _) in ctx.global_rewrites.clone() {
        let (t, n) = rewrite(&text, &p, &r)?;
        text = t;
        if n > 0 { *ctx.report.rewrites.entry(format!("{p} => {r}")).or_default() += n; }
    }
    let der = if opts.starts_with("derive") { format!("#[{opts}]\n") } else { String::new() };
    Ok(format!("// @src {file} {path} line {}\n{der}{}\n// @endsrc\n", loc.line, text.trim()))
}

// ---------------------------------------------------------------- generic passes

fn bump(ctx: &mut Ctx, k: &str) {
    *ctx.report.rewrites.entry(k.to_string()).or_default() += 1;
}

/// `for p in &e` -> `for p in e.iter()`
fn pass_for_ref(ctx: &mut Ctx, text: String, what: &str) -> R<String> {
    struct V(Vec<(Range<usize>, Range<usize>)>);
    impl<'a> Visit<'a> for V {
        fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
            if let syn::Expr::Reference(r) = &*e.expr {
                if r.mutability.is_none() { self.0.push((br(r), br(&*r.expr))); }
            }
            visit::visit_expr_for_loop(self, e);
        }
    }
    let f = parse_fn(&text, what)?;
    let mut v = V(vec![]);
    v.visit_impl_item_fn(&f);
    let mut ed = Edits::default();
    for (full, inner) in v.0 {
        ed.rep(full, format!("{}.iter()", &text[inner]));
        bump(ctx, "for p in &e => for p in e.iter()");
    }
    ed.apply(&text)
}

/// `b"..."` -> `&[..u8]` (same value; the verifier has no byte-string literals)
fn pass_eq(ctx: &mut Ctx, text: String, what: &str) -> R<String> {
    let f = parse_fn(&text, what)?;
    #[derive(Default)]
    struct V(Vec<(Range<usize>, Range<usize>, Range<usize>, bool)>);
    impl<'a> Visit<'a> for V {
        fn visit_expr_binary(&mut self, e: &'a syn::ExprBinary) {
            let ne = match e.op { syn::BinOp::Eq(_) => Some(false), syn::BinOp::Ne(_) => Some(true), _ => None };
            if let Some(ne) = ne { self.0.push((br(&*e.left), br(&e.op), br(&*e.right), ne)); }
            visit::visit_expr_binary(self, e);
        }
    }
    let mut v = V::default();
    v.visit_block(&f.block);
    let mut ed = Edits::default();
    for (l, o, r, ne) in v.0 {
        ed.ins(l.start, if ne { "!vx_eq(&(" } else { "vx_eq(&(" });
        ed.rep(o, "), &(");
        ed.ins(r.end, "))");
        bump(ctx, "a == b => vx_eq(&a, &b)");
    }
    ed.apply(&text)
}
fn pass_bytestr(ctx: &mut Ctx, text: String) -> R<String> {
    let toks = tokens(&text)?;
    let mut ed = Edits::default();
    for t in &toks {
        if t.s.starts_with("b\"") || t.s.starts_with("br") && t.s.contains('"') {
            if let Ok(l) = syn::parse_str::<syn::LitByteStr>(&t.s) {
                let v: Vec<String> = l.value().iter().map(|b| format!("{b}u8")).collect();
                ed.rep(t.r.clone(), format!("&[{}]", v.join(", ")));
                bump(ctx, "byte-string literal => array of the same bytes");
            }
        }
    }
    ed.apply(&text)
}

struct Macros(Vec<(Range<usize>, String, proc_macro2::TokenStream, bool)>);
impl<'a> Visit<'a> for Macros {
    fn visit_stmt_macro(&mut self, m: &'a syn::StmtMacro) {
        let n = path_str(&m.mac.path);
        self.0.push((br(&m.mac), n, m.mac.tokens.clone(), true));
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let n = path_str(&m.path);
        self.0.push((br(m), n, m.tokens.clone(), false));
    }
}
fn path_str(p: &syn::Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

fn pass_macros(ctx: &mut Ctx, text: String, what: &str) -> R<String> {
    let f = parse_fn(&text, what)?;
    let mut v = Macros(vec![]);
    v.visit_impl_item_fn(&f);
    let mut ed = Edits::default();
    for (r, name, ts, _stmt) in v.0 {
        let args = || -> R<Vec<syn::Expr>> {
            let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
            p.parse2(ts.clone())
                .map(|x| x.into_iter().collect())
                .map_err(|e| Lost(format!("{what}: macro {name}: {e}")))
        };
        let src = |e: &syn::Expr| text[br(e)].to_string();
        let last = name.rsplit("::").next().unwrap();
        match last {
            "assert" | "debug_assert" => {
                let a = args()?;
                ed.rep(r, format!("vx_rt_assert({})", src(&a[0])));
                bump(ctx, "assert!/debug_assert!(c) => obligation c");
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = args()?;
                ed.rep(r, format!("vx_rt_assert({} == {})", src(&a[0]), src(&a[1])));
                bump(ctx, "assert_eq!(a, b) => obligation a == b");
            }
            "assert_ne" | "debug_assert_ne" => {
                let a = args()?;
                ed.rep(r, format!("vx_rt_assert({} != {})", src(&a[0]), src(&a[1])));
                bump(ctx, "assert_ne!(a, b) => obligation a != b");
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                ed.rep(r, "vx_panic()".to_string());
                bump(ctx, "panic!/unreachable! => obligation: not reachable");
            }
            "info" | "debug" | "trace" | "warn" | "error" | "eprintln" | "println" => {
                ed.rep(r, "()".to_string());
                bump(ctx, "logging macro => ()");
            }
            "format" => {
                ed.rep(r, "vx_format()".to_string());
                bump(ctx, "format!(..) => an arbitrary string");
            }
            _ => {}
        }
    }
    ed.apply(&text)
}

fn flatten_and<'a>(e: &'a syn::Expr, v: &mut Vec<&'a syn::Expr>) {
    match e {
        syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => {
            flatten_and(&b.left, v);
            flatten_and(&b.right, v);
        }
        e => v.push(e),
    }
}

/// `if a && let P = e && b { T } else { E }` -> nested ifs (E duplicated)
fn pass_let_chain(ctx: &mut Ctx, mut text: String, what: &str) -> R<String> {
    struct V { found: Option<(Range<usize>, Vec<(Range<usize>, bool)>, Range<usize>, Option<Range<usize>>)> }
    impl<'a> Visit<'a> for V {
        fn visit_expr_if(&mut self, e: &'a syn::ExprIf) {
            if self.found.is_none() {
                let mut v = vec![];
                flatten_and(&e.cond, &mut v);
                if v.len() > 1 && v.iter().any(|x| matches!(x, syn::Expr::Let(_))) {
                    self.found = Some((
                        br(e),
                        v.iter().map(|x| (br(*x), matches!(x, syn::Expr::Let(_)))).collect(),
                        br(&e.then_branch),
                        e.else_branch.as_ref().map(|(_, x)| br(&**x)),
                    ));
                    return;
                }
            }
            visit::visit_expr_if(self, e);
        }
    }
    loop {
        let f = parse_fn(&text, what)?;
        let mut v = V { found: None };
        v.visit_block(&f.block);
        let Some((full, conds, then, els)) = v.found else { return Ok(text) };
        bump(ctx, "let-chain => nested if");
        // group consecutive boolean operands
        let mut groups: Vec<String> = vec![];
        let mut prev_bool = false;
        for (r, is_let) in conds {
            let s = &text[r];
            if !is_let && prev_bool {
                let l = groups.last_mut().unwrap();
                l.push_str(" && ");
                l.push_str(s);
            } else {
                groups.push(s.to_string());
            }
            prev_bool = !is_let;
        }
        let els_txt = els.map(|r| text[r].to_string());
        let mut out = text[then].to_string();
        for g in groups.iter().rev() {
            let mut s = format!("if {g} {out}");
            if let Some(e) = &els_txt {
                s.push_str(&format!(" else {e}"));
            }
            out = format!("{{ {s} }}");
        }
        // strip the outermost braces that we added
        let out = out[2..out.len() - 2].to_string();
        text.replace_range(full, &out);
    }
}

/// `let p = loop { .. break v; .. };` -> `let mut vx_out = None; loop { .. { vx_out = Some(v); break; } .. } let p = vx_out.unwrap();`
fn pass_loop_value(ctx: &mut Ctx, mut text: String, what: &str) -> R<String> {
    struct B { found: Vec<(Range<usize>, Range<usize>)> }
    impl<'a> Visit<'a> for B {
        fn visit_expr_for_loop(&mut self, _: &'a syn::ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'a syn::ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a syn::ExprLoop) {}
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
        fn visit_expr_break(&mut self, b: &'a syn::ExprBreak) {
            if let (None, Some(e)) = (&b.label, &b.expr) { self.found.push((br(b), br(&**e))); }
        }
    }
    struct V { found: Option<(Range<usize>, Range<usize>, Range<usize>, Vec<(Range<usize>, Range<usize>)>)> }
    impl<'a> Visit<'a> for V {
        fn visit_local(&mut self, l: &'a syn::Local) {
            visit::visit_local(self, l);
            if self.found.is_some() { return; }
            if let Some(syn::LocalInit { expr, diverge: None, .. }) = &l.init {
                if let syn::Expr::Loop(lp) = &**expr {
                    let mut b = B { found: vec![] };
                    b.visit_block(&lp.body);
                    self.found = Some((br(l), br(&l.pat), br(lp), b.found));
                }
            }
        }
    }
    loop {
        let f = parse_fn(&text, what)?;
        let mut v = V { found: None };
        v.visit_block(&f.block);
        let Some((st, pat, lp, breaks)) = v.found else { return Ok(text) };
        bump(ctx, "value of a loop => variable");
        let mut body = String::new();
        let mut at = lp.start;
        for (b, e) in breaks {
            body += &text[at..b.start];
            body += &format!("{{ vx_out = Some({}); break; }}", &text[e]);
            at = b.end;
        }
        body += &text[at..lp.end];
        let new = format!("let mut vx_out = None; {body} let {} = vx_out.unwrap();", &text[pat]);
        text.replace_range(st, &new);
    }
}

/// in a `for` body: `let p = match e { x => v, y => { A; continue; } }; REST` -> `match e { x => { let p = v; REST } y => { A } }`
fn pass_for_match_continue(ctx: &mut Ctx, mut text: String, what: &str) -> R<String> {
    /// the statements before the `continue` that ends it
    fn leaves(e: &syn::Expr) -> Option<Option<Range<usize>>> {
        match e {
            syn::Expr::Continue(c) if c.label.is_none() => Some(None),
            syn::Expr::Block(b) => match b.block.stmts.last() {
                Some(syn::Stmt::Expr(syn::Expr::Continue(c), _)) if c.label.is_none() => Some(Some(br(&b.block.stmts[0]).start..br(b.block.stmts.last().unwrap()).start)),
                _ => None,
            },
            _ => None,
        }
    }
    struct V<'t> { text: &'t str, found: Option<(Range<usize>, String)> }
    impl<'t> V<'t> {
        fn scan(&mut self, b: &syn::Block) {
            for (k, st) in b.stmts.iter().enumerate() {
                if self.found.is_some() { return; }
                let end = br(b.stmts.last().unwrap()).end;
                match st {
                    syn::Stmt::Local(l) => {
                        let Some(init) = &l.init else { continue };
                        if init.diverge.is_some() { continue; }
                        let syn::Expr::Match(m) = &*init.expr else { continue };
                        if m.arms.iter().filter(|a| leaves(&a.body).is_none()).count() != 1 || m.arms.len() < 2 { continue; }
                        let mut out = format!("match {} {{ ", &self.text[br(&*m.expr)]);
                        for a in &m.arms {
                            let head = &self.text[br(&a.pat).start..br(&a.fat_arrow_token).end];
                            match leaves(&a.body) {
                                None => out += &format!("{head} {{ let {} = {}; {} }} ", &self.text[br(&l.pat)], &self.text[br(&*a.body)], &self.text[br(st).end..end]),
                                Some(None) => out += &format!("{head} {{ }} "),
                                Some(Some(r)) => out += &format!("{head} {{ {} }} ", &self.text[r]),
                            }
                        }
                        self.found = Some((br(st).start..end, out + "}"));
                    }
                    syn::Stmt::Expr(syn::Expr::If(i), _) if k + 1 == b.stmts.len() => {
                        self.scan(&i.then_branch);
                        if let Some((_, e)) = &i.else_branch { if let syn::Expr::Block(eb) = &**e { self.scan(&eb.block); } }
                    }
                    _ => {}
                }
            }
        }
    }
    impl<'a, 't> Visit<'a> for V<'t> {
        fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
            visit::visit_expr_for_loop(self, e);
            if self.found.is_none() { self.scan(&e.body); }
        }
    }
    loop {
        let f = parse_fn(&text, what)?;
        let mut v = V { text: &text, found: None };
        v.visit_block(&f.block);
        let Some((r, new)) = v.found else { return Ok(text) };
        bump(ctx, "continue in match => arms");
        text.replace_range(r, &new);
    }
}

/// in a `for` body: `if c { A; continue; } REST` -> `if c { A; } else { REST }`, `let p = e else { A; continue; }; REST` -> `if let p = e { REST } else { A; }`
fn pass_for_continue(ctx: &mut Ctx, mut text: String, what: &str) -> R<String> {
    fn ends_in_continue(b: &syn::Block) -> Option<Range<usize>> {
        match b.stmts.last() {
            Some(syn::Stmt::Expr(syn::Expr::Continue(c), _)) if c.label.is_none() => b.stmts.last().map(br),
            _ => None,
        }
    }
    type Hit = (Range<usize>, Range<usize>, Option<(Range<usize>, Range<usize>, Range<usize>)>, usize);
    struct V { found: Option<Hit> }
    fn scan(b: &syn::Block, found: &mut Option<Hit>) {
        for (k, st) in b.stmts.iter().enumerate() {
            if found.is_some() { return; }
            let end = br(b.stmts.last().unwrap()).end;
            match st {
                syn::Stmt::Expr(syn::Expr::If(i), _) if i.else_branch.is_none() => {
                    if ends_in_continue(&i.then_branch).is_none() && k + 1 == b.stmts.len() { scan(&i.then_branch, found); }
                    if let Some(c) = ends_in_continue(&i.then_branch) {
                        if k + 1 < b.stmts.len() { *found = Some((br(st), c, None, end)); } else { *found = Some((br(st), c, None, br(st).end)); }
                    }
                }
                syn::Stmt::Local(l) => {
                    if let Some(init) = &l.init {
                        if let Some((_, els)) = &init.diverge {
                            if let syn::Expr::Block(eb) = &**els {
                                if let Some(c) = ends_in_continue(&eb.block) {
                                    *found = Some((br(st), c, Some((br(&l.pat), br(&*init.expr), br(&eb.block))), end));
                                }
                            }
                        }
                    }
                }
                // the `else` block of an earlier rewrite, or a trailing if/else
                syn::Stmt::Expr(syn::Expr::If(i), _) if k + 1 == b.stmts.len() => {
                    scan(&i.then_branch, found);
                    if let Some((_, e)) = &i.else_branch { if let syn::Expr::Block(eb) = &**e { scan(&eb.block, found); } }
                }
                _ => {}
            }
        }
    }
    impl<'a> Visit<'a> for V {
        fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
            visit::visit_expr_for_loop(self, e);
            if self.found.is_none() { scan(&e.body, &mut self.found); }
        }
    }
    loop {
        let f = parse_fn(&text, what)?;
        let mut v = V { found: None };
        v.visit_block(&f.block);
        let Some((st, cont, letelse, end)) = v.found else { return Ok(text) };
        bump(ctx, "continue => else");
        let rest = text[st.end..end].to_string();
        let new = match letelse {
            None => format!("{}{} else {{ {rest} }}", &text[st.start..cont.start], &text[cont.end..st.end]),
            Some((p, e, b)) => format!("if let {} = {} {{ {rest} }} else {}{}", &text[p], &text[e], &text[b.start..cont.start], &text[cont.end..b.end]),
        };
        text.replace_range(st.start..end, &new);
    }
}

/// `match s { "a" | "b" if g => X, _ => Y }` on a plain variable -> `if (vx_str_is(s, "a") || ..) && (g) { X } else { Y }`
fn pass_str_match(ctx: &mut Ctx, mut text: String, what: &str) -> R<String> {
    fn lits(p: &syn::Pat, v: &mut Vec<Range<usize>>) -> bool {
        match p {
            syn::Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_)) => { v.push(br(l)); true }
            syn::Pat::Or(o) => o.cases.iter().all(|c| lits(c, v)),
            syn::Pat::Paren(o) => lits(&o.pat, v),
            _ => false,
        }
    }
    struct V { found: Option<(Range<usize>, String, Vec<(Option<Vec<Range<usize>>>, Option<Range<usize>>, Range<usize>)>)>, bad: Option<String> }
    impl<'a> Visit<'a> for V {
        fn visit_expr_match(&mut self, e: &'a syn::ExprMatch) {
            visit::visit_expr_match(self, e);
            if self.found.is_some() { return; }
            if !e.arms.iter().any(|a| { let mut v = vec![]; lits(&a.pat, &mut v) && !v.is_empty() }) { return; }
            let syn::Expr::Path(p) = &*e.expr else { self.bad = Some("match on strings of a compound expression".into()); return };
            let Some(id) = p.path.get_ident() else { self.bad = Some("match on strings of a path".into()); return };
            let mut arms = vec![];
            for a in &e.arms {
                let mut v = vec![];
                let pats = if matches!(a.pat, syn::Pat::Wild(_)) { None } else if lits(&a.pat, &mut v) { Some(v) } else { self.bad = Some("mixed string patterns".into()); return };
                arms.push((pats, a.guard.as_ref().map(|(_, g)| br(&**g)), br(&*a.body)));
            }
            self.found = Some((br(e), id.to_string(), arms));
        }
    }
    loop {
        let f = parse_fn(&text, what)?;
        let mut v = V { found: None, bad: None };
        v.visit_block(&f.block);
        if let Some(b) = v.bad { return lost(format!("{what}: {b}")); }
        let Some((full, id, arms)) = v.found else { return Ok(text) };
        bump(ctx, "match on string literals => if chain with the same tests in the same order");
        let mut out = String::new();
        let mut closed = false;
        for (pats, guard, body) in arms {
            let mut c = vec![];
            if let Some(p) = pats {
                c.push(format!("({})", p.iter().map(|r| format!("vx_str_is({id}, {})", &text[r.clone()])).collect::<Vec<_>>().join(" || ")));
            }
            if let Some(g) = guard { c.push(format!("({})", &text[g])); }
            let b = &text[body];
            if !out.is_empty() { out.push_str(" else "); }
            if c.is_empty() { out.push_str(&format!("{{ {b} }}")); closed = true; break }
            out.push_str(&format!("if {} {{ {b} }}", c.join(" && ")));
        }
        if !closed { return lost(format!("{what}: match on strings without a catch-all arm")); }
        text.replace_range(full, &out);
    }
}

/// the verifier is told what the string literals of the function consist of
fn reveal_strlits(text: String, k: usize, what: &str) -> R<(String, String)> {
    let f = parse_fn(&text, what)?;
    let mut seen = vec![];
    for t in tokens(&text)? {
        if (t.s.starts_with('"') || t.s.starts_with("r\"") || t.s.starts_with("r#")) && !seen.contains(&t.s) { seen.push(t.s); }
    }
    let at = br(&f.block).start + 1;
    let mut out = text.clone();
    out.insert_str(at, &marker(k));
    Ok((out, format!(" proof {{ {} }}", seen.iter().map(|s| format!("reveal_strlit({s});")).collect::<Vec<_>>().join(" "))))
}

// ---------------------------------------------------------------- helper inlining

/// A call to a function that lives in the same source file, which the unit does not know, is
/// inlined: `{ let p1 = a1; ..; body }`.  Only fns without `return`/`?`/loops-with-labels and with
/// simple identifier parameters are inlined.
fn inline_helpers(ctx: &mut Ctx, file: &str, path: &str, mut text: String, what: &str) -> R<String> {
    let src = read_file(ctx, file)?;
    let ast = syn::parse_file(&src).map_err(|e| Lost(format!("{file}: {e}")))?;
    let self_ty = path.rsplit_once("::").map(|(a, _)| a.rsplit('@').next().unwrap().to_string());
    for _round in 0..8 {
        let f = parse_fn(&text, what)?;
        struct V { calls: Vec<(Range<usize>, String, Option<String>, Vec<Range<usize>>, Option<Range<usize>>)> }
        impl<'a> Visit<'a> for V {
            fn visit_expr_call(&mut self, e: &'a syn::ExprCall) {
                if let syn::Expr::Path(p) = &*e.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let args = e.args.iter().map(|a| br(a)).collect();
                    if segs.len() == 1 {
                        self.calls.push((br(e), segs[0].clone(), None, args, None));
                    } else if segs.len() == 2 {
                        self.calls.push((br(e), segs[1].clone(), Some(segs[0].clone()), args, None));
                    }
                }
                visit::visit_expr_call(self, e);
            }
            fn visit_expr_method_call(&mut self, e: &'a syn::ExprMethodCall) {
                if let syn::Expr::Path(p) = &*e.receiver {
                    if p.path.is_ident("self") {
                        let args = e.args.iter().map(|a| br(a)).collect();
                        self.calls.push((br(e), e.method.to_string(), Some("self".into()), args, Some(br(&*e.receiver))));
                    }
                }
                visit::visit_expr_method_call(self, e);
            }
        }
        let mut v = V { calls: vec![] };
        v.visit_block(&f.block);
        let mut done = true;
        for (range, name, qual, args, recv) in v.calls {
            if ctx.known_fns.contains(&name) || name == f.sig.ident.to_string() {
                continue;
            }
            // find it
            let mut cand: Option<(&syn::Signature, &syn::Block)> = None;
            for it in &ast.items {
                match it {
                    syn::Item::Fn(g) if qual.is_none() && g.sig.ident == name => cand = Some((&g.sig, &g.block)),
                    syn::Item::Impl(im) if qual.is_some() && im.trait_.is_none() => {
                        let tyname = match &*im.self_ty {
                            syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
                            _ => None,
                        };
                        let q = qual.clone().unwrap();
                        let want = if q == "self" || q == "Self" { self_ty.clone() } else { Some(q) };
                        if tyname.is_some() && tyname == want {
                            for ii in &im.items {
                                if let syn::ImplItem::Fn(g) = ii {
                                    if g.sig.ident == name { cand = Some((&g.sig, &g.block)); }
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            let Some((sig, block)) = cand else { continue };
            // suitable?
            struct Bad(bool);
            impl<'a> Visit<'a> for Bad {
                fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true; }
                fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true; }
            }
            let mut b = Bad(false);
            b.visit_block(block);
            let btxt = &src[br(block)];
            if b.0 || !sig.generics.params.is_empty() {
                return lost(format!("{what}: calls {name}, a function without a contract that cannot be inlined"));
            }
            let mut pats: Vec<String> = vec![];
            let mut tys: Vec<String> = vec![];
            let mut vals: Vec<String> = vec![];
            let mut k = 0;
            for inp in &sig.inputs {
                match inp {
                    syn::FnArg::Receiver(_) => {
                        if recv.is_none() {
                            return lost(format!("{what}: call of {name} in path form"));
                        }
                    }
                    syn::FnArg::Typed(t) => {
                        let syn::Pat::Ident(pi) = &*t.pat else {
                            return lost(format!("{what}: parameter pattern of {name}"));
                        };
                        let arg = args.get(k).ok_or(Lost("argument count".into()))?;
                        let a = &text[arg.clone()];
                        if a != pi.ident.to_string() || pi.mutability.is_some() {
                            let mt = if pi.mutability.is_some() { "mut " } else { "" };
                            pats.push(format!("{mt}{}", pi.ident));
                            tys.push(src[br(&*t.ty)].to_string());
                            vals.push(a.to_string());
                        }
                        k += 1;
                    }
                }
            }
            let lets = match pats.len() {
                0 => String::new(),
                1 => format!("let {}: {} = {}; ", pats[0], tys[0], vals[0]),
                _ => format!("let ({}): ({}) = ({}); ", pats.join(", "), tys.join(", "), vals.join(", ")),
            };
            let new = format!("{{ {lets}{btxt} }}");
            text.replace_range(range, &new);
            ctx.report.inlined.push(format!("{file}::{name} into {path}"));
            done = false;
            break;
        }
        if done {
            return Ok(text);
        }
    }
    Ok(text)
}
