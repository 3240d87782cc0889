//! Contracts of grammar rules, read off their signatures.
//!
//! A grammar rule `fn f(p: &mut Parser, ..) -> T` gets the contract: it takes a well-formed parser
//! and (if any) a marker or completed marker of it, and returns a well-formed parser whose earlier
//! events are as they were, with exactly the marker it was given closed.  What its leading
//! `assert!`s and `bump`s ask for is asked of the callers.  Loops and the closures handed to
//! `iterate_to_EOF`, `delimited_with_recovery` and `with_*` get the same contract.
use crate::source::*;
use crate::*;
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

fn br<T: Spanned>(t: &T) -> Range<usize> { t.span().byte_range() }
fn norm_ty(t: &syn::Type) -> String { quote::quote!(#t).to_string().replace(' ', "") }

/// names and return types of all the fns of a file
pub fn fns_of(ctx: &Ctx, file: &str) -> R<Vec<(String, String)>> {
    let src = read_file(ctx, file)?;
    let ast = syn::parse_file(&src).map_err(|e| Lost(format!("{file}: parse error {e}")))?;
    let mut v = vec![];
    for it in &ast.items {
        if let syn::Item::Fn(f) = it {
            v.push((f.sig.ident.to_string(), match &f.sig.output { syn::ReturnType::Default => "()".into(), syn::ReturnType::Type(_, t) => norm_ty(t) }));
        }
    }
    Ok(v)
}

/// the `TokenSet` constants of a file: which kinds they hold does not matter to the contracts
pub fn consts_of(ctx: &Ctx, file: &str, skip: &[String]) -> R<String> {
    let src = read_file(ctx, file)?;
    let ast = syn::parse_file(&src).map_err(|e| Lost(format!("{file}: parse error {e}")))?;
    let mut out = String::new();
    for it in &ast.items {
        if let syn::Item::Const(c) = it {
            if norm_ty(&c.ty) == "TokenSet" && !skip.contains(&c.ident.to_string()) {
                out.push_str(&format!("#[verifier::external_body]\npub exec const {}: TokenSet ensures true {{ TokenSet(0) }}\n", c.ident));
            }
        }
    }
    Ok(out)
}

fn last_seg(e: &syn::Expr) -> Option<String> {
    match e { syn::Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()), _ => None }
}
fn is_p(e: &syn::Expr) -> bool { matches!(e, syn::Expr::Path(x) if x.path.is_ident("p")) }
fn mcall<'a>(e: &'a syn::Expr, name: &str) -> Option<&'a syn::ExprMethodCall> {
    match e { syn::Expr::MethodCall(m) if m.method == name && is_p(&m.receiver) => Some(m), _ => None }
}

/// the condition of a leading `assert!`, about the state at entry
fn cond(e: &syn::Expr, text: &str, what: &str) -> R<String> {
    let src = |e: &syn::Expr| text[br(e)].to_string();
    if let syn::Expr::Binary(b) = e {
        if matches!(b.op, syn::BinOp::And(_)) { return Ok(format!("{} && {}", cond(&b.left, text, what)?, cond(&b.right, text, what)?)); }
        if matches!(b.op, syn::BinOp::Eq(_)) {
            if let Some(m) = mcall(&b.left, "nth") { return Ok(format!("tok_at(old(p).toks(), old(p).at_pos() + {}).kind == {}", src(&m.args[0]), src(&b.right))); }
        }
    }
    if let syn::Expr::Unary(u) = e {
        if matches!(u.op, syn::UnOp::Not(_)) { return Ok(format!("!({})", cond(&u.expr, text, what)?)); }
    }
    if let Some(m) = mcall(e, "at") { return Ok(format!("old(p).at_k({})", src(&m.args[0]))); }
    if let Some(m) = mcall(e, "at_contextual_kw") { return Ok(format!("old(p).kw({}@)", src(&m.args[0]))); }
    if let Some(m) = mcall(e, "at_contextual_kw_ident") { return Ok(format!("old(p).cur() == IDENT && old(p).kw({}@)", src(&m.args[0]))); }
    lost(format!("{what}: leading assertion `{}` has no counterpart in the contracts", src(e)))
}

struct Pre { reqs: Vec<String> }
/// what the rule asks of its caller: leading assertions and the first bump
fn leading(b: &syn::Block, text: &str, what: &str) -> R<Pre> {
    let mut reqs = vec![];
    fn first_bump(e: &syn::Expr, text: &str, reqs: &mut Vec<String>) {
        if let Some(m) = mcall(e, "bump") {
            let r = format!("old(p).at_k({})", &text[br(&m.args[0])]);
            if !reqs.contains(&r) { reqs.push(r); }
        }
    }
    for s in &b.stmts {
        let mac = match s {
            syn::Stmt::Macro(m) => Some(&m.mac),
            syn::Stmt::Expr(syn::Expr::Macro(m), _) => Some(&m.mac),
            _ => None,
        };
        if let Some(m) = mac {
            if m.path.is_ident("assert") {
                let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
                let a = syn::parse::Parser::parse2(p, m.tokens.clone()).map_err(|e| Lost(format!("{what}: {e}")))?;
                reqs.push(cond(&a[0], text, what)?);
            }
            continue;
        }
        match s {
            // `let m = p.start();` / `let m = lhs.precede(p);` and lets which do not use the parser
            syn::Stmt::Local(l) => match &l.init {
                None => continue,
                Some(i) => {
                    if mcall(&i.expr, "start").is_some() { continue; }
                    if let syn::Expr::MethodCall(m) = &*i.expr { if m.method == "precede" { continue; } }
                    if !text[br(&*i.expr)].contains('p') { continue; }
                    if let syn::Expr::Unary(_) | syn::Expr::Path(_) | syn::Expr::Lit(_) | syn::Expr::Struct(_) = &*i.expr { continue; }
                    break;
                }
            },
            syn::Stmt::Expr(e, _) => {
                if mcall(e, "error").is_some() { continue; }
                first_bump(e, text, &mut reqs);
                break;
            }
            _ => break,
        }
    }
    Ok(Pre { reqs })
}

/// the type of a closure body, where it can be read off
fn ty_of(e: &syn::Expr, fns: &[(String, String)]) -> Option<String> {
    match e {
        syn::Expr::Block(b) => ty_of_block(&b.block, fns),
        syn::Expr::Lit(l) => match &l.lit { syn::Lit::Bool(_) => Some("bool".into()), _ => None },
        syn::Expr::If(i) => match &i.else_branch { None => Some("()".into()), Some((_, e)) => ty_of_block(&i.then_branch, fns).or_else(|| ty_of(e, fns)) },
        syn::Expr::Match(m) => m.arms.iter().find_map(|a| ty_of(&a.body, fns)),
        syn::Expr::Call(c) => {
            let n = last_seg(&c.func)?;
            fns.iter().find(|f| f.0 == n).map(|f| f.1.clone())
        }
        syn::Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match n.as_str() {
                "complete" => Some("CompletedMarker".into()),
                "eat" | "at" | "expect" | "at_ts" => Some("bool".into()),
                "error" | "bump" | "error_and_bump" | "error_and_recover" | "iterate_to_EOF" | "bump_remap" => Some("()".into()),
                _ if n.starts_with("with_") || n == "reset_recovery" => match m.args.last()? {
                    syn::Expr::Closure(c) => ty_of(&c.body, fns),
                    e => { let n = last_seg(e)?; fns.iter().find(|f| f.0 == n).map(|f| f.1.clone()) }
                },
                _ => None,
            }
        }
        _ => None,
    }
}
fn ty_of_block(b: &syn::Block, fns: &[(String, String)]) -> Option<String> {
    match b.stmts.last() {
        Some(syn::Stmt::Expr(e, None)) => ty_of(e, fns),
        Some(syn::Stmt::Expr(syn::Expr::Return(_), Some(_))) => None,
        _ => Some("()".into()),
    }
}

#[derive(Default)]
struct Closures { markers: Vec<(String, usize)>, caught: Vec<Option<String>>, ctx: Vec<(usize, String)>, order: Vec<(usize, String, Option<String>)>, loops: Vec<Range<usize>>, cl_ranges: Vec<Range<usize>>, stmts: Vec<Range<usize>>, fns: Vec<(String, String)> }
impl<'a> Visit<'a> for Closures {
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        if is_p(&m.receiver) { for a in &m.args { if let syn::Expr::Closure(c) = a { self.ctx.push((br(c).start, m.method.to_string())); } } }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let Some(n) = last_seg(&c.func) { for a in &c.args { if let syn::Expr::Closure(c) = a { self.ctx.push((br(c).start, n.clone())); } } }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        let s = br(c).start;
        let k = self.ctx.iter().find(|x| x.0 == s).map(|x| x.1.clone()).unwrap_or_default();
        self.order.push((s, k, ty_of(&c.body, &self.fns)));
        self.cl_ranges.push(br(c));
        // a marker started outside and used (so closed) inside
        struct U(Vec<String>);
        impl<'a> Visit<'a> for U { fn visit_expr_path(&mut self, p: &'a syn::ExprPath) { if let Some(i) = p.path.get_ident() { self.0.push(i.to_string()); } } }
        let mut u = U(vec![]); u.visit_expr(&c.body);
        struct L(Vec<String>);
        impl<'a> Visit<'a> for L { fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.0.push(p.ident.to_string()); } }
        let mut l = L(vec![]); l.visit_expr(&c.body);
        let hit = self.markers.iter().rev().find(|m| u.0.contains(&m.0) && !l.0.contains(&m.0)).map(|m| m.0.clone());
        self.caught.push(hit);
        visit::visit_expr_closure(self, c);
    }
    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) { self.loops.push(br(e)); visit::visit_expr_for_loop(self, e); }
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) { self.loops.push(br(e)); visit::visit_expr_while(self, e); }
    fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) { self.loops.push(br(e)); visit::visit_expr_loop(self, e); }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) { self.stmts.push(br(s)); visit::visit_stmt(self, s); }
    fn visit_local(&mut self, l: &'a syn::Local) {
        if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) { if mcall(&init.expr, "start").is_some() { self.markers.push((i.ident.to_string(), br(l).start)); } }
        visit::visit_local(self, l);
    }
}

/// fill in the contract of a grammar rule
pub fn complete(ctx: &Ctx, d: &mut FnDirective, text: &str, what: &str) -> R<()> {
    let f = syn::parse_str::<syn::ImplItemFn>(text).map_err(|e| Lost(format!("{what}: cannot parse: {e}")))?;
    d.ret = d.ret.clone().or(Some("vx_r".into()));
    d.attrs.push_str("#[verifier::exec_allows_no_decreases_clause]\n#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
    // --- signature
    let mut reqs: Vec<String> = vec![];
    let mut enss: Vec<String> = vec![];
    let (mut k, mut n) = ("old(p).ev().len() as int".to_string(), "0int".to_string());
    let mut rule = None; // Some(mutable)
    let mut tracked = 0;
    let mut marker_params = vec![];
    for inp in &f.sig.inputs {
        let syn::FnArg::Typed(t) = inp else { return lost(format!("{what}: not a grammar rule")) };
        let syn::Pat::Ident(id) = &*t.pat else { return lost(format!("{what}: parameter pattern")) };
        let id = id.ident.to_string();
        match norm_ty(&t.ty).as_str() {
            "&mutParser" if id == "p" => { rule = Some(true); reqs.insert(0, "old(p).wf()".into()); }
            "&Parser" if id == "p" => { rule = Some(false); reqs.push("p.wf()".into()); }
            "Marker" => { marker_params.push((id.clone(), 0)); tracked += 1; reqs.push(format!("old(p).fresh({id})")); k = format!("{id}.pos as int"); n = "1int".into(); }
            "Option<Marker>" => { tracked += 1; reqs.push(format!("{id} matches Some(vx_m) ==> old(p).fresh(vx_m)")); k = format!("vx_opt_pos({id}, *old(p))"); n = format!("vx_opt_n({id})"); }
            "CompletedMarker" => { tracked += 1; reqs.push(format!("old(p).done({id})")); k = format!("{id}.pos as int"); }
            _ => {}
        }
    }
    if tracked > 1 { return lost(format!("{what}: takes several markers")); }
    if rule == Some(true) {
        reqs.extend(leading(&f.block, text, what)?.reqs);
        enss.push(format!("gr(*old(p), *final(p), {k}, {n})"));
        match &f.sig.output {
            syn::ReturnType::Type(_, t) => match norm_ty(t).as_str() {
                "CompletedMarker" | "Option<CompletedMarker>" | "(CompletedMarker,BlockLike)" | "Option<(CompletedMarker,BlockLike)>" =>
                    enss.push(format!("vx_r.vx_ok(*final(p), {k})")),
                "bool" | "Vec<CompletedMarker>" => {}
                x if x.contains("Marker") && !d.anns.iter().any(|a| a.kind == "spec" && a.args == "only") => return lost(format!("{what}: returns {x}")),
                _ => {}
            },
            _ => {}
        }
    }
    let mut whole = false;
    for a in d.anns.iter().filter(|a| a.kind == "spec") {
        if a.args == "only" { whole = true; }
        for l in a.payload.lines() {
            let l = l.trim();
            if let Some(x) = l.strip_prefix("requires ") { reqs.push(x.trim_end_matches(',').into()); }
            else if let Some(x) = l.strip_prefix("ensures ") { enss.push(x.trim_end_matches(',').into()); }
            else if !l.is_empty() && a.args != "only" { return lost(format!("{what}: clause `{l}`")); }
        }
    }
    if !whole {
        d.anns.retain(|a| a.kind != "spec");
        let mut s = String::new();
        if !reqs.is_empty() { s.push_str(&format!("    requires {}\n", reqs.join(", "))); }
        if !enss.is_empty() { s.push_str(&format!("    ensures {}\n", enss.join(", "))); }
        d.anns.push(Ann { kind: "spec".into(), args: String::new(), payload: s, optional: false });
    }
    if ctx.trust.is_some() { return Ok(()); }
    // --- closures and loops
    let has_p = rule == Some(true);
    let mut c = Closures { fns: ctx.auto_fns.clone(), markers: marker_params, ..Default::default() };
    c.visit_block(&f.block);
    let has = |d: &FnDirective, kind: &str, i: usize| d.anns.iter().any(|a| a.kind == kind && a.args.split_whitespace().next() == Some(&i.to_string()));
    // the innermost statement around a place, for a snapshot of the parser just before it
    let mut mark: Vec<(usize, String, String)> = vec![];
    let mut snaps: Vec<(usize, String)> = vec![];
    for (i, (start, kind, ty)) in c.order.iter().enumerate() {
        if has(d, "closure", i) { continue; }
        let h = match kind.as_str() {
            "iterate_to_EOF" | "iterate_to_EOF_rec" => "|p: &mut Parser| -> (r: ControlFlow<()>) requires old(p).wf(), old(p).cur() != EOF ensures rule(*old(p), *final(p))".to_string(),
            "delimited_with_recovery" => "|p: &mut Parser| -> (r: bool) requires old(p).wf() ensures rule(*old(p), *final(p))".to_string(),
            k if k.starts_with("with_") || k == "reset_recovery" => {
                snaps.push((*start, format!("vx_c{i}")));
                let (r, e) = match ty.as_deref() {
                    None => return lost(format!("{what}: type of closure {i}")),
                    Some("()") => (String::new(), ""),
                    Some(t) if t.contains("CompletedMarker") && !t.contains("Vec") => (format!(" -> (r: {t})"), ", r.vx_ok(*final(p), old(p).ev().len() as int)"),
                    Some(t) => (format!(" -> (r: {t})"), ""),
                };
                if let Some(m) = &c.caught[i] {
                    mark.push((*start, format!("vx_m{i}"), m.clone()));
                    format!("|p: &mut Parser|{r} requires (*old(p)).eqv(vx_c{i}) ensures gr(*old(p), *final(p), vx_m{i}, 1int)")
                } else {
                format!("|p: &mut Parser|{r} requires (*old(p)).eqv(vx_c{i}) ensures gr(*old(p), *final(p), old(p).ev().len() as int, 0int){e}")
                }
            }
            _ => return lost(format!("{what}: closure {i} (given to `{kind}`) has no contract")),
        };
        d.anns.push(Ann { kind: "closure".into(), args: i.to_string(), payload: h, optional: false });
    }
    for (i, r) in c.loops.iter().enumerate() {
        if has(d, "loop", i) || !has_p { continue; }
        snaps.push((r.start, format!("vx_l{i}")));
        d.anns.push(Ann { kind: "loop".into(), args: i.to_string(), payload: format!("    invariant p.wf(), gr(vx_l{i}, *p, vx_l{i}.ev().len() as int, 0int)\n"), optional: false });
    }
    for (at, name, m) in mark {
        let c = name.replace("vx_m", "vx_c");
        snaps.iter_mut().filter(|s| s.1 == c).for_each(|s| s.1 = format!("{c} = *p; proof {{ assert({c}.fresh({m})); }} let ghost {c}_"));
        d.anns.push(Ann { kind: "before".into(), args: format!("@byte {at}"), payload: format!(" let ghost {name} = {m}.pos as int;\n"), optional: false });
    }
    for (at, name) in snaps {
        d.anns.push(Ann { kind: "before".into(), args: format!("@byte {at}"), payload: format!(" let ghost {name} = *p;\n"), optional: false });
    }
    if has_p {
        d.anns.insert(0, Ann { kind: "in".into(), args: "fn begin".into(), payload: "    hide(evs); hide(toks_ok); hide(used); hide(tok_at); broadcast use grammar_lemmas;\n".into(), optional: false });
    }
    Ok(())
}
