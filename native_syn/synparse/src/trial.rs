//! A parser driven by a script of operations, to compare a run with an abandoned attempt against one without.
use crate::parse::parser::{CompletedMarker, Marker, Parser};
use crate::{GreenNode, SyntaxError, SyntaxKind};
use std::cell::RefCell;

#[derive(Clone, Debug)]
pub enum Op { Node(Vec<Op>), Dropped(Vec<Op>), Bump, BumpN(u8), Remap, Error, Recover, Precede, Try(Vec<Op>), TryNode(Vec<Op>) }
thread_local! {
    static SCRIPT: RefCell<(Vec<Op>, bool, Vec<String>, String)> = RefCell::new((vec![], false, vec![], String::new()));
}
fn state(p: &Parser) -> String { format!("token {} {:?} {:?}, event {}", p.pos(), p.current(), p.nth(1), p.event_pos()) }
fn run(p: &mut Parser, ops: &[Op], tries: bool, trace: &mut Vec<String>) {
    let mut last: Option<CompletedMarker> = None;
    for o in ops {
        match o {
            Op::Node(v) => { let m = p.start(); run(p, v, tries, trace); last = Some(m.complete(p, SyntaxKind::PAREN_EXPR)); }
            Op::Dropped(v) => { let m = p.start(); run(p, v, tries, trace); m.abandon(p); last = None; }
            Op::Bump => p.bump_any(),
            Op::BumpN(n) => { if !(0..*n as usize).any(|k| p.nth(k) == SyntaxKind::EOF) && glued(p, *n) { p.bump_remap_many(SyntaxKind::ERROR, (*n).into()) } }
            Op::Remap => p.bump_remap(SyntaxKind::IDENT),
            Op::Error => p.error("e"),
            Op::Recover => p.error_and_bump("r"),
            Op::Precede => if let Some(c) = last.take() { let m = c.precede(p); m.complete(p, SyntaxKind::BIN_EXPR); },
            Op::Try(v) if tries => {
                let before = state(p);
                let m = p.start();
                run(p, v, tries, trace);
                m.abandon_with_rollback(p);
                let after = state(p);
                if before != after { trace.push(format!("before the attempt: {before}; after giving up: {after}")); }
            }
            Op::TryNode(v) if tries => {
                let outer = p.start();
                let at = p.event_pos();
                let before = state(p);
                let m = p.start();
                run(p, v, tries, trace);
                m.complete(p, SyntaxKind::PAREN_EXPR).abandon_with_rollback(p, at);
                let after = state(p);
                if before != after { trace.push(format!("before the attempt: {before}; after giving up: {after}")); }
                outer.abandon(p);
            }
            _ => {}
        }
    }
}
fn glued(p: &Parser, n: u8) -> bool { n < 2 || p.nth_at(0, SyntaxKind::SHL) && n == 2 }
fn entry(p: &mut Parser) {
    SCRIPT.with(|s| {
        let (ops, tries, ..) = s.borrow().clone();
        let m = p.start();
        let mut trace = vec![];
        run(p, &ops, tries, &mut trace);
        let end = state(p);
        while p.current() != SyntaxKind::EOF { p.bump_any(); }
        m.complete(p, SyntaxKind::SOURCE_FILE);
        s.borrow_mut().2 = trace;
        s.borrow_mut().3 = end;
    })
}
/// -> tree, errors, complaints, state after the script
pub fn go(text: &str, ops: &[Op], tries: bool) -> (GreenNode, Vec<SyntaxError>, Vec<String>, String) {
    SCRIPT.with(|s| *s.borrow_mut() = (ops.to_vec(), tries, vec![], String::new()));
    let (t, e) = crate::parse_text(text, entry);
    SCRIPT.with(|s| { let s = s.borrow(); (t, e, s.2.clone(), s.3.clone()) })
}
