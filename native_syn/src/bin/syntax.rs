use native::*;
use synparse::trial::Op;
use synparse::*;

fn tree_text(s: &str) -> Result<(), String> {
    let (tree, _) = parse_text(s, entry_points::source_file);
    if kind_of(tree.kind) != SyntaxKind::SOURCE_FILE { return Err(format!("root is {:?}", kind_of(tree.kind))); }
    let mut t = String::new();
    tree.text(&mut t);
    if t != s { return Err(format!("the tree's text is {t:?}")); }
    Ok(())
}

fn ops(r: &mut Rng, depth: usize) -> Vec<Op> {
    let mut v = vec![];
    for _ in 0..r.below(5) {
        v.push(match r.below(if depth == 0 { 6 } else { 12 }) {
            0 | 1 => Op::Bump,
            2 => Op::BumpN(r.range(1, 2) as u8),
            3 => Op::Error,
            4 => Op::Recover,
            5 => if r.chance(1, 2) { Op::Precede } else { Op::Remap },
            6 | 7 => Op::Node(ops(r, depth - 1)),
            8 => Op::Dropped(ops(r, depth - 1)),
            9 => Op::TryNode(ops(r, depth - 1)),
            _ => Op::Try(ops(r, depth - 1)),
        });
    }
    v
}

fn check_trial(s: &str, o: &[Op]) -> Result<(), String> {
    let (t1, e1, bad, end1) = trial::go(s, o, true);
    if let Some(b) = bad.first() { return Err(b.clone()); }
    let (t2, e2, _, end2) = trial::go(s, o, false);
    if end1 != end2 { return Err(format!("with attempts the parser ends at {end1}, without at {end2}")); }
    let (a, b) = (format!("{t1:?} {e1:?}"), format!("{t2:?} {e2:?}"));
    if a != b { return Err(format!("with attempts {a}, without {b}")); }
    Ok(())
}

fn main() {
    let mut r = Run::from_args();
    let a: Vec<String> = std::env::args().collect();
    let mode = a[1].as_str();
    if let Some(i) = a.iter().position(|x| x == "--file") {
        let s = std::fs::read_to_string(&a[i + 1]).unwrap();
        r.case(&format!("{s:?}"), true, || tree_text(&s));
        r.finish();
    }
    match mode {
        // the tree's text is the source (a panic in a grammar rule is for `panics` to report)
        "text" => {
            r.skip_panics_in("grammar");
            while r.time_left() {
                let s = movegen::text(&mut r.rng);
                r.case(&format!("{s:?}"), s.len() > 3, || tree_text(&s));
            }
        }
        "panics" => {
            r.site_of("grammar");
            while r.time_left() {
                let s = movegen::text(&mut r.rng);
                r.case(&format!("{s:?}"), s.len() > 3, || tree_text(&s).map_or(Ok(()), Ok));
            }
        }
        "rollback" => {
            while r.time_left() {
                let n = r.rng.below(12);
                let s: String = (0..n).map(|_| *r.rng.pick(&["a ", "1", "(", ")", "<", "<<", " ", "/* c */", "// d\n", "é", ">", "let "])).collect();
                let o = ops(&mut r.rng, 3);
                r.case(&format!("{s:?} {o:?}"), !o.is_empty(), || check_trial(&s, &o));
            }
        }
        m => panic!("mode {m}"),
    }
    r.finish()
}
