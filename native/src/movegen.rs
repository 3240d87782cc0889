//! Random Move texts: grammar-directed samples, token soup and mutations.
use crate::Rng;

pub const VOCAB: &[&str] = &[
    "module", "spec", "script", "address", "fun", "struct", "enum", "const", "use", "friend", "public", "native", "entry", "inline",
    "let", "mut", "if", "else", "while", "loop", "for", "in", "match", "return", "break", "continue", "abort", "as", "is", "move", "copy",
    "true", "false", "acquires", "reads", "writes", "pure", "has", "phantom", "invariant", "schema", "include", "apply", "to", "except", "pragma",
    "assert", "assume", "requires", "ensures", "aborts_if", "aborts_with", "succeeds_if", "modifies", "emits", "with", "axiom", "update",
    "global", "local", "forall", "exists", "choose", "min", "where", "post", "old", "internal", "package", "vector", "proof", "lemma", "split", "decreases", "weight",
    "x", "y", "S", "Self", "foo", "u8", "u64", "bool", "0x1", "1", "10u8", "0xffu16", "42", "1_000", "@0x1", "@std", "b\"ab\"", "x\"00\"", "'a", "'label:", "_",
    "(", ")", "{", "}", "[", "]", "<", ">", ",", ";", ":", "::", ".", "..", "=", "==", "=>", "==>", "<==>", "!", "!=", "+", "-", "*", "/", "%", "^", "&", "&&", "|", "||",
    "<<", ">>", "<=", ">=", "<<=", ">>=", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "#", "@", "#[test]", "#[view]", "&mut ", "$", "\"", "\\", "é", "\u{1F600}",
    "// c\n", "/// doc\n", "//! in\n", "/* b */", "/** d */", "/*! i */", "/* /* n */ */", "\n", "\n\n", "\t", " ", " ", " ",
];

pub const SNIPPETS: &[&str] = &[
    "module 0x1::m { }", "module std::m { fun f() {} }", "script { fun main() { } }", "address 0x1 { module m { } }",
    "module 0x1::m { use std::vector; use std::vector::{Self, push_back as pb}; use 0x1::a::b; friend 0x1::c; }",
    "module 0x1::m { struct S<T: copy + drop, phantom U> has key, store { a: u8, b: vector<T> } struct T(u8, u64) has copy; enum E { A, B(u8), C { x: u8 } } }",
    "module 0x1::m { const A: u8 = 1; #[test] #[expected_failure(abort_code = 1)] public fun f<T>(a: &mut T, b: |u8|u64): (u8, u8) acquires S, T { } }",
    "module 0x1::m { fun f() { let a = 1; let (b, _) = (1, 2); let S { x, y: z } = s; let S { x, .. } = s; a = b + c * d; *a = 1; a.b.c(1)[2]; } }",
    "module 0x1::m { fun f() { if (a) b else c; while (true) { break; continue }; loop { break 'a }; for (i in 0..10) { i; }; 'a: loop {} } }",
    "module 0x1::m { fun f() { match (x) { A => 1, B(y) if y > 1 => { 2 } C { x, .. } => 3, _ => 4 } } }",
    "module 0x1::m { fun f() { let f = |x, y: u8| x + y; f(1, 2); g(|| 1); x is A | B; a as u8; &mut a.b; copy x; move y; !b; -c; return; abort 1; assert!(a, 1); } }",
    "module 0x1::m { fun f() { vector[1, 2]; vector<u8>[]; S { a: 1, b }; S<u8>(1); f<u8, vector<u64>>(1); a.f::<u8>(2); a.b<c; @0x1; b\"x\"; x\"ab\"; 0x1::m::f(); } }",
    "spec 0x1::m { spec f { requires a > 0; ensures result == old(a); aborts_if forall x in 0..10: x > 1 with 1; pragma opaque; let post x = 1; modifies global<S>(a); } }",
    "module 0x1::m { spec schema A<T> { x: u8; requires x > 1; } spec module { apply A to f*, public g<T> except h; invariant [global] forall a: address where exists<S>(a): a == b; axiom 1 == 1; } }",
    "module 0x1::m { spec fun f(a: num): bool { a ==> b <==> c } spec f { include A { x: 1 } && b ==> C; emits e to h if c; } fun f() { spec { assert x; assume y; } } }",
    "module 0x1::m { spec S { invariant a > 0; } spec f(a: u8): u8 { } native fun g(); public(friend) fun h() { } public(package) entry fun k() { } inline fun l() { } }",
    "module 0x1::m { fun f() { x = choose y: u8 where y > 1; z = exists a in b, c in d { x } : a; { 1 }; (1); (); (1, 2,); a..b; ..b; a[1..2]; a <<= 1; a >>= 2; a >= b && c || d; } }",
    "/// doc\nmodule 0x1::m {\n    // line\n\n    /// outer\n    fun f() {} // trailing\n\n    /* block */ struct S {}\n}\n",
];

fn atom(r: &mut Rng) -> String {
    (*r.pick(&["a", "b", "1", "0x2u8", "true", "(c)", "f(x)", "s.t", "v[0]", "{ d }", "@0x1", "vector[1]", "S { a: 1 }", "m::g<u8>(1)", "if (p) q else r"])).to_string()
}
pub fn expr(r: &mut Rng, depth: usize) -> String {
    if depth == 0 { return atom(r); }
    match r.below(12) {
        0..=5 => {
            let op = *r.pick(&["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "==>", "<==>", "=", "+=", ".."]);
            format!("{} {} {}", expr(r, depth - 1), op, expr(r, depth - 1))
        }
        6 => format!("({})", expr(r, depth - 1)),
        7 => format!("{}{}", r.pick(&["!", "*", "&", "&mut ", "-", "copy ", "move "]), expr(r, depth - 1)),
        8 => format!("{} as {}", expr(r, depth - 1), r.pick(&["u8", "S<u8>", "vector<u64>"])),
        9 => format!("|{}| {}", r.pick(&["", "x", "x, y: u8"]), expr(r, depth - 1)),
        10 => format!("{{ let {} = {}; {} }}", r.pick(&["x", "(a, b)", "S { a, .. }"]), expr(r, depth - 1), expr(r, depth - 1)),
        _ => atom(r),
    }
}

/// (before, again and again, after)
const LONG: &[(&str, &str, &str)] = &[
    ("module 0x1::m { fun f(x: (", "u8, ", "u8)) {} }"), ("module 0x1::m { fun f() { let (", "a, ", "b) = x; } }"), ("module 0x1::m { fun f() { f(", "1, ", "2); } }"),
    ("module 0x1::m { fun f() { (", "a, ", "b) } }"), ("module 0x1::m { fun f() { vector[", "a, ", "]; } }"), ("module 0x1::m { fun f<", "T: copy, ", ">() {} }"),
    ("module 0x1::m { struct S { ", "a: u8, ", "} }"), ("#[a(", "b = 1, ", ")] module 0x1::m { }"), ("module 0x1::m { use 0x1::a::{", "b as c, ", "}; }"),
    ("module 0x1::m { fun f() { match (x) { ", "S { a, .. } => 1, ", "_ => 2 } } }"), ("module 0x1::m { spec module { apply f to ", "*a*", "; } }"), ("module 0x1::m { spec module { apply f to ", "a*, ", "b except c; } }"),
    ("module 0x1::m { fun f() acquires ", "S, ", "T {} }"), ("module 0x1::m { fun f() { a", ".b()[1]", "; } }"), ("module 0x1::m { fun f() { 1", " + 1", "; } }"), ("module 0x1::m { fun f() { ", "; ", "} }"),
    ("module 0x1::m { fun f() { let S { ", "a: b, ", ".. } = s; } }"), ("module 0x1::m { fun f() { |", "a, ", "b| 1; } }"), ("module 0x1::m { fun f(x: |", "u8, ", "| u8) {} }"), ("module 0x1::m { enum E has copy { ", "A(u8), B { a: u8 }, ", "C } }"),
    ("module 0x1::m { ", "public fun ", " }"), ("module 0x1::m { ", "native ", "fun f(); }"), ("", "} ", ""), ("module 0x1::m { ", "#[test] ", "fun f() {} }"), ("script { ", "use 0x1::m; ", "fun main() {} }"), ("module 0x1::m { spec f { ", "aborts_if [abstract] x; ", "} }"),
    ("module 0x1::m { fun f() { x is ", "A | ", "B; } }"), ("address 0x1 { ", "module m { } ", "}"), ("module 0x1::m { struct S has ", "copy, ", "drop; }"), ("module 0x1::m { fun f() { a", "::b", "; } }"),
];
pub fn text(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 400) {
        let (a, b, c) = *r.pick(LONG);
        return format!("{a}{}{c}", b.repeat(r.range(256, 300)));
    }
    match r.below(10) {
        0..=2 => {
            for _ in 0..r.range(1, 25) { s.push_str(r.pick(VOCAB)); if r.chance(2, 3) { s.push(' ') } }
        }
        3..=4 => {
            s.push_str(r.pick(&["module 0x1::m { fun f() { ", "module 0x1::m { ", "spec 0x1::m { ", "module 0x1::m { spec f { ", "module 0x1::m { fun f(", "module 0x1::m { struct S ", "module 0x1::m { use ", "module 0x1::m { fun f() { match (x) { "]));
            for _ in 0..r.range(1, 20) { s.push_str(r.pick(VOCAB)); if r.chance(2, 3) { s.push(' ') } }
            if r.chance(1, 2) { s.push_str(" } }") }
        }
        5 => { let d = r.range(1, 4); s = format!("module 0x1::m {{ fun f() {{ {}; }} }}", expr(r, d)); }
        _ => {
            // mutate samples
            for _ in 0..r.range(1, 3) { s.push_str(r.pick(SNIPPETS)); s.push('\n') }
            let n = r.range(1, 4);
            for _ in 0..n {
                let mut cs: Vec<String> = s.split_inclusive(|c: char| !c.is_alphanumeric()).map(|x| x.to_string()).collect();
                if cs.is_empty() { break; }
                let i = r.below(cs.len());
                match r.below(5) {
                    0 => { cs.remove(i); }
                    1 => { cs.insert(i, r.pick(VOCAB).to_string()); }
                    2 => { let x = cs[i].clone(); cs.insert(i, x); }
                    3 => { let j = r.below(cs.len()); cs.swap(i, j); }
                    _ => { cs.truncate(i + 1); }
                }
                s = cs.concat();
            }
        }
    }
    s
}
