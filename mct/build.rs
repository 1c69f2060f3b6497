//! Writes every tuple notation within the bounds as an expression (src/bin/tuple.rs includes them).
use std::fmt::Write;

#[derive(Clone)]
struct S(Vec<S>);
fn forests(n: usize) -> Vec<Vec<S>> {
    if n == 0 { return vec![vec![]]; }
    let mut out = vec![];
    for k in 1..=n {
        for t in trees(k) { for rest in forests(n - k) { let mut f = vec![t.clone()]; f.extend(rest); out.push(f); } }
    }
    out
}
fn trees(n: usize) -> Vec<S> { forests(n - 1).into_iter().map(S).collect() }
fn leaves(s: &S) -> usize { if s.0.is_empty() { 1 } else { s.0.iter().map(leaves).sum() } }
fn code(s: &S, o: &mut String) { o.push('('); for k in &s.0 { code(k, o); } o.push(')'); }
/// The tuple; each leaf is written bare or as a one-element tuple.
fn expr(s: &S, lab: &mut u32, leaf: &mut usize, one: &dyn Fn(usize) -> bool, o: &mut String) {
    let l = *lab;
    *lab += 1;
    if s.0.is_empty() {
        let i = *leaf;
        *leaf += 1;
        if one(i) { write!(o, "(d({l}),)").unwrap() } else { write!(o, "d({l})").unwrap() }
        return;
    }
    write!(o, "(d({l}),").unwrap();
    for k in &s.0 { expr(k, lab, leaf, one, o); o.push(','); }
    o.push(')');
}
fn masks(n: usize, l: usize, all: usize) -> Vec<u64> {
    if n <= all { return (0..1u64 << l).collect(); }
    let full = (1u64 << l) - 1;
    vec![0, full, full & 0x5555_5555]
}
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let dir = std::env::var("OUT_DIR").unwrap();
    let mut parts = vec![String::new(); 8];
    let mut i = 0;
    let mut emit = |mac: &str, code: &str, e: &str| { writeln!(parts[i % 8], "{mac}!(v, {code:?}, {e});").unwrap(); i += 1; };
    let tree = |s: &S, one: &dyn Fn(usize) -> bool| { let mut o = String::new(); expr(s, &mut 0, &mut 0, one, &mut o); o };
    let forest = |f: &[S], one: &dyn Fn(usize) -> bool| {
        let mut o = String::from("(");
        let (mut lab, mut leaf) = (0, 0);
        for k in f { expr(k, &mut lab, &mut leaf, one, &mut o); o.push(','); }
        o.push(')');
        o
    };
    let fcode = |f: &[S]| { let mut o = String::new(); for k in f { code(k, &mut o); } o };
    for n in 1..=7usize {
        for s in trees(n) {
            let mut c = String::new();
            code(&s, &mut c);
            for m in masks(n, leaves(&s), 5) { emit("t", &c, &tree(&s, &|i| m >> i & 1 == 1)); }
        }
    }
    for n in 0..=6 {
        for f in forests(n) {
            for m in masks(n, f.iter().map(leaves).sum(), 4) { emit("f", &fcode(&f), &forest(&f, &|i| m >> i & 1 == 1)); }
        }
    }
    // Every arity: leaves only, and with a subtree in every third place.
    let leaf = || S(vec![]);
    let subs = [S(vec![leaf()]), S(vec![S(vec![leaf(), leaf()]), leaf()]), S(vec![S(vec![S(vec![leaf()])])])];
    for a in 0..=32usize {
        for shift in 0..4 {
            let kids: Vec<S> = (0..a).map(|i| if shift < 3 && (i + shift) % 3 == 0 { subs[(i / 3 + shift) % 3].clone() } else { leaf() }).collect();
            emit("f", &fcode(&kids), &forest(&kids, &|i| (i + shift) % 2 == 1));
            let s = S(kids.clone());
            let mut c = String::new();
            code(&s, &mut c);
            emit("t", &c, &tree(&s, &|i| (i + shift) % 2 == 0));
            if shift == 1 {
                // not at the root
                let s = S(vec![leaf(), S(kids), S(vec![leaf()])]);
                let mut c = String::new();
                code(&s, &mut c);
                emit("t", &c, &tree(&s, &|i| (i + shift) % 2 == 0));
            }
        }
    }
    for (k, p) in parts.iter().enumerate() { std::fs::write(format!("{dir}/tuples{k}.rs"), format!("{{\n{p}}}\n")).unwrap(); }
}
