//! The Display text of small trees and forests through every kind of handle, after one edit (C20).
use crate::edits;
use crate::model::{self, accounted, forest_text, M, FKINDS, KINDS};
use crate::reg::D;
use crate::shape;
use crate::sup::{self, Run};
use crate::util::H;
use crate::{bad, want};
use std::fmt::{Display, Write};
use trees::{Forest, Node, RcNode, Tree};

/// Read the documented text back; None if it does not follow the grammar.
fn parse_nodes(s: &[u8], at: &mut usize) -> Option<Vec<M>> {
    // after "( ": nodes each followed by a space, then ")"
    let mut out = vec![];
    loop {
        if s.get(*at) == Some(&b')') { *at += 1; return Some(out); }
        out.push(parse_node(s, at)?);
        if s.get(*at) != Some(&b' ') { return None; }
        *at += 1;
    }
}
fn parse_node(s: &[u8], at: &mut usize) -> Option<M> {
    let a = *at;
    while s.get(*at).map_or(false, |c| c.is_ascii_digit()) { *at += 1; }
    let lab = std::str::from_utf8(&s[a..*at]).ok()?.parse().ok()?;
    let mut m = M::leaf(lab);
    if s[*at..].starts_with(b"( ") { *at += 2; m.kids = parse_nodes(s, at)?; }
    Some(m)
}
pub fn parse(s: &str) -> Option<M> { let mut at = 0; let m = parse_node(s.as_bytes(), &mut at)?; if at == s.len() { Some(m) } else { None } }
pub fn parse_forest(s: &str) -> Option<Vec<M>> {
    if s == "()" { return Some(vec![]); }
    if !s.starts_with("( ") { return None; }
    let mut at = 2;
    let v = parse_nodes(s.as_bytes(), &mut at)?;
    if at == s.len() { Some(v) } else { None }
}

/// A sink that takes so many bytes and then nothing more.
struct Full { got: String, room: usize }
impl Write for Full {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.got.len() + s.len() > self.room { self.room = 0; return Err(std::fmt::Error); }
        self.got.push_str(s);
        Ok(())
    }
}
fn shows(x: &impl Display, m: &str, who: &str, sink: bool, h: &mut H) {
    let s = x.to_string();
    h.str(&s);
    want!(Text, s == m, "{who}: its text is \"{s}\", not \"{m}\"");
    sup::stat(0, 1);
    if !sink || s != m { return; }
    for room in 0..=m.len() {
        let mut f = Full { got: String::new(), room };
        let r = write!(f, "{x}");
        want!(Text, r.is_ok() == (room >= m.len()), "{who}: writing \"{m}\" to a sink with room for {room} bytes reports {r:?}");
        want!(Text, m.starts_with(&f.got), "{who}: a sink with room for {room} bytes got \"{}\" of \"{m}\"", f.got);
    }
    sup::stat(0, m.len() as u64 + 1);
}
fn nodes(n: &Node<D>, m: &M, sink: bool, h: &mut H) {
    shows(n, &m.text(), "node", sink, h);
    for (k, km) in n.iter().zip(&m.kids) { nodes(k, km, false, h); }
}
fn rcs(n: &RcNode<D>, m: &M, sink: bool, h: &mut H) {
    shows(n, &m.text(), "RcNode", sink, h);
    for (k, km) in n.iter_rc().zip(&m.kids) { rcs(&k, km, false, h); }
}
fn plain(m: &M) {
    let mut back = m.clone();
    back.each_mut(&mut |k| k.st = 0);
    // the text of the model can be read back, so distinct trees have distinct texts
    want!(Text, parse(&m.text()) == Some(back), "\"{}\" does not read back", m.text());
}
fn tree_case(m: &M, kind: usize, edit: Option<&(Vec<u16>, u8)>) {
    accounted(|| {
        let mut m = m.clone();
        let mut h = H::new();
        let mut t: Tree<D> = model::build(&m, KINDS[kind]);
        if let Some((p, e)) = edit {
            if let Some((o, om)) = edits::tree(&mut t, &mut m, p, *e, 108) { shows(&o, &om.text(), "Tree taken out", false, &mut h); }
        }
        plain(&m);
        let sink = m.count() <= 5 || edit.is_none();
        shows(&t, &m.text(), "Tree", sink, &mut h);
        nodes(t.root(), &m, sink, &mut h);
        let kids: Vec<M> = m.kids.clone();
        let r = RcNode::from(t);
        rcs(&r, &m, sink, &mut h);
        // a child with its parent gone, and one still below it
        if let Some(k) = r.back() {
            shows(&k, &kids[kids.len() - 1].text(), "RcNode", false, &mut h);
            drop(r);
            rcs(&k, &kids[kids.len() - 1], false, &mut h);
            let t = unsafe { k.into_tree() };
            shows(&t, &kids[kids.len() - 1].text(), "Tree", false, &mut h);
        }
        if sup::failed() { h.add(1); }
        sup::digest(h.0);
        sup::stat(1, 1);
    })
}
fn forest_case(m: &M, kind: usize, edit: Option<&(Vec<u16>, u8)>) {
    accounted(|| {
        let mut m = m.clone();
        let mut h = H::new();
        let mut f: Forest<D> = model::build_forest(&m.kids, FKINDS[kind]);
        if let Some((p, e)) = edit {
            if let Some((o, om)) = edits::forest(&mut f, &mut m, p, *e, 108) { shows(&o, &om.text(), "Tree taken out", false, &mut h); }
        }
        let text = forest_text(&m.kids);
        match parse_forest(&text) { Some(v) => want!(Text, v == m.kids, "\"{text}\" does not read back"), None => bad!(Text, "\"{text}\" does not read back") }
        shows(&f, &text, "Forest", m.count() <= 6 || edit.is_none(), &mut h);
        for (n, k) in f.iter().zip(&m.kids) { nodes(n, k, false, &mut h); }
        for (t, k) in f.into_iter().zip(&m.kids) { shows(&t, &k.text(), "Tree of the forest", false, &mut h); }
        if sup::failed() { h.add(1); }
        sup::digest(h.0);
        sup::stat(1, 1);
    })
}
/// Labels of different lengths, some the beginning of others.
pub const LABELS: [u32; 8] = [1, 11, 0, 10, 111, 2, 4294967295, 101];
fn relabel(m: &mut M, by: usize) { let mut i = by; m.each_mut(&mut |k| { k.lab = LABELS[i % 8]; i += 1; }); }
pub fn explore(run: &mut Run, tag: &str, n: usize, lab: &[(usize, u32)], scaled: &[usize]) {
    let mut ms: Vec<M> = vec![];
    for s in shape::trees_upto(n) { let mut m = model::label(&s, &mut 0); let c = m.count(); relabel(&mut m, c); ms.push(m); }
    let small = ms.len();
    for &s in scaled { for (_, s) in shape::scaled(s) { let mut m = model::label(&s, &mut 0); relabel(&mut m, 3); ms.push(m); } }
    for forest in [false, true] {
        let mut cases: Vec<(u32, u8, Option<(Vec<u16>, u8)>)> = vec![];
        let kinds = if forest { 5u8 } else { 6 };
        for (a, m) in ms.iter().enumerate() {
            let e = edits::all(m, forest);
            let k = e.len();
            for kd in 0..kinds { cases.push((a as u32, kd, None)); }
            for (i, x) in e.into_iter().enumerate() {
                if a >= small && i >= 10 && i % (k / 10) != 0 { continue; }
                for kd in 0..kinds { cases.push((a as u32, kd, Some(x.clone()))); }
            }
        }
        run.states += ms.len() as u64 * kinds as u64;
        run.explore(&format!("{tag}text-{}-{n}", if forest { "forest" } else { "tree" }), &format!("every {} (and families of {scaled:?}) x {kinds} storage forms x nothing or one edit anywhere; its text through every handle to it and all nodes, into sinks of every size", if forest { format!("forest of at most {} nodes", n - 1) } else { format!("tree of at most {n} nodes") }), cases.len() as u64,
            &|i| { let (a, k, e) = &cases[i as usize]; if forest { forest_case(&ms[*a as usize], *k as usize, e.as_ref()) } else { tree_case(&ms[*a as usize], *k as usize, e.as_ref()) } },
            &|i| { let (a, k, e) = &cases[i as usize]; format!("{}, storage form {k}, {}", if forest { forest_text(&ms[*a as usize].kids) } else { ms[*a as usize].text() }, e.as_ref().map_or("as built".into(), |(p, e)| edits::describe(p, *e))) });
    }
    for &(n, l) in lab {
        let mut ms = crate::cmp::labelled(n, l);
        ms.iter_mut().for_each(|m| m.each_mut(&mut |k| k.lab = LABELS[k.lab as usize]));
        let mut seen = std::collections::HashSet::new();
        for m in &ms { if !seen.insert(m.text()) { run.engine_errors.push(format!("two trees with the text {}", m.text())); } }
        run.states += ms.len() as u64;
        run.explore(&format!("{tag}text-labels-{n}-{l}"), &format!("every tree of at most {n} nodes labelled with {:?}, as a tree and as a forest, in every storage form", &LABELS[..l as usize]), ms.len() as u64 * 12,
            &|i| { let m = &ms[(i / 12) as usize]; let k = (i % 6) as usize; if i % 12 < 6 { tree_case(m, k, None) } else { forest_case(m, k % 5, None) } },
            &|i| format!("{} as a {} in storage form {}", ms[(i / 12) as usize].text(), if i % 12 < 6 { "tree" } else { "forest" }, i % 6));
    }
}
