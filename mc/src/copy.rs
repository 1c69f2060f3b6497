//! Deep copies of every node through every kind of handle: equal, complete, and independent of their source (C21).
use crate::edits;
use crate::model::{self, accounted, forest_text, M, FKINDS, KINDS};
use crate::reg::{self, Datum};
use crate::shape;
use crate::sup::{self, Run};
use crate::util::H;
use crate::{bad, want};
use trees::{Forest, Node, RcNode, Tree};

pub const HOW: [&str; 9] = ["Tree::clone", "Node::deep_clone", "Node::deep_clone_forest", "RcNode::deep_clone", "Forest::clone", "Node::deep_clone in a forest", "Node::deep_clone_forest in a forest", "Tree::clone_from", "Forest::clone_from"];
/// What clone_from() assigns to.
pub const TARGETS: [&str; 6] = ["a single node or nothing", "the same shape", "the same shape and a child more", "the same shape less a child", "a chain", "a child less and its children turned round"];
fn in_forest(how: u8) -> bool { matches!(how, 4 | 5 | 6 | 8) }
pub fn target(m: &M, v: usize) -> M {
    let mut t = m.clone();
    match v {
        0 => t = M::leaf(1),
        1 => (),
        2 => t.kids.push(M::leaf(1)),
        3 => { t.kids.pop(); }
        4 => { t = M::leaf(1); for _ in 0..3 { let k = t; t = M::leaf(1); t.kids.push(k); } }
        _ => { t.kids.reverse(); if let Some(k) = t.kids.first_mut() { k.kids.reverse(); k.kids.pop(); } }
    }
    fn relabel(m: &mut M, next: &mut u32) { m.lab = *next; *next += 1; for k in &mut m.kids { relabel(k, next); } }
    relabel(&mut t, &mut 500);
    t
}

/// Through a shared handle: the data, sizes and links of the subtree.
pub fn check_rc<X: Datum>(n: &RcNode<X>, m: &M, top: bool, h: &mut H) {
    let v = n.data().val();
    h.add(v as u64);
    want!(Shape, v == X::norm(m.lab), "node {}: its data is {v}", m.lab);
    want!(Count, n.degree() == m.kids.len() && n.node_count() == m.count(), "node {}: degree() {} and node_count() {}", m.lab, n.degree(), n.node_count());
    want!(Link, n.is_root() == top, "node {}: is_root() is {}", m.lab, n.is_root());
    let mut i = 0;
    for k in n.iter_rc() {
        match m.kids.get(i) { Some(km) => check_rc(&k, km, false, h), None => { bad!(Shape, "node {} has too many children", m.lab); return; } }
        i += 1;
    }
    want!(Shape, i == m.kids.len(), "node {} lists {i} of {} children", m.lab, m.kids.len());
}
/// Identity and place of every node of the subtree.
fn ids<X: Datum>(n: &Node<X>, out: &mut Vec<(usize, u32)>) { out.push((n as *const _ as usize, n.data().uid())); for k in n.iter() { ids(k, out); } }
fn forest_ids<X: Datum>(f: &Forest<X>) -> Vec<(usize, u32)> { let mut v = vec![]; for n in f.iter() { ids(n, &mut v); } v }
fn tree_ids<X: Datum>(t: &Tree<X>) -> Vec<(usize, u32)> { let mut v = vec![]; ids(t.root(), &mut v); v }

enum Side<X: Datum> { T(Tree<X>, M), F(Forest<X>, M), R(RcNode<X>, M) }
use Side::*;
impl<X: Datum> Side<X> {
    fn check(&self, h: &mut H) {
        match self { T(t, m) => model::check_tree(t, m, h), F(f, m) => model::check_forest(f, &m.kids, h), R(r, m) => check_rc(r, m, true, h) }
    }
    fn count(&self) -> usize { match self { T(_, m) | R(_, m) => m.count(), F(_, m) => m.count() - 1 } }
    fn m(&self) -> &M { match self { T(_, m) | F(_, m) | R(_, m) => m } }
    fn is_forest(&self) -> bool { matches!(self, F(..)) }
    fn ids(&self) -> Vec<(usize, u32)> { match self { T(t, _) => tree_ids(t), F(f, _) => forest_ids(f), R(..) => vec![] } }
    /// Edit it; what came out.
    fn edit(&mut self, p: &[u16], e: u8, h: &mut H) -> Option<(Tree<X>, M)> {
        match self {
            T(t, m) => edits::tree(t, m, p, e, 700),
            F(f, m) => edits::forest(f, m, p, e, 700),
            R(r, m) => {
                let k = p.iter().fold(Some(r.clone()), |n, &i| n.and_then(|n| n.iter_rc().nth(i as usize)));
                let Some(k) = k else { bad!(Handle, "the node at {p:?} cannot be reached"); return None };
                edits::shared(&k, m, p, e, 700).map(|(k, km)| { check_rc(&k, &km, true, h); drop(k); (Tree::new(X::mk(77)), M::leaf(77)) })
            }
        }
    }
    fn drain(self, d: u8) { match self { T(t, m) => model::drain_tree(t, &m, d), F(f, m) => model::drain_forest(f, &m.kids, d), R(r, m) => {
        if d % 2 == 0 { model::drain_tree(unsafe { r.into_tree() }, &m, d) } else { drop(r) }
    } } }
}
/// The copy: the model of what it must be is the subtree.
fn copy<X: Datum>(src: &Side<X>, how: usize, p: &[u16], v: usize) -> Option<Side<X>> {
    let sub = || src.m().at(p).clone();
    Some(match (src, how) {
        (T(t, m), 0) => T(t.clone(), m.clone()),
        (T(t, _), 1) => T(edits::at(t.root(), p)?.deep_clone(), sub()),
        (T(t, _), 2) => F(edits::at(t.root(), p)?.deep_clone_forest(), sub()),
        (R(r, _), 3) => { let k = p.iter().fold(Some(r.clone()), |n, &i| n.and_then(|n| n.iter_rc().nth(i as usize)))?; T(k.deep_clone(), sub()) }
        (F(f, m), 4) => F(f.clone(), m.clone()),
        (F(f, _), 5) => T(edits::at(f.iter().nth(*p.first()? as usize)?, &p[1..])?.deep_clone(), sub()),
        (T(t, m), 7) => { let tm = target(m, v % 6); let mut to = model::build(&tm, KINDS[v / 6 % 6]); to.clone_from(t); T(to, m.clone()) }
        (F(f, m), 8) => { let tm = target(m, v % 6); let mut to = model::build_forest(&tm.kids, FKINDS[v / 6 % 5]); to.clone_from(f); F(to, m.clone()) }
        (F(f, _), 6) => F(edits::at(f.iter().nth(*p.first()? as usize)?, &p[1..])?.deep_clone_forest(), sub()),
        _ => return None,
    })
}
#[derive(Clone, Debug)]
struct Case { m: u32, kind: u8, how: u8, v: u8, p: Vec<u16>, on_copy: bool, ep: Vec<u16>, e: u8 }
fn case<X: Datum>(m: &M, c: &Case, d: u64) {
    accounted(|| {
        let mut h = H::new();
        let how = c.how as usize;
        let mut src: Side<X> = match how {
            0 | 1 | 2 | 7 => T(model::build(m, KINDS[c.kind as usize]), m.clone()),
            3 => R(RcNode::from(model::build(m, KINDS[c.kind as usize])), m.clone()),
            _ => F(model::build_forest(&m.kids, FKINDS[c.kind as usize % 5]), m.clone()),
        };
        let before = src.ids();
        let (live, cloned) = (reg::live(), reg::clones());
        want!(Clone, live == src.count(), "{live} data alive, not {}", src.count());
        let Some(mut cp) = copy(&src, how, &c.p, c.v as usize) else { bad!(Clone, "the node at {:?} cannot be reached", c.p); return };
        sup::stat(0, 1);
        want!(Clone, reg::clones() - cloned == cp.count(), "{} data were cloned to copy {} nodes", reg::clones() - cloned, cp.count());
        want!(Clone, reg::live() == live + cp.count(), "{} data alive after copying {} of {} nodes", reg::live(), cp.count(), live);
        want!(Clone, src.ids() == before, "copying moved or replaced nodes of the source");
        let ci = cp.ids();
        want!(Clone, X::NAME == "Z" || X::NAME == "U8" || ci.iter().all(|x| before.iter().all(|y| x.0 != y.0 && x.1 != y.1)), "the copy shares nodes or data with its source");
        src.check(&mut h);
        cp.check(&mut h);
        if sup::failed() { return; }
        // a copy of the copy
        if c.e % 3 == 0 {
            let n = reg::clones();
            let again = match &cp { T(t, m) => T(t.clone(), m.clone()), F(f, m) => F(f.clone(), m.clone()), _ => return };
            want!(Clone, reg::clones() - n == cp.count(), "{} data were cloned to copy {} nodes again", reg::clones() - n, cp.count());
            again.check(&mut h);
            cp.check(&mut h);
            if sup::failed() { return; }
            if d % 2 == 0 { again.drain(d as u8 % 10); } else { let old = std::mem::replace(&mut cp, again); old.drain((d / 2 % 10) as u8); }
            cp.check(&mut h);
        }
        let out = if c.on_copy { cp.edit(&c.ep, c.e, &mut h) } else { src.edit(&c.ep, c.e, &mut h) };
        src.check(&mut h);
        cp.check(&mut h);
        if sup::failed() { return; }
        sup::digest(h.0);
        let left = cp.count() + src.count() + out.as_ref().map_or(0, |o| o.1.count());
        want!(Clone, reg::live() == left, "{} data alive, not {left}", reg::live());
        let (a, b) = if d % 2 == 0 { (cp, src) } else { (src, cp) };
        if d % 3 == 0 { if let Some((t, m)) = out { model::drain_tree(t, &m, (d % 10) as u8); } a.drain((d / 6 % 10) as u8); }
        else { a.drain((d / 6 % 10) as u8); if let Some((t, m)) = out { model::drain_tree(t, &m, (d % 10) as u8); } }
        b.check(&mut h);
        want!(Clone, reg::live() == b.count(), "{} data alive, not {}", reg::live(), b.count());
        if !sup::failed() { b.drain((d / 2 % 10) as u8); }
        sup::stat(1, 1);
    })
}
pub fn explore<X: Datum>(run: &mut Run, tag: &str, n: usize, scaled: &[usize]) {
    let mut ms: Vec<M> = shape::trees_upto(n).iter().map(|s| model::label(s, &mut 0)).collect();
    let small = ms.len();
    for &s in scaled { ms.extend(shape::scaled(s).iter().map(|x| model::label(&x.1, &mut 0))); }
    let mut cases: Vec<Case> = vec![];
    let thin = |v: Vec<Vec<u16>>, big: bool| if big { let k = v.len(); v.into_iter().enumerate().filter(|(i, _)| *i < 2 || i + 2 > k || i % (k / 3) == 0).map(|x| x.1).collect::<Vec<_>>() } else { v };
    for (a, m) in ms.iter().enumerate() {
        let big = a >= small;
        for how in 0..9u8 {
            let forest = in_forest(how);
            let ps: Vec<Vec<u16>> = match how { 0 | 4 | 7 | 8 => vec![vec![]], 5 | 6 => thin(m.paths(), big).into_iter().filter(|p| !p.is_empty()).collect(), _ => thin(m.paths(), big) };
            for p in ps {
                let (cm, cf) = (m.at(&p).clone(), matches!(how, 2 | 4 | 6 | 8));
                for on_copy in [false, true] {
                    let all = if on_copy { edits::all(&cm, cf) } else { edits::all(m, forest) };
                    let k = all.len();
                    for (i, (ep, e)) in all.into_iter().enumerate() {
                        if big && i >= 8 && i % (k / 8) != 0 { continue; }
                        // clone_from(): every target in every storage form when the tree is small, otherwise all of them in turn
                        let kinds = if forest { 5u8 } else { 6 };
                        let vs = if how < 7 { 1 } else if m.count() <= 4 && i < 2 { 6 * kinds } else { 1 };
                        for kind in 0..kinds { for v in 0..vs {
                            let v = if how >= 7 && vs == 1 { ((a + i * 7 + kind as usize) % (6 * kinds as usize)) as u8 } else { v };
                            cases.push(Case { m: a as u32, kind, how, v, p: p.clone(), on_copy, ep: ep.clone(), e });
                        } }
                    }
                }
            }
        }
    }
    run.states += ms.len() as u64 * 6;
    run.explore(&format!("{tag}copy-{n}"), &format!("every tree and forest of at most {n} nodes (and families of {scaled:?}) x storage form x {} ways to copy x every node copied x one edit anywhere on either side, two drop orders", HOW.len()), cases.len() as u64,
        &|i| { let c = &cases[i as usize]; case::<X>(&ms[c.m as usize], c, i / 3) },
        &|i| { let c = &cases[i as usize]; let m = &ms[c.m as usize]; format!("{} in storage form {}: {} at {:?}; then {} on the {}", if in_forest(c.how) { forest_text(&m.kids) } else { m.text() }, c.kind, if c.how < 7 { HOW[c.how as usize].to_string() } else { let v = c.v as usize; format!("{} to {} ({}, storage form {})", HOW[c.how as usize], target(m, v % 6).text(), TARGETS[v % 6], v / 6) }, c.p, edits::describe(&c.ep, c.e), if c.on_copy { "copy" } else { "source" }) });
}
