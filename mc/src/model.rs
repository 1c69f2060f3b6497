//! Reference model: plain ordered trees of labels, how to build them with the real library in every
//! storage form, and how to compare real trees with them through the public API.
use crate::reg::Datum;
use crate::shape::S;
use crate::util::H;
use crate::{bad, want};
use trees::bfs::{BfsForest, BfsTree, Visit};
use trees::{Forest, Node, Size, Tree};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct M {
    pub lab: u32,
    pub st: u16, // storage: 0 its own allocation, p > 0 part of contiguous buffer p
    pub kids: Vec<M>,
}
impl M {
    pub fn leaf(lab: u32) -> M { M { lab, st: 0, kids: vec![] } }
    pub fn count(&self) -> usize { 1 + self.kids.iter().map(|k| k.count()).sum::<usize>() }
    pub fn height(&self) -> usize { 1 + self.kids.iter().map(|k| k.height()).max().unwrap_or(0) }
    /// The documented Display text.
    pub fn text(&self) -> String {
        if self.kids.is_empty() { return self.lab.to_string(); }
        let mut s = format!("{}( ", self.lab);
        for k in &self.kids { s.push_str(&k.text()); s.push(' '); }
        s.push(')');
        s
    }
    pub fn at(&self, path: &[u16]) -> &M {
        let mut m = self;
        for &i in path { m = &m.kids[i as usize]; }
        m
    }
    pub fn at_mut(&mut self, path: &[u16]) -> &mut M {
        let mut m = self;
        for &i in path { m = &mut m.kids[i as usize]; }
        m
    }
    pub fn each(&self, f: &mut dyn FnMut(&M)) { f(self); for k in &self.kids { k.each(f); } }
    pub fn each_mut(&mut self, f: &mut dyn FnMut(&mut M)) { f(self); for k in &mut self.kids { k.each_mut(f); } }
    /// Every path, in preorder; the root's is empty.
    pub fn paths(&self) -> Vec<Vec<u16>> {
        fn go(m: &M, p: &mut Vec<u16>, out: &mut Vec<Vec<u16>>) {
            out.push(p.clone());
            for (i, k) in m.kids.iter().enumerate() { p.push(i as u16); go(k, p, out); p.pop(); }
        }
        let mut out = vec![];
        go(self, &mut vec![], &mut out);
        out
    }
    pub fn shape(&self) -> S { S(self.kids.iter().map(|k| k.shape()).collect()) }
}
pub fn forest_text(f: &[M]) -> String {
    if f.is_empty() { return "()".into(); }
    let mut s = String::from("( ");
    for k in f { s.push_str(&k.text()); s.push(' '); }
    s.push(')');
    s
}
pub fn forest_count(f: &[M]) -> usize { f.iter().map(|k| k.count()).sum() }

/// Label a shape in preorder.
pub fn label(s: &S, next: &mut u32) -> M {
    let lab = *next;
    *next += 1;
    M { lab, st: 0, kids: s.0.iter().map(|k| label(k, next)).collect() }
}
pub fn label_forest(f: &[S], next: &mut u32) -> Vec<M> { f.iter().map(|k| label(k, next)).collect() }

/// Level order: (node, degree, descendants)
pub fn levels<'a>(roots: impl Iterator<Item = &'a M>) -> Vec<(&'a M, usize, usize)> {
    let mut q: std::collections::VecDeque<&M> = roots.collect();
    let mut out = vec![];
    while let Some(m) = q.pop_front() {
        out.push((m, m.kids.len(), m.count() - 1));
        q.extend(m.kids.iter());
    }
    out
}
pub fn visits<X: Datum>(roots: &[M]) -> Vec<Visit<X>> {
    levels(roots.iter()).into_iter().map(|(m, degree, descendants)| Visit { data: X::mk(m.lab), size: Size { degree, descendants } }).collect()
}

/// How to build a tree.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Scattered, ScatteredFront, Piled, PiledKids, Holes, Offset }
pub const KINDS: [Kind; 6] = [Kind::Scattered, Kind::Piled, Kind::Offset, Kind::PiledKids, Kind::Holes, Kind::ScatteredFront];

pub fn piled<X: Datum>(m: &M) -> Tree<X> {
    let v = visits::<X>(std::slice::from_ref(m));
    Tree::from(BfsTree { iter: v.into_iter(), size: Size { degree: 1, descendants: m.count() - 1 } })
}
pub fn piled_forest<X: Datum>(f: &[M]) -> Forest<X> {
    let v = visits::<X>(f);
    Forest::from(BfsForest { iter: v.into_iter(), size: Size { degree: f.len(), descendants: forest_count(f) } })
}
pub fn scattered<X: Datum>(m: &M) -> Tree<X> {
    let mut t = Tree::new(X::mk(m.lab));
    for k in &m.kids { t.push_back(scattered(k)); }
    t
}
pub fn build<X: Datum>(m: &M, kind: Kind) -> Tree<X> {
    match kind {
        Kind::Scattered => scattered(m),
        Kind::ScatteredFront => {
            let mut t = Tree::new(X::mk(m.lab));
            for k in m.kids.iter().rev() { t.push_front(build(k, kind)); }
            t
        }
        Kind::Piled => piled(m),
        Kind::PiledKids => {
            let mut t = Tree::new(X::mk(m.lab));
            for k in &m.kids { t.push_back(piled(k)); }
            t
        }
        Kind::Holes => {
            // the odd children are replaced by scattered ones
            let mut even = m.clone();
            let mut i = 0;
            even.kids.retain(|_| { i += 1; i % 2 == 1 });
            let mut t = piled::<X>(&even);
            for (i, k) in m.kids.iter().enumerate() {
                if i % 2 == 1 {
                    let k = build(k, kind);
                    let prev = t.iter_mut().nth(i - 1).unwrap();
                    prev.get_mut().insert_next_sib(k);
                }
            }
            t
        }
        Kind::Offset => {
            // cut out of a larger buffer, the rest of which is gone
            let big = M { lab: 9000, st: 0, kids: vec![M { lab: 9001, st: 0, kids: vec![M::leaf(9002)] }, m.clone(), M::leaf(9003)] };
            let mut t = piled::<X>(&big);
            let t = t.iter_mut().nth(1).unwrap().get_mut().detach();
            t
        }
    }
}
/// How to build a forest: as trees are built, or contiguous, or what is left of an abandoned tree.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FKind { Pushed(Kind), Piled, Abandoned(Kind) }
pub const FKINDS: [FKind; 5] = [FKind::Pushed(Kind::Scattered), FKind::Piled, FKind::Abandoned(Kind::Piled), FKind::Abandoned(Kind::Holes), FKind::Pushed(Kind::Offset)];
pub fn build_forest<X: Datum>(f: &[M], kind: FKind) -> Forest<X> {
    match kind {
        FKind::Pushed(k) => {
            let mut o = Forest::new();
            for m in f { o.push_back(build(m, k)); }
            o
        }
        FKind::Piled => piled_forest(f),
        FKind::Abandoned(k) => {
            let m = M { lab: 9009, st: 0, kids: f.to_vec() };
            build::<X>(&m, k).abandon()
        }
    }
}

const MANY: usize = 4096;

/// The subtree below `n` is exactly `m`; `up` is the node that lists it.
pub fn check_node<X: Datum>(n: &Node<X>, m: &M, up: Option<&Node<X>>, h: &mut H) -> usize {
    let v = n.data().val();
    h.add(v as u64);
    want!(Shape, v == X::norm(m.lab), "node {}: its data is {v}", m.lab);
    h.add(n.degree() as u64);
    h.add(n.node_count() as u64);
    want!(Count, n.degree() == m.kids.len(), "node {}: degree() is {}, not {}", m.lab, n.degree(), m.kids.len());
    want!(Count, n.has_no_child() == m.kids.is_empty(), "node {}: has_no_child() is {}", m.lab, n.has_no_child());
    match (n.parent(), up) {
        (None, None) => (),
        (Some(p), Some(u)) => want!(Link, core::ptr::eq(p, u), "node {}: parent() is not the node that lists it", m.lab),
        (Some(_), None) => bad!(Link, "root or top-level node {} has a parent", m.lab),
        (None, Some(_)) => bad!(Link, "node {} has no parent", m.lab),
    }
    let count = 1 + check_list(n.iter(), n.front(), n.back(), &m.kids, Some(n), &|| format!("node {}", m.lab), h);
    want!(Count, n.node_count() == count, "node {}: node_count() is {}, not {}", m.lab, n.node_count(), count);
    count
}
fn check_list<'a, X: Datum>(it: trees::Iter<'a, X>, front: Option<&Node<X>>, back: Option<&Node<X>>, kids: &[M], up: Option<&Node<X>>, who: &dyn Fn() -> String, h: &mut H) -> usize {
    want!(Count, it.len() == kids.len(), "{}: iter().len() is {}, not {}", who(), it.len(), kids.len());
    let mut i = 0;
    let mut count = 0;
    let mut first: Option<*const Node<X>> = None;
    let mut last: Option<*const Node<X>> = None;
    for k in it {
        if first.is_none() { first = Some(k); }
        last = Some(k);
        if i < kids.len() {
            count += check_node(k, &kids[i], up, h);
        } else {
            bad!(Shape, "{}: it lists more than its {} children", who(), kids.len());
            if i > MANY { break; }
        }
        i += 1;
    }
    want!(Shape, i >= kids.len(), "{}: it lists {i} of its {} children", who(), kids.len());
    if i < kids.len() { count = forest_count(kids); }
    want!(Link, front.map(|x| x as *const _) == first, "{}: front() is not its first listed child", who());
    want!(Link, back.map(|x| x as *const _) == last, "{}: back() is not its last listed child", who());
    // Also without trusting the listing.
    for (what, got, exp) in [("front", front, kids.first()), ("back", back, kids.last())] {
        match (got, exp) {
            (None, None) => (),
            (Some(n), Some(m)) => want!(Link, n.data().val() == X::norm(m.lab), "{}: {what}() is {}, not {}", who(), n.data().val(), m.lab),
            (None, Some(m)) => bad!(Link, "{}: {what}() is None, not {}", who(), m.lab),
            (Some(n), None) => bad!(Link, "{}: {what}() is {}, not None", who(), n.data().val()),
        }
    }
    count
}
pub fn check_tree<X: Datum>(t: &Tree<X>, m: &M, h: &mut H) { let _ = check_node(t.root(), m, None, h); }
pub fn check_forest<X: Datum>(f: &Forest<X>, kids: &[M], h: &mut H) {
    h.add(f.degree() as u64);
    h.add(f.node_count() as u64);
    want!(Count, f.degree() == kids.len(), "forest {}: degree() is {}", forest_text(kids), f.degree());
    want!(Count, f.node_count() == forest_count(kids), "forest {}: node_count() is {}", forest_text(kids), f.node_count());
    want!(Count, f.has_no_child() == kids.is_empty(), "forest {}: has_no_child() is {}", forest_text(kids), f.has_no_child());
    check_list(f.iter(), f.front(), f.back(), kids, None, &|| format!("forest {}", forest_text(kids)), h);
}

/// Ways to take a tree or forest apart, checking everything on the way.
pub const DRAINS: u8 = 10;
pub fn drain_tree<X: Datum>(mut t: Tree<X>, m: &M, d: u8) {
    let mut h = H::new();
    match d {
        0 => drop(t),
        1..=6 => {
            let mut rest = m.clone();
            while !rest.kids.is_empty() {
                let i = pick(d, rest.kids.len());
                let got = match d {
                    1 => t.pop_front(),
                    2 => t.pop_back(),
                    3 => t.front_mut().map(|n| n.get_mut().detach()),
                    4 => t.back_mut().map(|n| n.get_mut().detach()),
                    5 => t.root_mut().get_mut().iter_mut().nth(i).map(|n| n.get_mut().detach()),
                    _ => t.root_mut().iter_mut().last().map(|n| n.get_mut().detach()),
                };
                let k = rest.kids.remove(i);
                match got {
                    Some(sub) => {
                        check_tree(&sub, &k, &mut h);
                        if brief(rest.kids.len()) { check_tree(&t, &rest, &mut h); }
                        drain_tree(sub, &k, d);
                    }
                    None => { bad!(Shape, "node {}: child {} cannot be taken", m.lab, k.lab); break; }
                }
            }
            want!(Shape, t.pop_front().is_none(), "node {}: it has children left", m.lab);
            want!(Shape, t.pop_back().is_none(), "node {}: it has children left", m.lab);
            check_tree(&t, &M { lab: m.lab, st: 0, kids: vec![] }, &mut h);
        }
        7 => {
            let mut w = trees::TreeWalk::from(t);
            walk_check(m, &mut |seq| {
                let got = w.get().map(|v| ev(&v));
                let ok = got == seq.map(|(k, l)| (k, X::norm(l)));
                if !ok { bad!(Link, "depth-first traversal is at {got:?}, not {seq:?}"); }
                w.forward();
            });
            let t = Tree::from(w);
            check_tree(&t, m, &mut h);
        }
        8 => {
            let f = t.abandon();
            check_tree(&t, &M { lab: m.lab, st: 0, kids: vec![] }, &mut h);
            check_forest(&f, &m.kids, &mut h);
            drop(t);
            for (i, sub) in f.into_iter().enumerate() {
                match m.kids.get(i) {
                    Some(k) => drain_tree(sub, k, d),
                    None => { bad!(Shape, "node {}: too many children", m.lab); break; }
                }
            }
        }
        _ => {
            // every data in level order through the owning iterator, half of it only at odd labels
            let lv = levels(std::iter::once(m));
            let mut i = 0;
            for v in t.into_bfs().iter {
                if i >= lv.len() { bad!(Shape, "too many nodes in level order"); break; }
                want!(Shape, v.data.val() == X::norm(lv[i].0.lab), "level order lists {}, not {}", v.data.val(), lv[i].0.lab);
                i += 1;
            }
            want!(Shape, i == lv.len(), "level order lists {i} of {} nodes", lv.len());
        }
    }
}
/// What is left of a wide node is looked at now and then.
fn brief(n: usize) -> bool { n <= 12 || n % 64 == 63 }
fn pick(d: u8, n: usize) -> usize { match d { 1 | 3 => 0, 2 | 4 | 6 => n - 1, _ => n / 2 } }
pub fn drain_forest<X: Datum>(mut f: Forest<X>, kids: &[M], d: u8) {
    let mut h = H::new();
    match d {
        0 => drop(f),
        1..=6 => {
            let mut rest = kids.to_vec();
            while !rest.is_empty() {
                let i = pick(d, rest.len());
                let got = match d {
                    1 => f.pop_front(),
                    2 => f.pop_back(),
                    3 => f.front_mut().map(|n| n.get_mut().detach()),
                    4 => f.back_mut().map(|n| n.get_mut().detach()),
                    5 => f.iter_mut().nth(i).map(|n| n.get_mut().detach()),
                    _ => f.iter_mut().last().map(|n| n.get_mut().detach()),
                };
                let k = rest.remove(i);
                match got {
                    Some(sub) => {
                        check_tree(&sub, &k, &mut h);
                        if brief(rest.len()) { check_forest(&f, &rest, &mut h); }
                        drain_tree(sub, &k, d);
                    }
                    None => { bad!(Shape, "forest: tree {} cannot be taken", k.lab); break; }
                }
            }
            want!(Shape, f.pop_front().is_none(), "forest has trees left");
            want!(Shape, f.pop_back().is_none(), "forest has trees left");
            check_forest(&f, &[], &mut h);
        }
        7 => {
            let mut w = trees::ForestWalk::from(f);
            walk_forest_check(kids, &mut |seq| {
                let got = w.get().map(|v| ev(&v));
                let ok = got == seq.map(|(k, l)| (k, X::norm(l)));
                if !ok { bad!(Link, "depth-first traversal is at {got:?}, not {seq:?}"); }
                w.forward();
            });
            let f = Forest::from(w);
            check_forest(&f, kids, &mut h);
        }
        8 => {
            for (i, sub) in f.into_iter().enumerate() {
                match kids.get(i) {
                    Some(k) => drain_tree(sub, k, d),
                    None => { bad!(Shape, "forest: too many trees"); break; }
                }
            }
        }
        _ => {
            let lv = levels(kids.iter());
            let mut i = 0;
            for v in f.into_bfs().iter {
                if i >= lv.len() { bad!(Shape, "too many nodes in level order"); break; }
                want!(Shape, v.data.val() == X::norm(lv[i].0.lab), "level order lists {}, not {}", v.data.val(), lv[i].0.lab);
                i += 1;
            }
            want!(Shape, i == lv.len(), "level order lists {i} of {} nodes", lv.len());
        }
    }
}
/// (event, label): 0 Begin, 1 End, 2 Leaf
pub fn ev<X: Datum>(v: &trees::walk::Visit<X>) -> (u8, u32) {
    match v {
        trees::walk::Visit::Begin(n) => (0, n.data().val()),
        trees::walk::Visit::End(n) => (1, n.data().val()),
        trees::walk::Visit::Leaf(n) => (2, n.data().val()),
    }
}
fn walk_seq(m: &M, out: &mut Vec<(u8, u32)>) {
    if m.kids.is_empty() { out.push((2, m.lab)); return; }
    out.push((0, m.lab));
    for k in &m.kids { walk_seq(k, out); }
    out.push((1, m.lab));
}
fn walk_check(m: &M, f: &mut dyn FnMut(Option<(u8, u32)>)) { walk_forest_check(std::slice::from_ref(m), f) }
fn walk_forest_check(kids: &[M], f: &mut dyn FnMut(Option<(u8, u32)>)) {
    let mut seq = vec![];
    for k in kids { walk_seq(k, &mut seq); }
    for e in seq { f(Some(e)); }
    for _ in 0..2 { f(None); }
}

/// Run a case between a fresh registry and the accounting at its end: every datum dropped, all memory returned.
pub fn accounted(f: impl FnOnce()) {
    crate::reg::reset();
    let before = crate::alloc::live();
    f();
    let left = crate::reg::live();
    want!(Drop, left == 0, "{left} data never dropped");
    let after = crate::alloc::live();
    want!(Leak, after == before, "{} blocks and {} bytes are still allocated", after.0 - before.0, after.1 - before.1);
}
