//! Explorer of breadth-first iteration (C11), rebuilding (C12) and ill-formed streams (C13).
use crate::consume::{consume, key, step_text, ENDS, END_NAMES, STEPS};
use crate::edits;
use crate::model::{self, accounted, levels, M};
use crate::reg::{self, Datum};
use crate::shape::{self, S};
use crate::sup::{self, panics, Facet, Run};
use crate::util::H;
use crate::{bad, want};
use std::collections::VecDeque;
use trees::bfs::{Bfs, BfsForest, BfsTree, Splitted, Visit};
use trees::{Forest, Node, Size, Tree};

pub const VARIANTS: [&str; 14] = ["Node::bfs", "Node::bfs_children", "Forest::bfs", "Tree::bfs_mut", "Tree::bfs_children_mut", "Node::bfs_mut", "Node::bfs_children_mut", "Forest::bfs_mut",
    "Tree::into_bfs", "Forest::into_bfs", "Splitted::from(&Node)", "Splitted::from(iter_mut)", "Splitted::from(Tree)", "Splitted::from(Forest)"];
type Lv<'a> = Vec<(&'a M, usize, usize)>;
fn lv_tree(m: &M) -> Lv { levels(std::iter::once(m)) }
fn lv_kids(m: &M) -> Lv { levels(m.kids.iter()) }

/// Take `stop` visits (or all and more), checking sizes and handing each datum to `see`.
fn run<T, I: Iterator<Item = Visit<T>>>(it: &mut I, lv: &Lv, stop: usize, see: &mut dyn FnMut(usize, T)) {
    for i in 0..stop.min(lv.len()) {
        let (lo, hi) = it.size_hint();
        want!(Bfs, lo <= lv.len() - i && hi.map_or(true, |h| h >= lv.len() - i), "size_hint ({lo}, {hi:?}) excludes the {} visits left", lv.len() - i);
        sup::stat(0, 1);
        match it.next() {
            None => { bad!(Bfs, "the iteration ends after {i} of {} nodes", lv.len()); return; }
            Some(v) => {
                want!(Bfs, v.size.degree == lv[i].1 && v.size.descendants == lv[i].2, "visit {i} (node {}): size is ({}, {}), not ({}, {})", lv[i].0.lab, v.size.degree, v.size.descendants, lv[i].1, lv[i].2);
                see(i, v.data);
            }
        }
    }
    if stop > lv.len() { for _ in 0..3 { want!(Bfs, it.next().is_none(), "the iteration goes on after {} nodes", lv.len()); } }
}
fn size(got: Size, degree: usize, descendants: usize) {
    want!(Bfs, got.degree == degree && got.descendants == descendants, "the announced size is ({}, {}), not ({degree}, {descendants})", got.degree, got.descendants);
}
/// The iterator and size by one of the ways to get at them.
fn open_tree<T, I: Iterator<Item = Visit<T>>>(b: BfsTree<I>, way: usize, degree: usize, desc: usize) -> Option<I> {
    match way % 4 {
        0 => { size(b.size, degree, desc); Some(b.iter) }
        1 => Some(b.wrap().iter()),
        2 => { let (i, s) = b.wrap().iter_and_size(); size(s, degree, desc); Some(i) }
        _ => { let r = b.wrap().tree_iter(); want!(Bfs, r.is_some(), "tree_iter() of a tree is None"); r }
    }
}
fn open_forest<T, I: Iterator<Item = Visit<T>>>(b: BfsForest<I>, way: usize, degree: usize, desc: usize) -> Option<I> {
    match way % 4 {
        0 => { size(b.size, degree, desc); Some(b.iter) }
        1 => Some(b.wrap().iter()),
        2 => { let (i, s) = b.wrap().iter_and_size(); size(s, degree, desc); Some(i) }
        _ => { let r = b.wrap().forest_iter(); want!(Bfs, r.is_some(), "forest_iter() of a forest is None"); r }
    }
}
fn addr<X: Datum>(n: Option<&Node<X>>) -> *const X { n.map_or(std::ptr::null(), |n| n.data() as *const X) }
/// Paths of the nodes in level order.
fn level_paths(m: &M) -> Vec<Vec<u16>> {
    let mut q: VecDeque<Vec<u16>> = VecDeque::from([vec![]]);
    let mut out = vec![];
    while let Some(p) = q.pop_front() {
        for i in 0..m.at(&p).kids.len() { let mut c = p.clone(); c.push(i as u16); q.push_back(c); }
        out.push(p);
    }
    out
}
fn join(a: &[u16], b: &[u16]) -> Vec<u16> { let mut v = a.to_vec(); v.extend_from_slice(b); v }

fn see_mut<'a, X: Datum>(i: usize, d: &'a mut X, lv: &Lv, held: &mut Vec<&'a mut X>) {
    want!(Bfs, d.val() == X::norm(lv[i].0.lab), "visit {i} is {}, not {}", d.val(), lv[i].0.lab);
    held.push(d);
}
/// `path`: the node for variants of inner nodes.
fn bfs_case<X: Datum>(m: &M, kind: usize, var: usize, path: &[u16], stop: usize, way: usize) {
    accounted(|| {
        let mut h = H::new();
        let mut m = m.clone();
        let forest = matches!(var, 2 | 7 | 9 | 13);
        let mut t: Tree<X> = if forest { Tree::new(X::mk(77)) } else { model::build(&m, model::KINDS[kind]) };
        let mut f: Forest<X> = if forest { model::build_forest(&m.kids, model::FKINDS[kind % 5]) } else { Forest::new() };
        let sub = m.at(path).clone();
        let lt = lv_tree(&sub);
        let lk = lv_kids(&sub);
        let lp = level_paths(&sub);
        let (deg, desc) = (sub.kids.len(), sub.count() - 1);
        macro_rules! borrowed { ($it:expr, $lv:expr, $skip:expr) => { {
            let t = &t; let f = &f;
            let mut it = $it;
            run(&mut it, $lv, stop, &mut |i, d: &X| {
                want!(Bfs, d.val() == X::norm($lv[i].0.lab), "visit {i} is {}, not {}", d.val(), $lv[i].0.lab);
                let p = join(path, &lp[i + $skip]);
                let a = if forest { addr(f.iter().nth(p[0] as usize).and_then(|n| edits::at(n, &p[1..]))) } else { addr(edits::at(t.root(), &p)) };
                want!(Bfs, std::mem::size_of::<X>() == 0 || d as *const X == a, "visit {i} is not the node's own datum");
            });
        } } }
        macro_rules! mutable { ($it:expr, $lv:expr, $skip:expr) => { {
            let mut held = vec![];
            { let mut it = $it; run(&mut it, $lv, stop, &mut |i, d| see_mut(i, d, $lv, &mut held)); }
            let n = held.len();
            for (i, d) in held.into_iter().enumerate() { d.set(500 + i as u32); }
            for i in 0..n { m.at_mut(&join(path, &lp[i + $skip])).lab = 500 + i as u32; }
        } } }
        macro_rules! owned { ($it:expr, $lv:expr) => { {
            let mut held = vec![];
            let total = reg::live();
            let mut it = $it;
            run(&mut it, $lv, stop, &mut |i, d: X| { want!(Bfs, d.val() == X::norm($lv[i].0.lab), "visit {i} is {}, not {}", d.val(), $lv[i].0.lab); held.push(d); });
            want!(Bfs, reg::live() == total, "{} data of {total} are alive during the iteration", reg::live());
            // the data taken live on, the rest goes with the iterator
            if way % 2 == 0 {
                drop(it);
                let other = total - $lv.len();
                want!(Bfs, reg::live() == held.len() + other, "{} data live after dropping the iterator, {} were taken", reg::live() - other.min(reg::live()), held.len());
                for (i, d) in held.iter().enumerate() { want!(Bfs, d.val() == X::norm($lv[i].0.lab), "datum {i} changed"); }
            } else { drop(held); drop(it); }
        } } }
        match var {
            0 => { if let Some(n) = edits::at(t.root(), path) { if let Some(it) = open_tree(n.bfs(), way, 1, desc) { borrowed!(it, &lt, 0) } } }
            1 => { if let Some(n) = edits::at(t.root(), path) { if let Some(it) = open_forest(n.bfs_children(), way, deg, desc) { borrowed!(it, &lk, 1) } } }
            2 => { if let Some(it) = open_forest(f.bfs(), way, deg, desc) { borrowed!(it, &lk, 1) } }
            3 => { if let Some(it) = open_tree(t.bfs_mut(), way, 1, desc) { mutable!(it, &lt, 0) } }
            4 => { if let Some(it) = open_forest(t.bfs_children_mut(), way, deg, desc) { mutable!(it, &lk, 1) } }
            5 => { if let Some(n) = edits::at_mut(t.root_mut().get_mut(), path) { if let Some(it) = open_tree(n.bfs_mut(), way, 1, desc) { mutable!(it, &lt, 0) } } }
            6 => { if let Some(n) = edits::at_mut(t.root_mut().get_mut(), path) { if let Some(it) = open_forest(n.bfs_children_mut(), way, deg, desc) { mutable!(it, &lk, 1) } } }
            7 => { if let Some(it) = open_forest(f.bfs_mut(), way, deg, desc) { mutable!(it, &lk, 1) } }
            8 => { if let Some(it) = open_tree(t.into_bfs(), way, 1, desc) { owned!(it, &lt) } return; }
            9 => { if let Some(it) = open_forest(f.into_bfs(), way, deg, desc) { owned!(it, &lk) } return; }
            10 => { if let Some(n) = edits::at(t.root(), path) { borrowed!(Splitted::from(n), &lt, 0) } }
            11 => { if let Some(n) = edits::at_mut(t.root_mut().get_mut(), path) { mutable!(Splitted::from(n.iter_mut()), &lk, 1) } }
            12 => { owned!(Splitted::from(t), &lt); return; }
            _ => { owned!(Splitted::from(f), &lk); return; }
        }
        // the wrong accessor of the wrapped forms
        if way == 3 && !forest {
            want!(Bfs, t.bfs().wrap().forest_iter().is_none(), "forest_iter() of a tree is not None");
            want!(Bfs, t.bfs_children().wrap().tree_iter().is_none(), "tree_iter() of a forest is not None");
            want!(Bfs, matches!(t.bfs().wrap(), Bfs::Tree(_)) && matches!(t.bfs_children().wrap(), Bfs::Forest(_)), "wrap() gives the wrong variant");
        }
        if forest { model::check_forest(&f, &m.kids, &mut h) } else { model::check_tree(&t, &m, &mut h) }
        sup::stat(1, 1);
        sup::digest(h.0);
    })
}

/// Every sequence of consuming calls on a breadth-first iterator.
fn calls_case<X: Datum>(m: &M, kind: usize, var: usize, steps: u64, depth: u64, end: u64) {
    accounted(|| {
        let mut h = H::new();
        let all = |m: &M| lv_tree(m).iter().map(|x| key::<X>(x.0)).collect::<Vec<_>>();
        let kids = |m: &M| lv_kids(m).iter().map(|x| key::<X>(x.0)).collect::<Vec<_>>();
        let outer = M { lab: 90, st: 0, kids: vec![M::leaf(91), m.clone(), M { lab: 92, st: 0, kids: vec![M::leaf(93)] }] };
        macro_rules! go { ($it:expr, $w:expr) => { { let it = $it; consume(Facet::Bfs, it, false, None, &$w, steps, depth, end, |v| [v.data.val() as u64, v.size.degree as u64, v.size.descendants as u64 + 1], &mut h) } } }
        if matches!(var, 2 | 7 | 9) {
            let mut f: Forest<X> = model::build_forest(&m.kids, model::FKINDS[kind % 5]);
            match var { 2 => go!(f.bfs().iter, kids(m)), 7 => go!(f.bfs_mut().iter, kids(m)), _ => { go!(f.into_bfs().iter, kids(m)); return } }
            model::check_forest(&f, &m.kids, &mut h);
        } else {
            // the inner node, with siblings on both sides, for the variants of nodes
            let inner = matches!(var, 0 | 1 | 5 | 6);
            let whole = if inner { &outer } else { m };
            let mut t: Tree<X> = model::build(whole, model::KINDS[kind]);
            match var {
                0 => if let Some(n) = edits::at(t.root(), &[1]) { go!(n.bfs().iter, all(m)) },
                1 => if let Some(n) = edits::at(t.root(), &[1]) { go!(n.bfs_children().iter, kids(m)) },
                3 => go!(t.bfs_mut().iter, all(m)),
                4 => go!(t.bfs_children_mut().iter, kids(m)),
                5 => if let Some(n) = edits::at_mut(t.root_mut().get_mut(), &[1]) { go!(n.bfs_mut().iter, all(m)) },
                6 => if let Some(n) = edits::at_mut(t.root_mut().get_mut(), &[1]) { go!(n.bfs_children_mut().iter, kids(m)) },
                _ => { go!(t.into_bfs().iter, all(m)); return }
            }
            model::check_tree(&t, whole, &mut h);
        }
        sup::stat(1, 1);
        sup::digest(h.0);
    })
}

pub const TREE_ROUTES: [&str; 6] = ["Tree::from(bfs()) of references", "Tree::from(bfs().map(clone))", "Tree::from(into_bfs())", "Tree::from(into_bfs().map(f))", "Tree::from(collected visits)", "Tree::from(bfs_mut().map(f))"];
pub const FOREST_ROUTES: [&str; 7] = ["Forest::from(bfs_children()) of references", "Forest::from(bfs_children().map(clone))", "Forest::from(Forest::bfs().map(clone))", "Forest::from(into_bfs())", "Forest::from(into_bfs().map(f))", "Forest::from(collected visits)", "Forest::from(bfs_children_mut().map(f))"];
fn same_refs<X: Datum>(n: &Node<&X>, src: &Node<X>, m: &M) {
    want!(Rebuild, std::ptr::eq(*n.data(), src.data()), "node {}: the rebuilt node refers to another datum", m.lab);
    want!(Rebuild, n.degree() == m.kids.len() && n.node_count() == m.count(), "node {}: the rebuilt node has {} children and {} nodes", m.lab, n.degree(), n.node_count());
    want!(Rebuild, n.iter().count() == m.kids.len(), "node {}: the rebuilt node lists {} children", m.lab, n.iter().count());
    for ((a, b), k) in n.iter().zip(src.iter()).zip(&m.kids) {
        want!(Rebuild, a.parent().map_or(false, |p| std::ptr::eq(p, n)), "node {}: wrong parent", k.lab);
        same_refs(a, b, k);
    }
    want!(Rebuild, n.back().map(|x| *x.data() as *const X) == src.back().map(|x| x.data() as *const X), "node {}: wrong last child", m.lab);
}
fn set<X: Datum>(mut x: X) -> X { let v = x.val(); x.set(v + 500); x }
fn renamed(m: &M) -> M { let mut m = m.clone(); m.each_mut(&mut |n| n.lab = X500 + n.lab); m }
const X500: u32 = 500;
fn tree_route<X: Datum>(m: &M, kind: usize, route: usize, path: &[u16], e: Option<&(Vec<u16>, u8)>, d: u8) {
    accounted(|| {
        let mut h = H::new();
        let mut t: Tree<X> = model::build(m, model::KINDS[kind]);
        let sub = m.at(path).clone();
        sup::stat(0, 1);
        let (mut r, mut rm): (Tree<X>, M) = match route {
            0 => {
                let n = edits::at(t.root(), path).unwrap();
                let r = Tree::from(n.bfs());
                same_refs(r.root(), n, &sub);
                return;
            }
            1 => (Tree::from(edits::at(t.root(), path).unwrap().bfs().map(|x| x.clone())), sub),
            2 => { let s = if path.is_empty() { std::mem::replace(&mut t, Tree::new(X::mk(0))) } else { edits::at_mut(t.root_mut().get_mut(), path).unwrap().detach() }; (Tree::from(s.into_bfs()), sub) }
            3 => { let s = if path.is_empty() { std::mem::replace(&mut t, Tree::new(X::mk(0))) } else { edits::at_mut(t.root_mut().get_mut(), path).unwrap().detach() }; (Tree::from(s.into_bfs().map(set)), renamed(&sub)) }
            4 => {
                let b = edits::at(t.root(), path).unwrap().bfs();
                let size = b.size;
                let v: Vec<Visit<X>> = b.iter.map(|v| Visit { data: v.data.clone(), size: v.size }).collect();
                (Tree::from(BfsTree { iter: v.into_iter(), size }), sub)
            }
            _ => { let r = Tree::from(edits::at_mut(t.root_mut().get_mut(), path).unwrap().bfs_mut().map(|x| set(x.clone()))); (r, renamed(&sub)) }
        };
        model::check_tree(&r, &rm, &mut h);
        if !matches!(route, 2 | 3) { model::check_tree(&t, m, &mut h); }
        if sup::failed() { return; }
        let mut out = None;
        if let Some((p, e)) = e {
            out = edits::tree(&mut r, &mut rm, p, *e, 900);
            model::check_tree(&r, &rm, &mut h);
        }
        if sup::failed() { return; }
        if d % 2 == 0 { drop(t); model::check_tree(&r, &rm, &mut h); }
        if let Some((o, om)) = out { model::check_tree(&o, &om, &mut h); model::drain_tree(o, &om, d); }
        model::drain_tree(r, &rm, d);
        sup::digest(h.0);
    })
}
fn forest_route<X: Datum>(m: &M, kind: usize, route: usize, e: Option<&(Vec<u16>, u8)>, d: u8) {
    accounted(|| {
        let mut h = H::new();
        let src_forest = matches!(route, 2 | 3 | 4 | 5);
        let mut t: Tree<X> = if src_forest { Tree::new(X::mk(0)) } else { model::build(m, model::KINDS[kind]) };
        let mut f: Forest<X> = if src_forest { model::build_forest(&m.kids, model::FKINDS[kind % 5]) } else { Forest::new() };
        let sub = m.clone();
        sup::stat(0, 1);
        let (mut r, mut rm): (Forest<X>, M) = match route {
            0 => {
                let r = Forest::from(t.bfs_children());
                want!(Rebuild, r.degree() == m.kids.len() && r.iter().count() == m.kids.len() && r.node_count() == m.count() - 1, "the rebuilt forest has {} trees and {} nodes", r.degree(), r.node_count());
                for ((a, b), k) in r.iter().zip(t.iter()).zip(&m.kids) { want!(Rebuild, a.parent().is_none(), "a top-level node has a parent"); same_refs(a, b, k); }
                return;
            }
            1 => (Forest::from(t.bfs_children().map(|x| x.clone())), sub),
            2 => (Forest::from(f.bfs().map(|x| x.clone())), sub),
            3 => (Forest::from(std::mem::take(&mut f).into_bfs()), sub),
            4 => (Forest::from(std::mem::take(&mut f).into_bfs().map(set)), renamed(&sub)),
            5 => {
                let b = f.bfs();
                let size = b.size;
                let v: Vec<Visit<X>> = b.iter.map(|v| Visit { data: v.data.clone(), size: v.size }).collect();
                (Forest::from(BfsForest { iter: v.into_iter(), size }), sub)
            }
            _ => (Forest::from(t.bfs_children_mut().map(|x| set(x.clone()))), renamed(&sub)),
        };
        model::check_forest(&r, &rm.kids, &mut h);
        match route { 2 | 5 => model::check_forest(&f, &m.kids, &mut h), 1 | 6 => model::check_tree(&t, m, &mut h), _ => () }
        if sup::failed() { return; }
        let mut out = None;
        if let Some((p, e)) = e {
            out = edits::forest(&mut r, &mut rm, p, *e, 900);
            model::check_forest(&r, &rm.kids, &mut h);
        }
        if sup::failed() { return; }
        if d % 2 == 0 { drop(t); drop(f); model::check_forest(&r, &rm.kids, &mut h); }
        if let Some((o, om)) = out { model::check_tree(&o, &om, &mut h); model::drain_tree(o, &om, d); }
        model::drain_forest(r, &rm.kids, d);
        sup::digest(h.0);
    })
}

// ---- ill-formed streams ----

/// The one well-formed forest these visits describe, if they do.
fn parse(degree: usize, descendants: usize, v: &[(usize, usize)]) -> Option<Vec<M>> {
    // level order: assign children to parents in turn
    let mut first: Vec<usize> = vec![]; // index of the first child
    let mut next = degree;
    for x in v {
        first.push(next);
        next = next.checked_add(x.0)?;
    }
    if next != v.len() || degree > v.len() { return None; }
    // a node has to be announced before it is visited
    let mut announced = degree;
    for (i, x) in v.iter().enumerate() {
        if i >= announced { return None; }
        announced += x.0;
    }
    fn make(i: usize, v: &[(usize, usize)], first: &[usize]) -> M { M { lab: i as u32, st: 0, kids: (first[i]..first[i] + v[i].0).map(|k| make(k, v, first)).collect() } }
    let out: Vec<M> = (0..degree).map(|i| make(i, v, &first)).collect();
    let mut ok = descendants == model::forest_count(&out);
    for (m, _, d) in levels(out.iter()) { ok &= v[m.lab as usize].1 == d; }
    if ok { Some(out) } else { None }
}
fn stream<X: Datum>(v: &[(usize, usize)]) -> Vec<Visit<X>> {
    v.iter().enumerate().map(|(i, x)| Visit { data: X::mk(i as u32), size: Size { degree: x.0, descendants: x.1 } }).collect()
}
fn stream_case<X: Datum>(forest: bool, announced: (usize, usize), v: &[(usize, usize)], d: u8) {
    reg::reset();
    let mut h = H::new();
    sup::stat(0, 1);
    let vs = stream::<X>(v);
    if forest {
        let want = parse(announced.0, announced.1, v);
        let got = panics(|| Forest::from(BfsForest { iter: vs.into_iter(), size: Size { degree: announced.0, descendants: announced.1 } }));
        match (got, want) {
            (Ok(f), Some(k)) => { sup::stat(2, 1); model::check_forest(&f, &k, &mut h); if !sup::failed() { model::drain_forest(f, &k, d); } }
            (Err(()), None) => sup::stat(3, 1),
            (Ok(f), None) => { bad!(Malformed, "an ill-formed stream yields a forest of {} trees", f.degree()); std::mem::forget(f); }
            (Err(()), Some(k)) => bad!(Malformed, "a well-formed stream of {} is refused", model::forest_text(&k)),
        }
    } else {
        let want = if v.is_empty() { None } else { parse(1, v.len(), v) };
        let got = panics(|| Tree::from(BfsTree { iter: vs.into_iter(), size: Size { degree: announced.0, descendants: announced.1 } }));
        match (got, want) {
            (Ok(t), Some(k)) => { sup::stat(2, 1); model::check_tree(&t, &k[0], &mut h); if !sup::failed() { model::drain_tree(t, &k[0], d); } }
            (Err(()), None) => sup::stat(3, 1),
            (Ok(t), None) => { bad!(Malformed, "an ill-formed stream yields a tree of {} nodes", t.node_count()); std::mem::forget(t); }
            (Err(()), Some(k)) => bad!(Malformed, "a well-formed stream of {} is refused", k[0].text()),
        }
    }
    sup::digest(h.0);
}
/// Single (and double) faults in well-formed streams.
fn mutants(v: &[(usize, usize)]) -> Vec<Vec<(usize, usize)>> {
    let mut out = vec![v.to_vec()];
    let n = v.len();
    for k in 0..n { out.push(v[..k].to_vec()); }
    for k in 0..n { let mut w = v.to_vec(); w.remove(k); out.push(w); }
    for k in 0..n { let mut w = v.to_vec(); w.insert(k, v[k]); out.push(w); }
    for x in [(0, 0), (1, 1), (0, 1), (1, 0)] { for k in 0..=n { let mut w = v.to_vec(); w.insert(k, x); out.push(w); } let mut w = v.to_vec(); w.extend([x; 4]); out.push(w); }
    for k in 0..n {
        for dd in [-2i64, -1, 0, 1, 2, 7] { for de in [-2i64, -1, 0, 1, 2, 9] {
            let (a, b) = (v[k].0 as i64 + dd, v[k].1 as i64 + de);
            if a >= 0 && b >= 0 { let mut w = v.to_vec(); w[k] = (a as usize, b as usize); out.push(w); }
        } }
        let mut w = v.to_vec(); w[k].0 = usize::MAX; out.push(w);
        let mut w = v.to_vec(); w[k].1 = usize::MAX; out.push(w);
    }
    for i in 0..n { for j in 0..i {
        let mut w = v.to_vec(); w.swap(i, j); out.push(w);
        for (x, y) in [(1i64, -1i64), (-1, 1)] {
            let (a, b) = (v[i].0 as i64 + x, v[j].0 as i64 + y);
            if a >= 0 && b >= 0 { let mut w = v.to_vec(); w[i].0 = a as usize; w[j].0 = b as usize; out.push(w); }
            let (a, b) = (v[i].1 as i64 + x, v[j].1 as i64 + y);
            if a >= 0 && b >= 0 { let mut w = v.to_vec(); w[i].1 = a as usize; w[j].1 = b as usize; out.push(w); }
        }
    } }
    out
}

pub struct Bounds { pub n: usize, pub edit: usize, pub scaled: Vec<usize>, pub len: usize, pub deg: usize, pub desc: usize, pub long: Option<(usize, usize, usize)>, pub mutants: usize }
pub fn explore<X: Datum>(run: &mut Run, tag: &str, b: &Bounds, what: i64) {
    let mut shapes: Vec<S> = shape::trees_upto(b.n);
    let exact = shapes.len();
    for &s in &b.scaled { shapes.extend(shape::scaled(s).into_iter().map(|x| x.1)); }
    let ms: Vec<M> = shapes.iter().map(|s| { let mut l = 0; model::label(s, &mut l) }).collect();
    if what & 1 != 0 {
        let mut cases: Vec<(u32, u8, u8, u16, u8, Vec<u16>)> = vec![];
        for (a, m) in ms.iter().enumerate() {
            let n = m.count();
            let stops: Vec<usize> = if a < exact { (0..=n + 1).collect() } else { vec![0, 1, 2, n / 2, n - 1, n, n + 1] };
            for k in 0..6u8 { for v in 0..VARIANTS.len() as u8 {
                let inner = matches!(v, 0 | 1 | 5 | 6 | 10 | 11);
                let ps = if inner && a < exact { m.paths() } else { vec![vec![]] };
                for p in ps { for &s in &stops { for w in 0..4u8 { if v >= 10 && w > 1 { continue; } cases.push((a as u32, k, v, s as u16, w, p.clone())); } } }
            } }
        }
        run.states += ms.len() as u64 * 6;
        run.explore(&format!("{tag}bfs-{}", b.n), &format!("every tree and forest of at most {} nodes (and families of {:?}) x 6 storage forms x {} iterations x every node they start from x every stopping point x 4 ways to open them", b.n, b.scaled, VARIANTS.len()), cases.len() as u64,
            &|i| { let (a, k, v, s, w, p) = &cases[i as usize]; bfs_case::<X>(&ms[*a as usize], *k as usize, *v as usize, p, *s as usize, *w as usize) },
            &|i| { let (a, k, v, s, w, p) = &cases[i as usize]; format!("{} of {} built {k} at {p:?}, stopped after {s} visits, opened by way {w}", VARIANTS[*v as usize], ms[*a as usize].text()) });
        // every sequence of consuming calls, on the small shapes
        let opened: [usize; 10] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
        let (small, depth) = if !tag.is_empty() { (if run.thorough() { 4 } else { 3 }, 1) } else if run.thorough() { (5, 3u64) } else { (4, 2u64) };
        let few: Vec<usize> = (0..ms.len()).filter(|&a| ms[a].count() <= small).collect();
        let seqs: Vec<(u64, u64)> = (0..=depth).flat_map(|k| (0..STEPS.pow(k as u32)).map(move |s| (s, k))).collect();
        let nv = opened.len() as u64;
        let per = seqs.len() as u64 * ENDS * nv * 6;
        let dec = move |i: u64| { let a = (i / per) as usize; let j = i % per; ((j % nv) as usize, (j / nv % 6) as usize, j / nv / 6 % ENDS, (j / nv / 6 / ENDS) as usize, a) };
        run.explore(&format!("{tag}bfs-calls"), &format!("every tree and forest of at most {small} nodes x 6 storage forms x {nv} iterations x every sequence of {STEPS} consuming calls up to length {depth} x {ENDS} ways to consume the rest"), per * few.len() as u64,
            &|i| { let (v, k, e, s, a) = dec(i); calls_case::<X>(&ms[few[a]], k, opened[v], seqs[s].0, seqs[s].1, e) },
            &|i| { let (v, k, e, s, a) = dec(i); format!("{} of {} built {:?}: {}, then {}", VARIANTS[opened[v]], ms[few[a]].text(), model::KINDS[k], step_text(seqs[s]), END_NAMES[e as usize]) });
    }
    if what & 2 != 0 {
        for forest in [false, true] {
            let mut cases: Vec<(u32, u8, u8, Vec<u16>, Option<(Vec<u16>, u8)>)> = vec![];
            for (a, m) in ms.iter().enumerate() {
                for k in 0..6u8 {
                    let routes = if forest { FOREST_ROUTES.len() } else { TREE_ROUTES.len() } as u8;
                    for r in 0..routes {
                        for p in if forest || a >= exact { vec![vec![]] } else { m.paths() } {
                            cases.push((a as u32, k, r, p.clone(), None));
                            if r == 0 { continue; }
                            let es = edits::all(m.at(&p), forest);
                            if m.count() <= b.edit { for e in es { cases.push((a as u32, k, r, p.clone(), Some(e))); } }
                            else { let n = es.len(); for (i, e) in es.into_iter().enumerate() { if i % (1 + n / 6) == a % 3 { cases.push((a as u32, k, r, p.clone(), Some(e))); } } }
                        }
                    }
                }
            }
            run.states += ms.len() as u64 * 6;
            let names: Vec<&str> = if forest { FOREST_ROUTES.to_vec() } else { TREE_ROUTES.to_vec() };
            run.explore(&format!("{tag}rebuild-{}-{}", if forest { "forest" } else { "tree" }, b.n), &format!("every shape of at most {} nodes (and families of {:?}) x 6 storage forms x {} ways to rebuild x every node x every first edit (up to {} nodes; some beyond)", b.n, b.scaled, names.len(), b.edit), cases.len() as u64,
                &|i| { let (a, k, r, p, e) = &cases[i as usize]; let d = (i % 10) as u8; if forest { forest_route::<X>(&ms[*a as usize], *k as usize, *r as usize, e.as_ref(), d) } else { tree_route::<X>(&ms[*a as usize], *k as usize, *r as usize, p, e.as_ref(), d) } },
                &|i| { let (a, k, r, p, e) = &cases[i as usize]; format!("{} built {:?}; {} at {p:?}; {}", ms[*a as usize].text(), model::KINDS[*k as usize], names[*r as usize], e.as_ref().map_or("no edit".into(), |e| edits::describe(&e.0, e.1))) });
        }
    }
    if what & 4 != 0 {
        for forest in [false, true] {
            // (length, largest degree, largest descendants)
            let mut spaces: Vec<(usize, usize, usize)> = (0..=b.len - forest as usize).map(|l| (l, b.deg, b.desc)).collect();
            if let Some(l) = b.long { spaces.push((l.0 - forest as usize, l.1, l.2)); }
            let sz: Vec<(u64, usize)> = spaces.iter().map(|&(l, a, d)| { let o = (a + 1) * (d + 1); ((o as u64).pow(l as u32 + forest as u32), o) }).collect();
            let mut first = vec![0u64];
            for s in &sz { first.push(first.last().unwrap() + s.0); }
            let dec = |i: u64| {
                let k = first.partition_point(|&f| f <= i) - 1;
                let (l, a, _) = spaces[k];
                let mut j = i - first[k];
                let mut v = vec![];
                for _ in 0..l + forest as usize { let x = (j % sz[k].1 as u64) as usize; v.push((x % (a + 1), x / (a + 1))); j /= sz[k].1 as u64; }
                let ann = if forest { v.remove(0) } else { (1, l.saturating_sub(1)) };
                (ann, v)
            };
            let name = if forest { "forest" } else { "tree" };
            run.states += *first.last().unwrap();
            run.explore(&format!("{tag}streams-{name}-{}-{}-{}", b.len, b.deg, b.desc), &format!("every stream of visits (length, degree claims up to, descendants claims up to) in {spaces:?}{}", if forest { " x every announced size" } else { "" }), *first.last().unwrap(),
                &|i| { let (a, v) = dec(i); stream_case::<X>(forest, a, &v, (i % 10) as u8) },
                &|i| { let (a, v) = dec(i); format!("{name} from the visits (degree, descendants) {v:?}, announced {a:?}") });
            let mut cases: Vec<((usize, usize), Vec<(usize, usize)>)> = vec![];
            let mut all = shape::trees_upto(b.mutants);
            all.extend(shape::scaled(12).into_iter().map(|x| x.1));
            for s in all {
                let mut l = 0;
                let m = model::label(&s, &mut l);
                let v: Vec<(usize, usize)> = if forest { lv_kids(&m) } else { lv_tree(&m) }.into_iter().map(|x| (x.1, x.2)).collect();
                let ann = if forest { (m.kids.len(), m.count() - 1) } else { (1, m.count() - 1) };
                for w in mutants(&v) { cases.push((ann, w)); }
                if forest { for a in [0, 1, 2, 3, 9, usize::MAX] { for d in [0usize, 1, 2, 3, 4, 5, 6, 7, 15, usize::MAX] { cases.push(((a, d), v.clone())); } } }
            }
            run.states += cases.len() as u64;
            run.explore(&format!("{tag}stream-faults-{name}-{}", b.mutants), &format!("the stream of every shape of at most {} nodes with every truncation, removal, insertion, duplication, exchange and change of a claim", b.mutants), cases.len() as u64,
                &|i| { let (a, v) = &cases[i as usize]; stream_case::<X>(forest, *a, v, (i % 10) as u8) },
                &|i| { let (a, v) = &cases[i as usize]; format!("{name} from the visits (degree, descendants) {v:?}, announced {a:?}") });
        }
    }
}
