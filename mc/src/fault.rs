//! A panic at every single call of user code by the library, and what is left afterwards (C23).
use crate::copy::check_rc;
use crate::edits;
use crate::model::{self, forest_text, FKind, Kind, FKINDS, KINDS, M};
use crate::reg::{self, Datum, D, K_CALL, K_CLONE, K_CMP, K_DROP, K_EQ, K_FMT, K_HASH};
use crate::shape;
use crate::sup::{self, panics, Run};
use crate::util::H;
use crate::{bad, want};
use std::hash::Hash;
use trees::bfs::{BfsForest, BfsTree, Split, Splitted, Visit};
use trees::{Forest, ForestWalk, Node, RcNode, Size, Tree, TreeWalk, WeakNode};

/// Run it with the `at`-th call of this kind of user code panicking; None if it never came to that.
fn bang<R>(kind: u8, at: u32, f: impl FnOnce() -> R) -> Option<R> {
    reg::arm(kind, at as i32);
    let r = panics(f);
    let fired = reg::BOMB.with(|b| b.get().countdown < 0);
    reg::disarm();
    sup::stat(0, 1);
    match r {
        Ok(r) => { want!(Fault, !fired, "the panic of user code was swallowed"); Some(r) }
        Err(()) => { if fired { sup::stat(2, 1) } else { bad!(Fault, "the library panicked by itself") }; None }
    }
}
/// What may be left over: nothing at all, clones made before the panic, or anything which the interrupted drop did not come to.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Left { Nothing, Clones, Anything }
/// `sources` data are made before the faulty operation; afterwards everything the case can reach is gone.
fn judged(f: impl FnOnce() -> (Left, u32)) {
    reg::reset();
    let before = crate::alloc::live();
    let (left, sources) = f();
    sup::stat(1, 1);
    match left {
        Left::Nothing => {
            want!(Fault, reg::live() == 0, "{} data never dropped", reg::live());
            let after = crate::alloc::live();
            want!(Fault, after == before, "{} blocks are still allocated", after.0 - before.0);
        }
        Left::Clones => for u in 1..=sources { want!(Fault, !reg::is_live(u), "datum {} of the source never dropped", reg::val_of(u)); },
        Left::Anything => (),
    }
}
fn hash<X: Hash>(x: &X) { let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); }
fn call() { reg::user_call(K_CALL) }

/// A tree which survived is as it was, and as usable.
fn survives(mut t: Tree<D>, mut m: M, z: u32, h: &mut H) {
    model::check_tree(&t, &m, h);
    if sup::failed() { return std::mem::forget(t); }
    let all = edits::all(&m, false);
    let (p, e) = &all[(z as usize * 7) % all.len()];
    if let Some((o, om)) = edits::tree(&mut t, &mut m, p, *e, 300) { model::check_tree(&o, &om, h); model::drain_tree(o, &om, (z % 10) as u8); }
    model::check_tree(&t, &m, h);
    if sup::failed() { return std::mem::forget(t); }
    model::drain_tree(t, &m, (z / 3 % 10) as u8);
}
fn survives_forest(mut f: Forest<D>, mut m: M, z: u32, h: &mut H) {
    model::check_forest(&f, &m.kids, h);
    if sup::failed() { return std::mem::forget(f); }
    let all = edits::all(&m, true);
    let (p, e) = &all[(z as usize * 7) % all.len()];
    if let Some((o, om)) = edits::forest(&mut f, &mut m, p, *e, 300) { model::check_tree(&o, &om, h); model::drain_tree(o, &om, (z % 10) as u8); }
    model::check_forest(&f, &m.kids, h);
    if sup::failed() { return std::mem::forget(f); }
    model::drain_forest(f, &m.kids, (z / 3 % 10) as u8);
}
fn survives_rc(r: RcNode<D>, mut m: M, z: u32, h: &mut H) {
    if panics(|| check_rc(&r, &m, true, h)).is_err() { bad!(Fault, "a node is still borrowed, or cannot be looked at"); }
    if sup::failed() { return std::mem::forget(r); }
    let all = edits::all(&m, false);
    let (p, e) = all[(z as usize * 7) % all.len()].clone();
    let done = panics(|| {
        let k = at_rc(&r, &p)?;
        if let Some((o, om)) = edits::shared(&k, &mut m, &p, e, 300) { check_rc(&o, &om, true, h); }
        Some(())
    });
    want!(Fault, matches!(done, Ok(Some(()))), "{} panics afterwards", edits::describe(&p, e));
    if sup::failed() { return std::mem::forget(r); }
    check_rc(&r, &m, true, h);
    if sup::failed() { return std::mem::forget(r); }
    if z % 2 == 0 { model::drain_tree(unsafe { r.into_tree() }, &m, (z / 2 % 10) as u8) } else { drop(r) }
}
fn at_rc(r: &RcNode<D>, p: &[u16]) -> Option<RcNode<D>> { p.iter().fold(Some(r.clone()), |n, &i| n.and_then(|n| n.iter_rc().nth(i as usize))) }
fn node<'a>(t: &'a Tree<D>, p: &[u16]) -> &'a Node<D> { edits::at(t.root(), p).unwrap() }
fn fnode<'a>(f: &'a Forest<D>, p: &[u16]) -> &'a Node<D> { edits::at(f.iter().nth(p[0] as usize).unwrap(), &p[1..]).unwrap() }

/// Operations which only look at, or copy, what they are given: (name, kind of user code, needs a node)
pub const LOOK: [(&str, u8, bool); 35] = [
    ("Display of a node", K_FMT, true), ("Debug of a node", K_FMT, true), ("Hash of a node", K_HASH, true), ("== of equal nodes", K_EQ, true), ("!= of equal nodes", K_EQ, true),
    ("partial_cmp of equal nodes", K_CMP, true), ("cmp of equal nodes", K_CMP, true), ("< of equal nodes", K_CMP, true),
    ("Display of a tree", K_FMT, false), ("Debug of a tree", K_FMT, false), ("Hash of a tree", K_HASH, false), ("== of equal trees", K_EQ, false), ("cmp of equal trees", K_CMP, false), ("partial_cmp with a longer tree", K_CMP, false),
    ("Tree::clone", K_CLONE, false), ("deep_clone", K_CLONE, true), ("deep_clone_forest", K_CLONE, true),
    ("closure over iter()", K_CALL, true), ("closure over bfs()", K_CALL, true), ("closure over bfs_children()", K_CALL, true),
    ("Tree from bfs() mapped", K_CALL, true), ("Forest from bfs_children() mapped", K_CALL, true), ("- &tree", K_CLONE, false), ("&tree - &tree", K_CLONE, false), ("&tree / &tree", K_CLONE, false),
    ("tree - &tree", K_CLONE, false), ("&tree / tree", K_CLONE, false), ("tree / &forest", K_CLONE, false), ("&forest / &tree of trees", K_CLONE, false),
    ("== of cursor positions", K_EQ, false), ("Debug of cursor positions", K_FMT, false), ("closure which edits each child of iter_mut()", K_CALL, true), ("closure which sets each datum of bfs_mut()", K_CALL, true),
    ("Tree::clone_from", K_CLONE, false), ("Tree::clone_from, dropping what was there", K_DROP, false),
];
fn look(m: &M, kind: usize, op: usize, p: &[u16], at: u32, z: u32) {
    judged(|| {
        let mut h = H::new();
        let mut m = m.clone();
        let mut t: Tree<D> = model::build(&m, KINDS[kind]);
        // the other operand
        let um = match op { 13 => { let mut u = m.clone(); u.kids.push(M::leaf(0)); u } 23 | 24 | 25 | 26 | 28 => M { lab: 50, st: 0, kids: vec![M { lab: 51, st: 0, kids: vec![M::leaf(52)] }, M::leaf(53)] }, _ => m.clone() };
        let u: Tree<D> = model::build(&um, KINDS[(kind + 1) % 6]);
        let fm = vec![M::leaf(60), M { lab: 61, st: 0, kids: vec![M::leaf(62)] }];
        let f: Forest<D> = model::build_forest(&fm, FKINDS[kind % 5]);
        let (_, bomb, _) = LOOK[op];
        let sources = reg::born_total() as u32;
        let mut left = match bomb { K_CLONE => Left::Clones, _ => Left::Nothing };
        if op == 20 || op == 21 { left = Left::Clones; }
        match op {
            0 => { bang(bomb, at, || node(&t, p).to_string()); }
            1 => { bang(bomb, at, || format!("{:?}", node(&t, p))); }
            2 => { bang(bomb, at, || hash(node(&t, p))); }
            3 => { bang(bomb, at, || node(&t, p) == node(&u, p)); }
            4 => { bang(bomb, at, || node(&t, p) != node(&u, p)); }
            5 => { bang(bomb, at, || node(&t, p).partial_cmp(node(&u, p))); }
            6 => { bang(bomb, at, || node(&t, p).cmp(node(&u, p))); }
            7 => { bang(bomb, at, || node(&t, p) < node(&u, p)); }
            8 => { bang(bomb, at, || t.to_string()); }
            9 => { bang(bomb, at, || format!("{t:?}")); }
            10 => { bang(bomb, at, || hash(&t)); }
            11 => { bang(bomb, at, || t == u); }
            12 => { bang(bomb, at, || t.cmp(&u)); }
            13 => { bang(bomb, at, || t.partial_cmp(&u)); }
            14 => { if let Some(c) = bang(bomb, at, || t.clone()) { model::check_tree(&c, &m, &mut h); } }
            15 => { if let Some(c) = bang(bomb, at, || node(&t, p).deep_clone()) { model::check_tree(&c, m.at(p), &mut h); } }
            16 => { if let Some(c) = bang(bomb, at, || node(&t, p).deep_clone_forest()) { model::check_forest(&c, &m.at(p).kids, &mut h); } }
            17 => { bang(bomb, at, || node(&t, p).iter().for_each(|_| call())); }
            18 => { bang(bomb, at, || node(&t, p).bfs().iter.for_each(|_| call())); }
            19 => { bang(bomb, at, || node(&t, p).bfs_children().iter.for_each(|_| call())); }
            20 => { if let Some(c) = bang(bomb, at, || Tree::<D>::from(node(&t, p).bfs().map(|d| { call(); D::mk(d.val()) }))) { model::check_tree(&c, m.at(p), &mut h); } }
            21 => { if let Some(c) = bang(bomb, at, || Forest::<D>::from(node(&t, p).bfs_children().map(|d| { let d = D::mk(d.val()); call(); d }))) { model::check_forest(&c, &m.at(p).kids, &mut h); } }
            22 => { bang(bomb, at, || -&t); }
            23 => { bang(bomb, at, || &t - &u); }
            24 => { bang(bomb, at, || &t / &u); }
            25 => { let w: Tree<D> = model::build(&um, KINDS[kind]); bang(bomb, at, || w - &t); }
            26 => { let w: Tree<D> = model::build(&um, KINDS[kind]); bang(bomb, at, || &t / w); }
            27 => { let w: Tree<D> = model::build(&um, KINDS[kind]); bang(bomb, at, || w / &f); }
            28 => { bang(bomb, at, || &(&t / &f) - &u); }
            29 | 30 => {
                let (mut v, mut w) = (TreeWalk::from(t), TreeWalk::from(u));
                for _ in 0..z % (2 * m.count() as u32 + 1) { v.forward(); w.forward(); }
                if op == 29 { bang(bomb, at, || v.get() == w.get()); } else { bang(bomb, at, || format!("{:?}", v.get())); }
                let (x, y) = (v.get().map(|v| model::ev(&v)), w.get().map(|v| model::ev(&v)));
                want!(Fault, x == y, "the cursor moved");
                survives(Tree::from(v), m, z, &mut h);
                survives(Tree::from(w), um, z + 1, &mut h);
                drop(f);
                sup::digest(h.0);
                return (left, sources);
            }
            31 => {
                // before, after and in each child; then the panic
                let mut done = 0;
                bang(bomb, at, || {
                    let n = edits::at_mut(t.root_mut().get_mut(), p).unwrap();
                    for mut k in n.iter_mut() {
                        call();
                        k.insert_prev_sib(model::scattered(&M::leaf(100 + done)));
                        k.insert_next_sib(model::piled(&M { lab: 120 + done, st: 0, kids: vec![M::leaf(140 + done)] }));
                        k.push_back(Tree::new(D::mk(160 + done)));
                        done += 1;
                    }
                });
                let kids = std::mem::take(&mut m.at_mut(p).kids);
                let mut out = vec![];
                for (i, mut k) in kids.into_iter().enumerate() {
                    let i = i as u32;
                    if i < done {
                        out.push(M::leaf(100 + i));
                        k.kids.push(M::leaf(160 + i));
                        out.push(k);
                        out.push(M { lab: 120 + i, st: 0, kids: vec![M::leaf(140 + i)] });
                    } else { out.push(k); }
                }
                m.at_mut(p).kids = out;
            }
            33 | 34 => {
                let wm = crate::copy::target(&m, z as usize % 6);
                let mut w: Tree<D> = model::build(&wm, KINDS[(kind + z as usize) % 6]);
                if op == 34 { left = Left::Anything; }
                let whole = bang(bomb, at, || w.clone_from(&t)).is_some();
                if whole { survives(w, m.clone(), z, &mut h); } else {
                    // the old tree, the new one or something between
                    let n = w.bfs().iter.map(|v| v.data.val()).count();
                    want!(Fault, n == w.node_count(), "the tree assigned to lists {n} of {} nodes", w.node_count());
                    w.push_back(Tree::new(D::mk(900)));
                    while let Some(k) = w.pop_front() { want!(Fault, k.to_string() != "", "a child without text"); }
                    drop(w);
                }
            }
            _ => {
                let mut done = 0;
                bang(bomb, at, || { for v in edits::at_mut(t.root_mut().get_mut(), p).unwrap().bfs_mut().iter { call(); v.data.set(400 + done); done += 1; } });
                let mut sub = m.at(p).clone();
                let mut q: std::collections::VecDeque<&mut M> = std::collections::VecDeque::from(vec![&mut sub]);
                let mut i = 0;
                while let Some(k) = q.pop_front() { if i < done { k.lab = 400 + i; } i += 1; q.extend(k.kids.iter_mut()); }
                *m.at_mut(p) = sub;
            }
        }
        sup::digest(h.0);
        survives(t, m, z, &mut h);
        survives(u, um, z + 1, &mut h);
        survives_forest(f, M { lab: 0, st: 0, kids: fm }, z + 2, &mut h);
        (left, sources)
    })
}
pub const FLOOK: [(&str, u8, bool); 20] = [
    ("Display", K_FMT, false), ("Debug", K_FMT, false), ("Hash", K_HASH, false), ("==", K_EQ, false), ("!=", K_EQ, false), ("cmp", K_CMP, false), ("partial_cmp", K_CMP, false),
    ("clone", K_CLONE, false), ("Forest from bfs() mapped", K_CALL, false), ("deep_clone of a node", K_CLONE, true), ("deep_clone_forest of a node", K_CLONE, true),
    ("&forest - &forest", K_CLONE, false), ("&forest - &tree", K_CLONE, false), ("forest - &forest", K_CLONE, false), ("closure over iter_mut() which detaches each tree", K_CALL, false),
    ("closure which sets each datum of bfs_mut()", K_CALL, false), ("== of cursor positions", K_EQ, false), ("closure over bfs()", K_CALL, false),
    ("Forest::clone_from", K_CLONE, false), ("Forest::clone_from, dropping what was there", K_DROP, false),
];
fn flook(m: &M, kind: usize, op: usize, p: &[u16], at: u32, z: u32) {
    judged(|| {
        let mut h = H::new();
        let mut m = m.clone();
        let mut f: Forest<D> = model::build_forest(&m.kids, FKINDS[kind]);
        let g: Forest<D> = model::build_forest(&m.kids, FKINDS[(kind + 1) % 5]);
        let gm = m.clone();
        let um = M { lab: 50, st: 0, kids: vec![M::leaf(51)] };
        let u: Tree<D> = model::piled(&um);
        let bomb = FLOOK[op].1;
        let sources = reg::born_total() as u32;
        let left = match bomb { K_DROP => Left::Anything, K_CLONE => Left::Clones, _ if op == 8 => Left::Clones, _ => Left::Nothing };
        match op {
            0 => { bang(bomb, at, || f.to_string()); }
            1 => { bang(bomb, at, || format!("{f:?}")); }
            2 => { bang(bomb, at, || hash(&f)); }
            3 => { bang(bomb, at, || f == g); }
            4 => { bang(bomb, at, || f != g); }
            5 => { bang(bomb, at, || f.cmp(&g)); }
            6 => { bang(bomb, at, || f.partial_cmp(&g)); }
            7 => { if let Some(c) = bang(bomb, at, || f.clone()) { model::check_forest(&c, &m.kids, &mut h); } }
            8 => { bang(bomb, at, || Forest::<D>::from(f.bfs().map(|d| { call(); D::mk(d.val()) }))); }
            9 => { bang(bomb, at, || fnode(&f, p).deep_clone()); }
            10 => { bang(bomb, at, || fnode(&f, p).deep_clone_forest()); }
            11 => { bang(bomb, at, || &f - &g); }
            12 => { bang(bomb, at, || &f - &u); }
            13 => { let w: Forest<D> = model::piled_forest(&[um.clone(), M::leaf(70)]); bang(bomb, at, || w - &f); }
            14 => {
                let mut done = 0;
                bang(bomb, at, || for mut n in f.iter_mut() { call(); let t = n.detach(); done += 1; drop(t); });
                m.kids.drain(..done);
            }
            15 => {
                let mut done = 0;
                bang(bomb, at, || for v in f.bfs_mut().iter { call(); v.data.set(400 + done); done += 1; });
                let mut q: std::collections::VecDeque<&mut M> = m.kids.iter_mut().collect();
                let mut i = 0;
                while let Some(k) = q.pop_front() { if i < done { k.lab = 400 + i; } i += 1; q.extend(k.kids.iter_mut()); }
            }
            16 => {
                let (mut v, mut w) = (ForestWalk::from(f), ForestWalk::from(g));
                for _ in 0..z % (2 * m.count() as u32) { v.forward(); w.forward(); }
                bang(bomb, at, || v.get() == w.get());
                want!(Fault, v.get().map(|v| model::ev(&v)) == w.get().map(|v| model::ev(&v)), "the cursor moved");
                survives_forest(Forest::from(v), m, z, &mut h);
                survives_forest(Forest::from(w), gm, z + 1, &mut h);
                drop(u);
                return (left, sources);
            }
            18 | 19 => {
                let wm = crate::copy::target(&m, z as usize % 6);
                let mut w: Forest<D> = model::build_forest(&wm.kids, FKINDS[(kind + z as usize) % 5]);
                let whole = bang(bomb, at, || w.clone_from(&f)).is_some();
                if whole { survives_forest(w, m.clone(), z, &mut h); } else {
                    let n = w.bfs().iter.map(|v| v.data.val()).count();
                    want!(Fault, n == w.node_count(), "the forest assigned to lists {n} of {} nodes", w.node_count());
                    w.push_back(Tree::new(D::mk(900)));
                    while let Some(k) = w.pop_front() { want!(Fault, k.to_string() != "", "a child without text"); }
                    drop(w);
                }
            }
            _ => { bang(bomb, at, || f.bfs().iter.for_each(|_| call())); }
        }
        sup::digest(h.0);
        survives_forest(f, m, z, &mut h);
        survives_forest(g, gm, z + 1, &mut h);
        survives(u, um, z + 2, &mut h);
        (left, sources)
    })
}
pub const RLOOK: [(&str, u8); 12] = [
    ("Display", K_FMT), ("Debug", K_FMT), ("Hash", K_HASH), ("==", K_EQ), ("!=", K_EQ), ("cmp", K_CMP), ("partial_cmp", K_CMP), ("deep_clone", K_CLONE),
    ("extend by an iterator", K_CALL), ("closure over iter_rc() which edits each child", K_CALL), ("closure over iter_rc() which detaches each child", K_CALL), ("closure holding data_mut()", K_CALL),
];
fn rlook(m: &M, kind: usize, op: usize, p: &[u16], at: u32, z: u32) {
    judged(|| {
        let mut h = H::new();
        let mut m = m.clone();
        let r = RcNode::from(model::build::<D>(&m, KINDS[kind]));
        let s = RcNode::from(model::build::<D>(&m, KINDS[(kind + 1) % 6]));
        let sm = m.clone();
        let (n, o) = (at_rc(&r, p).unwrap(), at_rc(&s, p).unwrap());
        let bomb = RLOOK[op].1;
        let sources = reg::born_total() as u32;
        let left = if bomb == K_CLONE { Left::Clones } else { Left::Nothing };
        let mut done = 0;
        match op {
            0 => { bang(bomb, at, || n.to_string()); }
            1 => { bang(bomb, at, || format!("{n:?}")); }
            2 => { bang(bomb, at, || hash(&n)); }
            3 => { bang(bomb, at, || n == o); }
            4 => { bang(bomb, at, || n != o); }
            5 => { bang(bomb, at, || n.cmp(&o)); }
            6 => { bang(bomb, at, || n.partial_cmp(&o)); }
            7 => { if let Some(c) = bang(bomb, at, || n.deep_clone()) { model::check_tree(&c, m.at(p), &mut h); } }
            8 => {
                let mut e = n.clone();
                bang(bomb, at, || e.extend((0..3).map(|i| { call(); model::piled(&M { lab: 100 + i, st: 0, kids: vec![M::leaf(110 + i)] }) })));
                for i in 0..(at.min(3)) { m.at_mut(p).kids.push(M { lab: 100 + i, st: 0, kids: vec![M::leaf(110 + i)] }); }
            }
            9 => {
                bang(bomb, at, || for k in n.iter_rc() {
                    call();
                    k.insert_prev_sib(model::scattered(&M::leaf(100 + done)));
                    k.push_front(model::scattered(&M::leaf(120 + done)));
                    done += 1;
                });
                let kids = std::mem::take(&mut m.at_mut(p).kids);
                for (i, mut k) in kids.into_iter().enumerate() {
                    let i = i as u32;
                    if i < done { m.at_mut(p).kids.push(M::leaf(100 + i)); k.kids.insert(0, M::leaf(120 + i)); }
                    m.at_mut(p).kids.push(k);
                }
            }
            10 => {
                bang(bomb, at, || for k in n.iter_rc() { call(); k.detach(); done += 1; });
                m.at_mut(p).kids.drain(..done as usize);
            }
            _ => {
                bang(bomb, at, || { let mut d = n.data_mut(); call(); d.set(99); });
                if at > 0 { m.at_mut(p).lab = 99; }
            }
        }
        sup::digest(h.0);
        drop((n, o));
        survives_rc(r, m, z, &mut h);
        survives_rc(s, sm, z + 1, &mut h);
        (left, sources)
    })
}

/// Operations which take trees apart while the k-th datum dropped panics; (name, what of it survives)
pub const SHED: [&str; 14] = [
    "drop of the tree", "drop of what abandon() returns", "drop of the tree after abandon()", "drop of what pop_front() returns", "drop of what pop_back() returns",
    "drop of into_iter() at its start", "drop of a half consumed into_bfs()", "drop of each datum of into_bfs()", "drop of a TreeWalk on its way", "drop of the RcNode",
    "assignment over the tree", "closure of iter_mut() which drops each child", "closure mapping into_bfs() into a new tree", "drop of the tree inside a forest with others",
];
/// One subtree may have been cut out before: it survives.
fn shed(m: &M, kind: usize, op: usize, cut: &[u16], at: u32, z: u32) {
    judged(|| {
        let mut h = H::new();
        let mut m = m.clone();
        let mut t: Tree<D> = model::build(&m, KINDS[kind]);
        let kept = if cut.is_empty() { None } else { edits::tree(&mut t, &mut m, cut, 4, 0) };
        let n = m.count() as u32;
        let mut rest: Option<(Tree<D>, M)> = None;
        let mut frest: Option<(Forest<D>, M)> = None;
        match op {
            0 => { bang(K_DROP, at, || drop(t)); }
            1 => { let f = t.abandon(); bang(K_DROP, at, || drop(f)); rest = Some((t, M { lab: m.lab, st: 0, kids: vec![] })); }
            2 => { let f = t.abandon(); bang(K_DROP, at, || drop(t)); frest = Some((f, m.clone())); }
            3 => { let k = t.pop_front(); if k.is_some() { m.kids.remove(0); } bang(K_DROP, at, || drop(k)); rest = Some((t, m)); }
            4 => { let k = t.pop_back(); if k.is_some() { m.kids.pop(); } bang(K_DROP, at, || drop(k)); rest = Some((t, m)); }
            5 => { let f = t.abandon(); let mut it = f.into_iter(); let k = if z % 2 == 0 { it.next() } else { None }; bang(K_DROP, at, || drop(it)); if let Some(k) = k { rest = Some((k, m.kids[0].clone())); } drop(t); }
            6 => {
                let mut it = t.into_bfs().iter;
                let first: Vec<Visit<D>> = (0..z % n).filter_map(|_| it.next()).collect();
                bang(K_DROP, at, || drop(it));
                let lv = model::levels(std::iter::once(&m));
                for (i, v) in first.iter().enumerate() { want!(Fault, v.data.val() == lv[i].0.lab, "datum {i} is {}", v.data.val()); }
            }
            7 => { bang(K_DROP, at, || for v in t.into_bfs().iter { drop(v); }); }
            8 => { let mut w = TreeWalk::from(t); for _ in 0..z % (2 * n) { w.forward(); } bang(K_DROP, at, || drop(w)); }
            9 => { let r = RcNode::from(t); bang(K_DROP, at, || drop(r)); }
            10 => {
                let new = M { lab: 70, st: 0, kids: vec![M::leaf(71)] };
                let u = model::piled::<D>(&new);
                bang(K_DROP, at, || t = u);
                // Rust assigns even if the drop of the old value panics
                rest = Some((t, new));
            }
            11 => {
                let mut done = 0;
                bang(K_DROP, at, || for mut k in t.iter_mut() { let k = k.detach(); done += 1; drop(k); });
                m.kids.drain(..done);
                rest = Some((t, m));
            }
            12 => { bang(K_CALL, at, || Tree::<D>::from(t.into_bfs().map(|d| { call(); d }))); }
            _ => {
                let others = [M { lab: 80, st: 0, kids: vec![M::leaf(81)] }, M::leaf(82)];
                let mut f = model::build_forest::<D>(&others, if z % 2 == 0 { FKind::Piled } else { FKind::Pushed(Kind::Piled) });
                f.push_front(t);
                bang(K_DROP, at, || drop(f.pop_front()));
                frest = Some((f, M { lab: 0, st: 0, kids: others.to_vec() }));
            }
        }
        sup::digest(h.0);
        for (t, m) in [kept, rest].into_iter().flatten() {
            // what survives is dropped with everything in it
            let mut uids = vec![];
            fn go(n: &Node<D>, out: &mut Vec<u32>) { out.push(n.data().uid()); for k in n.iter() { go(k, out); } }
            go(t.root(), &mut uids);
            survives(t, m, z, &mut h);
            want!(Fault, sup::failed() || uids.iter().all(|&u| !reg::is_live(u)), "a datum of a surviving tree was never dropped");
        }
        if let Some((f, m)) = frest { survives_forest(f, m, z, &mut h); }
        (Left::Anything, 0)
    })
}

pub const RSHED: [&str; 6] = ["drop of the root handle", "drop of what pop_front() returns", "drop of what pop_back() returns", "drop of the last iterator over the children", "detach() of a node and drop of its handle", "drop of the tree made of it by into_tree()"];
/// Handles to the nodes in `held` while the k-th datum dropped panics.
fn rshed(m: &M, kind: usize, op: usize, held: u32, x: &[u16], at: u32, z: u32) {
    judged(|| {
        let mut h = H::new();
        let r = RcNode::from(model::build::<D>(m, KINDS[kind]));
        let paths = m.paths();
        let hs: Vec<(RcNode<D>, &[u16])> = paths.iter().enumerate().filter(|(i, _)| *i > 0 && held >> i & 1 == 1).map(|(_, p)| (at_rc(&r, p).unwrap(), &p[..])).collect();
        let ws: Vec<(WeakNode<D>, u32)> = paths.iter().map(|p| { let n = at_rc(&r, p).unwrap(); let u = n.data().uid(); (n.downgrade(), u) }).collect();
        let mut root: Option<(RcNode<D>, M)> = None;
        match op {
            0 => { bang(K_DROP, at, || drop(r)); }
            1 | 2 => {
                let mut m = m.clone();
                let k = if op == 1 { if !m.kids.is_empty() { m.kids.remove(0); } r.pop_front() } else { m.kids.pop(); r.pop_back() };
                bang(K_DROP, at, || drop(k));
                root = Some((r, m));
            }
            3 => { let mut it = r.iter_rc(); if z % 2 == 0 { it.next(); } drop(r); bang(K_DROP, at, || drop(it)); }
            4 => {
                let mut m = m.clone();
                let n = at_rc(&r, x).unwrap();
                n.detach();
                let (l, up) = x.split_last().unwrap();
                m.at_mut(up).kids.remove(*l as usize);
                bang(K_DROP, at, || drop(n));
                root = Some((r, m));
            }
            _ => { let t = unsafe { r.into_tree() }; bang(K_DROP, at, || drop(t)); }
        }
        sup::digest(h.0);
        let r = panics(|| {
            if let Some((r, m)) = &root { check_rc(r, m, true, &mut h); }
            for (n, p) in &hs {
                let mut e = m.at(p).clone();
                if op == 4 && x.len() > p.len() && x.starts_with(p) { let (l, up) = x.split_last().unwrap(); e.at_mut(&up[p.len()..]).kids.remove(*l as usize); }
                subtree(n, &e);
                above(n);
            }
            for (w, u) in &ws { weak(w, *u); }
            for (n, p) in &hs { let i = paths.iter().position(|q| q == p).unwrap(); want!(Fault, ws[i].0.upgrade().is_some(), "a held node cannot be upgraded to"); n.data(); }
            if sup::failed() { return; }
            // each of them by itself from now on
            for (i, (n, _)) in hs.iter().enumerate() {
                if !n.is_root() { n.detach(); }
                want!(Fault, n.is_root() && n.parent().is_none(), "node {} has a parent after detach()", n.data().val());
                n.push_back(model::scattered(&M::leaf(500 + i as u32)));
                n.push_front(model::piled(&M { lab: 520 + i as u32, st: 0, kids: vec![M::leaf(540)] }));
                let (d, c) = (n.degree(), n.node_count());
                want!(Fault, n.front().map(|k| k.data().val()) == Some(520 + i as u32) && n.back().map(|k| k.data().val()) == Some(500 + i as u32), "node {} cannot be edited any more", n.data().val());
                want!(Fault, n.iter_rc().count() == d && n.iter_rc().map(|k| k.node_count()).sum::<usize>() + 1 == c, "node {}: sizes are wrong", n.data().val());
                n.data_mut().set(600 + i as u32);
            }
        });
        if r.is_err() { bad!(Fault, "what survived cannot be used: it panics"); }
        if sup::failed() { std::mem::forget((root, hs, ws)); return (Left::Anything, 0); }
        let uids: Vec<u32> = hs.iter().map(|(n, _)| n.data().uid()).collect();
        if z % 2 == 0 { drop(root); drop(hs); drop(ws); } else { for (w, u) in &ws { weak(w, *u); } for x in hs { drop(x); for (w, u) in &ws { weak(w, *u); } } drop(ws); drop(root); }
        for u in uids { want!(Fault, !reg::is_live(u), "a held node was never dropped"); }
        (Left::Anything, 0)
    })
}
/// Whatever can still be reached upwards is alive and lists this node.
fn above(n: &RcNode<D>) {
    let Some(u) = n.parent() else { return };
    let uid = n.data().uid();
    u.data().val();
    want!(Fault, u.iter_rc().any(|k| k.data().uid() == uid), "the parent of node {} does not list it", n.data().val());
    want!(Fault, u.degree() == u.iter_rc().count(), "the parent of node {} has the wrong degree", n.data().val());
    above(&u);
}
fn subtree(n: &RcNode<D>, m: &M) {
    let v = n.data().val();
    want!(Fault, v == m.lab, "held node {}: its data is {v}", m.lab);
    want!(Fault, n.degree() == m.kids.len() && n.node_count() == m.count(), "held node {v}: its sizes changed");
    let mut i = 0;
    for k in n.iter_rc() { if let Some(km) = m.kids.get(i) { subtree(&k, km); } i += 1; }
    want!(Fault, i == m.kids.len(), "held node {v} lists {i} children, not {}", m.kids.len());
}
fn weak(w: &WeakNode<D>, uid: u32) {
    match w.upgrade() {
        Some(n) => { want!(Fault, reg::is_live(uid), "a dropped datum is reachable through a weak handle"); want!(Fault, n.data().uid() == uid, "a weak handle leads to another node"); }
        None => (),
    }
}

/// A tree of the user's own, streamed breadth first: its code panics at the k-th call.
struct Own { d: D, kids: Vec<Own>, n: usize }
impl Own { fn new(m: &M) -> Own { Own { d: D::mk(m.lab), kids: m.kids.iter().map(Own::new).collect(), n: m.count() - 1 } } }
struct OwnIter(std::vec::IntoIter<Own>);
impl Iterator for OwnIter { type Item = Own; fn next(&mut self) -> Option<Own> { call(); self.0.next() } fn size_hint(&self) -> (usize, Option<usize>) { call(); self.0.size_hint() } }
impl ExactSizeIterator for OwnIter {}
impl Split for Own { type Item = D; type Iter = OwnIter; fn split(self) -> (D, OwnIter, usize) { call(); (self.d, OwnIter(self.kids.into_iter()), self.n) } }
impl IntoIterator for Own { type Item = Own; type IntoIter = OwnIter; fn into_iter(self) -> OwnIter { call(); OwnIter(vec![self].into_iter()) } }
struct Bad<I>(I);
impl<I: Iterator> Iterator for Bad<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { call(); self.0.next() } }

pub const STREAM: [&str; 5] = ["Tree from an iterator of visits", "Forest from an iterator of visits", "Tree from a tree type of one's own", "reading a tree type of one's own", "Forest from into_bfs() mapped"];
fn stream(m: &M, kind: usize, op: usize, at: u32, z: u32) {
    judged(|| {
        let mut h = H::new();
        let size = Size { degree: 1, descendants: m.count() - 1 };
        match op {
            0 => { let v = model::visits::<D>(std::slice::from_ref(m)); if let Some(t) = bang(K_CALL, at, || Tree::from(BfsTree { iter: Bad(v.into_iter()), size })) { survives(t, m.clone(), z, &mut h); return (Left::Nothing, 0); } }
            1 => { let v = model::visits::<D>(&m.kids); if let Some(f) = bang(K_CALL, at, || Forest::from(BfsForest { iter: Bad(v.into_iter()), size: Size { degree: m.kids.len(), descendants: m.count() - 1 } })) { survives_forest(f, m.clone(), z, &mut h); return (Left::Nothing, 0); } }
            2 => { let o = Own::new(m); if let Some(t) = bang(K_CALL, at, || Tree::from(BfsTree::<Splitted<OwnIter>>::from(o, size))) { survives(t, m.clone(), z, &mut h); return (Left::Nothing, 0); } }
            3 => {
                let o = Own::new(m);
                let mut seen = vec![];
                bang(K_CALL, at, || for v in BfsTree::<Splitted<OwnIter>>::from(o, size).iter { seen.push(v); });
                let lv = model::levels(std::iter::once(m));
                for (i, v) in seen.iter().enumerate() { want!(Fault, v.data.val() == lv[i].0.lab && v.size.degree == lv[i].1, "visit {i} is {}", v.data.val()); }
                drop(seen);
                return (Left::Nothing, 0);
            }
            _ => {
                let f: Forest<D> = model::build_forest(&m.kids, FKINDS[kind % 5]);
                if let Some(f) = bang(K_CALL, at, || Forest::from(f.into_bfs().map(|d| { call(); d }))) { survives_forest(f, m.clone(), z, &mut h); return (Left::Nothing, 0); }
            }
        }
        sup::digest(h.0);
        (Left::Anything, 0)
    })
}
/// Visitors of tuples.
const TUPLES: u32 = 6;
fn tuple(which: u32, way: u32, at: u32) {
    use trees::tuple::{TupleForest, TupleTree, Visit as V};
    judged(|| {
        let d = |l: u32| D::mk(l);
        let mut got: Vec<D> = vec![];
        let mut v = |x: V<D>| { match x { V::Branch(d) | V::Leaf(d) => got.push(d), V::Frame => () } call() };
        macro_rules! go { ($t:expr, $tr:ident) => { { let t = $t; bang(K_CALL, at, || match way {
            0 => $tr::<D, _>::preorder(t, &mut v), 1 => $tr::<D, _>::postorder(t, &mut v),
            2 => $tr::<D, _>::preorder_with_size_hint(t, &mut |x, _| v(x)), _ => $tr::<D, _>::postorder_with_size_hint(t, &mut |x, _| v(x)),
        }); } } }
        let _ = (0, d(0));
        match which {
            0 => go!((d(1), (d(2), d(3)), d(4)), TupleTree),
            1 => go!((d(1), (d(2), (d(3), d(4))), (d(5),), d(6)), TupleTree),
            2 => go!((d(1), ((d(2)),), (d(3), (d(4), d(5), d(6)), d(7)), d(8)), TupleTree),
            3 => go!((d(1), (d(2), d(3)), d(4)), TupleForest),
            4 => go!(((d(1), d(2)), (d(3), (d(4), d(5)))), TupleForest),
            _ => go!((d(1), (d(2), (d(3), (d(4), d(5), (d(6), d(7)))))), TupleForest),
        }
        for x in &got { x.val(); }
        drop(got);
        (Left::Nothing, 0)
    })
}

#[derive(Clone, Debug)]
struct C { a: u16, kind: u8, op: u8, p: Vec<u16>, at: u8, held: u16 }
pub struct Bounds { pub look: usize, pub shed: usize, pub rshed: usize, pub stream: usize, pub z: u32, pub scaled: Vec<usize> }
pub fn explore(run: &mut Run, tag: &str, b: &Bounds) {
    let top = b.look.max(b.shed).max(b.rshed).max(b.stream);
    let mut ms: Vec<M> = shape::trees_upto(top).iter().map(|s| model::label(s, &mut 0)).collect();
    let exact = ms.len();
    for &s in &b.scaled { ms.extend(shape::scaled(s).iter().map(|x| model::label(&x.1, &mut 0))); }
    let ms = ms;
    let some = |a: usize, ps: Vec<Vec<u16>>| { let k = ps.len(); if a < exact { ps } else { ps.into_iter().enumerate().filter(|(i, _)| *i < 2 || i + 1 == k || i % 5 == 0).map(|x| x.1).collect() } };
    let upto = |a: usize, n: usize| a >= exact || ms[a].count() <= n;
    let fam = if b.scaled.is_empty() { String::new() } else { format!(" (and families of {:?}, at some nodes)", b.scaled) };
    run.states += ms.len() as u64 * 6;
    let zs = b.z as u64;
    let nonroot = |m: &M| m.paths().into_iter().filter(|p| !p.is_empty()).collect::<Vec<_>>();
    let mut phase = |name: &str, what: String, cases: Vec<C>, f: &dyn Fn(&M, &C, u32), names: &dyn Fn(u8) -> &'static str, forest: bool| {
        run.explore(&format!("{tag}{name}"), &what, cases.len() as u64 * zs, &|i| { let c = &cases[(i / zs) as usize]; f(&ms[c.a as usize], c, (i / zs * 13 % 97 + i % zs) as u32) },
            &|i| { let c = &cases[(i / zs) as usize]; let m = &ms[c.a as usize]; format!("{}, storage form {}: {} at {:?}{}, user code panicking at call {}", if forest { forest_text(&m.kids) } else { m.text() }, c.kind, names(c.op), c.p, if c.held != 0 { format!(", handles to nodes {:#b}", c.held) } else { String::new() }, c.at) });
    };
    // how many calls of user code an operation may make, at most
    let mut cases = vec![];
    for (a, m) in ms.iter().enumerate().filter(|x| upto(x.0, b.look)) {
        for (op, l) in LOOK.iter().enumerate() {
            for p in if l.2 { some(a, m.paths()) } else { vec![vec![]] } {
                let n = m.at(&p).count() + match op { 23 | 24 | 25 | 27 => 5, 28 => 13, _ => 0 };
                for kind in 0..6 { for at in 0..=n as u8 { cases.push(C { a: a as u16, kind, op: op as u8, p: p.clone(), at, held: 0 }); } }
            }
        }
    }
    phase("looking", format!("every tree of at most {} nodes{fam} x 6 storage forms x {} operations which compare, print, hash, copy or visit x every node x every call of user code panicking", b.look, LOOK.len()), cases, &|m, c, z| look(m, c.kind as usize, c.op as usize, &c.p, c.at as u32, z), &|o| LOOK[o as usize].0, false);
    let mut cases = vec![];
    for (a, m) in ms.iter().enumerate().filter(|x| upto(x.0, b.look)) {
        for (op, l) in FLOOK.iter().enumerate() {
            for p in if l.2 { some(a, nonroot(m)) } else { vec![vec![]] } {
                let n = m.at(&p).count() + match op { 11 => m.count(), 12 | 13 => 3, _ => 0 };
                for kind in 0..5 { for at in 0..=n as u8 { cases.push(C { a: a as u16, kind, op: op as u8, p: p.clone(), at, held: 0 }); } }
            }
        }
    }
    phase("looking-forest", format!("every forest of at most {} nodes{fam} x 5 storage forms x {} such operations x every call of user code panicking", b.look - 1, FLOOK.len()), cases, &|m, c, z| flook(m, c.kind as usize, c.op as usize, &c.p, c.at as u32, z), &|o| FLOOK[o as usize].0, true);
    let mut cases = vec![];
    for (a, m) in ms.iter().enumerate().filter(|x| upto(x.0, b.look)) {
        for op in 0..RLOOK.len() { for p in some(a, m.paths()) {
            let n = m.at(&p).count().max(3);
            for kind in 0..6 { for at in 0..=n as u8 { cases.push(C { a: a as u16, kind, op: op as u8, p: p.clone(), at, held: 0 }); } }
        } }
    }
    phase("looking-shared", format!("every shared tree of at most {} nodes{fam} x 6 storage forms x {} operations x every node x every call of user code panicking", b.look, RLOOK.len()), cases, &|m, c, z| rlook(m, c.kind as usize, c.op as usize, &c.p, c.at as u32, z), &|o| RLOOK[o as usize].0, false);
    let mut cases = vec![];
    for (a, m) in ms.iter().enumerate().filter(|x| upto(x.0, b.shed)) {
        for op in 0..SHED.len() { for p in some(a, m.paths()) { for kind in 0..6 {
            let n = m.count() - if p.is_empty() { 0 } else { m.at(&p).count() };
            for at in 0..=n as u8 { cases.push(C { a: a as u16, kind, op: op as u8, p: p.clone(), at, held: 0 }); }
        } } }
    }
    phase("dropping", format!("every tree of at most {} nodes{fam} x 6 storage forms, nothing or any subtree cut out before, x {} operations which drop x the drop of every datum panicking", b.shed, SHED.len()), cases, &|m, c, z| shed(m, c.kind as usize, c.op as usize, &c.p, c.at as u32, z), &|o| SHED[o as usize], false);
    let mut cases = vec![];
    for (a, m) in ms.iter().enumerate().filter(|x| upto(x.0, b.rshed)) {
        let n = m.count();
        for op in 0..RSHED.len() {
            for p in if op == 4 { some(a, nonroot(m)) } else { vec![vec![]] } { for kind in 0..6 {
                for held in 0..1u16 << (n - 1) { if op == 5 && held != 0 { continue; } if a >= exact && held.count_ones() > 1 && held % 341 != 0 { continue; } for at in 0..n as u8 { cases.push(C { a: a as u16, kind, op: op as u8, p: p.clone(), at, held: held << 1 }); } }
            } }
        }
    }
    phase("dropping-shared", format!("every shared tree of at most {} nodes{fam} x 6 storage forms x handles to every subset (in the families: a few) of its nodes and weak handles to all x {} operations which drop x the drop of every datum panicking", b.rshed, RSHED.len()), cases, &|m, c, z| rshed(m, c.kind as usize, c.op as usize, c.held as u32, &c.p, c.at as u32, z), &|o| RSHED[o as usize], false);
    let mut cases = vec![];
    for (a, m) in ms.iter().enumerate().filter(|x| upto(x.0, b.stream)) {
        for op in 0..STREAM.len() { for kind in 0..if op == 4 { 5 } else { 1 } { for at in 0..=(3 * m.count() + 3) as u8 { cases.push(C { a: a as u16, kind, op: op as u8, p: vec![], at, held: 0 }); } } }
    }
    phase("streams", format!("every tree and forest of at most {} nodes{fam} x {} ways to build from a breadth-first stream x every call of user code panicking", b.stream, STREAM.len()), cases, &|m, c, z| stream(m, c.kind as usize, c.op as usize, c.at as u32, z), &|o| STREAM[o as usize], false);
    run.explore(&format!("{tag}tuples"), "6 nested tuples x 4 visitors x every call of the visitor panicking", TUPLES as u64 * 4 * 16, &|i| tuple((i / 64) as u32, (i / 16 % 4) as u32, (i % 16) as u32), &|i| format!("tuple {} visited in way {}, panicking at call {}", i / 64, i / 16 % 4, i % 16));
}
