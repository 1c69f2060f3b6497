//! One operation on trees and forests of thousands of nodes: what small bounds cannot reach (8 and 16 bit counters,
//! blocks of fixed sizes, limits). Everything here takes time linear in the number of nodes.
use crate::edits;
use crate::model::{self, accounted, levels, M};
use crate::reg::{self, Datum, D};
use crate::sup::{self, Run};
use crate::util::H;
use crate::{bad, want};
use std::hash::{Hash, Hasher};
use trees::bfs::{BfsTree, Visit};
use trees::{Forest, ForestWalk, RcNode, Size, Tree, TreeWalk};

pub const GROUPS: [&str; 13] = ["edits", "bfs", "rebuild", "malformed", "walk", "jumps", "cmp", "text", "copy", "conversions", "children", "shared", "iter_mut"];
const FORMS: [&str; 4] = ["built node by node", "contiguous", "every second child of the root not in the buffer of the others", "contiguous children"];

/// A tree in a storage form.
fn build(m: &M, form: u8) -> Tree<D> {
    match form {
        0 => model::scattered(m),
        1 => model::piled(m),
        2 => {
            let mut t = model::piled::<D>(m);
            for (i, k) in m.kids.iter().enumerate() {
                let Some(sub) = t.pop_front() else { bad!(Shape, "child {i} cannot be taken"); return t };
                t.push_back(if i % 2 == 0 { sub } else { drop(sub); model::scattered(k) });
            }
            t
        }
        _ => {
            let mut t = Tree::new(D::mk(m.lab));
            t.append(model::piled_forest(&m.kids));
            t
        }
    }
}
fn forest(m: &M, form: u8) -> Forest<D> {
    match form { 0 => model::build_forest(&m.kids, model::FKind::Pushed(model::Kind::Scattered)), 1 => model::piled_forest(&m.kids), _ => build(m, form).abandon() }
}
/// A shape: (what, width or depth)
fn shape(fam: u8, n: usize) -> M {
    let mut l = 0u32;
    let mut next = || { l += 1; l - 1 };
    match fam {
        // a star
        0 => { let lab = next(); M { lab, st: 0, kids: (1..n).map(|_| M::leaf(next())).collect() } }
        // a chain
        1 => { let mut m = M::leaf(n as u32 - 1); for i in (0..n as u32 - 1).rev() { m = M { lab: i, st: 0, kids: vec![m] }; } m }
        // a brush of short chains
        2 => { let lab = next(); M { lab, st: 0, kids: (0..n / 4).map(|_| { let (a, b, c, d) = (next(), next(), next(), next()); M { lab: a, st: 0, kids: vec![M { lab: b, st: 0, kids: vec![M { lab: c, st: 0, kids: vec![M::leaf(d)] }] }] } }).collect() } }
        // a full binary tree
        3 => { fn go(d: usize, l: &mut u32) -> M { let lab = *l; *l += 1; M { lab, st: 0, kids: if d == 0 { vec![] } else { vec![go(d - 1, l), go(d - 1, l)] } } } let mut d = 0; while (1usize << (d + 2)) - 1 <= n { d += 1; } let mut l = 0; go(d, &mut l) }
        // small, and in the middle a child with all the others
        _ => { let lab = next(); let a = next(); let b = next(); M { lab, st: 0, kids: vec![M::leaf(a), M { lab: b, st: 0, kids: (3..n - 1).map(|_| M::leaf(next())).collect() }, M::leaf(n as u32)] } }
    }
}
pub fn fam_text(fam: u8, n: usize) -> String { format!("{} of {n} nodes", ["star", "chain", "brush", "binary tree", "three children, the second with all other nodes, tree"][fam as usize]) }

fn same<T: PartialEq + std::fmt::Debug>(got: T, want: T, f: sup::Facet, what: &str) { if got != want { sup::fail(f, format_args!("{what}: {got:?}, not {want:?}")) } }
fn hash_of<V: Hash>(x: &V) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() }

/// Taken apart at alternating ends.
fn drain(mut t: Tree<D>, m: &M, d: u64) {
    let mut h = H::new();
    match d % 5 {
        0 => drop(t),
        1 => { let mut w = TreeWalk::from(t); let mut n = 0; while w.get().is_some() { n += 1; w.forward(); } drop(w); let mut leaves = 0; m.each(&mut |k| leaves += k.kids.is_empty() as usize); same(n, 2 * m.count() - leaves, sup::Facet::Link, "steps of a walk"); }
        2 => { let f = t.abandon(); model::check_tree(&t, &M::leaf(m.lab), &mut h); drop(t); model::check_forest(&f, &m.kids, &mut h); let mut i = 0; for k in f { if let Some(km) = m.kids.get(i) { want!(Shape, k.data().val() == km.lab && k.node_count() == km.count(), "child {i} is {}", k.data().val()); } i += 1; } same(i, m.kids.len(), sup::Facet::Shape, "trees of the forest"); }
        _ => {
            let (mut a, mut b) = (0, m.kids.len());
            while a < b {
                let front = d % 5 == 3 || (a + b) % 2 == 0;
                let (k, km) = if front { a += 1; (t.pop_front(), &m.kids[a - 1]) } else { b -= 1; (t.pop_back(), &m.kids[b]) };
                match k {
                    Some(k) => want!(Shape, k.data().val() == km.lab && k.node_count() == km.count(), "child {} is {}", km.lab, k.data().val()),
                    None => { bad!(Shape, "child {} is gone", km.lab); break; }
                }
                want!(Count, t.degree() == b - a, "degree() is {}, not {}", t.degree(), b - a);
            }
            want!(Shape, t.pop_front().is_none() && t.pop_back().is_none(), "there are children left");
            model::check_tree(&t, &M::leaf(m.lab), &mut h);
        }
    }
}
fn drain_forest(f: Forest<D>, m: &M, d: u64) { let mut t = Tree::new(D::mk(m.lab)); t.append(f); if d % 2 == 0 { drain(t, m, d / 2) } else { drop(t) } }

/// The positions looked at among n.
fn places(n: usize) -> Vec<usize> { let mut v: Vec<usize> = [0, 1, n / 2, n.wrapping_sub(2), n.wrapping_sub(1), 255, 256, 65534].into_iter().filter(|&i| i < n).collect(); v.sort(); v.dedup(); v }
/// Beyond the end too.
fn indices(n: usize) -> Vec<usize> { let mut v = places(n); v.extend([n, n + 1, n + 65536, usize::MAX, 1 << 32]); v }

fn lv_check<T, I: Iterator<Item = Visit<T>>>(mut it: I, size: Size, lv: &[(&M, usize, usize)], degree: usize, desc: usize, stop: usize, mut val: impl FnMut(&T) -> u32) {
    same((size.degree, size.descendants), (degree, desc), sup::Facet::Bfs, "announced size");
    for (i, (m, d, n)) in lv.iter().enumerate().take(stop) {
        match it.next() {
            Some(v) => want!(Bfs, val(&v.data) == m.lab && (v.size.degree, v.size.descendants) == (*d, *n), "visit {i}: {} with ({}, {}), not {} with ({d}, {n})", val(&v.data), v.size.degree, v.size.descendants, m.lab),
            None => { bad!(Bfs, "it ends after {i} of {}", lv.len()); return; }
        }
    }
    if stop >= lv.len() { want!(Bfs, it.next().is_none(), "it goes on behind the last node"); }
}

fn ops(group: u8, m: &M) -> u64 {
    let n = m.kids.len() as u64;
    match group {
        0 => (1 + places(m.kids.len()).len() as u64) * edits::EDITS as u64 * 2,
        1 => 8 * 3,
        2 => 6,
        3 => 8,
        4 => 2,
        5 => 2,
        6 => 8,
        7 => 2,
        8 => 6,
        9 => 8,
        10 => 4 * places(m.kids.len()).len() as u64,
        11 => 4 * places(m.kids.len()).len() as u64,
        _ => if n == 0 { 0 } else { 8 },
    }
}
fn case(group: u8, m: &M, form: u8, op: u64) {
    // what was made of a refused stream may leak
    let run = |f: &mut dyn FnMut()| if group == 3 { reg::reset(); f() } else { accounted(f) };
    run(&mut || {
        let mut h = H::new();
        let mut m = m.clone();
        sup::beat();
        match group {
            0 => {
                let ps = places(m.kids.len());
                let (e, at, f) = ((op / 2 % edits::EDITS as u64) as u8, (op / 2 / edits::EDITS as u64) as usize, op % 2 == 1);
                let p: Vec<u16> = if at == 0 { vec![] } else { vec![ps[at - 1] as u16] };
                if (p.is_empty() && (matches!(e, 4 | 5 | 6) || (f && e == 9))) || (matches!(e, 2 | 3) && m.at(&p).kids.is_empty()) { return; }
                if f {
                    let mut t = forest(&m, form);
                    model::check_forest(&t, &m.kids, &mut h);
                    let o = edits::forest(&mut t, &mut m, &p, e, 9_000_000);
                    model::check_forest(&t, &m.kids, &mut h);
                    if let Some((o, om)) = o { model::check_tree(&o, &om, &mut h); if op % 4 == 1 { drop(o); model::check_forest(&t, &m.kids, &mut h); } }
                    if !sup::failed() { drain_forest(t, &m, op); }
                } else {
                    let mut t = build(&m, form);
                    model::check_tree(&t, &m, &mut h);
                    let o = edits::tree(&mut t, &mut m, &p, e, 9_000_000);
                    model::check_tree(&t, &m, &mut h);
                    if let Some((o, om)) = o { model::check_tree(&o, &om, &mut h); if op % 4 == 0 { drop(o); model::check_tree(&t, &m, &mut h); } }
                    if !sup::failed() { drain(t, &m, op); }
                }
            }
            1 => {
                let lt = levels(std::iter::once(&m));
                let lk = levels(m.kids.iter());
                let stop = [usize::MAX, m.count() / 2, 1][(op / 8) as usize];
                let (k, n) = (m.kids.len(), m.count() - 1);
                let mut t = build(&m, form);
                match op % 8 {
                    0 => { let b = t.root().bfs(); lv_check(b.iter, b.size, &lt, 1, n, stop, |d: &&D| d.val()) }
                    1 => { let b = t.root().bfs_children(); lv_check(b.iter, b.size, &lk, k, n, stop, |d: &&D| d.val()) }
                    2 => { let b = t.bfs_mut(); lv_check(b.iter, b.size, &lt, 1, n, stop, |d: &&mut D| d.val()) }
                    3 => { let b = t.bfs_children_mut(); lv_check(b.iter, b.size, &lk, k, n, stop, |d: &&mut D| d.val()) }
                    4 => { let b = t.into_bfs(); lv_check(b.iter, b.size, &lt, 1, n, stop, |d: &D| d.val()); return }
                    5 => { let f = t.abandon(); let b = f.into_bfs(); lv_check(b.iter, b.size, &lk, k, n, stop, |d: &D| d.val()) }
                    6 => { let f = t.abandon(); { let b = f.bfs(); lv_check(b.iter, b.size, &lk, k, n, stop, |d: &&D| d.val()); } model::check_forest(&f, &m.kids, &mut h); }
                    _ => { let mut f = t.abandon(); { let b = f.bfs_mut(); lv_check(b.iter, b.size, &lk, k, n, stop, |d: &&mut D| d.val()); } model::check_forest(&f, &m.kids, &mut h); }
                }
                if op % 8 < 4 { model::check_tree(&t, &m, &mut h); }
            }
            2 => {
                let mut t = build(&m, form);
                let live = reg::live();
                match op {
                    0 => { let t = Tree::from(t.into_bfs()); same(reg::live(), live, sup::Facet::Rebuild, "data alive"); model::check_tree(&t, &m, &mut h); drain(t, &m, 4); }
                    1 => { let b = t.bfs_mut(); let s = b.size; let v: Vec<_> = b.iter.map(|v| Visit { data: v.data.clone(), size: v.size }).collect(); let u = Tree::from(BfsTree { iter: v.into_iter(), size: s }); drop(t); model::check_tree(&u, &m, &mut h); drain(u, &m, 3); }
                    2 => { let u: Tree<D> = Tree::from(t.root().bfs().map(|d: &D| d.clone())); model::check_tree(&u, &m, &mut h); model::check_tree(&t, &m, &mut h); drop(t); drain(u, &m, 2); }
                    3 => { let f = Forest::from(t.abandon().into_bfs()); model::check_forest(&f, &m.kids, &mut h); drain_forest(f, &m, 6); }
                    4 => { let f: Forest<D> = Forest::from(t.root().bfs_children().map(|d: &D| d.clone())); drop(t); model::check_forest(&f, &m.kids, &mut h); drain_forest(f, &m, 8); }
                    _ => { // again and again, the pieces edited in between
                        for i in 0..3u32 {
                            let p = if m.kids.is_empty() { vec![] } else { vec![(m.kids.len() / 2) as u16] };
                            let o = edits::tree(&mut t, &mut m, &p, if p.is_empty() { 1 } else { [4, 5, 6][i as usize] }, 9_000_000 + 10 * i);
                            drop(o);
                            t = Tree::from(t.into_bfs());
                            model::check_tree(&t, &m, &mut h);
                        }
                        drain(t, &m, 4);
                    }
                }
            }
            3 => {
                // one visit too many or too few, a degree or a number of descendants too large or too small in the middle or at the top
                let n = m.count();
                let mut v: Vec<Visit<D>> = model::visits(std::slice::from_ref(&m));
                let size = Size { degree: 1, descendants: n - 1 };
                let i = n / 2;
                match op {
                    0 => { v.pop(); }
                    1 => v.push(Visit { data: D::mk(1), size: Size { degree: 0, descendants: 0 } }),
                    2 => { v[i].size.degree += 1; v[i].size.descendants += 1; }
                    3 => { v[0].size.descendants += 256; }
                    4 => { v[i].size.descendants += n; }
                    5 => { v[0].size.degree -= 1; }
                    6 => { v[0].size.descendants += 65536; }
                    _ => { v[n - 1].size.descendants = 1; }
                }
                if n == 1 { return; }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Tree::from(BfsTree { iter: v.into_iter(), size })));
                match r { Err(_) => sup::stat(3, 1), Ok(t) => { bad!(Malformed, "an ill-formed stream of {} visits is taken for a tree of {} nodes", n, t.node_count()); } }
            }
            4 => {
                fn go<'a>(k: &'a M, out: &mut Vec<(u8, u32)>) { if k.kids.is_empty() { out.push((2, k.lab)); return; } out.push((0, k.lab)); for c in &k.kids { go(c, out); } out.push((1, k.lab)); }
                let mut seq = vec![];
                macro_rules! follow { ($w:expr) => { {
                    for (i, e) in seq.iter().enumerate() {
                        let got = if i % 2 == 0 || i == 0 { $w.get().map(|v| model::ev(&v)) } else { None };
                        if i % 2 == 0 { if got != Some(*e) { bad!(Walk, "step {i}: {got:?}, not {e:?}"); break; } $w.forward(); }
                        else { let next = $w.next().map(|v| model::ev(&v)); let exp = seq.get(i + 1).copied(); if next != exp { bad!(Walk, "step {i}: next() is {next:?}, not {exp:?}"); break; } }
                    }
                    want!(Walk, $w.get().is_none() && $w.next().is_none(), "the walk goes on");
                } } }
                if op == 0 { go(&m, &mut seq); let mut w = TreeWalk::from(build(&m, form)); follow!(w); let t = Tree::from(w); model::check_tree(&t, &m, &mut h); drain(t, &m, 3); }
                else { for k in &m.kids { go(k, &mut seq); } let mut w = ForestWalk::from(forest(&m, form)); follow!(w); let f = Forest::from(w); model::check_forest(&f, &m.kids, &mut h); drain_forest(f, &m, 8); }
            }
            5 => {
                let k = m.kids.len();
                let at = |i: usize| m.kids.get(i).map(|c| (if c.kids.is_empty() { 2u8 } else { 0 }, c.lab));
                if k == 0 { return; }
                if op == 0 {
                    let mut w = TreeWalk::from(build(&m, form));
                    for i in indices(k) {
                        let got = w.to_child(i).map(|v| model::ev(&v));
                        want!(Jump, got == at(i), "to_child({i}) of {k} children: {got:?}");
                        let up = w.to_parent().map(|v| model::ev(&v));
                        want!(Jump, up == Some((1, m.lab)), "to_parent() after to_child({i}): {up:?}");
                        w.revisit();
                        let me = w.get().map(|v| model::ev(&v));
                        want!(Jump, me == Some((0, m.lab)), "revisit(): {me:?}");
                        for j in indices(k) {
                            if i >= k { break; }
                            w.to_child(i);
                            let got = w.to_sib(j).map(|v| model::ev(&v));
                            let exp = i.checked_add(j).and_then(at);
                            want!(Jump, got == exp, "to_sib({j}) from child {i} of {k}: {got:?}, not {exp:?}");
                            w.to_parent();
                            w.revisit();
                        }
                        sup::beat();
                    }
                    let t = Tree::from(w);
                    model::check_tree(&t, &m, &mut h);
                } else {
                    let mut w = ForestWalk::from(forest(&m, form));
                    for i in indices(k) {
                        let got = w.to_sib(i).map(|v| model::ev(&v));
                        want!(Jump, got == at(i), "to_sib({i}) from the first of {k} trees: {got:?}");
                        let f = Forest::from(w);
                        w = ForestWalk::from(f);
                        sup::beat();
                    }
                    let f = Forest::from(w);
                    model::check_forest(&f, &m.kids, &mut h);
                }
            }
            6 => {
                let mut o = m.clone();
                let last = o.kids.len().saturating_sub(1);
                let ord = match op % 4 {
                    0 => std::cmp::Ordering::Equal,
                    1 if !o.kids.is_empty() => { o.kids[last].lab += 1; std::cmp::Ordering::Less }
                    2 => { o.kids.push(M::leaf(0)); std::cmp::Ordering::Less }
                    3 if !o.kids.is_empty() => { o.kids.pop(); std::cmp::Ordering::Greater }
                    _ => std::cmp::Ordering::Equal,
                };
                macro_rules! judge { ($a:expr, $b:expr) => { {
                    let (a, b) = ($a, $b);
                    want!(Cmp, (a == b) == ord.is_eq() && (b == a) == ord.is_eq(), "== is wrong: {}", a == b);
                    want!(Cmp, a.partial_cmp(&b) == Some(ord) && b.partial_cmp(&a) == Some(ord.reverse()), "partial_cmp is {:?}, not {ord:?}", a.partial_cmp(&b));
                    want!(Cmp, a.cmp(&b) == ord && b.cmp(&a) == ord.reverse(), "cmp is {:?}, not {ord:?}", a.cmp(&b));
                    want!(Cmp, (a < b) == ord.is_lt() && (a >= b) == ord.is_ge(), "< is {}, >= is {}", a < b, a >= b);
                    if ord.is_eq() { want!(Hash, hash_of(&a) == hash_of(&b), "equal, but they hash differently"); }
                } } }
                if op < 4 { judge!(build(&m, form), build(&o, (form + 1) % 4)) } else { judge!(forest(&m, form), forest(&o, (form + 1) % 4)) }
            }
            7 => {
                if op == 0 { let t = build(&m, form); want!(Text, t.to_string() == m.text(), "the text of the tree differs from the documented one"); }
                else { let f = forest(&m, form); want!(Text, f.to_string() == model::forest_text(&m.kids), "the text of the forest differs from the documented one"); }
            }
            8 => {
                let (live, cl) = (reg::live(), reg::clones());
                let n = m.count();
                let _ = live;
                match op {
                    0 | 1 | 2 => {
                        let mut t = build(&m, form);
                        let r = if op == 2 { let r = RcNode::from(t); let u = r.deep_clone(); t = unsafe { r.into_tree() }; u } else if op == 1 { t.root().deep_clone() } else { t.clone() };
                        want!(Clone, reg::clones() - cl == n, "{} data cloned to copy {n} nodes", reg::clones() - cl);
                        model::check_tree(&r, &m, &mut h);
                        model::check_tree(&t, &m, &mut h);
                        drain(t, &m, 4);
                        model::check_tree(&r, &m, &mut h);
                        drain(r, &m, 3);
                    }
                    3 | 4 => {
                        let f = forest(&m, form);
                        let r = f.clone();
                        want!(Clone, reg::clones() - cl == n - 1, "{} data cloned to copy {} nodes", reg::clones() - cl, n - 1);
                        model::check_forest(&r, &m.kids, &mut h);
                        if op == 3 { drop(f); model::check_forest(&r, &m.kids, &mut h); drain_forest(r, &m, 8); } else { drop(r); model::check_forest(&f, &m.kids, &mut h); drain_forest(f, &m, 6); }
                    }
                    _ => { let t = build(&m, form); let f = t.root().deep_clone_forest(); drop(t); model::check_forest(&f, &m.kids, &mut h); drain_forest(f, &m, 8); }
                }
            }
            9 => {
                let k = m.kids.len();
                match op {
                    0 => { let t = unsafe { RcNode::from(build(&m, form)).into_tree() }; model::check_tree(&t, &m, &mut h); drain(t, &m, 4); }
                    1 => { let f = build(&m, form).abandon(); model::check_forest(&f, &m.kids, &mut h); }
                    2 => { let f = forest(&m, form); let w = ForestWalk::from(f); let f = Forest::from(w); model::check_forest(&f, &m.kids, &mut h); }
                    3 => { let mut it = forest(&m, form).into_iter(); same((it.len(), it.size_hint()), (k, (k, Some(k))), sup::Facet::Conv, "len() and size_hint()"); for i in 0..k { match it.next() { Some(t) => model::check_tree(&t, &m.kids[i], &mut h), None => { bad!(Conv, "tree {i} is missing"); break; } } same(it.len(), k - 1 - i, sup::Facet::Conv, "len()"); } want!(Conv, it.next().is_none(), "too many trees"); }
                    4 => { let mut it = forest(&m, form).into_iter(); for _ in 0..k / 2 { it.next(); } same(it.len(), k - k / 2, sup::Facet::Conv, "len() half way"); }
                    5 => same(forest(&m, form).into_iter().count(), k, sup::Facet::Conv, "count()"),
                    6 => { let l = forest(&m, form).into_iter().last(); want!(Conv, l.map(|t| t.data().val()) == m.kids.last().map(|k| k.lab), "last()"); }
                    _ => { let mut it = forest(&m, form).into_iter(); let g = it.nth(k / 2).map(|t| t.data().val()); want!(Conv, g == m.kids.get(k / 2).map(|k| k.lab), "nth: {g:?}"); same(it.count(), k.saturating_sub(k / 2 + 1), sup::Facet::Conv, "count() after nth"); }
                }
            }
            10 => {
                let ps = places(m.kids.len());
                if ps.is_empty() { return; }
                let (k, n) = (ps[(op / 4) as usize], m.kids.len());
                let w = |i: usize| m.kids.get(i).map(|k| k.lab);
                macro_rules! go { ($it:expr) => { {
                    let mut it = $it;
                    same((it.len(), it.size_hint()), (n, (n, Some(n))), sup::Facet::ChildIter, "len() and size_hint()");
                    let g = it.nth(k).map(|c| c.data().val());
                    want!(ChildIter, g == w(k), "nth({k}) is {g:?}");
                    same(it.len(), n - k - 1, sup::Facet::ChildIter, "len() after nth");
                    for i in k + 1..n { let g = it.next().map(|c| c.data().val()); if g != w(i) { bad!(ChildIter, "child {i} is {g:?}, not {:?}", w(i)); break; } if i % 64 == 0 { same(it.len(), n - i - 1, sup::Facet::ChildIter, "len()"); } }
                    want!(ChildIter, it.next().is_none() && it.next().is_none() && it.len() == 0, "it goes on");
                } } }
                match op % 4 {
                    0 => { let t = build(&m, form); go!(t.iter()); same(t.iter().count(), n, sup::Facet::ChildIter, "count()"); want!(ChildIter, t.iter().last().map(|k| k.data().val()) == w(n - 1), "last()"); }
                    1 => { let mut t = build(&m, form); go!(t.iter_mut()); same(t.iter_mut().count(), n, sup::Facet::ChildIter, "count()"); want!(ChildIter, t.iter_mut().last().map(|k| k.data().val()) == w(n - 1), "last()"); }
                    2 => { let f = forest(&m, form); go!(f.iter()) }
                    _ => { let mut f = forest(&m, form); go!(f.iter_mut()) }
                }
            }
            11 => {
                let ps = places(m.kids.len());
                if ps.is_empty() { return; }
                let (i, n) = (ps[(op / 4) as usize], m.kids.len());
                let r = RcNode::from(build(&m, form));
                let all: Vec<RcNode<D>> = r.iter_rc().collect();
                same(all.len(), n, sup::Facet::IterRc, "children listed by iter_rc()");
                want!(IterRc, all.iter().zip(&m.kids).all(|(a, k)| a.data().val() == k.lab), "iter_rc() lists other children");
                let weak: Vec<_> = all.iter().map(|k| k.downgrade()).collect();
                let mut it = r.iter_rc();
                for _ in 0..i { it.next(); }
                let kid = all[i].clone();
                let km = m.kids[i].clone();
                match op % 4 {
                    0 => { kid.detach(); m.kids.remove(i); same(kid.node_count(), km.count(), sup::Facet::Count, "node_count() of the detached child"); want!(Handle, kid.is_root(), "the detached child has a parent"); }
                    1 => { kid.insert_prev_sib(Tree::new(D::mk(9_000_000))); m.kids.insert(i, M::leaf(9_000_000)); }
                    2 => { kid.push_back(Tree::new(D::mk(9_000_000))); m.kids[i].kids.push(M::leaf(9_000_000)); }
                    _ => { let p = r.pop_back(); want!(Handle, p.map(|p| p.data().val()) == m.kids.last().map(|k| k.lab), "pop_back() gives another child"); m.kids.pop(); }
                }
                same((r.degree(), r.node_count()), (m.kids.len(), m.count()), sup::Facet::Count, "degree() and node_count() of the root");
                drop(all);
                let last = weak[n - 1].upgrade().map(|k| k.data().val());
                want!(Weak, op % 4 == 3 || last.is_some(), "a weak handle to a child does not upgrade");
                let t = unsafe { { drop(kid); drop(it); drop(r.clone()); r.into_tree() } };
                model::check_tree(&t, &m, &mut h);
                let up: usize = weak.iter().filter(|w| w.upgrade().is_some()).count();
                same(up, n - matches!(op % 4, 0 | 3) as usize, sup::Facet::Weak, "weak handles which upgrade");
                drain(t, &m, op);
                want!(Weak, weak.iter().all(|w| w.upgrade().is_none()), "a weak handle upgrades although the tree is gone");
            }
            _ => {
                let mut t = build(&m, form);
                let mut seen = 0usize;
                let f = op % 2 == 1;
                let mut fo = if f { t.abandon() } else { Forest::new() };
                let labs: Vec<u32> = m.kids.iter().map(|k| k.lab).collect();
                let mut gone = vec![];
                {
                    let it = if f { fo.iter_mut() } else { t.iter_mut() };
                    for k in it {
                        if labs.get(seen) != Some(&k.data().val()) { bad!(IterMut, "item {seen} is {}, not {:?}", k.data().val(), labs.get(seen)); break; }
                        let n = k.get_mut();
                        match op / 2 { 0 => if seen % 3 != 1 { gone.push(n.detach()) }, 1 => n.insert_prev_sib(Tree::new(D::mk(1_000_000 + seen as u32))), 2 => n.insert_next_sib(Tree::new(D::mk(1_000_000 + seen as u32))), _ => if seen + 1 == labs.len() { gone.push(n.detach()) } }
                        seen += 1;
                    }
                }
                same(seen, labs.len(), sup::Facet::IterMut, "items");
                let mut kids = vec![];
                let last = m.kids.len() - 1;
                for (i, k) in std::mem::take(&mut m.kids).into_iter().enumerate() {
                    let new = M::leaf(1_000_000 + i as u32);
                    match op / 2 { 0 => if i % 3 == 1 { kids.push(k) }, 1 => { kids.push(new); kids.push(k); } 2 => { kids.push(k); kids.push(new); } _ => if i != last { kids.push(k) } }
                }
                m.kids = kids;
                if f { model::check_forest(&fo, &m.kids, &mut h); drop(gone); model::check_forest(&fo, &m.kids, &mut h); drain_forest(fo, &m, 8); }
                else { model::check_tree(&t, &m, &mut h); drop(gone); model::check_tree(&t, &m, &mut h); drain(t, &m, 4); }
            }
        }
        sup::stat(0, 1);
        sup::stat(1, 1);
        if sup::failed() { h.add(1); }
        sup::digest(h.0);
    })
}
pub struct Bounds { pub shapes: Vec<(u8, usize)> }
pub fn explore(run: &mut Run, b: &Bounds, what: i64) {
    for &(fam, n) in &b.shapes {
        let m = shape(fam, n);
        let mut cases: Vec<(u8, u8, u64)> = vec![];
        for g in 0..GROUPS.len() as u8 {
            if what >> g & 1 == 0 { continue; }
            for op in 0..ops(g, &m) { for form in 0..if g == 3 { 1 } else { 4u8 } { cases.push((g, form, op)); } }
        }
        let groups: Vec<&str> = GROUPS.iter().enumerate().filter(|(g, _)| what >> g & 1 == 1).map(|x| *x.1).collect();
        run.states += 4;
        run.explore(&format!("huge-{}-{n}", ["star", "chain", "brush", "binary", "inner"][fam as usize]), &format!("{} in {} storage forms; one operation of {groups:?} at the root and at the first, middle, last, 256th and 65535th child", fam_text(fam, n), FORMS.len()), cases.len() as u64,
            &|i| { let (g, f, op) = cases[i as usize]; case(g, &m, f, op) },
            &|i| { let (g, f, op) = cases[i as usize]; format!("{} {}: {} {op}", fam_text(fam, n), FORMS[f as usize], GROUPS[g as usize]) });
    }
}
