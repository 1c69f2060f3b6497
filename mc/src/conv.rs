//! Explorer of conversions and owning iteration (C25).
use crate::edits;
use crate::consume::{consume, key, Lab, step_text, ENDS, END_NAMES, STEPS};
use crate::model::{self, accounted, M};
use crate::reg::{self, Datum};
use crate::shape::{self, S};
use crate::sup::{self, Facet, Run};
use crate::util::H;
use crate::{bad, want};
use trees::{Forest, ForestWalk, RcNode, Tree, TreeWalk};

/// Conversions of a tree into a tree.
pub const TREE: [&str; 10] = ["RcNode", "RcNode with a handle to the last leaf dropped again", "RcNode, downgraded, weak handle dropped after", "RcNode twice", "TreeWalk at its start",
    "TreeWalk after some steps", "TreeWalk at its end", "Tree::into_iter", "abandoned and appended to itself", "into_bfs rebuilt"];
fn convert<X: Datum>(t: Tree<X>, c: usize, m: &M) -> Option<Tree<X>> {
    let mut h = H::new();
    Some(match c {
        0 => unsafe { RcNode::from(t).into_tree() },
        1 => {
            let r = RcNode::from(t);
            let mut x = r.clone();
            while let Some(y) = x.back() { x = y; }
            drop(x);
            unsafe { r.into_tree() }
        }
        2 => {
            let r = RcNode::from(t);
            let w = r.downgrade();
            let w2 = r.front().map(|f| f.downgrade());
            let t = unsafe { r.into_tree() };
            drop((w, w2));
            t
        }
        3 => unsafe { RcNode::from(RcNode::from(t).into_tree()).into_tree() },
        4 => Tree::from(TreeWalk::from(t)),
        5 => { let mut w = TreeWalk::from(t); for _ in 0..m.count() / 2 + 1 { w.forward(); } w.to_parent(); Tree::from(w) }
        6 => { let mut w = TreeWalk::from(t); for _ in 0..2 * m.count() + 1 { w.forward(); } Tree::from(w) }
        7 => {
            let mut it = t.into_iter();
            want!(Conv, it.len() == 1 && it.size_hint() == (1, Some(1)), "Tree::into_iter announces {:?}", it.size_hint());
            let r = it.next();
            want!(Conv, it.len() == 0, "Tree::into_iter has {} left after its tree", it.len());
            want!(Conv, it.next().is_none(), "Tree::into_iter yields more than the tree");
            match r { Some(t) => t, None => { bad!(Conv, "Tree::into_iter yields nothing"); return None; } }
        }
        8 => {
            let mut t = t;
            let f = t.abandon();
            model::check_forest(&f, &m.kids, &mut h);
            model::check_tree(&t, &M { lab: m.lab, st: 0, kids: vec![] }, &mut h);
            t.append(f);
            t
        }
        _ => Tree::from(t.into_bfs()),
    })
}
pub const FOREST: [&str; 6] = ["ForestWalk at its start", "ForestWalk after some steps", "ForestWalk at its end", "into_iter, pushed one by one", "into_bfs rebuilt", "appended to an empty forest"];
fn fconvert<X: Datum>(f: Forest<X>, c: usize, m: &M) -> Forest<X> {
    match c {
        0 => Forest::from(ForestWalk::from(f)),
        1 => { let mut w = ForestWalk::from(f); for _ in 0..m.count() / 2 { w.forward(); } w.to_parent(); Forest::from(w) }
        2 => { let mut w = ForestWalk::from(f); for _ in 0..2 * m.count() { w.forward(); } Forest::from(w) }
        3 => { let mut o = Forest::new(); for t in f { o.push_back(t); } o }
        4 => Forest::from(f.into_bfs()),
        _ => { let mut o = Forest::default(); o.append(f); o }
    }
}
fn tree_case<X: Datum>(m: &M, kind: usize, c: usize, p: &[u16], e: u8, d: u8) {
    accounted(|| {
        let mut m = m.clone();
        let mut h = H::new();
        let t: Tree<X> = model::build(&m, model::KINDS[kind]);
        let n = reg::live();
        let Some(mut t) = convert(t, c, &m) else { return };
        want!(Conv, reg::live() == n, "{} data are alive after the conversion, not {n}", reg::live());
        sup::stat(0, 2);
        model::check_tree(&t, &m, &mut h);
        if sup::failed() { return; }
        let out = edits::tree(&mut t, &mut m, p, e, 700);
        model::check_tree(&t, &m, &mut h);
        if sup::failed() { return; }
        if let Some((o, om)) = out { model::check_tree(&o, &om, &mut h); model::drain_tree(o, &om, d); }
        sup::digest(h.0);
        // and back again
        let Some(t) = convert(t, (c + e as usize) % TREE.len(), &m) else { return };
        model::check_tree(&t, &m, &mut h);
        if !sup::failed() { model::drain_tree(t, &m, d); }
    })
}
fn forest_case<X: Datum>(m: &M, kind: usize, c: usize, p: &[u16], e: u8, d: u8) {
    accounted(|| {
        let mut m = m.clone();
        let mut h = H::new();
        let f: Forest<X> = model::build_forest(&m.kids, model::FKINDS[kind]);
        let n = reg::live();
        let mut f = fconvert(f, c, &m);
        want!(Conv, reg::live() == n, "{} data are alive after the conversion, not {n}", reg::live());
        sup::stat(0, 2);
        model::check_forest(&f, &m.kids, &mut h);
        if sup::failed() { return; }
        let out = edits::forest(&mut f, &mut m, p, e, 700);
        model::check_forest(&f, &m.kids, &mut h);
        if sup::failed() { return; }
        if let Some((o, om)) = out { model::check_tree(&o, &om, &mut h); model::drain_tree(o, &om, d); }
        sup::digest(h.0);
        let f = fconvert(f, (c + e as usize) % FOREST.len(), &m);
        model::check_forest(&f, &m.kids, &mut h);
        if !sup::failed() { model::drain_forest(f, &m.kids, d); }
    })
}
/// Forest::into_iter stopped after `stop` trees; which of them live on, and how the iterator ends.
const FATES: u64 = 4; // dropped at once, kept, edited and kept, made an RcNode
fn owning_case<X: Datum>(m: &M, kind: usize, stop: usize, fates: u64, late: bool, d: u8) {
    accounted(|| {
        let mut h = H::new();
        let f: Forest<X> = model::build_forest(&m.kids, model::FKINDS[kind]);
        let mut alive = model::forest_count(&m.kids);
        want!(Conv, reg::live() == alive, "{} data alive, not {alive}", reg::live());
        let mut it = f.into_iter();
        let mut kept: Vec<(Tree<X>, M)> = vec![];
        let mut rcs: Vec<RcNode<X>> = vec![];
        let n = m.kids.len();
        let mut z = fates;
        for i in 0..stop {
            want!(Conv, it.len() == n - i && it.size_hint() == (n - i, Some(n - i)), "into_iter announces {:?}, {} are left", it.size_hint(), n - i);
            let Some(mut t) = it.next() else { bad!(Conv, "into_iter ends after {i} of {n} trees"); return };
            let mut k = m.kids[i].clone();
            model::check_tree(&t, &k, &mut h);
            if sup::failed() { return; }
            sup::stat(0, 1);
            match z % FATES {
                0 => { alive -= k.count(); drop(t); }
                1 => kept.push((t, k)),
                2 => {
                    edits::tree(&mut t, &mut k, &[], 1, 300 + 10 * i as u32);
                    alive += 2;
                    kept.push((t, k));
                }
                _ => { rcs.push(RcNode::from(t)); }
            }
            z /= FATES;
            want!(Conv, reg::live() == alive, "{} data alive, not {alive}, after tree {i}", reg::live());
        }
        if stop == n { for _ in 0..2 { want!(Conv, it.len() == 0, "into_iter announces {} after its end", it.len()); want!(Conv, it.next().is_none(), "into_iter yields too many trees"); } }
        let rest: usize = m.kids[stop..].iter().map(|k| k.count()).sum();
        if !late { drop(it); alive -= rest; want!(Conv, reg::live() == alive, "{} data alive, not {alive}, after dropping the iterator", reg::live()); for (t, k) in &kept { model::check_tree(t, k, &mut h); } }
        else {
            for (t, k) in kept.drain(..) { model::check_tree(&t, &k, &mut h); if !sup::failed() { alive -= k.count(); model::drain_tree(t, &k, d); } }
            want!(Conv, it.len() == n - stop, "into_iter announces {}", it.len());
            want!(Conv, reg::live() == alive, "{} data alive, not {alive}", reg::live());
            drop(it);
        }
        if sup::failed() { return; }
        for (t, k) in kept { model::drain_tree(t, &k, d); }
        sup::digest(h.0);
    })
}
const OWNING: [&str; 3] = ["Tree::into_iter", "Forest::into_iter", "what abandon() leaves, into_iter"];
/// Every sequence of consuming calls on an owning iterator.
fn consume_case<X: Datum>(m: &M, which: usize, kind: usize, steps: u64, depth: u64, end: u64) {
    accounted(|| {
        let mut h = H::new();
        let w: Vec<_> = m.kids.iter().map(key::<X>).collect();
        fn len<I: ExactSizeIterator>(_: &I) -> fn(&I) -> usize { |i| i.len() }
        let go = |it: trees::IntoIter<X>, w: &[[u64; 3]], h: &mut H| { let f = len(&it); consume(Facet::Conv, it, true, Some(f), w, steps, depth, end, Lab::lab, h); };
        let mut left = 0;
        match which {
            0 => go(model::build::<X>(m, model::KINDS[kind]).into_iter(), &[key::<X>(m)], &mut h),
            1 => go(model::build_forest::<X>(&m.kids, model::FKINDS[kind % 5]).into_iter(), &w, &mut h),
            _ => {
                let mut t: Tree<X> = model::build(m, model::KINDS[kind]);
                go(t.abandon().into_iter(), &w, &mut h);
                model::check_tree(&t, &M { lab: m.lab, st: 0, kids: vec![] }, &mut h);
                left = 1;
                want!(Conv, reg::live() == left, "{} data alive, not {left}", reg::live());
            }
        }
        want!(Conv, which == 2 || reg::live() == left, "{} data alive after the iterator", reg::live());
        sup::digest(h.0);
    })
}
pub fn explore<X: Datum>(run: &mut Run, tag: &str, n: usize, own: usize, scaled: &[usize]) {
    let mut trees: Vec<S> = shape::trees_upto(n);
    for &s in scaled { trees.extend(shape::scaled(s).into_iter().map(|x| x.1)); }
    let mut cases: Vec<(u32, u8, u8, Vec<u16>, u8)> = vec![];
    let ms: Vec<M> = trees.iter().map(|s| { let mut l = 0; model::label(s, &mut l) }).collect();
    let few = |v: Vec<(Vec<u16>, u8)>, m: &M| -> Vec<(Vec<u16>, u8)> { if m.count() <= n { v } else { let k = v.len(); v.into_iter().enumerate().filter(|(i, _)| *i < 6 || i + 6 >= k || i % (k / 8) == 0).map(|x| x.1).collect() } };
    for (a, m) in ms.iter().enumerate() {
        for (p, e) in few(edits::all(m, false), m) { for k in 0..6u8 { for c in 0..TREE.len() as u8 { cases.push((a as u32, k, c, p.clone(), e)); } } }
    }
    run.states += ms.len() as u64 * 6;
    run.explore(&format!("{tag}conv-tree-{n}"), &format!("every tree of at most {n} nodes (and families of {scaled:?}) x 6 storage forms x {} conversions x one edit anywhere x another conversion", TREE.len()), cases.len() as u64,
        &|i| { let (a, k, c, p, e) = &cases[i as usize]; tree_case::<X>(&ms[*a as usize], *k as usize, *c as usize, p, *e, (i % 10) as u8) },
        &|i| { let (a, k, c, p, e) = &cases[i as usize]; format!("{} built {:?}; {}; {}; {}", ms[*a as usize].text(), model::KINDS[*k as usize], TREE[*c as usize], edits::describe(p, *e), TREE[(*c + *e) as usize % TREE.len()]) });
    let mut cases: Vec<(u32, u8, u8, Vec<u16>, u8)> = vec![];
    for (a, m) in ms.iter().enumerate() {
        for (p, e) in few(edits::all(m, true), m) { for k in 0..5u8 { for c in 0..FOREST.len() as u8 { cases.push((a as u32, k, c, p.clone(), e)); } } }
    }
    run.states += ms.len() as u64 * 5;
    run.explore(&format!("{tag}conv-forest-{n}"), &format!("every forest of at most {} nodes x 5 storage forms x {} conversions x one edit anywhere x another conversion", n - 1, FOREST.len()), cases.len() as u64,
        &|i| { let (a, k, c, p, e) = &cases[i as usize]; forest_case::<X>(&ms[*a as usize], *k as usize, *c as usize, p, *e, (i % 10) as u8) },
        &|i| { let (a, k, c, p, e) = &cases[i as usize]; format!("{} built {:?}; {}; {}; {}", model::forest_text(&ms[*a as usize].kids), model::FKINDS[*k as usize], FOREST[*c as usize], edits::describe(p, *e), FOREST[(*c + *e) as usize % FOREST.len()]) });
    let mut cases: Vec<(u32, u8, u8, u64, bool)> = vec![];
    for (a, m) in ms.iter().enumerate() {
        if m.count() > own + 1 { continue; }
        for k in 0..5u8 { for stop in 0..=m.kids.len() { for z in 0..FATES.pow(stop as u32) { for late in [false, true] { cases.push((a as u32, k, stop as u8, z, late)); } } } }
    }
    run.explore(&format!("{tag}owning-{own}"), &format!("Forest::into_iter of every forest of at most {own} nodes x 5 storage forms, stopped anywhere, each yielded tree dropped, kept, edited or shared"), cases.len() as u64,
        &|i| { let (a, k, s, z, l) = cases[i as usize]; owning_case::<X>(&ms[a as usize], k as usize, s as usize, z, l, (i % 10) as u8) },
        &|i| { let (a, k, s, z, l) = cases[i as usize]; format!("{} built {:?}; into_iter stopped after {s}; fates {z} (base 4: dropped, kept, edited, shared); iterator dropped {}", model::forest_text(&ms[a as usize].kids), model::FKINDS[k as usize], if l { "last" } else { "first" }) });
    // shapes up to 4 nodes below the top, and wide ones
    let few: Vec<usize> = (0..ms.len()).filter(|&a| ms[a].count() <= own.min(5)).collect();
    let depth = if !tag.is_empty() { 1 } else if run.thorough() { 3u64 } else { 2 };
    let seqs: Vec<(u64, u64)> = (0..=depth).flat_map(|k| (0..STEPS.pow(k as u32)).map(move |s| (s, k))).collect();
    let per = (seqs.len() as u64) * ENDS * 3 * 6;
    let dec = move |i: u64| { let a = (i / per) as usize; let j = i % per; ((j % 3) as usize, (j / 3 % 6) as usize, j / 18 % ENDS, (j / 18 / ENDS) as usize, a) };
    run.explore(&format!("{tag}owning-calls"), &format!("every tree of at most {} nodes x 6 storage forms x {} owning iterators x every sequence of {STEPS} consuming calls up to length {depth} x {ENDS} ways to consume the rest", own.min(5), OWNING.len()), per * few.len() as u64,
        &|i| { let (w, k, e, s, a) = dec(i); consume_case::<X>(&ms[few[a]], w, k, seqs[s].0, seqs[s].1, e) },
        &|i| { let (w, k, e, s, a) = dec(i); format!("{} of {} built {:?}: {}, then {}", OWNING[w], ms[few[a]].text(), model::KINDS[k], step_text(seqs[s]), END_NAMES[e as usize]) });
}
