//! Explorer of child iterators (C26): every sequence of consuming calls on every kind of child iterator.
use crate::consume::{consume, key, Lab, ENDS, END_NAMES, STEPS, step_text};
use crate::model::{self, accounted, M};
use crate::reg::Datum;
use crate::sup::{self, Facet, Run};
use crate::util::H;
use crate::bad;
use trees::{Forest, RcNode, Tree};

const PLACES: [&str; 12] = ["Tree::iter", "Node::iter", "inner Node::iter", "Forest::iter", "Tree::iter_mut", "Node::iter_mut", "inner Node::iter_mut", "Forest::iter_mut",
    "&Node::into_iter", "Pin<&mut Node>::into_iter", "Forest::into_iter", "iter_rc"];
fn case<X: Datum>(place: usize, m: &M, kind: usize, steps: u64, depth: u64, end: u64) {
    accounted(|| {
        let mut h = H::new();
        let w: Vec<[u64; 3]> = m.kids.iter().map(key::<X>).collect();
        let outer = |m: &M| M { lab: 100, st: 0, kids: vec![M::leaf(101), m.clone(), M::leaf(102)] };
        let kinds = model::KINDS;
        let fkinds = model::FKINDS;
        macro_rules! go { ($it:expr, $w:expr) => { { let it = $it; fn len<I: ExactSizeIterator>(_: &I) -> fn(&I) -> usize { |i| i.len() } let f = len(&it); consume(Facet::ChildIter, it, true, Some(f), $w, steps, depth, end, Lab::lab, &mut h) } } }
        match place {
            0 | 1 | 4 | 5 | 8 | 9 => {
                let mut t: Tree<X> = model::build(m, kinds[kind]);
                match place {
                    0 => go!(t.iter(), &w),
                    1 => go!(t.root().iter(), &w),
                    4 => go!(t.iter_mut(), &w),
                    5 => go!(t.root_mut().get_mut().iter_mut(), &w),
                    8 => { let me = [key::<X>(m)]; go!(t.root().into_iter(), &me); if let Some(k) = t.back() { let me = [key::<X>(m.kids.last().unwrap())]; go!(k.into_iter(), &me); } if let Some(k) = t.front() { let me = [key::<X>(&m.kids[0])]; go!(k.into_iter(), &me); } }
                    _ => { let me = [key::<X>(m)]; go!(t.root_mut().into_iter(), &me); if let Some(k) = t.front_mut() { let me = [key::<X>(&m.kids[0])]; go!(k.into_iter(), &me); } if let Some(k) = t.back_mut() { let me = [key::<X>(m.kids.last().unwrap())]; go!(k.into_iter(), &me); } }
                }
                model::check_tree(&t, m, &mut h);
            }
            2 | 6 => {
                let o = outer(m);
                let mut t: Tree<X> = model::build(&o, kinds[kind]);
                if place == 2 { match t.iter().nth(1) { Some(n) => go!(n.iter(), &w), None => bad!(Shape, "no child") } }
                else { match t.iter_mut().nth(1) { Some(n) => go!(n.get_mut().iter_mut(), &w), None => bad!(Shape, "no child") } }
                model::check_tree(&t, &o, &mut h);
            }
            3 | 7 => {
                let mut f: Forest<X> = model::build_forest(&m.kids, fkinds[kind % 5]);
                if place == 3 { go!(f.iter(), &w) } else { go!(f.iter_mut(), &w) }
                model::check_forest(&f, &m.kids, &mut h);
            }
            10 => { let f: Forest<X> = model::build_forest(&m.kids, fkinds[kind % 5]); go!(f.into_iter(), &w); }
            _ => { let r = RcNode::from(model::build::<X>(m, kinds[kind])); consume(Facet::ChildIter, r.iter_rc(), true, None, &w, steps, depth, end, Lab::lab, &mut h); }
        }
        sup::stat(1, 1);
        sup::digest(h.0);
    })
}
pub fn explore<X: Datum>(run: &mut Run, tag: &str, degree: u64, depth: u64, big: &[u64]) {
    let kinds = 6;
    // (children, depth, step sequences)
    let mut blocks: Vec<(u64, u64, u64)> = vec![];
    for d in 0..=degree { for k in 0..=depth { blocks.push((d, k, STEPS.pow(k as u32))); } }
    for &d in big { blocks.push((d, 1, STEPS)); }
    let per = PLACES.len() as u64 * kinds * ENDS;
    let mut first = vec![0u64];
    for b in &blocks { first.push(first.last().unwrap() + b.2 * per); }
    let tree = |d: u64| {
        let mut lab = 0;
        let mut f = || { lab += 1; lab };
        let r = f();
        M { lab: r, st: 0, kids: (0..d).map(|i| { let l = f(); M { lab: l, st: 0, kids: if i % 3 == 1 { vec![M::leaf(f())] } else { vec![] } } }).collect() }
    };
    let ms: Vec<M> = (0..=degree.max(big.iter().copied().max().unwrap_or(0))).map(tree).collect();
    let dec = |i: u64| {
        let b = first.partition_point(|&f| f <= i) - 1;
        let (d, k, _) = blocks[b];
        let j = i - first[b];
        let (steps, j) = (j / per, j % per);
        ((j % 12) as usize, d, (j / 12 % kinds) as usize, steps, k, j / 12 / kinds)
    };
    run.states += ms.len() as u64 * 12 * kinds;
    run.explore(&format!("{tag}childiter-{degree}-{depth}"), &format!("{} iterators x {kinds} storage forms x degrees 0..={degree} (and {big:?}) x every sequence of {STEPS} consuming calls up to length {depth} x {ENDS} ways to consume the rest", PLACES.len()),
        *first.last().unwrap(),
        &|i| { let (p, d, k, s, n, e) = dec(i); case::<X>(p, &ms[d as usize], k, s, n, e) },
        &|i| {
            let (p, d, k, s, n, e) = dec(i);
            format!("{} of {d} children, storage form {k}: {}, then {}", PLACES[p], step_text((s, n)), END_NAMES[e as usize])
        });
}
