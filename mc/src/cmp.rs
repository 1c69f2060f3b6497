//! Every pair of small labelled trees compared and hashed through every kind of handle (C19).
use crate::model::{self, accounted, M, FKINDS, KINDS};
use crate::reg::{Datum, D};
use crate::shape::{self, S};
use crate::sup::{self, Run};
use crate::util::H;
use crate::want;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use trees::{Forest, RcNode, Tree};

/// Partially ordered: 0 < 1, 2 differs even from itself (as a NaN does), 3 equals itself but is not comparable to anything else.
#[derive(Clone, Debug)]
pub struct P(pub u32);
impl Datum for P {
    const TRACKED: bool = false;
    const NAME: &'static str = "P";
    fn mk(l: u32) -> P { P(l) }
    fn val(&self) -> u32 { self.0 }
    fn set(&mut self, l: u32) { self.0 = l }
}
fn p_eq(a: u32, b: u32) -> bool { a == b && a != 2 }
fn p_cmp(a: u32, b: u32) -> Option<Ordering> { if a == 2 || b == 2 || (a == 3) != (b == 3) { None } else { Some(a.cmp(&b)) } }
impl PartialEq for P { fn eq(&self, o: &P) -> bool { p_eq(self.0, o.0) } }
impl PartialOrd for P { fn partial_cmp(&self, o: &P) -> Option<Ordering> { p_cmp(self.0, o.0) } }

/// How a datum type compares, on labels.
pub trait Rel: Datum + PartialOrd + PartialEq + Debug {
    fn eq_(a: u32, b: u32) -> bool;
    fn cmp_(a: u32, b: u32) -> Option<Ordering>;
}
impl Rel for P { fn eq_(a: u32, b: u32) -> bool { p_eq(a, b) } fn cmp_(a: u32, b: u32) -> Option<Ordering> { p_cmp(a, b) } }
impl Rel for D { fn eq_(a: u32, b: u32) -> bool { a == b } fn cmp_(a: u32, b: u32) -> Option<Ordering> { Some(a.cmp(&b)) } }

fn m_eq<X: Rel>(a: &M, b: &M) -> bool { X::eq_(a.lab, b.lab) && f_eq::<X>(&a.kids, &b.kids) }
fn f_eq<X: Rel>(a: &[M], b: &[M]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(a, b)| m_eq::<X>(a, b)) }
fn m_cmp<X: Rel>(a: &M, b: &M) -> Option<Ordering> {
    match X::cmp_(a.lab, b.lab) { Some(Ordering::Equal) => f_cmp::<X>(&a.kids, &b.kids), o => o }
}
fn f_cmp<X: Rel>(a: &[M], b: &[M]) -> Option<Ordering> {
    for (x, y) in a.iter().zip(b) { match m_cmp::<X>(x, y) { Some(Ordering::Equal) => (), o => return o } }
    Some(a.len().cmp(&b.len()))
}

pub const HANDLES: [&str; 6] = ["Tree", "Node at the root", "Node inside a tree", "RcNode at the root", "RcNode inside a tree", "Forest"];

fn relations<V: PartialOrd + PartialEq>(a: &V, b: &V, eq: bool, o: Option<Ordering>, how: &str) {
    let back = o.map(|o| o.reverse());
    let got = [a == b, b == a, !(a != b), !(b != a)];
    want!(Cmp, got == [eq; 4], "{how}: a == b is {}, b == a {}, a != b {}, b != a {}; expected ==: {eq}", got[0], got[1], !got[2], !got[3]);
    let (x, y) = (a.partial_cmp(b), b.partial_cmp(a));
    want!(Cmp, x == o && y == back, "{how}: partial_cmp is {x:?} and {y:?}, not {o:?} and {back:?}");
    let is = |f: &dyn Fn(Ordering) -> bool, o: Option<Ordering>| o.map_or(false, f);
    let exp = |o| [is(&|o| o.is_lt(), o), is(&|o| o.is_le(), o), is(&|o| o.is_gt(), o), is(&|o| o.is_ge(), o)];
    let (g, r) = ([a < b, a <= b, a > b, a >= b], [b < a, b <= a, b > a, b >= a]);
    want!(Cmp, g == exp(o), "{how}: <, <=, >, >= are {g:?}, not {:?}", exp(o));
    want!(Cmp, r == exp(back), "{how}: the other way round <, <=, >, >= are {r:?}, not {:?}", exp(back));
    sup::stat(0, 14);
}
fn hash_of<V: Hash>(x: &V) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() }
fn judge(t: (Ordering, Ordering, u64, u64), eq: bool, o: Option<Ordering>, how: &str) {
    let back = o.map(|o| o.reverse());
    want!(Cmp, Some(t.0) == o && Some(t.1) == back, "{how}: cmp is {:?} and {:?}, not {o:?}", t.0, t.1);
    if eq { want!(Hash, t.2 == t.3, "{how}: equal, but they hash differently"); }
}

/// Both sides in some storage form, seen through a kind of handle.
macro_rules! seen { ($x:ty, $ms:expr, $ks:expr, $handle:expr, |$a:ident, $b:ident| $body:block) => { {
    let (ms, ks): ([&M; 2], [usize; 2]) = ($ms, $ks);
    let inside = |i: usize| M { lab: 7 + i as u32, st: 0, kids: if i == 0 { vec![ms[0].clone(), M::leaf(9)] } else { vec![M::leaf(1), M { lab: 0, st: 0, kids: vec![M::leaf(0)] }, ms[1].clone()] } };
    match $handle {
        0 => { let (t, u): (Tree<$x>, Tree<$x>) = (model::build(ms[0], KINDS[ks[0]]), model::build(ms[1], KINDS[ks[1]])); let ($a, $b) = (&t, &u); $body }
        1 => { let (t, u): (Tree<$x>, Tree<$x>) = (model::build(ms[0], KINDS[ks[0]]), model::build(ms[1], KINDS[ks[1]])); let ($a, $b) = (t.root(), u.root()); $body }
        2 => { let (t, u): (Tree<$x>, Tree<$x>) = (model::build(&inside(0), KINDS[ks[0]]), model::build(&inside(1), KINDS[ks[1]])); let ($a, $b) = (t.front().unwrap(), u.back().unwrap()); $body }
        3 => { let (t, u): (Tree<$x>, Tree<$x>) = (model::build(ms[0], KINDS[ks[0]]), model::build(ms[1], KINDS[ks[1]])); let (t, u) = (RcNode::from(t), RcNode::from(u)); let ($a, $b) = (&t, &u); $body }
        4 => {
            let (t, u): (Tree<$x>, Tree<$x>) = (model::build(&inside(0), KINDS[ks[0]]), model::build(&inside(1), KINDS[ks[1]]));
            let (t, u) = (RcNode::from(t), RcNode::from(u));
            let (v, w) = (t.front().unwrap(), u.back().unwrap());
            // the other side loses its parent
            drop(if ks[1] % 2 == 0 { None } else { Some(u) });
            let ($a, $b) = (&v, &w);
            $body
        }
        _ => { let (t, u): (Forest<$x>, Forest<$x>) = (model::build_forest(&ms[0].kids, FKINDS[ks[0] % 5]), model::build_forest(&ms[1].kids, FKINDS[ks[1] % 5])); let ($a, $b) = (&t, &u); $body }
    }
} } }
fn expect<X: Rel>(a: &M, b: &M, handle: usize) -> (bool, Option<Ordering>) {
    if handle == 5 { (f_eq::<X>(&a.kids, &b.kids), f_cmp::<X>(&a.kids, &b.kids)) } else { (m_eq::<X>(a, b), m_cmp::<X>(a, b)) }
}
fn partial<X: Rel>(a: &M, b: &M, ks: [usize; 2], handle: usize) {
    accounted(|| {
        let (eq, o) = expect::<X>(a, b, handle);
        // a value is compared with itself as with any other of the same labels: it may well differ
        let (own, own_o) = expect::<X>(a, a, handle);
        let (own2, own2_o) = expect::<X>(b, b, handle);
        seen!(X, [a, b], ks, handle, |x, y| {
            relations(x, y, eq, o, HANDLES[handle]);
            want!(Cmp, (x == x) == own && (x != x) == !own && x.partial_cmp(x) == own_o && (x <= x) == own_o.is_some_and(|o| o.is_le()), "{}: compared with itself, == is {}, != {}, partial_cmp {:?}", HANDLES[handle], x == x, x != x, x.partial_cmp(x));
            want!(Cmp, (y == y) == own2 && (y != y) == !own2 && y.partial_cmp(y) == own2_o && !(y < y), "{}: compared with itself, == is {}, != {}, partial_cmp {:?}", HANDLES[handle], y == y, y != y, y.partial_cmp(y));
        });
        sup::stat(1, 1);
        digest(eq, o);
    })
}
fn digest(eq: bool, o: Option<Ordering>) { let mut h = H::new(); h.add(eq as u64 * 8 + o.map_or(0, |o| o as i8 as i64 + 2) as u64); if sup::failed() { h.add(1); } sup::digest(h.0); }
fn total(a: &M, b: &M, ks: [usize; 2], handle: usize) {
    accounted(|| {
        let (eq, o) = expect::<D>(a, b, handle);
        // the hash of the first one by itself: it must not depend on the kind of handle either
        let plain = if handle == 5 { hash_of(&model::build_forest::<D>(&a.kids, FKINDS[0])) } else { hash_of(&model::scattered::<D>(a)) };
        seen!(D, [a, b], ks, handle, |x, y| {
            relations(x, y, eq, o, HANDLES[handle]);
            judge((x.cmp(y), y.cmp(x), hash_of(x), hash_of(y)), eq, o, HANDLES[handle]);
            want!(Hash, hash_of(x) == plain, "{}: equal, but it hashes differently from one built node by node", HANDLES[handle]);
            want!(Cmp, x == x && x.cmp(x).is_eq() && x.partial_cmp(x) == Some(Ordering::Equal), "{}: differs from itself", HANDLES[handle]);
        });
        sup::stat(1, 1);
        digest(eq, o);
    })
}

/// Every shape of at most n nodes with every labelling out of 0..l
pub fn labelled(n: usize, l: u32) -> Vec<M> {
    let mut out = vec![];
    for s in shape::trees_upto(n) {
        let c = s.count();
        for code in 0..(l as u64).pow(c as u32) {
            let mut m = model::label(&s, &mut 0);
            let mut x = code;
            m.each_mut(&mut |k| { k.lab = (x % l as u64) as u32; x /= l as u64; });
            out.push(m);
        }
    }
    out
}
/// The tree and everything one small change away from it.
fn variants(s: &S) -> Vec<M> {
    let mut m = model::label(s, &mut 0);
    m.each_mut(&mut |k| k.lab %= 2);
    let mut out = vec![m.clone()];
    for p in m.paths() {
        for l in [0, 1] { let mut v = m.clone(); if v.at(&p).lab != l { v.at_mut(&p).lab = l; out.push(v); } }
        let mut v = m.clone();
        v.at_mut(&p).kids.push(M::leaf(0));
        out.push(v);
        if let Some((l, up)) = p.split_last() {
            let mut v = m.clone();
            v.at_mut(up).kids.remove(*l as usize);
            out.push(v);
            if *l > 0 { let mut v = m.clone(); v.at_mut(up).kids.swap(*l as usize - 1, *l as usize); out.push(v); }
        }
    }
    out
}
pub struct Bounds { pub partial: Vec<(usize, u32, bool)>, pub total: Vec<(usize, u32, bool)>, pub scaled: Vec<usize> }
pub fn explore(run: &mut Run, tag: &str, b: &Bounds) {
    for (list, tot) in [(&b.partial, false), (&b.total, true)] {
        for &(n, l, all) in list {
            let ms = labelled(n, l);
            let k = ms.len() as u64;
            run.states += k;
            // storage: all pairs of forms or a different pair for each pair of trees
            let per = if all { 216 } else { 6 };
            let dec = |i: u64| {
                let j = i / per;
                let (a, c) = ((j / k) as usize, (j % k) as usize);
                let st = if all { (i % per / 6) as usize } else { (j % 36) as usize };
                (a, c, [st % 6, st / 6], (i % 6) as usize)
            };
            run.explore(&format!("{tag}{}-{n}-{l}{}", if tot { "ordered" } else { "partially-ordered" }, if all { "-all-forms" } else { "" }),
                &format!("every pair of the {k} trees of at most {n} nodes with {l} {}, through {} kinds of handles, {}", if tot { "labels" } else { "partially ordered labels (0 < 1, 2 is not even equal to itself, 3 is incomparable)" }, HANDLES.len(), if all { "all 36 pairs of storage forms" } else { "the pair of storage forms varying" }), k * k * per,
                &|i| { let (a, c, ks, h) = dec(i); if tot { total(&ms[a], &ms[c], ks, h) } else { partial::<P>(&ms[a], &ms[c], ks, h) } },
                &|i| { let (a, c, ks, h) = dec(i); format!("{} and {} in storage forms {ks:?}, each as {}", ms[a].text(), ms[c].text(), HANDLES[h]) });
        }
    }
    let mut pairs: Vec<(M, M)> = vec![];
    for &n in &b.scaled { for (_, s) in shape::scaled(n) { let v = variants(&s); let base = v[0].clone(); for x in v { pairs.push((base.clone(), x)); } } }
    run.states += pairs.len() as u64;
    run.explore(&format!("{tag}large"), &format!("stars, chains, combs, brushes and binary trees of {:?} nodes against all their one-step variants (label, child more, child less, children exchanged)", b.scaled), pairs.len() as u64 * 36,
        &|i| { let (a, c) = &pairs[(i / 36) as usize]; let st = (i / 36 + i / 6) as usize; total(a, c, [st % 6, st / 6 % 6], (i % 6) as usize) },
        &|i| { let (a, c) = &pairs[(i / 36) as usize]; format!("{} and {} as {}", a.text(), c.text(), HANDLES[(i % 6) as usize]) });
}
