//! Explorer of the depth-first cursors (C14, C15): every sequence of cursor operations against a model
//! of positions.
use crate::model::{self, accounted, M};
use crate::reg::Datum;
use crate::shape::{self, S};
use crate::sup::{self, Run};
use crate::util::H;
use crate::{bad, want};
use std::collections::HashMap;
use trees::walk::Visit;
use trees::{Forest, ForestWalk, Node, Tree, TreeWalk};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Pos {
    /// visiting the node: not yet its children, or after them
    At(Vec<u16>, bool),
    /// behind the last child of this node (of the top level if empty)
    Past(Vec<u16>),
    Done,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum O { Forward, Next, Parent, Child(u16), Sib(u16), Revisit }
use O::*;

/// The walked forest is the children of `top`; a walked tree is its only child.
pub struct W { pub top: M, pub tree: bool }
impl W {
    fn start(&self) -> Pos { if self.top.kids.is_empty() { Pos::Done } else { Pos::At(vec![0], false) } }
    fn sibs(&self, p: &[u16]) -> usize { self.top.at(&p[..p.len() - 1]).kids.len() }
    fn up(&self, p: &[u16]) -> Pos { if p.is_empty() { Pos::Done } else { Pos::At(p.to_vec(), true) } }
    fn sib(&self, p: &[u16], n: u16) -> Pos {
        let (l, up) = p.split_last().unwrap();
        if *l as usize + (n as usize) < self.sibs(p) {
            let mut q = up.to_vec();
            q.push(l + n);
            Pos::At(q, false)
        } else { Pos::Past(up.to_vec()) }
    }
    fn step(&self, p: &Pos, o: O) -> Pos {
        match (o, p) {
            (_, Pos::Done) => if o == Revisit { self.start() } else { Pos::Done },
            (Forward | Next, Pos::At(p, false)) if !self.top.at(p).kids.is_empty() => { let mut q = p.clone(); q.push(0); Pos::At(q, false) }
            (Forward | Next, Pos::At(p, _)) => match self.sib(p, 1) { Pos::Past(u) => self.up(&u), x => x },
            (Forward | Next, Pos::Past(u)) => self.up(u),
            (Parent, Pos::At(p, _)) => self.up(&p[..p.len() - 1]),
            (Parent, Pos::Past(u)) => self.up(u),
            (Child(n), Pos::At(p, _)) => {
                if self.top.at(p).kids.is_empty() { return Pos::At(p.clone(), false); }
                let mut q = p.clone();
                q.push(0);
                self.sib(&q, n)
            }
            (Sib(n), Pos::At(p, _)) => self.sib(p, n),
            (Revisit, Pos::At(p, _)) => Pos::At(p.clone(), false),
            (Child(_) | Sib(_) | Revisit, Pos::Past(u)) => Pos::Past(u.clone()),
        }
    }
    /// What the operation returns (None: nothing to compare).
    fn returns(&self, before: &Pos, o: O, after: &Pos) -> Option<Option<(u8, u32)>> {
        match o {
            Forward | Revisit => None,
            Child(_) if matches!(before, Pos::At(p, _) if self.top.at(p).kids.is_empty()) => Some(None),
            _ => Some(self.seen(after)),
        }
    }
    fn seen(&self, p: &Pos) -> Option<(u8, u32)> {
        match p {
            Pos::At(p, end) => { let m = self.top.at(p); Some((if m.kids.is_empty() { 2 } else { *end as u8 }, m.lab)) }
            _ => None,
        }
    }
    fn parent(&self, p: &Pos) -> Option<u32> {
        let u: &[u16] = match p { Pos::At(p, _) => &p[..p.len() - 1], Pos::Past(u) => u, Pos::Done => return None };
        if u.is_empty() { None } else { Some(self.top.at(u).lab) }
    }
    fn ops(&self, p: &Pos) -> Vec<O> {
        let mut v = vec![Forward, Next, Parent, Revisit];
        let (k, s) = match p { Pos::At(p, _) => (self.top.at(p).kids.len() as u16, self.sibs(p) as u16 - p[p.len() - 1]), _ => (1, 1) };
        for n in 0..=k.min(5) + 1 { v.push(Child(n)); }
        for n in 0..=s.min(5) + 1 { v.push(Sib(n)); }
        if k > 7 { v.push(Child(k - 1)); v.push(Child(k)); }
        if s > 7 { v.push(Sib(s - 1)); v.push(Sib(s)); }
        v
    }
}
enum Real<X> { T(TreeWalk<X>), F(ForestWalk<X>) }
macro_rules! on { ($r:expr, $w:ident => $e:expr) => { match $r { Real::T($w) => $e, Real::F($w) => $e } } }
type Ptrs<X> = HashMap<u32, *const Node<X>>;
fn note<X: Datum>(n: &Node<X>, m: &M, out: &mut Ptrs<X>) { out.insert(m.lab, n); for (a, b) in n.iter().zip(&m.kids) { note(a, b, out); } }
pub struct Cx<'a, X> { w: &'a W, real: Real<X>, ptrs: Ptrs<X>, pos: Pos, h: H, jumps: bool }
impl<'a, X: Datum> Cx<'a, X> {
    fn new(w: &'a W, kind: usize) -> Cx<'a, X> {
        let mut ptrs = HashMap::new();
        let real = if w.tree {
            let t: Tree<X> = model::build(&w.top.kids[0], model::KINDS[kind]);
            note(t.root(), &w.top.kids[0], &mut ptrs);
            Real::T(TreeWalk::from(t))
        } else {
            let f: Forest<X> = model::build_forest(&w.top.kids, model::FKINDS[kind % 5]);
            for (a, b) in f.iter().zip(&w.top.kids) { note(a, b, &mut ptrs); }
            Real::F(ForestWalk::from(f))
        };
        Cx { w, real, ptrs, pos: w.start(), h: H::new(), jumps: false }
    }
    fn differ(&self, what: &str, got: Option<(u8, u32)>, want: Option<(u8, u32)>) {
        let name = |v: Option<(u8, u32)>| v.map(|v| format!("{}({})", ["Begin", "End", "Leaf"][v.0 as usize], v.1));
        let (g, w) = (name(got), name(want));
        if self.jumps { bad!(Jump, "{what}: {g:?}, not {w:?}") } else { bad!(Walk, "{what}: {g:?}, not {w:?}") }
    }
    fn same(&self, what: &str, got: Option<Visit<X>>, want: Option<(u8, u32)>) -> Option<(u8, u32)> {
        let g = got.as_ref().map(|v| model::ev(v));
        let expect = want.map(|(a, b)| (a, X::norm(b)));
        if g != expect { self.differ(what, g, expect); return g; }
        if let (Some(v), Some((_, l))) = (&got, want) {
            if !std::ptr::eq(v.node(), self.ptrs[&l]) { self.differ("another node with the same data", g, want); }
        }
        g
    }
    fn look(&mut self) {
        let want = self.w.seen(&self.pos);
        let a = on!(&self.real, w => w.get());
        let g = self.same("get()", a, want);
        self.h.add(g.map_or(99, |g| g.0 as u64 * 1000 + g.1 as u64));
        let p = on!(&self.real, w => w.get_parent());
        let wp = self.w.parent(&self.pos);
        let ok = match (p, wp) { (None, None) => true, (Some(n), Some(l)) => std::ptr::eq(n, self.ptrs[&l]), _ => false };
        if !ok { let p = p.map(|n| (0, n.data().val())); self.differ("get_parent()", p, wp.map(|l| (0, l))); }
    }
    fn step(&mut self, o: O) {
        sup::stat(0, 1);
        let next = self.w.step(&self.pos, o);
        if !matches!(o, Forward | Next) { self.jumps = true; }
        let ret = self.w.returns(&self.pos, o, &next);
        {
            let r = on!(&mut self.real, w => match o {
                Forward => { w.forward(); None }
                Next => Some(w.next()),
                Parent => Some(w.to_parent()),
                Child(n) => Some(w.to_child(n as usize)),
                Sib(n) => Some(w.to_sib(n as usize)),
                Revisit => { w.revisit(); None }
            });
            let r = r.map(|v| v.map(|v| (model::ev(&v), v.node() as *const Node<X>)));
            if let (Some(r), Some(want)) = (r, ret) {
                let expect = want.map(|(a, b)| (a, X::norm(b)));
                let ok = r.map(|x| x.0) == expect && r.map(|x| x.1) == want.map(|x| self.ptrs[&x.1]);
                if !ok { self.differ(&format!("{o:?} returns"), r.map(|x| x.0), expect); }
            }
        }
        self.pos = next;
        self.look();
    }
    /// On to the end, alternating forward() and next().
    fn finish(&mut self) {
        let mut i = 0;
        let limit = 2 * self.w.top.count() + 4;
        while self.pos != Pos::Done && !sup::failed() { self.step(if i % 2 == 0 { Forward } else { Next }); i += 1; if i > limit { break; } }
        if !sup::failed() { self.step(Forward); self.step(Next); }
    }
    fn back(self, drain: u8) {
        let mut h = self.h;
        match self.real {
            Real::T(w) => {
                let t = Tree::from(w);
                want!(Walk, std::ptr::eq(t.root(), self.ptrs[&self.w.top.kids[0].lab]), "another tree comes back");
                model::check_tree(&t, &self.w.top.kids[0], &mut h);
                if !sup::failed() { model::drain_tree(t, &self.w.top.kids[0], drain); }
            }
            Real::F(w) => {
                let f = Forest::from(w);
                model::check_forest(&f, &self.w.top.kids, &mut h);
                if !sup::failed() { model::drain_forest(f, &self.w.top.kids, drain); }
            }
        }
        sup::stat(1, 1);
        sup::digest(h.0);
    }
}
/// Plain steps: `jump` of them, then back into a tree, or on to the end.
fn plain<X: Datum>(w: &W, kind: usize, steps: usize, mode: u64) {
    accounted(|| {
        let mut c: Cx<X> = Cx::new(w, kind);
        c.look();
        for i in 0..steps { if sup::failed() { return; } c.step(if (mode >> (i % 3)) & 1 == 0 { Forward } else { Next }); }
        if sup::failed() { return; }
        c.back((steps as u64 * 3 + mode) as u8 % 10);
    })
}
fn jumps<X: Datum>(w: &W, kind: usize, ops: &[O], finish: u64) {
    accounted(|| {
        let mut c: Cx<X> = Cx::new(w, kind);
        for &o in ops { if sup::failed() { return; } c.step(o); }
        if finish % 4 != 3 { c.finish(); }
        if finish % 4 == 1 && !sup::failed() { c.step(Revisit); c.finish(); }
        if sup::failed() { return; }
        c.back((finish % 10) as u8);
    })
}
/// The positions of a walk and how to get there.
fn space(w: &W) -> Vec<(Pos, Vec<O>)> {
    let mut seen: HashMap<Pos, usize> = HashMap::new();
    let mut out = vec![(w.start(), vec![])];
    seen.insert(w.start(), 0);
    let mut i = 0;
    while i < out.len() {
        let (p, h) = out[i].clone();
        for o in w.ops(&p) {
            let q = w.step(&p, o);
            if !seen.contains_key(&q) {
                seen.insert(q.clone(), out.len());
                let mut h2 = h.clone();
                h2.push(o);
                out.push((q, h2));
            }
        }
        i += 1;
    }
    out
}
pub struct Bounds { pub plain: usize, pub pairs: usize, pub scaled: Vec<usize>, pub hist: Vec<(usize, u32)> }
fn make(f: &[S], tree: bool) -> W { let mut l = 1; W { top: M { lab: 0, st: 0, kids: model::label_forest(f, &mut l) }, tree } }
fn all(n: usize, scaled: &[usize]) -> Vec<W> {
    let mut v = vec![];
    for s in shape::trees_upto(n) { v.push(make(&[s], true)); }
    for f in shape::forests_upto(n) { v.push(make(&f, false)); }
    for &k in scaled { for (_, s) in shape::scaled(k) { v.push(make(&[s.clone()], true)); v.push(make(&s.0, false)); } }
    v
}
fn name(w: &W, kind: usize) -> String {
    if w.tree { format!("TreeWalk of {} built {:?}", w.top.kids[0].text(), model::KINDS[kind]) } else { format!("ForestWalk of {} built {:?}", model::forest_text(&w.top.kids), model::FKINDS[kind % 5]) }
}
pub fn explore<X: Datum>(run: &mut Run, tag: &str, b: &Bounds, what: i64) {
    if what & 1 != 0 {
        let ws = all(b.plain, &b.scaled);
        let mut cases: Vec<(u32, u8, u16, u8)> = vec![];
        for (a, w) in ws.iter().enumerate() {
            let n = 2 * w.top.count() + 1;
            for k in 0..if w.tree { 6 } else { 5u8 } {
                for s in 0..=n { if w.top.count() <= 7 || s == n || s % 5 == k as usize { for m in if s == n { 0..4u8 } else { 2..3 } { cases.push((a as u32, k, s as u16, m)); } } }
            }
        }
        run.states += ws.len() as u64;
        run.explore(&format!("{tag}walk-{}", b.plain), &format!("every tree and forest of at most {} nodes (and families of {:?}) in every storage form, walked by plain steps to every position and back", b.plain, b.scaled), cases.len() as u64,
            &|i| { let (a, k, s, m) = cases[i as usize]; plain::<X>(&ws[a as usize], k as usize, s as usize, m as u64) },
            &|i| { let (a, k, s, _) = cases[i as usize]; format!("{}; {s} steps", name(&ws[a as usize], k as usize)) });
    }
    if what & 2 != 0 {
        let ws = all(b.pairs, &b.scaled);
        let spaces: Vec<Vec<(Pos, Vec<O>)>> = ws.iter().map(space).collect();
        let mut cases: Vec<(u32, u16, O, O)> = vec![];
        for (a, w) in ws.iter().enumerate() {
            for (i, (p, _)) in spaces[a].iter().enumerate() {
                let (n, last) = (w.top.count(), spaces[a].len() - 1);
                if n > 40 && i > 5 && i + 5 < last && i % (n / 10) != 1 { continue; }
                for o in w.ops(p) {
                    let q = w.step(p, o);
                    let second = w.ops(&q);
                    if w.top.count() <= b.pairs + 1 { for o2 in second { cases.push((a as u32, i as u16, o, o2)); } } else { cases.push((a as u32, i as u16, o, second[(i * 7) % second.len()])); }
                }
            }
        }
        run.states += spaces.iter().map(|s| s.len() as u64).sum::<u64>();
        let ops = |i: u64| { let (a, s, o, o2) = cases[i as usize]; let mut h = spaces[a as usize][s as usize].1.clone(); h.push(o); h.push(o2); (&ws[a as usize], h) };
        run.explore(&format!("{tag}jumps-{}", b.pairs), &format!("every tree and forest of at most {} nodes: every pair of operations from each position, then on to the end, and back into a tree", b.pairs), cases.len() as u64,
            &|i| { let (w, h) = ops(i); jumps::<X>(w, (i % 6) as usize, &h, i / 6) },
            &|i| { let (w, h) = ops(i); format!("{}; {h:?}", name(w, (i % 6) as usize)) });
        for &(n, depth) in &b.hist {
            let ws = all(n, &[]);
            const OPS: [O; 9] = [Forward, Parent, Revisit, Child(0), Child(1), Child(2), Sib(0), Sib(1), Sib(2)];
            let per = (OPS.len() as u64).pow(depth);
            let ops = |i: u64| { let mut j = i % per; let mut h = vec![]; for _ in 0..depth { h.push(OPS[(j % 9) as usize]); j /= 9; } (&ws[(i / per) as usize], h) };
            run.states += ws.len() as u64;
            run.explore(&format!("{tag}cursor-histories-{n}-{depth}"), &format!("every sequence of {depth} operations out of {OPS:?} on every tree and forest of at most {n} nodes"), per * ws.len() as u64,
                &|i| { let (w, h) = ops(i); jumps::<X>(w, (i / per % 6) as usize, &h, i) },
                &|i| { let (w, h) = ops(i); format!("{}; {h:?}", name(w, (i / per % 6) as usize)) });
        }
    }
    if what & 1 != 0 {
        run.explore(&format!("{tag}walk-default"), "ForestWalk::default()", 1, &|_| {
            let mut w: ForestWalk<u32> = ForestWalk::default();
            want!(Walk, w.get().is_none() && w.get_parent().is_none(), "a default cursor is somewhere");
            w.forward();
            w.revisit();
            want!(Jump, w.to_child(0).is_none() && w.to_sib(0).is_none() && w.to_sib(1).is_none() && w.to_parent().is_none() && w.next().is_none(), "a default cursor moves somewhere");
            let f = Forest::from(w);
            want!(Walk, f.has_no_child(), "a default cursor holds trees");
        }, &|_| "ForestWalk::default()".into());
    }
}
