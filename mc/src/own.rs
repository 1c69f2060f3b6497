//! Explorer of edit histories on owned trees and forests (C01-C05): breadth-first search over the
//! canonical states of the reference model, every transition replayed on the real library.
use crate::model::*;
use crate::reg::{self, Datum};
use crate::shape::{self, S};
use crate::sup::{self, panics, Run};
use crate::util::H;
use crate::{bad, want};
use std::collections::HashMap;
use trees::{Forest, Node, RcNode, Tree};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
/// A node: container and path. From the sixth on, all the steps of a path are the same.
pub struct Loc { pub c: u8, pub n: u16, pub p: [u16; 6] }
impl Loc {
    pub fn new(c: usize, path: &[u16]) -> Loc {
        let mut p = [0; 6];
        let n = path.len().min(6);
        p[..n].copy_from_slice(&path[..n]);
        debug_assert!(path.len() < 6 || path[5..].iter().all(|&x| x == path[5]));
        Loc { c: c as u8, n: path.len() as u16, p }
    }
    fn path(&self) -> Path { Path(*self, 0) }
    fn tail(&self) -> Path { Path(*self, 1) }
    fn step(&self, i: usize) -> u16 { self.p[i.min(5)] }
}
#[derive(Clone, Copy)]
struct Path(Loc, u16);
impl Iterator for Path {
    type Item = u16;
    fn next(&mut self) -> Option<u16> {
        if self.1 >= self.0.n { return None; }
        self.1 += 1;
        Some(self.0.step(self.1 as usize - 1))
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    NewTree, NewForest, Tuple, Build, BuildForest,
    PushFront, PushBack, Prepend, Append, PrevSib, NextSib,
    PopFront, PopBack, Detach, Abandon, Drop, Clone, DeepClone, DeepCloneForest,
    Rebuild, RcTrip, WalkTrip, IntoIter, Neg, CloneInPlace,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Op { pub k: K, pub loc: Loc, pub src: u8, pub a: u16, pub b: u8 }
const L0: Loc = Loc { c: 0, n: 0, p: [0; 6] };
fn at(m: &M, p: Path) -> &M { p.fold(m, |m, i| &m.kids[i as usize]) }
fn at_mut(m: &mut M, p: Path) -> &mut M { p.fold(m, |m, i| &mut m.kids[i as usize]) }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum C { T(M), F(u16, Vec<M>) }
impl C {
    fn count(&self) -> usize { match self { C::T(m) => m.count(), C::F(_, f) => forest_count(f) } }
}

/// Shapes the Build operations refer to.
pub struct Tables { pub trees: Vec<S>, pub forests: Vec<Vec<S>>, pub scaled: Vec<(String, S)> }

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct St { pub c: Vec<Option<C>>, pub lab: u32, pub pile: u16 }

pub enum Outcome { Done, Refused, Popped(bool) }

fn set_pile(m: &mut M, p: u16) { m.each_mut(&mut |n| n.st = p) }

impl St {
    pub fn total(&self) -> usize { self.c.iter().flatten().map(|c| c.count()).sum() }
    pub fn live(&self) -> usize { self.c.iter().flatten().count() }
    fn fresh(&mut self) -> u32 { self.lab += 1; self.lab }
    fn new_pile(&mut self) -> u16 { self.pile += 1; self.pile }
    fn add(&mut self, c: C) { self.c.push(Some(c)); }
    fn take_tree(&mut self, i: u8) -> M { match self.c[i as usize].take() { Some(C::T(m)) => m, _ => unreachable!() } }
    fn take_forest(&mut self, i: u8) -> (u16, Vec<M>) { match self.c[i as usize].take() { Some(C::F(s, f)) => (s, f), _ => unreachable!() } }
    /// The children list at a location.
    fn kids_mut(&mut self, l: &Loc) -> &mut Vec<M> {
        match self.c[l.c as usize].as_mut().unwrap() {
            C::T(m) => &mut at_mut(m, l.path()).kids,
            C::F(_, f) => if l.n == 0 { f } else { &mut at_mut(&mut f[l.p[0] as usize], l.tail()).kids },
        }
    }
    fn node(&self, l: &Loc) -> &M {
        match self.c[l.c as usize].as_ref().unwrap() {
            C::T(m) => at(m, l.path()),
            C::F(_, f) => at(&f[l.p[0] as usize], l.tail()),
        }
    }
    fn is_tree(&self, i: u8) -> bool { matches!(self.c[i as usize], Some(C::T(_))) }

    pub fn step(&mut self, o: &Op, t: &Tables) -> Outcome {
        match o.k {
            K::NewTree => { let m = M::leaf(self.fresh()); self.add(C::T(m)); }
            K::NewForest => self.add(C::F(0, vec![])),
            K::Tuple => {
                let s = tuple_shape(o.a);
                let p = self.new_pile();
                let mut lab = self.lab + 1;
                match s {
                    Ok(s) => { let mut m = label(&s, &mut lab); set_pile(&mut m, p); self.add(C::T(m)); }
                    Err(f) => { let mut v = label_forest(&f, &mut lab); v.iter_mut().for_each(|m| set_pile(m, p)); self.add(C::F(p, v)); }
                }
                self.lab = lab - 1;
            }
            K::Build | K::BuildForest => {
                // storage tags are only used for deduplication, which these never take part in
                let mut lab = self.lab + 1;
                if o.k == K::Build {
                    let s = if o.src == 0 { &t.trees[o.a as usize] } else { &t.scaled[o.a as usize].1 };
                    let m = label(s, &mut lab);
                    self.add(C::T(m));
                } else {
                    let f = if o.src == 0 { t.forests[o.a as usize].clone() } else { t.scaled[o.a as usize].1 .0.clone() };
                    let v = label_forest(&f, &mut lab);
                    self.add(C::F(0, v));
                }
                self.lab = lab - 1;
            }
            K::PushFront => { let m = self.take_tree(o.src); self.kids_mut(&o.loc).insert(0, m); }
            K::PushBack => { let m = self.take_tree(o.src); self.kids_mut(&o.loc).push(m); }
            K::Prepend => { let (_, f) = self.take_forest(o.src); self.kids_mut(&o.loc).splice(0..0, f); }
            K::Append => { let (_, f) = self.take_forest(o.src); self.kids_mut(&o.loc).extend(f); }
            K::PrevSib | K::NextSib => {
                let m = self.take_tree(o.src);
                if o.loc.n == 0 { return Outcome::Refused; }
                let (up, i) = split(&o.loc);
                self.kids_mut(&up).insert(i + (o.k == K::NextSib) as usize, m);
            }
            K::PopFront | K::PopBack => {
                let k = self.kids_mut(&o.loc);
                if k.is_empty() { return Outcome::Popped(false); }
                let m = if o.k == K::PopFront { k.remove(0) } else { k.pop().unwrap() };
                self.add(C::T(m));
                return Outcome::Popped(true);
            }
            K::Detach => {
                if o.loc.n == 0 { return Outcome::Refused; }
                let (up, i) = split(&o.loc);
                let m = self.kids_mut(&up).remove(i);
                self.add(C::T(m));
            }
            K::Abandon => {
                let m = self.take_tree(o.loc.c);
                self.c[o.loc.c as usize] = Some(C::T(M::leaf(m.lab)));
                self.add(C::F(m.st, m.kids));
            }
            K::Drop => self.c[o.loc.c as usize] = None,
            K::Clone | K::CloneInPlace => {
                let p = self.new_pile();
                let mut c = self.c[o.loc.c as usize].clone().unwrap();
                match &mut c {
                    C::T(m) => set_pile(m, p),
                    C::F(s, f) => { *s = p; f.iter_mut().for_each(|m| set_pile(m, p)); }
                }
                if o.k == K::Clone { self.add(c) } else { self.c[o.loc.c as usize] = Some(c) }
            }
            K::DeepClone => {
                let p = self.new_pile();
                let mut m = self.node(&o.loc).clone();
                set_pile(&mut m, p);
                self.add(C::T(m));
            }
            K::DeepCloneForest => {
                let p = self.new_pile();
                let mut f = self.node(&o.loc).kids.clone();
                f.iter_mut().for_each(|m| set_pile(m, p));
                self.add(C::F(p, f));
            }
            K::Rebuild => {
                let p = self.new_pile();
                match self.c[o.loc.c as usize].as_mut().unwrap() {
                    C::T(m) => set_pile(m, p),
                    C::F(s, f) => { *s = p; f.iter_mut().for_each(|m| set_pile(m, p)); }
                }
            }
            K::RcTrip | K::WalkTrip => (),
            K::IntoIter => {
                // the first tree comes out, the iterator is dropped with the rest
                match self.c[o.loc.c as usize].take().unwrap() {
                    C::T(m) => self.c[o.loc.c as usize] = Some(C::T(m)),
                    C::F(_, mut f) => if !f.is_empty() { self.c[o.loc.c as usize] = Some(C::T(f.remove(0))) },
                }
            }
            K::Neg => { let m = self.take_tree(o.loc.c); self.c[o.loc.c as usize] = Some(C::F(0, vec![m])); }
        }
        Outcome::Done
    }

    /// Every operation, simplest first, that keeps within n nodes and k containers.
    pub fn ops(&self, n: usize, k: usize) -> Vec<Op> {
        let mut out = vec![];
        let total = self.total();
        let live = self.live();
        let mut push = |k, loc, src: usize, a, b| out.push(Op { k, loc, src: src as u8, a, b });
        if live < k {
            if total < n { push(K::NewTree, L0, 0, 0, 0); }
            push(K::NewForest, L0, 0, 0, 0);
            for i in 0..TUPLES {
                let c = match tuple_shape(i) { Ok(s) => s.count(), Err(f) => f.iter().map(|s| s.count()).sum() };
                if total + c <= n { push(K::Tuple, L0, 0, i, 0); }
            }
        }
        for (c, cont) in self.c.iter().enumerate() {
            let Some(cont) = cont else { continue };
            let paths = all_paths(cont);
            let tree = matches!(cont, C::T(_));
            for p in &paths {
                let loc = Loc::new(c, p);
                for (s, src) in self.c.iter().enumerate() {
                    if s == c { continue; }
                    // root by Tree's methods and by Node's
                    let vias = if tree && p.is_empty() { 2 } else { 1 };
                    for via in 0..vias {
                        match src {
                            Some(C::T(_)) => {
                                push(K::PushFront, loc, s, 0, via);
                                push(K::PushBack, loc, s, 0, via);
                            }
                            Some(C::F(..)) => {
                                push(K::Prepend, loc, s, 0, via);
                                push(K::Append, loc, s, 0, via);
                            }
                            None => (),
                        }
                    }
                    if let Some(C::T(_)) = src {
                        if tree || !p.is_empty() {
                            push(K::PrevSib, loc, s, 0, 0);
                            push(K::NextSib, loc, s, 0, 0);
                        }
                    }
                }
                let can = live < k;
                let kids = self.clone_kids(&loc);
                if can || kids == 0 {
                    push(K::PopFront, loc, 0, 0, 0);
                    push(K::PopBack, loc, 0, 0, 0);
                    if tree && p.is_empty() {
                        push(K::PopFront, loc, 0, 0, 1);
                        push(K::PopBack, loc, 0, 0, 1);
                    }
                }
                if (tree || !p.is_empty()) && (can || p.is_empty()) { push(K::Detach, loc, 0, 0, 0); }
                if can && (tree || !p.is_empty()) {
                    let m = self.node(&loc);
                    if total + m.count() <= n { push(K::DeepClone, loc, 0, 0, 0); }
                    if total + m.count() - 1 <= n { push(K::DeepCloneForest, loc, 0, 0, 0); }
                }
            }
            let here = Loc::new(c, &[]);
            if tree && live < k { push(K::Abandon, here, 0, 0, 0); }
            if live < k && total + cont.count() <= n { push(K::Clone, here, 0, 0, 0); }
            push(K::CloneInPlace, here, 0, 0, 0);
            push(K::Rebuild, here, 0, 0, 0);
            if tree {
                push(K::RcTrip, here, 0, 0, 0);
                push(K::Neg, here, 0, 0, 0);
            }
            push(K::WalkTrip, here, 0, 0, 0);
            push(K::IntoIter, here, 0, 0, 0);
            push(K::Drop, here, 0, 0, 0);
        }
        out
    }
    fn clone_kids(&self, l: &Loc) -> usize {
        match self.c[l.c as usize].as_ref().unwrap() {
            C::T(m) => at(m, l.path()).kids.len(),
            C::F(_, f) => if l.n == 0 { f.len() } else { at(&f[l.p[0] as usize], l.tail()).kids.len() },
        }
    }
    /// States with equal keys have the same futures: the library never looks at the data, so labels are
    /// dropped; containers are interchangeable, so they are sorted; buffers are renamed in order.
    pub fn key(&self) -> Vec<u16> {
        fn enc(m: &M, out: &mut Vec<u16>, pile: &mut dyn FnMut(u16) -> u16) {
            out.push(100 + pile(m.st));
            for k in &m.kids { enc(k, out, pile); }
            out.push(1);
        }
        fn cont(c: &C, out: &mut Vec<u16>, pile: &mut dyn FnMut(u16) -> u16) {
            match c {
                C::T(m) => { out.push(2); enc(m, out, pile); }
                C::F(s, f) => { out.push(3); out.push(100 + pile(*s)); for m in f { enc(m, out, pile); } out.push(4); }
            }
        }
        let mut v: Vec<(Vec<u16>, &C)> = self.c.iter().flatten().map(|c| {
            let mut e = vec![];
            cont(c, &mut e, &mut |s| (s > 0) as u16);
            (e, c)
        }).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        let mut map: Vec<u16> = vec![];
        let mut out = vec![];
        for (_, c) in v {
            cont(c, &mut out, &mut |s| if s == 0 { 0 } else {
                match map.iter().position(|&x| x == s) { Some(i) => i as u16 + 1, None => { map.push(s); map.len() as u16 } }
            });
        }
        out
    }
}
fn split(l: &Loc) -> (Loc, usize) {
    let mut u = *l;
    u.n -= 1;
    let i = u.step(u.n as usize) as usize;
    if u.n < 6 { u.p[u.n as usize] = 0; }
    (u, i)
}

pub const TUPLES: u16 = 8;
pub fn tuple_shape(i: u16) -> Result<S, Vec<S>> {
    let l = S::leaf;
    match i {
        0 => Ok(S(vec![l()])),
        1 => Ok(S(vec![l(), l()])),
        2 => Ok(S(vec![S(vec![l()])])),
        3 => Ok(S(vec![l(), S(vec![l()])])),
        4 => Err(vec![]),
        5 => Err(vec![l()]),
        6 => Err(vec![l(), l()]),
        _ => Err(vec![S(vec![l()])]),
    }
}
fn tuple_real<X: Datum>(i: u16, l: u32) -> R<X> {
    let d = |k: u32| X::mk(l + k);
    match i {
        0 => R::T(Tree::from_tuple((d(0), d(1)))),
        1 => R::T(Tree::from_tuple((d(0), d(1), d(2)))),
        2 => R::T(Tree::from_tuple((d(0), (d(1), d(2))))),
        3 => R::T(Tree::from_tuple((d(0), d(1), (d(2), d(3))))),
        4 => R::F(Forest::from_tuple(())),
        5 => R::F(Forest::from_tuple((d(0),))),
        6 => R::F(Forest::from_tuple((d(0), d(1)))),
        _ => R::F(Forest::from_tuple(((d(0), d(1)),))),
    }
}

pub enum R<X> { T(Tree<X>), F(Forest<X>) }
pub struct Real<X> { pub c: Vec<Option<R<X>>> }

/// The node at a path, by the public mutable accessors.
fn walk_down<'a, X: Datum>(mut n: &'a mut Node<X>, path: Path) -> Option<&'a mut Node<X>> {
    for i in path {
        let last = n.degree() == i as usize + 1;
        let next = if i == 0 { n.front_mut() } else if last { n.back_mut() } else { n.iter_mut().nth(i as usize) };
        n = next?.get_mut();
    }
    Some(n)
}
impl<X: Datum> Real<X> {
    fn node(&mut self, l: &Loc) -> Option<&mut Node<X>> {
        match self.c[l.c as usize].as_mut().unwrap() {
            R::T(t) => walk_down(t.root_mut().get_mut(), l.path()),
            R::F(f) => {
                let i = l.p[0] as usize;
                let last = f.degree() == i + 1;
                let n = if i == 0 { f.front_mut() } else if last { f.back_mut() } else { f.iter_mut().nth(i) };
                walk_down(n?.get_mut(), l.tail())
            }
        }
    }
    fn tree(&mut self, i: u8) -> Tree<X> { match self.c[i as usize].take() { Some(R::T(t)) => t, _ => unreachable!() } }
    fn forest(&mut self, i: u8) -> Forest<X> { match self.c[i as usize].take() { Some(R::F(f)) => f, _ => unreachable!() } }

    /// Apply an operation; `st` is the model before it.
    pub fn step(&mut self, o: &Op, st: &St, t: &Tables) -> Outcome {
        let l = &o.loc;
        let top_forest = l.n == 0 && matches!(self.c.get(l.c as usize), Some(Some(R::F(_))));
        let top_tree = l.n == 0 && o.b == 0 && matches!(self.c.get(l.c as usize), Some(Some(R::T(_))));
        macro_rules! on {
            // the same method on a forest, a tree or a node
            ($method:ident($($arg:expr),*)) => {
                if top_forest {
                    match self.c[l.c as usize].as_mut() { Some(R::F(f)) => f.$method($($arg),*), _ => unreachable!() }
                } else if top_tree {
                    match self.c[l.c as usize].as_mut() { Some(R::T(t)) => t.$method($($arg),*), _ => unreachable!() }
                } else {
                    match self.node(l) { Some(n) => n.$method($($arg),*), None => { lost(o); return Outcome::Done; } }
                }
            };
        }
        match o.k {
            K::NewTree => self.c.push(Some(R::T(Tree::new(X::mk(st.lab + 1))))),
            K::NewForest => self.c.push(Some(R::F(Forest::new()))),
            K::Tuple => self.c.push(Some(tuple_real(o.a, st.lab + 1))),
            K::Build => {
                let mut lab = st.lab + 1;
                let s = if o.src == 0 { &t.trees[o.a as usize] } else { &t.scaled[o.a as usize].1 };
                let m = label(s, &mut lab);
                self.c.push(Some(R::T(build(&m, KINDS[o.b as usize]))));
            }
            K::BuildForest => {
                let mut lab = st.lab + 1;
                let f = if o.src == 0 { t.forests[o.a as usize].clone() } else { t.scaled[o.a as usize].1 .0.clone() };
                let v = label_forest(&f, &mut lab);
                self.c.push(Some(R::F(build_forest(&v, FKINDS[o.b as usize]))));
            }
            K::PushFront => { let s = self.tree(o.src); on!(push_front(s)) }
            K::PushBack => { let s = self.tree(o.src); on!(push_back(s)) }
            K::Prepend => { let s = self.forest(o.src); on!(prepend(s)) }
            K::Append => { let s = self.forest(o.src); on!(append(s)) }
            K::PrevSib | K::NextSib => {
                let s = self.tree(o.src);
                let Some(n) = self.node(l) else { lost(o); return Outcome::Done };
                let r = panics(|| if o.k == K::PrevSib { n.insert_prev_sib(s) } else { n.insert_next_sib(s) });
                return if r.is_err() { Outcome::Refused } else { Outcome::Done };
            }
            K::PopFront | K::PopBack => {
                let r = if o.k == K::PopFront { on!(pop_front()) } else { on!(pop_back()) };
                let some = r.is_some();
                if let Some(t) = r { self.c.push(Some(R::T(t))); }
                return Outcome::Popped(some);
            }
            K::Detach => {
                let Some(n) = self.node(l) else { lost(o); return Outcome::Done };
                match panics(|| n.detach()) {
                    Ok(t) => { self.c.push(Some(R::T(t))); }
                    Err(_) => return Outcome::Refused,
                }
            }
            K::Abandon => {
                let Some(Some(R::T(t))) = self.c.get_mut(l.c as usize) else { unreachable!() };
                let f = t.abandon();
                self.c.push(Some(R::F(f)));
            }
            K::Drop => drop(self.c[l.c as usize].take()),
            K::Clone | K::CloneInPlace => {
                let c = match self.c[l.c as usize].as_ref().unwrap() { R::T(t) => R::T(t.clone()), R::F(f) => R::F(f.clone()) };
                if o.k == K::Clone { self.c.push(Some(c)) } else { self.c[l.c as usize] = Some(c) }
            }
            K::DeepClone => match self.node(l) {
                Some(n) => { let t = n.deep_clone(); self.c.push(Some(R::T(t))); }
                None => lost(o),
            },
            K::DeepCloneForest => match self.node(l) {
                Some(n) => { let f = n.deep_clone_forest(); self.c.push(Some(R::F(f))); }
                None => lost(o),
            },
            K::Rebuild => {
                let c = match self.c[l.c as usize].take().unwrap() {
                    R::T(t) => R::T(Tree::from(t.into_bfs())),
                    R::F(f) => R::F(Forest::from(f.into_bfs())),
                };
                self.c[l.c as usize] = Some(c);
            }
            K::RcTrip => {
                let r = RcNode::from(self.tree(l.c));
                drop(r.clone());
                drop(r.front());
                self.c[l.c as usize] = Some(R::T(unsafe { r.into_tree() }));
            }
            K::WalkTrip => {
                let c = match self.c[l.c as usize].take().unwrap() {
                    R::T(t) => { let mut w = trees::TreeWalk::from(t); w.forward(); R::T(Tree::from(w)) }
                    R::F(f) => { let mut w = trees::ForestWalk::from(f); w.forward(); R::F(Forest::from(w)) }
                };
                self.c[l.c as usize] = Some(c);
            }
            K::IntoIter => {
                let first = match self.c[l.c as usize].take().unwrap() {
                    R::T(t) => t.into_iter().next(),
                    R::F(f) => f.into_iter().next(),
                };
                self.c[l.c as usize] = first.map(R::T);
            }
            K::Neg => { let t = self.tree(l.c); self.c[l.c as usize] = Some(R::F(-t)); }
        }
        Outcome::Done
    }

    pub fn check(&self, st: &St, h: &mut H) {
        for (i, (r, m)) in self.c.iter().zip(&st.c).enumerate() {
            match (r, m) {
                (Some(R::T(t)), Some(C::T(m))) => check_tree(t, m, h),
                (Some(R::F(f)), Some(C::F(_, k))) => check_forest(f, k, h),
                (None, None) => (),
                _ => bad!(Shape, "container {i} is not what it should be"),
            }
        }
        want!(Shape, self.c.len() == st.c.len(), "{} containers instead of {}", self.c.len(), st.c.len());
        let (got, exp) = (reg::live(), st.total());
        want!(Drop, got == exp, "{got} data are alive, not {exp}");
        h.add(got as u64);
        sup::stat(1, exp as u64);
    }
}
fn lost(o: &Op) { bad!(Shape, "the node at {:?} cannot be reached", o.loc) }

/// Run one history; observe after the operations from `watch` on; then take everything apart.
pub fn run_history<X: Datum>(ops: &[Op], watch: usize, drain: u8, t: &Tables) {
    accounted(|| {
        let mut st = St::default();
        let mut real: Real<X> = Real { c: vec![] };
        let mut h = H::new();
        for (i, o) in ops.iter().enumerate() {
            let r = real.step(o, &st, t);
            let m = st.step(o, t);
            sup::stat(0, 1);
            match (r, m) {
                (Outcome::Done, Outcome::Done) | (Outcome::Refused, Outcome::Refused) => (),
                (Outcome::Popped(a), Outcome::Popped(b)) => want!(Shape, a == b, "popping returned {}", if a { "a tree" } else { "None" }),
                (Outcome::Refused, _) => bad!(Refuse, "{:?} was refused", o.k),
                (_, Outcome::Refused) => bad!(Refuse, "{:?} on a root was not refused", o.k),
                _ => (),
            }
            if i >= watch { real.check(&st, &mut h); }
            if sup::failed() {
                // the model no longer describes the state
                drop(real);
                return;
            }
        }
        sup::digest(h.0);
        sup::draining(true);
        let Real { c } = real;
        let it: Box<dyn Iterator<Item = (Option<R<X>>, Option<C>)>> = if drain == 100 { Box::new(c.into_iter().zip(st.c).rev()) } else { Box::new(c.into_iter().zip(st.c)) };
        let d = if drain == 100 { 0 } else { drain };
        for (r, m) in it {
            match (r, m) {
                (Some(R::T(t)), Some(C::T(m))) => drain_tree(t, &m, d),
                (Some(R::F(f)), Some(C::F(_, k))) => drain_forest(f, &k, d),
                _ => (),
            }
        }
    });
}

pub fn describe(ops: &[Op], t: &Tables) -> String {
    let mut st = St::default();
    let mut out: Vec<String> = vec![];
    for o in ops {
        let name = |i: usize, st: &St| match st.c.get(i) { Some(Some(C::F(..))) => format!("f{i}"), _ => format!("t{i}") };
        let new = st.c.len();
        let node = |st: &St| {
            let mut s = name(o.loc.c as usize, st);
            if o.loc.n > 0 || (st.is_tree(o.loc.c) && o.b == 1) { if st.is_tree(o.loc.c) { s.push_str(".root_mut()"); } }
            for i in o.loc.path() { s.push_str(&format!(".child({i})")); }
            s
        };
        let s = match o.k {
            K::NewTree => format!("let t{new} = Tree::new({})", st.lab + 1),
            K::NewForest => format!("let f{new} = Forest::new()"),
            K::Tuple => format!("let c{new} = from_tuple({:?})", tuple_shape(o.a).map(|s| s.text()).map_err(|f| shape::forest_text(&f))),
            K::Build => format!("let t{new} = {} built {:?}", if o.src == 0 { t.trees[o.a as usize].text() } else { t.scaled[o.a as usize].0.clone() }, KINDS[o.b as usize]),
            K::BuildForest => format!("let f{new} = [{}] built {:?}", if o.src == 0 { shape::forest_text(&t.forests[o.a as usize]) } else { format!("children of {}", t.scaled[o.a as usize].0) }, FKINDS[o.b as usize]),
            K::PushFront => format!("{}.push_front(t{})", node(&st), o.src),
            K::PushBack => format!("{}.push_back(t{})", node(&st), o.src),
            K::Prepend => format!("{}.prepend(f{})", node(&st), o.src),
            K::Append => format!("{}.append(f{})", node(&st), o.src),
            K::PrevSib => format!("{}.insert_prev_sib(t{})", node(&st), o.src),
            K::NextSib => format!("{}.insert_next_sib(t{})", node(&st), o.src),
            K::PopFront => format!("let t{new} = {}.pop_front()", node(&st)),
            K::PopBack => format!("let t{new} = {}.pop_back()", node(&st)),
            K::Detach => format!("let t{new} = {}.detach()", node(&st)),
            K::Abandon => format!("let f{new} = {}.abandon()", node(&st)),
            K::Drop => format!("drop({})", node(&st)),
            K::Clone => format!("let c{new} = {}.clone()", node(&st)),
            K::CloneInPlace => format!("{0} = {0}.clone()", node(&st)),
            K::DeepClone => format!("let t{new} = {}.deep_clone()", node(&st)),
            K::DeepCloneForest => format!("let f{new} = {}.deep_clone_forest()", node(&st)),
            K::Rebuild => format!("{0} = From::from({0}.into_bfs())", node(&st)),
            K::RcTrip => format!("{0} = RcNode::from({0}).into_tree()", node(&st)),
            K::WalkTrip => format!("{0} = From::from(Walk::from({0}))", node(&st)),
            K::IntoIter => format!("t{} = {}.into_iter().next()", o.loc.c, node(&st)),
            K::Neg => format!("f{} = -{}", o.loc.c, node(&st)),
        };
        out.push(s);
        st.step(o, t);
    }
    out.join("; ")
}

pub struct Space { pub parent: Vec<(u32, Op)>, pub first: Vec<u64>, pub depth: u32 }
impl Space {
    /// Breadth-first search over the model.
    pub fn search(n: usize, k: usize, t: &Tables) -> (Space, Vec<Vec<Op>>) {
        let root = St::default();
        let mut seen: HashMap<Vec<u16>, u32> = HashMap::new();
        seen.insert(root.key(), 0);
        let mut sp = Space { parent: vec![(u32::MAX, Op { k: K::NewForest, loc: L0, src: 0, a: 0, b: 0 })], first: vec![0], depth: 0 };
        let mut ops: Vec<Vec<Op>> = vec![];
        let mut front = vec![root];
        let mut idx = 0u32;
        while !front.is_empty() {
            let mut next = vec![];
            for s in front {
                let os = s.ops(n, k);
                for o in &os {
                    let mut s2 = s.clone();
                    s2.step(o, t);
                    let key = s2.key();
                    if !seen.contains_key(&key) {
                        seen.insert(key, sp.parent.len() as u32);
                        sp.parent.push((idx, *o));
                        // dead slots and old labels are of no use to the states behind
                        next.push(s2);
                    }
                }
                sp.first.push(sp.first.last().unwrap() + os.len() as u64);
                ops.push(os);
                idx += 1;
            }
            sp.depth += 1;
            front = next;
        }
        (sp, ops)
    }
    pub fn history(&self, mut s: u32) -> Vec<Op> {
        let mut v = vec![];
        while s != 0 {
            let (p, o) = self.parent[s as usize];
            v.push(o);
            s = p;
        }
        v.reverse();
        v
    }
    pub fn find(&self, i: u64) -> (u32, usize) {
        let s = self.first.partition_point(|&f| f <= i) - 1;
        (s as u32, (i - self.first[s]) as usize)
    }
}

/// The arithmetic of sizes.
pub fn sizes(run: &mut Run, max: usize) {
    use trees::Size;
    let k = max + 1;
    let two = move |i: u64| {
        let d = |j: u32| i as usize / k.pow(j) % k;
        (Size { degree: d(0), descendants: d(1) * 1000 }, Size { degree: d(2), descendants: d(3) * 1000 })
    };
    run.explore("sizes", &format!("sums and differences of all sizes with parts up to {max}"), k.pow(4) as u64,
        &|i| {
            let (a, b) = two(i);
            let sum = Size { degree: a.degree + b.degree, descendants: a.descendants + b.descendants };
            let mut c = a;
            c += b;
            want!(Count, a + b == sum && c == sum, "{a:?} + {b:?} gives {:?}, += gives {c:?}", a + b);
            c -= b;
            want!(Count, sum - b == a && c == a, "{sum:?} - {b:?} gives {:?}, -= gives {c:?}", sum - b);
            sup::stat(1, 4);
        },
        &|i| format!("{:?}", two(i)));
}

/// The phases of this engine with the data type X.
pub fn explore<X: Datum>(run: &mut Run, tag: &str, b: &Bounds) {
    let t = Tables {
        trees: shape::trees_upto(b.shape.max(b.operand)),
        forests: shape::forests_upto(b.operand.max(b.fshape)),
        scaled: b.scaled.iter().flat_map(|&n| shape::scaled(n)).collect(),
    };
    let t = &t;
    for &(n, k) in &b.spaces {
        let (sp, ops) = Space::search(n, k, t);
        let states = ops.len() as u64;
        run.states += states;
        let total = *sp.first.last().unwrap();
        run.explore(&format!("{tag}transitions-n{n}k{k}"), &format!("every operation in each of the {states} states of at most {n} nodes in {k} containers (depth {})", sp.depth), total,
            &|i| {
                let (s, j) = sp.find(i);
                let mut hist = sp.history(s);
                let w = hist.len();
                hist.push(ops[s as usize][j]);
                run_history::<X>(&hist, w, if i % 2 == 0 { 0 } else { 100 }, t);
            },
            &|i| {
                let (s, j) = sp.find(i);
                let mut hist = sp.history(s);
                hist.push(ops[s as usize][j]);
                describe(&hist, t)
            });
        run.explore(&format!("{tag}drains-n{n}k{k}"), &format!("each of the {states} states taken apart in {DRAINS} ways"), states * DRAINS as u64,
            &|i| {
                let hist = sp.history((i / DRAINS as u64) as u32);
                run_history::<X>(&hist, hist.len().saturating_sub(1), (i % DRAINS as u64) as u8, t);
            },
            &|i| format!("{}; then drain {}", describe(&sp.history((i / DRAINS as u64) as u32), t), i % DRAINS as u64));
    }
    for &(n, k) in &b.pairs {
        // op1; op2 from every state: states merged by the canonical form are left in both ways
        let (sp, ops) = Space::search(n, k, t);
        let mut cases: Vec<(u32, u16, u16)> = vec![];
        for s in 0..ops.len() {
            let mut base = St::default();
            for o in sp.history(s as u32) { base.step(&o, t); }
            for (j, o) in ops[s].iter().enumerate() {
                let mut s2 = base.clone();
                s2.step(o, t);
                for l in 0..s2.ops(n, k).len() { cases.push((s as u32, j as u16, l as u16)); }
            }
        }
        let hist = |i: u64| {
            let (s, j, l) = cases[i as usize];
            let mut hist = sp.history(s);
            let mut st = St::default();
            for o in &hist { st.step(o, t); }
            hist.push(ops[s as usize][j as usize]);
            st.step(&hist[hist.len() - 1], t);
            let o2 = st.ops(n, k)[l as usize];
            hist.push(o2);
            hist
        };
        run.explore(&format!("{tag}pairs-n{n}k{k}"), "every pair of consecutive operations from every state", cases.len() as u64,
            &|i| { let h = hist(i); run_history::<X>(&h, h.len() - 1, if i % 2 == 0 { 100 } else { 0 }, t) },
            &|i| describe(&hist(i), t));
    }
    for &(n, k, depth) in &b.histories {
        // every history, nothing merged
        let mut cases: Vec<Vec<Op>> = vec![];
        fn go(st: &St, h: &mut Vec<Op>, n: usize, k: usize, depth: usize, t: &Tables, out: &mut Vec<Vec<Op>>) {
            if h.len() == depth { out.push(h.clone()); return; }
            for o in st.ops(n, k) {
                let mut s2 = st.clone();
                s2.step(&o, t);
                h.push(o);
                go(&s2, h, n, k, depth, t, out);
                h.pop();
            }
        }
        go(&St::default(), &mut vec![], n, k, depth, t, &mut cases);
        run.explore(&format!("{tag}histories-n{n}k{k}d{depth}"), "every history of that length, none merged, observed after every step", cases.len() as u64,
            &|i| run_history::<X>(&cases[i as usize], 0, (i % DRAINS as u64) as u8, t), &|i| describe(&cases[i as usize], t));
    }
    if b.shape > 0 {
        // one operation on every shape, every storage, every operand
        let mut cases: Vec<([Op; 3], u8)> = vec![];
        let nt = t.trees.iter().filter(|s| s.count() <= b.shape).count();
        for a in 0..nt as u16 { for kind in 0..KINDS.len() as u8 { cases_for(Op { k: K::Build, loc: L0, src: 0, a, b: kind }, t, b.operand, &mut cases); } }
        let nf = t.forests.iter().filter(|f| f.iter().map(|s| s.count()).sum::<usize>() <= b.fshape).count();
        for a in 0..nf as u16 { for kind in 0..FKINDS.len() as u8 { cases_for(Op { k: K::BuildForest, loc: L0, src: 0, a, b: kind }, t, b.operand, &mut cases); } }
        let hist = |i: u64| { let (o, n) = &cases[i as usize]; &o[..*n as usize] };
        run.explore(&format!("{tag}shapes"), &format!("every operation at every node of every tree of at most {} nodes and forest of at most {} nodes, in {} + {} storage forms, with every operand of at most {} nodes", b.shape, b.fshape, KINDS.len(), FKINDS.len(), b.operand), cases.len() as u64,
            &|i| run_history::<X>(hist(i), 0, (i % DRAINS as u64) as u8, t), &|i| describe(hist(i), t));
    }
    for &(n, fnodes, depth) in &b.follow {
        // several operations one after the other, on any of the pieces
        let mut bases: Vec<[Op; 2]> = vec![];
        let operands: Vec<Op> = [0u16, 1].iter().flat_map(|&a| [Op { k: K::Build, loc: L0, src: 0, a, b: 1 }, Op { k: K::BuildForest, loc: L0, src: 0, a: a + 2, b: a as u8 }]).collect();
        for (a, s) in t.trees.iter().enumerate() { if s.count() <= n { for kind in 0..KINDS.len() as u8 { for o in &operands { bases.push([Op { k: K::Build, loc: L0, src: 0, a: a as u16, b: kind }, *o]); } } } }
        for (a, f) in t.forests.iter().enumerate() { if f.iter().map(|s| s.count()).sum::<usize>() <= fnodes { for kind in 0..FKINDS.len() as u8 { for o in &operands { bases.push([Op { k: K::BuildForest, loc: L0, src: 0, a: a as u16, b: kind }, *o]); } } } }
        let ops = |st: &St| -> Vec<Op> {
            let mut v = st.ops(st.total(), 4);
            v.retain(|o| !matches!(o.k, K::NewTree | K::NewForest | K::Tuple | K::Clone | K::DeepClone | K::DeepCloneForest));
            v
        };
        // one case: the operations but the last by their indices, then all the last ones in a row
        let mut groups: Vec<(u32, [u16; 3])> = vec![];
        let mut first = vec![0u64];
        fn go(st: &St, base: u32, ix: &mut Vec<u16>, depth: usize, t: &Tables, ops: &dyn Fn(&St) -> Vec<Op>, groups: &mut Vec<(u32, [u16; 3])>, first: &mut Vec<u64>) {
            let os = ops(st);
            if ix.len() + 1 == depth {
                let mut a = [0u16; 3];
                a[..ix.len()].copy_from_slice(ix);
                groups.push((base, a));
                first.push(first.last().unwrap() + os.len() as u64);
                return;
            }
            for (i, o) in os.iter().enumerate() {
                let mut s2 = st.clone();
                s2.step(o, t);
                ix.push(i as u16);
                go(&s2, base, ix, depth, t, ops, groups, first);
                ix.pop();
            }
        }
        for (i, base) in bases.iter().enumerate() {
            let mut st = St::default();
            for o in base { st.step(o, t); }
            go(&st, i as u32, &mut vec![], depth, t, &ops, &mut groups, &mut first);
        }
        let hist = |i: u64| {
            let g = first.partition_point(|&f| f <= i) - 1;
            let (base, ix) = &groups[g];
            let mut h = bases[*base as usize].to_vec();
            let mut st = St::default();
            for o in &h { st.step(o, t); }
            for k in 0..depth {
                let j = if k + 1 == depth { (i - first[g]) as usize } else { ix[k] as usize };
                let o = ops(&st)[j];
                st.step(&o, t);
                h.push(o);
            }
            h
        };
        run.explore(&format!("{tag}follow-{n}-{fnodes}-{depth}"), &format!("{depth} operations in a row, each on any of the pieces, on every tree of at most {n} nodes and forest of at most {fnodes} nodes, in {} + {} storage forms, with a second tree or forest at hand", KINDS.len(), FKINDS.len()), *first.last().unwrap(),
            &|i| run_history::<X>(&hist(i), 3, (i % DRAINS as u64) as u8, t), &|i| describe(&hist(i), t));
    }
    if !b.scaled.is_empty() {
        let mut cases: Vec<([Op; 3], u8)> = vec![];
        for a in 0..t.scaled.len() as u16 {
            let big = t.scaled[a as usize].1.count() > 50;
            for kind in 0..KINDS.len() as u8 { cases_for(Op { k: K::Build, loc: L0, src: 1, a, b: kind }, t, if big { 1 } else { 2 }, &mut cases); }
            for kind in 0..FKINDS.len() as u8 { cases_for(Op { k: K::BuildForest, loc: L0, src: 1, a, b: kind }, t, if big { 1 } else { 2 }, &mut cases); }
            // and moved into small ones
            for (c, s) in t.trees.iter().enumerate() {
                if s.count() > if big { 3 } else { 4 } { continue; }
                let first = Op { k: K::Build, loc: L0, src: 0, a: c as u16, b: (c % KINDS.len()) as u8 };
                for p in all_paths(&C::T(label(s, &mut 0))) {
                    for (k, kind) in [(K::PushFront, 0), (K::PushBack, 1), (K::PrevSib, 1), (K::NextSib, 0), (K::Prepend, 0), (K::Append, 1), (K::Prepend, 1), (K::Append, 0)] {
                        let x = Op { k: if matches!(k, K::Prepend | K::Append) { K::BuildForest } else { K::Build }, loc: L0, src: 1, a, b: kind };
                        cases.push(([first, x, Op { k, loc: Loc::new(0, &p), src: 1, a: 0, b: 0 }], 3));
                    }
                }
            }
        }
        let hist = |i: u64| { let (o, n) = &cases[i as usize]; &o[..*n as usize] };
        run.explore(&format!("{tag}scaled"), &format!("the same on stars, chains, combs, brushes and binary trees of {:?} nodes, at their first, second, middle and last children, and moved into small trees", b.scaled), cases.len() as u64,
            &|i| run_history::<X>(hist(i), 0, (i % DRAINS as u64) as u8, t), &|i| describe(hist(i), t));
    }
}
#[derive(Clone, Default)]
pub struct Bounds {
    pub spaces: Vec<(usize, usize)>,
    pub pairs: Vec<(usize, usize)>,
    pub histories: Vec<(usize, usize, usize)>,
    pub shape: usize,
    pub fshape: usize,
    pub operand: usize,
    pub scaled: Vec<usize>,
    pub follow: Vec<(usize, usize, usize)>,
}
fn all_paths(c: &C) -> Vec<Vec<u16>> {
    match c {
        C::T(m) => m.paths(),
        C::F(_, f) => std::iter::once(vec![]).chain(f.iter().enumerate().flat_map(|(i, m)| m.paths().into_iter().map(move |p| { let mut q = vec![i as u16]; q.extend(p); q }))).collect(),
    }
}
fn some_paths(c: &C) -> Vec<Vec<u16>> {
    fn pick(m: &[M], p: &mut Vec<u16>, out: &mut Vec<Vec<u16>>) {
        if m.is_empty() { return; }
        let n = m.len();
        let mut ix = vec![0, 1.min(n - 1), n / 2, n - 1];
        ix.dedup();
        for i in ix {
            // deep down the same way on
            if p.len() >= 6 && i as u16 != p[5] { continue; }
            p.push(i as u16);
            let d = p.len();
            if d < 6 || m[i].kids.is_empty() || [7, 9, 10, 16, 17, 33, 65, 128, 129].contains(&d) { out.push(p.clone()); }
            if i == 0 || i == n - 1 || n == 1 { pick(&m[i].kids, p, out); }
            p.pop();
        }
    }
    if match c { C::T(m) => m.count() <= 9 && m.height() <= 6, C::F(_, f) => forest_count(f) <= 9 && f.iter().all(|m| m.height() < 6) } { return all_paths(c); }
    let mut out = vec![vec![]];
    match c {
        C::T(m) => pick(&m.kids, &mut vec![], &mut out),
        C::F(_, f) => pick(f, &mut vec![], &mut out),
    }
    out
}
/// Build one container; one operation on it, possibly with a second container.
fn cases_for(first: Op, t: &Tables, operand: usize, out: &mut Vec<([Op; 3], u8)>) {
    let mut st = St::default();
    st.step(&first, t);
    let cont = st.c[0].clone().unwrap();
    let tree = matches!(cont, C::T(_));
    let paths = some_paths(&cont);
    let mut operands = vec![];
    for (i, s) in t.trees.iter().enumerate() {
        if s.count() <= operand { for kind in 0..3u8 { if s.count() > 1 || kind < 2 { operands.push(Op { k: K::Build, loc: L0, src: 0, a: i as u16, b: kind }); } } }
    }
    for (i, f) in t.forests.iter().enumerate() {
        if f.iter().map(|s| s.count()).sum::<usize>() <= operand { for kind in 0..3u8 { operands.push(Op { k: K::BuildForest, loc: L0, src: 0, a: i as u16, b: kind }); } }
    }
    let nop = Op { k: K::NewForest, loc: L0, src: 0, a: 0, b: 0 };
    let op = |k, p: &[u16], src, b| Op { k, loc: Loc::new(0, p), src, a: 0, b };
    for p in &paths {
        let root = p.is_empty();
        for x in &operands {
            let ks: &[K] = if x.k == K::Build { &[K::PushFront, K::PushBack, K::PrevSib, K::NextSib] } else { &[K::Prepend, K::Append] };
            for &k in ks {
                if root && !tree && matches!(k, K::PrevSib | K::NextSib) { continue; }
                out.push(([first, *x, op(k, p, 1, (p.len() + x.a as usize) as u8 & 1)], 3));
            }
        }
        for k in [K::PopFront, K::PopBack] { out.push(([first, op(k, p, 0, 0), nop], 2)); }
        if tree || !root { for k in [K::Detach, K::DeepClone, K::DeepCloneForest] { out.push(([first, op(k, p, 0, 0), nop], 2)); } }
    }
    for k in [K::Clone, K::CloneInPlace, K::Rebuild, K::WalkTrip, K::IntoIter, K::Drop] { out.push(([first, op(k, &[], 0, 0), nop], 2)); }
    if tree { for k in [K::Abandon, K::RcTrip, K::Neg] { out.push(([first, op(k, &[], 0, 0), nop], 2)); } }
    for d in 0..DRAINS { let _ = d; out.push(([first, nop, nop], 1)); }
}
