//! Explorer of shared handles: RcNode, WeakNode and IterRc (C06, C07, C09, and for C04 and C05).
use crate::model::{self, accounted, Kind, KINDS, M};
use crate::reg::{self, Datum};
use crate::shape::{self, S};
use crate::consume::{consume, key, step_text, Lab, ENDS, END_NAMES, STEPS};
use crate::sup::{self, panics, Facet, Run};
use crate::util::H;
use crate::{bad, want};
use std::collections::HashMap;
use trees::{Forest, IterRc, RcNode, Tree, WeakNode};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Root, Build, Get, CloneH, DropH, Front, Back, Parent,
    IterNew, IterNext, IterClone, IterDrop,
    PushFront, PushBack, Prepend, Append, Extend, PrevSib, NextSib, PopFront, PopBack, Detach,
    Downgrade, Upgrade, DropW, TreeTrip, TreeDrop, TreeOfChild, WeakAll,
}
/// h: handle, iterator or weak index; x: which operand, shape or child
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Op { pub k: K, pub h: u16, pub x: u16, pub y: u8 }
fn op(k: K, h: usize, x: u16) -> Op { Op { k, h: h as u16, x, y: 0 } }

#[derive(Clone, Debug)]
pub struct N { lab: u32, st: u16, kids: Vec<usize>, up: Option<usize>, alive: bool }
#[derive(Clone, Debug, Default)]
pub struct St {
    n: Vec<N>,
    hs: Vec<usize>,
    ws: Vec<usize>,
    its: Vec<Vec<usize>>,
    pile: u16,
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Out { Done, Refused, Some, None }

#[derive(Clone, Copy, Default)]
pub struct Lim { pub n: usize, pub h: usize, pub w: usize, pub i: usize }

/// Trees given to edits: (shape, piled)
fn operand_tree(x: u16) -> (S, bool) {
    match x {
        0 => (S::leaf(), false),
        1 => (S(vec![S::leaf()]), true),
        2 => (S(vec![S::leaf(), S::leaf()]), true),
        3 => (S(vec![S(vec![S::leaf()])]), true),
        _ => (S(vec![S::leaf()]), false),
    }
}
fn operand_forest(x: u16) -> (Vec<S>, bool) {
    match x {
        0 => (vec![], false),
        1 => (vec![S::leaf()], false),
        _ => (vec![S::leaf(), S::leaf()], true),
    }
}

impl St {
    fn fresh(&self) -> u32 { self.n.len() as u32 }
    /// Add the nodes of a labelled tree (labels are arena indices).
    fn add(&mut self, m: &M, up: Option<usize>) -> usize {
        let i = self.n.len();
        debug_assert_eq!(i, m.lab as usize);
        self.n.push(N { lab: m.lab, st: m.st, kids: vec![], up, alive: true });
        for k in &m.kids {
            let c = self.add(k, Some(i));
            self.n[i].kids.push(c);
        }
        i
    }
    fn tree_operand(&mut self, x: u16) -> M {
        let (s, p) = operand_tree(x);
        let mut lab = self.fresh();
        let mut m = model::label(&s, &mut lab);
        if p { self.pile += 1; let q = self.pile; m.each_mut(&mut |n| n.st = q); }
        m
    }
    fn forest_operand(&mut self, x: u16) -> Vec<M> {
        let (f, p) = operand_forest(x);
        let mut lab = self.fresh();
        let mut v = model::label_forest(&f, &mut lab);
        if p { self.pile += 1; let q = self.pile; v.iter_mut().for_each(|m| m.each_mut(&mut |n| n.st = q)); }
        v
    }
    fn refs(&self, x: usize) -> usize {
        self.hs.iter().filter(|&&h| h == x).count() + self.its.iter().flatten().filter(|&&h| h == x).count()
    }
    fn maybe_kill(&mut self, x: usize) {
        if self.n[x].alive && self.n[x].up.is_none() && self.refs(x) == 0 {
            self.n[x].alive = false;
            let kids = std::mem::take(&mut self.n[x].kids);
            for k in kids {
                self.n[k].up = None;
                self.maybe_kill(k);
            }
        }
    }
    fn kill_tree(&mut self, x: usize) {
        self.n[x].alive = false;
        self.n[x].up = None;
        for k in std::mem::take(&mut self.n[x].kids) { self.kill_tree(k); }
    }
    fn unlink(&mut self, x: usize) {
        if let Some(u) = self.n[x].up.take() { self.n[u].kids.retain(|&k| k != x); }
    }
    /// The subtree size of every node. Children come after their parents or are few.
    fn counts(&self) -> Vec<usize> {
        let mut c = vec![0; self.n.len()];
        fn go(s: &St, x: usize, c: &mut Vec<usize>) -> usize { let n = 1 + s.n[x].kids.iter().map(|&k| go(s, k, c)).sum::<usize>(); c[x] = n; n }
        for x in 0..self.n.len() { if self.n[x].up.is_none() { go(self, x, &mut c); } }
        c
    }
    fn alive(&self) -> usize { self.n.iter().filter(|n| n.alive).count() }
    fn in_tree_refs(&self, x: usize) -> usize { self.refs(x) + self.n[x].kids.iter().map(|&k| self.in_tree_refs(k)).sum::<usize>() }

    fn step(&mut self, o: &Op, shapes: &[S]) -> Out {
        let h = o.h as usize;
        macro_rules! node { () => { self.hs[h] } }
        match o.k {
            K::Root | K::Build => {
                let m = if o.k == K::Root { self.tree_operand(o.x) } else { let mut lab = self.fresh(); model::label(&shapes[o.x as usize], &mut lab) };
                let r = self.add(&m, None);
                self.hs.push(r);
            }
            K::Get => {
                let c = self.n[node!()].kids[o.x as usize];
                self.hs.push(c);
            }
            K::CloneH => { let n = node!(); self.hs.push(n); }
            K::DropH => { let n = self.hs.remove(h); self.maybe_kill(n); }
            K::Front => match self.n[node!()].kids.first() { Some(&k) => self.hs.push(k), None => return Out::None },
            K::Back => match self.n[node!()].kids.last() { Some(&k) => self.hs.push(k), None => return Out::None },
            K::Parent => match self.n[node!()].up { Some(k) => self.hs.push(k), None => return Out::None },
            K::IterNew => { let k = self.n[node!()].kids.clone(); self.its.push(k); }
            K::IterNext => {
                if self.its[h].is_empty() { return Out::None; }
                let k = self.its[h].remove(0);
                self.hs.push(k);
                return Out::Some;
            }
            K::IterClone => { let k = self.its[h].clone(); self.its.push(k); }
            K::IterDrop => { let v = self.its.remove(h); for x in v { self.maybe_kill(x); } }
            K::PushFront | K::PushBack => {
                let m = self.tree_operand(o.x);
                let n = node!();
                let r = self.add(&m, Some(n));
                let at = if o.k == K::PushFront { 0 } else { self.n[n].kids.len() };
                self.n[n].kids.insert(at, r);
            }
            K::Prepend | K::Append => {
                let f = self.forest_operand(o.x);
                let n = node!();
                let v: Vec<usize> = f.iter().map(|m| self.add(m, Some(n))).collect();
                let at = if o.k == K::Prepend { 0 } else { self.n[n].kids.len() };
                self.n[n].kids.splice(at..at, v);
            }
            K::Extend => {
                let n = node!();
                for x in [0, o.x] {
                    let m = self.tree_operand(x);
                    let r = self.add(&m, Some(n));
                    self.n[n].kids.push(r);
                }
            }
            K::PrevSib | K::NextSib => {
                let m = self.tree_operand(o.x);
                let n = node!();
                match self.n[n].up {
                    None => {
                        // refused, the operand is gone
                        let r = self.add(&m, None);
                        self.kill_tree(r);
                        return Out::Refused;
                    }
                    Some(u) => {
                        let at = self.n[u].kids.iter().position(|&k| k == n).unwrap() + (o.k == K::NextSib) as usize;
                        let r = self.add(&m, Some(u));
                        self.n[u].kids.insert(at, r);
                    }
                }
            }
            K::PopFront | K::PopBack => {
                let n = node!();
                let k = if o.k == K::PopFront { self.n[n].kids.first() } else { self.n[n].kids.last() };
                match k {
                    None => return Out::None,
                    Some(&k) => { self.unlink(k); self.hs.push(k); return Out::Some; }
                }
            }
            K::Detach => {
                let n = node!();
                if self.n[n].up.is_none() { return Out::Refused; }
                self.unlink(n);
            }
            K::Downgrade => { let n = node!(); self.ws.push(n); }
            K::Upgrade => { let n = self.ws[h]; if self.n[n].alive { self.hs.push(n); return Out::Some; } return Out::None; }
            K::DropW => { self.ws.remove(h); }
            K::WeakAll => {
                let mut q = vec![node!()];
                while let Some(x) = q.pop() { self.ws.push(x); q.extend(self.n[x].kids.iter().rev()); }
            }
            K::TreeTrip => (),
            K::TreeDrop => { let n = self.hs.remove(h); self.kill_tree(n); }
            // the handle is consumed; the node stays where it is
            K::TreeOfChild => { self.hs.remove(h); return Out::Refused; }
        }
        Out::Done
    }
    fn first_handles(&self) -> Vec<usize> {
        (0..self.hs.len()).filter(|&i| self.hs[..i].iter().all(|&x| x != self.hs[i])).collect()
    }
    fn ops(&self, l: &Lim) -> Vec<Op> {
        let mut out = vec![];
        let total = self.alive();
        let more = self.hs.len() < l.h;
        if more { for x in 0..5 { if total + operand_tree(x).0.count() <= l.n { out.push(op(K::Root, 0, x)); } } }
        for h in self.first_handles() {
            let n = self.hs[h];
            if more {
                for k in [K::CloneH, K::Front, K::Back, K::Parent] { out.push(op(k, h, 0)); }
            }
            // the last handle to the same node, so that both an old and a new one get dropped
            out.push(op(K::DropH, (0..self.hs.len()).rev().find(|&i| self.hs[i] == n).unwrap(), 0));
            for x in 0..3 {
                let c = operand_tree(x).0.count();
                if total + c <= l.n {
                    for k in [K::PushFront, K::PushBack, K::PrevSib, K::NextSib] { out.push(op(k, h, x)); }
                    if total + c + 1 <= l.n && x < 2 { out.push(op(K::Extend, h, x)); }
                }
                if total + operand_forest(x).0.len() <= l.n {
                    for k in [K::Prepend, K::Append] { out.push(op(k, h, x)); }
                }
            }
            if more || self.n[n].kids.is_empty() { for k in [K::PopFront, K::PopBack] { out.push(op(k, h, 0)); } }
            out.push(op(K::Detach, h, 0));
            if self.its.len() < l.i { out.push(op(K::IterNew, h, 0)); }
            if self.ws.len() < l.w { out.push(op(K::Downgrade, h, 0)); }
            if self.n[n].up.is_none() && self.in_tree_refs(n) == 1 {
                out.push(op(K::TreeTrip, h, 0));
                out.push(op(K::TreeDrop, h, 0));
            }
            if self.n[n].up.is_some() { out.push(op(K::TreeOfChild, h, 0)); }
        }
        for i in 0..self.its.len() {
            if more { out.push(op(K::IterNext, i, 0)); }
            if self.its.len() < l.i { out.push(op(K::IterClone, i, 0)); }
            out.push(op(K::IterDrop, i, 0));
        }
        for i in 0..self.ws.len() {
            if self.ws[..i].contains(&self.ws[i]) { continue; }
            if more { out.push(op(K::Upgrade, i, 0)); }
            out.push(op(K::DropW, i, 0));
        }
        out
    }
    /// Equal keys, equal futures: data do not matter, handles to one node are interchangeable, roots are
    /// sorted, buffers renamed.
    fn key(&self) -> Vec<u16> {
        fn enc(s: &St, x: usize, out: &mut Vec<u16>, pile: &mut dyn FnMut(u16) -> u16) {
            out.push(1000 + pile(s.n[x].st));
            out.push(s.hs.iter().filter(|&&h| h == x).count() as u16);
            out.push(s.ws.iter().filter(|&&h| h == x).count() as u16);
            for (i, it) in s.its.iter().enumerate() {
                for (j, &n) in it.iter().enumerate() { if n == x { out.push(500 + 20 * i as u16 + j as u16); } }
            }
            for &k in &s.n[x].kids { enc(s, k, out, pile); }
            out.push(900);
        }
        let mut roots: Vec<(Vec<u16>, usize)> = vec![];
        for (i, n) in self.n.iter().enumerate() {
            if (n.alive && n.up.is_none()) || (!n.alive && self.ws.contains(&i)) {
                let mut e = vec![800 + n.alive as u16];
                enc(self, i, &mut e, &mut |s| (s > 0) as u16);
                roots.push((e, i));
            }
        }
        roots.sort();
        let mut map: Vec<u16> = vec![];
        let mut out: Vec<u16> = self.its.iter().map(|i| i.len() as u16).collect();
        for (_, r) in roots {
            out.push(800 + self.n[r].alive as u16);
            enc(self, r, &mut out, &mut |s| if s == 0 { 0 } else {
                match map.iter().position(|&x| x == s) { Some(i) => i as u16 + 1, None => { map.push(s); map.len() as u16 } }
            });
        }
        out
    }
}

struct Real<X> { hs: Vec<RcNode<X>>, ws: Vec<WeakNode<X>>, its: Vec<IterRc<X>> }

fn real_tree<X: Datum>(x: u16, lab: u32) -> Tree<X> {
    let (s, p) = operand_tree(x);
    let mut lab = lab;
    let m = model::label(&s, &mut lab);
    if p { model::piled(&m) } else { model::scattered(&m) }
}
fn real_forest<X: Datum>(x: u16, lab: u32) -> Forest<X> {
    let (f, p) = operand_forest(x);
    let mut lab = lab;
    let v = model::label_forest(&f, &mut lab);
    if p { model::piled_forest(&v) } else { model::build_forest(&v, model::FKind::Pushed(Kind::Scattered)) }
}
impl<X: Datum> Real<X> {
    fn step(&mut self, o: &Op, st: &St, shapes: &[S]) -> Out {
        let h = o.h as usize;
        let lab = st.fresh();
        macro_rules! opt { ($e:expr) => { match $e { Some(r) => { self.hs.push(r); Out::Some } None => Out::None } } }
        match o.k {
            K::Root => self.hs.push(RcNode::from(real_tree::<X>(o.x, lab))),
            K::Build => {
                let mut l = lab;
                let m = model::label(&shapes[o.x as usize], &mut l);
                self.hs.push(RcNode::from(model::build::<X>(&m, KINDS[o.y as usize])));
            }
            K::Get => return opt!(self.hs[h].iter_rc().nth(o.x as usize)),
            K::CloneH => { let r = self.hs[h].clone(); self.hs.push(r); }
            K::DropH => drop(self.hs.remove(h)),
            K::Front => return opt!(self.hs[h].front()),
            K::Back => return opt!(self.hs[h].back()),
            K::Parent => return opt!(self.hs[h].parent()),
            K::IterNew => { let i = self.hs[h].iter_rc(); self.its.push(i); }
            K::IterNext => {
                if let Some(r) = self.its[h].next() { self.hs.push(r); return Out::Some; }
                return Out::None;
            }
            K::IterClone => { let i = self.its[h].clone(); self.its.push(i); }
            K::IterDrop => drop(self.its.remove(h)),
            K::PushFront => self.hs[h].push_front(real_tree(o.x, lab)),
            K::PushBack => self.hs[h].push_back(real_tree(o.x, lab)),
            K::Prepend => self.hs[h].prepend(real_forest(o.x, lab)),
            K::Append => self.hs[h].append(real_forest(o.x, lab)),
            K::Extend => {
                let a = real_tree::<X>(0, lab);
                let b = real_tree::<X>(o.x, lab + 1);
                self.hs[h].extend([a, b]);
            }
            K::PrevSib | K::NextSib => {
                let t = real_tree::<X>(o.x, lab);
                let r = panics(|| if o.k == K::PrevSib { self.hs[h].insert_prev_sib(t) } else { self.hs[h].insert_next_sib(t) });
                return if r.is_err() { Out::Refused } else { Out::Done };
            }
            K::PopFront => return opt!(self.hs[h].pop_front()),
            K::PopBack => return opt!(self.hs[h].pop_back()),
            K::Detach => return if panics(|| self.hs[h].detach()).is_err() { Out::Refused } else { Out::Done },
            K::Downgrade => { let w = self.hs[h].downgrade(); self.ws.push(w); }
            K::Upgrade => return opt!(self.ws[h].upgrade()),
            K::DropW => drop(self.ws.remove(h)),
            K::WeakAll => {
                fn all<X: Datum>(r: &RcNode<X>, out: &mut Vec<WeakNode<X>>) {
                    out.push(r.downgrade());
                    for k in r.iter_rc() { all(&k, out); }
                }
                all(&self.hs[h], &mut self.ws);
            }
            K::TreeTrip => {
                let t = unsafe { self.hs.remove(h).into_tree() };
                want!(Link, t.root().parent().is_none(), "into_tree: the root has a parent");
                self.hs.insert(h, RcNode::from(t));
            }
            K::TreeDrop => drop(unsafe { self.hs.remove(h).into_tree() }),
            K::TreeOfChild => {
                let r = self.hs.remove(h);
                match panics(|| unsafe { r.into_tree() }) { Err(_) => return Out::Refused, Ok(t) => std::mem::forget(t) }
            }
        }
        Out::Done
    }

    fn check(&self, st: &St, h: &mut H) {
        let c = &st.counts()[..];
        // Liveness first: exactly these data are alive.
        let got = reg::live_labels();
        if X::TRACKED { for n in &st.n {
            let is = got[n.lab as usize / 64] >> (n.lab % 64) & 1 == 1;
            if is != n.alive {
                if is {
                    bad!(Alive, "node {} should have been dropped by now", n.lab);
                    if st.ws.contains(&(n.lab as usize)) { bad!(Weak, "node {} is kept alive by a weak handle only", n.lab); }
                } else {
                    bad!(Alive, "node {} has been dropped, though it has a handle or an alive parent", n.lab);
                }
            }
        } }
        want!(Drop, reg::live() == st.alive(), "{} data are alive, not {}", reg::live(), st.alive());
        if sup::failed() { return; }
        for (i, r) in self.hs.iter().enumerate() { self.node(st, c, st.hs[i], r, h, true); }
        // every root once, in full
        for (i, r) in self.hs.iter().enumerate() {
            if st.n[st.hs[i]].up.is_none() && !st.hs[..i].contains(&st.hs[i]) { self.deep(st, c, st.hs[i], r, h); }
        }
        for (i, w) in self.ws.iter().enumerate() {
            let x = st.ws[i];
            match w.upgrade() {
                Some(r) => {
                    if !st.n[x].alive { bad!(Weak, "a weak handle to node {x} upgrades after the node was dropped"); std::mem::forget(r); return; }
                    want!(Weak, r.data().val() == X::norm(x as u32), "a weak handle to node {x} upgrades to node {}", r.data().val());
                    self.node(st, c, x, &r, h, false);
                }
                None => want!(Weak, !st.n[x].alive, "a weak handle to node {x} does not upgrade though the node is alive"),
            }
        }
        want!(Alive, reg::live() == st.alive(), "observing the nodes dropped some");
        for (i, it) in self.its.iter().enumerate() {
            let n = st.its[i].len();
            want!(IterRc, it.size_hint() == (n, Some(n)), "iter_rc: size_hint is {:?}, {n} are left", it.size_hint());
            let mut it2 = it.clone();
            for &x in &st.its[i] {
                match it2.next() {
                    Some(r) => { want!(IterRc, r.data().val() == X::norm(x as u32), "iter_rc yields {}, not {x}", r.data().val()); self.node(st, c, x, &r, h, false); }
                    None => bad!(IterRc, "iter_rc ends before {x}"),
                }
            }
            want!(IterRc, it2.next().is_none(), "iter_rc yields too many");
            want!(IterRc, it2.next().is_none(), "iter_rc is not fused");
        }
        sup::stat(1, (self.hs.len() + self.ws.len() + self.its.len()) as u64);
    }
    fn node(&self, st: &St, c: &[usize], x: usize, r: &RcNode<X>, h: &mut H, id: bool) {
        let n = &st.n[x];
        let v = r.data().val();
        h.add(v as u64);
        want!(Shape, v == X::norm(n.lab), "handle to node {x}: its data is {v}");
        if id {
            // all the handles to one node read the very same datum
            for (j, s) in self.hs.iter().enumerate() {
                if st.hs[j] == x { want!(Handle, core::ptr::eq(&*s.data(), &*r.data()), "two handles to node {x} read different data"); }
            }
        }
        h.add(r.degree() as u64 * 31 + r.node_count() as u64);
        want!(Count, r.degree() == n.kids.len(), "node {x}: degree() is {}, not {}", r.degree(), n.kids.len());
        want!(Count, r.node_count() == c[x], "node {x}: node_count() is {}, not {}", r.node_count(), c[x]);
        want!(Count, r.has_no_child() == n.kids.is_empty(), "node {x}: has_no_child() is {}", r.has_no_child());
        want!(Link, r.is_root() == n.up.is_none(), "node {x}: is_root() is {}", r.is_root());
        let lab = |r: &Option<RcNode<X>>| r.as_ref().map(|r| r.data().val());
        let (f, b, p) = (r.front(), r.back(), r.parent());
        want!(Link, lab(&f) == n.kids.first().map(|&k| X::norm(k as u32)), "node {x}: front() is {:?}", lab(&f));
        want!(Link, lab(&b) == n.kids.last().map(|&k| X::norm(k as u32)), "node {x}: back() is {:?}", lab(&b));
        want!(Link, lab(&p) == n.up.map(|k| X::norm(k as u32)), "node {x}: parent() is {:?}", lab(&p));
        let mut i = 0;
        for k in r.iter_rc() {
            let v = k.data().val();
            if i < n.kids.len() { want!(Shape, v == X::norm(n.kids[i] as u32), "node {x}: child {i} is {v}, not {}", n.kids[i]); }
            i += 1;
            if i > n.kids.len() + 50 { break; }
        }
        want!(Shape, i == n.kids.len(), "node {x}: iter_rc yields {i} of {} children", n.kids.len());
    }
    fn deep(&self, st: &St, c: &[usize], x: usize, r: &RcNode<X>, h: &mut H) {
        if sup::failed() { return; }
        for (i, k) in r.iter_rc().enumerate() {
            if i >= st.n[x].kids.len() { bad!(Shape, "node {x} lists too many children"); return; }
            self.node(st, c, st.n[x].kids[i], &k, h, true);
            self.deep(st, c, st.n[x].kids[i], &k, h);
        }
    }
}

pub fn run_history<X: Datum>(ops: &[Op], watch: usize, ending: u64, shapes: &[S]) {
    accounted(|| {
        let mut st = St::default();
        let mut real: Real<X> = Real { hs: vec![], ws: vec![], its: vec![] };
        let mut h = H::new();
        for (i, o) in ops.iter().enumerate() {
            let m0 = st.clone();
            let m = st.step(o, shapes);
            let r = real.step(o, &m0, shapes);
            sup::stat(0, 1);
            let fit = match (r, m) {
                (Out::Refused, Out::Refused) => true,
                (Out::Refused, _) => { bad!(Refuse, "{:?} was refused", o.k); true }
                (_, Out::Refused) => { bad!(Refuse, "{:?} was not refused", o.k); true }
                (Out::None, Out::None) => true,
                (Out::None, _) | (_, Out::None) => false,
                _ => true,
            };
            if !fit {
                let t = match o.k { K::Upgrade => { bad!(Weak, "upgrade() gave {r:?}"); true } K::IterNext => { bad!(IterRc, "next() gave {r:?}"); true } _ => false };
                if !t { bad!(Shape, "{:?} gave {r:?}", o.k); }
            }
            if i >= watch && !sup::failed() { real.check(&st, &mut h); }
            if sup::failed() { break; }
        }
        sup::digest(h.0);
        if sup::failed() {
            // leave broken structures alone
            let Real { hs, ws, its } = real;
            drop(its); drop(hs); drop(ws);
            return;
        }
        // The end: strong handles in one of several orders, checking who lives on after each.
        if ending % 2 == 1 { while !real.ws.is_empty() { real.ws.pop(); st.step(&op(K::DropW, st.ws.len() - 1, 0), shapes); } }
        if ending / 2 % 2 == 1 { while !real.its.is_empty() { real.its.pop(); st.step(&op(K::IterDrop, st.its.len() - 1, 0), shapes); } }
        while !real.hs.is_empty() && !sup::failed() {
            let i = if ending / 4 % 2 == 1 { 0 } else { real.hs.len() - 1 };
            real.hs.remove(i);
            st.step(&op(K::DropH, i, 0), shapes);
            real.check(&st, &mut h);
        }
        let Real { hs, ws, its } = real;
        drop(hs); drop(its); drop(ws);
    });
}

pub fn describe(ops: &[Op], shapes: &[S]) -> String {
    let mut st = St::default();
    let mut out = vec![];
    for o in ops {
        let h = o.h as usize;
        let me = if matches!(o.k, K::IterNext | K::IterClone | K::IterDrop) { format!("iter#{h}") }
            else if matches!(o.k, K::Upgrade | K::DropW) { format!("weak({})", st.ws[h]) }
            else if h < st.hs.len() { format!("rc({})", st.hs[h]) } else { String::new() };
        let t = |x: u16| { let (s, p) = operand_tree(x); format!("{}{}", if p { "contiguous " } else { "" }, s.text()) };
        out.push(match o.k {
            K::Root => format!("RcNode::from({}) as nodes {}..", t(o.x), st.n.len()),
            K::Build => format!("RcNode::from({} built {:?})", shapes[o.x as usize].text(), KINDS[o.y as usize]),
            K::PushFront | K::PushBack | K::PrevSib | K::NextSib => format!("{me}.{:?}({}) as {}..", o.k, t(o.x), st.n.len()),
            K::Prepend | K::Append => format!("{me}.{:?}([{}]) as {}..", o.k, shape::forest_text(&operand_forest(o.x).0), st.n.len()),
            K::Extend => format!("{me}.extend([{}, {}]) as {}..", t(0), t(o.x), st.n.len()),
            K::Get => format!("{me}.iter_rc().nth({})", o.x),
            k => format!("{me}.{k:?}()"),
        });
        st.step(o, shapes);
    }
    out.join("; ")
}

pub struct Bounds { pub spaces: Vec<Lim>, pub pairs: Vec<Lim>, pub shape: usize, pub scaled: Vec<usize>, pub wide: usize, pub many: usize }

pub fn explore<X: Datum>(run: &mut Run, tag: &str, b: &Bounds) {
    let mut shapes = shape::trees_upto(b.shape);
    for &n in &b.scaled { shapes.extend(shape::scaled(n).into_iter().map(|x| x.1)); }
    let shapes = &shapes[..];
    let search = |l: &Lim| {
        let root = St::default();
        let mut seen: HashMap<Vec<u16>, u32> = HashMap::new();
        seen.insert(root.key(), 0);
        let mut parent = vec![(u32::MAX, op(K::Root, 0, 0))];
        let mut first = vec![0u64];
        let mut ops: Vec<Vec<Op>> = vec![];
        let mut front = vec![root];
        let mut idx = 0u32;
        let mut depth = 0;
        while !front.is_empty() {
            let mut next = vec![];
            for s in front {
                let os = s.ops(l);
                for o in &os {
                    let mut s2 = s.clone();
                    s2.step(o, shapes);
                    if s2.n.len() > 100 { continue; }
                    if seen.insert(s2.key(), parent.len() as u32).is_none() {
                        parent.push((idx, *o));
                        next.push(s2);
                    }
                }
                first.push(first.last().unwrap() + os.len() as u64);
                ops.push(os);
                idx += 1;
            }
            depth += 1;
            front = next;
        }
        (parent, first, ops, depth)
    };
    fn history(parent: &[(u32, Op)], mut s: usize) -> Vec<Op> {
        let mut v = vec![];
        while s != 0 { v.push(parent[s].1); s = parent[s].0 as usize; }
        v.reverse();
        v
    }
    for l in &b.spaces {
        let (parent, first, ops, depth) = search(l);
        run.states += ops.len() as u64;
        let hist = |i: u64| {
            let s = first.partition_point(|&f| f <= i) - 1;
            let mut h = history(&parent, s);
            h.push(ops[s][(i - first[s]) as usize]);
            h
        };
        run.explore(&format!("{tag}handles-n{}h{}w{}i{}", l.n, l.h, l.w, l.i),
            &format!("every operation in each of the {} states of at most {} alive nodes, {} handles, {} weak handles, {} iterators (depth {depth})", ops.len(), l.n, l.h, l.w, l.i),
            *first.last().unwrap(),
            &|i| { let h = hist(i); run_history::<X>(&h, h.len() - 1, i % 8, shapes) },
            &|i| describe(&hist(i), shapes));
    }
    for l in &b.pairs {
        let (parent, _, ops, _) = search(l);
        let mut cases: Vec<(u32, u16, u16)> = vec![];
        for s in 0..ops.len() {
            let mut base = St::default();
            for o in history(&parent, s) { base.step(&o, shapes); }
            for (j, o) in ops[s].iter().enumerate() {
                let mut s2 = base.clone();
                s2.step(o, shapes);
                for k in 0..s2.ops(l).len() { cases.push((s as u32, j as u16, k as u16)); }
            }
        }
        let hist = |i: u64| {
            let (s, j, k) = cases[i as usize];
            let mut h = history(&parent, s as usize);
            let mut st = St::default();
            for o in &h { st.step(o, shapes); }
            h.push(ops[s as usize][j as usize]);
            st.step(&h[h.len() - 1], shapes);
            h.push(st.ops(l)[k as usize]);
            h
        };
        run.explore(&format!("{tag}handle-pairs-n{}h{}w{}i{}", l.n, l.h, l.w, l.i), "every pair of consecutive operations from every state", cases.len() as u64,
            &|i| { let h = hist(i); run_history::<X>(&h, h.len() - 1, i % 8, shapes) },
            &|i| describe(&hist(i), shapes));
    }
    // Handles deep inside of every shape, and of some larger ones.
    let small = shape::trees_upto(b.shape).len();
    for large in [false, true] {
    let mut cases: Vec<Vec<Op>> = vec![];
    for (a, s) in shapes.iter().enumerate() {
        if (a >= small) != large { continue; }
        let mut lab = 0;
        let m = model::label(s, &mut lab);
        let paths: Vec<Vec<u16>> = if large { some_paths(&m) } else { m.paths().into_iter().map(|p| p.into_iter().map(|i| i as u16).collect()).collect() };
        for kind in 0..KINDS.len() as u8 {
            let base = Op { k: K::Build, h: 0, x: a as u16, y: kind };
            // go down to a path; the handles on the way are kept until the end or dropped at once
            let down = |p: &[u16], st: &mut St, h: &mut Vec<Op>| {
                let mut at = 0usize;
                for (d, &i) in p.iter().enumerate() {
                    let o = op(K::Get, at, i);
                    st.step(&o, shapes);
                    h.push(o);
                    let new = st.hs.len() - 1;
                    if d > 0 {
                        let o = op(K::DropH, at, 0);
                        st.step(&o, shapes);
                        h.push(o);
                        at = new - 1;
                    } else { at = new; }
                }
                at
            };
            for p in &paths {
                let mut st = St::default();
                let mut h = vec![base];
                st.step(&base, shapes);
                let at = down(p, &mut st, &mut h);
                let mut eds: Vec<Op> = vec![];
                for k in [K::PushFront, K::PushBack, K::PrevSib, K::NextSib] { eds.push(op(k, at, 0)); eds.push(op(k, at, 1)); }
                for k in [K::Prepend, K::Append] { for x in 0..3 { eds.push(op(k, at, x)); } }
                for k in [K::PopFront, K::PopBack, K::Detach, K::Downgrade, K::IterNew, K::Parent, K::Front, K::Back, K::Extend] { eds.push(op(k, at, 0)); }
                for e in eds {
                    let mut h2 = h.clone();
                    let mut s2 = st.clone();
                    h2.push(op(K::WeakAll, 0, 0));
                    s2.step(&h2[h2.len() - 1], shapes);
                    h2.push(e);
                    s2.step(&e, shapes);
                    if e.k == K::IterNew && !s2.its[0].is_empty() { h2.push(op(K::IterNext, 0, 0)); s2.step(&h2[h2.len() - 1], shapes); }
                    h2.push(op(K::DropH, 0, 0)); // the root goes, what is held stays
                    s2.step(&h2[h2.len() - 1], shapes);
                    if e.k == K::Downgrade {
                        h2.push(op(K::Upgrade, s2.ws.len() - 1, 0));
                        s2.step(&h2[h2.len() - 1], shapes);
                    }
                    cases.push(h2);
                }
                // two nodes held while the root goes
                if kind < 4 && s.count() <= 5 {
                    for q in &paths {
                        if q <= p { continue; }
                        let mut h2 = h.clone();
                        let mut s2 = st.clone();
                        down(q, &mut s2, &mut h2);
                        for k in [K::Downgrade, K::IterNew] {
                            let o = op(k, s2.hs.len() - 1, 0);
                            h2.push(o);
                            s2.step(&o, shapes);
                        }
                        let o = op(K::DropH, 0, 0);
                        h2.push(o);
                        cases.push(h2);
                    }
                }
            }
        }
    }
    let (name, what) = if large {
        if cases.is_empty() { continue; }
        ("handle-scaled", format!("the same with stars, chains, combs, brushes and binary trees of {:?} nodes, at their first, second, middle and last children", b.scaled))
    } else {
        ("handle-shapes", format!("every tree of at most {} nodes in {} storage forms: weak handles to all nodes, handles to every node (and pair of nodes), every operation there, then the root goes", b.shape, KINDS.len()))
    };
    run.explore(&format!("{tag}{name}"), &what, cases.len() as u64,
        &|i| run_history::<X>(&cases[i as usize], if large { cases[i as usize].len() - 2 } else { 0 }, i % 8, shapes), &|i| describe(&cases[i as usize], shapes));
    }
    iterators::<X>(run, tag, b.wide);
    many::<X>(run, tag, b.many);
}
fn some_paths(m: &M) -> Vec<Vec<u16>> {
    fn pick(m: &[M], p: &mut Vec<u16>, out: &mut Vec<Vec<u16>>) {
        if m.is_empty() { return; }
        let n = m.len();
        let mut ix = vec![0, 1.min(n - 1), n / 2, n - 1];
        ix.dedup();
        for i in ix {
            p.push(i as u16);
            let d = p.len();
            if d < 4 || m[i].kids.is_empty() || d % 16 == 0 { out.push(p.clone()); }
            if i == 0 || i == n - 1 { pick(&m[i].kids, p, out); }
            p.pop();
        }
    }
    let mut out = vec![vec![]];
    pick(&m.kids, &mut vec![], &mut out);
    if out.len() > 40 { let k = out.len() / 20; let mut i = 0; out.retain(|_| { i += 1; i < 20 || i % k == 0 }); }
    out
}

/// iter_rc() over wide nodes, with edits at any moment.
fn iterators<X: Datum>(run: &mut Run, tag: &str, wide: usize) {
    if wide == 0 { return; }
    // parent of d children; the iterator made; `at` steps; an operation on the parent or on a child; `more` steps; another one; the rest
    let edits: &[K] = &[K::PushFront, K::PushBack, K::Prepend, K::Append, K::PrevSib, K::NextSib, K::PopFront, K::PopBack, K::Detach, K::Extend, K::DropH, K::IterClone];
    let light = !tag.is_empty();
    let far: &[usize] = if light { &[17, 65] } else if run.thorough() { &[15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 300] } else { &[16, 17, 33, 63, 64, 65, 129, 257] };
    let shapes: Vec<S> = (0..=wide).chain(far.iter().copied()).flat_map(|d| [S(vec![S::leaf(); d]), S((0..d).map(|i| S(vec![S::leaf(); i % 2])).collect())]).collect();
    let mut cases: Vec<Vec<Op>> = vec![];
    for (a, s) in shapes.iter().enumerate() {
        let d = s.0.len();
        let some: Vec<usize> = if d <= wide { (0..=d).collect() } else { vec![0, 1, d / 2, d - 1, d] };
        for kind in 0..KINDS.len() as u8 {
            for &at in &some {
                for &who in &some {
                    for &k in edits {
                        if k == K::IterClone && who > 0 { continue; }
                        let mut h = vec![Op { k: K::Build, h: 0, x: a as u16, y: kind }];
                        if who > 0 { h.push(op(K::Get, 0, who as u16 - 1)); }
                        h.push(op(K::IterNew, 0, 0));
                        for _ in 0..at { h.push(op(K::IterNext, 0, 0)); }
                        let h0 = (who > 0) as usize;
                        let x = match k { K::PushBack | K::NextSib | K::Extend => 1, K::Prepend | K::Append => 2, _ => 0 };
                        h.push(op(k, if k == K::IterClone { 0 } else { h0 }, x));
                        // with an iterator cloned, the two go on in turn
                        if k == K::IterClone { h.push(op(K::IterNext, 1, 0)); h.push(op(K::IterDrop, 0, 0)); }
                        // the parent goes too, half of the time
                        if (at + who) % 2 == 0 && !(k == K::DropH && h0 == 0) { h.push(op(K::DropH, 0, 0)); }
                        for _ in 0..2 { h.push(op(K::IterNext, 0, 0)); }
                        cases.push(h);
                    }
                }
            }
        }
    }
    let shapes = &shapes[..];
    run.explore(&format!("{tag}iter-wide"), &format!("iter_rc() over up to {wide} children (and {far:?}) in {} storage forms: {} edits of the parent or any child after any number of steps, then (every other time) the parent dropped", KINDS.len(), edits.len()), cases.len() as u64,
        &|i| run_history::<X>(&cases[i as usize], cases[i as usize].len() - 3, i % 8, shapes), &|i| describe(&cases[i as usize], shapes));
    // every sequence of consuming calls
    let depth = if light { 1 } else if run.thorough() { 4u64 } else { 3 };
    let degrees: Vec<usize> = (0..=if light { 4 } else { 6 }).chain(far.iter().copied()).collect();
    let seqs: Vec<(u64, u64)> = (0..=depth).flat_map(|k| (0..STEPS.pow(k as u32)).map(move |s| (s, k))).collect();
    let nk = KINDS.len() as u64;
    let per = seqs.len() as u64 * ENDS * nk * 3;
    let dec = move |i: u64| { let j = i % per; ((j % 3) as usize, (j / 3 % nk) as usize, j / 3 / nk % ENDS, (j / 3 / nk / ENDS) as usize, (i / per) as usize) };
    let ways = ["alone", "of a node with siblings", "the handles to the node dropped"];
    run.explore(&format!("{tag}iter-calls"), &format!("iter_rc() of nodes of {degrees:?} children in {} storage forms, {ways:?}: every sequence of {STEPS} consuming calls up to length {depth} x {ENDS} ways to consume the rest", KINDS.len()), per * degrees.len() as u64,
        &|i| { let (w, k, e, s, a) = dec(i); calls_case::<X>(degrees[a], k, w, seqs[s], e) },
        &|i| { let (w, k, e, s, a) = dec(i); format!("iter_rc() of {} children built {:?} {}: {}, then {}", degrees[a], KINDS[k], ways[w], step_text(seqs[s]), END_NAMES[e as usize]) });
}

fn calls_case<X: Datum>(d: usize, kind: usize, way: usize, (steps, len): (u64, u64), end: u64) {
    accounted(|| {
        let mut h = H::new();
        let me = M { lab: 1, st: 0, kids: (0..d).map(|i| M { lab: 10 + i as u32, st: 0, kids: if i % 3 == 1 { vec![M::leaf(7)] } else { vec![] } }).collect() };
        let w: Vec<_> = me.kids.iter().map(|m| key::<X>(m)).collect();
        let whole = if way == 1 { M { lab: 2, st: 0, kids: vec![M::leaf(3), me, M::leaf(4)] } } else { me };
        let root = RcNode::from(model::build::<X>(&whole, KINDS[kind]));
        let mut r = root.clone();
        if way == 1 { match root.iter_rc().nth(1) { Some(n) => r = n, None => { bad!(IterRc, "child 1 is missing"); return } } }
        let it = r.iter_rc();
        let keep = if way == 2 { drop((root, r)); None } else { Some((root, r)) };
        let mut again = it.clone();
        consume(Facet::IterRc, it, true, None, &w, steps, len, end, |x| x.lab(), &mut h);
        for (i, k) in w.iter().enumerate() {
            want!(IterRc, again.size_hint() == (d - i, Some(d - i)), "the clone: size_hint is {:?} with {} left", again.size_hint(), d - i);
            let x = again.next().map(|x| x.lab());
            want!(IterRc, x == Some(*k), "the clone: next gives {x:?}, not {k:?}");
        }
        want!(IterRc, again.next().is_none() && again.next().is_none(), "the clone goes on past the end");
        if let Some((_, r)) = &keep { want!(IterRc, r.degree() == d, "degree() is {}", r.degree()); }
        sup::stat(1, 1);
        sup::digest(h.0);
    })
}

/// So many handles that a narrow counter would overflow.
fn many<X: Datum>(run: &mut Run, tag: &str, max: usize) {
    let counts: Vec<usize> = [2, 16, 127, 128, 129, 255, 256, 257, 300, 1000, 32767, 32768, 65535, 65536, 65537, 70000].iter().copied().filter(|&n| n <= max).collect();
    if counts.is_empty() { return; }
    let s = S(vec![S::leaf(), S(vec![S::leaf(), S::leaf()])]);
    let mut lab = 0;
    let m = model::label(&s, &mut lab);
    let paths = m.paths();
    let ways = ["strong", "weak", "both", "siblings"];
    let n = (counts.len() * paths.len() * KINDS.len() * ways.len()) as u64;
    let parts = |i: u64| {
        let i = i as usize;
        (i % ways.len(), i / ways.len() % KINDS.len(), i / ways.len() / KINDS.len() % paths.len(), counts[i / ways.len() / KINDS.len() / paths.len()])
    };
    run.explore(&format!("{tag}many-handles"), &format!("{counts:?} strong, weak or both kinds of handles to every node of a small tree in {} storage forms, or as many trees of one buffer, then dropped in two halves", KINDS.len()), n,
        &|i| accounted(|| {
            let (way, kind, p, n) = parts(i);
            if way == 3 {
                // a star taken to pieces: every child a tree on its own, some held weakly
                let n = n.min(40000 / 4);
                if p > 0 { return; }
                let mut lab = 0;
                let star = model::label(&S(vec![S::leaf(); n]), &mut lab);
                let mut t = model::build::<X>(&star, KINDS[kind % 4]);
                if n > 300 && KINDS[kind % 4] == Kind::PiledKids { return; }
                let mut v = vec![];
                while let Some(k) = t.pop_front() { v.push(RcNode::from(k)); }
                drop(t);
                want!(Drop, reg::live() == n, "{} data are alive, not {n}", reg::live());
                let w: Vec<_> = v.iter().map(|r| r.downgrade()).collect();
                for (j, r) in v.iter().enumerate() { want!(Alive, r.data().val() == X::norm(j as u32 + 1), "tree {j} reads {}", r.data().val()); }
                v.truncate(n / 2);
                want!(Drop, reg::live() == n / 2, "{} data are alive, not {}", reg::live(), n / 2);
                for (j, w) in w.iter().enumerate() {
                    match w.upgrade() {
                        Some(r) => want!(Weak, j < n / 2 && r.data().val() == X::norm(j as u32 + 1), "weak handle {j} upgrades to {}", r.data().val()),
                        None => want!(Weak, j >= n / 2, "weak handle {j} does not upgrade"),
                    }
                }
                return;
            }
            let root = RcNode::from(model::build::<X>(&m, KINDS[kind]));
            let mut r = root.clone();
            for &j in &paths[p] { match r.iter_rc().nth(j as usize) { Some(k) => r = k, None => { bad!(Shape, "child {j} is missing"); return; } } }
            let me = m.at(&paths[p]);
            let below = me.count();
            let (mut hs, mut ws) = (vec![], vec![]);
            if way != 1 { for _ in 0..n { hs.push(r.clone()); } }
            if way != 0 { for _ in 0..n { ws.push(r.downgrade()); } }
            let check = |r: &RcNode<X>, live: usize, when: &str| {
                want!(Drop, reg::live() == live, "{when}: {} data are alive, not {live}", reg::live());
                if sup::failed() { return; }
                want!(Shape, r.data().val() == X::norm(me.lab), "{when}: data {}", r.data().val());
                want!(Count, r.node_count() == below && r.degree() == me.kids.len(), "{when}: node_count() {}, degree() {}", r.node_count(), r.degree());
            };
            check(&r, m.count(), "before");
            // the handle they were made from and the tree go
            if way == 1 {
                let up = ws[n - 1].upgrade();
                want!(Weak, up.is_some(), "{n} weak handles do not upgrade");
                if let Some(u) = &up { check(u, m.count(), "upgraded"); }
                drop(up);
                drop(r);
                drop(root);
                want!(Drop, reg::live() == 0, "{} data are alive with weak handles only", reg::live());
                want!(Weak, ws.iter().all(|w| w.upgrade().is_none()), "a weak handle upgrades after its node was dropped");
                ws.truncate(n / 2);
                want!(Weak, ws.iter().all(|w| w.upgrade().is_none()), "a weak handle upgrades after its node was dropped");
                return;
            }
            drop(r);
            drop(root);
            check(&hs[n / 2], below, "the root dropped");
            hs.truncate(n - n / 2);
            if sup::failed() { std::mem::forget(hs); return; }
            check(&hs[0], below, "half of them dropped");
            ws.truncate(n / 2 + 1);
            if let Some(w) = ws.last() {
                match w.upgrade() { Some(u) => check(&u, below, "upgraded"), None => bad!(Weak, "a weak handle does not upgrade") }
            }
            hs.truncate(1);
            check(&hs[0], below, "all but one dropped");
            hs.clear();
            want!(Drop, reg::live() == 0, "{} data are alive without a handle", reg::live());
            want!(Weak, ws.iter().all(|w| w.upgrade().is_none()), "a weak handle upgrades after its node was dropped");
        }),
        &|i| { let (way, kind, p, n) = parts(i); format!("{n} {} handles to {:?} of {} built {:?}", ways[way], paths[p], s.text(), KINDS[kind]) });
}
