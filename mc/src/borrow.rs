//! Every operation on every node while borrows of nodes are held, and again after they ended (C08).
use crate::model::{self, accounted, Kind, KINDS, M};
use crate::reg::{Datum, D};
use crate::shape::{self, S};
use crate::sup::{self, panics, Run};
use crate::util::H;
use crate::{bad, want};
use std::cell::{Ref, RefMut};
use std::hash::Hash;
use trees::{RcNode, Tree};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum O {
    // reading the node
    IsRoot, Data, HasNoChild, Degree, NodeCount, Front, Back, Parent, IterRc,
    // the whole subtree
    Display, Debug, Hash, DeepClone, Eq, EqRev, Ne, Cmp, PartialCmp, Lt, EqSelf,
    // editing the node
    DataMut, PushFront, PushBack, PopFront, PopBack, Prepend, Append, InsPrev, InsNext, Detach, Extend, ExtendReading, ExtendEditing,
    // neither
    CloneH, Weak, Rest, RestWeak,
}
use O::*;
pub const OPS: [O; 37] = [IsRoot, Data, HasNoChild, Degree, NodeCount, Front, Back, Parent, IterRc, Display, Debug, Hash, DeepClone, Eq, EqRev, Ne, Cmp, PartialCmp, Lt, EqSelf,
    DataMut, PushFront, PushBack, PopFront, PopBack, Prepend, Append, InsPrev, InsNext, Detach, Extend, ExtendReading, ExtendEditing, CloneH, Weak, Rest, RestWeak];
#[derive(PartialEq)]
enum Class { Read, Deep, Edit, Links, Free }
fn class(o: O) -> Class {
    match o {
        IsRoot | Data | HasNoChild | Degree | NodeCount | Front | Back | Parent | IterRc => Class::Read,
        Display | Debug | Hash | DeepClone | Eq | EqRev | Ne | Cmp | PartialCmp | Lt | EqSelf => Class::Deep,
        DataMut => Class::Edit,
        CloneH | Weak | Rest | RestWeak => Class::Free,
        _ => Class::Links,
    }
}
/// A guard: node (by preorder index), mutable?
pub type G = (u8, bool);
#[derive(Clone)]
pub struct Case { pub a: u32, pub gs: Vec<G>, pub y: u8, pub o: O }

enum Guard<'a> { R(Ref<'a, D>), W(RefMut<'a, D>) }
impl<'a> Guard<'a> { fn val(&self) -> u32 { match self { Guard::R(r) => r.val(), Guard::W(r) => r.val() } } }

fn hash(x: &impl Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn handles(r: &RcNode<D>, out: &mut Vec<RcNode<D>>) {
    out.push(r.clone());
    for k in r.iter_rc() { handles(&k, out); }
}
/// All the trees of the moment, whole.
struct W { roots: Vec<M> }
impl W {
    fn path(&self, lab: u32) -> (usize, Vec<u16>) {
        for (i, r) in self.roots.iter().enumerate() {
            if let Some(p) = r.paths().into_iter().find(|p| r.at(p).lab == lab) { return (i, p); }
        }
        unreachable!()
    }
    fn node(&self, lab: u32) -> &M { let (i, p) = self.path(lab); self.roots[i].at(&p) }
    fn up(&self, lab: u32) -> Option<u32> { let (i, p) = self.path(lab); p.split_last().map(|(_, q)| self.roots[i].at(q).lab) }
    fn is_below(&self, lab: u32, anc: u32) -> bool { let mut f = false; self.node(anc).each(&mut |m| f |= m.lab == lab); f }
    /// Does the operation on node `lab` make sense there?
    fn fits(&self, o: O, lab: u32) -> bool { !matches!(o, InsPrev | InsNext | Detach) || self.up(lab).is_some() }
    fn edit(&mut self, o: O, lab: u32) {
        let (i, p) = self.path(lab);
        let mut out = None;
        let leaf = |l| M::leaf(l);
        match o {
            InsPrev | InsNext | Detach => {
                let (l, up) = p.split_last().unwrap();
                let k = &mut self.roots[i].at_mut(up).kids;
                let l = *l as usize;
                match o {
                    InsPrev => k.insert(l, leaf(60)),
                    InsNext => k.insert(l + 1, M { lab: 60, st: 0, kids: vec![leaf(61)] }),
                    _ => out = Some(k.remove(l)),
                }
            }
            _ => {
                let n = self.roots[i].at_mut(&p);
                match o {
                    DataMut => n.lab = 70,
                    PushFront => n.kids.insert(0, leaf(60)),
                    PushBack => n.kids.push(M { lab: 60, st: 0, kids: vec![leaf(61)] }),
                    PopFront => if !n.kids.is_empty() { out = Some(n.kids.remove(0)) },
                    PopBack => out = n.kids.pop(),
                    Prepend => { n.kids.splice(0..0, vec![leaf(60), leaf(61)]); }
                    Append | Extend | ExtendReading => n.kids.extend(vec![leaf(60), leaf(61)]),
                    ExtendEditing => { n.kids.insert(0, leaf(62)); n.kids.extend(vec![leaf(60), leaf(61)]); }
                    _ => (),
                }
            }
        }
        self.roots.extend(out);
    }
}
fn pair() -> Tree<D> { model::piled(&M { lab: 60, st: 0, kids: vec![M::leaf(61)] }) }
fn leaf() -> Tree<D> { Tree::new(D::mk(60)) }
fn two() -> trees::Forest<D> { model::piled_forest(&[M::leaf(60), M::leaf(61)]) }

/// Do it; compare what it returns. Err if it was refused.
fn act(o: O, r: &RcNode<D>, copy: &RcNode<D>, w: &W, lab: u32) -> Result<(), ()> {
    let n = w.node(lab).clone();
    let up = w.up(lab);
    let lab_of = |x: &Option<RcNode<D>>| x.is_some();
    panics(|| match o {
        IsRoot => want!(Borrow, r.is_root() == up.is_none(), "is_root() is {}", r.is_root()),
        Data => want!(Borrow, r.data().val() == n.lab, "data() is {}", r.data().val()),
        HasNoChild => want!(Borrow, r.has_no_child() == n.kids.is_empty(), "has_no_child() is {}", r.has_no_child()),
        Degree => want!(Borrow, r.degree() == n.kids.len(), "degree() is {}", r.degree()),
        NodeCount => want!(Borrow, r.node_count() == n.count(), "node_count() is {}", r.node_count()),
        Front => { let x = r.front(); want!(Borrow, lab_of(&x) == !n.kids.is_empty(), "front() is wrong"); }
        Back => { let x = r.back(); want!(Borrow, lab_of(&x) == !n.kids.is_empty(), "back() is wrong"); }
        Parent => { let x = r.parent(); want!(Borrow, lab_of(&x) == up.is_some(), "parent() is wrong"); }
        IterRc => { let c = r.iter_rc().count(); want!(Borrow, c == n.kids.len(), "iter_rc() yields {c}"); }
        Display => { let t = r.to_string(); want!(Borrow, t == n.text(), "prints {t}"); }
        Debug => { let t = format!("{r:?}"); want!(Borrow, t.starts_with(&n.lab.to_string()), "prints {t}"); }
        Hash => { let t = hash(r); want!(Borrow, t == hash(copy), "hashes differently from an equal node"); }
        DeepClone => { let t = r.deep_clone(); model::check_tree(&t, &n, &mut H::new()); }
        Eq => want!(Borrow, r == copy, "differs from an equal node"),
        EqRev => want!(Borrow, copy == r, "differs from an equal node"),
        Ne => want!(Borrow, !(r != copy), "differs from an equal node"),
        Cmp => want!(Borrow, r.cmp(copy).is_eq(), "differs from an equal node"),
        PartialCmp => want!(Borrow, copy.partial_cmp(r) == Some(std::cmp::Ordering::Equal), "differs from an equal node"),
        Lt => want!(Borrow, !(r < copy), "differs from an equal node"),
        EqSelf => want!(Borrow, *r == *r, "differs from itself"),
        DataMut => r.data_mut().set(70),
        PushFront => r.push_front(leaf()),
        PushBack => r.push_back(pair()),
        PopFront => { let x = r.pop_front(); want!(Borrow, lab_of(&x) == !n.kids.is_empty(), "pop_front() is wrong"); }
        PopBack => { let x = r.pop_back(); want!(Borrow, lab_of(&x) == !n.kids.is_empty(), "pop_back() is wrong"); }
        Prepend => r.prepend(two()),
        Append => r.append(two()),
        InsPrev => r.insert_prev_sib(leaf()),
        InsNext => r.insert_next_sib(pair()),
        Detach => r.detach(),
        Extend => r.clone().extend(two()),
        // the trees come from an iterator that looks at the very node, or edits it: nothing is borrowed then
        ExtendReading => {
            let mut i = 0;
            r.clone().extend(std::iter::from_fn(|| {
                want!(Borrow, r.data().val() == n.lab && r.degree() == n.kids.len() + i && r.node_count() == n.count() + i && r.has_no_child() == (n.kids.len() + i == 0), "while it is extended by {i}: data {}, degree {}, {} nodes", r.data().val(), r.degree(), r.node_count());
                want!(Borrow, r.back().is_some() == (n.kids.len() + i > 0) && (i == 0 || r.back().unwrap().data().val() == 59 + i as u32), "while it is extended by {i}: a wrong last child");
                i += 1;
                if i < 3 { Some(Tree::new(D::mk(59 + i as u32))) } else { None }
            }))
        }
        ExtendEditing => {
            let mut i = 0;
            r.clone().extend(std::iter::from_fn(|| {
                i += 1;
                let v = r.data().val();
                r.data_mut().set(v);
                if i == 2 { r.push_front(Tree::new(D::mk(62))); }
                if i < 3 { Some(Tree::new(D::mk(59 + i))) } else { None }
            }))
        }
        CloneH => drop(r.clone()),
        Weak => { let x = r.downgrade(); want!(Borrow, x.upgrade().is_some(), "a weak handle does not upgrade"); }
        Rest | RestWeak => (),
    })
}
fn check(hs: &[RcNode<D>], w: &W, h: &mut H, when: &str) {
    for m in &w.roots {
        let r = hs.iter().find(|r| r.data().val() == m.lab);
        match r {
            Some(r) => { model::check_node(unsafe { &*r.node() }, m, None, h); }
            None => bad!(Borrow, "{when}: node {} is gone", m.lab),
        }
        if sup::failed() { bad!(Borrow, "{when}: the trees are not what they should be: {}", m.text()); return; }
    }
}

fn run(c: &Case, s: &S, kind: Kind, end: u64) {
    accounted(|| {
        let mut next = 0;
        let m = model::label(s, &mut next);
        let mut h = H::new();
        let r = RcNode::from(model::build::<D>(&m, kind));
        let mut hs = vec![];
        handles(&r, &mut hs);
        drop(r);
        if hs.len() != m.count() { bad!(Shape, "{} of {} nodes", hs.len(), m.count()); return; }
        let gh: Vec<RcNode<D>> = c.gs.iter().map(|g| hs[g.0 as usize].clone()).collect();
        let mut w = W { roots: vec![m] };
        // mutable guards write first
        let mut guards = vec![];
        for (i, g) in c.gs.iter().enumerate() {
            if g.1 {
                let mut x = gh[i].data_mut();
                let lab = g.0 as u32;
                let (j, p) = w.path(lab);
                w.roots[j].at_mut(&p).lab = lab + 20;
                x.set(lab + 20);
                guards.push(Guard::W(x));
            } else { guards.push(Guard::R(gh[i].data())); }
        }
        let lab_of = |i: u8| if c.gs.iter().any(|g| g.0 == i && g.1) { i as u32 + 20 } else { i as u32 };
        let y = lab_of(c.y);
        sup::stat(0, 1);
        if matches!(c.o, Rest | RestWeak) {
            // only the guarded nodes stay
            let weak: Vec<_> = if c.o == RestWeak { hs.iter().map(|r| r.downgrade()).collect() } else { vec![] };
            hs.clear();
            let tops: Vec<u32> = c.gs.iter().map(|g| lab_of(g.0)).collect();
            let mut roots = vec![];
            for &t in &tops {
                if !roots.contains(&t) && !tops.iter().any(|&u| u != t && w.is_below(t, u)) { roots.push(t); }
            }
            let alive: usize = roots.iter().map(|&t| w.node(t).count()).sum();
            want!(Borrow, crate::reg::live() == alive, "{} data are alive, not {alive}", crate::reg::live());
            w.roots = roots.iter().map(|&t| w.node(t).clone()).collect();
            for (g, x) in c.gs.iter().zip(&guards) { want!(Borrow, x.val() == lab_of(g.0), "a borrow reads {}", x.val()); }
            // weak handles upgrade exactly if the node is alive, borrowed or not
            let upgrade = |alive: bool, w: &W, when: &str| for (i, x) in weak.iter().enumerate() {
                let i = i as u8;
                let lives = alive && w.roots.iter().any(|r| { let mut f = false; r.each(&mut |m| f |= m.lab == lab_of(i)); f });
                let got = x.upgrade();
                want!(Weak, got.is_some() == lives, "{when}: a weak handle to node {i}, which is {}, gives {}", if lives { "alive" } else { "gone" }, if got.is_some() { "a handle" } else { "none" });
                if let (Some(r), false) = (&got, c.gs.iter().any(|g| g.0 == i && g.1) && alive && when == "while it is borrowed") {
                    let v = panics(|| r.data().val());
                    want!(Weak, v == Ok(lab_of(i)), "{when}: the weak handle to node {i} upgrades to one which reads {v:?}");
                }
            };
            upgrade(true, &w, "while it is borrowed");
            drop(guards);
            check(&gh, &w, &mut h, "after the borrows ended");
            upgrade(true, &w, "after the borrows ended");
            drop(gh);
            upgrade(false, &w, "after all handles were dropped");
            sup::digest(h.0);
            return;
        }
        // an equal tree to compare with
        let copy = RcNode::from(model::piled::<D>(w.node(y)));
        let held = |m: bool| c.gs.iter().any(|g| g.0 == c.y && (g.1 || !m));
        let (wr, any) = (held(true), held(false));
        let inside = c.gs.iter().any(|g| g.1 && w.is_below(lab_of(g.0), y));
        let empty_pop = matches!(c.o, PopFront | PopBack) && w.node(y).kids.is_empty();
        // Some(true): must be refused; Some(false): must work; None: may be refused
        let refuse = match class(c.o) {
            Class::Read => Some(wr),
            Class::Deep => Some(inside),
            Class::Edit => Some(any),
            Class::Free => Some(false),
            _ if c.gs.is_empty() => Some(false),
            Class::Links => if wr { Some(true) } else if any { if empty_pop { None } else { Some(true) } } else { None },
        };
        let got = act(c.o, &hs[c.y as usize], &copy, &w, y);
        match (refuse, got.is_err()) {
            (Some(true), false) => bad!(Borrow, "{:?} of node {} was not refused", c.o, c.y),
            (Some(false), true) => bad!(Borrow, "{:?} of node {} was refused", c.o, c.y),
            _ => (),
        }
        for (g, x) in c.gs.iter().zip(&guards) { want!(Borrow, x.val() == lab_of(g.0), "after it, a borrow reads {}", x.val()); }
        // released in either order
        if end % 2 == 0 { guards.reverse(); }
        while guards.pop().is_some() {}
        drop(guards);
        if sup::failed() { for x in hs { std::mem::forget(x); } for x in gh { std::mem::forget(x); } return; }
        let mut now = y;
        if got.is_ok() { w.edit(c.o, y); if c.o == DataMut { now = 70; } sup::stat(2, 1); } else { sup::stat(3, 1); }
        check(&hs, &w, &mut h, "after the borrows ended");
        if sup::failed() { return; }
        if got.is_err() {
            let again = act(c.o, &hs[c.y as usize], &copy, &w, y);
            want!(Borrow, again.is_ok(), "{:?} of node {} is still refused after the borrows ended", c.o, c.y);
            if again.is_ok() { w.edit(c.o, y); if c.o == DataMut { now = 70; } }
            check(&hs, &w, &mut h, "after the borrows ended and it was repeated");
        }
        if sup::failed() { return; }
        // and every node can be borrowed again
        for x in &hs { let v = x.data().val(); x.data_mut().set(v); }
        want!(Borrow, hs[c.y as usize].data().val() == now, "node {} reads {}", c.y, hs[c.y as usize].data().val());
        sup::digest(h.0);
        sup::stat(1, 1);
        match end / 2 % 3 {
            0 => { drop(hs); drop(gh); }
            1 => { drop(gh); while hs.pop().is_some() {} }
            _ => {
                // take the trees back and apart
                let tops: Vec<RcNode<D>> = w.roots.iter().map(|m| hs.iter().find(|x| x.data().val() == m.lab).unwrap().clone()).collect();
                drop(gh);
                drop(hs);
                for (r, m) in tops.into_iter().zip(&w.roots) { model::drain_tree(unsafe { r.into_tree() }, m, (end / 6 % 10) as u8); }
            }
        }
    })
}

pub struct Bounds { pub single: usize, pub pairs: usize }
pub fn explore(run_: &mut Run, tag: &str, b: &Bounds) {
    for (pairs, n) in [(false, b.single), (true, b.pairs)] {
        let shapes = shape::trees_upto(n);
        let mut cases: Vec<Case> = vec![];
        let mut combos = 0;
        for (a, s) in shapes.iter().enumerate() {
            let m = model::label(s, &mut 0);
            let c = m.count() as u8;
            let w = W { roots: vec![m] };
            let mut gss: Vec<Vec<G>> = vec![];
            if !pairs {
                if c <= 3 { gss.push(vec![]); }
                for x in 0..c { gss.push(vec![(x, false)]); gss.push(vec![(x, true)]); gss.push(vec![(x, false), (x, false)]); }
            } else {
                for x in 0..c { for z in 0..c { if x != z { for k in 0..3 { if k == 2 || x < z || k == 1 { gss.push(vec![(x, k != 0), (z, k == 2)]); } } } } }
            }
            combos += gss.len() as u64;
            for gs in gss {
                for y in 0..c {
                    for o in OPS { if (!matches!(o, Rest | RestWeak) || y == 0 && !gs.is_empty()) && (o != ExtendEditing || gs.is_empty()) && w.fits(o, y as u32) { cases.push(Case { a: a as u32, gs: gs.clone(), y, o }); } }
                }
            }
        }
        run_.states += combos * 6;
        let per = if pairs { 6 } else { 12 };
        run_.explore(&format!("{tag}borrow-{}{n}", if pairs { "pairs-" } else { "" }), &format!("every tree of at most {n} nodes in 6 storage forms, every {} of one or the other kind, {} operations on every node meanwhile, and again afterwards", if pairs { "two borrows of different nodes" } else { "node borrowed, once or twice," }, OPS.len()), cases.len() as u64 * per,
            &|i| { let c = &cases[(i / per) as usize]; run(c, &shapes[c.a as usize], KINDS[(i % 6) as usize], if per == 12 { i / 6 + i / per } else { i / per + i }) },
            &|i| { let c = &cases[(i / per) as usize]; format!("{} as {:?}, borrowed (node, mutably): {:?}, {:?} of node {}", model::label(&shapes[c.a as usize], &mut 0).text(), KINDS[(i % 6) as usize], c.gs, c.o, c.y) });
    }
}
