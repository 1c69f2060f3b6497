//! Explorer of edits while iterating mutably (C10): every choice of an edit for each yielded child.
use crate::model::{self, accounted, FKind, Kind, M};
use crate::reg::Datum;
use crate::sup::{self, Run};
use crate::util::H;
use crate::{bad, want};
use std::pin::Pin;
use trees::{Forest, IterMut, Node, Tree};

pub const ACTS: u64 = 18;
const NAMES: [&str; ACTS as usize] = ["keep", "insert_prev_sib", "insert_next_sib", "insert both", "detach and keep", "detach and drop", "push_front", "push_back contiguous",
    "pop_front", "insert_prev_sib, detach", "insert_next_sib, detach", "insert_prev_sib(kept tree)", "insert_next_sib(kept tree)", "detach all its children", "append", "data_mut",
    "insert_next_sib contiguous o(o)", "insert_next_sib twice"];

#[derive(Clone, Copy)]
struct Block { place: u8, kind: u8, mask: u8, d: u16, stop: u16, perm: u8, size: u64, acts: u64, at: u16 }
/// The choices are written down one by one; or there is one, for every item; or one, for the item so numbered.
const EACH: u16 = 65535;
const SAME: u16 = 65534;
impl Block {
    fn choose(&self, k: usize, acts: &mut u64) -> u64 {
        match self.at { EACH => { let a = *acts % self.acts; *acts /= self.acts; a } SAME => *acts, x => if x as usize == k { *acts } else { 0 } }
    }
    fn parent(&self, i: u16) -> bool { if self.d > 8 { self.mask != 0 && i % 3 == 1 } else { self.mask >> i & 1 == 1 } }
}

struct W<X> { kids: Vec<M>, kept: Vec<(Tree<X>, M)>, lab: u32 }
impl<X: Datum> W<X> {
    fn fresh(&mut self) -> M { self.lab += 1; M::leaf(self.lab) }
    fn pos(&self, lab: u32) -> usize { self.kids.iter().position(|k| k.lab == lab).unwrap() }
    fn act(&mut self, mut item: Pin<&mut Node<X>>, lab: &mut u32, a: u64) {
        sup::stat(0, 1);
        let l = *lab;
        let prev = |w: &mut W<X>, item: &mut Pin<&mut Node<X>>| { let m = w.fresh(); item.insert_prev_sib(model::scattered(&m)); let i = w.pos(l); w.kids.insert(i, m); };
        let next = |w: &mut W<X>, item: &mut Pin<&mut Node<X>>| { let m = w.fresh(); item.insert_next_sib(model::scattered(&m)); let i = w.pos(l); w.kids.insert(i + 1, m); };
        let detach = |w: &mut W<X>, item: &mut Pin<&mut Node<X>>| { let t = item.detach(); let i = w.pos(l); let m = w.kids.remove(i); (t, m) };
        match a {
            1 => prev(self, &mut item),
            2 => next(self, &mut item),
            3 => { prev(self, &mut item); next(self, &mut item) }
            4 => { let x = detach(self, &mut item); self.kept.push(x); }
            5 => drop(detach(self, &mut item)),
            6 => { let m = self.fresh(); item.push_front(model::scattered(&m)); let i = self.pos(l); self.kids[i].kids.insert(0, m); }
            7 => { let m = self.fresh(); item.push_back(model::piled(&m)); let i = self.pos(l); self.kids[i].kids.push(m); }
            8 => {
                let t = item.pop_front();
                let i = self.pos(l);
                if self.kids[i].kids.is_empty() { want!(IterMut, t.is_none(), "pop_front on a childless item gave a tree"); }
                else {
                    let m = self.kids[i].kids.remove(0);
                    match t { Some(t) => self.kept.push((t, m)), None => bad!(IterMut, "pop_front on an item gave nothing") }
                }
            }
            9 => { prev(self, &mut item); let x = detach(self, &mut item); self.kept.push(x); }
            10 => { next(self, &mut item); let x = detach(self, &mut item); self.kept.push(x); }
            11 | 12 => if let Some((t, m)) = self.kept.pop() {
                let i = self.pos(l);
                if a == 11 { item.insert_prev_sib(t); self.kids.insert(i, m); } else { item.insert_next_sib(t); self.kids.insert(i + 1, m); }
            },
            13 => {
                let i = self.pos(l);
                let gone = std::mem::take(&mut self.kids[i].kids);
                let mut n = 0;
                for k in item.get_mut().iter_mut() {
                    let t = k.get_mut().detach();
                    match gone.get(n) { Some(m) => { let mut h = H::new(); model::check_tree(&t, m, &mut h) } None => bad!(IterMut, "too many children") }
                    n += 1;
                }
                want!(IterMut, n == gone.len(), "an iteration nested in the iteration yields {n} of {} children", gone.len());
            }
            14 => {
                let f = vec![self.fresh(), self.fresh()];
                item.append(model::piled_forest(&f));
                let i = self.pos(l);
                self.kids[i].kids.extend(f);
            }
            15 => { let m = self.fresh(); item.data_mut().set(m.lab); let i = self.pos(l); self.kids[i].lab = m.lab; *lab = m.lab; }
            16 => { let mut m = self.fresh(); m.kids.push(self.fresh()); item.insert_next_sib(model::piled(&m)); let i = self.pos(l); self.kids.insert(i + 1, m); }
            17 => { next(self, &mut item); next(self, &mut item) }
            _ => (),
        }
    }
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    let mut out = vec![];
    for p in perms(n - 1) { for i in 0..n { let mut q = p.clone(); q.insert(i, n - 1); out.push(q); } }
    out
}
fn iterate<'a, X: Datum>(mut it: IterMut<'a, X>, w: &mut W<X>, b: &Block, mut acts: u64) {
    let orig: Vec<M> = w.kids.clone();
    let d = orig.len();
    let mut items = vec![];
    for k in 0..b.stop as usize {
        want!(IterMut, it.size_hint() == (d - k, Some(d - k)) && it.len() == d - k, "before item {k}: size_hint is {:?}", it.size_hint());
        match it.next() {
            None => { bad!(IterMut, "iter_mut ends after {k} of {d} children"); return; }
            Some(item) => {
                if item.data().val() != X::norm(orig[k].lab) { bad!(IterMut, "item {k} is {}, not {}", item.data().val(), orig[k].lab); return; }
                if b.perm != 255 { items.push((Some(item), orig[k].lab)); continue; }
                let mut l = orig[k].lab;
                w.act(item, &mut l, b.choose(k, &mut acts));
            }
        }
    }
    if b.stop as usize == d {
        for _ in 0..2 {
            want!(IterMut, it.size_hint() == (0, Some(0)), "after the last item: size_hint is {:?}", it.size_hint());
            if let Some(n) = it.next() { bad!(IterMut, "iter_mut yields {} after its {d} children", n.data().val()); return; }
        }
    }
    if b.perm != 255 {
        for &i in &perms(d)[b.perm as usize] {
            let (item, mut l) = (items[i].0.take().unwrap(), items[i].1);
            w.act(item, &mut l, b.choose(i, &mut acts));
        }
    }
}
const KS: [Kind; 6] = model::KINDS;
const FS: [FKind; 5] = model::FKINDS;

fn case<X: Datum>(b: &Block, acts: u64, drain: u8) {
    accounted(|| {
        let mut lab = 0;
        let mut kids = vec![];
        for i in 0..b.d {
            lab += 1;
            let mut m = M::leaf(lab);
            if b.parent(i) { lab += 1; m.kids.push(M::leaf(lab)); }
            kids.push(m);
        }
        let mut w: W<X> = W { kids: kids.clone(), kept: vec![], lab: 2000 };
        let root = |k: Vec<M>| M { lab: 950, st: 0, kids: k };
        let outer = |k: Vec<M>| vec![M::leaf(960), root(k), M::leaf(961)];
        let mut h = H::new();
        match b.place {
            0 | 1 => {
                let mut t: Tree<X> = model::build(&root(kids), KS[b.kind as usize]);
                if b.place == 0 { iterate(t.iter_mut(), &mut w, b, acts) } else { iterate(t.root_mut().get_mut().iter_mut(), &mut w, b, acts) }
                let m = root(w.kids.clone());
                model::check_tree(&t, &m, &mut h);
                if !sup::failed() { model::drain_tree(t, &m, drain); }
            }
            2 => {
                let mut t: Tree<X> = model::build(&M { lab: 970, st: 0, kids: outer(kids) }, KS[b.kind as usize]);
                match t.iter_mut().nth(1) { Some(n) => iterate(n.get_mut().iter_mut(), &mut w, b, acts), None => bad!(Shape, "no child") }
                let m = M { lab: 970, st: 0, kids: outer(w.kids.clone()) };
                model::check_tree(&t, &m, &mut h);
                if !sup::failed() { model::drain_tree(t, &m, drain); }
            }
            3 => {
                let mut f: Forest<X> = model::build_forest(&kids, FS[b.kind as usize % 5]);
                iterate(f.iter_mut(), &mut w, b, acts);
                model::check_forest(&f, &w.kids, &mut h);
                if !sup::failed() { model::drain_forest(f, &w.kids, drain); }
            }
            _ => {
                let mut f: Forest<X> = model::build_forest(&outer(kids), FS[b.kind as usize % 5]);
                match f.iter_mut().nth(1) { Some(n) => iterate(n.get_mut().iter_mut(), &mut w, b, acts), None => bad!(Shape, "no child") }
                let m = outer(w.kids.clone());
                model::check_forest(&f, &m, &mut h);
                if !sup::failed() { model::drain_forest(f, &m, drain); }
            }
        }
        for (t, m) in w.kept.drain(..) {
            model::check_tree(&t, &m, &mut h);
            if !sup::failed() { model::drain_tree(t, &m, drain); }
        }
        sup::stat(1, 1);
        sup::digest(h.0);
    })
}
fn describe(b: &Block, mut acts: u64) -> String {
    let place = ["Tree::iter_mut", "root.iter_mut", "child.iter_mut", "Forest::iter_mut", "iter_mut of a forest's tree"][b.place as usize];
    let mut v = vec![];
    let n = if b.perm == 255 { b.stop } else { b.d };
    if b.at == EACH { for k in 0..n { v.push(NAMES[b.choose(k as usize, &mut acts) as usize].to_string()); } }
    else { v.push(format!("{} {}", NAMES[acts as usize], if b.at == SAME { "at every child".into() } else { format!("at child {}", b.at) })); }
    let order = if b.perm == 255 { String::new() } else { format!(", all items collected, then edited in order {:?}", perms(b.d as usize)[b.perm as usize]) };
    format!("{place}, {} children (with a child: mask {:b}), built {}; edits: {v:?}{}{order}", b.d, b.mask,
        if b.place < 3 { format!("{:?}", KS[b.kind as usize]) } else { format!("{:?}", FS[b.kind as usize % 5]) },
        if b.stop < b.d { format!(", stopped after {}", b.stop) } else { String::new() })
}
/// Every edit of up to `full` children everywhere; of `wide` ones in a selection; collected items of `coll`.
pub fn explore<X: Datum>(run: &mut Run, tag: &str, full: u16, wide: u16, coll: u16, scaled: &[usize]) {
    let mut blocks: Vec<Block> = vec![];
    let mut add = |place, kind, mask, d: u16, stop: u16, perm, acts: u64| {
        let n = if perm == 255 { stop } else { d };
        blocks.push(Block { place, kind, mask, d, stop, perm, size: acts.pow(n as u32), acts, at: EACH });
    };
    for d in 0..=full.max(wide) {
        let all = d <= full;
        for place in 0..5u8 {
            for kind in 0..if place < 3 { 6 } else { 5u8 } {
                for mask in 0..1u32 << d {
                    let m = mask as u8;
                    if !all && !(m == 0b10101 & ((1 << d) - 1) && kind < 2 && (place == 0 || place == 3)) { continue; }
                    for stop in 0..=d { if all || stop == d { add(place, kind, m, d, stop, 255, ACTS); } }
                }
            }
        }
    }
    for d in 2..=coll {
        for place in [0u8, 3] {
            for kind in 0..3u8 {
                for m in [0u8, 0b1010 & ((1 << d) - 1)] {
                    for perm in 0..perms(d as usize).len() as u8 { add(place, kind, m, d, d, perm, if d <= 3 { ACTS } else { 6 }); }
                }
            }
        }
    }
    for &d in scaled {
        let d = d as u16;
        for place in 0..5u8 {
            for kind in 0..if place < 3 { 6 } else { 5u8 } {
                for mask in [0, 1] {
                    for at in [0, 1, d / 2, d - 2, d - 1, SAME] {
                        blocks.push(Block { place, kind, mask, d, stop: d, perm: 255, size: ACTS, acts: ACTS, at });
                        if at == 1 { blocks.push(Block { place, kind, mask, d, stop: 3, perm: 255, size: ACTS, acts: ACTS, at }); }
                    }
                }
            }
        }
    }
    let mut first = vec![0u64];
    for b in &blocks { first.push(first.last().unwrap() + b.size); }
    let dec = |i: u64| { let k = first.partition_point(|&f| f <= i) - 1; (&blocks[k], i - first[k]) };
    run.states += blocks.len() as u64;
    run.explore(&format!("{tag}itermut-{full}-{wide}-{coll}"),
        &format!("every choice among {ACTS} edits for each yielded child, stopping anywhere, at most {full} children in 5 places and all storage forms, {wide} in some; items collected and edited in every order up to {coll}; {scaled:?} children, one edit at the first, second, middle or last one, or at all"),
        *first.last().unwrap(), &|i| { let (b, a) = dec(i); case::<X>(b, a, (i % model::DRAINS as u64) as u8) }, &|i| { let (b, a) = dec(i); describe(b, a) });
}
