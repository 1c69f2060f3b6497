//! One edit at any node of a tree or forest: used after conversions, copies and rebuilds to see that the
//! result is as editable as any other.
use crate::bad;
use crate::model::{self, M};
use crate::reg::Datum;
use trees::{Forest, Node, RcNode, Tree};

pub const EDITS: u8 = 10;

pub fn at_mut<'a, X: Datum>(mut n: &'a mut Node<X>, path: &[u16]) -> Option<&'a mut Node<X>> {
    for &i in path { n = n.iter_mut().nth(i as usize)?.get_mut(); }
    Some(n)
}
pub fn at<'a, X: Datum>(mut n: &'a Node<X>, path: &[u16]) -> Option<&'a Node<X>> {
    for &i in path { n = n.iter().nth(i as usize)?; }
    Some(n)
}
/// Every (path, edit) that can be applied below this tree (or below a forest, seen as a root).
pub fn all(m: &M, forest: bool) -> Vec<(Vec<u16>, u8)> {
    let mut out = vec![];
    for p in m.paths() {
        for e in 0..EDITS {
            let n = m.at(&p);
            let ok = match e {
                2 | 3 => !n.kids.is_empty(),
                4 | 5 | 6 => !p.is_empty(),
                9 => !(forest && p.is_empty()),
                _ => true,
            };
            if ok { out.push((p.clone(), e)); }
        }
    }
    out
}
pub fn describe(p: &[u16], e: u8) -> String {
    let n = ["push_front(leaf)", "push_back(contiguous o(o))", "pop_front", "pop_back", "detach", "insert_prev_sib(leaf)", "insert_next_sib(contiguous o(o))", "append(o o)", "prepend(contiguous o o)", "data_mut"];
    format!("{} at {p:?}", n[e as usize])
}
pub fn labels(m: &mut M, lab: u32) { let mut l = lab; m.each_mut(&mut |n| { n.lab = l; l += 1; }); }
fn leaf(lab: u32) -> M { M::leaf(lab) }
fn pair(lab: u32) -> M { M { lab, st: 0, kids: vec![M::leaf(lab + 1)] } }
fn two(lab: u32) -> Vec<M> { vec![M::leaf(lab), M::leaf(lab + 1)] }

fn model_edit(m: &mut M, p: &[u16], e: u8, lab: u32) -> Option<M> {
    match e {
        4 | 5 | 6 => {
            let (l, up) = p.split_last().unwrap();
            let k = &mut m.at_mut(up).kids;
            match e {
                4 => Some(k.remove(*l as usize)),
                5 => { k.insert(*l as usize, leaf(lab)); None }
                _ => { k.insert(*l as usize + 1, pair(lab)); None }
            }
        }
        _ => {
            let n = m.at_mut(p);
            match e {
                0 => n.kids.insert(0, leaf(lab)),
                1 => n.kids.push(pair(lab)),
                2 => return Some(n.kids.remove(0)),
                3 => return n.kids.pop(),
                7 => n.kids.extend(two(lab)),
                8 => { n.kids.splice(0..0, two(lab)); }
                _ => n.lab = lab,
            }
            None
        }
    }
}
fn real_edit<X: Datum>(n: &mut Node<X>, e: u8, lab: u32) -> Option<Tree<X>> {
    match e {
        0 => n.push_front(model::scattered(&leaf(lab))),
        1 => n.push_back(model::piled(&pair(lab))),
        2 => return n.pop_front(),
        3 => return n.pop_back(),
        4 => return Some(n.detach()),
        5 => n.insert_prev_sib(model::scattered(&leaf(lab))),
        6 => n.insert_next_sib(model::piled(&pair(lab))),
        7 => n.append(model::build_forest(&two(lab), model::FKind::Pushed(model::Kind::Scattered))),
        8 => n.prepend(model::piled_forest(&two(lab))),
        _ => n.data_mut().set(lab),
    }
    None
}
/// Edit both; what was taken out must fit.
pub fn tree<X: Datum>(t: &mut Tree<X>, m: &mut M, p: &[u16], e: u8, lab: u32) -> Option<(Tree<X>, M)> {
    let out = model_edit(m, p, e, lab);
    match at_mut(t.root_mut().get_mut(), p) {
        Some(n) => both(real_edit(n, e, lab), out),
        None => { bad!(Shape, "the node at {p:?} cannot be reached"); None }
    }
}
pub fn forest<X: Datum>(f: &mut Forest<X>, m: &mut M, p: &[u16], e: u8, lab: u32) -> Option<(Tree<X>, M)> {
    let out = model_edit(m, p, e, lab);
    let got = if p.is_empty() {
        match e {
            0 => f.push_front(model::scattered(&leaf(lab))),
            1 => f.push_back(model::piled(&pair(lab))),
            2 => return both(f.pop_front(), out),
            3 => return both(f.pop_back(), out),
            7 => f.append(model::build_forest(&two(lab), model::FKind::Pushed(model::Kind::Scattered))),
            _ => f.prepend(model::piled_forest(&two(lab))),
        }
        None
    } else {
        match f.iter_mut().nth(p[0] as usize).and_then(|n| at_mut(n.get_mut(), &p[1..])) {
            Some(n) => real_edit(n, e, lab),
            None => { bad!(Shape, "the node at {p:?} cannot be reached"); return None; }
        }
    };
    both(got, out)
}
fn both<X: Datum>(got: Option<Tree<X>>, want: Option<M>) -> Option<(Tree<X>, M)> {
    match (got, want) {
        (Some(t), Some(m)) => Some((t, m)),
        (None, None) => None,
        (Some(_), None) => { bad!(Shape, "a tree came out of nothing"); None }
        (None, Some(m)) => { bad!(Shape, "node {} could not be taken out", m.lab); None }
    }
}
/// The same edits through a shared handle to the node at `p`; what was taken out, still shared.
pub fn shared<X: Datum>(n: &RcNode<X>, m: &mut M, p: &[u16], e: u8, lab: u32) -> Option<(RcNode<X>, M)> {
    let out = model_edit(m, p, e, lab);
    let mut got = None;
    match e {
        0 => n.push_front(model::scattered(&leaf(lab))),
        1 => n.push_back(model::piled(&pair(lab))),
        2 => got = n.pop_front(),
        3 => got = n.pop_back(),
        4 => { n.detach(); got = Some(n.clone()); }
        5 => n.insert_prev_sib(model::scattered(&leaf(lab))),
        6 => n.insert_next_sib(model::piled(&pair(lab))),
        7 => n.append(model::build_forest(&two(lab), model::FKind::Pushed(model::Kind::Scattered))),
        8 => n.prepend(model::piled_forest(&two(lab))),
        _ => n.data_mut().set(lab),
    }
    match (got, out) {
        (Some(t), Some(m)) => Some((t, m)),
        (None, None) => None,
        (Some(_), None) => { bad!(Shape, "a tree came out of nothing"); None }
        (None, Some(m)) => { bad!(Shape, "node {} could not be taken out", m.lab); None }
    }
}
