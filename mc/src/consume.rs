//! Every sequence of consuming calls on an iterator, and every way to consume the rest of it.
use crate::reg::Datum;
use crate::sup::{self, Facet};
use crate::util::H;
use trees::{RcNode, Tree};

pub const STEPS: u64 = 6;
pub const STEP_NAMES: [&str; STEPS as usize] = ["next", "nth(0)", "nth(1)", "nth(2)", "nth(5)", "take(2)"];
pub const ENDS: u64 = 16;
pub const END_NAMES: [&str; ENDS as usize] = ["next until None and twice more", "count", "last", "collect", "fold", "skip(1).collect", "step_by(2).collect", "nth(past the end), next", "max_by_key", "for_each", "position of the last", "all", "zip", "dropped", "min_by_key", "try_fold, rest"];

/// What an item is, as far as it is compared: its label and sizes.
pub type Key = [u64; 3];
pub trait Lab { fn lab(&self) -> Key; }
impl<'a, X: Datum> Lab for &'a trees::Node<X> { fn lab(&self) -> Key { [self.data().val() as u64, self.degree() as u64, self.node_count() as u64] } }
impl<'a, X: Datum> Lab for std::pin::Pin<&'a mut trees::Node<X>> { fn lab(&self) -> Key { [self.data().val() as u64, self.degree() as u64, self.node_count() as u64] } }
impl<X: Datum> Lab for Tree<X> { fn lab(&self) -> Key { [self.data().val() as u64, self.degree() as u64, self.node_count() as u64] } }
impl<X: Datum> Lab for RcNode<X> { fn lab(&self) -> Key { [self.data().val() as u64, self.degree() as u64, self.node_count() as u64] } }
/// The key the item for a node of the model has.
pub fn key<X: Datum>(m: &crate::model::M) -> Key { [X::norm(m.lab) as u64, m.kids.len() as u64, m.count() as u64] }

/// `hint`: whether size_hint() must be exact (else only valid); `len`: the iterator's own len().
#[allow(clippy::too_many_arguments)]
pub fn consume<I: Iterator>(f: Facet, mut it: I, hint: bool, len: Option<fn(&I) -> usize>, w: &[Key], mut steps: u64, depth: u64, end: u64, lab: fn(&I::Item) -> Key, h: &mut H) {
    macro_rules! bad { ($x:ident, $($a:tt)*) => { sup::fail(f, format_args!($($a)*)) } }
    macro_rules! want { ($x:ident, $c:expr, $($a:tt)*) => { if !$c { sup::fail(f, format_args!($($a)*)) } } }
    let mut at = 0usize;
    let n = w.len();
    let size = |it: &I, at: usize| {
        let (lo, hi) = it.size_hint();
        if hint { want!(ChildIter, (lo, hi) == (n - at, Some(n - at)), "size_hint is {:?} with {} left", (lo, hi), n - at); }
        else { want!(ChildIter, lo <= n - at && hi.map_or(true, |h| h >= n - at), "size_hint {:?} excludes the {} left", (lo, hi), n - at); }
        if let Some(f) = len { want!(ChildIter, f(it) == n - at, "len() is {} with {} left", f(it), n - at); }
    };
    let same = |got: Option<Key>, want: Option<Key>, what: &str| {
        if got != want { bad!(ChildIter, "{what} gives {got:?}, not {want:?}"); }
    };
    size(&it, 0);
    for _ in 0..depth {
        let s = steps % STEPS;
        steps /= STEPS;
        sup::stat(0, 1);
        let k = match s { 0 => { same(it.next().map(|x| lab(&x)), w.get(at).copied(), "next"); 0 } 1 => 0, 2 => 1, 3 => 2, 4 => 5, _ => 99 };
        if k == 99 {
            let c = it.by_ref().take(2).count();
            want!(ChildIter, c == 2.min(n - at), "take(2) gives {c} of {}", n - at);
            at = n.min(at + 2);
        } else {
            if s > 0 { same(it.nth(k).map(|x| lab(&x)), w.get(at + k).copied(), "nth"); }
            at = n.min(at + k + 1);
        }
        size(&it, at);
        if sup::failed() { return; }
    }
    sup::stat(0, 1);
    let rest = &w[at..];
    let list = |got: Vec<Key>, want: Vec<Key>, what: &str| if got != want { bad!(ChildIter, "{what} gives {got:?}, not {want:?}"); };
    match end {
        0 => {
            for x in rest { same(it.next().map(|x| lab(&x)), Some(*x), "next"); at += 1; size(&it, at); }
            for _ in 0..3 { same(it.next().map(|x| lab(&x)), None, "next after the end"); size(&it, n); }
        }
        1 => { let c = it.count(); want!(ChildIter, c == rest.len(), "count() is {c}, not {}", rest.len()); }
        2 => same(it.last().map(|x| lab(&x)), rest.last().copied(), "last"),
        3 => list(it.map(|x| lab(&x)).collect(), rest.to_vec(), "collect"),
        4 => list(it.fold(vec![], |mut v, x| { v.push(lab(&x)); v }), rest.to_vec(), "fold"),
        5 => list(it.skip(1).map(|x| lab(&x)).collect(), rest.iter().skip(1).copied().collect(), "skip(1)"),
        6 => list(it.step_by(2).map(|x| lab(&x)).collect(), rest.iter().step_by(2).copied().collect(), "step_by(2)"),
        7 => {
            same(it.nth(rest.len()).map(|x| lab(&x)), None, "nth past the end");
            size(&it, n);
            same(it.next().map(|x| lab(&x)), None, "next after nth past the end");
        }
        8 => same(it.max_by_key(|x| lab(x)).map(|x| lab(&x)), rest.iter().max().copied(), "max_by_key"),
        9 => { let mut v = vec![]; it.for_each(|x| v.push(lab(&x))); list(v, rest.to_vec(), "for_each"); }
        10 if rest.split_last().map_or(true, |(l, r)| !r.contains(l)) => { let l = rest.last().copied(); let p = it.position(|x| Some(lab(&x)) == l); want!(ChildIter, p == rest.iter().position(|&x| Some(x) == l), "position gives {p:?}"); same(it.next().map(|x| lab(&x)), None, "next behind the last"); }
        11 => { let mut c = 0; let b = it.all(|_| { c += 1; c < 3 }); want!(ChildIter, b == (rest.len() < 3), "all() is {b}"); at = n.min(at + 3); size(&it, at); same(it.next().map(|x| lab(&x)), w.get(at).copied(), "next after all()"); }
        12 => { let v: Vec<(usize, Key)> = (0..).zip(it.map(|x| lab(&x))).collect(); list(v.iter().map(|x| x.1).collect(), rest.to_vec(), "zip"); }
        14 => same(it.min_by_key(|x| lab(x)).map(|x| lab(&x)), rest.iter().min().copied(), "min_by_key"),
        15 => {
            let mut c = 0;
            let r = it.try_fold(0u64, |a, x| { c += 1; if c == 2 { Err(a + lab(&x)[0]) } else { Ok(a + lab(&x)[0]) } });
            let s: u64 = rest.iter().take(2).map(|x| x[0]).sum();
            want!(ChildIter, r == if rest.len() < 2 { Ok(s) } else { Err(s) }, "try_fold gives {r:?}");
            at = n.min(at + 2);
            size(&it, at);
            list(it.map(|x| lab(&x)).collect(), w[at..].to_vec(), "the rest after try_fold");
        }
        _ => (),
    }
    h.add(at as u64);
}

pub fn step_text((mut s, n): (u64, u64)) -> String {
    let mut v = vec![];
    for _ in 0..n { v.push(STEP_NAMES[(s % STEPS) as usize]); s /= STEPS; }
    format!("{v:?}")
}
