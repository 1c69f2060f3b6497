// The bounded histories of threads which own parts of one contiguous buffer. Included by race-loom and
// race-miri, which differ in how they run the threads. Nothing here orders the threads (all atomics are relaxed).
use std::sync::atomic::{AtomicI32, AtomicUsize, Ordering::Relaxed};
use trees::{tr, walk::Visit, Forest, ForestWalk, RcNode, Tree, TreeWalk};

pub const IDS: usize = 64;
static LIVE: [AtomicI32; IDS] = [const { AtomicI32::new(0) }; IDS];
static NEXT: AtomicUsize = AtomicUsize::new(0);

/// A datum; its alignment marks the library's own allocations of nodes.
#[cfg_attr(not(miri), repr(align(256)))]
pub struct D { id: usize, pub val: u32, magic: u32 }
impl D {
    pub fn new(val: u32) -> D {
        let id = NEXT.fetch_add(1, Relaxed);
        assert!(id < IDS, "too many data");
        assert_eq!(LIVE[id].fetch_add(1, Relaxed), 0);
        D { id, val, magic: 0x600D }
    }
    pub fn read(&self) -> u32 {
        assert_eq!(self.magic, 0x600D, "datum read after its drop");
        self.val
    }
}
impl Drop for D {
    fn drop(&mut self) {
        assert_eq!(self.magic, 0x600D, "datum dropped twice");
        self.magic = 0xDEAD;
        assert_eq!(LIVE[self.id].fetch_sub(1, Relaxed), 1, "datum dropped twice");
    }
}
impl Clone for D { fn clone(&self) -> D { D::new(self.read() + 100) } }
impl std::fmt::Display for D { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.read()) } }

pub fn reset() {
    NEXT.store(0, Relaxed);
    for l in &LIVE { l.store(0, Relaxed) }
}
pub fn live() -> usize { LIVE.iter().filter(|l| l.load(Relaxed) != 0).count() }

/// Whether a type is Send or Sync, as values. The cursors may only be if their data are.
macro_rules! is {
    ($tr:ident, $t:ty) => {{
        #[allow(dead_code)]
        trait No { fn is(&self) -> bool { false } }
        #[allow(dead_code)]
        struct Of<T>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        impl<T: $tr> Of<T> { fn is(&self) -> bool { true } }
        impl<T> No for &Of<T> {}
        (&Of::<$t>(std::marker::PhantomData)).is()
    }};
}
pub fn markers() -> Vec<&'static str> {
    type NotSend = std::rc::Rc<u8>;
    type NotSync = std::cell::Cell<u8>;
    let mut v = vec![];
    if is!(Send, TreeWalk<NotSend>) { v.push("TreeWalk<Rc<u8>> is Send") }
    if is!(Send, ForestWalk<NotSend>) { v.push("ForestWalk<Rc<u8>> is Send") }
    if is!(Sync, TreeWalk<NotSync>) { v.push("TreeWalk<Cell<u8>> is Sync") }
    if is!(Sync, ForestWalk<NotSync>) { v.push("ForestWalk<Cell<u8>> is Sync") }
    if is!(Send, Tree<NotSend>) { v.push("Tree<Rc<u8>> is Send") }
    if is!(Send, Forest<NotSend>) { v.push("Forest<Rc<u8>> is Send") }
    if is!(Send, RcNode<u8>) { v.push("RcNode is Send") }
    if is!(Sync, RcNode<u8>) { v.push("RcNode is Sync") }
    if is!(Send, trees::WeakNode<u8>) { v.push("WeakNode is Send") }
    if is!(Sync, trees::WeakNode<u8>) { v.push("WeakNode is Sync") }
    if !is!(Send, TreeWalk<u8>) { v.push("TreeWalk<u8> is not Send") }
    if !is!(Send, ForestWalk<u8>) { v.push("ForestWalk<u8> is not Send") }
    v
}

/// What a thread owns. Send, because the cursors are.
pub enum Part { T(TreeWalk<D>), F(ForestWalk<D>) }
const _: fn() = || { fn send<X: Send>() {} send::<Part>() };

enum Own { T(Tree<D>), F(Forest<D>) }
fn own(p: Part) -> Own { match p { Part::T(w) => Own::T(Tree::from(w)), Part::F(w) => Own::F(Forest::from(w)) } }
fn part(o: Own) -> Part {
    match o {
        Own::T(t) => { let mut w = TreeWalk::from(t); w.forward(); Part::T(w) }
        Own::F(f) => { let mut w = ForestWalk::from(f); w.forward(); Part::F(w) }
    }
}

pub const SOURCES: usize = 6;
/// A tree or forest in one buffer.
fn source(k: usize) -> Own {
    let d = D::new;
    match k {
        0 => Own::T(Tree::from_tuple((d(0), d(1), d(2)))),
        1 => Own::T(Tree::from_tuple((d(0), (d(1), d(4)), d(2), d(3)))),
        2 => Own::F(Forest::from_tuple((d(1), d(2)))),
        3 => Own::F(Forest::from_tuple(((d(1), d(4)), (d(2), d(5), d(6)), d(3)))),
        4 => Own::T(Tree::from((tr(d(0)) / (tr(d(1)) / (tr(d(4)) / tr(d(5)))) / (tr(d(2)) / tr(d(6)))).into_bfs())),
        _ => Own::F(Forest::from((-tr(d(1)) - (tr(d(2)) / tr(d(5)))).into_bfs())),
    }
}
pub fn degree(k: usize) -> usize { [2, 3, 2, 3, 2, 2][k] }

fn nth(o: &mut Own, i: usize) -> Option<Tree<D>> {
    match o {
        Own::T(t) => t.iter_mut().nth(i).map(|mut n| n.detach()),
        Own::F(f) => f.iter_mut().nth(i).map(|mut n| n.detach()),
    }
}
fn degree_of(o: &Own) -> usize { match o { Own::T(t) => t.degree(), Own::F(f) => f.degree() } }
fn pop(o: &mut Own, front: bool) -> Option<Tree<D>> {
    match (o, front) {
        (Own::T(t), true) => t.pop_front(),
        (Own::T(t), false) => t.pop_back(),
        (Own::F(f), true) => f.pop_front(),
        (Own::F(f), false) => f.pop_back(),
    }
}

/// The source without the children of the mask, and those children.
pub fn cut(k: usize, mask: usize) -> Vec<Part> {
    let mut root = source(k);
    let mut pieces = vec![];
    for i in (0..degree(k)).rev() {
        if mask >> i & 1 == 1 {
            let last = degree_of(&root);
            let t = if i == 0 { pop(&mut root, true) } else if i + 1 == last { pop(&mut root, false) } else { nth(&mut root, i) };
            pieces.push(part(Own::T(t.unwrap())));
        }
    }
    let mut v = vec![part(root)];
    v.append(&mut pieces);
    v
}

pub const OPS: usize = 14;
pub const OP_NAMES: [&str; OPS] = ["read", "pop_front+drop", "pop_back+keep", "push_back", "abandon", "clone", "into_bfs", "rc", "drop", "glue", "rebuild", "detach", "edit", "steps"];

fn walk(p: &mut Part, out: &mut String) {
    use std::fmt::Write;
    let mut show = |v: Option<Visit<D>>| match v {
        Some(Visit::Begin(n)) => write!(out, "<{} ", n.data().read()).unwrap(),
        Some(Visit::Leaf(n)) => write!(out, "{} ", n.data().read()).unwrap(),
        Some(Visit::End(n)) => write!(out, "{}> ", n.data().read()).unwrap(),
        None => out.push('.'),
    };
    for _ in 0..40 {
        let more = match p {
            Part::T(w) => { let v = w.get(); let m = v.is_some(); show(v); w.forward(); m }
            Part::F(w) => { let v = w.get(); let m = v.is_some(); show(v); w.forward(); m }
        };
        if !more { break }
    }
}

/// One operation on the part at `at` (of those a thread owns); its result as text.
pub fn op(parts: &mut Vec<Part>, at: usize, op: usize, out: &mut String) {
    use std::fmt::Write;
    if at >= parts.len() { out.push_str("-;"); return }
    if op == 0 || op == 13 { // with the cursor as it is
        if op == 0 { walk(&mut parts[at], out) } else {
            let n = match &mut parts[at] {
                Part::T(w) => { let a = w.to_child(0).map(|v| v.node().data().read()); let b = w.to_sib(1).map(|v| v.node().data().read()); let c = w.to_parent().map(|v| v.node().data().read()); (a, b, c) }
                Part::F(w) => { let a = w.to_child(0).map(|v| v.node().data().read()); let b = w.to_sib(1).map(|v| v.node().data().read()); let c = w.to_parent().map(|v| v.node().data().read()); (a, b, c) }
            };
            write!(out, "{n:?}").unwrap();
        }
        out.push(';');
        return;
    }
    let mut o = own(parts.remove(at));
    let mut kept = None;
    let mut gone = false;
    match op {
        1 => drop(pop(&mut o, true)),
        2 => kept = pop(&mut o, false),
        3 => match &mut o { Own::T(t) => t.push_back(tr(D::new(50))), Own::F(f) => f.push_back(tr(D::new(50))) },
        4 => o = match o { Own::T(mut t) => Own::F(t.abandon()), Own::F(f) => { let mut g = Forest::new(); g.append(f); Own::F(g) } },
        5 => match &o {
            Own::T(t) => { let c = t.clone(); write!(out, "{c}").unwrap() }
            Own::F(f) => { let c = f.clone(); write!(out, "{c}").unwrap() }
        },
        6 => {
            gone = true;
            match std::mem::replace(&mut o, Own::F(Forest::new())) {
                Own::T(t) => for v in t.into_bfs().iter { write!(out, "{}/{} ", v.data.read(), v.size.descendants).unwrap() },
                Own::F(f) => for v in f.into_bfs().iter { write!(out, "{}/{} ", v.data.read(), v.size.descendants).unwrap() },
            }
        }
        7 => {
            gone = true;
            match std::mem::replace(&mut o, Own::F(Forest::new())) {
                Own::T(t) => {
                    let r = RcNode::from(t);
                    let weak = r.downgrade();
                    let child = r.back();
                    drop(r);
                    write!(out, "{}", weak.upgrade().is_some()).unwrap();
                    if let Some(c) = child { write!(out, " {} {}", c.data().read(), c.parent().is_some()).unwrap() }
                }
                Own::F(f) => for t in f { let w = RcNode::from(t).downgrade(); write!(out, "{}", w.upgrade().is_some()).unwrap() },
            }
        }
        8 => { gone = true; drop(std::mem::replace(&mut o, Own::F(Forest::new()))) }
        9 => if at < parts.len() {
            match (&mut o, own(parts.remove(at))) {
                (Own::T(t), Own::T(s)) => t.push_front(s),
                (Own::T(t), Own::F(s)) => t.append(s),
                (Own::F(t), Own::T(s)) => t.push_back(s),
                (Own::F(t), Own::F(s)) => t.prepend(s),
            }
        },
        10 => o = match o { Own::T(t) => Own::T(Tree::from(t.into_bfs())), Own::F(f) => Own::F(Forest::from(f.into_bfs())) },
        11 => kept = nth(&mut o, 1),
        12 => match &mut o {
            Own::T(t) => { t.root_mut().data_mut().val += 1000; for mut n in t.iter_mut() { n.data_mut().val += 1000 } }
            Own::F(f) => for mut n in f.iter_mut() { n.data_mut().val += 1000 },
        },
        _ => unreachable!(),
    }
    match &o {
        _ if gone => (),
        Own::T(t) => write!(out, "{} {}", t.root(), t.node_count()).unwrap(),
        Own::F(f) => write!(out, "{} {}", f, f.node_count()).unwrap(),
    }
    out.push(';');
    if !gone { parts.insert(at, part(o)) }
    if let Some(k) = kept { parts.push(part(Own::T(k))) }
}

/// Everything glued into one forest: its text. The parts go with it.
pub fn glue(parts: Vec<Part>) -> String {
    let mut all = Forest::new();
    for p in parts {
        match own(p) { Own::T(t) => all.push_back(t), Own::F(f) => all.append(f) }
    }
    let s = format!("{} {}", all, all.node_count());
    drop(all);
    s
}

/// One history: which source, cut where, which thread owns what and does what, and whether the threads
/// drop what they own or give it back.
#[derive(Clone, Debug)]
pub struct Case { pub source: usize, pub mask: usize, pub owner: Vec<usize>, pub ops: [Vec<(usize, usize)>; 3], pub back: bool }
impl Case {
    pub fn text(&self) -> String {
        let kids = (0..degree(self.source)).rev().filter(|i| self.mask >> i & 1 == 1).collect::<Vec<_>>();
        let mut s = format!("source {} without children {:?};", self.source, kids);
        for t in 0..3 {
            let own = self.owner.iter().enumerate().filter(|(_, &o)| o == t).map(|(i, _)| if i == 0 { "rest".to_string() } else { format!("child {}", kids[i - 1]) }).collect::<Vec<_>>();
            if own.is_empty() { continue }
            s += &format!(" thread {t} owns {own:?}: {:?};", self.ops[t].iter().map(|&(o, a)| format!("{}@{a}", OP_NAMES[o])).collect::<Vec<_>>());
        }
        s + if self.back { " all given back, glued, dropped" } else { " each drops the rest" }
    }
    /// Results of the threads' programs, run one after the other on trees of their own.
    pub fn alone(&self) -> Vec<String> {
        let mut out: Vec<String> = vec![];
        let mut rest = vec![];
        let mut mine: [Vec<Part>; 3] = Default::default();
        for (p, &o) in cut(self.source, self.mask).into_iter().zip(&self.owner) { mine[o].push(p) }
        for t in 0..3 {
            let mut s = String::new();
            let mut parts = std::mem::take(&mut mine[t]);
            for &(o, a) in &self.ops[t] { op(&mut parts, a, o, &mut s) }
            out.push(s);
            if self.back { rest.append(&mut parts) }
        }
        out.push(glue(rest));
        out
    }
}

/// All cases with `len` operations per thread (each of threads 1 and 2; the main thread does `main` operations).
pub struct Space { base: Vec<(usize, usize, Vec<usize>)>, lens: [usize; 3], wide: bool, ops: &'static [usize] }
impl Space {
    pub fn new(sources: &[usize], lens: [usize; 3], main_owns: bool, wide: bool, ops: &'static [usize]) -> Space {
        let mut base = vec![];
        for &s in sources {
            for mask in 1..1 << degree(s) {
                let n = 1 + (mask as usize).count_ones() as usize;
                for code in 0..3usize.pow(n as u32) {
                    let owner: Vec<usize> = (0..n).map(|i| code / 3usize.pow(i as u32) % 3).collect();
                    if !owner.contains(&1) || !owner.contains(&2) || owner.contains(&0) != main_owns { continue }
                    // threads 1 and 2 are alike: the first part owned by one of them is 1's
                    if owner.iter().find(|&&o| o != 0) != Some(&1) { continue }
                    base.push((s, mask, owner));
                }
            }
        }
        Space { base, lens, wide, ops }
    }
    fn per(&self, owned: usize, t: usize) -> usize { self.ops_of(owned).pow(self.lens[t] as u32) }
    /// Operations on the first part (on any of two, if wide), gluing only where there are two.
    fn ops_of(&self, owned: usize) -> usize { if owned == 0 { 1 } else if self.wide && owned > 1 { 2 * self.ops.len() } else { self.ops.len() } }
    fn size(&self, b: usize) -> u64 {
        let owner = &self.base[b].2;
        (0..3).map(|t| self.per(owner.iter().filter(|&&o| o == t).count(), t) as u64).product::<u64>() * 2
    }
    pub fn count(&self) -> u64 { (0..self.base.len()).map(|b| self.size(b)).sum() }
    pub fn case(&self, mut i: u64) -> Case {
        for b in 0..self.base.len() {
            let n = self.size(b);
            if i >= n { i -= n; continue }
            let (source, mask, owner) = self.base[b].clone();
            let back = i % 2 == 1;
            i /= 2;
            let mut ops: [Vec<(usize, usize)>; 3] = Default::default();
            for t in 0..3 {
                let owned = owner.iter().filter(|&&o| o == t).count();
                let k = self.ops_of(owned) as u64;
                for _ in 0..self.lens[t] {
                    let c = (i % k) as usize;
                    i /= k;
                    if owned > 0 { ops[t].push((self.ops[c % self.ops.len()], c / self.ops.len())) }
                }
            }
            return Case { source, mask, owner, ops, back };
        }
        panic!("no such case")
    }
}

const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
const KEY: &[usize] = &[1, 4, 7, 10];
/// One of each way to release nodes.
const RELEASE: &[usize] = &[1, 2, 4, 6, 7, 10];

/// The spaces of a tier, with their names.
pub fn spaces(set: &str) -> Vec<(&'static str, Space)> {
    let all: Vec<usize> = (0..SOURCES).collect();
    match set {
        "loom-quick" => vec![
            ("two-threads-1", Space::new(&[0, 2, 3, 4], [0, 1, 1], false, false, ALL)),
            ("two-threads-2", Space::new(&[0, 2], [0, 2, 2], false, false, RELEASE)),
            ("three-threads-1", Space::new(&[0, 2], [1, 1, 1], true, false, RELEASE)),
        ],
        "loom-thorough" => vec![
            ("two-threads-1", Space::new(&all, [0, 1, 1], false, true, ALL)),
            ("two-threads-2", Space::new(&[2], [0, 2, 2], false, false, ALL)),
            ("two-threads-2-all-sources", Space::new(&all, [0, 2, 2], false, false, RELEASE)),
            ("three-threads-1", Space::new(&[0, 2], [1, 1, 1], true, false, ALL)),
            ("three-threads-1-all-sources", Space::new(&[1, 3, 4, 5], [1, 1, 1], true, false, RELEASE)),
        ],
        "miri-quick" => vec![("schedules-two-threads-1", Space::new(&[0, 2, 5], [0, 1, 1], false, false, KEY))],
        _ => vec![
            ("schedules-two-threads-1", Space::new(&all, [0, 1, 1], false, false, KEY)),
            ("schedules-two-threads-1-all-operations", Space::new(&[2], [0, 1, 1], false, false, ALL)),
            ("schedules-three-threads-1", Space::new(&[0], [1, 1, 1], true, false, KEY)),
        ],
    }
}
