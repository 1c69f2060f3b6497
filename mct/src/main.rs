//! Every tuple notation within the bounds, compiled (C16), and what its visitors emit (C17).
use mc::model::{self, accounted, label, label_forest, M};
use mc::reg::{Datum, D};
use mc::shape::S;
use mc::sup::{self, Run};
use mc::util::H;
use mc::{bad, edits, want};
use std::marker::PhantomData;
use trees::tuple::{TupleForest, TupleTree, Visit};
use trees::{Forest, Size, Tree};

type Out = Vec<(u8, Option<u32>, Option<Size>)>;
enum Made { T(Tree<D>), F(Forest<D>) }
trait Notation {
    fn made(&self) -> Made;
    fn visit(&self, which: u8, out: &mut Out);
    fn below(&self, level: usize) -> usize;
    fn height(&self) -> usize;
    fn size(&self) -> Size;
}
struct Case { code: &'static str, forest: bool, n: Box<dyn Notation> }
struct TN<T, P>(fn() -> T, PhantomData<P>);
struct FN<T, P>(fn() -> T, PhantomData<P>);
type Hint<'a> = &'a mut dyn FnMut(Visit<D>, Size);
type Plain<'a> = &'a mut dyn FnMut(Visit<D>);
macro_rules! notation { ($w:ident, $tr:ident, $made:expr) => {
    impl<T: $tr<D, P>, P> Notation for $w<T, P> {
        fn made(&self) -> Made { $made(self.0) }
        fn visit(&self, which: u8, o: &mut Out) {
            if which % 2 == 1 {
                let mut f: Hint = &mut |v, s| o.push(rec(v, Some(s)));
                if which == 1 { $tr::<D, P>::preorder_with_size_hint((self.0)(), &mut f) } else { $tr::<D, P>::postorder_with_size_hint((self.0)(), &mut f) }
            } else {
                let mut f: Plain = &mut |v| o.push(rec(v, None));
                if which == 0 { $tr::<D, P>::preorder((self.0)(), &mut f) } else { $tr::<D, P>::postorder((self.0)(), &mut f) }
            }
        }
        fn below(&self, l: usize) -> usize { T::descendants(l) }
        fn height(&self) -> usize { T::height() }
        fn size(&self) -> Size { T::SIZE }
    }
} }
notation!(TN, TupleTree, |f: fn() -> T| Made::T(Tree::<D>::from_tuple(f())));
notation!(FN, TupleForest, |f: fn() -> T| Made::F(Forest::<D>::from_tuple(f())));
fn t<T: TupleTree<D, P> + 'static, P: 'static>(code: &'static str, f: fn() -> T) -> Case { Case { code, forest: false, n: Box::new(TN(f, PhantomData::<P>)) } }
fn f<T: TupleForest<D, P> + 'static, P: 'static>(code: &'static str, f: fn() -> T) -> Case { Case { code, forest: true, n: Box::new(FN(f, PhantomData::<P>)) } }
macro_rules! t { ($v:ident, $c:expr, $e:expr) => { $v.push(t($c, || $e)) } }
macro_rules! f { ($v:ident, $c:expr, $e:expr) => { $v.push(f($c, || $e)) } }
fn d(l: u32) -> D { D::mk(l) }
fn rec(v: Visit<D>, s: Option<Size>) -> (u8, Option<u32>, Option<Size>) {
    match v { Visit::Branch(x) => (0, Some(x.val()), s), Visit::Leaf(x) => (1, Some(x.val()), s), Visit::Frame => (2, None, s) }
}
#[inline(never)]
fn part0(v: &mut Vec<Case>) { include!(concat!(env!("OUT_DIR"), "/tuples0.rs")) }
#[inline(never)]
fn part1(v: &mut Vec<Case>) { include!(concat!(env!("OUT_DIR"), "/tuples1.rs")) }
#[inline(never)]
fn part2(v: &mut Vec<Case>) { include!(concat!(env!("OUT_DIR"), "/tuples2.rs")) }
#[inline(never)]
fn part3(v: &mut Vec<Case>) { include!(concat!(env!("OUT_DIR"), "/tuples3.rs")) }
#[inline(never)]
fn part4(v: &mut Vec<Case>) { include!(concat!(env!("OUT_DIR"), "/tuples4.rs")) }
#[inline(never)]
fn part5(v: &mut Vec<Case>) { include!(concat!(env!("OUT_DIR"), "/tuples5.rs")) }
#[inline(never)]
fn part6(v: &mut Vec<Case>) { include!(concat!(env!("OUT_DIR"), "/tuples6.rs")) }
#[inline(never)]
fn part7(v: &mut Vec<Case>) { include!(concat!(env!("OUT_DIR"), "/tuples7.rs")) }

fn shapes(code: &str) -> Vec<S> {
    let mut st: Vec<Vec<S>> = vec![vec![]];
    for c in code.chars() {
        if c == '(' { st.push(vec![]); } else { let k = st.pop().unwrap(); st.last_mut().unwrap().push(S(k)); }
    }
    st.pop().unwrap()
}
fn model_of(c: &Case) -> Vec<M> { label_forest(&shapes(c.code), &mut 0) }

fn seq(m: &M, post: bool, hint: bool, out: &mut Out) {
    let s = if hint { Some(Size { degree: m.kids.len(), descendants: m.count() - 1 }) } else { None };
    if m.kids.is_empty() { out.push((1, Some(m.lab), s)); return; }
    out.push(if post { (2, None, s) } else { (0, Some(m.lab), s) });
    for k in &m.kids { seq(k, post, hint, out); }
    out.push(if post { (0, Some(m.lab), s) } else { (2, None, s) });
}
fn at_depth(f: &[M], d: usize) -> usize { if d == 0 { f.len() } else { f.iter().map(|m| at_depth(&m.kids, d - 1)).sum() } }

fn visits(c: &Case) {
    accounted(|| {
        let f = model_of(c);
        for w in 0..4u8 {
            let (mut got, mut exp) = (vec![], vec![]);
            c.n.visit(w, &mut got);
            for m in &f { seq(m, w >= 2, w % 2 == 1, &mut exp); }
            sup::stat(0, 1);
            let name = ["preorder", "preorder_with_size_hint", "postorder", "postorder_with_size_hint"][w as usize];
            let at = got.iter().zip(&exp).position(|(a, b)| a != b).unwrap_or(got.len().min(exp.len()));
            want!(Visit, got == exp, "{name}: event {at} is {:?}, not {:?} (0 Branch, 1 Leaf, 2 Frame; label; size)", got.get(at), exp.get(at));
            let mut h = H::new();
            for g in &got { h.add(g.0 as u64 * 1000 + g.1.unwrap_or(999) as u64); }
            sup::digest(h.0);
        }
        let height = f.iter().map(|m| m.height()).max().unwrap_or(0);
        want!(Visit, c.n.height() == height, "height() is {}, not {height}", c.n.height());
        let n: usize = f.iter().map(|m| m.count()).sum();
        let size = if c.forest { Size { degree: f.len(), descendants: n } } else { Size { degree: f[0].kids.len(), descendants: n - 1 } };
        want!(Visit, c.n.size() == size, "SIZE is {:?}, not {size:?}", c.n.size());
        let base: &[M] = if c.forest { &f } else { &f[0].kids };
        for l in 0..height + 3 {
            let got = c.n.below(l);
            want!(Visit, got == at_depth(base, l), "descendants({l}) is {got}, not {}", at_depth(base, l));
        }
        sup::stat(1, 1);
    })
}
fn build(c: &Case, edit: Option<&(Vec<u16>, u8)>, drain: u8) {
    accounted(|| {
        let mut f = model_of(c);
        let n: usize = f.iter().map(|m| m.count()).sum();
        let mut h = H::new();
        sup::stat(0, 1);
        let mut out = None;
        match c.n.made() {
            Made::T(mut t) => {
                let m = &mut f[0];
                model::check_tree(&t, m, &mut h);
                want!(Drop, mc::reg::live() == n, "{} data are alive, not {n}", mc::reg::live());
                if sup::failed() { bad!(Tuple, "the tuple built {}", M::text(m)); std::mem::forget(t); return; }
                if let Some((p, e)) = edit { out = edits::tree(&mut t, m, p, *e, 500); model::check_tree(&t, m, &mut h); }
                if !sup::failed() { model::drain_tree(t, m, drain); }
            }
            Made::F(mut t) => {
                model::check_forest(&t, &f, &mut h);
                want!(Drop, mc::reg::live() == n, "{} data are alive, not {n}", mc::reg::live());
                if sup::failed() { bad!(Tuple, "the tuple built something else"); std::mem::forget(t); return; }
                if let Some((p, e)) = edit {
                    let mut m = M { lab: 9999, st: 0, kids: f };
                    out = edits::forest(&mut t, &mut m, p, *e, 500);
                    f = m.kids;
                    model::check_forest(&t, &f, &mut h);
                }
                if !sup::failed() { model::drain_forest(t, &f, drain); }
            }
        }
        if let Some((t, m)) = out { model::check_tree(&t, &m, &mut h); model::drain_tree(t, &m, drain); }
        if sup::failed() { bad!(Tuple, "a tree or forest built from a tuple misbehaves"); }
        sup::digest(h.0);
    })
}
fn main() {
    let mut run = Run::from_args();
    let mut v = vec![];
    part0(&mut v); part1(&mut v); part2(&mut v); part3(&mut v); part4(&mut v); part5(&mut v); part6(&mut v); part7(&mut v);
    let what = run.p("what", 3, 3);
    run.states += v.len() as u64;
    let name = |c: &Case| format!("{} written as a tuple", if c.forest { "forest " } else { "tree " }.to_string() + c.code);
    const B: &str = "trees of at most 7 nodes and forests of at most 6 nodes as nested tuples, with leaves written bare or as one-element tuples (every mixture up to 5 or 4 nodes), and every arity from 0 to 32 in trees and forests, with leaves or deeper subtrees in every third place";
    if what & 2 != 0 {
        run.explore("visitors", B, v.len() as u64, &|i| visits(&v[i as usize]), &|i| name(&v[i as usize]));
    }
    if what & 1 != 0 {
        run.explore("tuples", &format!("{B}; taken apart in 10 ways"), v.len() as u64 * 10, &|i| build(&v[(i / 10) as usize], None, (i % 10) as u8), &|i| name(&v[(i / 10) as usize]));
        let cap = if run.thorough() { usize::MAX } else { 40 };
        let mut cases: Vec<(u32, (Vec<u16>, u8))> = vec![];
        for (a, c) in v.iter().enumerate() {
            let f = model_of(c);
            let (m, n) = if c.forest { let n = f.iter().map(|m| m.count()).sum(); (M { lab: 9999, st: 0, kids: f }, n) } else { let n = f[0].count(); (f[0].clone(), n) };
            let all = edits::all(&m, c.forest);
            let step = if n <= 7 || cap == usize::MAX { 1 } else { (all.len() / cap).max(1) };
            for (j, e) in all.into_iter().enumerate() { if (j + a) % step == 0 { cases.push((a as u32, e)); } }
        }
        run.explore("edited", &format!("{B}; one edit anywhere (above 7 nodes, in the quick tier, some)"), cases.len() as u64, &|i| { let (a, e) = &cases[i as usize]; build(&v[*a as usize], Some(e), (i % 10) as u8) }, &|i| { let (a, e) = &cases[i as usize]; format!("{}, {}", name(&v[*a as usize]), edits::describe(&e.0, e.1)) });
    }
    let _ = label;
    run.finish()
}
