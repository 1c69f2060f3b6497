// The prelude of the programs whose data are references: see life.py.
#![allow(warnings)]
extern crate trees;
use std::cell::{Ref, RefMut};
use std::pin::Pin;
use trees::{bfs, walk::Visit, Forest, ForestWalk, IntoIter, Iter, IterMut, IterRc, Node, RcNode, Tree, TreeWalk, WeakNode};
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct D(Box<u64>);
impl std::fmt::Display for D { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl Drop for D { fn drop(&mut self) { assert!(*self.0 < 100 || std::thread::panicking()); *self.0 = 1000; } }
fn d(x: u64) -> D { D(Box::new(x)) }
fn ts<'x>(s: &'x D) -> Tree<&'x D> { Tree::new(s) }
fn fs<'x>(_s: &'x D) -> Forest<&'x D> { Forest::new() }
fn fs3<'x>(s: &'x D) -> Forest<&'x D> { -ts(s) - ts(s) / ts(s) }
fn scattered<'x>(l: &'x D) -> Tree<&'x D> { Tree::new(l) / (Tree::new(l) / Tree::new(l) / Tree::new(l)) / (Tree::new(l) / Tree::new(l)) / Tree::new(l) }
fn piled<'x>(l: &'x D) -> Tree<&'x D> { Tree::<&'x D>::from(scattered(l).into_bfs()) }
fn piled_forest<'x>(l: &'x D) -> Forest<&'x D> { Forest::<&'x D>::from((-scattered(l) - ts(l)).into_bfs()) }
fn touch<T>(_x: T) {}
macro_rules! some { ( $e:expr ) => { match $e { Some(x) => x, None => return } } }
#[inline(never)]
fn see(x: &D) { assert!(*x.0 < 100, "freed"); }
fn down<'x>(n: &Node<&'x D>) { see(n.data()); for c in n.iter() { down(c) } }
fn look<'x>(n: &Node<&'x D>) { down(n); let mut p = n.parent(); while let Some(x) = p { see(x.data()); p = x.parent(); } touch(n.front()); touch(n.back()); touch(n.node_count()); }
pub trait Use { fn go(self); }
#[inline(never)]
fn use_<U: Use>(u: U) { u.go() }
impl<'x> Use for Tree<&'x D> { fn go(self) { look(self.root()) } }
impl<'x> Use for Forest<&'x D> { fn go(mut self) { for n in self.iter() { look(n) } for n in self.iter_mut() { look(&n) } } }
impl<'a, 'x> Use for &'a Node<&'x D> { fn go(self) { look(self) } }
impl<'a, 'x> Use for &'a mut Node<&'x D> { fn go(self) { look(self) } }
impl<'a, 'x> Use for Pin<&'a mut Node<&'x D>> { fn go(mut self) { look(&self); for c in self.iter_mut() { look(&c) } } }
impl<'a, 'x> Use for Iter<'a, &'x D> { fn go(self) { for n in self { look(n) } } }
impl<'a, 'x> Use for IterMut<'a, &'x D> { fn go(self) { for mut n in self { look(&n) } } }
impl<'a, 'x> Use for &'a &'x D { fn go(self) { see(self) } }
impl<'a, 'x> Use for &'a mut &'x D { fn go(self) { see(self); see(self) } }
impl<'a, 'x> Use for bfs::Splitted<Iter<'a, &'x D>> { fn go(self) { for v in self { see(v.data) } } }
impl<'a, 'x> Use for bfs::Splitted<IterMut<'a, &'x D>> { fn go(self) { for v in self { see(v.data);  } } }
impl<'x> Use for bfs::Splitted<IntoIter<&'x D>> { fn go(self) { for v in self { see(&v.data) } } }
impl<'x> Use for IntoIter<&'x D> { fn go(self) { for t in self { look(t.root()) } } }
impl<'x> Use for RcNode<&'x D> { fn go(self) { see(&self.data()); touch(self.to_string()); let mut p = self.parent(); while let Some(x) = p { see(&x.data()); p = x.parent(); } for c in self.iter_rc() { } touch(self.node_count()) } }
impl<'x> Use for IterRc<&'x D> { fn go(self) { for r in self { see(&r.data()) } } }
impl<'x> Use for WeakNode<&'x D> { fn go(self) { if let Some(r) = self.upgrade() { see(&r.data()) } } }
impl<'a, 'x> Use for Ref<'a, &'x D> { fn go(self) { see(&self) } }
impl<'a, 'x> Use for RefMut<'a, &'x D> { fn go(mut self) { see(&self); see(&self) } }
impl<'x> Use for TreeWalk<&'x D> { fn go(mut self) { while let Some(v) = self.get() { look(v.node()); self.forward() } } }
impl<'x> Use for ForestWalk<&'x D> { fn go(mut self) { while let Some(v) = self.get() { look(v.node()); self.forward() } } }
impl<'a, 'x> Use for Visit<'a, &'x D> { fn go(self) { look(self.node()) } }
pub fn main_(all: &[fn()]) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut panics = 0;
    let from = std::env::args().nth(1).map(|x| x.parse().unwrap()).unwrap_or(0);
    for (i, f) in all.iter().enumerate().skip(from) {
        use std::io::Write;
        let out = std::io::stdout();
        let mut out = out.lock();
        writeln!(out, "at {}", i).unwrap();
        drop(out);
        if let Err(e) = std::panic::catch_unwind(*f) {
            if e.downcast_ref::<&str>() == Some(&"freed") { println!("freed"); std::process::exit(98); }
            panics += 1;
        }
    }
    println!("done {} {}", all.len(), panics);
}
