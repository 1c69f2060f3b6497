#![allow(warnings)]
extern crate trees;
use std::cell::{Ref, RefMut};
use std::pin::Pin;
use trees::{bfs, walk::Visit, Forest, ForestWalk, IntoIter, Iter, IterMut, IterRc, Node, RcNode, Tree, TreeWalk, WeakNode};
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct D(Box<u64>);
impl std::fmt::Display for D { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl Drop for D { fn drop(&mut self) { assert!(*self.0 < 100 || std::thread::panicking()); *self.0 = 1000; } }
fn d(x: u64) -> D { D(Box::new(x)) }
fn tr() -> Tree<D> { Tree::new(d(9)) }
fn fr() -> Forest<D> { Forest::new() }
fn fr3() -> Forest<D> { -tr() - tr() / tr() }
fn scattered() -> Tree<D> { Tree::new(d(0)) / (Tree::new(d(1)) / Tree::new(d(2)) / Tree::new(d(3))) / (Tree::new(d(4)) / Tree::new(d(5))) / Tree::new(d(6)) }
fn piled() -> Tree<D> { Tree::<D>::from(scattered().into_bfs()) }
fn piled_forest() -> Forest<D> { Forest::<D>::from((-scattered() - tr()).into_bfs()) }
fn touch<T>(_x: T) {}
macro_rules! some { ( $e:expr ) => { match $e { Some(x) => x, None => return } } }
#[inline(never)]
fn see(x: &D) { assert!(*x.0 < 100, "freed"); }
fn down(n: &Node<D>) { see(n.data()); for c in n.iter() { down(c) } }
fn look(n: &Node<D>) { down(n); let mut p = n.parent(); while let Some(x) = p { see(x.data()); p = x.parent(); } touch(n.front()); touch(n.back()); touch(n.node_count()); }
pub trait Use { fn go(self); }
#[inline(never)]
fn use_<U: Use>(u: U) { u.go() }
impl Use for Tree<D> { fn go(self) { look(self.root()) } }
impl Use for Forest<D> { fn go(mut self) { for n in self.iter() { look(n) } for n in self.iter_mut() { look(&n) } } }
impl<'a> Use for &'a Node<D> { fn go(self) { look(self) } }
impl<'a> Use for &'a mut Node<D> { fn go(self) { *self.data_mut() = d(8); look(self) } }
impl<'a> Use for Pin<&'a mut Node<D>> { fn go(mut self) { *self.data_mut() = d(8); look(&self); for mut c in self.iter_mut() { *c.data_mut() = d(7); look(&c) } } }
impl<'a> Use for Iter<'a, D> { fn go(self) { for n in self { look(n) } } }
impl<'a> Use for IterMut<'a, D> { fn go(self) { for mut n in self { *n.data_mut() = d(7); look(&n) } } }
impl<'a> Use for &'a D { fn go(self) { see(self) } }
impl<'a> Use for &'a mut D { fn go(self) { see(self); *self = d(7); see(self) } }
impl<'a> Use for bfs::Splitted<Iter<'a, D>> { fn go(self) { for v in self { see(v.data) } } }
impl<'a> Use for bfs::Splitted<IterMut<'a, D>> { fn go(self) { for v in self { see(v.data); *v.data = d(7); } } }
impl Use for bfs::Splitted<IntoIter<D>> { fn go(self) { for v in self { see(&v.data) } } }
impl Use for IntoIter<D> { fn go(self) { for t in self { look(t.root()) } } }
impl Use for RcNode<D> { fn go(self) { see(&self.data()); touch(self.to_string()); let mut p = self.parent(); while let Some(x) = p { see(&x.data()); p = x.parent(); } for c in self.iter_rc() { *c.data_mut() = d(6); } touch(self.node_count()) } }
impl Use for IterRc<D> { fn go(self) { for r in self { see(&r.data()) } } }
impl Use for WeakNode<D> { fn go(self) { if let Some(r) = self.upgrade() { see(&r.data()) } } }
impl<'a> Use for Ref<'a, D> { fn go(self) { see(&self) } }
impl<'a> Use for RefMut<'a, D> { fn go(mut self) { see(&self); *self = d(5); see(&self) } }
impl Use for TreeWalk<D> { fn go(mut self) { while let Some(v) = self.get() { look(v.node()); self.forward() } } }
impl Use for ForestWalk<D> { fn go(mut self) { while let Some(v) = self.get() { look(v.node()); self.forward() } } }
impl<'a> Use for Visit<'a, D> { fn go(self) { look(self.node()) } }
pub fn main_(all: &[fn()]) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut panics = 0;
    let from = std::env::args().nth(1).map(|x| x.parse().unwrap()).unwrap_or(0);
    for (i, f) in all.iter().enumerate().skip(from) {
        use std::io::Write;
        let out = std::io::stdout();
        let mut out = out.lock();
        writeln!(out, "at {}", i).unwrap();
        drop(out);
        if let Err(e) = std::panic::catch_unwind(*f) {
            if e.downcast_ref::<&str>() == Some(&"freed") { println!("freed"); std::process::exit(98); }
            panics += 1;
        }
    }
    println!("done {} {}", all.len(), panics);
}
