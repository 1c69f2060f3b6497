//! Histories of safe calls that are known to touch freed memory and are recorded in known-findings.txt.
//! `known K1` runs one of them; under AddressSanitizer the process ends with the sanitizer's exit code.
use trees::{fr, tr, Node, Tree};
type T = Tree<Box<u32>>;
fn t(n: u32) -> T { tr(Box::new(n)) }
fn two() -> T { t(0) / (fr() - t(1) - t(2)) }

#[inline(never)]
fn unbox<X>(b: Box<X>) -> X { *b }

fn main() {
    let k = std::env::args().nth(1).unwrap_or_default();
    let mut sum = 0u32;
    match k.as_str() {
        // Node::detach leaves its Pin<&mut Node> usable after the detached tree is gone.
        "K1" => {
            let mut a = two();
            let mut n = a.front_mut().unwrap();
            drop(n.detach());
            sum += **n.data();
        }
        // Nodes can be moved by safe code (Node: Unpin): the children's parent links stay behind.
        "K2" => {
            let mut a = two();
            let mut b = t(9) / (fr() - t(10));
            std::mem::swap(a.root_mut().get_mut(), b.root_mut().get_mut());
            drop(b);
            sum += **a.front().unwrap().parent().unwrap().data();
        }
        // The parent of an item of iter_mut gives shared references to its siblings, other items.
        "K3" => {
            let mut a = two();
            let mut it = a.iter_mut();
            let x = it.next().unwrap();
            let mut y = it.next().unwrap();
            let alias: &Node<Box<u32>> = x.parent().unwrap().back().unwrap();
            drop(y.detach());
            sum += **alias.data();
        }
        // A Node<T> value (Node::default()) is neither pinned nor frees its children.
        "K4" => {
            let mut n: Box<Node<Box<u32>>> = Box::new(Node::default());
            n.push_back(t(1));
            let moved = unbox(n);
            sum += moved.front().unwrap().parent().unwrap().degree() as u32;
        }
        // The same kinds of histories, done properly: not a finding.
        "none" => {
            let mut a = two();
            let d = a.front_mut().unwrap().detach();
            sum += **d.data() + **a.front().unwrap().parent().unwrap().data();
        }
        _ => std::process::exit(3),
    }
    println!("{k} ran to its end ({sum})");
}
