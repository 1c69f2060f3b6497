//! A program without std: it has a panic handler of its own, so it links only if the library leaves std out too.
#![cfg_attr(not(feature = "control"), no_std)]
#![no_main]
extern crate alloc;
use alloc::{string::ToString, vec::Vec};
use core::alloc::{GlobalAlloc, Layout};
use trees::{bfs, fr, tr, Forest, ForestWalk, RcNode, Tree, TreeWalk};

#[link(name = "c")]
extern "C" {
    fn aligned_alloc(align: usize, size: usize) -> *mut u8;
    fn free(p: *mut u8);
    fn abort() -> !;
}
struct Libc;
unsafe impl GlobalAlloc for Libc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let a = l.align().max(16); aligned_alloc(a, (l.size() + a - 1) / a * a) }
    unsafe fn dealloc(&self, p: *mut u8, _: Layout) { free(p) }
}
#[global_allocator]
static A: Libc = Libc;
#[cfg(not(feature = "control"))]
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! { unsafe { abort() } }
#[cfg(not(feature = "control"))]
#[no_mangle]
pub extern "C" fn rust_eh_personality() {}
#[cfg(not(feature = "control"))]
#[no_mangle]
pub extern "C" fn _Unwind_Resume() {}

/// Every part of the library once; each result as text.
#[no_mangle]
pub extern "C" fn main() -> i32 {
    let mut out: Vec<(alloc::string::String, &str)> = Vec::new();
    let mut t: Tree<i32> = Tree::from_tuple((0, (1, 2, 3), (4, 5, 6)));
    out.push((t.to_string(), "0( 1( 2 3 ) 4( 5 6 ) )"));
    t.push_back(tr(7) / tr(8));
    t.front_mut().unwrap().insert_prev_sib(tr(9));
    let cut = t.iter_mut().nth(1).unwrap().detach();
    out.push((cut.to_string(), "1( 2 3 )"));
    out.push((t.to_string(), "0( 9 4( 5 6 ) 7( 8 ) )"));
    let f: Forest<i32> = t.abandon();
    let f = f - &cut - (fr() - tr(1));
    out.push((f.to_string(), "( 9 4( 5 6 ) 7( 8 ) 1( 2 3 ) 1 )"));
    let g = Forest::from(f.bfs().map(|x| *x * 2));
    out.push((g.to_string(), "( 18 8( 10 12 ) 14( 16 ) 2( 4 6 ) 2 )"));
    let mut w = ForestWalk::from(g);
    while w.get().is_some() { w.forward(); }
    let g = Forest::from(w);
    let mut w = TreeWalk::from(cut);
    w.to_child(1);
    let cut = Tree::from(w);
    let r = RcNode::from(cut.clone());
    let k = r.front().unwrap();
    let weak = r.downgrade();
    for n in r.iter_rc() { *n.data_mut() += 1; }
    out.push((r.to_string(), "1( 3 4 )"));
    out.push((r.deep_clone().to_string(), "1( 3 4 )"));
    drop(r);
    if weak.upgrade().is_some() || k.parent().is_some() || cut == g.into_iter().next().unwrap() { return 2; }
    let v: Vec<bfs::Visit<i32>> = cut.into_bfs().iter.collect();
    if v.len() != 3 || v[0].size.descendants != 2 { return 3; }
    if out.iter().any(|(a, b)| a != b) { return 4; }
    0
}
