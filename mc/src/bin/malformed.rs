//! Streams of visits that describe no tree, for a memory checker to watch.
use mc::bfs::{explore, Bounds};
use mc::reg::{A, D, Z};
use mc::sup::Run;
fn main() {
    let mut run = Run::from_args();
    let b = if run.thorough() { Bounds { n: 4, edit: 4, scaled: vec![12], len: 4, deg: 3, desc: 4, long: Some((5, 2, 3)), mutants: 7 } }
        else { Bounds { n: 4, edit: 4, scaled: vec![12], len: 3, deg: 4, desc: 5, long: Some((4, 2, 3)), mutants: 6 } };
    explore::<D>(&mut run, "", &b, 4);
    let b = Bounds { n: 3, edit: 3, scaled: vec![], len: 3, deg: 3, desc: 4, long: None, mutants: 5 };
    explore::<Z>(&mut run, "zero-sized ", &b, 4);
    explore::<A>(&mut run, "over-aligned ", &b, 4);
    run.finish()
}
