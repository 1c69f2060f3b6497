use mc::bfs::{explore, Bounds};
use mc::reg::D;
use mc::sup::Run;
fn main() {
    let mut run = Run::from_args();
    let b = if run.thorough() { Bounds { n: 8, edit: 7, scaled: vec![12, 24, 48, 70, 300], len: 4, deg: 4, desc: 5, long: Some((6, 2, 5)), mutants: 8 } }
        else { Bounds { n: 6, edit: 5, scaled: vec![12, 24, 70, 300], len: 4, deg: 3, desc: 4, long: Some((5, 2, 4)), mutants: 6 } };
    let what = run.p("what", 7, 7);
    explore::<D>(&mut run, "", &b, what);
    run.finish()
}
