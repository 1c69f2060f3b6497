use mc::reg::D;
use mc::sup::Run;
use mc::walk::{explore, Bounds};
fn main() {
    let mut run = Run::from_args();
    let b = if run.thorough() { Bounds { plain: 10, pairs: 7, scaled: vec![12, 24, 48, 70, 300], hist: vec![(5, 5), (4, 6)] } }
        else { Bounds { plain: 8, pairs: 6, scaled: vec![12, 24, 70, 300], hist: vec![(4, 5)] } };
    let what = run.p("what", 3, 3);
    explore::<D>(&mut run, "", &b, what);
    run.finish()
}
