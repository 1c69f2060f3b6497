use mc::own::{explore, sizes, Bounds};
use mc::reg::D;
use mc::sup::Run;
fn main() {
    let mut run = Run::from_args();
    let b = if run.thorough() {
        Bounds { spaces: vec![(3, 3), (4, 3), (5, 2)], pairs: vec![(3, 3), (4, 2)], histories: vec![(3, 3, 4), (4, 2, 5)], shape: 9, fshape: 8, operand: 3, scaled: vec![12, 24, 48, 70, 300], follow: vec![(6, 5, 2), (4, 3, 3)] }
    } else {
        Bounds { spaces: vec![(3, 3), (4, 2)], pairs: vec![(3, 2)], histories: vec![(3, 3, 3)], shape: 6, fshape: 5, operand: 3, scaled: vec![12, 24, 70, 300], follow: vec![(5, 4, 2)] }
    };
    sizes(&mut run, 6);
    explore::<D>(&mut run, "", &b);
    run.finish()
}
