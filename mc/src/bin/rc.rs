use mc::rc::{explore, Bounds, Lim};
use mc::reg::D;
use mc::sup::Run;
fn main() {
    let mut run = Run::from_args();
    let l = |n, h, w, i| Lim { n, h, w, i };
    let b = if run.thorough() {
        Bounds { spaces: vec![l(4, 3, 1, 1), l(3, 3, 2, 1), l(4, 2, 1, 2), l(5, 2, 1, 0)], pairs: vec![l(4, 2, 1, 0), l(3, 2, 1, 2)], shape: 8, scaled: vec![12, 24, 70, 300], wide: 8, many: 70000 }
    } else {
        Bounds { spaces: vec![l(3, 3, 1, 1), l(4, 2, 1, 1), l(3, 2, 1, 2)], pairs: vec![l(3, 2, 1, 1)], shape: 6, scaled: vec![12, 70, 300], wide: 6, many: 70000 }
    };
    explore::<D>(&mut run, "", &b);
    run.finish()
}
