use mc::cmp::{explore, Bounds};
use mc::sup::Run;
fn main() {
    let mut run = Run::from_args();
    let b = if run.thorough() { Bounds { partial: vec![(3, 4, true), (4, 4, false), (5, 3, false)], total: vec![(3, 4, true), (6, 2, false), (5, 3, false)], scaled: vec![12, 24, 48, 96] } }
        else { Bounds { partial: vec![(3, 4, true), (4, 4, false)], total: vec![(3, 3, true), (5, 2, false), (4, 3, false)], scaled: vec![12, 24, 48] } };
    explore(&mut run, "", &b);
    run.finish()
}
