use mc::notation::{explore, Bounds};
use mc::reg::D;
use mc::sup::Run;
fn main() {
    let mut run = Run::from_args();
    let b = if run.thorough() { Bounds { two: 8, three: 4, scaled: 40 } } else { Bounds { two: 6, three: 3, scaled: 20 } };
    explore::<D>(&mut run, "", &b);
    run.finish()
}
