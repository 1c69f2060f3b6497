use mc::borrow::{explore, Bounds};
use mc::sup::Run;
fn main() {
    let mut run = Run::from_args();
    let b = if run.thorough() { Bounds { single: 8, pairs: 6 } } else { Bounds { single: 7, pairs: 5 } };
    explore(&mut run, "", &b);
    run.finish()
}
