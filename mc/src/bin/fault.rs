use mc::fault::{explore, Bounds};
use mc::sup::Run;
fn main() {
    let mut run = Run::from_args();
    let b = match (run.thorough(), run.asan) {
        (true, false) => Bounds { look: 7, shed: 7, rshed: 7, stream: 8, z: 2, scaled: vec![12, 14] },
        (true, true) => Bounds { look: 6, shed: 6, rshed: 6, stream: 8, z: 1, scaled: vec![12] },
        (false, false) => Bounds { look: 6, shed: 7, rshed: 6, stream: 8, z: 1, scaled: vec![12] },
        (false, true) => Bounds { look: 5, shed: 5, rshed: 5, stream: 6, z: 1, scaled: vec![] },
    };
    explore(&mut run, "", &b);
    run.finish()
}
