use mc::copy::explore;
use mc::reg::{A, B, D, U8, Z};
use mc::sup::Run;
fn main() {
    let mut run = Run::from_args();
    if run.thorough() {
        explore::<D>(&mut run, "", 7, &[12, 24, 70, 120, 300]);
        explore::<Z>(&mut run, "zero-sized-", 6, &[12]);
        explore::<A>(&mut run, "aligned-", 6, &[12]);
        explore::<B>(&mut run, "large-", 6, &[12]);
        explore::<U8>(&mut run, "byte-", 6, &[12]);
    } else {
        explore::<D>(&mut run, "", 6, &[12, 24, 70, 300]);
        explore::<Z>(&mut run, "zero-sized-", 5, &[]);
    }
    run.finish()
}
