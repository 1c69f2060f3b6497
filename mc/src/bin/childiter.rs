use mc::reg::D;
use mc::sup::Run;
fn main() {
    let mut run = Run::from_args();
    let (a, b) = (run.p("degree", 6, 8) as u64, run.p("depth", 3, 4) as u64);
    mc::childiter::explore::<D>(&mut run, "", a, b, &[9, 17, 33, 65, 129, 257]);
    run.finish()
}
