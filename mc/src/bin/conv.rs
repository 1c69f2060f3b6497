use mc::reg::D;
use mc::sup::Run;
fn main() {
    let mut run = Run::from_args();
    let (a, b) = (run.p("n", 6, 8) as usize, run.p("own", 5, 7) as usize);
    mc::conv::explore::<D>(&mut run, "", a, b, &[12, 20, 70, 300]);
    run.finish()
}
