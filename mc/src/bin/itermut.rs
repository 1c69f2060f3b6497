use mc::reg::D;
use mc::sup::Run;
fn main() {
    let mut run = Run::from_args();
    let (a, b, c) = (run.p("full", 3, 4) as u16, run.p("wide", 4, 5) as u16, run.p("coll", 3, 4) as u16);
    mc::itermut::explore::<D>(&mut run, "", a, b, c, &[12, 70, 300]);
    run.finish()
}
