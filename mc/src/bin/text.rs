use mc::sup::Run;
use mc::text::explore;
fn main() {
    let mut run = Run::from_args();
    if run.thorough() { explore(&mut run, "", 8, &[(5, 4), (6, 3), (8, 2)], &[12, 24, 70, 300]) } else { explore(&mut run, "", 7, &[(4, 4), (5, 3), (7, 2)], &[12, 24, 70]) }
    run.finish()
}
