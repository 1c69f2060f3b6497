use mc::huge::{explore, Bounds};
use mc::sup::Run;
fn main() {
    let mut run = Run::from_args();
    run.patient = true;
    let what = run.p("what", (1 << 13) - 1, (1 << 13) - 1);
    let mut shapes = vec![(0u8, 1025usize), (1, 600), (3, 1023), (2, 4097), (0, 65538), (4, 65540), (2, 66001), (3, 65535)];
    if run.thorough() {
        shapes = vec![(1, 256), (1, 257), (1, 2000)];
        for n in [1024, 1025, 4096, 4097, 4098, 32768, 32769, 65535, 65536, 65537, 65538, 70000, 131074] { for f in [0, 2, 4] { shapes.push((f, n)); } }
        for n in [255, 511, 1023, 4095, 32767, 65535, 131071] { shapes.push((3, n)); }
    }
    explore(&mut run, &Bounds { shapes }, what);
    run.finish()
}
