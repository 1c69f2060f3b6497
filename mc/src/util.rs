pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
#[derive(Clone, Copy)]
pub struct H(pub u64);
impl H {
    pub fn new() -> H { H(0x1234_5678_9abc_def1) }
    pub fn add(&mut self, x: u64) { self.0 = mix(self.0 ^ x).wrapping_add(0x9e37_79b9_7f4a_7c15) }
    pub fn str(&mut self, s: &str) { for b in s.bytes() { self.add(b as u64) } }
}
