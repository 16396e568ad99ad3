/// xoshiro256**
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    recent: [u32; 8],
    n: usize,
}
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ (b.len() as u64);
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = mix(h ^ u64::from_le_bytes(c.try_into().unwrap()));
    }
    for &c in it.remainder() {
        h = (h ^ c as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut z = seed;
        let mut s = [0; 4];
        for x in &mut s {
            z = mix(z);
            *x = z;
        }
        Rng { s, recent: [0; 8], n: 0 }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.next() >> 32) as u32
    }
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        ((self.next() >> 32).wrapping_mul(n as u64) >> 32) as usize
    }
    /// Keep a value for later use elsewhere in the same case
    pub fn keep(&mut self, v: u32) -> u32 {
        self.recent[self.n % 8] = v;
        self.n += 1;
        v
    }
    /// One of the last values kept, so that operands coincide
    pub fn echo(&mut self) -> Option<u32> {
        if self.n == 0 {
            return None;
        }
        let k = self.below(self.n.min(8));
        Some(self.recent[k])
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
