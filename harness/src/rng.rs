//! Deterministic random source of the harness (xoshiro256**), and the handle given to the code under test.
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub const fn zero() -> Self {
        Rng { s: [1, 2, 3, 4] }
    }
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn from_parts(parts: &[u64]) -> Self {
        let mut h = 0x1234_5678_9abc_def0u64;
        for p in parts {
            h ^= *p;
            h = splitmix(&mut h);
        }
        Rng::new(h)
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in [0, n)
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// uniform in [a, b]
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, p: f64) -> bool {
        if p <= 0.0 {
            return false;
        }
        ((self.next() >> 11) as f64 / (1u64 << 53) as f64) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

static SIM: Mutex<Rng> = Mutex::new(Rng::zero());

/// 32 byte draws of the code under test: its secrets, for a listener which checks what they protect
static DRAWN: Mutex<Vec<[u8; 32]>> = Mutex::new(Vec::new());

#[cfg_attr(not(feature = "enc"), allow(dead_code))]
pub fn drawn() -> Vec<[u8; 32]> {
    DRAWN.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

pub fn seed_sim(seed: u64) {
    DRAWN.lock().unwrap_or_else(|e| e.into_inner()).clear();
    *SIM.lock().unwrap_or_else(|e| e.into_inner()) = Rng::new(seed);
}

/// Zero-sized handle: all copies draw from one stream, as with an operating system source.
#[derive(Clone, Copy, Debug)]
pub struct SimRng;

impl rand::RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        SIM.lock().unwrap_or_else(|e| e.into_inner()).next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        SIM.lock().unwrap_or_else(|e| e.into_inner()).next()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        let mut r = SIM.lock().unwrap_or_else(|e| e.into_inner());
        for c in dest.chunks_mut(8) {
            let b = r.next().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
        if let Ok(k) = <[u8; 32]>::try_from(&*dest) {
            DRAWN.lock().unwrap_or_else(|e| e.into_inner()).push(k);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl rand::CryptoRng for SimRng {}
