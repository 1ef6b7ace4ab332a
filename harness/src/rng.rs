//! Workload PRNG (xoshiro256**) and the controlled entropy source the code
//! under test draws from: `getrandom`'s custom backend, re-seeded per case, so
//! the library's own random choices are part of the (replayable) schedule.
use std::cell::Cell;

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0x243F6A8885A308D3u64;
    for p in parts {
        h ^= *p;
        let mut s = h;
        h = splitmix(&mut s);
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

#[derive(Clone)]
pub struct Rng([u64; 4]);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    /// inclusive integer range
    pub fn int(&mut self, a: usize, b: usize) -> usize {
        a + (self.next() % (b - a + 1) as u64) as usize
    }
    pub fn bool(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn sign(&mut self) -> f64 {
        if self.next() & 1 == 0 { 1.0 } else { -1.0 }
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.int(0, xs.len() - 1)]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.int(0, i);
            xs.swap(i, j);
        }
    }
}

thread_local! {
    static ENTROPY: Cell<u64> = const { Cell::new(0x1234_5678) };
    static DRAWS: Cell<u64> = const { Cell::new(0) };
}

/// Seed the entropy the library sees on this thread (call before first use).
pub fn set_entropy(seed: u64) {
    ENTROPY.with(|e| e.set(seed));
    DRAWS.with(|d| d.set(0));
}
pub fn entropy_draws() -> u64 {
    DRAWS.with(|d| d.get())
}

#[no_mangle]
unsafe extern "Rust" fn __getrandom_v03_custom(dest: *mut u8, len: usize) -> Result<(), getrandom::Error> {
    let buf = std::slice::from_raw_parts_mut(dest, len);
    ENTROPY.with(|e| {
        let mut s = e.get();
        for chunk in buf.chunks_mut(8) {
            let b = splitmix(&mut s).to_le_bytes();
            chunk.copy_from_slice(&b[..chunk.len()]);
        }
        e.set(s);
    });
    DRAWS.with(|d| d.set(d.get() + 1));
    Ok(())
}
