//! Choice tapes: every random decision of a generator is one `u32` drawn from a
//! tape. Replaying the tape reproduces the case; shrinking edits the tape.
//! A draw of 0 always means the simplest choice; an exhausted tape yields 0s.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ b.rotate_left(17));
    r.next() ^ b
}

#[derive(Clone)]
pub struct Tape {
    pub data: Vec<u32>,
    pub pos: usize,
    rng: Option<Rng>,
}

impl Tape {
    pub fn random(seed: u64) -> Self {
        Tape { data: vec![], pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(data: &[u32]) -> Self {
        Tape { data: data.to_vec(), pos: 0, rng: None }
    }
    pub fn draw(&mut self) -> u32 {
        let v = if self.pos < self.data.len() {
            self.data[self.pos]
        } else if let Some(rng) = &mut self.rng {
            let v = (rng.next() >> 32) as u32;
            self.data.push(v);
            v
        } else {
            0
        };
        self.pos += 1;
        v
    }
    /// Uniform in 0..n, monotone in the drawn word.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        if n <= 1 << 32 {
            ((self.draw() as u64) * n) >> 32
        } else {
            let v = self.u64();
            ((v as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability pct/100; a 0 word is false.
    pub fn pct(&mut self, pct: u32) -> bool {
        if pct == 0 {
            return false;
        }
        self.below(100) >= (100 - pct.min(100)) as u64
    }
    pub fn u64(&mut self) -> u64 {
        ((self.draw() as u64) << 32) | self.draw() as u64
    }
    pub fn u128(&mut self) -> u128 {
        ((self.u64() as u128) << 64) | self.u64() as u128
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// Index chosen by weight; index 0 should be the simplest.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|&w| w as u64).sum();
        let mut x = self.below(total.max(1));
        for (i, &w) in ws.iter().enumerate() {
            if x < w as u64 {
                return i;
            }
            x -= w as u64;
        }
        0
    }
    pub fn used(&self) -> &[u32] {
        &self.data[..self.pos.min(self.data.len())]
    }
    pub fn byte(&mut self) -> u8 {
        (self.draw() >> 24) as u8
    }
}
