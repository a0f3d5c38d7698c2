//! Choice-sequence generators: a generated case is a pure function of a tape of
//! bounded integers, so shrinking works on the tape and every case replays.

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.s;
        let result = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        result
    }
    pub fn fill(&mut self, out: &mut [u8]) {
        for c in out.chunks_mut(8) {
            let v = self.next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
}

/// Bytes determined by a small seed (so one choice stands for a whole blob).
pub fn blob(seed: u64, len: usize) -> Vec<u8> {
    let mut v = vec![0u8; len];
    if seed != 0 {
        Rng::new(seed).fill(&mut v);
    }
    v
}

pub fn blob32(seed: u64) -> [u8; 32] {
    let mut v = [0u8; 32];
    if seed != 0 {
        Rng::new(seed).fill(&mut v);
    }
    v
}

pub struct Tape {
    vals: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
}

impl Tape {
    pub fn random(seed: u64) -> Self {
        Tape { vals: vec![], pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(vals: Vec<u64>) -> Self {
        Tape { vals, pos: 0, rng: None }
    }
    /// The given choices, then random ones.
    pub fn mixed(vals: Vec<u64>, seed: u64) -> Self {
        Tape { vals, pos: 0, rng: Some(Rng::new(seed)) }
    }
    /// The choices that were actually consumed.
    pub fn consumed(&self) -> Vec<u64> {
        self.vals[..self.pos.min(self.vals.len())].to_vec()
    }
    /// Uniform in `[0, n)`; `n == 0` means any u64. The simplest choice is 0.
    pub fn below(&mut self, n: u64) -> u64 {
        let v = match &mut self.rng {
            Some(_) if self.pos < self.vals.len() => {
                let v = &mut self.vals[self.pos];
                if n != 0 {
                    *v %= n;
                }
                *v
            }
            Some(r) => {
                let x = r.next();
                let v = if n == 0 { x } else { ((x as u128 * n as u128) >> 64) as u64 };
                self.vals.push(v);
                v
            }
            None => {
                let x = self.vals.get(self.pos).copied().unwrap_or(0);
                if n == 0 {
                    x
                } else {
                    x % n
                }
            }
        };
        self.pos += 1;
        v
    }
    pub fn u64(&mut self) -> u64 {
        self.below(0)
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        if lo == 0 && hi == u64::MAX {
            return self.u64();
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability num/den; the simplest choice is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// Index chosen with the given weights; the first entry is the simplest.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total);
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        unreachable!()
    }
    /// A seed for `blob`; kept small so tapes stay readable.
    pub fn seed(&mut self) -> u64 {
        1 + self.below(1 << 20)
    }
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        let s = self.seed();
        blob(s, len)
    }
    /// A number that is often at or near a boundary.
    pub fn edgy(&mut self, bits: u32) -> u64 {
        let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let v = match self.below(6) {
            0 => self.below(4),
            1 => {
                let b = self.below(bits as u64 + 1);
                let base = if b >= 64 { 0 } else { 1u64 << b };
                base.wrapping_add(self.below(3)).wrapping_sub(1)
            }
            2 => max - self.below(4),
            3 => self.below(1000),
            _ => self.u64(),
        };
        v & max
    }
}

/// Shrinks `tape` (a failing tape) with at most `budget` evaluations of `fails`.
pub fn shrink(tape: Vec<u64>, budget: usize, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut best = tape;
    let mut left = budget;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, left: &mut usize| -> bool {
        if *left == 0 {
            return false;
        }
        *left -= 1;
        if let Some(used) = fails(&cand) {
            if (used.len(), &used) < (best.len(), &*best) {
                *best = used;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        for size in [64usize, 32, 16, 8, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                let mut cand = best.clone();
                cand.drain(i..i + size);
                if !attempt(cand, &mut best, &mut left) {
                    i += size.max(1);
                }
                if left == 0 {
                    return best;
                }
            }
        }
        // zero chunks
        for size in [16usize, 8, 4, 2] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[i..i + size].iter_mut().for_each(|v| *v = 0);
                    attempt(cand, &mut best, &mut left);
                }
                i += size;
            }
        }
        // minimise single values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut cand = best.clone();
                cand[i] = 0;
                if !attempt(cand, &mut best, &mut left) && i < best.len() {
                    let (mut lo, mut hi) = (0u64, best[i]);
                    let mut steps = 0;
                    while lo + 1 < hi && steps < 20 && i < best.len() && left > 0 {
                        steps += 1;
                        let mid = lo + (hi - lo) / 2;
                        let mut cand = best.clone();
                        cand[i] = mid;
                        if attempt(cand, &mut best, &mut left) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
            if left == 0 {
                return best;
            }
        }
        if best == before || left == 0 {
            return best;
        }
    }
}
