//! Choice sequences: the one source of randomness of every generator.

/// xoshiro-like small PRNG (splitmix64 stream).
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x6A09_E667_F3BC_C909);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in `0..=max`.
    pub fn upto(&mut self, max: u64) -> u64 {
        if max == u64::MAX {
            self.next()
        } else {
            // bias is irrelevant here
            ((self.next() as u128 * (max as u128 + 1)) >> 64) as u64
        }
    }
}

pub fn hash64(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &b in data {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^ (h >> 29)
}
pub fn hash_u64s(data: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9abc_def1u64 ^ data.len() as u64;
    for &b in data {
        h = (h ^ b).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 32;
    }
    h
}

/// How a fresh choice is distributed (replayed choices are taken as they are).
#[derive(Clone, Copy)]
enum Dist {
    Uniform,
    Int,
    Len,
}

/// Where the choices of one case come from and where they are recorded.
pub struct Src {
    prefix: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    /// Choices actually used, normalised.
    pub used: Vec<u64>,
    limit: usize,
}

impl Src {
    /// Replays `prefix`, then draws from `rng`, or zeros without one.
    pub fn new(prefix: Vec<u64>, rng: Option<Rng>) -> Self {
        Src { prefix, pos: 0, rng, used: Vec::new(), limit: 200_000 }
    }
    fn draw(&mut self, max: u64, dist: Dist) -> u64 {
        let v = if self.pos < self.prefix.len() {
            let v = self.prefix[self.pos];
            if v <= max {
                v
            } else if max.wrapping_add(1).is_power_of_two() {
                v & max
            } else {
                v % (max + 1)
            }
        } else if self.used.len() >= self.limit {
            0
        } else if let Some(r) = &mut self.rng {
            match dist {
                Dist::Uniform => r.upto(max),
                Dist::Int => fresh_int(r, max),
                Dist::Len => fresh_len(r, max),
            }
        } else {
            0
        };
        self.pos += 1;
        self.used.push(v);
        v
    }
    /// A choice in `0..n` only directed seeds and replays can make other than 0 (expensive modes).
    pub fn directed(&mut self, n: u64) -> u64 {
        if self.rng.is_some() {
            self.pos += 1;
            self.used.push(0);
            0
        } else {
            self.below(n)
        }
    }
    /// Uniform in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        self.draw(n - 1, Dist::Uniform)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// True with probability `num/den` (and after shrinking false).
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den - 1, Dist::Uniform) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    /// Integer in `0..=max`, biased to boundaries and to constants the code compares with.
    pub fn int(&mut self, max: u64) -> u64 {
        self.draw(max, Dist::Int)
    }
    /// Length in `0..=cap`, biased to 0, small, cap and cap-1.
    pub fn len(&mut self, cap: usize) -> usize {
        self.draw(cap as u64, Dist::Len) as usize
    }
    pub fn u8(&mut self) -> u8 {
        self.int(0xff) as u8
    }
    pub fn u16(&mut self) -> u16 {
        self.int(0xffff) as u16
    }
    pub fn u32(&mut self) -> u32 {
        self.int(0xffff_ffff) as u32
    }
    pub fn u64(&mut self) -> u64 {
        self.int(u64::MAX)
    }
    /// Sometimes a word of the dictionary for `n` fresh bytes, and where it goes.  No choice of its
    /// own: the bytes it becomes are.
    fn word(&mut self, n: usize) -> Option<(usize, &'static [u8])> {
        if self.pos < self.prefix.len() {
            return None;
        }
        let r = self.rng.as_mut()?;
        if r.upto(3) != 0 {
            return None;
        }
        let all = crate::words::words();
        let fit: Vec<&Vec<u8>> = all.iter().filter(|w| w.len() == n || w.len() < n && r.upto(3) == 0).collect();
        let w = fit.get(r.upto(fit.len().max(1) as u64 - 1) as usize)?;
        let at = if r.upto(1) == 0 { 0 } else { r.upto((n - w.len()) as u64) as usize };
        Some((at, w))
    }
    /// A byte; a fresh one is the hint if there is one.
    fn hinted(&mut self, hint: Option<u8>) -> u8 {
        match hint {
            Some(b) if self.pos >= self.prefix.len() && self.rng.is_some() => {
                self.pos += 1;
                self.used.push(b as u64);
                b
            }
            _ => self.u8(),
        }
    }
    /// Byte string of exactly `len` bytes; long ones are patterns (few choices), short ones often
    /// explicit.
    pub fn blob(&mut self, len: usize) -> Vec<u8> {
        if len == 0 {
            return Vec::new();
        }
        match self.below(8) {
            0 => vec![0; len],
            1 | 2 => {
                let b = self.u8();
                (0..len).map(|i| b.wrapping_add(i as u8)).collect()
            }
            3 => {
                let b = self.u8();
                vec![b; len]
            }
            4 | 5 => {
                let mut r = Rng::new(self.draw(0xffff, Dist::Uniform));
                (0..len).map(|_| r.next() as u8).collect()
            }
            _ => {
                let n = len.min(24);
                let w = self.word(n);
                let mut v: Vec<u8> = match w {
                    Some((at, w)) => (0..n).map(|i| self.hinted(i.checked_sub(at).and_then(|k| w.get(k)).copied())).collect(),
                    None => (0..n).map(|_| self.u8()).collect(),
                };
                let mut i = n as u8;
                while v.len() < len {
                    v.push(i);
                    i = i.wrapping_add(1);
                }
                v
            }
        }
    }
}

fn fresh_len(r: &mut Rng, cap: u64) -> u64 {
    match r.upto(99) {
        0..=11 => 0,
        12..=23 => cap,
        24..=29 => cap.saturating_sub(1),
        30..=49 => r.upto(cap.min(4)),
        50..=69 => r.upto(cap.min(32)),
        70..=77 => dict(r, cap),
        _ => r.upto(cap),
    }
}

fn dict(r: &mut Rng, max: u64) -> u64 {
    let n = vh_rt::nconsts();
    if n == 0 {
        return r.upto(max);
    }
    let c = vh_rt::konst_at(r.upto(n as u64 - 1) as usize);
    let c = match r.upto(5) {
        0 => c.wrapping_sub(1),
        1 => c.wrapping_add(1),
        _ => c,
    };
    if c <= max {
        c
    } else if max.wrapping_add(1).is_power_of_two() || max == u64::MAX {
        c & max
    } else {
        c % (max + 1)
    }
}

fn fresh_int(r: &mut Rng, max: u64) -> u64 {
    match r.upto(99) {
        0..=17 => r.upto(max.min(8)),
        18..=37 => {
            let bits = 64 - max.leading_zeros() as u64;
            let p = 1u64.checked_shl(r.upto(bits) as u32).unwrap_or(0);
            let v = match r.upto(2) {
                0 => p,
                1 => p.wrapping_sub(1),
                _ => p.wrapping_add(1),
            };
            if v <= max {
                v
            } else {
                max
            }
        }
        38..=43 => max,
        44..=46 => max.saturating_sub(1),
        47..=64 => dict(r, max),
        _ => r.upto(max),
    }
}
