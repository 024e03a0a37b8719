//! C16: the generator helpers preserve the byte stream.
use tpm2_impl::platform::crypto::drbg_helpers::*;
use tpm2_impl::platform::crypto::{Drbg, DrbgError};
use vh_engine::{hex, Ctx, Prop, Rng, Src};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    U32,
    U64,
    Fill,
}
/// Base operation a generator implements natively; the others go through the helpers.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Base {
    All,
    Fill,
    U64,
    U32,
}
struct G {
    base: Base,
    rng: Rng,
    pattern: u8,
    log: Vec<(Kind, Vec<u8>, Vec<u8>)>,
    fail: u64,
    calls: u64,
    most: u64,
}
impl G {
    fn native(&mut self, k: Kind, add: &[u8], n: usize) -> Result<Vec<u8>, DrbgError> {
        let c = self.calls;
        self.calls += 1;
        // far more than any faithful helper needs
        assert!(c < self.most, "the helper keeps asking the generator without end");
        if c == self.fail {
            self.log.push((k, add.to_vec(), vec![]));
            return Err(DrbgError);
        }
        let p = self.pattern;
        // 5: each call has a pattern of its own
        let p = if p == 5 { self.rng.next() as u8 % 5 } else { p };
        let v: Vec<u8> = (0..n)
            .map(|_| {
                let x = self.rng.next() as u8;
                match p {
                    0 => x,
                    4 => 0,
                    1 => x | 0x80,
                    2 => 0xff,
                    _ => x & 0x7f,
                }
            })
            .collect();
        self.log.push((k, add.to_vec(), v.clone()));
        Ok(v)
    }
}
impl Drbg for G {
    type Entropy = [u8; 1];
    type Nonce = [u8; 1];
    fn instantiate(_: &[u8; 1], _: &[u8; 1], _: &[u8]) -> Result<Self, DrbgError> {
        Err(DrbgError)
    }
    fn reseed(&mut self, _: &[u8; 1], _: &[u8]) -> Result<(), DrbgError> {
        Err(DrbgError)
    }
    fn next_u32(&mut self, a: &[u8]) -> Result<u32, DrbgError> {
        match self.base {
            Base::Fill => next_u32_via_fill(self, a),
            Base::U64 => self.next_u64(a).map(|x| x as u32),
            _ => Ok(u32::from_le_bytes(self.native(Kind::U32, a, 4)?.try_into().unwrap())),
        }
    }
    fn next_u64(&mut self, a: &[u8]) -> Result<u64, DrbgError> {
        match self.base {
            Base::Fill => next_u64_via_fill(self, a),
            Base::U32 => next_u64_via_u32(self, a),
            _ => Ok(u64::from_le_bytes(self.native(Kind::U64, a, 8)?.try_into().unwrap())),
        }
    }
    fn fill_bytes(&mut self, a: &[u8], d: &mut [u8]) -> Result<(), DrbgError> {
        match self.base {
            Base::U32 | Base::U64 => fill_bytes_via_next(self, a, d),
            _ => {
                let v = self.native(Kind::Fill, a, d.len())?;
                d.copy_from_slice(&v);
                Ok(())
            }
        }
    }
    fn requires_reseeding(&mut self) -> bool {
        false
    }
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let base = *s.pick(&[Base::All, Base::Fill, Base::U64, Base::U32]);
    let (mut n, mut alen) = (if s.chance(1, 12) { s.len(5000) } else { s.below(70) as usize }, s.len(40));
    if s.chance(1, 500) {
        match s.below(3) {
            0 => n = 5000 + s.idx(150_000),
            1 => (n, alen) = (n % 70, 300 + s.idx(70_000)),
            _ => (n, alen) = (n % 70, 40 + s.idx(260)),
        }
    }
    let add = s.blob(alen);
    let fail = if s.chance(1, 2) { u64::MAX } else { s.below(n as u64 / 4 + 3) };
    let mut g = G {
        base,
        rng: Rng::new(s.below(1 << 20)),
        pattern: s.below(7) as u8,
        log: Vec::new(),
        fail,
        calls: 0,
        most: 10_000 + n as u64,
    };
    let op = s.below(4);
    c.describe(|| {
        let f = if fail == u64::MAX { "no failure".into() } else { format!("call {fail} fails") };
        format!("helper {op} on a generator with native {base:?}, {n} bytes, {alen} bytes of additional input, {f}")
    });
    // result bytes in order, and how many the caller asked for
    let (res, asked): (Result<Vec<u8>, DrbgError>, usize) = match op {
        0 => {
            let pad = s.below(9) as usize;
            let mut buf = vec![0xC3; n + pad + 8];
            let at = 4usize;
            let r = fill_bytes_via_next(&mut g, &add, &mut buf[at..at + n]);
            if buf[..at].iter().chain(&buf[at + n..]).any(|&b| b != 0xC3) {
                return Err("bytes outside the destination were written".into());
            }
            (r.map(|_| buf[at..at + n].to_vec()), n)
        }
        1 => (next_u32_via_fill(&mut g, &add).map(|x| x.to_le_bytes().to_vec()), 4),
        2 => (next_u64_via_fill(&mut g, &add).map(|x| x.to_le_bytes().to_vec()), 8),
        _ => (next_u64_via_u32(&mut g, &add).map(|x| x.to_le_bytes().to_vec()), 8),
    };
    c.label(match op {
        0 => "fill_bytes_via_next",
        1 => "next_u32_via_fill",
        2 => "next_u64_via_fill",
        _ => "next_u64_via_u32",
    });
    // Helpers calling each other without end are not what the documentation describes: a
    // generator with native words fills via words, one with native fill takes words from it.
    let failed = g.calls > g.fail;
    if asked > 0 {
        c.nontrivial();
    }
    // additional input exactly once, with the first call
    for (i, e) in g.log.iter().enumerate() {
        let want: &[u8] = if i == 0 { &add } else { &[] };
        if e.1 != want {
            return Err(format!(
                "underlying call {i} got {} bytes of additional input instead of {}",
                e.1.len(),
                want.len()
            ));
        }
    }
    if failed {
        c.label("underlying failure");
        return match res {
            Err(_) => Ok(()),
            Ok(v) => Err(format!("an underlying failure was turned into success ({})", hex(&v))),
        };
    }
    let v = res.map_err(|_| "failed although no underlying call failed".to_string())?;
    if asked > 0 && g.log.is_empty() {
        return Err("result without asking the generator".into());
    }
    // With every operation native, each underlying call and its width are visible.  Otherwise
    // words may have been cut to 32 bits by the generator itself (native U64).
    if base != Base::U64 {
        let all: Vec<u8> = g.log.iter().flat_map(|e| e.2.clone()).collect();
        let last = g.log.last().map(|e| e.2.len()).unwrap_or(0);
        if all.len() < v.len() || all[..v.len()] != v[..] {
            return Err(format!("yields {} but the generator produced {}", hex(&v), hex(&all)));
        }
        // only part of the last word may be dropped (a 64-bit word made of two 32-bit ones, for
        // a generator with native 32-bit words)
        let slack = if base == Base::U32 && op == 0 { 8 } else { last.max(1) };
        if all.len() - v.len() >= slack {
            return Err("generator output was skipped".into());
        }
    } else {
        // each native 64-bit word, or its low half where the generator was asked for 32 bits
        match op {
            0 => {
                let mut all = Vec::new();
                let mut left = n;
                for e in &g.log {
                    let take = if left > 4 { 8 } else { 4 };
                    all.extend(&e.2[..take]);
                    left = left.saturating_sub(take);
                }
                if all.len() < v.len() || all[..v.len()] != v[..] || all.len() - v.len() >= 8 {
                    return Err(format!("yields {} but the words were {}", hex(&v), hex(&all)));
                }
            }
            3 => {
                let want: Vec<u8> = g.log.iter().flat_map(|e| e.2[..4].to_vec()).collect();
                if want != v {
                    return Err(format!("yields {} but the words were {}", hex(&v), hex(&want)));
                }
            }
            _ => {
                // next via fill, where fill itself goes through words
                let mut want: Vec<u8> = g.log.iter().flat_map(|e| e.2.clone()).collect();
                want.truncate(asked);
                if want != v {
                    return Err(format!("yields {} but the words were {}", hex(&v), hex(&want)));
                }
            }
        }
    }
    if base == Base::All && op == 0 {
        // the documented use of words: 64-bit ones, and a 32-bit one for a rest of at most 4 bytes
        let rest = n % 8;
        let mut want = vec![Kind::U64; n / 8];
        match rest {
            0 => {}
            1..=4 => want.push(Kind::U32),
            _ => want.push(Kind::U64),
        }
        let got: Vec<Kind> = g.log.iter().map(|e| e.0).collect();
        if got != want {
            return Err(format!("{n} bytes were filled with words {got:?}"));
        }
    }
    Ok(())
}

fn seeds(_: bool) -> Vec<Vec<u64>> {
    let mut v = Vec::new();
    for base in 0..4 {
        for n in 0..70 {
            for fail in 0..20u64 {
                for op in 0..4 {
                    // base, short length, n, 3 bytes of additional input, fault, stream, helper
                    let mut c = vec![base, 0, n, 3, 1, 7];
                    match fail {
                        0 => c.push(1),
                        f => c.extend([0, f - 1]),
                    }
                    c.extend([9, 0, op]);
                    v.push(c);
                }
            }
        }
    }
    v
}

pub fn prop() -> Prop {
    Prop {
        seeds: Some(seeds),
        quick: 3_000_000,
        quick_cov: 500_000,
        thorough: 60_000_000,
        thorough_cov: 20_000_000,
        assumptions: &["generators are scripted: native words, native fill, or one derived from the other through the helpers; one fault at a chosen underlying call"],
        ..Prop::new("C16", case, "a case is non-trivial when at least one byte is asked for")
    }
}
