//! C12: limit-aware marshaling of the core crate.
use tpm2::{
    Alg, Limits, Marshal, MarshalArray, TpmiAlgHash, TpmtHa, Unmarshal, UnmarshalArray,
};
use vh_engine::{hex, Ctx, Prop, Src};

const HASHES: [(TpmiAlgHash, u16, usize); 8] = [
    (TpmiAlgHash::Sha1, 0x0004, 20),
    (TpmiAlgHash::Sha256, 0x000B, 32),
    (TpmiAlgHash::Sha384, 0x000C, 48),
    (TpmiAlgHash::Sha512, 0x000D, 64),
    (TpmiAlgHash::Sm3_256, 0x0012, 32),
    (TpmiAlgHash::Sha3_256, 0x0027, 32),
    (TpmiAlgHash::Sha3_384, 0x0028, 48),
    (TpmiAlgHash::Sha3_512, 0x0029, 64),
];
fn index(h: TpmiAlgHash) -> usize {
    HASHES.iter().position(|x| x.0 == h).unwrap()
}

#[derive(Clone, Copy)]
struct Lim(u8);
impl Limits for Lim {
    fn supports_hash(self, h: TpmiAlgHash) -> bool {
        self.0 >> index(h) & 1 == 1
    }
}

fn ha<'a>(i: usize, d: &'a [u8; 64]) -> TpmtHa<'a> {
    match i {
        0 => TpmtHa::Sha1(d[..20].try_into().unwrap()),
        1 => TpmtHa::Sha256(d[..32].try_into().unwrap()),
        2 => TpmtHa::Sha384(d[..48].try_into().unwrap()),
        _ => TpmtHa::Sha512(d[..64].try_into().unwrap()),
    }
}

/// Length of a buffer around what is needed.
fn around(s: &mut Src, need: usize) -> usize {
    match s.below(8) {
        0 if s.chance(1, 200) => match s.below(3) {
            0 => 65536 + s.below(need as u64 + 2) as usize,
            1 => 256 + s.below(need as u64 + 2) as usize,
            _ => s.below(140_000) as usize,
        },
        0 => s.len(need + 80),
        1 | 2 => need,
        3 => need.saturating_sub(1 + s.below(3) as usize),
        4 => need + 1 + s.below(3) as usize,
        5 => s.below(need as u64 + 1) as usize,
        6 => need + s.below(64) as usize,
        _ => need.saturating_sub(s.below(need as u64 + 1) as usize),
    }
}

/// Marshals into `n` bytes and checks everything observable.  `must`: Some(true) must succeed with
/// room, Some(false) must fail, None may do either.
fn marshals<T: Marshal>(
    v: &T,
    enc: &[u8],
    lim: Lim,
    n: usize,
    fill: u8,
    must: Option<bool>,
    what: &str,
) -> Result<bool, String> {
    if v.marshaled_size() != enc.len() {
        return Err(format!("{what}: announced size {} instead of {}", v.marshaled_size(), enc.len()));
    }
    if must == Some(true) && T::marshaled_size_max(lim) < enc.len() {
        return Err(format!(
            "{what}: announced maximum {} is below the size {}",
            T::marshaled_size_max(lim),
            enc.len()
        ));
    }
    let mut buf = vec![fill; n];
    let end = buf.as_ptr() as usize + n;
    let r = v.marshal(lim, &mut buf).map(|r| (r.as_ptr() as usize, r.len()));
    match r {
        Ok((p, l)) => {
            if must == Some(false) {
                return Err(format!("{what}: an unsupported algorithm was marshaled"));
            }
            if n < enc.len() {
                return Err(format!("{what}: marshaled {} bytes into {n}", enc.len()));
            }
            if l != n - enc.len() || (p + l != end) {
                return Err(format!("{what}: remainder of {l} bytes instead of {}", n - enc.len()));
            }
            if buf[..enc.len()] != *enc {
                return Err(format!("{what}: wrote {} instead of {}", hex(&buf[..enc.len()]), hex(enc)));
            }
            if buf[enc.len()..].iter().any(|&b| b != fill) {
                return Err(format!("{what}: bytes after the encoding were modified"));
            }
            Ok(true)
        }
        Err(_) => {
            if must == Some(true) && n >= enc.len() {
                return Err(format!("{what}: not marshaled although {n} bytes suffice"));
            }
            if n > enc.len() && buf[enc.len()..].iter().any(|&b| b != fill) {
                return Err(format!("{what}: bytes after the encoding were modified"));
            }
            Ok(false)
        }
    }
}

/// Unmarshals; `want` is what the bytes encode if they are valid.
fn unmarshals<'b, T>(
    init: T,
    want: Option<T>,
    size: usize,
    lim: Lim,
    buf: &'b [u8],
    either: bool,
    what: &str,
) -> Result<bool, String>
where
    T: Unmarshal<'b> + PartialEq + Copy + std::fmt::Debug,
{
    let mut t = init;
    match t.unmarshal(lim, buf) {
        Ok(rest) => {
            let Some(w) = want else {
                return Err(format!("{what}: {} was accepted as {t:?}", hex(buf)));
            };
            if t != w {
                return Err(format!("{what}: {} decodes to {t:?} instead of {w:?}", hex(buf)));
            }
            if rest.len() != buf.len() - size || rest.as_ptr() as usize != buf.as_ptr() as usize + size {
                return Err(format!(
                    "{what}: remainder of {} bytes instead of {}",
                    rest.len(),
                    buf.len() - size
                ));
            }
            Ok(true)
        }
        Err(_) => {
            if want.is_some() && !either {
                return Err(format!("{what}: valid encoding {} was refused", hex(buf)));
            }
            if t != init {
                return Err(format!("{what}: a failed unmarshal changed the target to {t:?}"));
            }
            Ok(false)
        }
    }
}

macro_rules! int_case {
    ($s:expr, $c:expr, $lim:expr, $t:ty, $u:ty) => {{
        const W: usize = std::mem::size_of::<$t>();
        let v = $s.int(<$u>::MAX as u64) as $t;
        let init = $s.int(<$u>::MAX as u64) as $t;
        let enc: Vec<u8> = (0..W).rev().map(|i| ((v as $u as u64) >> (8 * i)) as u8).collect();
        let n = around($s, W);
        let fill = $s.u8();
        $c.describe(|| format!("{} {v} in {n} bytes", stringify!($t)));
        $c.nontrivial();
        if <$t as MarshalArray>::SIZE != W {
            return Err("SIZE".into());
        }
        marshals(&v, &enc, $lim, n, fill, Some(true), stringify!($t))?;
        let mut arr = [fill; W];
        v.marshal_array(&mut arr);
        if arr[..] != enc[..] {
            return Err(format!("marshal_array of {v} gives {}", hex(&arr)));
        }
        match <$t>::unmarshal_array(&arr) {
            Ok(x) if x == v => {}
            x => return Err(format!("unmarshal_array of {} gives {x:?}", hex(&arr))),
        }
        let mut b = enc.clone();
        b.extend($s.blob(n.saturating_sub(W)));
        b.truncate(n);
        unmarshals(init, (n >= W).then_some(v), W, $lim, &b, false, stringify!($t))?;
    }};
}

fn lim(s: &mut Src) -> Lim {
    Lim(match s.below(4) {
        0 => 0xff,
        1 => 1 << s.below(8),
        2 => 0xff ^ 1 << s.below(8),
        _ => s.below(256) as u8,
    })
}
fn digest(s: &mut Src) -> [u8; 64] {
    s.blob(64).try_into().unwrap()
}
fn be(v: u16) -> [u8; 2] {
    [(v >> 8) as u8, v as u8]
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    match s.below(12) {
        0..=2 => {
            let i = s.idx(4);
            let d = digest(s);
            let l = lim(s);
            let v = ha(i, &d);
            let (h, id, len) = HASHES[i];
            if v.hash_alg() != h || v.digest() != &d[..len] {
                return Err(format!("{v:?}: hash_alg {:?}, digest {}", v.hash_alg(), hex(v.digest())));
            }
            let enc = [&be(id)[..], &d[..len]].concat();
            let n = around(s, enc.len());
            c.describe(|| format!("marshal {h:?} digest into {n} bytes, limits {:#04x}", l.0));
            c.label("digest marshal");
            c.nontrivial();
            let sup = l.0 >> i & 1 == 1;
            let fill = s.u8();
            marshals(&v, &enc, l, n, fill, Some(sup), "digest")?;
        }
        3..=5 => {
            // bytes that look like a digest: any algorithm id, any length
            let known = s.chance(7, 8);
            let id = if known { HASHES[s.idx(8)].1 } else { s.u16() };
            let l = lim(s);
            let at = HASHES.iter().position(|x| x.1 == id);
            let len = at.map(|i| HASHES[i].2).unwrap_or_else(|| s.below(66) as usize);
            let n = around(s, 2 + len);
            let mut b = be(id).to_vec();
            b.extend(s.blob(n.saturating_sub(2)));
            b.truncate(n);
            let init_d = digest(s);
            let init = ha(s.idx(4), &init_d);
            c.describe(|| format!("unmarshal {} as digest, limits {:#04x}", hex(&b), l.0));
            c.label("digest unmarshal");
            let mut d64 = [0u8; 64];
            let valid = at.filter(|&i| i < 4 && l.0 >> i & 1 == 1 && n >= 2 + HASHES[i].2);
            if n >= 2 {
                c.nontrivial();
            }
            let want = valid.map(|i| {
                let len = HASHES[i].2;
                d64[..len].copy_from_slice(&b[2..2 + len]);
                i
            });
            let size = valid.map(|i| 2 + HASHES[i].2).unwrap_or(0);
            // decoded digests borrow from the input: compare within its lifetime
            let mut t = init;
            let r = t.unmarshal(l, &b);
            match (r, want) {
                (Ok(rest), Some(i)) => {
                    let w = ha(i, &d64);
                    if t != w || t.digest() != &b[2..size] || t.hash_alg() != HASHES[i].0 {
                        return Err(format!("{} decodes to {t:?}", hex(&b)));
                    }
                    if rest.len() != n - size || rest.as_ptr() as usize != b.as_ptr() as usize + size {
                        return Err(format!("remainder of {} bytes instead of {}", rest.len(), n - size));
                    }
                    // and marshals back to the consumed bytes
                    marshals(&t, &b[..size], l, size, 0xAA, Some(true), "decoded digest")?;
                }
                (Ok(_), None) => return Err(format!("{} was accepted as {t:?} with limits {:#04x}", hex(&b), l.0)),
                (Err(_), Some(_)) => return Err(format!("{} was refused with limits {:#04x}", hex(&b), l.0)),
                (Err(_), None) => {
                    if t != init {
                        return Err(format!("a failed unmarshal changed the target to {t:?}"));
                    }
                }
            }
        }
        6 => {
            let i = s.idx(8);
            let (h, id, len) = HASHES[i];
            let l = lim(s);
            let n = around(s, 2);
            c.describe(|| format!("{h:?} in {n} bytes, limits {:#04x}", l.0));
            c.label("hash algorithm");
            c.nontrivial();
            if h.digest_size() != len || Alg::from(h) != Alg(id) || h as u16 != id {
                return Err(format!("{h:?}: size {}, id {:?}", h.digest_size(), Alg::from(h)));
            }
            let sup = l.0 >> i & 1 == 1;
            let f = s.u8();
            // whether an unsupported algorithm identifier alone may be marshaled is left open
            marshals(&h, &be(id), l, n, f, if sup { Some(true) } else { None }, "hash algorithm")?;
            let mut b = be(id).to_vec();
            b.extend(s.blob(n.saturating_sub(2)));
            b.truncate(n);
            let init = HASHES[s.idx(8)].0;
            unmarshals(init, (n >= 2).then_some(h), 2, l, &b, !sup, "hash algorithm")?;
        }
        7 => {
            // any 16-bit value as algorithm
            let id = s.u16();
            let l = lim(s);
            let n = around(s, 2);
            c.describe(|| format!("algorithm id {id:#06x}, {n} bytes"));
            c.label("algorithm id");
            c.nontrivial();
            let at = HASHES.iter().position(|x| x.1 == id);
            match (TpmiAlgHash::try_from(Alg(id)), at) {
                (Ok(h), Some(i)) if h == HASHES[i].0 => {}
                (Err(_), None) => {}
                (x, _) => return Err(format!("algorithm {id:#06x} converts to {x:?}")),
            }
            marshals(&Alg(id), &be(id), l, n, s.u8(), Some(true), "algorithm id")?;
            let mut b = be(id).to_vec();
            b.extend(s.blob(n.saturating_sub(2)));
            b.truncate(n);
            unmarshals(Alg(s.u16()), (n >= 2).then_some(Alg(id)), 2, l, &b, false, "algorithm id")?;
            let init = HASHES[s.idx(8)].0;
            let ok = (n >= 2).then_some(()).and(at).map(|i| HASHES[i].0);
            let either = at.map(|i| l.0 >> i & 1 == 0).unwrap_or(false);
            unmarshals(init, ok, 2, l, &b, either, "algorithm id as hash")?;
        }
        8 => {
            let l = lim(s);
            c.label("integer");
            match s.below(8) {
                0 => int_case!(s, c, l, u8, u8),
                1 => int_case!(s, c, l, u16, u16),
                2 => int_case!(s, c, l, u32, u32),
                3 => int_case!(s, c, l, u64, u64),
                4 => int_case!(s, c, l, i8, u8),
                5 => int_case!(s, c, l, i16, u16),
                6 => int_case!(s, c, l, i32, u32),
                _ => int_case!(s, c, l, i64, u64),
            }
        }
        9 => {
            let d = digest(s);
            let l = lim(s);
            c.label("byte array");
            c.nontrivial();
            macro_rules! arr {
                ($n:literal) => {{
                    let a: [u8; $n] = d[..$n].try_into().unwrap();
                    let n = around(s, $n);
                    c.describe(|| format!("{} byte array into {n} bytes", $n));
                    marshals(&a, &a, l, n, s.u8(), Some(true), "byte array")?;
                }};
            }
            match s.below(6) {
                0 => arr!(0),
                1 => arr!(1),
                2 => arr!(3),
                3 => arr!(20),
                4 => arr!(32),
                _ => arr!(64),
            }
        }
        10 => {
            let m = s.below(256) as u8;
            c.describe(|| format!("limits {m:#04x}"));
            c.label("limits");
            c.nontrivial();
            let max = (0..8).filter(|i| m >> i & 1 == 1).map(|i| HASHES[i].2).max().unwrap_or(0);
            if Lim(m).max_digest_size() != max {
                return Err(format!("max_digest_size with limits {m:#04x} is {}", Lim(m).max_digest_size()));
            }
            let d = [0u8; 64];
            for i in 0..4 {
                if m >> i & 1 == 1 && TpmtHa::marshaled_size_max(Lim(m)) < ha(i, &d).marshaled_size() {
                    return Err(format!(
                        "announced maximum {} with limits {m:#04x} is below {:?}'s size",
                        TpmtHa::marshaled_size_max(Lim(m)),
                        HASHES[i].0
                    ));
                }
            }
        }
        _ => {
            // several values through the returned remainders, and back
            let k = 1 + s.idx(5);
            let ds: Vec<(usize, [u8; 64], u64)> = (0..k)
                .map(|_| {
                    let i = s.idx(4);
                    let d = digest(s);
                    (i, d, s.u64())
                })
                .collect();
            let l = Lim(0xff);
            let total: usize = ds.iter().map(|d| 2 + HASHES[d.0].2 + 8).sum();
            let n = total + s.below(4) as usize;
            c.describe(|| format!("{k} digests and integers in sequence, {n} bytes"));
            c.label("sequence");
            c.nontrivial();
            let mut buf = vec![0x5A; n];
            {
                let mut rest: &mut [u8] = &mut buf;
                for (i, d, x) in &ds {
                    rest = ha(*i, d).marshal(l, rest).map_err(|_| "digest not marshaled")?;
                    rest = x.marshal(l, rest).map_err(|_| "integer not marshaled")?;
                }
                if rest.len() != n - total {
                    return Err(format!("{} bytes left instead of {}", rest.len(), n - total));
                }
            }
            let mut want = Vec::new();
            for (i, d, x) in &ds {
                want.extend(be(HASHES[*i].1));
                want.extend(&d[..HASHES[*i].2]);
                want.extend(x.to_be_bytes());
            }
            want.resize(n, 0x5A);
            if buf != want {
                return Err(format!("sequence encodes as {} instead of {}", hex(&buf), hex(&want)));
            }
            let zero = [0u8; 64];
            let mut rest: &[u8] = &buf;
            for (i, d, x) in &ds {
                let mut t = ha(0, &zero);
                rest = t.unmarshal(l, rest).map_err(|_| "digest not unmarshaled")?;
                let mut y = 0u64;
                rest = y.unmarshal(l, rest).map_err(|_| "integer not unmarshaled")?;
                if t != ha(*i, d) || y != *x {
                    return Err(format!("sequence decodes to {t:?}, {y}"));
                }
            }
            if rest != &want[total..] {
                return Err("wrong remainder of a sequence".into());
            }
        }
    }
    Ok(())
}

fn seeds(_: bool) -> Vec<Vec<u64>> {
    let mut v = Vec::new();
    for m in 0..256 {
        v.push(vec![10, m]);
        // every limit set x every digest algorithm, exact buffer
        for i in 0..4 {
            v.push(vec![0, i, 2, m & 0xff, 3, m, 1]);
        }
        for i in 0..8 {
            // known id, algorithm i, limits m, exact length
            v.push(vec![3, 7, i, 3, m, 1, 4, m + i]);
        }
    }
    for id in 0..0x10000 {
        v.push(vec![7, id, 0, 1]);
    }
    v
}

pub fn prop() -> Prop {
    Prop {
        seeds: Some(seeds),
        quick: 3_000_000,
        quick_cov: 1_500_000,
        thorough: 30_000_000,
        thorough_cov: 8_000_000,
        assumptions: &[
            "all 256 limit sets and all 65536 algorithm identifiers are enumerated; digests, buffer lengths and targets are sampled",
            "whether a bare hash algorithm identifier (not a digest) may be marshaled under limits that do not support it is left open",
        ],
        ..Prop::new("C12", case, "a case is non-trivial when a value is actually offered to marshal, or at least an algorithm identifier is present in the bytes to unmarshal")
    }
}
