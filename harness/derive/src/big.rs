//! Types whose counts and lengths do not fit 16 bits.
use tpm2_rs_base::Tpm2bSimple;
use tpm2_rs_marshalable::{Error, Marshalable, UnmarshalBuf};
use vh_engine::{Ctx, Rng, Src};

#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug, Marshalable)]
struct A {
    n: u32,
    #[marshalable(length = n)]
    m: [u8; 70_000],
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug, Marshalable)]
struct B {
    h: u8,
    n: u64,
    #[marshalable(length = n)]
    m: [u16; 65_600],
    t: u32,
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug, Marshalable)]
struct C {
    n: u16,
    #[marshalable(length = n)]
    m: [u8; 65_535],
    t: u16,
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug, Marshalable)]
struct D {
    m: [u8; 66_000],
    t: u16,
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug, Marshalable)]
#[marshalable(tpm2b_simple)]
struct E {
    size: u16,
    data: [u8; 65_535],
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug, Marshalable)]
#[marshalable(tpm2b_simple)]
struct F {
    size: u16,
    data: [u8; 70_000],
}

/// `x` must encode as `want` and decode from it; nothing shorter will do.
fn both<T: Marshalable + PartialEq>(s: &mut Src, what: &str, x: &T, want: &[u8]) -> Result<(), String> {
    let mut b = vec![0xEE; want.len() + 5];
    match x.try_marshal(&mut b) {
        Ok(k) if k == want.len() && b[..k] == *want && b[k..].iter().all(|x| *x == 0xEE) => (),
        Ok(k) if k == want.len() => return Err(format!("{what}: the bytes written are wrong")),
        r => return Err(format!("{what}: marshaling gives {r:?} for an encoding of {} bytes", want.len())),
    }
    b[..want.len()].copy_from_slice(want);
    let mut buf = UnmarshalBuf::new(&b);
    match T::try_unmarshal(&mut buf) {
        Ok(y) if y == *x && buf.len() == 5 => (),
        Ok(y) => return Err(format!("{what}: decoded {}, {} of 5 bytes left", if y == *x { "right" } else { "wrong" }, buf.len())),
        Err(e) => return Err(format!("{what}: {} bytes refused: {e:?}", want.len())),
    }
    let cut = match s.below(3) {
        0 => want.len() - 1,
        1 => want.len().min(65_537),
        _ => s.idx(want.len()),
    };
    if cut < want.len() {
        match T::try_unmarshal(&mut UnmarshalBuf::new(&want[..cut])) {
            Err(Error::UnexpectedEndOfBuffer) => (),
            r => return Err(format!("{what}: {cut} of {} bytes decoded as {:?}", want.len(), r.map(|_| ()))),
        }
        match x.try_marshal(&mut b[..cut]) {
            Err(Error::UnexpectedEndOfBuffer) => (),
            r => return Err(format!("{what}: marshaled into {cut} bytes of {}: {r:?}", want.len())),
        }
    }
    Ok(())
}
/// An encoding with a count above the capacity.
fn over<T: Marshalable>(what: &str, wire: &[u8]) -> Result<(), String> {
    match T::try_unmarshal(&mut UnmarshalBuf::new(wire)) {
        Err(Error::ArrayLengthExceeded) => Ok(()),
        Err(e) => Err(format!("{what}: {e:?} for a count above the array")),
        Ok(_) => Err(format!("{what}: a count above the array accepted")),
    }
}
fn simple<T>(s: &mut Src, what: &str, data: &[u8]) -> Result<(), String>
where
    T: Tpm2bSimple + Marshalable + PartialEq,
{
    match T::from_bytes(data) {
        Ok(_) if data.len() > 65_535 => Err(format!("{what}: {} bytes accepted", data.len())),
        Err(_) if data.len() > 65_535 => Ok(()),
        Err(e) => Err(format!("{what}: {} bytes refused: {e:?}", data.len())),
        Ok(x) => {
            if x.get_size() as usize != data.len() || x.get_buffer() != data {
                return Err(format!("{what}: does not hold the {} bytes given", data.len()));
            }
            let mut w = (data.len() as u16).to_be_bytes().to_vec();
            w.extend(data);
            both(s, what, &x, &w)
        }
    }
}

pub fn case(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let k = s.below(6);
    let n = match s.below(8) {
        0 => s.idx(66_000),
        1 => s.idx(300),
        2 => 65_537 + s.idx(8000),
        _ => 65_530 + s.idx(12),
    };
    let mut r = Rng::new(1 + s.below(1 << 20));
    c.describe(|| format!("large type {k} with {n} elements"));
    c.label("count or length of more than 16 bits");
    c.nontrivial_key(0xB16 << 40 | (k << 20) | n as u64);
    let mut bytes = |n: usize| -> Vec<u8> { (0..n).map(|_| r.next() as u8).collect() };
    match k {
        0 => {
            let data = bytes(n.max(9));
            let mut w = (n as u32).to_be_bytes().to_vec();
            w.extend(&data[..n]);
            if n > 70_000 {
                return over::<A>("u32 count", &w);
            }
            let mut x = A { n: n as u32, m: [0; 70_000] };
            x.m[..n].copy_from_slice(&data[..n]);
            both(s, "u32 count", &x, &w)?;
            // the same count with bits above the 16th
            let big = n as u32 + 70_001 + (s.u32() >> 1);
            w[..4].copy_from_slice(&big.to_be_bytes());
            over::<A>("u32 count", &w)?;
            x.n = big;
            match x.try_marshal(&mut vec![0; 80_000]) {
                Err(Error::ArrayLengthExceeded) => Ok(()),
                r => Err(format!("u32 count {big}: {r:?}")),
            }
        }
        1 => {
            let mut w = bytes(1);
            w.extend((n as u64).to_be_bytes());
            w.extend(bytes(2 * n + 4));
            if n > 65_600 {
                return over::<B>("u64 count", &w);
            }
            let mut x = B { h: w[0], n: n as u64, m: [0; 65_600], t: u32::from_be_bytes(w[9 + 2 * n..].try_into().unwrap()) };
            for i in 0..n {
                x.m[i] = u16::from_be_bytes([w[9 + 2 * i], w[10 + 2 * i]]);
            }
            both(s, "u64 count", &x, &w)?;
            let big = n as u64 | 1 << (17 + s.below(47));
            w[1..9].copy_from_slice(&big.to_be_bytes());
            over::<B>("u64 count", &w)?;
            x.n = big;
            match x.try_marshal(&mut vec![0; 140_000]) {
                Err(Error::ArrayLengthExceeded) => Ok(()),
                r => Err(format!("u64 count {big}: {r:?}")),
            }
        }
        2 => {
            let n = n.min(65_535);
            let mut w = (n as u16).to_be_bytes().to_vec();
            w.extend(bytes(n + 2));
            let mut x = C { n: n as u16, m: [0; 65_535], t: u16::from_be_bytes(w[2 + n..].try_into().unwrap()) };
            x.m[..n].copy_from_slice(&w[2..2 + n]);
            both(s, "u16 count", &x, &w)
        }
        3 => {
            let w = bytes(66_002);
            let mut x = D { m: [0; 66_000], t: u16::from_be_bytes(w[66_000..].try_into().unwrap()) };
            x.m.copy_from_slice(&w[..66_000]);
            both(s, "fixed array", &x, &w)
        }
        4 => simple::<E>(s, "buffer of 65535 bytes", &bytes(n)),
        _ => simple::<F>(s, "buffer of 70000 bytes", &bytes(n)),
    }
}
