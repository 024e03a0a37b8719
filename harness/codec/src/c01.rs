//! C01: marshaling writes the specification's bytes.
use crate::types::{pick, types, Ty};
use vh_engine::{hash64, hex, Ctx, Prop, Src};
use vh_model::{encode, gen, Sch, Val};

/// The part of an enum's encoding after the selector.
pub fn variant_bytes(sch: &Sch, v: &Val) -> Vec<u8> {
    let Sch::E { w, .. } = sch else { panic!("not an enum") };
    encode(sch, v)[*w..].to_vec()
}

fn check(t: &Ty, v: &Val, pad: u8, fill: u8, slack: usize) -> Result<(), String> {
    let want = encode(&t.sch, v);
    let x = (t.build)(v, pad)?;
    let mut b = vec![fill; want.len() + slack];
    let n = x.dmarshal(&mut b).map_err(|e| format!("{}: not marshaled into {} bytes for {}: {e:?}", t.name, b.len(), want.len()))?;
    if n != want.len() {
        return Err(format!("{}: {n} bytes reported, the encoding has {}: {}", t.name, want.len(), hex(&want)));
    }
    if b[..n] != want[..] {
        return Err(format!("{}: wrote {}, specified {}", t.name, hex(&b[..n]), hex(&want)));
    }
    if b[n..].iter().any(|x| *x != fill) {
        return Err(format!("{}: more bytes written than the {n} reported", t.name));
    }
    if let Some(var) = t.var {
        let want = variant_bytes(&t.sch, v);
        let Val::E(sel, _) = v else { panic!() };
        let d = (var.disc)(v)?;
        if d != *sel {
            return Err(format!("{}: discriminant {d:#x} instead of {sel:#x}", t.name));
        }
        let mut b = vec![fill; want.len() + slack];
        let n = (var.marshal)(v, pad, &mut b)?.map_err(|e| format!("{}: variant not marshaled: {e:?}", t.name))?;
        if b[..n.min(b.len())] != want[..] || b[want.len()..].iter().any(|x| *x != fill) {
            return Err(format!("{}: variant wrote {} ({n}), specified {}", t.name, hex(&b), hex(&want)));
        }
    }
    Ok(())
}

pub fn case(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    // Directed seeds name the type; 0 leaves it to the generator.
    let t = match s.directed(types().len() as u64 + 1) {
        0 => pick(s),
        i => &types()[i as usize - 1],
    };
    let v = gen(s, &t.sch, 0);
    let pad = if s.chance(1, 2) { 0xA5 } else { 0 };
    let (fill, slack) = (if s.chance(1, 2) { 0xEE } else { 0 }, s.len(9));
    c.describe(|| format!("{} {:?} pad {pad:#x}", t.name, v));
    c.label(t.name);
    let e = encode(&t.sch, &v);
    if e.iter().any(|x| *x != 0) {
        c.nontrivial_key(hash64(&e) ^ hash64(t.name.as_bytes()));
    }
    check(t, &v, pad, fill, slack)
}

pub fn each_type(_: bool) -> Vec<Vec<u64>> {
    (1..=types().len() as u64).map(|i| vec![i]).collect()
}
pub fn prop() -> Prop {
    Prop {
        seeds: Some(each_type),
        quick: 9_000_000,
        thorough: 200_000_000,
        quick_cov: 500_000,
        thorough_cov: 10_000_000,
        assumptions: &[
            "the reference encoder and the selector values, transcribed by hand from TPM 2.0 Part 2, are right",
            "types whose fields are private and have no constructor are built by decoding their encoding",
        ],
        ..Prop::new("C01", case, "value whose encoding is not all zero, distinct by type and encoding")
    }
}
