//! C04: marshaling into destinations of any length.
use crate::c01::{each_type, variant_bytes};
use crate::types::{pick, types, Model, Ty, R};
use tpm2_rs_base::{TpmsPcrSelection, TpmsTaggedProperty, TpmlTaggedTpmProperty};
use tpm2_rs_marshalable::{Error, Marshalable};
use vh_engine::{hash64, hex, Ctx, Prop, Src};
use vh_model::{enc, gen, has_open, overfull, Mark, Val};

fn one(what: &str, n: usize, want: &[u8], fill: u8, over: bool, f: &mut dyn FnMut(&mut [u8]) -> Result<R<usize>, String>) -> Result<(), String> {
    // The destination lies inside a larger one, whose other bytes must not change either.
    let mut mem = vec![!fill; n + 16];
    mem[8..8 + n].fill(fill);
    let r = f(&mut mem[8..8 + n])?;
    if mem[..8].iter().chain(&mem[8 + n..]).any(|x| *x != !fill) {
        return Err(format!("{what}: wrote outside its destination"));
    }
    let dst = &mem[8..8 + n];
    match r {
        Ok(m) if over => Err(format!("{what}: encoded ({m} bytes) although a count exceeds its array")),
        Err(e) if over => {
            if e == Error::ArrayLengthExceeded || e == Error::UnexpectedEndOfBuffer && n < want.len() {
                Ok(())
            } else {
                Err(format!("{what}: {e:?} into {n} bytes for a count above the array"))
            }
        }
        Ok(m) => {
            if n < want.len() {
                return Err(format!("{what}: {m} bytes reported in a destination of {n}, the encoding has {}", want.len()));
            }
            if m != want.len() || dst[..m] != *want {
                return Err(format!("{what}: wrote {} ({m}) instead of {}", hex(&dst[..n.min(m + 8)]), hex(want)));
            }
            if dst[m..].iter().any(|x| *x != fill) {
                return Err(format!("{what}: modified bytes beyond the {m} reported"));
            }
            Ok(())
        }
        Err(e) => {
            if n >= want.len() {
                return Err(format!("{what}: {e:?} although {n} bytes have room for {}", want.len()));
            }
            if e != Error::UnexpectedEndOfBuffer {
                return Err(format!("{what}: {e:?} for a destination of {n} bytes instead of {}", want.len()));
            }
            Ok(())
        }
    }
}

/// Destination lengths worth trying.
fn lengths(s: &mut Src, len: usize, marks: &[Mark]) -> Vec<usize> {
    if len <= 40 {
        return (0..=len + 3).collect();
    }
    let mut l = vec![0, 1, len - 1, len, len + 1, len + 2 + s.idx(64)];
    for _ in 0..4 {
        l.push(s.idx(len + 1));
        if !marks.is_empty() {
            let m = s.pick(marks);
            l.push(m.pos + s.idx(m.w + 2));
        }
    }
    l
}

/// Counts far above the array, which the value tree cannot express.
fn huge(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let v = gen(s, &TpmsTaggedProperty::sch(), 0);
    let mut t = TpmlTaggedTpmProperty::default();
    t.tpm_property = [TpmsTaggedProperty::build(&v, 0)?; 127];
    t.count = 128 + s.int(u32::MAX as u64 - 128) as u32;
    let mut p = TpmsPcrSelection::build(&Val::S(vec![Val::U(4), Val::L(vec![])]), s.u8())?;
    p.sizeof_select = 5 + s.int(250) as u8;
    let n = s.len(2000);
    c.describe(|| format!("count {} sizeof_select {} into {n} bytes", t.count, p.sizeof_select));
    c.label("huge count");
    c.nontrivial_key(t.count as u64 | (p.sizeof_select as u64) << 32 | (n as u64) << 40);
    one("TpmlTaggedTpmProperty", n, &vec![0; t.count as usize / 4 + 1000], 0x77, true, &mut |b| Ok(t.try_marshal(b)))?;
    one("TpmlTaggedTpmProperty", 4000, &[], 0x77, true, &mut |b| Ok(t.try_marshal(b)))?;
    one("TpmsPcrSelection", 300, &[], 0x77, true, &mut |b| Ok(p.try_marshal(b)))
}

pub fn case(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let d = s.directed(types().len() as u64 + 1);
    if d == 0 && s.chance(1, 50) {
        return huge(s, c);
    }
    let t: &Ty = match d {
        0 => pick(s),
        i => &types()[i as usize - 1],
    };
    let claim = if has_open(&t.sch) && s.chance(1, 3) { 150 } else { 0 };
    let v = gen(s, &t.sch, claim);
    let over = overfull(&t.sch, &v);
    let (mut want, mut marks) = (Vec::new(), Vec::new());
    enc(&t.sch, &v, &mut want, &mut marks);
    let fill = if s.chance(1, 2) { 0x3C } else { 0 };
    let mut ls = lengths(s, want.len(), &marks);
    if s.chance(1, 2000) {
        ls.push(want.len() + s.idx(140_000));
    }
    if over {
        ls.push(want.len() + 600);
    }
    c.describe(|| format!("{} {v:?} into {ls:?} bytes", t.name));
    c.label(if over { "overfull" } else { t.name });
    if !want.is_empty() {
        c.nontrivial_key(hash64(&want) ^ hash64(t.name.as_bytes()));
    }
    let x = (t.build)(&v, 0xA5)?;
    c.more_evaluations(ls.len() as u64 - 1);
    for n in &ls {
        one(t.name, *n, &want, fill, over, &mut |b| Ok(x.dmarshal(b)))?;
    }
    if let Some(var) = t.var {
        let want = variant_bytes(&t.sch, &v);
        for n in ls {
            one(t.name, n, &want, fill, over, &mut |b| (var.marshal)(&v, 0xA5, b))?;
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        seeds: Some(each_type),
        quick: 3_000_000,
        thorough: 100_000_000,
        quick_cov: 600_000,
        thorough_cov: 5_000_000,
        assumptions: &["when a count is above its array and the destination is too small as well, either error is accepted"],
        ..Prop::new("C04", case, "value with a non-empty encoding, distinct by type and encoding, tried in every destination length up to 40 and at the boundaries above")
    }
}
