//! C02: unmarshaling inverts marshaling and consumes exactly the value.
use crate::c01::each_type;
use crate::types::{pick, types, Ty};
use tpm2_rs_marshalable::UnmarshalBuf;
use vh_engine::{hash64, hex, Ctx, Prop, Src};
use vh_model::{encode, gen, Sch, Val};

fn remaining(u: &mut UnmarshalBuf) -> Vec<u8> {
    let n = u.len();
    let e = u.is_empty();
    let r = u.get(n).map(|x| x.to_vec()).unwrap_or_default();
    assert_eq!(e, r.is_empty(), "is_empty disagrees with what is left");
    r
}

pub fn case(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let first = s.directed(types().len() as u64 + 1);
    let n = if s.chance(1, 3000) { 5 + s.idx(120) } else { 1 + s.idx(4) };
    let mut seq: Vec<(&Ty, Val)> = Vec::new();
    for i in 0..n {
        let t = if i == 0 && first > 0 { &types()[first as usize - 1] } else { pick(s) };
        seq.push((t, gen(s, &t.sch, 0)));
    }
    let tail = if s.chance(1, 3000) {
        let mut g = vh_engine::Rng::new(s.below(1 << 16));
        (0..s.idx(140_000)).map(|_| g.next() as u8).collect()
    } else {
        let len = s.len(16);
        s.blob(len)
    };
    // Plain bytes taken between values, and requests for more than there is.
    let raw: Vec<usize> = if s.chance(1, 4) { (0..n).map(|_| s.len(6)).collect() } else { vec![0; n] };
    let greedy = s.chance(1, 8).then(|| s.int(u64::MAX - 200_000) as usize);
    // Either the specified bytes or those the code writes.
    let own = s.chance(1, 2);
    c.describe(|| format!("{:?} then {} (written by {})", seq.iter().map(|(t, v)| (t.name, v)).collect::<Vec<_>>(), hex(&tail[..tail.len().min(60)]), if own { "the code" } else { "the model" }));
    let mut wire = Vec::new();
    let mut spans = Vec::new();
    for ((t, v), k) in seq.iter().zip(&raw) {
        wire.extend((0..*k).map(|i| i as u8 ^ 0x96));
        let mut e = encode(&t.sch, v);
        if own {
            let x = (t.build)(v, 0)?;
            let mut b = vec![0; e.len() + 8];
            let n = x.dmarshal(&mut b).map_err(|e| format!("{}: not marshaled: {e:?}", t.name))?;
            b.truncate(n);
            e = b;
        }
        spans.push((wire.len(), wire.len() + e.len()));
        wire.extend_from_slice(&e);
    }
    let body = wire.len();
    wire.extend_from_slice(&tail);
    if body > 1 && wire[..body].iter().any(|x| *x != 0) {
        c.nontrivial_key(hash64(&wire));
    }
    c.label(seq[0].0.name);

    let mut u = UnmarshalBuf::new(&wire);
    for (((t, v), (a, z)), k) in seq.iter().zip(&spans).zip(&raw) {
        if let Some(x) = greedy {
            let had = u.len();
            if u.get(had + 1 + x).is_some() || u.len() != had {
                return Err(format!("{} of {had} bytes taken, {} left", had + 1 + x, u.len()));
            }
        }
        if u.get(*k) != Some(&wire[a - k..*a]) {
            return Err(format!("{k} plain bytes at {} are not those in the buffer", a - k));
        }
        let x = (t.unmarshal)(&mut u).map_err(|e| format!("{}: {} refused: {e:?}", t.name, hex(&wire[*a..*z])))?;
        if wire.len() - u.len() != *z {
            return Err(format!("{}: consumed {} bytes of an encoding of {}", t.name, (wire.len() - u.len()) as i64 - *a as i64, z - a));
        }
        let got = x.dview()?;
        if got != *v {
            return Err(format!("{}: {} decoded as {got:?} instead of {v:?}", t.name, hex(&wire[*a..*z])));
        }
        let y = (t.build)(v, 0)?;
        if !x.same(&*y) || !y.same(&*x) {
            return Err(format!("{}: the decoded value is not equal to the original {v:?}", t.name));
        }
        let mut b = vec![0x5A; z - a + 3];
        match x.dmarshal(&mut b) {
            Ok(n) if n == z - a && b[..n] == wire[*a..*z] => (),
            r => return Err(format!("{}: marshaling again gives {r:?} {} instead of {}", t.name, hex(&b), hex(&wire[*a..*z]))),
        }
        if let (Some(var), Val::E(sel, _), Sch::E { w, .. }) = (t.var, v, &t.sch) {
            let mut u = UnmarshalBuf::new(&wire[a + w..]);
            let x = (var.unmarshal)(*sel, &mut u).map_err(|e| format!("{}: variant {sel:#x} refused: {e:?}", t.name))?;
            if x.dview()? != *v || !x.same(&*y) {
                return Err(format!("{}: variant {sel:#x} decoded as {:?} instead of {v:?}", t.name, x.dview()?));
            }
            if remaining(&mut u) != wire[*z..] {
                return Err(format!("{}: variant {sel:#x} consumed other bytes than its own", t.name));
            }
        }
    }
    let rest = remaining(&mut u);
    if rest != tail {
        return Err(format!("left in the buffer: {} instead of {}", hex(&rest[..rest.len().min(200)]), hex(&tail[..tail.len().min(200)])));
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        seeds: Some(each_type),
        quick: 2_000_000,
        thorough: 60_000_000,
        quick_cov: 200_000,
        thorough_cov: 6_000_000,
        assumptions: &["equality is the types' own PartialEq and, besides, equality of every publicly readable field"],
        ..Prop::new("C02", case, "sequence whose encoding is longer than one byte and not all zero, distinct by bytes")
    }
}
