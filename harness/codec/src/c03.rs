//! C03: unmarshaling arbitrary bytes.
use crate::c01::each_type;
use crate::types::{pick, types, Dyn, Ty, R};
use tpm2_rs_marshalable::{Error, UnmarshalBuf};
use vh_engine::{hash64, hex, Ctx, Prop, Src};
use vh_model::{damage, dec, enc, gen, max_len, Sch, ALE, UEOB, USEL};

fn bit(e: Error) -> u8 {
    match e {
        Error::ArrayLengthExceeded => ALE,
        Error::UnexpectedEndOfBuffer => UEOB,
        Error::UnknownSelector => USEL,
    }
}

fn judge(t: &Ty, sch: &Sch, bytes: &[u8], r: R<Box<dyn Dyn>>, consumed: usize, c: &mut Ctx) -> Result<(), String> {
    let mut p = 0;
    let want = dec(sch, bytes, &mut p);
    match (want, r) {
        (Err(_), Ok(x)) => Err(format!("{}: {} accepted as {:?}", t.name, hex(&bytes[..bytes.len().min(1500)]), x.dview())),
        (Ok(v), Err(e)) => Err(format!("{}: {} is {v:?} but refused: {e:?}", t.name, hex(&bytes[..bytes.len().min(1500)]))),
        (Err(ok), Err(e)) => {
            c.label(match e {
                Error::ArrayLengthExceeded => "array length exceeded",
                Error::UnexpectedEndOfBuffer => "end of data",
                Error::UnknownSelector => "unknown selector",
            });
            if ok & bit(e) == 0 {
                return Err(format!("{}: {} refused with {e:?}, acceptable is set {ok:#b}", t.name, hex(&bytes[..bytes.len().min(1500)])));
            }
            Ok(())
        }
        (Ok(v), Ok(x)) => {
            c.label("accepted");
            if x.dview()? != v {
                return Err(format!("{}: {} decoded as {:?} instead of {v:?}", t.name, hex(&bytes[..bytes.len().min(1500)]), x.dview()?));
            }
            if consumed != p {
                return Err(format!("{}: {consumed} bytes consumed instead of {p}", t.name));
            }
            Ok(())
        }
    }
}

pub fn case(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let t = match s.directed(types().len() as u64 + 1) {
        0 => pick(s),
        i => &types()[i as usize - 1],
    };
    let mut bytes = Vec::new();
    if s.chance(1, 4) {
        let n = match s.below(4) {
            0 => s.len(8),
            1 => s.len(64),
            _ => s.len((max_len(&t.sch) + 4).min(1200)),
        };
        bytes = s.blob(n);
    } else {
        let v = gen(s, &t.sch, 0);
        let mut marks = Vec::new();
        enc(&t.sch, &v, &mut bytes, &mut marks);
        // Bytes after the encoding make a bad count, length or selector show as such.
        if s.chance(1, 2) {
            let n = s.len(300);
            let tail = s.blob(n);
            bytes.extend_from_slice(&tail);
        }
        if s.chance(1, 4000) {
            let mut g = vh_engine::Rng::new(s.below(1 << 16));
            bytes.extend((0..s.idx(140_000)).map(|_| g.next() as u8));
        }
        for _ in 0..1 + s.below(3) {
            let ms: Vec<_> = marks.iter().copied().filter(|m| m.pos + m.w <= bytes.len()).collect();
            damage(s, &mut bytes, &ms);
        }
    }
    c.describe(|| format!("{} from {} bytes {}", t.name, bytes.len(), hex(&bytes[..bytes.len().min(1500)])));
    if !bytes.is_empty() {
        c.nontrivial_key(hash64(&bytes) ^ hash64(t.name.as_bytes()));
    }
    let mut u = UnmarshalBuf::new(&bytes);
    let r = (t.unmarshal)(&mut u);
    let used = bytes.len() - u.len();
    if let Ok(x) = &r {
        let mut b = vec![0xC3; used + 64];
        match x.dmarshal(&mut b) {
            Ok(n) if n == used && b[..n] == bytes[..n] => (),
            r => return Err(format!("{}: accepted {} but marshals to {r:?} {}", t.name, hex(&bytes[..used]), hex(&b[..used + 8]))),
        }
    }
    judge(t, &t.sch, &bytes, r, used, c)?;
    if let (Some(var), Sch::E { w, .. }) = (t.var, &t.sch) {
        if bytes.len() >= *w {
            let sel = bytes[..*w].iter().fold(0u64, |a, x| a << 8 | *x as u64);
            let mut u = UnmarshalBuf::new(&bytes[*w..]);
            let r = (var.unmarshal)(sel, &mut u);
            let used = bytes.len() - u.len();
            judge(t, &t.sch, &bytes, r, used, c)?;
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        seeds: Some(each_type),
        quick: 10_000_000,
        thorough: 120_000_000,
        quick_cov: 1_000_000,
        thorough_cov: 20_000_000,
        assumptions: &[
            "which error reports an over-long sized buffer is left open",
            "where several causes apply at once, any of their errors is accepted",
        ],
        ..Prop::new("C03", case, "non-empty byte string, distinct by type and bytes")
    }
}
