//! C05: sized buffers.
use crate::types::{from_wire, Model};
use tpm2_rs_base::*;
use tpm2_rs_marshalable::Marshalable;
use vh_engine::{hash64, hex, Ctx, Prop, Src};
use vh_model::{damage, dec, enc, encode, gen, max_len, overfull, Sch, Val};

/// `cap` is the specified capacity; `None` where the code derives it from a structure that the
/// buffer must be able to hold, whose longest encoding is `min`.
pub fn plain<T>(s: &mut Src, c: &mut Ctx, name: &'static str, cap: Option<usize>, min: usize) -> Result<(), String>
where
    T: Tpm2bSimple + Marshalable + Default + PartialEq + AsRef<[u8]> + Clone + std::fmt::Debug,
{
    let max = T::MAX_BUFFER_SIZE;
    if cap.is_some_and(|x| x != max) {
        return Err(format!("{name}: capacity {max} instead of {cap:?}"));
    }
    if max < min || max > 65535 {
        return Err(format!("{name}: capacity {max} cannot hold its longest content of {min} bytes"));
    }
    let n = match s.below(8) {
        0 => max + 1 + s.idx(8),
        1 => max + s.len(3000),
        2 => 65536 - 2 + s.idx(max + 8),
        _ => s.len(max),
    };
    let data = s.blob(n);
    c.describe(|| format!("{name} from {n} bytes {}", hex(&data[..n.min(80)])));
    c.label(name);
    if n > 0 {
        c.nontrivial_key(hash64(&data) ^ hash64(name.as_bytes()));
    }
    let d = T::default();
    if d.get_size() != 0 || !d.get_buffer().is_empty() || !d.as_ref().is_empty() {
        return Err(format!("{name}: the default is not empty"));
    }
    let x = match T::from_bytes(&data) {
        Ok(x) if n > max => return Err(format!("{name}: {n} bytes accepted with capacity {max}: {x:?}")),
        Err(_) if n > max => {
            c.label("too long");
            // The same on the wire, where the length still fits its field.
            if n < 65536 {
                let mut w = (n as u16).to_be_bytes().to_vec();
                w.extend_from_slice(&data);
                if from_wire::<T>(&w).0.is_ok() {
                    return Err(format!("{name}: {n} bytes accepted from the wire with capacity {max}"));
                }
            }
            return Ok(());
        }
        Err(e) => return Err(format!("{name}: {n} bytes refused with capacity {max}: {e:?}")),
        Ok(x) => x,
    };
    let mut wire = (n as u16).to_be_bytes().to_vec();
    wire.extend_from_slice(&data);
    let (y, used) = from_wire::<T>(&wire);
    let y = y.map_err(|e| format!("{name}: {} refused: {e:?}", hex(&wire)))?;
    if used != wire.len() {
        return Err(format!("{name}: {used} bytes consumed instead of {}", wire.len()));
    }
    for (how, v) in [("from_bytes", &x), ("the wire", &y), ("a copy", &x.clone())] {
        if v.get_size() as usize != n {
            return Err(format!("{name} from {how}: get_size {} instead of {n}", v.get_size()));
        }
        if v.get_buffer() != data || v.as_ref() != data {
            return Err(format!("{name} from {how}: holds {} / {} instead of {}", hex(v.get_buffer()), hex(v.as_ref()), hex(&data)));
        }
        let mut out = vec![0x99; n + 2 + 5];
        match v.try_marshal(&mut out) {
            Ok(m) if m == n + 2 && out[..m] == wire && out[m..].iter().all(|b| *b == 0x99) => (),
            r => return Err(format!("{name} from {how}: marshaled {r:?} {}", hex(&out))),
        }
        if *v != x {
            return Err(format!("{name}: {how} and from_bytes of the same bytes differ"));
        }
    }
    // Other content is another value.
    let mut other = data.clone();
    if n > 0 && s.chance(1, 2) {
        let i = s.idx(n);
        other[i] ^= 1 + s.below(255) as u8;
    } else if n < max {
        other.push(0);
    } else {
        other.pop();
    }
    if n > 0 || max > 0 {
        let z = T::from_bytes(&other).map_err(|e| format!("{name}: {} bytes refused: {e:?}", other.len()))?;
        if z == x {
            return Err(format!("{name}: {} equals {}", hex(&data), hex(&other)));
        }
    }
    Ok(())
}

pub fn wrapping<T>(s: &mut Src, c: &mut Ctx, name: &'static str) -> Result<(), String>
where
    T: Tpm2bStruct + Marshalable + AsRef<[u8]> + PartialEq,
    T::StructType: Model + PartialEq + std::fmt::Debug,
{
    let sch: Sch = T::StructType::sch();
    if T::MAX_BUFFER_SIZE < max_len(&sch) {
        return Err(format!("{name}: capacity {} below the longest encoding {}", T::MAX_BUFFER_SIZE, max_len(&sch)));
    }
    c.label(name);
    let over = if s.chance(1, 8) { 300 } else { 0 };
    let v = gen(s, &sch, over);
    let e = encode(&sch, &v);
    c.describe(|| format!("{name} of {v:?}"));
    c.nontrivial_key(hash64(&e) ^ hash64(name.as_bytes()));
    let st = T::StructType::build(&v, if s.chance(1, 2) { 0x5C } else { 0 })?;
    if overfull(&sch, &v) {
        c.label("structure with a count above its array");
        return match T::from_struct(&st) {
            Err(_) => Ok(()),
            Ok(_) => Err(format!("{name}: wraps a structure that has no encoding")),
        };
    }
    let x = T::from_struct(&st).map_err(|e| format!("{name}: structure refused: {e:?}"))?;
    if x.get_size() as usize != e.len() || x.get_buffer() != e || x.as_ref() != e {
        return Err(format!("{name}: contains {} ({}) instead of {}", hex(x.get_buffer()), x.get_size(), hex(&e)));
    }
    if x != T::from_bytes(&e).map_err(|e| format!("{name}: encoding refused: {e:?}"))? {
        return Err(format!("{name}: from_struct and from_bytes of its encoding differ"));
    }
    let back = x.to_struct().map_err(|e| format!("{name}: structure not extracted: {e:?}"))?;
    if back.view()? != v {
        return Err(format!("{name}: extracted {:?} instead of {v:?}", back.view()?));
    }
    if back != T::StructType::build(&v, 0)? {
        return Err(format!("{name}: the extracted structure is not equal to the original"));
    }
    let mut wire = (e.len() as u16).to_be_bytes().to_vec();
    wire.extend_from_slice(&e);
    let mut out = vec![0; wire.len()];
    if x.try_marshal(&mut out) != Ok(wire.len()) || out != wire {
        return Err(format!("{name}: marshaled {} instead of {}", hex(&out), hex(&wire)));
    }
    let (y, _) = from_wire::<T>(&wire);
    let y = y.map_err(|e| format!("{name}: refused on the wire: {e:?}"))?;
    if y != x || y.to_struct() != Ok(back) {
        return Err(format!("{name}: not the same after the wire"));
    }
    // Content that may not be an encoding at all.
    let (mut bytes, mut marks) = (Vec::new(), Vec::new());
    enc(&sch, &v, &mut bytes, &mut marks);
    for _ in 0..1 + s.below(2) {
        let ms: Vec<_> = marks.iter().copied().filter(|m| m.pos + m.w <= bytes.len()).collect();
        damage(s, &mut bytes, &ms);
    }
    bytes.truncate(T::MAX_BUFFER_SIZE);
    let z = T::from_bytes(&bytes).map_err(|e| format!("{name}: {} bytes refused: {e:?}", bytes.len()))?;
    let mut p = 0;
    match (dec(&sch, &bytes, &mut p), z.to_struct()) {
        (Err(_), Ok(st)) => Err(format!("{name}: {} extracted as {st:?}", hex(&bytes))),
        (Err(_), Err(_)) => {
            c.label("content not an encoding");
            Ok(())
        }
        (Ok(w), Ok(st)) if st.view()? != w => Err(format!("{name}: {} extracted as {:?} instead of {w:?}", hex(&bytes), st.view()?)),
        (Ok(_), Err(e)) if p == bytes.len() => Err(format!("{name}: {} not extracted: {e:?}", hex(&bytes))),
        _ => Ok(()),
    }
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    macro_rules! p { ($t:ident, $cap:expr) => { plain::<$t>(s, c, stringify!($t), Some($cap), 0) } }
    macro_rules! w { ($t:ident, $min:expr) => { plain::<$t>(s, c, stringify!($t), None, $min) } }
    let _: Option<Val> = None;
    match s.below(30) {
        0 => p!(Tpm2bDigest, 64),
        1 => p!(Tpm2bData, 64),
        2 => p!(Tpm2bEvent, 1024),
        3 => p!(Tpm2bMaxBuffer, 1024),
        4 => p!(Tpm2bMaxNvBuffer, 2048),
        5 => p!(Tpm2bIv, 16),
        6 => p!(Tpm2bSymKey, 32),
        7 => p!(Tpm2bLabel, 32),
        8 => p!(Tpm2bPublicKeyRsa, 512),
        9 => p!(Tpm2bPrivateKeyRsa, 256),
        10 => p!(Tpm2bEccParameter, 128),
        11 => p!(Tpm2bPrivateVendorSpecific, 1280),
        12 => p!(Tpm2bContextSensitive, 5120),
        13 => w!(Tpm2bName, 66),
        14 => w!(Tpm2bAttest, max_len(&TpmsAttest::sch())),
        15 => w!(Tpm2bSensitiveData, 256.max(max_len(&TpmsDerive::sch()))),
        16 => w!(Tpm2bSensitiveCreate, max_len(&TpmsSensitiveCreate::sch())),
        17 => w!(Tpm2bEncryptedSecret, 512.max(max_len(&TpmsEccPoint::sch()))),
        18 => w!(Tpm2bPublic, max_len(&TpmtPublic::sch())),
        19 => w!(Tpm2bTemplate, max_len(&TpmtPublic::sch())),
        20 => w!(Tpm2bPrivate, 66 + 66 + 2 + max_len(&TpmtSensitive::sch())),
        21 => w!(Tpm2bIdObject, max_len(&TpmsIdObject::sch())),
        22 => w!(Tpm2bContextData, max_len(&TpmsContextData::sch())),
        23 => w!(Tpm2bCreationData, max_len(&TpmsCreationData::sch())),
        24 | 25 => wrapping::<Tpm2bSensitiveCreate>(s, c, "Tpm2bSensitiveCreate"),
        26 | 27 => wrapping::<Tpm2bPublic>(s, c, "Tpm2bPublic"),
        _ => wrapping::<Tpm2bCreationData>(s, c, "Tpm2bCreationData"),
    }
}

pub fn prop() -> Prop {
    Prop {
        quick: 3_200_000,
        thorough: 60_000_000,
        quick_cov: 400_000,
        thorough_cov: 4_000_000,
        assumptions: &[
            "capacities the code derives from in-memory sizes are taken from the type and only required to hold the longest encoding of what the buffer is for",
            "extracting a structure followed by further bytes may succeed or fail",
        ],
        ..Prop::new("C05", case, "non-empty content, distinct by type and content")
    }
}
