//! C18: constants, handle ranges, NV index type.
use crate::spec::table;
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::errors::TpmRcError;
use tpm2_rs_base::*;
use tpm2_rs_marshalable::Marshalable;
use vh_engine::{Ctx, Prop, Src};

fn constants(c: &mut Ctx) -> Result<(), String> {
    c.describe(|| "every named constant".into());
    let t = table();
    for (ty, n, got, want) in &t {
        if got != want {
            return Err(format!("{ty}::{n} is {got:#x}, the specification says {want:#x}"));
        }
    }
    let more: &[(&str, u64, u64)] = &[
        ("TPM2_SHA_DIGEST_SIZE", TPM2_SHA_DIGEST_SIZE as u64, 20),
        ("TPM2_SHA1_DIGEST_SIZE", TPM2_SHA1_DIGEST_SIZE as u64, 20),
        ("TPM2_SHA256_DIGEST_SIZE", TPM2_SHA256_DIGEST_SIZE as u64, 32),
        ("TPM2_SHA384_DIGEST_SIZE", TPM2_SHA384_DIGEST_SIZE as u64, 48),
        ("TPM2_SHA512_DIGEST_SIZE", TPM2_SHA512_DIGEST_SIZE as u64, 64),
        ("TPM2_SM3_256_DIGEST_SIZE", TPM2_SM3_256_DIGEST_SIZE as u64, 32),
        ("TpmtHa::UNION_SIZE", TpmtHa::UNION_SIZE as u64, 64),
        ("TPM2_PCR_SELECT_MAX", TPM2_PCR_SELECT_MAX as u64, (TPM2_MAX_PCRS as u64 + 7) / 8),
        ("RC_VER_1", TpmRc::RC_VER_1 as u64, 0x100),
        ("RC_FMT_1", TpmRc::RC_FMT_1 as u64, 0x80),
        ("RC_WARN", TpmRc::RC_WARN as u64, 0x900),
        ("RC_P", TpmRc::RC_P as u64, 0x40),
        ("RC_S", TpmRc::RC_S as u64, 0x800),
        ("HmacSessionFirst", TpmHc::HmacSessionFirst.get() as u64, 0x0200_0000),
        ("HmacSessionLast", TpmHc::HmacSessionLast.get() as u64, 0x0200_003F),
        ("PolicySessionFirst", TpmHc::PolicySessionFirst.get() as u64, 0x0300_0000),
        ("PolicySessionLast", TpmHc::PolicySessionLast.get() as u64, 0x0300_003F),
        ("PersistentFirst", TpmHc::PersistentFirst.get() as u64, 0x8100_0000),
        ("PersistentLast", TpmHc::PersistentLast.get() as u64, 0x81FF_FFFF),
        ("NVIndexFirst", TpmHc::NVIndexFirst.get() as u64, 0x0100_0000),
        ("NVIndexLast", TpmHc::NVIndexLast.get() as u64, 0x01FF_FFFF),
        ("GetCapabilityCmd code", GetCapabilityCmd::CMD_CODE.0 as u64, 0x17A),
        ("GetRandomCmd code", GetRandomCmd::CMD_CODE.0 as u64, 0x17B),
        ("PcrReadCmd code", PcrReadCmd::CMD_CODE.0 as u64, 0x17E),
        ("StartupCmd code", StartupCmd::CMD_CODE.0 as u64, 0x144),
        ("RS_PW", handle(&TpmiShAuthSession::RS_PW)? as u64, 0x4000_0009),
        ("reserved-free TPMA_OBJECT", TpmaObject::all().bits() as u64, 0x000F_0CF6),
        ("reserved-free TPMA_SESSION", TpmaSession::all().bits() as u64, 0xE7),
        ("reserved-free TPMA_ALGORITHM", TpmaAlgorithm::all().bits() as u64, 0x70F),
    ];
    for (n, got, want) in more {
        if got != want {
            return Err(format!("{n} is {got:#x}, the specification says {want:#x}"));
        }
    }
    // Digest length by algorithm, as encoded.
    for (x, n) in [
        (TpmtHa::Sha1([1; 20]), 20usize),
        (TpmtHa::Sha256([1; 32]), 32),
        (TpmtHa::Sha384([1; 48]), 48),
        (TpmtHa::Sha512([1; 64]), 64),
        (TpmtHa::Sm3_256([1; 32]), 32),
    ] {
        let mut b = [0; 80];
        if x.try_marshal(&mut b) != Ok(n + 2) {
            return Err(format!("{x:?} does not marshal to {} bytes", n + 2));
        }
    }
    use tpm2::TpmiAlgHash as H;
    for (h, id, n) in [
        (H::Sha1, 4u16, 20),
        (H::Sha256, 0xB, 32),
        (H::Sha384, 0xC, 48),
        (H::Sha512, 0xD, 64),
        (H::Sm3_256, 0x12, 32),
        (H::Sha3_256, 0x27, 32),
        (H::Sha3_384, 0x28, 48),
        (H::Sha3_512, 0x29, 64),
    ] {
        if h as u16 != id || h.digest_size() != n {
            return Err(format!("tpm2::{h:?} is {:#x} with {} bytes instead of {id:#x} with {n}", h as u16, h.digest_size()));
        }
    }
    use tpm2::{Alg as A, MarshalArray, UnmarshalArray};
    for (n, a, id) in [
        ("Rsa", A::Rsa, 0x0001),
        ("Tdes", A::Tdes, 0x0003),
        ("Sha1", A::Sha1, 0x0004),
        ("Hmac", A::Hmac, 0x0005),
        ("Aes", A::Aes, 0x0006),
        ("Mgf1", A::Mgf1, 0x0007),
        ("KeyedHash", A::KeyedHash, 0x0008),
        ("Xor", A::Xor, 0x000a),
        ("Sha256", A::Sha256, 0x000b),
        ("Sha384", A::Sha384, 0x000c),
        ("Sha512", A::Sha512, 0x000d),
        ("Null", A::Null, 0x0010),
        ("Sm3_256", A::Sm3_256, 0x0012),
        ("Sm4", A::Sm4, 0x0013),
        ("RsaSsa", A::RsaSsa, 0x0014),
        ("RsaEs", A::RsaEs, 0x0015),
        ("RsaPss", A::RsaPss, 0x0016),
        ("Oaep", A::Oaep, 0x0017),
        ("Ecdsa", A::Ecdsa, 0x0018),
        ("Ecdh", A::Ecdh, 0x0019),
        ("Ecdaa", A::Ecdaa, 0x001a),
        ("Sm2", A::Sm2, 0x001b),
        ("EcSchnorr", A::EcSchnorr, 0x001c),
        ("Ecmqv", A::Ecmqv, 0x001d),
        ("Kdf1Sp800_56A", A::Kdf1Sp800_56A, 0x0020),
        ("Kdf2", A::Kdf2, 0x0021),
        ("Kdf1Sp800_108", A::Kdf1Sp800_108, 0x0022),
        ("Ecc", A::Ecc, 0x0023),
        ("SymCipher", A::SymCipher, 0x0025),
        ("Camellia", A::Camellia, 0x0026),
        ("Sha3_256", A::Sha3_256, 0x0027),
        ("Sha3_384", A::Sha3_384, 0x0028),
        ("Sha3_512", A::Sha3_512, 0x0029),
        ("Ctr", A::Ctr, 0x0040),
        ("Ofb", A::Ofb, 0x0041),
        ("Cbc", A::Cbc, 0x0042),
        ("Cfb", A::Cfb, 0x0043),
        ("Ecb", A::Ecb, 0x0044),
    ] {
        let mut b = [0; 2];
        a.marshal_array(&mut b);
        let Ok(back) = A::unmarshal_array(&b);
        if a != A(id) || a.0 != id || u16::from_be_bytes(b) != id || back.0 != id {
            return Err(format!("tpm2::Alg::{n} is {a:x?}, on the wire {b:x?}, the specification says {id:#x}"));
        }
    }
    c.more_evaluations((t.len() + more.len()) as u64);
    Ok(())
}
fn handle<T: Marshalable>(t: &T) -> Result<u32, String> {
    let mut b = [0; 4];
    match t.try_marshal(&mut b) {
        Ok(4) => Ok(u32::from_be_bytes(b)),
        r => Err(format!("a handle marshals as {r:?}")),
    }
}

#[inline]
fn ranges(v: u32) -> Result<(), String> {
    let hmac = v >> 24 == 2 && v & 0xff_ffff < 64;
    let policy = v >> 24 == 3 && v & 0xff_ffff < 64;
    let nv = v >> 24 == 1;
    if TpmHc::is_hmac_session(v) != hmac {
        return Err(format!("is_hmac_session({v:#010x}) is {}", !hmac));
    }
    if TpmHc::is_policy_session(v) != policy {
        return Err(format!("is_policy_session({v:#010x}) is {}", !policy));
    }
    if TpmHc::is_nv_index(v) != nv {
        return Err(format!("is_nv_index({v:#010x}) is {}", !nv));
    }
    match TpmiRhNvIndex::try_from(v) {
        Ok(x) if nv => {
            if handle(&x)? != v {
                return Err(format!("NV index {v:#010x} became {x:?}"));
            }
        }
        Err(e) if !nv && e == TpmRcError::Value => (),
        r => return Err(format!("conversion of {v:#010x} to an NV index gave {r:?}")),
    }
    let session = hmac || policy || v == 0x4000_0009;
    match TpmiShAuthSession::try_from(v) {
        Ok(x) if session => {
            if handle(&x)? != v {
                return Err(format!("session {v:#010x} became {x:?}"));
            }
        }
        Err(e) if !session && e == TpmRcError::Value => (),
        r => return Err(format!("conversion of {v:#010x} to a session handle gave {r:?}")),
    }
    Ok(())
}
fn nv_type(v: u32, t: u8) -> Result<(), String> {
    let a = TpmaNv(v);
    if a.get_index_type().0 as u32 != v >> 4 & 15 {
        return Err(format!("TPMA_NV {v:#010x} has index type {:#x}", a.get_index_type().0));
    }
    let mut b = a;
    b.set_type(TpmNt(t));
    if t < 16 {
        if b.0 != v & !0xF0 | (t as u32) << 4 {
            return Err(format!("setting type {t:#x} in TPMA_NV {v:#010x} gives {:#010x}", b.0));
        }
        if TpmaNv::from(TpmNt(t)).0 != (t as u32) << 4 {
            return Err(format!("TPMA_NV of type {t:#x} is {:#010x}", TpmaNv::from(TpmNt(t)).0));
        }
    } else if b.0 & !0xF0 != v & !0xF0 || TpmaNv::from(TpmNt(t)).0 & !0xF0 != 0 {
        return Err(format!("setting type {t:#x} in TPMA_NV {v:#010x} changes other bits: {:#010x}", b.0));
    }
    Ok(())
}
/// Named bits are read and set independently of the type field and each other.
fn nv_bits(v: u32, s: &mut Src) -> Result<(), String> {
    let named: Vec<_> = table().into_iter().filter(|x| x.0 == "TpmaNv").collect();
    let (_, n, got, bit) = *s.pick(&named);
    let mut a = TpmaNv(v);
    let f = TpmaNv(got as u32);
    if a.contains(f) != (v & bit as u32 != 0) {
        return Err(format!("TPMA_NV {v:#010x} contains {n}: {}", a.contains(f)));
    }
    let t = a.get_index_type().0;
    a.insert(f);
    if a.0 != v | bit as u32 || a.get_index_type().0 != t {
        return Err(format!("setting {n} in TPMA_NV {v:#010x} gives {:#010x}", a.0));
    }
    a.remove(f);
    if a.0 != v & !(bit as u32) || a.get_index_type().0 != t {
        return Err(format!("clearing {n} in TPMA_NV {v:#010x} gives {:#010x}", a.0));
    }
    Ok(())
}

const CHUNK: u64 = 1 << 21;
fn case(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    match s.directed(3) {
        1 => return constants(c),
        2 => {
            let i = s.below(1 << 11);
            c.describe(|| format!("all 32-bit values from {:#010x} on", i * CHUNK));
            c.nontrivial_key(i);
            for v in i * CHUNK..(i + 1) * CHUNK {
                ranges(v as u32)?;
            }
            c.more_evaluations(CHUNK);
            return Ok(());
        }
        _ => (),
    }
    let v = match s.below(6) {
        0 => s.u32(),
        1 => s.int(0xffff_ffff) as u32,
        2 => (s.below(256) << 24) as u32 | s.int(0xff_ffff) as u32,
        3 => (s.below(5) << 24) as u32 | s.below(80) as u32,
        4 => ((s.below(6) << 24) as u32).wrapping_sub(s.below(80) as u32),
        _ => 0x4000_0000 | s.below(0x120) as u32,
    };
    let t = s.u8();
    c.describe(|| format!("value {v:#010x}, index type {t:#x}"));
    c.nontrivial_key(v as u64 | (t as u64) << 32);
    ranges(v)?;
    nv_type(v, t)?;
    nv_type(v, t & 15)?;
    nv_bits(v, s)
}
fn seeds(thorough: bool) -> Vec<Vec<u64>> {
    let mut l = vec![vec![1]];
    for i in 0..1u64 << 11 {
        // Quick: handle types 0 to 4 and 0x40 completely, the start of every other one.
        let ht = i * CHUNK >> 24;
        if thorough || ht <= 4 || ht == 0x40 || i * CHUNK & 0xff_ffff == 0 && ht % 16 < 2 {
            l.push(vec![2, i]);
        }
    }
    l
}

pub fn prop() -> Prop {
    Prop {
        seeds: Some(seeds),
        quick: 300_000,
        thorough: 5_000_000,
        assumptions: &[
            "the table of specification values, transcribed by hand, is right",
            "names the table does not list (added later) are not checked",
        ],
        ..Prop::new("C18", case, "32-bit value and index type, distinct; sweeps count once per block of 2^21 values")
    }
}
