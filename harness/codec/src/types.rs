//! Every marshalable type of the repository, tied to its schema.
use std::sync::OnceLock;
use tpm2_client::{CmdHeader, RespHeader};
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::*;
use tpm2_rs_marshalable::{Error, Marshalable, MarshalableVariant, UnmarshalBuf};
use vh_model::{dec, encode, Sch, Val};

pub type R<T> = Result<T, Error>;

pub trait Model: Marshalable + Sized + 'static {
    fn sch() -> Sch;
    /// Builds the value through the public API; `pad` fills public array elements not counted.
    fn build(v: &Val, pad: u8) -> Result<Self, String>;
    /// Reads the value back through the public API.
    fn view(&self) -> Result<Val, String>;
}

pub fn from_wire<T: Marshalable>(b: &[u8]) -> (R<T>, usize) {
    let mut u = UnmarshalBuf::new(b);
    let r = T::try_unmarshal(&mut u);
    (r, b.len() - u.len())
}
/// For types whose fields are private: the wire is the only way in and out.
pub fn opaque_build<T: Marshalable>(sch: &Sch, v: &Val) -> Result<T, String> {
    let b = encode(sch, v);
    from_wire(&b).0.map_err(|e| format!("valid encoding refused: {e:?}"))
}
pub fn opaque_view<T: Marshalable>(sch: &Sch, t: &T) -> Result<Val, String> {
    let mut b = vec![0u8; 8192];
    let n = t.try_marshal(&mut b).map_err(|e| format!("cannot be marshaled: {e:?}"))?;
    if n > b.len() {
        return Err(format!("marshaling reports {n} bytes"));
    }
    let mut p = 0;
    let v = dec(sch, &b[..n], &mut p).map_err(|_| "marshals to an invalid encoding".to_string())?;
    if p != n {
        return Err(format!("marshals to {n} bytes instead of {p}"));
    }
    Ok(v)
}
pub fn u(v: &Val) -> u64 {
    match v {
        Val::U(x) => *x,
        _ => panic!("schema mismatch"),
    }
}
pub fn fields(v: &Val) -> &[Val] {
    match v {
        Val::S(x) => x,
        _ => panic!("schema mismatch"),
    }
}
pub fn elems(v: &Val) -> &[Val] {
    match v {
        Val::L(x) => x,
        _ => panic!("schema mismatch"),
    }
}

macro_rules! m_prim {
    ($($t:ty: $u:ty, $w:expr;)*) => {$(
        impl Model for $t {
            fn sch() -> Sch { Sch::U($w) }
            fn build(v: &Val, _: u8) -> Result<Self, String> { Ok(u(v) as $t) }
            fn view(&self) -> Result<Val, String> { Ok(Val::U(*self as $u as u64)) }
        }
    )*};
}
m_prim! { u8: u8, 1; u16: u16, 2; u32: u32, 4; u64: u64, 8; i8: u8, 1; i16: u16, 2; i32: u32, 4; i64: u64, 8; }

macro_rules! m_uint {
    ($($t:ident: $u:ty, $w:expr;)*) => {$(
        impl Model for $t {
            fn sch() -> Sch { Sch::U($w) }
            fn build(v: &Val, _: u8) -> Result<Self, String> { Ok($t(u(v) as _)) }
            fn view(&self) -> Result<Val, String> { Ok(Val::U(self.0 as u64)) }
        }
    )*};
}
m_uint! {
    TpmAlgId: u16, 2; TpmEccCurve: u16, 2; TpmCc: u32, 4; TpmSt: u16, 2; TpmSu: u16, 2;
    TpmCap: u32, 4; TpmPt: u32, 4; TpmPtPcr: u32, 4; TpmHandle: u32, 4; TpmGenerated: u32, 4;
    TpmaLocality: u8, 1; TpmaNv: u32, 4; TpmaObject: u32, 4; TpmaAlgorithm: u32, 4;
    TpmaSession: u8, 1; TpmaCc: u32, 4;
    TpmiAlgHash: u16, 2; TpmiAlgKdf: u16, 2; TpmiAlgPublic: u16, 2; TpmiAlgSymMode: u16, 2;
    TpmiAlgSymObject: u16, 2; TpmiAlgKeyedhashScheme: u16, 2; TpmiAlgRsaScheme: u16, 2;
    TpmiAlgSigScheme: u16, 2; TpmiAlgEccScheme: u16, 2; TpmiAlgAsymScheme: u16, 2;
    TpmiYesNo: u8, 1; TpmiStAttest: u16, 2; TpmiStCommandTag: u16, 2;
}

macro_rules! m_opaque {
    ($($t:ident: $s:expr;)*) => {$(
        impl Model for $t {
            fn sch() -> Sch { closed($s) }
            fn build(v: &Val, _: u8) -> Result<Self, String> { opaque_build(&Self::sch(), v) }
            fn view(&self) -> Result<Val, String> { opaque_view(&Self::sch(), self) }
        }
    )*};
}
m_opaque! {
    TpmiEccCurve: Sch::U(2); TpmiAesKeyBits: Sch::U(2); TpmiSm4KeyBits: Sch::U(2);
    TpmiCamelliaKeyBits: Sch::U(2); TpmiRsaKeyBits: Sch::U(2); TpmiRhNvIndex: Sch::U(4);
    TpmiShAuthSession: Sch::U(4); TpmHc: Sch::U(4);
    TpmsTaggedPcrSelect: Sch::S(vec![Sch::U(4), list(1, 4, Sch::U(1), false)]);
    TpmsTaggedPolicy: Sch::S(vec![Sch::U(4), TpmtHa::sch()]);
    TpmlCca: list(4, 254, Sch::U(4), false);
    PcrReadCmd: Sch::S(vec![TpmlPcrSelection::sch()]);
    PcrReadResp: Sch::S(vec![Sch::U(4), TpmlPcrSelection::sch(), TpmlDigest::sch()]);
    CmdHeader: Sch::S(vec![Sch::U(2), Sch::U(4), Sch::U(4)]);
}
/// What comes from the wire cannot claim more than fits.
fn closed(sch: Sch) -> Sch {
    match sch {
        Sch::List { cw, cap, elem, .. } => list(cw, cap, closed(*elem), false),
        Sch::S(l) => Sch::S(l.into_iter().map(closed).collect()),
        Sch::E { .. } | Sch::Sel { .. } if vh_model::has_open(&sch) => panic!("not needed so far"),
        _ => sch,
    }
}
fn list(cw: usize, cap: usize, elem: Sch, open: bool) -> Sch {
    Sch::List { cw, cap, elem: Box::new(elem), open }
}

impl Model for () {
    fn sch() -> Sch {
        Sch::S(vec![])
    }
    fn build(_: &Val, _: u8) -> Result<Self, String> {
        Ok(())
    }
    fn view(&self) -> Result<Val, String> {
        Ok(Val::S(vec![]))
    }
}
impl Model for TpmsEmpty {
    fn sch() -> Sch {
        Sch::S(vec![])
    }
    fn build(_: &Val, _: u8) -> Result<Self, String> {
        Ok(TpmsEmpty)
    }
    fn view(&self) -> Result<Val, String> {
        Ok(Val::S(vec![]))
    }
}
impl<const N: usize> Model for [u8; N] {
    fn sch() -> Sch {
        Sch::Fixed(N)
    }
    fn build(v: &Val, _: u8) -> Result<Self, String> {
        match v {
            Val::B(b) => Ok(b[..].try_into().unwrap()),
            _ => panic!("schema mismatch"),
        }
    }
    fn view(&self) -> Result<Val, String> {
        Ok(Val::B(self.to_vec()))
    }
}

macro_rules! m_struct {
    ($($t:ident { $($f:ident: $ft:ty),* })*) => {$(
        impl Model for $t {
            fn sch() -> Sch { Sch::S(vec![$(<$ft>::sch()),*]) }
            fn build(v: &Val, pad: u8) -> Result<Self, String> {
                let mut i = fields(v).iter();
                Ok($t { $($f: Model::build(i.next().unwrap(), pad)?),* })
            }
            fn view(&self) -> Result<Val, String> { Ok(Val::S(vec![$(self.$f.view()?),*])) }
        }
    )*};
}
m_struct! {
    TpmsClockInfo { clock: u64, reset_count: u32, restart_count: u32, safe: TpmiYesNo }
    TpmsQuoteInfo { pcr_select: TpmlPcrSelection, pcr_digest: Tpm2bDigest }
    TpmsCreationInfo { object_name: Tpm2bName, creation_hash: Tpm2bDigest }
    TpmsCertifyInfo { name: Tpm2bName, qualified_name: Tpm2bName }
    TpmsCommandAuditInfo { audit_counter: u64, digest_alg: u16, audit_digest: Tpm2bDigest, command_digest: Tpm2bDigest }
    TpmsSessionAuditInfo { exclusive_session: TpmiYesNo, session_digest: Tpm2bDigest }
    TpmsTimeInfo { time: u64, clock_info: TpmsClockInfo }
    TpmsTimeAttestInfo { time: TpmsTimeInfo, firmware_version: u64 }
    TpmsNvCertifyInfo { index_name: Tpm2bName, offset: u16, nv_contents: Tpm2bMaxNvBuffer }
    TpmsDerive { label: Tpm2bLabel, context: Tpm2bLabel }
    TpmsSensitiveCreate { user_auth: Tpm2bDigest, data: Tpm2bSensitiveData }
    TpmsEccPoint { x: Tpm2bEccParameter, y: Tpm2bEccParameter }
    TpmsSchemeXor { hash_alg: TpmiAlgHash, kdf: TpmiAlgKdf }
    TpmsKeyedHashParms { scheme: TpmtKeyedHashScheme }
    TpmsSymCipherParms { sym: TpmtSymDefObject }
    TpmsSignatureRsa { hash: TpmiAlgHash, sig: Tpm2bPublicKeyRsa }
    TpmsSignatureEcc { hash: TpmiAlgHash, signature_r: Tpm2bEccParameter, signature_s: Tpm2bEccParameter }
    TpmsSchemeHash { hash_alg: TpmiAlgHash }
    TpmsSchemeEcdaa { hash_alg: TpmiAlgHash, count: u16 }
    TpmsRsaParms { symmetric: TpmtSymDefObject, scheme: TpmtRsaScheme, key_bits: TpmiRsaKeyBits, exponent: u32 }
    TpmsEccParms { symmetric: TpmtSymDefObject, scheme: TpmtEccScheme, curve_id: TpmiEccCurve, kdf: TpmtKdfScheme }
    TpmsAsymParms { symmetric: TpmtSymDefObject, scheme: TpmtAsymScheme }
    TpmsAlgProperty { alg: TpmAlgId, alg_properties: TpmaAlgorithm }
    TpmsTaggedProperty { property: TpmPt, value: u32 }
    TpmsAuthCommand { session_handle: TpmiShAuthSession, nonce: Tpm2bDigest, session_attributes: TpmaSession, hmac: Tpm2bDigest }
    TpmsAuthResponse { nonce: Tpm2bDigest, session_attributes: TpmaSession, hmac: Tpm2bData }
    TpmsIdObject { integrity_hmac: Tpm2bDigest, enc_identity: Tpm2bDigest }
    TpmsNvPublic { nv_index: TpmiRhNvIndex, name_alg: TpmiAlgHash, attributes: TpmaNv, auth_policy: Tpm2bDigest, data_size: u16 }
    TpmsContextData { integrity: Tpm2bDigest, encrypted: Tpm2bContextSensitive }
    TpmsCreationData { pcr_select: TpmlPcrSelection, pcr_digest: Tpm2bDigest, locality: TpmaLocality, parent_name_alg: TpmAlgId, parent_name: Tpm2bName, parent_qualified_name: Tpm2bName, outside_info: Tpm2bData }
    GetCapabilityCmd { capability: TpmCap, property: TpmPt, property_count: u32 }
    GetCapabilityResp { more_data: TpmiYesNo, capability_data: TpmsCapabilityData }
    GetRandomCmd { bytes_requested: u16 }
    GetRandomResp { random_bytes: Tpm2bDigest }
    StartupCmd { startup_type: TpmSu }
    RespHeader { tag: TpmSt, size: u32, rc: u32 }
}

// Capacities fixed by the specification or the implementation profile are written out; those the
// code derives from its in-memory layout are taken from the type, and C05 checks that they suffice.
macro_rules! m_2b {
    ($($t:ident: $cap:expr;)*) => {$(
        impl Model for $t {
            fn sch() -> Sch { Sch::B2($cap) }
            fn build(v: &Val, _: u8) -> Result<Self, String> {
                match v {
                    Val::B(b) => $t::from_bytes(b).map_err(|e| format!("{} bytes refused: {e:?}", b.len())),
                    _ => panic!("schema mismatch"),
                }
            }
            fn view(&self) -> Result<Val, String> { Ok(Val::B(self.get_buffer().to_vec())) }
        }
    )*};
}
m_2b! {
    Tpm2bDigest: 64; Tpm2bData: 64; Tpm2bEvent: 1024; Tpm2bMaxBuffer: 1024; Tpm2bMaxNvBuffer: 2048;
    Tpm2bIv: 16; Tpm2bSymKey: 32; Tpm2bLabel: 32; Tpm2bPublicKeyRsa: 512; Tpm2bPrivateKeyRsa: 256;
    Tpm2bEccParameter: 128; Tpm2bPrivateVendorSpecific: 1280; Tpm2bContextSensitive: 5120;
    Tpm2bName: Tpm2bName::MAX_BUFFER_SIZE;
    Tpm2bAttest: Tpm2bAttest::MAX_BUFFER_SIZE;
    Tpm2bSensitiveData: Tpm2bSensitiveData::MAX_BUFFER_SIZE;
    Tpm2bSensitiveCreate: Tpm2bSensitiveCreate::MAX_BUFFER_SIZE;
    Tpm2bEncryptedSecret: Tpm2bEncryptedSecret::MAX_BUFFER_SIZE;
    Tpm2bPublic: Tpm2bPublic::MAX_BUFFER_SIZE;
    Tpm2bTemplate: Tpm2bTemplate::MAX_BUFFER_SIZE;
    Tpm2bPrivate: Tpm2bPrivate::MAX_BUFFER_SIZE;
    Tpm2bIdObject: Tpm2bIdObject::MAX_BUFFER_SIZE;
    Tpm2bContextData: Tpm2bContextData::MAX_BUFFER_SIZE;
    Tpm2bCreationData: Tpm2bCreationData::MAX_BUFFER_SIZE;
}

macro_rules! m_list {
    ($($t:ident: $cap:expr, $e:ident, $f:ident;)*) => {$(
        impl Model for $t {
            fn sch() -> Sch { list(4, $cap, $e::sch(), false) }
            fn build(v: &Val, pad: u8) -> Result<Self, String> {
                let l = elems(v).iter().map(|x| Model::build(x, pad)).collect::<Result<Vec<_>, _>>()?;
                $t::new(&l).map_err(|e| format!("{} elements refused: {e:?}", l.len()))
            }
            fn view(&self) -> Result<Val, String> {
                if self.count() != self.$f().len() {
                    return Err(format!("count {} but {} elements", self.count(), self.$f().len()));
                }
                Ok(Val::L(self.$f().iter().map(|x| x.view()).collect::<Result<Vec<_>, _>>()?))
            }
        }
    )*};
}
m_list! {
    TpmlPcrSelection: 16, TpmsPcrSelection, pcr_selections;
    TpmlAlgProperty: 127, TpmsAlgProperty, alg_properties;
    TpmlHandle: 254, TpmHandle, handle;
    TpmlCc: 254, TpmCc, command_codes;
    TpmlTaggedPcrProperty: 84, TpmsTaggedPcrSelect, pcr_property;
    TpmlEccCurve: 508, TpmEccCurve, ecc_curves;
    TpmlTaggedPolicy: 14, TpmsTaggedPolicy, policies;
    TpmlDigest: 8, Tpm2bDigest, digests;
}
/// Its count is a public field.
impl Model for TpmlTaggedTpmProperty {
    fn sch() -> Sch {
        list(4, 127, TpmsTaggedProperty::sch(), true)
    }
    fn build(v: &Val, pad: u8) -> Result<Self, String> {
        let l = elems(v).iter().map(|x| TpmsTaggedProperty::build(x, pad)).collect::<Result<Vec<_>, _>>()?;
        if pad == 0 && l.len() <= 127 {
            return TpmlTaggedTpmProperty::new(&l).map_err(|e| format!("{} elements refused: {e:?}", l.len()));
        }
        let p = TpmsTaggedProperty { property: TpmPt(pad as u32 * 0x0101_0101), value: pad as _ };
        let mut t = TpmlTaggedTpmProperty::default();
        t.tpm_property = [p; 127];
        t.count = l.len() as _;
        for (i, e) in l.iter().take(127).enumerate() {
            t.tpm_property[i] = *e;
        }
        Ok(t)
    }
    fn view(&self) -> Result<Val, String> {
        if self.count() != self.count as usize {
            return Err(format!("count() {} but count {}", self.count(), self.count));
        }
        if self.count() != self.tpm_property().len() {
            return Err(format!("count {} but {} elements", self.count(), self.tpm_property().len()));
        }
        Ok(Val::L(self.tpm_property().iter().map(|x| x.view()).collect::<Result<Vec<_>, _>>()?))
    }
}
/// So is this one's.
impl Model for TpmsPcrSelection {
    fn sch() -> Sch {
        Sch::S(vec![Sch::U(2), list(1, 4, Sch::U(1), true)])
    }
    fn build(v: &Val, pad: u8) -> Result<Self, String> {
        let f = fields(v);
        let l = elems(&f[1]);
        let mut t = TpmsPcrSelection {
            hash: TpmiAlgHash(u(&f[0]) as _),
            sizeof_select: l.len() as _,
            pcr_select: [pad; 4],
        };
        for (i, e) in l.iter().take(4).enumerate() {
            t.pcr_select[i] = u(e) as _;
        }
        Ok(t)
    }
    fn view(&self) -> Result<Val, String> {
        let n = self.sizeof_select as usize;
        if n > 4 {
            return Err(format!("sizeof_select is {n}"));
        }
        let l = self.pcr_select[..n].iter().map(|x| Val::U(*x as u64)).collect();
        Ok(Val::S(vec![Val::U(self.hash.0 as u64), Val::L(l)]))
    }
}

pub trait Var: Model {
    fn disc(&self) -> u64;
    fn marshal_variant(&self, b: &mut [u8]) -> R<usize>;
    fn unmarshal_variant(sel: u64, b: &mut UnmarshalBuf) -> R<Self>;
}
macro_rules! m_enum {
    ($($t:ident($r:ty, $w:expr) { $($sel:expr => $v:ident($($n:ident: $ft:ty),*)),* $(,)? })*) => {$(
        impl Model for $t {
            fn sch() -> Sch {
                Sch::E { w: $w, vars: vec![$(($sel, vec![$(<$ft>::sch()),*])),*] }
            }
            fn build(v: &Val, pad: u8) -> Result<Self, String> {
                let Val::E(sel, fs) = v else { panic!("schema mismatch") };
                let mut i = fs.iter();
                $(if *sel == $sel { return Ok($t::$v($({ let $n = i.next().unwrap(); Model::build($n, pad)? }),*)); })*
                panic!("schema mismatch")
            }
            fn view(&self) -> Result<Val, String> {
                Ok(match self { $($t::$v($($n),*) => Val::E($sel, vec![$($n.view()?),*]),)* })
            }
        }
        impl Var for $t {
            fn disc(&self) -> u64 {
                use safe_discriminant_shim::Discriminant;
                self.discriminant() as u64
            }
            fn marshal_variant(&self, b: &mut [u8]) -> R<usize> { self.try_marshal_variant(b) }
            fn unmarshal_variant(sel: u64, b: &mut UnmarshalBuf) -> R<Self> {
                Self::try_unmarshal_variant(sel as $r, b)
            }
        }
    )*};
}
m_enum! {
    TpmtHa(u16, 2) {
        0x0004 => Sha1(a: [u8; 20]), 0x000B => Sha256(a: [u8; 32]), 0x000C => Sha384(a: [u8; 48]),
        0x000D => Sha512(a: [u8; 64]), 0x0012 => Sm3_256(a: [u8; 32]),
    }
    TpmuAttest(u16, 2) {
        0x8017 => Certify(a: TpmsCertifyInfo), 0x801A => Creation(a: TpmsCreationInfo),
        0x8018 => Quote(a: TpmsQuoteInfo), 0x8015 => CommandAudit(a: TpmsCommandAuditInfo),
        0x8016 => SessionAudit(a: TpmsSessionAuditInfo), 0x8019 => Time(a: TpmsTimeAttestInfo),
        0x8014 => Nv(a: TpmsNvCertifyInfo),
    }
    TpmtKeyedHashScheme(u16, 2) {
        0x0005 => Hmac(a: TpmsSchemeHash), 0x000A => ExclusiveOr(a: TpmsSchemeXor),
        0x0010 => Null(a: TpmsEmpty),
    }
    TpmtSymDefObject(u16, 2) {
        0x0006 => Aes(a: TpmiAesKeyBits, b: TpmiAlgSymMode),
        0x0013 => Sm4(a: TpmiSm4KeyBits, b: TpmiAlgSymMode),
        0x0026 => Camellia(a: TpmiCamelliaKeyBits, b: TpmiAlgSymMode),
        0x000A => ExclusiveOr(a: TpmiAlgHash, b: TpmsEmpty),
        0x0010 => Null(a: TpmsEmpty, b: TpmsEmpty),
    }
    TpmtSignature(u16, 2) {
        0x0014 => Rsassa(a: TpmsSignatureRsa), 0x0016 => Rsapss(a: TpmsSignatureRsa),
        0x0018 => Ecdsa(a: TpmsSignatureEcc), 0x001A => Ecdaa(a: TpmsSignatureEcc),
        0x001B => Sm2(a: TpmsSignatureEcc), 0x001C => Ecschnorr(a: TpmsSignatureEcc),
        0x0005 => Hmac(a: TpmtHa), 0x0010 => Null(a: TpmsEmpty),
    }
    TpmtSigScheme(u16, 2) {
        0x0014 => Rsassa(a: TpmsSchemeHash), 0x0016 => Rsapss(a: TpmsSchemeHash),
        0x0018 => Ecdsa(a: TpmsSchemeHash), 0x001A => Ecdaa(a: TpmsSchemeEcdaa),
        0x001B => Sm2(a: TpmsSchemeHash), 0x001C => Ecschnorr(a: TpmsSchemeHash),
        0x0005 => Hmac(a: TpmsSchemeHash), 0x0010 => Null(a: TpmsEmpty),
    }
    TpmtRsaScheme(u16, 2) {
        0x0016 => Rsapss(a: TpmsSchemeHash), 0x0014 => Rsassa(a: TpmsSchemeHash),
        0x0018 => Ecdsa(a: TpmsSchemeHash), 0x001A => Ecdaa(a: TpmsSchemeEcdaa),
        0x001B => Sm2(a: TpmsSchemeHash), 0x001C => Ecschnorr(a: TpmsSchemeHash),
        0x0015 => Rsaes(a: TpmsEmpty), 0x0017 => Oaep(a: TpmsSchemeHash), 0x0010 => Null(a: TpmsEmpty),
    }
    TpmtEccScheme(u16, 2) {
        0x0016 => Rsapss(a: TpmsSchemeHash), 0x0014 => Rsassa(a: TpmsSchemeHash),
        0x0018 => Ecdsa(a: TpmsSchemeHash), 0x001A => Ecdaa(a: TpmsSchemeEcdaa),
        0x001B => Sm2(a: TpmsSchemeHash), 0x001C => Ecschnorr(a: TpmsSchemeHash),
        0x0019 => Ecdh(a: TpmsSchemeHash), 0x001D => Ecmqv(a: TpmsSchemeHash), 0x0010 => Null(a: TpmsEmpty),
    }
    TpmtKdfScheme(u16, 2) {
        0x0007 => Mgf1(a: TpmsSchemeHash), 0x0020 => Kdf1Sp800_56a(a: TpmsSchemeHash),
        0x0021 => Kdf2(a: TpmsSchemeHash), 0x0022 => Kdf1Sp800_108(a: TpmsSchemeHash),
        0x0010 => Null(a: TpmsEmpty),
    }
    TpmtAsymScheme(u16, 2) {
        0x0019 => Ecdh(a: TpmsSchemeHash), 0x001D => Ecmqv(a: TpmsSchemeHash),
        0x001B => Sm2(a: TpmsSchemeHash), 0x0016 => Rsapss(a: TpmsSchemeHash),
        0x0014 => Rsassa(a: TpmsSchemeHash), 0x0018 => Ecdsa(a: TpmsSchemeHash),
        0x001A => Ecdaa(a: TpmsSchemeEcdaa), 0x001C => Ecschnorr(a: TpmsSchemeHash),
        0x0015 => Rsaes(a: TpmsEmpty), 0x0017 => Oaep(a: TpmsSchemeHash), 0x0010 => Null(a: TpmsEmpty),
    }
    PublicParmsAndId(u16, 2) {
        0x0008 => KeyedHash(a: TpmsKeyedHashParms, b: Tpm2bDigest),
        0x0025 => Sym(a: TpmsSymCipherParms, b: Tpm2bDigest),
        0x0001 => Rsa(a: TpmsRsaParms, b: Tpm2bPublicKeyRsa),
        0x0023 => Ecc(a: TpmsEccParms, b: TpmsEccPoint),
    }
    TpmuSensitiveComposite(u16, 2) {
        0x0001 => Rsa(a: Tpm2bPrivateKeyRsa), 0x0023 => Ecc(a: Tpm2bEccParameter),
        0x0008 => Bits(a: Tpm2bSensitiveData), 0x0025 => Sym(a: Tpm2bSymKey),
        0x0010 => Any(a: Tpm2bPrivateVendorSpecific),
    }
    TpmsCapabilityData(u32, 4) {
        0 => Algorithms(a: TpmlAlgProperty), 1 => Handles(a: TpmlHandle), 2 => Command(a: TpmlCca),
        3 => PpCommands(a: TpmlCc), 4 => AuditCommands(a: TpmlCc), 5 => AssignedPcr(a: TpmlPcrSelection),
        6 => TpmProperties(a: TpmlTaggedTpmProperty), 7 => PcrProperties(a: TpmlTaggedPcrProperty),
        8 => EccCurves(a: TpmlEccCurve), 9 => AuthPolicies(a: TpmlTaggedPolicy),
    }
}

macro_rules! m_sel {
    ($($t:ident { [$($p:ident: $pt:ty),*] [$($m:ident: $mt:ty),*] $v:ident: $vt:ident })*) => {$(
        impl Model for $t {
            fn sch() -> Sch {
                let Sch::E { w, vars } = $vt::sch() else { panic!() };
                Sch::Sel { pre: vec![$(<$pt>::sch()),*], w, mid: vec![$(<$mt>::sch()),*], vars }
            }
            fn build(v: &Val, pad: u8) -> Result<Self, String> {
                let mut i = fields(v).iter();
                Ok($t {
                    $($p: Model::build(i.next().unwrap(), pad)?,)*
                    $($m: Model::build(i.next().unwrap(), pad)?,)*
                    $v: Model::build(i.next().unwrap(), pad)?,
                })
            }
            fn view(&self) -> Result<Val, String> {
                Ok(Val::S(vec![$(self.$p.view()?,)* $(self.$m.view()?,)* self.$v.view()?]))
            }
        }
    )*};
}
m_sel! {
    TpmtPublic { [] [name_alg: TpmiAlgHash, object_attributes: TpmaObject, auth_policy: Tpm2bDigest] parms_and_id: PublicParmsAndId }
    TpmtSensitive { [] [auth_value: Tpm2bDigest, seed_value: Tpm2bDigest] sensitive: TpmuSensitiveComposite }
    TpmsAttest { [magic: TpmGenerated] [qualified_signer: Tpm2bName, extra_data: Tpm2bData, clock_info: TpmsClockInfo, firmware_version: u64] attested: TpmuAttest }
}

mod safe_discriminant_shim {
    pub use safe_discriminant::Discriminant;
}

/// A value of some type.
pub trait Dyn {
    fn dmarshal(&self, b: &mut [u8]) -> R<usize>;
    fn dview(&self) -> Result<Val, String>;
    fn same(&self, o: &dyn Dyn) -> bool;
    fn any(&self) -> &dyn std::any::Any;
}
impl<T: Model + PartialEq> Dyn for T {
    fn dmarshal(&self, b: &mut [u8]) -> R<usize> {
        self.try_marshal(b)
    }
    fn dview(&self) -> Result<Val, String> {
        self.view()
    }
    fn same(&self, o: &dyn Dyn) -> bool {
        o.any().downcast_ref::<T>() == Some(self)
    }
    fn any(&self) -> &dyn std::any::Any {
        self
    }
}

#[derive(Clone, Copy)]
pub struct VarOps {
    pub disc: fn(&Val) -> Result<u64, String>,
    pub marshal: fn(&Val, u8, &mut [u8]) -> Result<R<usize>, String>,
    pub unmarshal: fn(u64, &mut UnmarshalBuf) -> R<Box<dyn Dyn>>,
}
pub struct Ty {
    pub name: &'static str,
    pub sch: Sch,
    pub build: fn(&Val, u8) -> Result<Box<dyn Dyn>, String>,
    pub unmarshal: fn(&mut UnmarshalBuf) -> R<Box<dyn Dyn>>,
    pub var: Option<VarOps>,
}
fn build_dyn<T: Model + PartialEq>(v: &Val, pad: u8) -> Result<Box<dyn Dyn>, String> {
    Ok(Box::new(T::build(v, pad)?))
}
fn unmarshal_dyn<T: Model + PartialEq>(b: &mut UnmarshalBuf) -> R<Box<dyn Dyn>> {
    Ok(Box::new(T::try_unmarshal(b)?))
}
pub fn ty<T: Model + PartialEq>(name: &'static str) -> Ty {
    Ty { name, sch: T::sch(), build: build_dyn::<T>, unmarshal: unmarshal_dyn::<T>, var: None }
}
pub fn vty<T: Var + PartialEq>(name: &'static str) -> Ty {
    fn disc<T: Var>(v: &Val) -> Result<u64, String> {
        Ok(T::build(v, 0)?.disc())
    }
    fn marshal<T: Var>(v: &Val, pad: u8, b: &mut [u8]) -> Result<R<usize>, String> {
        Ok(T::build(v, pad)?.marshal_variant(b))
    }
    fn unmarshal<T: Var + PartialEq>(sel: u64, b: &mut UnmarshalBuf) -> R<Box<dyn Dyn>> {
        Ok(Box::new(T::unmarshal_variant(sel, b)?))
    }
    Ty {
        var: Some(VarOps { disc: disc::<T>, marshal: marshal::<T>, unmarshal: unmarshal::<T> }),
        ..ty::<T>(name)
    }
}

pub fn types() -> &'static [Ty] {
    static T: OnceLock<Vec<Ty>> = OnceLock::new();
    T.get_or_init(|| {
        let mut l = Vec::new();
        macro_rules! t { ($($t:ty),* $(,)?) => { $(l.push(ty::<$t>(stringify!($t)));)* } }
        macro_rules! v { ($($t:ty),* $(,)?) => { $(l.push(vty::<$t>(stringify!($t)));)* } }
        t! {
            u8, u16, u32, u64, i8, i16, i32, i64, (), [u8; 0], [u8; 1], [u8; 7], [u8; 64], [u8; 300],
            TpmAlgId, TpmEccCurve, TpmCc, TpmSt, TpmSu, TpmCap, TpmPt, TpmPtPcr, TpmHandle, TpmGenerated,
            TpmaLocality, TpmaNv, TpmaObject, TpmaAlgorithm, TpmaSession, TpmaCc, TpmiAlgHash, TpmiAlgKdf,
            TpmiAlgPublic, TpmiAlgSymMode, TpmiAlgSymObject, TpmiAlgKeyedhashScheme, TpmiAlgRsaScheme,
            TpmiAlgSigScheme, TpmiAlgEccScheme, TpmiAlgAsymScheme, TpmiYesNo, TpmiStAttest,
            TpmiStCommandTag, TpmiEccCurve, TpmiAesKeyBits, TpmiSm4KeyBits, TpmiCamelliaKeyBits,
            TpmiRsaKeyBits, TpmiRhNvIndex, TpmiShAuthSession, TpmHc, TpmsEmpty,
        }
        t! {
            TpmsTaggedPcrSelect, TpmsTaggedPolicy, TpmlCca, PcrReadCmd, PcrReadResp, CmdHeader,
            TpmsClockInfo, TpmsQuoteInfo, TpmsCreationInfo, TpmsCertifyInfo, TpmsCommandAuditInfo,
            TpmsSessionAuditInfo, TpmsTimeInfo, TpmsTimeAttestInfo, TpmsNvCertifyInfo, TpmsDerive,
            TpmsSensitiveCreate, TpmsEccPoint, TpmsSchemeXor, TpmsKeyedHashParms, TpmsSymCipherParms,
            TpmsSignatureRsa, TpmsSignatureEcc, TpmsSchemeHash, TpmsSchemeEcdaa, TpmsRsaParms,
            TpmsEccParms, TpmsAsymParms, TpmsAlgProperty, TpmsTaggedProperty, TpmsAuthCommand,
            TpmsAuthResponse, TpmsIdObject, TpmsNvPublic, TpmsContextData, TpmsCreationData,
            GetCapabilityCmd, GetCapabilityResp, GetRandomCmd, GetRandomResp, StartupCmd, RespHeader,
            Tpm2bDigest, Tpm2bData, Tpm2bEvent, Tpm2bMaxBuffer, Tpm2bMaxNvBuffer, Tpm2bIv, Tpm2bSymKey,
            Tpm2bLabel, Tpm2bPublicKeyRsa, Tpm2bPrivateKeyRsa, Tpm2bEccParameter,
            Tpm2bPrivateVendorSpecific, Tpm2bContextSensitive, Tpm2bName, Tpm2bAttest,
            Tpm2bSensitiveData, Tpm2bSensitiveCreate, Tpm2bEncryptedSecret, Tpm2bPublic, Tpm2bTemplate,
            Tpm2bPrivate, Tpm2bIdObject, Tpm2bContextData, Tpm2bCreationData,
            TpmlPcrSelection, TpmlAlgProperty, TpmlHandle, TpmlCc, TpmlTaggedPcrProperty, TpmlEccCurve,
            TpmlTaggedPolicy, TpmlDigest, TpmlTaggedTpmProperty, TpmsPcrSelection,
            TpmtPublic, TpmtSensitive, TpmsAttest,
        }
        v! {
            TpmtHa, TpmuAttest, TpmtKeyedHashScheme, TpmtSymDefObject, TpmtSignature, TpmtSigScheme,
            TpmtRsaScheme, TpmtEccScheme, TpmtKdfScheme, TpmtAsymScheme, PublicParmsAndId,
            TpmuSensitiveComposite, TpmsCapabilityData,
        }
        l
    })
}
/// Picks a type, composite ones more often than plain integers.
pub fn pick(s: &mut vh_engine::Src) -> &'static Ty {
    let t = types();
    let i = if s.chance(9, 10) { 52 + s.idx(t.len() - 52) } else { s.idx(t.len()) };
    &t[i]
}
