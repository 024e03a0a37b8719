//! C11: response codes and errors keep their exact numeric meaning.
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use tpm2::errors::*;
use vh_engine::{Ctx, Prop, Src};

/// Constant, the value TPM 2.0 Part 2 assigns, is it a warning.
const RCS: &[(&str, TpmRcError, u32, bool)] = &[
    ("TPM_RC_ASYMMETRIC", TpmRcError::Asymmetric, 0x081, false),
    ("TPM_RC_VALUE", TpmRcError::Value, 0x084, false),
    ("TPM_RC_SIZE", TpmRcError::Size, 0x095, false),
    ("TPM_RC_SELECTOR", TpmRcError::Selector, 0x098, false),
    ("TPM_RC_BAD_TAG", TpmRcError::BadTag, 0x01E, false),
    ("TPM_RC_INITIALIZE", TpmRcError::Initialize, 0x100, false),
    ("TPM_RC_FAILURE", TpmRcError::Failure, 0x101, false),
    ("TPM_RC_SEQUENCE", TpmRcError::Sequence, 0x103, false),
    ("TPM_RC_COMMAND_SIZE", TpmRcError::CommandSize, 0x142, false),
    ("TPM_RC_COMMAND_CODE", TpmRcError::CommandCode, 0x143, false),
    ("TPM_RC_CONTEXT_GAP", TpmRcError::ContextGap, 0x901, true),
    ("TPM_RC_OBJECT_MEMORY", TpmRcError::ObjectMemory, 0x902, true),
    ("TPM_RC_SESSION_MEMORY", TpmRcError::SessionMemory, 0x903, true),
    ("TPM_RC_MEMORY", TpmRcError::Memory, 0x904, true),
];

type For = fn(ErrorType, ErrorPosition) -> TpmRcError;
const FORS: &[(&str, For, u32)] = &[
    ("AsymmetricFor", TpmRcError::AsymmetricFor, 0x081),
    ("ValueFor", TpmRcError::ValueFor, 0x084),
    ("SizeFor", TpmRcError::SizeFor, 0x095),
    ("SelectorFor", TpmRcError::SelectorFor, 0x098),
];
const TYPES: [(ErrorType, u32, usize); 3] = [
    (ErrorType::Handle, 0, 7),
    (ErrorType::Parameter, 0x40, 15),
    (ErrorType::Session, 0x800, 7),
];
const POS: [ErrorPosition; 15] = [
    ErrorPosition::Pos1,
    ErrorPosition::Pos2,
    ErrorPosition::Pos3,
    ErrorPosition::Pos4,
    ErrorPosition::Pos5,
    ErrorPosition::Pos6,
    ErrorPosition::Pos7,
    ErrorPosition::Pos8,
    ErrorPosition::Pos9,
    ErrorPosition::PosA,
    ErrorPosition::PosB,
    ErrorPosition::PosC,
    ErrorPosition::PosD,
    ErrorPosition::PosE,
    ErrorPosition::PosF,
];

macro_rules! layer {
    ($t:ident) => {
        [
            $t::GeneralFailure.into(),
            $t::BadParameter.into(),
            $t::InternalError.into(),
            $t::OutOfMemory.into(),
            $t::NotImplemented.into(),
            $t::KeyAlredyRegistered.into(),
            $t::TpmUnexpected.into(),
            $t::CommFailure.into(),
            $t::Timeout.into(),
            $t::Unsupported.into(),
            $t::Canceled.into(),
        ]
    };
}
fn layers() -> [(u32, [TssError; 11]); 3] {
    [(0x1000, layer!(TssTddlError)), (0x2000, layer!(TssTcsError)), (0x3000, layer!(TssTspError))]
}
const LAYER_CODES: [u32; 11] = [2, 3, 4, 5, 6, 8, 16, 17, 18, 20, 22];

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

/// A TSS error with this code, through every way out of it.
fn tss(e: TssError, want: u32, what: &str) -> Result<(), String> {
    if e.get() != want {
        return Err(format!("{what}: code {:#x} instead of {want:#x}", e.get()));
    }
    let same = TssError::try_from(want).map_err(|_| format!("{want:#x} was not converted"))?;
    if same != e || h(&same) != h(&e) {
        return Err(format!("{what}: differs from the TSS error converted from {want:#x}"));
    }
    let io: std::io::Error = e.into();
    let inner = io.get_ref().and_then(|r| r.downcast_ref::<TssError>());
    if inner.map(|i| i.get()) != Some(want) {
        return Err(format!("{what}: the I/O error made of {want:#x} carries {inner:?}"));
    }
    let t = e.to_string();
    let low = t.to_lowercase();
    if !low.contains(&want.to_string()) && !low.contains(&format!("{want:x}")) {
        return Err(format!("{what}: {want:#x} is displayed as {t:?}"));
    }
    Ok(())
}

/// A TPM error that must have this code, position and warning state.
fn rc(
    e: TpmRcError,
    want: u32,
    warn: bool,
    pos: Option<Option<(ErrorType, ErrorPosition)>>,
    what: &str,
) -> Result<(), String> {
    if e.get() != want {
        return Err(format!("{what} is {:#x} instead of {want:#x}", e.get()));
    }
    if e.is_warning() != warn {
        return Err(format!("{what} ({want:#x}): is_warning() is {}", e.is_warning()));
    }
    let got = e.format1_parameter();
    if let Some(p) = pos {
        if got != p {
            return Err(format!("{what} ({want:#x}): decodes as {got:?} instead of {p:?}"));
        }
    }
    tss(TssError::from(e), want, what)
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    match s.below(7) {
        0 | 1 => {
            let v = s.u32();
            c.describe(|| format!("response code {v:#x}"));
            c.label("response code conversion");
            if v != 0 {
                c.nontrivial();
            }
            match TssError::try_from(v) {
                Ok(e) if v != 0 => tss(e, v, "response code")?,
                Ok(_) => return Err("0 was converted to an error".into()),
                Err(_) if v != 0 => return Err(format!("{v:#x} was not converted to an error")),
                Err(_) => {}
            }
        }
        2 => {
            let (n, e, want, warn) = *s.pick(RCS);
            c.describe(|| n.to_string());
            c.label("TPM_RC constant");
            c.nontrivial();
            rc(e, want, warn, Some(None), n)?;
        }
        3 => {
            let (n, f, base) = *s.pick(FORS);
            let (t, bits, max) = *s.pick(&TYPES);
            let p = s.idx(15);
            c.describe(|| format!("{n}({t:?}, {:?})", POS[p]));
            c.label("format-one error");
            c.nontrivial();
            let want = base | bits | ((p as u32 + 1) << 8);
            // Handles and sessions have three number bits, so only positions up to 7 exist there.
            let dec = (p < max).then_some(Some((t, POS[p])));
            rc(f(t, POS[p]), want, false, dec, n)?;
        }
        4 => {
            let l = layers();
            let i = s.idx(3);
            let j = s.idx(11);
            c.describe(|| format!("layer {:#x} code {}", l[i].0, LAYER_CODES[j]));
            c.label("TSS layer error");
            c.nontrivial();
            tss(l[i].1[j], l[i].0 | LAYER_CODES[j], "TSS layer error")?;
        }
        5 => {
            use tpm2_rs_marshalable::Error;
            let (e, want, warn) = *s.pick(&[
                (Error::ArrayLengthExceeded, 0x095, false),
                (Error::UnexpectedEndOfBuffer, 0x904, true),
                (Error::UnknownSelector, 0x098, false),
            ]);
            c.describe(|| format!("{e:?}"));
            c.label("marshaling error");
            c.nontrivial();
            rc(TpmRcError::from(e), want, warn, Some(None), &format!("{e:?} as TPM error"))?;
            tss(TssError::from(e), want, &format!("{e:?} as TSS error"))?;
            let through: Result<(), TssError> = (|| {
                let r: Result<(), TpmRcError> = Err(e.into());
                r?;
                Ok(())
            })();
            tss(through.unwrap_err(), want, &format!("{e:?} propagated"))?;
        }
        _ => {
            // two codes are equal as errors exactly when they are equal as numbers
            let a = s.u32().max(1);
            let b = match s.below(3) {
                0 => a,
                1 => (a ^ (1 << s.below(32))).max(1),
                _ => s.u32().max(1),
            };
            c.describe(|| format!("{a:#x} == {b:#x}"));
            c.label("comparison");
            c.nontrivial();
            let (x, y) = (TssError::try_from(a), TssError::try_from(b));
            let (Ok(x), Ok(y)) = (x, y) else { return Err("not converted".into()) };
            if (x == y) != (a == b) {
                return Err(format!("errors {a:#x} and {b:#x} compare as {}", x == y));
            }
        }
    }
    Ok(())
}

/// Thorough: every 32-bit value in blocks.
fn sweep(block: u64) -> Result<(), String> {
    for v in block << 20..(block + 1) << 20 {
        let v = v as u32;
        let r = TssError::try_from(v);
        if r.is_ok() != (v != 0) || r.map(|e| e.get()).unwrap_or(0) != v {
            return Err(format!("{v:#x} converts to {r:?}"));
        }
    }
    Ok(())
}
fn top(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    if s.directed(2) == 1 {
        let b = s.below(4096);
        c.describe(|| format!("all response codes {:#x}..{:#x}", b << 20, (b + 1) << 20));
        c.label("exhaustive block of 2^20 response codes");
        c.nontrivial();
        c.more_evaluations((1 << 20) - 1);
        return sweep(b);
    }
    case(s, c)
}
fn seeds(thorough: bool) -> Vec<Vec<u64>> {
    let mut v = Vec::new();
    for i in 0..RCS.len() as u64 {
        v.push(vec![0, 2, i]);
    }
    for f in 0..4 {
        for t in 0..3 {
            for p in 0..15 {
                v.push(vec![0, 3, f, t, p]);
            }
        }
    }
    for i in 0..3 {
        for j in 0..11 {
            v.push(vec![0, 4, i, j]);
        }
        v.push(vec![0, 5, i]);
    }
    for c in 0..0x2000 {
        v.push(vec![0, 0, c]);
    }
    for b in 0..if thorough { 4096 } else { 64 } {
        v.push(vec![1, b]);
    }
    v
}

pub fn prop() -> Prop {
    Prop {
        seeds: Some(seeds),
        quick: 2_000_000,
        quick_cov: 1_000_000,
        thorough: 20_000_000,
        thorough_cov: 2_000_000,
        assumptions: &[
            "the finite sets (named codes, constructors x types x positions, layer codes) are enumerated completely in every tier; all 2^32 response codes only in the thorough tier",
            "decoding is only checked for positions the specification can encode: parameters 1-15, handles and sessions 1-7",
        ],
        ..Prop::new("C11", top, "a case is non-trivial when it builds an actual error (every case but the conversion of 0)")
    }
}
