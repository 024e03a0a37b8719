//! C06: lists as bounded sequences, under histories.
use crate::types::{from_wire, Model};
use tpm2_rs_base::constants::*;
use tpm2_rs_base::errors::TpmRcError;
use tpm2_rs_base::*;
use vh_engine::{hash64, hex, Ctx, Prop, Src};
use vh_model::{encode, gen, Sch, Val};

trait List: Model + Default + PartialEq + Clone + std::fmt::Debug {
    type E: Model + Copy + PartialEq + std::fmt::Debug;
    fn mk(e: &[Self::E]) -> Result<Self, bool>;
    fn push(&mut self, e: &Self::E) -> Result<(), bool>;
    fn n(&self) -> usize;
    fn items(&self) -> &[Self::E];
}
macro_rules! lists {
    ($($t:ident, $e:ident, $f:ident;)*) => {$(
        impl List for $t {
            type E = $e;
            fn mk(e: &[$e]) -> Result<Self, bool> { $t::new(e).map_err(|e| e == TpmRcError::Size.into()) }
            fn push(&mut self, e: &$e) -> Result<(), bool> { self.add(e).map_err(|e| e == TpmRcError::Size.into()) }
            fn n(&self) -> usize { self.count() }
            fn items(&self) -> &[$e] { self.$f() }
        }
    )*};
}
lists! {
    TpmlPcrSelection, TpmsPcrSelection, pcr_selections;
    TpmlAlgProperty, TpmsAlgProperty, alg_properties;
    TpmlHandle, TpmHandle, handle;
    TpmlCc, TpmCc, command_codes;
    TpmlTaggedTpmProperty, TpmsTaggedProperty, tpm_property;
    TpmlTaggedPcrProperty, TpmsTaggedPcrSelect, pcr_property;
    TpmlEccCurve, TpmEccCurve, ecc_curves;
    TpmlTaggedPolicy, TpmsTaggedPolicy, policies;
    TpmlDigest, Tpm2bDigest, digests;
}

fn same<T: List>(name: &str, t: &T, m: &[Val], after: &str) -> Result<(), String> {
    if t.n() != m.len() {
        return Err(format!("{name} after {after}: count {} instead of {}", t.n(), m.len()));
    }
    if t.items().len() != m.len() {
        return Err(format!("{name} after {after}: {} elements instead of {}", t.items().len(), m.len()));
    }
    for (i, (x, v)) in t.items().iter().zip(m).enumerate() {
        if x.view()? != *v || *x != T::E::build(v, 0)? {
            return Err(format!("{name} after {after}: element {i} is {x:?} instead of {v:?}"));
        }
    }
    Ok(())
}
fn elems<T: List>(m: &[Val]) -> Result<Vec<T::E>, String> {
    m.iter().map(|v| T::E::build(v, 0)).collect()
}

fn history<T: List>(s: &mut Src, c: &mut Ctx, name: &'static str) -> Result<(), String> {
    let Sch::List { cap, elem, .. } = T::sch() else { panic!() };
    let sch = T::sch();
    c.label(name);
    let mut t = T::default();
    let mut m: Vec<Val> = Vec::new();
    let mut log = String::new();
    let mut full = false;
    let mut key = hash64(name.as_bytes());
    same(name, &t, &m, "default")?;
    let steps = 2 + s.len(24);
    for step in 0..steps {
        let op = if step == 0 { s.below(3) } else { s.below(12) };
        let what;
        c.describe(|| format!("{name}, operation {op} on {} of {cap} elements", m.len()));
        match op {
            // Construct: near the capacity, beyond it, or any length.
            0 => {
                let n = match s.below(6) {
                    0 | 1 => cap - s.idx(cap.min(4) + 1),
                    2 => cap + 1 + s.idx(3),
                    3 => cap + s.len(600),
                    _ => s.len(cap),
                };
                let l: Vec<Val> = if n > 40 && s.chance(1, 2) {
                    // Long lists from few choices, all elements different where the type allows.
                    let e: Vec<Val> = (0..5).map(|_| gen(s, &elem, 0)).collect();
                    (0..n).map(|i| bump(&e[i % 5], i as u64)).collect()
                } else {
                    (0..n).map(|_| gen(s, &elem, 0)).collect()
                };
                what = format!("new({n})");
                match T::mk(&elems::<T>(&l)?) {
                    Ok(x) if n <= cap => {
                        t = x;
                        m = l;
                    }
                    Ok(x) => return Err(format!("{name}: {n} elements accepted with capacity {cap}, count {}", x.n())),
                    Err(_) if n <= cap => return Err(format!("{name}: {n} elements refused with capacity {cap}")),
                    Err(size) => {
                        full = true;
                        if !size {
                            return Err(format!("{name}: {n} elements refused with another error than size"));
                        }
                    }
                }
            }
            1 => {
                what = "default".into();
                t = T::default();
                m.clear();
            }
            // Append up to (and past) the capacity.
            2 => {
                let e = gen(s, &elem, 0);
                let n = (cap + 1 - m.len()).min(600);
                what = format!("{n} adds of {e:?}");
                for i in 0..n {
                    let e = bump(&e, i as u64);
                    add(name, &mut t, &mut m, cap, e, &mut full)?;
                }
            }
            3..=7 => {
                let e = gen(s, &elem, 0);
                what = format!("add({e:?})");
                add(name, &mut t, &mut m, cap, e, &mut full)?;
            }
            8 => {
                what = "marshal".into();
                let want = encode(&sch, &Val::L(m.clone()));
                let mut b = vec![0xDD; want.len() + 4];
                match t.try_marshal(&mut b) {
                    Ok(n) if n == want.len() && b[..n] == want => (),
                    r => return Err(format!("{name}: {} elements marshaled as {r:?} {} instead of {}", m.len(), hex(&b), hex(&want))),
                }
            }
            9 => {
                what = "marshal and unmarshal".into();
                let mut b = vec![0; 8192];
                let n = t.try_marshal(&mut b).map_err(|e| format!("{name}: not marshaled: {e:?}"))?;
                let (x, used) = from_wire::<T>(&b[..n]);
                t = x.map_err(|e| format!("{name}: own encoding refused: {e:?}"))?;
                if used != n {
                    return Err(format!("{name}: {used} of {n} bytes consumed"));
                }
            }
            10 => {
                // A list from elsewhere.
                let n = s.len(cap);
                what = format!("unmarshal of {n}");
                m = (0..n).map(|_| gen(s, &elem, 0)).collect();
                let b = encode(&sch, &Val::L(m.clone()));
                t = from_wire::<T>(&b).0.map_err(|e| format!("{name}: {} refused: {e:?}", hex(&b)))?;
            }
            _ => {
                let n = cap + 1 + s.idx(5);
                what = format!("unmarshal of {n}");
                let e = gen(s, &elem, 0);
                let b = encode(&sch, &Val::L(vec![e; n]));
                full = true;
                if let Ok(x) = from_wire::<T>(&b).0 {
                    return Err(format!("{name}: {n} elements accepted from the wire with capacity {cap}, count {}", x.n()));
                }
            }
        }
        if log.len() < 4000 {
            log += &format!("{what}; ");
        }
        key = key.rotate_left(5) ^ hash64(what.as_bytes());
        same(name, &t, &m, &what).map_err(|e| format!("{e} [{log}]"))?;
        let l = elems::<T>(&m)?;
        if m.len() <= cap && T::mk(&l).ok().as_ref() != Some(&t) {
            return Err(format!("{name} after {what}: not equal to a list constructed from its {} elements [{log}]", m.len()));
        }
    }
    if full {
        c.label("reached capacity");
    }
    c.nontrivial_key(key);
    c.more_evaluations(steps as u64 - 1);
    Ok(())
}
fn add<T: List>(name: &str, t: &mut T, m: &mut Vec<Val>, cap: usize, e: Val, full: &mut bool) -> Result<(), String> {
    let before = t.clone();
    match t.push(&T::E::build(&e, 0)?) {
        Ok(()) if m.len() < cap => m.push(e),
        Ok(()) => return Err(format!("{name}: added to a full list of {cap}, count now {}", t.n())),
        Err(_) if m.len() < cap => return Err(format!("{name}: refused with {} of {cap} elements", m.len())),
        Err(size) => {
            *full = true;
            if !size {
                return Err(format!("{name}: a full list refused with another error than size"));
            }
            if *t != before {
                return Err(format!("{name}: a refused add changed the list"));
            }
        }
    }
    if t.n() != m.len() {
        return Err(format!("{name}: count {} after adding to {}", t.n(), m.len()));
    }
    Ok(())
}
/// A variation of a value (same shape).
fn bump(v: &Val, i: u64) -> Val {
    match v {
        Val::U(x) => Val::U((x ^ i) & 0xff | x & !0xff),
        Val::B(b) => Val::B(b.iter().map(|x| x ^ i as u8).collect()),
        Val::L(l) => Val::L(l.iter().map(|x| bump(x, i)).collect()),
        Val::S(l) => Val::S(l.iter().map(|x| bump(x, i)).collect()),
        Val::E(s, l) => Val::E(*s, l.iter().map(|x| bump(x, i)).collect()),
    }
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    match s.below(9) {
        0 => history::<TpmlPcrSelection>(s, c, "TpmlPcrSelection"),
        1 => history::<TpmlAlgProperty>(s, c, "TpmlAlgProperty"),
        2 => history::<TpmlHandle>(s, c, "TpmlHandle"),
        3 => history::<TpmlCc>(s, c, "TpmlCc"),
        4 => history::<TpmlTaggedTpmProperty>(s, c, "TpmlTaggedTpmProperty"),
        5 => history::<TpmlTaggedPcrProperty>(s, c, "TpmlTaggedPcrProperty"),
        6 => history::<TpmlEccCurve>(s, c, "TpmlEccCurve"),
        7 => history::<TpmlTaggedPolicy>(s, c, "TpmlTaggedPolicy"),
        _ => history::<TpmlDigest>(s, c, "TpmlDigest"),
    }
}

pub fn prop() -> Prop {
    Prop {
        quick: 160_000,
        thorough: 5_000_000,
        quick_cov: 60_000,
        thorough_cov: 500_000,
        assumptions: &["the capacities are those of the implementation profile (1024-byte capability buffer, 16 PCR banks, 8 digests)"],
        ..Prop::new("C06", case, "history of at least two operations, distinct by type and operations")
    }
}
