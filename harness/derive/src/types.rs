//! The generated types, in the place where the checks of the codec look for the repository's.
pub use crate::basetypes::{from_wire, Dyn, Model, Ty, R};
use std::sync::OnceLock;

#[allow(clippy::all)]
mod generated {
    use crate::basetypes::{fields, ty, u, vty, Model, Ty, Var, R};
    use crate::c05::{plain, wrapping};
    use safe_discriminant::Discriminant;
    use std::mem::size_of;
    use tpm2_rs_base::{Tpm2bSimple, Tpm2bStruct};
    use tpm2_rs_marshalable::{Marshalable, MarshalableVariant, Tpm2bStruct, UnmarshalBuf};
    use vh_engine::{Ctx, Src};
    use vh_model::{Fld, Sch, Val};

    pub struct W<T>(T);
    fn same(s: Sch) -> Sch {
        s
    }
    fn fixed<T: Model>(n: usize) -> Sch {
        Sch::S(vec![T::sch(); n])
    }
    /// The elements given, then padding: the default, or what the repeated byte decodes to.
    fn arr<T: Model + Copy + Default, const N: usize>(v: &Val, pad: u8) -> Result<[T; N], String> {
        let (Val::L(l) | Val::S(l)) = v else { panic!("schema mismatch") };
        let mut p = T::default();
        if pad != 0 {
            let b = vec![pad; 4096];
            p = T::try_unmarshal(&mut UnmarshalBuf::new(&b)).unwrap_or(p);
        }
        let mut a = [p; N];
        for (i, e) in l.iter().enumerate() {
            a[i] = T::build(e, pad)?;
        }
        Ok(a)
    }
    fn head<T: Model>(a: &[T], n: usize) -> Result<Vec<Val>, String> {
        if n > a.len() {
            return Err(format!("the count is {n} with room for {}", a.len()));
        }
        a[..n].iter().map(|x| x.view()).collect()
    }
    include!("../../../work/gen-derive/types.rs");
}
pub use generated::{sized, wraps};

pub fn types() -> &'static [Ty] {
    static T: OnceLock<Vec<Ty>> = OnceLock::new();
    T.get_or_init(generated::all)
}
pub fn pick(s: &mut vh_engine::Src) -> &'static Ty {
    s.pick(types())
}
