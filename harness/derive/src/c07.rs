//! C07: the derive macros, on generated type definitions.
use crate::types::{sized, types, wraps};
use crate::{c01, c02, c03, c04};
use vh_engine::{Ctx, Prop, Src};

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let k = match s.directed(6) {
        0 if s.chance(1, 4000) => 8,
        0 => s.below(8),
        5 => 8,
        k => k - 1,
    };
    match k {
        0 => c01::case(s, c),
        1 => c02::case(s, c),
        2 => c03::case(s, c),
        3 => c04::case(s, c),
        4 => sized(s, c),
        5 => wraps(s, c),
        6 => c03::case(s, c),
        8 => crate::big::case(s, c),
        _ => c02::case(s, c),
    }
}
fn seeds(_: bool) -> Vec<Vec<u64>> {
    let mut v: Vec<Vec<u64>> = (1..=types().len() as u64).flat_map(|t| (1..=4).map(move |k| vec![k, t])).collect();
    // every large type at every size around the 16-bit limit
    v.extend((0..6).flat_map(|k| (0..12).map(move |n| vec![5, k, 3, n, n, 0])));
    v.extend((0..6).flat_map(|k| (0..40).map(move |n| vec![5, k, 2, n * 180, n, n])));
    v
}

pub fn prop() -> Prop {
    Prop {
        seeds: Some(seeds),
        quick: 4_000_000,
        thorough: 100_000_000,
        quick_cov: 500_000,
        thorough_cov: 10_000_000,
        assumptions: &[
            "the type definitions are a fixed catalogue with every accepted shape and random ones drawn from the seed, compiled afresh",
            "where several errors apply at once any of them is accepted; the error for an over-long sized buffer is left open",
            "names, comments, foreign attributes, visibility and the spelling of types and lengths vary; names that generated code could plausibly use itself are avoided, definitions the macros do not accept are not generated",
        ],
        ..Prop::new("C07", case, "non-trivial by the rules of C01 to C05, distinct by type and bytes")
    }
}
