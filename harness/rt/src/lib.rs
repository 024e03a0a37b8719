//! SanitizerCoverage runtime: 8-bit counters and compare tracing.  This crate itself is compiled
//! without instrumentation (see `profile.*.package` in the harness manifests).
#![allow(static_mut_refs)]

use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

const MAX_REGIONS: usize = 4096;
static mut REGIONS: [(usize, usize); MAX_REGIONS] = [(0, 0); MAX_REGIONS];
static NREG: AtomicUsize = AtomicUsize::new(0);

static ON: AtomicBool = AtomicBool::new(false);

/// Ring of operand pairs seen by compare instructions (only while tracing is on).
pub const RING: usize = 512;
static mut PAIRS: [(u64, u64, u8); RING] = [(0, 0, 0); RING];
static mut NPAIR: usize = 0;

/// Constants compared against, by operand size; never reset, bounded.
pub const NCONST: usize = 8192;
static mut CONSTS: [u64; NCONST] = [0; NCONST];
static mut CONST_SET: [u64; NCONST * 2] = [0; NCONST * 2];
static mut NCONSTS: usize = 0;

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    if start == stop {
        return;
    }
    let n = NREG.load(Relaxed);
    unsafe {
        for r in &REGIONS[..n] {
            if r.0 == start as usize {
                return;
            }
        }
        if n < MAX_REGIONS {
            REGIONS[n] = (start as usize, stop as usize);
            NREG.store(n + 1, Relaxed);
        }
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_beg: *const usize, _end: *const usize) {}

#[inline(always)]
fn pair(a: u64, b: u64, size: u8) {
    if a == b || !ON.load(Relaxed) {
        return;
    }
    unsafe {
        let i = NPAIR;
        if i < RING {
            // keep only fresh pairs (cheap check on the last few)
            let lo = i.saturating_sub(4);
            for p in &PAIRS[lo..i] {
                if p.0 == a && p.1 == b {
                    return;
                }
            }
            PAIRS[i] = (a, b, size);
            NPAIR = i + 1;
        }
    }
}
#[inline(always)]
fn konst(c: u64) {
    if !ON.load(Relaxed) || c < 2 {
        return;
    }
    unsafe {
        let mask = NCONST * 2 - 1;
        let mut h = (c.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) as usize & mask;
        loop {
            let e = CONST_SET[h];
            if e == c {
                return;
            }
            if e == 0 {
                break;
            }
            h = (h + 1) & mask;
        }
        if NCONSTS < NCONST {
            CONST_SET[h] = c;
            CONSTS[NCONSTS] = c;
            NCONSTS += 1;
        }
    }
}

macro_rules! cmp { ($($n:ident $c:ident $t:ty, $s:literal;)+) => { $(
    #[no_mangle]
    pub extern "C" fn $n(a: $t, b: $t) { pair(a as u64, b as u64, $s); }
    #[no_mangle]
    pub extern "C" fn $c(a: $t, b: $t) { konst(a as u64); pair(a as u64, b as u64, $s); }
)+ } }
cmp! {
    __sanitizer_cov_trace_cmp1 __sanitizer_cov_trace_const_cmp1 u8, 1;
    __sanitizer_cov_trace_cmp2 __sanitizer_cov_trace_const_cmp2 u16, 2;
    __sanitizer_cov_trace_cmp4 __sanitizer_cov_trace_const_cmp4 u32, 4;
    __sanitizer_cov_trace_cmp8 __sanitizer_cov_trace_const_cmp8 u64, 8;
}
/// # Safety
/// Called by instrumented code with a table of `cases[0]` values.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(val: u64, cases: *const u64) {
    if !ON.load(Relaxed) {
        return;
    }
    let n = (*cases) as usize;
    let sz = (*cases.add(1) / 8) as u8;
    for i in 0..n {
        let c = *cases.add(2 + i);
        konst(c);
        if i < 8 {
            pair(c, val, sz);
        }
    }
}

/// Turns tracing on or off.
pub fn tracing(on: bool) {
    ON.store(on, Relaxed);
}
/// Number of instrumented counters.
pub fn counters() -> usize {
    let n = NREG.load(Relaxed);
    unsafe { REGIONS[..n].iter().map(|r| r.1 - r.0).sum() }
}
/// Clears counters and recorded pairs.
pub fn reset() {
    let n = NREG.load(Relaxed);
    unsafe {
        for r in &REGIONS[..n] {
            std::ptr::write_bytes(r.0 as *mut u8, 0, r.1 - r.0);
        }
        NPAIR = 0;
    }
}
/// Calls `f(index, count)` for every non-zero counter.
pub fn visit(mut f: impl FnMut(usize, u8)) {
    let n = NREG.load(Relaxed);
    let mut base = 0usize;
    unsafe {
        for r in &REGIONS[..n] {
            let len = r.1 - r.0;
            let p = r.0 as *const u8;
            let mut i = 0;
            while i < len {
                if i + 8 <= len && (p.add(i) as *const u64).read_unaligned() == 0 {
                    i += 8;
                    continue;
                }
                let v = *p.add(i);
                if v != 0 {
                    f(base + i, v);
                }
                i += 1;
            }
            base += len;
        }
    }
}
/// Operand pairs recorded since the last reset.
pub fn pairs() -> Vec<(u64, u64, u8)> {
    unsafe { PAIRS[..NPAIR].to_vec() }
}
/// Number of known constants, and one of them.
pub fn nconsts() -> usize {
    unsafe { NCONSTS }
}
pub fn konst_at(i: usize) -> u64 {
    unsafe { CONSTS[i % NCONST] }
}
