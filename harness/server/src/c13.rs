//! C13: one well-formed response to every request, in both modes.
use crate::world::*;
use tpm2_impl::TpmContext;
use vh_engine::{hex, Ctx, Prop, Src};

/// A request: usually nearly valid, sometimes arbitrary bytes.
pub fn request(s: &mut Src) -> Vec<u8> {
    if s.chance(1, 12) {
        let n = s.len(40);
        return s.blob(n);
    }
    let tag = match s.below(8) {
        0 => s.u16(),
        1 => 0x8002,
        _ => 0x8001,
    };
    let code = match s.below(10) {
        0 => s.u32(),
        1 => 0x11F + s.below(0x80) as u32,
        2 => *s.pick(&[0x17Au32, 0x17C, 0x7B, 0x1017B, 0x17B00, 0x8000017B, 0x20000000, 0x27B]),
        _ => GET_RANDOM,
    };
    let n = match s.below(8) {
        0 => s.u16(),
        1 => 0,
        2 | 3 => s.below(8) as u16,
        4 => s.below(300) as u16,
        _ => s.below(66) as u16,
    };
    let mut r = tag.to_be_bytes().to_vec();
    r.extend([0; 4]);
    r.extend(code.to_be_bytes());
    r.extend(n.to_be_bytes());
    match s.below(8) {
        0 => {
            let k = match s.below(500) {
                1 => 24 + s.idx(140_000),
                2..=9 => 24 + s.idx(5_000),
                _ => s.len(24),
            };
            if k <= 24 {
                r.extend(s.blob(k));
            } else {
                let mut g = vh_engine::Rng::new(s.below(1 << 16));
                r.extend((0..k).map(|_| g.next() as u8));
            }
        }
        1 => {
            let k = s.below(r.len() as u64 + 1) as usize;
            r.truncate(k);
        }
        2 => r.truncate(10 + s.below(2) as usize),
        _ => {}
    }
    let l = r.len() as u32;
    let size = match s.below(12) {
        0 => s.u32(),
        1 => l.wrapping_add(1 << s.below(32)),
        2 => l.wrapping_sub(1),
        3 => 10,
        4 => l << 8,
        _ => l,
    };
    for (i, b) in size.to_be_bytes().into_iter().enumerate() {
        if 2 + i < r.len() {
            r[2 + i] = b;
        }
    }
    r
}
pub fn room(s: &mut Src, req: &[u8]) -> usize {
    let n = if req.len() >= 12 { be32(&req[10..12]) as usize } else { 0 };
    match s.below(8) {
        0 => s.below(11) as usize,
        1 => s.below(14) as usize,
        2 => (10 + n).saturating_sub(s.below(4) as usize),
        3 => 10 + n + s.below(4) as usize,
        4 => req.len(),
        5 => 10 + n,
        _ => s.below(400) as usize,
    }
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    if s.directed(2) == 1 {
        return crate::c14::long(s, c);
    }
    let steps = 1 + s.idx(5);
    let seed = s.below(1 << 16);
    let script = Script { interval: s.below(4), strict: true, ..Default::default() };
    let mut ws = World::new(seed, script.clone());
    let mut wi = World::new(seed, script);
    enter(&mut ws);
    let sep = TpmContext::<Plain<32, 16>>::new();
    leave(&mut ws);
    enter(&mut wi);
    let inp = TpmContext::<Plain<32, 16>>::new();
    leave(&mut wi);
    let (Ok(mut sep), Ok(mut inp)) = (sep, inp) else { return Err("no context".into()) };
    for _ in 0..steps {
        let req = request(s);
        let m = room(s, &req);
        let fill = s.u8();
        c.describe(|| format!("{}-byte request {} with {m} bytes for the response", req.len(), hex(&req[..req.len().min(60)])));
        let w = want(&req, m);
        c.label(match &w {
            Want::Rc(CMD_SIZE) => "command-size error",
            Want::Rc(CMD_CODE) => "command-code error",
            Want::Rc(_) => "memory error",
            Want::Random(_) => "random bytes",
            _ => "outcome left open",
        });
        if req.len() >= 10 {
            c.nontrivial();
        }
        // separate buffers
        let before: Vec<u8> = (0..m).map(|i| fill.wrapping_add(i as u8)).collect();
        let mut out = before.clone();
        enter(&mut ws);
        let r = vh_engine::catch(|| sep.execute_command_separate(&req, &mut out[..]));
        leave(&mut ws);
        let n = r?;
        let got = well_formed(&out, n, &before)?;
        judge(&w, got, m)?;
        // the same in place, when the request fits the buffer
        let size = match s.below(10) {
            0 => s.int(u64::MAX) as usize,
            1 => req.len().saturating_sub(1),
            2 => req.len() + 1,
            _ => req.len(),
        };
        let mut buf = before.clone();
        let k = req.len().min(m);
        buf[..k].copy_from_slice(&req[..k]);
        let before2 = buf.clone();
        // the request the in-place server sees
        let seen = before2[..size.min(m)].to_vec();
        let w2 = want(&seen, m);
        enter(&mut wi);
        let r = vh_engine::catch(|| inp.execute_command_in_place(&mut buf[..], size));
        leave(&mut wi);
        let n2 = r.map_err(|e| format!("in place, request size {size}: {e}"))?;
        let got2 = well_formed(&buf, n2, &before2).map_err(|e| format!("in place: {e}"))?;
        judge(&w2, got2, m).map_err(|e| format!("in place: {e}"))?;
        if seen == req {
            if n != n2 || out[..n] != buf[..n2] {
                return Err(format!(
                    "separate mode answers {}, in-place mode {}",
                    hex(&out[..n.min(400)]),
                    hex(&buf[..n2.min(400)])
                ));
            }
            c.label("both modes compared");
        } else {
            // the contexts' generators may now differ; start the next step from equal states
            let (a, b) = (World::new(seed ^ 1, ws.script.clone()), World::new(seed ^ 1, wi.script.clone()));
            ws = a;
            wi = b;
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        seeds: Some(crate::c14::seeds),
        quick: 1_200_000,
        quick_cov: 600_000,
        thorough: 60_000_000,
        thorough_cov: 30_000_000,
        assumptions: &[
            "the only implemented command is TPM2_GetRandom; what happens to a request with another tag than no-sessions or with bytes after its parameters, and the exact error for missing parameters, are left open (but the response must be well-formed)",
        ],
        ..Prop::new("C13", case, "a case is non-trivial when at least one of its requests has a complete header")
    }
}
