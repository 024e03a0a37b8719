//! C14: fresh generator output, reseeding whenever required, failures reported.
use crate::world::*;
use tpm2_impl::{ServerError, TpmContext};
use vh_engine::{hex, Ctx, Prop, Src};

/// Finds `what` in the entropy stream at bytes not used before; marks them used.
fn fresh(what: &[u8], stream: &[u8], used: &mut [bool], name: &str) -> Result<(), String> {
    if what.is_empty() {
        return Ok(());
    }
    let n = what.len();
    for at in 0..(stream.len() + 1).saturating_sub(n) {
        if stream[at..at + n] == *what && used[at..at + n].iter().all(|u| !u) {
            used[at..at + n].iter_mut().for_each(|u| *u = true);
            return Ok(());
        }
    }
    Err(format!("{name} {} is not fresh, complete output of the entropy source", hex(what)))
}

/// Checks the generator calls of one step.  Returns (outputs, a generator call failed).
fn audit(w: &World, from: usize, used: &mut Vec<bool>) -> Result<(Vec<u8>, bool, usize), String> {
    used.resize(w.stream.len(), false);
    let mut out = Vec::new();
    let mut last = 0;
    let mut failed = false;
    let mut pending = false;
    for e in &w.log[from..] {
        match e {
            Ev::Entropy { .. } => {}
            Ev::Instantiate { entropy, nonce, ok } => {
                fresh(entropy, &w.stream, used, "instantiation entropy")?;
                fresh(nonce, &w.stream, used, "nonce")?;
                failed |= !ok;
            }
            Ev::Requires(r) => pending |= r,
            Ev::Reseed { entropy, ok } => {
                fresh(entropy, &w.stream, used, "reseed entropy")?;
                failed |= !ok;
                if *ok {
                    pending = false;
                }
            }
            Ev::Output { bytes, ok, needed } => {
                if *ok && !bytes.is_empty() && (*needed || pending) {
                    return Err("output was generated although reseeding was required".into());
                }
                failed |= !ok;
                last = bytes.len();
                out.extend(bytes);
            }
        }
    }
    Ok((out, failed, last))
}

struct Slot<const E: usize, const N: usize> {
    tpm: TpmContext<Plain<E, N>>,
    w: World,
    used: Vec<bool>,
    faults: bool,
}

fn history<const E: usize, const N: usize>(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let mut slots: Vec<Slot<E, N>> = Vec::new();
    let nctx = if s.chance(1, 3) { 2 } else { 1 };
    let mut reseeds = false;
    for _ in 0..nctx {
        let mut script = Script {
            interval: s.below(5),
            initially: s.chance(1, 3),
            strict: s.chance(1, 2),
            dirty: s.chance(1, 2),
            pattern: if s.chance(1, 4) { s.below(5) as u8 } else { 0 },
            flat: s.chance(1, 20).then(|| *s.pick(&[0, 0xff, 0x5a])),
            ..Default::default()
        };
        for _ in 0..s.below(4) {
            let at = s.below(14);
            // a creation fault ends the context, so keep it rare
            if at != 0 || s.chance(1, 4) {
                script.fail.push(at);
            }
        }
        for _ in 0..s.below(3) {
            script.spurious.push(s.below(8));
        }
        reseeds |= script.interval > 0 || script.initially || !script.spurious.is_empty();
        let faults = !script.fail.is_empty();
        c.describe(|| format!("generator {script:?}"));
        let mut w = World::new(s.below(1 << 16), script);
        enter(&mut w);
        let r = vh_engine::catch(TpmContext::<Plain<E, N>>::new);
        leave(&mut w);
        let mut used = Vec::new();
        let (_, failed, _) = audit(&w, 0, &mut used)?;
        if !w.log.iter().any(|e| matches!(e, Ev::Instantiate { .. })) {
            return Err("a context was created without instantiating the generator".into());
        }
        match r? {
            Ok(tpm) => {
                if failed {
                    return Err("a context was created although the generator failed".into());
                }
                slots.push(Slot { tpm, w, used, faults });
            }
            Err(e) => {
                c.label("creation failed");
                if !failed || e != ServerError::DrbgError {
                    return Err(format!("creation failed with {e:?} although no fault was injected"));
                }
            }
        }
    }
    if slots.is_empty() {
        return Ok(());
    }
    let steps = 1 + s.idx(9);
    if steps >= 2 || reseeds || slots.iter().any(|s| s.faults) {
        c.nontrivial();
    }
    for _ in 0..steps {
        let k = slots.len();
        let slot = &mut slots[s.idx(k)];
        let n = match s.below(6) {
            0 => s.u16() as usize,
            1 => s.below(600) as usize,
            _ => s.below(70) as usize,
        };
        let mut req = vec![0x80, 1, 0, 0, 0, 12, 0, 0, 1, 0x7B, (n >> 8) as u8, n as u8];
        let room = match s.below(8) {
            0 => s.below(40) as usize,
            1 => 10 + n,
            2 => 9 + n,
            _ => 10 + n + s.below(30) as usize,
        };
        let room = room.max(12);
        if s.chance(1, 10) {
            let i = s.idx(10);
            req[i] ^= 1 << s.below(8);
        }
        let w = want(&req, room);
        let inplace = s.chance(1, 2);
        let before: Vec<u8> = if inplace {
            let mut b = req.clone();
            b.resize(room.max(12), 0xEE);
            b
        } else {
            vec![0xEE; room]
        };
        let mut out = before.clone();
        c.describe(|| {
            format!("{} {} room {room}", if inplace { "in place" } else { "separate" }, hex(&req))
        });
        let from = slot.w.log.len();
        enter(&mut slot.w);
        let tpm = &mut slot.tpm;
        let r = vh_engine::catch(|| {
            if inplace {
                tpm.execute_command_in_place(&mut out[..], 12)
            } else {
                tpm.execute_command_separate(&req, &mut out[..])
            }
        });
        leave(&mut slot.w);
        let len = r?;
        let (made, failed, last) = audit(&slot.w, from, &mut slot.used)?;
        // an undone generation may have left bytes beyond an error response
        let clean = if failed { out.clone() } else { before.clone() };
        let got = well_formed(&out, len, &clean)?;
        if failed {
            c.label("generator failure");
            match got {
                Some((FAILURE, _)) => {}
                other => return Err(format!("the generator failed, the response is {other:x?}")),
            }
            continue;
        }
        judge(&w, got, room)?;
        if let Some((0, body)) = got {
            c.label("random bytes returned");
            if made.len() < body.len() || made[..body.len()] != *body {
                return Err(format!(
                    "returned {} but the generator produced {}",
                    hex(body),
                    hex(&made)
                ));
            }
            if made.len() - body.len() >= last.max(1) {
                return Err("generator output was skipped".into());
            }
            if slot.w.log[from..].iter().any(|e| matches!(e, Ev::Reseed { .. })) {
                c.label("reseeded");
            }
        }
    }
    Ok(())
}

/// Many small commands to one context: nothing may depend on how many there were before.
pub fn long(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let steps = s.below(150_000);
    let interval = *s.pick(&[1u64, 2, 7, 100, 255, 256, 1000, 0]);
    // Entropy is searched linearly, so reseed often only in the shorter ones.
    let steps = if (1..100).contains(&interval) { steps.min(3000) } else { steps };
    let mut g = vh_engine::Rng::new(s.below(1 << 16));
    c.describe(|| format!("{steps} commands to one context, reseed interval {interval}"));
    c.nontrivial();
    c.label("long history");
    c.more_evaluations(steps);
    let mut w = World::new(g.next(), Script { interval, strict: true, ..Default::default() });
    enter(&mut w);
    let r = vh_engine::catch(TpmContext::<Plain<32, 16>>::new);
    leave(&mut w);
    let mut used = Vec::new();
    audit(&w, 0, &mut used)?;
    let Ok(mut tpm) = r? else { return Err("no context".into()) };
    w.log.clear();
    for i in 0..steps {
        let n = g.upto(12) as usize;
        let mut b = [0xEE; 64];
        b[..12].copy_from_slice(&[0x80, 1, 0, 0, 0, 12, 0, 0, 1, 0x7B, 0, n as u8]);
        let bad = g.upto(9) == 0;
        if bad {
            b[6 + g.upto(2) as usize] ^= 0x11;
        }
        let before = b;
        enter(&mut w);
        let r = vh_engine::catch(|| {
            if i % 3 == 0 {
                let req = b[..12].to_vec();
                tpm.execute_command_separate(&req, &mut b[..])
            } else {
                tpm.execute_command_in_place(&mut b[..], 12)
            }
        });
        leave(&mut w);
        let len = r.map_err(|e| format!("command {i}: {e}"))?;
        let step = || -> Result<(), String> {
            let (made, failed, _) = audit(&w, 0, &mut used)?;
            if failed {
                return Err("the generator was used although it required reseeding".into());
            }
            let got = well_formed(&b, len, &before)?;
            judge(&want(&before[..12], 64), got, 64)?;
            match got {
                Some((0, body)) if made.len() < body.len() || made[..body.len()] != *body => Err(format!("returned {} but the generator produced {}", hex(body), hex(&made))),
                _ => Ok(()),
            }
        }();
        step.map_err(|e| format!("command {i}: {e}"))?;
        w.log.clear();
    }
    Ok(())
}
pub fn seeds(thorough: bool) -> Vec<Vec<u64>> {
    let n = if thorough { 40 } else { 8 };
    (0..n).map(|i| vec![1, if i < 8 { 140_000 } else { 70_000 + i * 311 }, i % 8, i]).collect()
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    if s.directed(2) == 1 {
        return long(s, c);
    }
    match s.below(5) {
        4 if s.chance(1, 10) => history::<1000, 300>(s, c),
        4 if s.chance(1, 40) => history::<5000, 4097>(s, c),
        4 => history::<24, 24>(s, c),
        0 => history::<32, 16>(s, c),
        1 => history::<55, 24>(s, c),
        2 => history::<48, 0>(s, c),
        _ => history::<8, 40>(s, c),
    }
}

pub fn prop() -> Prop {
    Prop {
        seeds: Some(seeds),
        quick: 800_000,
        quick_cov: 400_000,
        thorough: 40_000_000,
        thorough_cov: 20_000_000,
        assumptions: &[
            "the generator and entropy source are scripted: reseed need by interval, initially or at chosen polls; faults at chosen calls; strict or lenient; dirty or clean failures",
            "bytes beyond an error response are not checked when the generator failed, as the generator itself may have written them",
        ],
        ..Prop::new("C14", case, "a case is non-trivial when it has at least two commands, a possible reseed or an injected fault")
    }
}
