//! C08: the frames sent.
use crate::stub::*;
use tpm2_client::write_command_sessions;
use vh_engine::{hash64, hex, Ctx, Prop, Src};

fn area(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let n = s.idx(4);
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(Sess::mk(s)?);
    }
    let want = auth_area(&v);
    let len = match s.below(4) {
        0 => s.len(12),
        1 => want.len(),
        2 => (want.len() + s.idx(5)).saturating_sub(2),
        _ => s.idx(want.len() + 20),
    };
    c.describe(|| format!("authorization area of {n} sessions, {} bytes, into {len}", want.len()));
    c.label("authorization area alone");
    c.nontrivial_key(hash64(&want) ^ len as u64);
    let mut b = vec![0x6B; len];
    let mut it = v.into_iter();
    let mut nx = || it.next().unwrap();
    let r = match n {
        0 => write_command_sessions(&(), &mut b),
        1 => write_command_sessions(&nx(), &mut b),
        2 => write_command_sessions(&(nx(), nx()), &mut b),
        _ => write_command_sessions(&(nx(), nx(), nx()), &mut b),
    };
    match r {
        Ok(m) if len < want.len() => Err(format!("{m} bytes reported in {len}, the area needs {}", want.len())),
        Err(_) if len < want.len() => Ok(()),
        Ok(m) if m == want.len() && b[..m] == want => Ok(()),
        r => Err(format!("wrote {r:?} {} instead of {}", hex(&b), hex(&want))),
    }
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    if s.chance(1, 5) {
        return area(s, c);
    }
    let x = call(s, Replies::Mild)?;
    c.describe(|| x.desc.clone());
    c.nontrivial_key(hash64(&x.frame));
    if x.frame.len() > BUF {
        c.label("too large");
        if !x.sent.is_empty() {
            return Err(format!("a frame of {} bytes needed, {} bytes sent", x.frame.len(), x.sent[0].len()));
        }
        return match x.got {
            Err(Fail::Code(_)) => Ok(()),
            r => Err(format!("a frame of {} bytes: the call returned {r:x?}", x.frame.len())),
        };
    }
    c.label(["no session", "one session", "two sessions", "three sessions"][x.nsess]);
    if x.frame.len() > BUF - 4 {
        c.label("nearly full command buffer");
    }
    if x.sent.len() != 1 {
        return Err(format!("{} frames sent, the call returned {:x?}", x.sent.len(), x.got));
    }
    if x.sent[0] != x.frame {
        return Err(format!("sent {} instead of {}", hex(&x.sent[0]), hex(&x.frame)));
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        quick: 2_000_000,
        thorough: 25_000_000,
        quick_cov: 150_000,
        thorough_cov: 4_000_000,
        assumptions: &["the transport is a stub that records what it is given"],
        ..Prop::new("C08", case, "distinct by the frame (or authorization area and buffer length)")
    }
}
