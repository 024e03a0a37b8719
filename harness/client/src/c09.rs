//! C09: what the client makes of a response.
use crate::stub::*;
use tpm2_client::read_response_header;
use tpm2_rs_base::constants::TpmSt;
use vh_engine::{hash64, hex, Ctx, Prop, Src};

fn header(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let n = s.len(30);
    let mut b = s.blob(n);
    if n >= 10 && s.chance(1, 2) {
        b[6..10].fill(0);
    }
    c.describe(|| format!("header of {}", hex(&b)));
    c.label("header alone");
    c.nontrivial_key(hash64(&b));
    let r = read_response_header(&b);
    if n < 10 {
        return if r.is_ok() { Err(format!("a header was read from {n} bytes")) } else { Ok(()) };
    }
    let be = |b: &[u8]| b.iter().fold(0u32, |a, x| a << 8 | *x as u32);
    let rc = be(&b[6..10]);
    match r {
        Ok((h, 10)) if rc == 0 && h.tag == TpmSt(be(&b[..2]) as u16) && h.size == be(&b[2..6]) && h.rc == 0 => Ok(()),
        Err(e) if rc != 0 && e.get() == rc => Ok(()),
        r => Err(format!("header {} gave {r:x?}", hex(&b))),
    }
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    if s.chance(1, 10) {
        return header(s, c);
    }
    let x = call(s, Replies::Hostile)?;
    c.describe(|| x.desc.clone());
    if x.sent.is_empty() {
        c.label("nothing sent");
        return match x.got {
            Err(_) => Ok(()),
            Ok(r) => Err(format!("nothing was sent but the call returned {r:?}")),
        };
    }
    if x.room != BUF {
        return Err(format!("the transport was given {} bytes for the response", x.room));
    }
    if let Ok(r) = &x.reply {
        if r.len() >= 10 {
            c.nontrivial_key(hash64(r));
        }
    }
    c.label(match (&x.reply, &x.got) {
        (Err(_), _) => "transport error",
        (_, Ok(_)) => "success",
        (Ok(r), _) if r.len() >= 10 && r[6..10] != [0; 4] => "response code",
        _ => "malformed",
    });
    if x.nsess > 0 && x.want.is_ok() {
        c.label("success with sessions");
    }
    judge(&x.want, &x.got)
}

pub fn prop() -> Prop {
    Prop {
        quick: 2_400_000,
        thorough: 40_000_000,
        quick_cov: 400_000,
        thorough_cov: 10_000_000,
        assumptions: &[
            "left open, as neither success nor error is specified: received bytes beyond the announced size, a response tag that does not match the sessions, a wrong parameter size",
            "which error reports malformed data is left open",
        ],
        ..Prop::new("C09", case, "reply of at least a header's length, distinct by bytes")
    }
}
