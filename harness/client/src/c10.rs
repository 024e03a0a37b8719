//! C10: sessions.
use crate::stub::*;
use crate::types::Model;
use tpm2_client::read_response_sessions;
use tpm2_client::sessions::*;
use tpm2_rs_base::{TpmsAuthCommand, TpmsAuthResponse};
use tpm2_rs_marshalable::{Marshalable, UnmarshalBuf};
use vh_engine::{hash64, hex, Ctx, Prop, Src};
use vh_model::{encode, gen, Val};

fn password(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let n = match s.below(6) {
        0 => 60 + s.idx(10),
        1 => 64 + s.len(5000),
        2 => 65536 - 2 + s.idx(70),
        _ => s.len(64),
    };
    let secret = s.blob(n);
    c.describe(|| format!("password of {n} bytes {}", hex(&secret[..n.min(70)])));
    c.label("password");
    c.nontrivial_key(hash64(&secret));
    let p = match PasswordSession::new(&secret[..]) {
        Ok(_) if n > 64 => return Err(format!("a password of {n} bytes was accepted")),
        Err(_) if n > 64 => return Ok(()),
        Err(e) => return Err(format!("a password of {n} bytes was refused: {e:?}")),
        Ok(p) => p,
    };
    if p.get_secret() != secret {
        return Err(format!("the secret {} became {}", hex(&secret), hex(p.get_secret())));
    }
    let mut b = [0x33; 300];
    let mut want = vec![0x40, 0, 0, 9, 0, 0, 0];
    want.extend((n as u16).to_be_bytes());
    want.extend(&secret);
    let r = p.get_auth_command().try_marshal(&mut b);
    if r != Ok(want.len()) || b[..want.len()] != want {
        return Err(format!("authorization {r:?} {} instead of {}", hex(&b), hex(&want)));
    }
    // Any response, most of them close to the right one.
    for _ in 0..4 {
        let part = |s: &mut Src| {
            let k = match s.below(5) {
                0 => 1 + s.idx(3),
                1 => s.len(64),
                _ => 0,
            };
            Val::B(s.blob(k))
        };
        let attr = match s.below(4) {
            0 => s.u8() as u64,
            1 => 1 ^ 1 << s.below(8),
            _ => 1,
        };
        let a = Val::S(vec![part(s), Val::U(attr), part(s)]);
        let good = a == Val::S(vec![Val::B(vec![]), Val::U(1), Val::B(vec![])]);
        let ok = p.validate_auth_response(&TpmsAuthResponse::build(&a, 0)?).is_ok();
        if ok != good {
            return Err(format!("response authorization {a:?} {}", if ok { "accepted" } else { "refused" }));
        }
        c.more_evaluations(1);
    }
    if s.chance(1, 8) {
        for attr in 0..256 {
            let a = Val::S(vec![Val::B(vec![]), Val::U(attr), Val::B(vec![])]);
            if p.validate_auth_response(&TpmsAuthResponse::build(&a, 0)?).is_ok() != (attr == 1) {
                return Err(format!("response attributes {attr:#x} {}", if attr == 1 { "refused" } else { "accepted" }));
            }
        }
    }
    Ok(())
}

/// The areas hand out exactly the sessions given, in order.
fn areas(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    c.describe(|| "authorization areas".into());
    c.label("areas");
    let v: Vec<Val> = (0..3).map(|_| gen(s, &TpmsAuthCommand::sch(), 0)).collect();
    let mk = |i: usize| Sess::Own { auth: v[i].clone(), expect: Val::U(0), code: 1 };
    let is = |x: &Sess, i: usize| x.get_auth_command().view().as_ref() == Ok(&v[i]);
    let (one, two, three) = (mk(0), (mk(0), mk(1)), (mk(0), mk(1), mk(2)));
    let bad = |w: &str| Err(format!("{w}: not the sessions given"));
    c.nontrivial_key(hash64(&encode(&TpmsAuthCommand::sch(), &v[0])));
    let e: &dyn AuthorizationArea<NoSession, NoSession, NoSession> = &();
    if !e.is_empty() || e.decompose_ref() != (None, None, None) {
        return bad("empty area");
    }
    match AuthorizationArea::decompose_ref(&one) {
        (Some(a), None, None) if is(a, 0) && !AuthorizationArea::is_empty(&one) => (),
        _ => return bad("one session"),
    }
    match AuthorizationArea1Plus::decompose_ref(&one) {
        (a, None, None) if is(a, 0) => (),
        _ => return bad("one session (1+)"),
    }
    match AuthorizationArea::decompose_ref(&two) {
        (Some(a), Some(b), None) if is(a, 0) && is(b, 1) && !AuthorizationArea::is_empty(&two) => (),
        _ => return bad("two sessions"),
    }
    match AuthorizationArea1Plus::decompose_ref(&two) {
        (a, Some(b), None) if is(a, 0) && is(b, 1) => (),
        _ => return bad("two sessions (1+)"),
    }
    match AuthorizationArea2Plus::decompose_ref(&two) {
        (a, b, None) if is(a, 0) && is(b, 1) => (),
        _ => return bad("two sessions (2+)"),
    }
    match AuthorizationArea::decompose_ref(&three) {
        (Some(x), Some(y), Some(z)) if is(x, 0) && is(y, 1) && is(z, 2) && !AuthorizationArea::is_empty(&three) => (),
        _ => return bad("three sessions"),
    }
    match AuthorizationArea1Plus::decompose_ref(&three) {
        (x, Some(y), Some(z)) if is(x, 0) && is(y, 1) && is(z, 2) => (),
        _ => return bad("three sessions (1+)"),
    }
    match AuthorizationArea2Plus::decompose_ref(&three) {
        (x, y, Some(z)) if is(x, 0) && is(y, 1) && is(z, 2) => (),
        _ => return bad("three sessions (2+)"),
    }
    Ok(())
}

/// Reading the response authorizations alone.
fn read(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let n = s.idx(4);
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(Sess::mk(s)?);
    }
    let sch = TpmsAuthResponse::sch();
    let mut b = Vec::new();
    let mut first: Option<u32> = None;
    let mut wrong = false;
    for x in &v {
        let a = if s.chance(1, 4) { gen(s, &sch, 0) } else { x.good() };
        if a != x.good() && !wrong {
            wrong = true;
            if let Sess::Own { code, .. } = x {
                first = Some(*code);
            }
        }
        b.extend(encode(&sch, &a));
    }
    let whole = b.len();
    let cut = s.chance(1, 4) && whole > 0;
    if cut {
        b.truncate(s.idx(whole));
    } else {
        let k = s.len(9);
        b.extend(s.blob(k));
    }
    c.describe(|| format!("response authorizations of {n} sessions from {}", hex(&b)));
    c.label("response authorizations alone");
    c.nontrivial_key(hash64(&b));
    let mut u = UnmarshalBuf::new(&b);
    let mut it = v.into_iter();
    let mut nx = || it.next().unwrap();
    let r = match n {
        0 => read_response_sessions(&(), &mut u),
        1 => read_response_sessions(&nx(), &mut u),
        2 => read_response_sessions(&(nx(), nx()), &mut u),
        _ => read_response_sessions(&(nx(), nx(), nx()), &mut u),
    };
    match r {
        Ok(()) if cut || wrong => Err("accepted".into()),
        Ok(()) if b.len() - u.len() != whole => Err(format!("{} bytes consumed instead of {whole}", b.len() - u.len())),
        Ok(()) => Ok(()),
        Err(_) if cut => Ok(()),
        Err(e) if wrong && first.is_none_or(|c| c == e.get()) => Ok(()),
        Err(e) => Err(format!("refused with {:#x} instead of {first:x?}", e.get())),
    }
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    match s.below(8) {
        0 => return password(s, c),
        1 => return areas(s, c),
        2 => return read(s, c),
        _ => (),
    }
    let x = call(s, Replies::Auth)?;
    c.describe(|| x.desc.clone());
    if x.sent.is_empty() {
        return Ok(());
    }
    if x.sent[0] != x.frame {
        return Err(format!("sent {} instead of {}", hex(&x.sent[0]), hex(&x.frame)));
    }
    if let Ok(r) = &x.reply {
        c.nontrivial_key(hash64(r));
    }
    c.label(match (x.want.is_ok(), x.nsess) {
        (true, 1) => "accepted by one session",
        (true, 2) => "accepted by two sessions",
        (true, _) => "accepted by three sessions",
        _ => "refused or malformed",
    });
    judge(&x.want, &x.got)
}

pub fn prop() -> Prop {
    Prop {
        quick: 1_600_000,
        thorough: 40_000_000,
        quick_cov: 600_000,
        thorough_cov: 8_000_000,
        assumptions: &["the error with which a password session refuses is left open, as is the error when a refusal and malformed data coincide"],
        ..Prop::new("C10", case, "distinct by secret, reply or authorization bytes")
    }
}
