//! A stub transport, commands and sessions of the harness's own, and a reference for what a call
//! must send and return.
use crate::types::Model;
use std::fmt;
use tpm2_client::connection::Connection;
use tpm2_client::sessions::{PasswordSession, Session};
use tpm2_client::{get_capability, run_command, run_command_with_handles};
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::TpmCc;
use tpm2_rs_base::errors::{TssError, TssResult};
use tpm2_rs_base::*;
use tpm2_rs_marshalable::{Error as MErr, Marshalable, UnmarshalBuf};
use vh_engine::{hex, Src};
use vh_model::{damage, dec, enc, encode, gen, Sch, Val};

pub const BUF: usize = 4096;

/// What a call can fail with.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fail {
    Code(u32),
    Transport(u32),
}
impl fmt::Display for Fail {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Fail {}
impl From<TssError> for Fail {
    fn from(e: TssError) -> Fail {
        Fail::Code(e.get())
    }
}

/// Delivers `reply`, or fails; records what it was sent.  The rest of the response buffer holds
/// `stale`.  The slice it returns lies anywhere in that buffer.
pub struct Stub {
    pub reply: Result<Vec<u8>, u32>,
    pub stale: Vec<u8>,
    pub sent: Vec<Vec<u8>>,
    pub room: usize,
    pub at: usize,
}
impl Connection for Stub {
    type Error = Fail;
    fn transact<'a>(&mut self, cmd: &[u8], rsp: &'a mut [u8]) -> Result<&'a mut [u8], Fail> {
        self.sent.push(cmd.to_vec());
        self.room = rsp.len();
        for (i, b) in rsp.iter_mut().enumerate() {
            if !self.stale.is_empty() {
                *b = self.stale[i % self.stale.len()];
            }
        }
        match &self.reply {
            Err(e) => Err(Fail::Transport(*e)),
            Ok(r) => {
                let n = r.len().min(rsp.len());
                let at = self.at.min(rsp.len() - n);
                rsp[at..at + n].copy_from_slice(&r[..n]);
                Ok(&mut rsp[at..at + n])
            }
        }
    }
}

pub trait Handles: Marshalable + Default {
    const N: usize;
    fn mk(v: &[u32]) -> Self;
    fn get(&self) -> Vec<u32>;
}
impl Handles for () {
    const N: usize = 0;
    fn mk(_: &[u32]) {}
    fn get(&self) -> Vec<u32> {
        vec![]
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Hs<const N: usize>(pub [u32; N]);
impl<const N: usize> Default for Hs<N> {
    fn default() -> Self {
        Hs(core::array::from_fn(|i| 0x4000_0001 + i as u32))
    }
}
impl<const N: usize> Marshalable for Hs<N> {
    fn try_marshal(&self, b: &mut [u8]) -> Result<usize, MErr> {
        if b.len() < 4 * N {
            return Err(MErr::UnexpectedEndOfBuffer);
        }
        for (i, h) in self.0.iter().enumerate() {
            b[4 * i..4 * i + 4].copy_from_slice(&h.to_be_bytes());
        }
        Ok(4 * N)
    }
    fn try_unmarshal(b: &mut UnmarshalBuf) -> Result<Self, MErr> {
        let x = b.get(4 * N).ok_or(MErr::UnexpectedEndOfBuffer)?;
        Ok(Hs(core::array::from_fn(|i| u32::from_be_bytes([x[4 * i], x[4 * i + 1], x[4 * i + 2], x[4 * i + 3]]))))
    }
}
impl<const N: usize> Handles for Hs<N> {
    const N: usize = N;
    fn mk(v: &[u32]) -> Self {
        Hs(v.try_into().unwrap())
    }
    fn get(&self) -> Vec<u32> {
        self.0.to_vec()
    }
}

/// A command with any parameter bytes, or one that cannot be marshaled for this reason.
pub struct Raw<const C: u32, const H: usize, const RH: usize, P>(Vec<u8>, Option<MErr>, std::marker::PhantomData<P>);
impl<const C: u32, const H: usize, const RH: usize, P> Marshalable for Raw<C, H, RH, P> {
    fn try_marshal(&self, b: &mut [u8]) -> Result<usize, MErr> {
        let n = self.0.len();
        b.get_mut(..n).ok_or(MErr::UnexpectedEndOfBuffer)?.copy_from_slice(&self.0);
        match self.1 {
            Some(e) => Err(e),
            None => Ok(n),
        }
    }
    fn try_unmarshal(_: &mut UnmarshalBuf) -> Result<Self, MErr> {
        Err(MErr::UnexpectedEndOfBuffer)
    }
}
impl<const C: u32, const H: usize, const RH: usize, P: Model> TpmCommand for Raw<C, H, RH, P> {
    const CMD_CODE: TpmCc = TpmCc(C);
    type Handles = Hs<H>;
    type RespT = P;
    type RespHandles = Hs<RH>;
}

/// Response parameters that can fill the response buffer.
#[derive(Clone, PartialEq, Debug)]
pub struct Bulk(pub Vec<u8>);
const BULK: usize = 5000;
impl Marshalable for Bulk {
    fn try_marshal(&self, b: &mut [u8]) -> Result<usize, MErr> {
        let n = self.0.len();
        b.get_mut(2..2 + n).ok_or(MErr::UnexpectedEndOfBuffer)?.copy_from_slice(&self.0);
        b[..2].copy_from_slice(&(n as u16).to_be_bytes());
        Ok(2 + n)
    }
    fn try_unmarshal(b: &mut UnmarshalBuf) -> Result<Self, MErr> {
        let n = u16::try_unmarshal(b)? as usize;
        if n > BULK {
            return Err(MErr::UnexpectedEndOfBuffer);
        }
        Ok(Bulk(b.get(n).ok_or(MErr::UnexpectedEndOfBuffer)?.to_vec()))
    }
}
impl Model for Bulk {
    fn sch() -> Sch {
        Sch::B2(BULK)
    }
    fn build(v: &Val, _: u8) -> Result<Self, String> {
        match v {
            Val::B(b) => Ok(Bulk(b.clone())),
            _ => Err("schema mismatch".into()),
        }
    }
    fn view(&self) -> Result<Val, String> {
        Ok(Val::B(self.0.clone()))
    }
}

pub trait Kind: TpmCommand<Handles: Handles, RespT: Model, RespHandles: Handles> + Sized {
    const CODE: u32;
    /// A command and its encoding; `room` bytes are left in the command buffer.
    fn mk(s: &mut Src, room: usize) -> Result<(Self, Vec<u8>), String>;
    /// The call without sessions and with default handles.
    fn plain(&self, t: &mut Stub, _: bool) -> Result<Self::RespT, Fail> {
        run_command(self, t)
    }
}
impl<const C: u32, const H: usize, const RH: usize, P: Model> Kind for Raw<C, H, RH, P> {
    const CODE: u32 = C;
    fn mk(s: &mut Src, room: usize) -> Result<(Self, Vec<u8>), String> {
        let n = match s.below(8) {
            0 => (room + s.idx(5)).saturating_sub(2),
            1 => s.len(room),
            2 => room + s.len(5000),
            _ => s.len(80),
        };
        let b = s.blob(n);
        if s.chance(1, 40) {
            // Nothing fits, as far as the reference is concerned.
            let e = *s.pick(&[MErr::ArrayLengthExceeded, MErr::UnknownSelector, MErr::UnexpectedEndOfBuffer]);
            return Ok((Raw(b, Some(e), std::marker::PhantomData), vec![0; BUF]));
        }
        Ok((Raw(b.clone(), None, std::marker::PhantomData), b))
    }
}
macro_rules! real {
    ($($t:ident: $c:expr;)*) => {$(
        impl Kind for $t {
            const CODE: u32 = $c;
            fn mk(s: &mut Src, _: usize) -> Result<(Self, Vec<u8>), String> {
                let v = gen(s, &$t::sch(), 0);
                Ok(($t::build(&v, 0)?, encode(&$t::sch(), &v)))
            }
        }
    )*};
}
real! { GetRandomCmd: 0x17B; PcrReadCmd: 0x17E; StartupCmd: 0x144; }
impl Kind for GetCapabilityCmd {
    const CODE: u32 = 0x17A;
    fn mk(s: &mut Src, _: usize) -> Result<(Self, Vec<u8>), String> {
        let v = gen(s, &Self::sch(), 0);
        Ok((Self::build(&v, 0)?, encode(&Self::sch(), &v)))
    }
    fn plain(&self, t: &mut Stub, other: bool) -> Result<Self::RespT, Fail> {
        if other {
            get_capability(t, self)
        } else {
            run_command(self, t)
        }
    }
}

// ---------------------------------------------------------------- sessions

pub enum Sess {
    Pw(PasswordSession, Vec<u8>),
    /// Sends `auth`, accepts exactly the response `expect`, otherwise refuses with `code`.
    Own { auth: Val, expect: Val, code: u32 },
}
impl Session for Sess {
    fn get_auth_command(&self) -> TpmsAuthCommand {
        match self {
            Sess::Pw(p, _) => p.get_auth_command(),
            Sess::Own { auth, .. } => TpmsAuthCommand::build(auth, 0).unwrap(),
        }
    }
    fn validate_auth_response(&self, a: &TpmsAuthResponse) -> TssResult<()> {
        match self {
            Sess::Pw(p, _) => p.validate_auth_response(a),
            Sess::Own { expect, code, .. } => {
                if a.view().as_ref() == Ok(expect) {
                    Ok(())
                } else {
                    Err(TssError::try_from(*code).unwrap())
                }
            }
        }
    }
}
impl Sess {
    pub fn mk(s: &mut Src) -> Result<Sess, String> {
        if s.chance(1, 3) {
            let n = s.len(64);
            let b = s.blob(n);
            let p = PasswordSession::new(&b[..]).map_err(|e| format!("password of {n} bytes refused: {e:?}"))?;
            return Ok(Sess::Pw(p, b));
        }
        Ok(Sess::Own {
            auth: gen(s, &TpmsAuthCommand::sch(), 0),
            expect: gen(s, &TpmsAuthResponse::sch(), 0),
            code: 1 + s.int(u32::MAX as u64 - 1) as u32,
        })
    }
    /// The authorization it sends.
    pub fn command(&self) -> Vec<u8> {
        match self {
            Sess::Pw(_, secret) => {
                let mut v = vec![0x40, 0, 0, 9, 0, 0, 0];
                v.extend((secret.len() as u16).to_be_bytes());
                v.extend(secret);
                v
            }
            Sess::Own { auth, .. } => encode(&TpmsAuthCommand::sch(), auth),
        }
    }
    /// The response it accepts.
    pub fn good(&self) -> Val {
        match self {
            Sess::Pw(..) => Val::S(vec![Val::B(vec![]), Val::U(1), Val::B(vec![])]),
            Sess::Own { expect, .. } => expect.clone(),
        }
    }
    /// The refusal's code, if the specification names one.
    fn code(&self) -> Option<u32> {
        match self {
            Sess::Pw(..) => None,
            Sess::Own { code, .. } => Some(*code),
        }
    }
}

// ---------------------------------------------------------------- reference

pub fn frame(code: u32, handles: &[u32], sess: &[Sess], params: &[u8]) -> Vec<u8> {
    let mut f: Vec<u8> = if sess.is_empty() { vec![0x80, 1] } else { vec![0x80, 2] };
    f.extend([0; 4]);
    f.extend(code.to_be_bytes());
    for h in handles {
        f.extend(h.to_be_bytes());
    }
    f.extend(auth_area(sess));
    f.extend(params);
    let n = f.len() as u32;
    f[2..6].copy_from_slice(&n.to_be_bytes());
    f
}
pub fn auth_area(sess: &[Sess]) -> Vec<u8> {
    if sess.is_empty() {
        return vec![];
    }
    let a: Vec<u8> = sess.iter().flat_map(|x| x.command()).collect();
    let mut f = (a.len() as u32).to_be_bytes().to_vec();
    f.extend(a);
    f
}

/// What a call may return.
#[derive(Debug)]
pub struct Want {
    /// Exactly this, if set.
    ok: Option<(Val, Vec<u32>)>,
    err: Errs,
}
#[derive(Debug, PartialEq)]
enum Errs {
    None,
    Any,
    Code(u32),
    Transport(u32),
}
impl Want {
    fn any() -> Want {
        Want { ok: None, err: Errs::Any }
    }
    pub fn is_ok(&self) -> bool {
        self.ok.is_some() && self.err == Errs::None
    }
}
/// The reference: what a reply means.
pub fn want(reply: &Result<Vec<u8>, u32>, rh: usize, rsch: &Sch, sess: &[Sess]) -> Want {
    let r = match reply {
        Err(e) => return Want { ok: None, err: Errs::Transport(*e) },
        Ok(r) => &r[..r.len().min(BUF)],
    };
    if r.len() < 10 {
        return Want::any();
    }
    let be = |b: &[u8]| b.iter().fold(0u32, |a, x| a << 8 | *x as u32);
    let (tag, size, rc) = (be(&r[..2]), be(&r[2..6]) as usize, be(&r[6..10]));
    if rc != 0 {
        return Want { ok: None, err: Errs::Code(rc) };
    }
    if size < 10 || size > r.len() {
        return Want::any();
    }
    // Left open: bytes after the announced size, an unexpected tag, a wrong parameter size.
    let mut open = size < r.len();
    let b = &r[..size];
    let mut p = 10;
    let mut hs = vec![];
    for _ in 0..rh {
        match dec(&Sch::U(4), b, &mut p) {
            Ok(Val::U(x)) => hs.push(x as u32),
            _ => return Want::any(),
        }
    }
    open |= (tag == 0x8002) != !sess.is_empty() || tag != 0x8002 && tag != 0x8001;
    let mut psize = None;
    if tag == 0x8002 {
        match dec(&Sch::U(4), b, &mut p) {
            Ok(Val::U(x)) => psize = Some(x as usize),
            _ => return Want::any(),
        }
    }
    let p0 = p;
    let Ok(v) = dec(rsch, b, &mut p) else { return Want::any() };
    open |= psize.is_some_and(|x| x != p - p0);
    let mut refused: Option<Option<u32>> = None;
    for s in sess {
        let Ok(a) = dec(&TpmsAuthResponse::sch(), b, &mut p) else { return Want::any() };
        if a != s.good() && refused.is_none() {
            refused = Some(s.code());
        }
    }
    if p != size {
        return Want::any();
    }
    match refused {
        Some(Some(c)) if !open => Want { ok: None, err: Errs::Code(c) },
        Some(_) => Want::any(),
        None => Want { ok: Some((v, hs)), err: if open { Errs::Any } else { Errs::None } },
    }
}
pub fn judge(w: &Want, got: &Result<(Val, Vec<u32>), Fail>) -> Result<(), String> {
    let fine = match (got, w) {
        (Ok(g), Want { ok: Some(x), .. }) => g == x,
        (Ok(_), _) => false,
        (Err(_), Want { err: Errs::Any, .. }) => true,
        (Err(Fail::Code(c)), Want { err: Errs::Code(x), .. }) => c == x,
        (Err(Fail::Transport(c)), Want { err: Errs::Transport(x), .. }) => c == x,
        _ => false,
    };
    if fine {
        Ok(())
    } else {
        Err(format!("the call returned {got:x?}, which must be {w:x?}"))
    }
}

// ---------------------------------------------------------------- one call

pub enum Replies {
    /// A good reply most of the time.
    Mild,
    Hostile,
    /// Well-formed, but authorizations may be wrong.
    Auth,
}
pub struct Call {
    pub sent: Vec<Vec<u8>>,
    pub frame: Vec<u8>,
    pub reply: Result<Vec<u8>, u32>,
    pub want: Want,
    pub got: Result<(Val, Vec<u32>), Fail>,
    pub nsess: usize,
    pub room: usize,
    pub desc: String,
}

fn reply(s: &mut Src, how: &Replies, rh: usize, rsch: &Sch, sess: &[Sess]) -> Result<Vec<u8>, u32> {
    if s.chance(1, 25) {
        return Err(s.u32());
    }
    if s.chance(1, 25) {
        let n = s.len(60);
        return Ok(s.blob(n));
    }
    let tag = match s.below(12) {
        0 => s.u16(),
        1 => 0x8001 + s.below(2) as u16,
        _ => 0x8001 + !sess.is_empty() as u16,
    };
    let rc = match s.below(8) {
        0 => s.u32(),
        1 => *s.pick(&[0x922u32, 0x908, 0x90A, 0x921, 0x100, 0x101, 0x8E, 0x9A2, 0x5000, 0x1, 0x10000, 0x80000000]),
        _ => 0,
    };
    let mut b = tag.to_be_bytes().to_vec();
    b.extend([0; 4]);
    b.extend(rc.to_be_bytes());
    let mut marks = Vec::new();
    if rc == 0 || s.chance(1, 4) {
        for _ in 0..rh {
            b.extend(s.u32().to_be_bytes());
        }
        let mut v = gen(s, rsch, 0);
        if matches!(rsch, Sch::B2(BULK)) && s.chance(2, 3) {
            // about as long as the response buffer
            let auths: usize = sess.iter().map(|x| encode(&TpmsAuthResponse::sch(), &x.good()).len()).sum();
            let rest = b.len() + 2 + if tag == 0x8002 { 4 } else { 0 } + auths;
            let n = (BUF - rest + s.idx(3)).saturating_sub(match s.below(4) { 0 => 1, 1 => s.len(300), _ => 0 });
            let x = s.u8();
            v = Val::B((0..n).map(|i| (i as u8).wrapping_mul(x | 1) ^ (i >> 8) as u8).collect());
        }
        let p = encode(rsch, &v);
        if tag == 0x8002 {
            let n = match s.below(12) {
                0 if !matches!(how, Replies::Auth) => s.u32(),
                _ => p.len() as u32,
            };
            b.extend(n.to_be_bytes());
        }
        let at = b.len();
        let mut pb = Vec::new();
        enc(rsch, &v, &mut pb, &mut marks);
        for m in &mut marks {
            m.pos += at;
        }
        b.extend(pb);
        // The authorizations: right ones, wrong ones, too few or too many.
        let mut auths: Vec<Val> = sess.iter().map(|x| x.good()).collect();
        let wrong = s.below(match how { Replies::Auth => 2, Replies::Hostile => 6, _ => 20 }) == 1;
        if wrong && !auths.is_empty() {
            for _ in 0..1 + s.idx(2) {
                let i = s.idx(auths.len());
                match s.below(8) {
                    0 => {
                        let j = s.idx(auths.len());
                        auths.swap(i, j);
                    }
                    1 => {
                        auths.remove(i);
                        if auths.is_empty() {
                            break;
                        }
                    }
                    2 => {
                        let a = auths[i].clone();
                        auths.push(a);
                    }
                    3 => auths[i] = gen(s, &TpmsAuthResponse::sch(), 0),
                    5 => {
                        auths.clear();
                        break;
                    }
                    4 => auths[i] = Val::S(vec![Val::B(vec![]), Val::U(1), Val::B(vec![])]),
                    _ => {
                        // one detail different
                        let Val::S(f) = &mut auths[i] else { panic!() };
                        match s.below(3) {
                            0 => f[0] = tweak(s, &f[0]),
                            1 => f[1] = tweak(s, &f[1]),
                            _ => f[2] = tweak(s, &f[2]),
                        }
                    }
                }
            }
        }
        for a in &auths {
            enc(&TpmsAuthResponse::sch(), a, &mut b, &mut marks);
        }
        if sess.is_empty() && s.chance(1, 12) {
            // authorizations nobody asked for
            let a = gen(s, &TpmsAuthResponse::sch(), 0);
            b.extend(encode(&TpmsAuthResponse::sch(), &a));
        }
    }
    if matches!(how, Replies::Hostile) && s.chance(1, 2) {
        for _ in 0..1 + s.below(2) {
            let ms: Vec<_> = marks.iter().copied().filter(|m| m.pos + m.w <= b.len()).collect();
            damage(s, &mut b, &ms);
        }
    }
    let n = b.len() as u32;
    let hostile = matches!(how, Replies::Hostile);
    let size = match s.below(if hostile { 9 } else { 100 }) {
        // the right size in the low bits only
        5 => match s.below(4) {
            0 => n.wrapping_add(s.u32() << 8),
            1 => n.wrapping_add(s.u32() << 16),
            2 => n | 1 << (8 + s.below(24)),
            _ => n.wrapping_neg(),
        },
        1 => n.wrapping_add(1 + s.int(40) as u32),
        2 => n.wrapping_sub(1 + s.int(40) as u32),
        3 => *s.pick(&[0, 1, 9, 10, 11, 4095, 4096, 4097, 0x10000, 0xffff_ffff, 0x8000_0000, 12]),
        4 => s.u32(),
        _ => n,
    };
    // Room for stale bytes to be taken for content.
    if hostile && s.chance(1, 10) {
        let k = s.idx(b.len() + 1);
        b.truncate(k);
    }
    if hostile && s.chance(1, 40) {
        b.resize(BUF - s.idx(2), 0x11);
    }
    for (i, x) in size.to_be_bytes().into_iter().enumerate() {
        if 2 + i < b.len() {
            b[2 + i] = x;
        }
    }
    Ok(b)
}
fn tweak(s: &mut Src, v: &Val) -> Val {
    match v {
        Val::U(x) => Val::U(x ^ 1 << s.below(8)),
        Val::B(b) => {
            let mut b = b.clone();
            match s.below(3) {
                0 if !b.is_empty() => {
                    b.pop();
                }
                1 if !b.is_empty() => {
                    let i = s.idx(b.len());
                    b[i] ^= 1 + s.below(255) as u8;
                }
                _ if b.len() < 64 => b.push(s.u8()),
                _ => {
                    b.pop();
                }
            }
            Val::B(b)
        }
        v => v.clone(),
    }
}

fn one<K: Kind>(s: &mut Src, how: &Replies) -> Result<Call, String> {
    let n = match how {
        Replies::Auth => 1 + s.idx(3),
        _ => s.idx(4),
    };
    let mut sess = Vec::new();
    for _ in 0..n {
        sess.push(Sess::mk(s)?);
    }
    let plain = n == 0 && s.chance(1, 3);
    let other = s.chance(1, 2);
    let handles: Vec<u32> = if plain { K::Handles::default().get() } else { (0..K::Handles::N).map(|_| s.u32()).collect() };
    let room = BUF.saturating_sub(frame(K::CODE, &handles, &sess, &[]).len());
    let (cmd, params) = K::mk(s, room)?;
    let rsch = K::RespT::sch();
    let reply = reply(s, how, K::RespHandles::N, &rsch, &sess);
    let frame = frame(K::CODE, &handles, &sess, &params);
    let w = want(&reply, K::RespHandles::N, &rsch, &sess);
    let stale = match s.below(3) {
        0 => vec![],
        1 => vec![0],
        _ => {
            let k = 1 + s.len(30);
            s.blob(k)
        }
    };
    let mut at = 0;
    if s.chance(1, 8) {
        at = *s.pick(&[1, 4, 9, 12, BUF]);
    }
    let mut t = Stub { reply: reply.clone(), stale, sent: vec![], room: 0, at };
    let short = |b: &[u8]| if b.len() > 200 { format!("{}.. ({} bytes)", hex(&b[..200]), b.len()) } else { hex(b) };
    let desc = format!(
        "command {:#x} with handles {handles:x?}, {n} sessions, {} parameter bytes; reply {}{}",
        K::CODE,
        params.len(),
        match &reply {
            Ok(r) => short(r),
            Err(e) => format!("transport error {e:#x}"),
        },
        if at > 0 { format!(", returned from {at} bytes into the buffer") } else { String::new() }
    );
    let got = {
        let h = K::Handles::mk(&handles);
        let mut it = sess.into_iter();
        let mut nx = || it.next().unwrap();
        match n {
            0 if plain => cmd.plain(&mut t, other).map(|r| (r, None)),
            0 => run_command_with_handles(&cmd, h, (), &mut t).map(|(r, h)| (r, Some(h))),
            1 => run_command_with_handles(&cmd, h, nx(), &mut t).map(|(r, h)| (r, Some(h))),
            2 => run_command_with_handles(&cmd, h, (nx(), nx()), &mut t).map(|(r, h)| (r, Some(h))),
            _ => run_command_with_handles(&cmd, h, (nx(), nx(), nx()), &mut t).map(|(r, h)| (r, Some(h))),
        }
    };
    let mut w = w;
    let got = match got {
        Ok((r, h)) => {
            if h.is_none() {
                if let Some(x) = &mut w.ok {
                    x.1.clear();
                }
            }
            Ok((r.view()?, h.map(|h| h.get()).unwrap_or_default()))
        }
        Err(e) => Err(e),
    };
    Ok(Call { sent: t.sent, frame, reply, want: w, got, nsess: n, room: t.room, desc })
}
pub fn call(s: &mut Src, how: Replies) -> Result<Call, String> {
    let how = &how;
    match s.below(13) {
        12 => one::<Raw<0x14F, 0, 1, Bulk>>(s, how),
        0 => one::<Raw<0x131, 1, 0, u32>>(s, how),
        1 => one::<Raw<0x157, 1, 1, Tpm2bName>>(s, how),
        2 => one::<Raw<0x137, 2, 0, ()>>(s, how),
        3 => one::<Raw<0x176, 2, 1, Tpm2bDigest>>(s, how),
        4 => one::<Raw<0x14E, 3, 3, TpmlDigest>>(s, how),
        5 => one::<Raw<0xFFFF_FFFF, 1, 2, u8>>(s, how),
        6 => one::<GetRandomCmd>(s, how),
        7 => one::<GetCapabilityCmd>(s, how),
        8 => one::<PcrReadCmd>(s, how),
        9 => one::<StartupCmd>(s, how),
        10 => one::<Raw<0, 0, 0, TpmsAttest>>(s, how),
        _ => one::<Raw<0x2000_0001, 0, 0, ()>>(s, how),
    }
}
