//! C19: this repository's client talking to this repository's server.
use crate::stub::{Fail, Sess};
use crate::types::Model;
use crate::world::*;
use tpm2_client::connection::Connection;
use tpm2_client::{get_capability, run_command, run_command_with_handles};
use tpm2_impl::TpmContext;
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::TpmCc;
use tpm2_rs_base::{Tpm2bSimple, TpmlPcrSelection};
use tpm2_rs_marshalable::{Error as MErr, Marshalable, UnmarshalBuf};
use vh_engine::{hash64, hex, Ctx, Prop, Src};
use vh_model::{gen, Val};

type Server = TpmContext<Plain<32, 16>>;

/// The server as a transport.
struct Link<'a> {
    tpm: &'a mut Server,
    in_place: bool,
    /// Response bytes the link has room for.
    room: usize,
    sent: Vec<Vec<u8>>,
    answers: Vec<Vec<u8>>,
}
impl Connection for Link<'_> {
    type Error = Fail;
    fn transact<'a>(&mut self, cmd: &[u8], rsp: &'a mut [u8]) -> Result<&'a mut [u8], Fail> {
        self.sent.push(cmd.to_vec());
        let n = rsp.len().min(self.room);
        let n = if self.in_place {
            if cmd.len() > n {
                return Err(Fail::Transport(1));
            }
            rsp[..cmd.len()].copy_from_slice(cmd);
            self.tpm.execute_command_in_place(&mut rsp[..n], cmd.len())
        } else {
            self.tpm.execute_command_separate(cmd, &mut rsp[..n])
        };
        self.answers.push(rsp[..n].to_vec());
        Ok(&mut rsp[..n])
    }
}

/// A command of a code chosen at run time is not possible, so a few of the harness's own.
struct Any<const C: u32>(Vec<u8>);
impl<const C: u32> Marshalable for Any<C> {
    fn try_marshal(&self, b: &mut [u8]) -> Result<usize, MErr> {
        b.get_mut(..self.0.len()).ok_or(MErr::UnexpectedEndOfBuffer)?.copy_from_slice(&self.0);
        Ok(self.0.len())
    }
    fn try_unmarshal(_: &mut UnmarshalBuf) -> Result<Self, MErr> {
        Err(MErr::UnexpectedEndOfBuffer)
    }
}
impl<const C: u32> TpmCommand for Any<C> {
    const CMD_CODE: TpmCc = TpmCc(C);
    type Handles = ();
    type RespT = ();
    type RespHandles = ();
}

const FINDING: &str = "TPM2_GetRandom success response carries the raw random bytes without the TPM2B_DIGEST size prefix, so the client misparses it";

/// What the client makes of a GetRandom response with this body (as C09 specifies): the bytes, or
/// an error.
fn parse(body: &[u8]) -> Option<Vec<u8>> {
    if body.len() < 2 {
        return None;
    }
    let n = (body[0] as usize) << 8 | body[1] as usize;
    (n <= 64 && body.len() == n + 2).then(|| body[2..].to_vec())
}

/// Tens of thousands of calls to one server.
fn long(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let steps = s.below(150_000);
    let mut g = vh_engine::Rng::new(s.below(1 << 16));
    let script = Script { interval: g.upto(300), strict: true, counted: true, ..Default::default() };
    c.describe(|| format!("{steps} calls of the client to one server, reseed interval {}", script.interval));
    c.label("long history");
    c.more_evaluations(steps);
    c.nontrivial();
    let mut w = World::new(g.next(), script);
    enter(&mut w);
    let t = Server::new();
    leave(&mut w);
    let Ok(mut t) = t else { return Err("the server was not created".into()) };
    for i in 0..steps {
        let n = g.upto(64) as usize;
        let other = g.upto(9) == 0;
        w.log.clear();
        w.stream.clear();
        enter(&mut w);
        let mut l = Link { tpm: &mut t, in_place: g.upto(1) == 0, room: 4096, sent: vec![], answers: vec![] };
        let r = vh_engine::catch(|| {
            if other {
                run_command(&Any::<0x17C>(vec![0; n]), &mut l).map(|_| None)
            } else {
                run_command(&GetRandomCmd { bytes_requested: n as _ }, &mut l).map(|r| Some(r.random_bytes.get_buffer().to_vec()))
            }
        });
        let answers = std::mem::take(&mut l.answers);
        leave(&mut w);
        let r = r.map_err(|e| format!("call {i}: {e}"))?;
        let bad = |what: String| Err(format!("call {i} of {steps} ({}): {what}", if other { "unknown command".into() } else { format!("{n} random bytes") }));
        let [a] = &answers[..] else { return bad(format!("{} exchanges", answers.len())) };
        if a.len() < 10 {
            return bad("no response header".into());
        }
        let (rc, body) = (be32(&a[6..10]), &a[10..]);
        if other {
            match r {
                Err(Fail::Code(0x143)) if rc == 0x143 => continue,
                r => return bad(format!("response code {rc:#x}, the caller got {r:x?}")),
            }
        }
        let made: Vec<u8> = w.log.iter().flat_map(|e| match e { Ev::Output { bytes, ok: true, .. } => bytes.clone(), _ => vec![] }).collect();
        if rc != 0 || made.len() != n {
            return bad(format!("response code {rc:#x}, {} bytes generated", made.len()));
        }
        if matches!(&r, Ok(Some(x)) if *x == made) {
            continue;
        }
        let consequence = match (&r, parse(body)) {
            (Ok(Some(x)), Some(y)) => *x == y,
            (Err(Fail::Code(_)), None) => true,
            _ => false,
        };
        if !(body == made && consequence && c.known("C19", FINDING)) {
            return bad(format!("{} reached the caller as {r:x?}", hex(&made)));
        }
    }
    Ok(())
}

fn seeds(thorough: bool) -> Vec<Vec<u64>> {
    let n = if thorough { 140_000 } else { 70_000 };
    vec![vec![1, n, 1], vec![1, n, 2]]
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    if s.directed(2) == 1 {
        return long(s, c);
    }
    let steps = 1 + s.idx(6);
    let script = Script {
        fail: (0..s.idx(3)).map(|_| 1 + s.below(10)).collect(),
        interval: s.below(4),
        strict: true,
        // Looks like a sized buffer by chance, so that the client's success path is reached.
        counted: s.chance(1, 2),
        ..Default::default()
    };
    let mut w = World::new(s.below(1 << 20), script);
    enter(&mut w);
    let t = Server::new();
    leave(&mut w);
    let Ok(mut t) = t else { return Err("the server was not created".into()) };
    let mut log = String::new();
    let mut key = 0u64;
    for _ in 0..steps {
        let kind = s.below(10);
        let room = if s.chance(1, 8) { 10 + s.len(90) } else { 4096 };
        let in_place = s.chance(1, 2);
        w.log.clear();
        enter(&mut w);
        let mut l = Link { tpm: &mut t, in_place, room, sent: vec![], answers: vec![] };
        // One call; its random bytes, if it is a random request.
        let mut wanted = None;
        let mut open = false;
        let r: Result<Result<Option<Vec<u8>>, Fail>, String> = vh_engine::catch(|| match kind {
            0 => {
                let v = gen(s, &GetCapabilityCmd::sch(), 0);
                let q = GetCapabilityCmd::build(&v, 0).unwrap();
                if s.chance(1, 2) {
                    get_capability(&mut l, &q).map(|_| None)
                } else {
                    run_command(&q, &mut l).map(|_| None)
                }
            }
            1 => {
                let v = Val::S(vec![gen(s, &TpmlPcrSelection::sch(), 0)]);
                run_command(&PcrReadCmd::build(&v, 0).unwrap(), &mut l).map(|_| None)
            }
            2 => {
                let v = gen(s, &StartupCmd::sch(), 0);
                run_command(&StartupCmd::build(&v, 0).unwrap(), &mut l).map(|_| None)
            }
            3 => {
                let n = s.len(60);
                let b = s.blob(n);
                let sess = Sess::mk(s).unwrap();
                match s.below(4) {
                    0 => run_command(&Any::<0x17C>(b), &mut l).map(|_| None),
                    1 => run_command(&Any::<0x2000_017B>(b), &mut l).map(|_| None),
                    2 => run_command(&Any::<0>(b), &mut l).map(|_| None),
                    _ => run_command_with_handles(&Any::<0x146>(b), (), sess, &mut l).map(|_| None),
                }
            }
            4 if s.chance(1, 2) => {
                // With a session, which the server does not implement.
                open = true;
                let sess = Sess::mk(s).unwrap();
                let q = GetRandomCmd { bytes_requested: s.below(70) as _ };
                run_command_with_handles(&q, (), sess, &mut l).map(|(r, _)| Some(r.random_bytes.get_buffer().to_vec()))
            }
            _ => {
                let n = match s.below(12) {
                    0 => s.u16(),
                    1 => 60 + s.below(10) as u16,
                    2 => 4080 + s.below(20) as u16,
                    _ => s.below(65) as u16,
                };
                wanted = Some(n as usize);
                run_command(&GetRandomCmd { bytes_requested: n as _ }, &mut l).map(|r| Some(r.random_bytes.get_buffer().to_vec()))
            }
        });
        let (sent, answers) = (std::mem::take(&mut l.sent), std::mem::take(&mut l.answers));
        leave(&mut w);
        let r = r?;
        let made: Vec<u8> = w.log.iter().flat_map(|e| match e { Ev::Output { bytes, ok: true, .. } => bytes.clone(), _ => vec![] }).collect();
        let failed = w.log.iter().any(|e| matches!(e, Ev::Output { ok: false, .. } | Ev::Reseed { ok: false, .. }));
        let step = format!("{} -> {}", sent.iter().map(|x| hex(x)).collect::<Vec<_>>().join(" "), answers.iter().map(|x| hex(x)).collect::<Vec<_>>().join(" "));
        c.describe(|| step.clone());
        log += &step;
        log += "; ";
        key = key.rotate_left(7) ^ hash64(log.as_bytes());
        let bad = |what: String| Err(format!("{what} [{}]", &log[..log.len().min(3000)]));
        if answers.is_empty() {
            // Nothing got through (in place, with too little room); the error is the link's own.
            match r {
                Err(Fail::Transport(1)) => continue,
                r => return bad(format!("without a transport the call returned {r:x?}")),
            }
        }
        let a = &answers[0];
        let rc = if a.len() >= 10 { be32(&a[6..10]) } else { return bad("no response header".into()) };
        if sent.len() != 1 {
            return bad(format!("{} requests sent for one call", sent.len()));
        }
        if open {
            c.label("random bytes with a session (left open)");
            match r {
                Err(Fail::Code(x)) if rc != 0 && x != rc => return bad(format!("response code {rc:#x} reached the caller as {x:#x}")),
                Ok(_) if rc != 0 => return bad(format!("response code {rc:#x} reached the caller as a success")),
                _ => continue,
            }
        }
        let Some(n) = wanted else {
            c.label("another command");
            match r {
                Err(Fail::Code(0x143)) if rc == 0x143 => continue,
                r => return bad(format!("a command the server does not know: response code {rc:#x}, the caller got {r:x?}")),
            }
        };
        // What the server must do with it.
        if failed {
            c.label("generator failure");
            match r {
                Err(Fail::Code(0x101)) if rc == 0x101 => continue,
                r => return bad(format!("after a generator failure: response code {rc:#x}, the caller got {r:x?}")),
            }
        }
        let body = &a[10..];
        if rc != 0 {
            // Only for want of room (with or without the two bytes of a size prefix).
            c.label("no room for the answer");
            if rc != 0x904 || 12 + n <= room {
                return bad(format!("{n} random bytes into {room}: response code {rc:#x}"));
            }
            match r {
                Err(Fail::Code(0x904)) => continue,
                r => return bad(format!("response code 0x904 reached the caller as {r:x?}")),
            }
        }
        if made.len() != n {
            return bad(format!("{} bytes generated for a request of {n}", made.len()));
        }
        let mut prefixed = (n as u16).to_be_bytes().to_vec();
        prefixed.extend(&made);
        let right = n <= 64 && matches!(&r, Ok(Some(x)) if *x == made) && body == prefixed;
        if right {
            c.label("random bytes, as specified");
            continue;
        }
        if n > 64 && (body == prefixed || body == made) {
            c.label("more than a digest's worth");
            match (&r, parse(body)) {
                (Ok(Some(x)), Some(y)) if *x == y => continue,
                (Err(_), None) => continue,
                _ => return bad(format!("{} body bytes reached the caller as {r:x?}", body.len())),
            }
        }
        // Exactly the known finding, with exactly its consequence?
        let consequence = match (&r, parse(body)) {
            (Ok(Some(x)), Some(y)) => *x == y,
            (Err(Fail::Code(_)), None) => true,
            _ => false,
        };
        if body == made && consequence && c.known("C19", FINDING) {
            c.label("random bytes without size prefix");
            continue;
        }
        return bad(format!("{n} random bytes {} reached the caller as {r:x?}", hex(&made)));
    }
    c.nontrivial_key(key);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        seeds: Some(seeds),
        quick: 900_000,
        thorough: 10_000_000,
        quick_cov: 240_000,
        thorough_cov: 2_000_000,
        assumptions: &[
            "the server's generator and entropy source are the harness's own",
            "a random request with sessions and one for more than 64 bytes are left open, but must not turn a response code into a success",
        ],
        ..Prop::new("C19", case, "history of client calls, distinct by the bytes exchanged")
    }
}
