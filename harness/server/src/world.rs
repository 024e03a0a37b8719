//! A scripted random generator and entropy source that record everything they are asked.
use std::cell::RefCell;
use tpm2_impl::platform::crypto::{Drbg, DrbgError, EntropySource};
use tpm2_impl::platform::TpmContextDeps;
use vh_engine::Rng;

/// What the generator was asked and answered, per context.
#[derive(Clone, Debug)]
pub enum Ev {
    Entropy { at: usize, len: usize },
    Instantiate { entropy: Vec<u8>, nonce: Vec<u8>, ok: bool },
    Requires(bool),
    Reseed { entropy: Vec<u8>, ok: bool },
    /// Output (empty when refused), and whether reseeding was required at that moment.
    Output { bytes: Vec<u8>, ok: bool, needed: bool },
}

/// How a generator behaves.
#[derive(Clone, Debug, Default)]
pub struct Script {
    /// Fails at these generator calls (instantiate, reseed and output calls counted together).
    pub fail: Vec<u64>,
    /// Reseeding is required after that many outputs since the last reseed (0: never).
    pub interval: u64,
    /// Reseeding is required from the start.
    pub initially: bool,
    /// Refuses to produce output while reseeding is required (as a real one would).
    pub strict: bool,
    /// Writes into the destination even when it fails.
    pub dirty: bool,
    /// Reports a need for reseeding at these polls although the interval has not passed.
    pub spurious: Vec<u64>,
    /// Output begins with a 16-bit count of the bytes that follow.
    pub counted: bool,
    /// 0: random output; 1: zeros; 2: ones; 3: the same bytes each time; 4: sometimes one of these.
    pub pattern: u8,
    /// The entropy source yields this byte only.
    pub flat: Option<u8>,
}

pub struct World {
    pub log: Vec<Ev>,
    pub script: Script,
    pub stream: Vec<u8>,
    pub seed: u64,
    pub calls: u64,
    pub polls: u64,
    since: u64,
    need: bool,
    outs: u64,
}
impl World {
    pub fn new(seed: u64, script: Script) -> World {
        World {
            log: Vec::new(),
            need: script.initially,
            script,
            stream: Vec::new(),
            seed,
            calls: 0,
            polls: 0,
            since: 0,
            outs: 0,
        }
    }
    fn fails(&mut self) -> bool {
        let n = self.calls;
        self.calls += 1;
        self.script.fail.contains(&n)
    }
}
thread_local! {
    static CUR: RefCell<World> = RefCell::new(World::new(0, Script::default()));
}
/// Makes `w` the world the generator and entropy source of the running context see.
pub fn enter(w: &mut World) {
    CUR.with(|c| std::mem::swap(&mut *c.borrow_mut(), w))
}
pub fn leave(w: &mut World) {
    enter(w)
}
fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
    let n = CUR.with(|c| c.borrow().log.len());
    // far more than the longest history needs
    assert!(n < 2_000_000, "the generator or the entropy source is asked without end");
    CUR.with(|c| f(&mut c.borrow_mut()))
}

pub struct Gen<const E: usize, const N: usize>;
pub struct Arr<const N: usize>(pub [u8; N]);
impl<const N: usize> Default for Arr<N> {
    fn default() -> Self {
        Arr([0; N])
    }
}
impl<const N: usize> AsMut<[u8]> for Arr<N> {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
fn output(dest: &mut [u8]) -> Result<(), DrbgError> {
    with(|w| {
        let bad = w.fails();
        let needed = w.need;
        let kind = match w.script.pattern {
            4 => (w.seed >> (w.outs % 13)) & 3,
            k => k as u64,
        };
        let nth = if kind == 3 { 0 } else { w.outs };
        let mut r = Rng::new(w.seed ^ nth.wrapping_mul(0xD1B5_4A32_D192_ED03) ^ 0x55);
        w.outs += 1;
        let mut bytes: Vec<u8> = match kind {
            1 => vec![0; dest.len()],
            2 => vec![0xff; dest.len()],
            _ => (0..dest.len()).map(|_| r.next() as u8).collect(),
        };
        if w.script.counted && bytes.len() >= 2 {
            let n = bytes.len() as u16 - 2;
            bytes[..2].copy_from_slice(&n.to_be_bytes());
        }
        if bad || (needed && w.script.strict) {
            if w.script.dirty {
                let n = dest.len() / 2;
                dest[..n].copy_from_slice(&bytes[..n]);
            }
            w.log.push(Ev::Output { bytes: vec![], ok: false, needed });
            return Err(DrbgError);
        }
        dest.copy_from_slice(&bytes);
        w.log.push(Ev::Output { bytes, ok: true, needed });
        w.since += 1;
        if w.script.interval != 0 && w.since >= w.script.interval {
            w.need = true;
        }
        Ok(())
    })
}
impl<const E: usize, const N: usize> Drbg for Gen<E, N> {
    type Entropy = Arr<E>;
    type Nonce = Arr<N>;
    fn instantiate(e: &Arr<E>, n: &Arr<N>, _: &[u8]) -> Result<Self, DrbgError> {
        with(|w| {
            let ok = !w.fails();
            w.log.push(Ev::Instantiate { entropy: e.0.to_vec(), nonce: n.0.to_vec(), ok });
            if ok {
                Ok(Gen)
            } else {
                Err(DrbgError)
            }
        })
    }
    fn reseed(&mut self, e: &Arr<E>, _: &[u8]) -> Result<(), DrbgError> {
        with(|w| {
            let ok = !w.fails();
            w.log.push(Ev::Reseed { entropy: e.0.to_vec(), ok });
            if ok {
                w.need = false;
                w.since = 0;
                Ok(())
            } else {
                Err(DrbgError)
            }
        })
    }
    fn next_u32(&mut self, _: &[u8]) -> Result<u32, DrbgError> {
        let mut b = [0; 4];
        output(&mut b)?;
        Ok(u32::from_le_bytes(b))
    }
    fn next_u64(&mut self, _: &[u8]) -> Result<u64, DrbgError> {
        let mut b = [0; 8];
        output(&mut b)?;
        Ok(u64::from_le_bytes(b))
    }
    fn fill_bytes(&mut self, _: &[u8], dest: &mut [u8]) -> Result<(), DrbgError> {
        output(dest)
    }
    fn requires_reseeding(&mut self) -> bool {
        with(|w| {
            let p = w.polls;
            w.polls += 1;
            if w.script.spurious.contains(&p) {
                w.need = true;
            }
            w.log.push(Ev::Requires(w.need));
            w.need
        })
    }
}

pub struct Source;
impl EntropySource for Source {
    fn instantiate() -> Self {
        Source
    }
    fn fill_entropy(&mut self, dest: &mut [u8]) {
        with(|w| {
            let at = w.stream.len();
            let mut r = Rng::new(w.seed ^ 0xE147 ^ ((at as u64) << 20) ^ w.log.len() as u64);
            for d in dest.iter_mut() {
                // never 0, so that bytes left at their default cannot pass for entropy
                let b = w.script.flat.unwrap_or((r.next() % 255) as u8 + 1);
                *d = b;
                w.stream.push(b);
            }
            w.log.push(Ev::Entropy { at, len: dest.len() });
        })
    }
}

/// Context over plain slices.
pub struct Plain<const E: usize, const N: usize>;
impl<const E: usize, const N: usize> TpmContextDeps for Plain<E, N> {
    type Drbg = Gen<E, N>;
    type EntropySource = Source;
    type Request = [u8];
    type Response = [u8];
}

pub fn be32(b: &[u8]) -> u32 {
    b.iter().fold(0, |a, &x| a << 8 | x as u32)
}

pub const CMD_SIZE: u32 = 0x142;
pub const CMD_CODE: u32 = 0x143;
pub const MEMORY: u32 = 0x904;
pub const FAILURE: u32 = 0x101;
pub const GET_RANDOM: u32 = 0x17B;

/// What the response to a request must be.
#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    /// Exactly this error.
    Rc(u32),
    /// Success with that many random bytes.
    Random(usize),
    /// Not specified: success with that many bytes, or any error.
    Open(usize),
    /// Not specified: any error.
    AnyError,
}
/// The answer to a request of these bytes when everything works and the response has `room` bytes.
pub fn want(req: &[u8], room: usize) -> Want {
    if req.len() < 10 {
        return Want::Rc(CMD_SIZE);
    }
    if be32(&req[2..6]) as usize != req.len() {
        return Want::Rc(CMD_SIZE);
    }
    let code = be32(&req[6..10]);
    if code != GET_RANDOM {
        return Want::Rc(CMD_CODE);
    }
    if req.len() < 12 {
        return Want::AnyError;
    }
    let n = be32(&req[10..12]) as usize;
    let open = req.len() > 12 || req[..2] != [0x80, 0x01];
    if 10 + n > room {
        return if open { Want::AnyError } else { Want::Rc(MEMORY) };
    }
    if open {
        Want::Open(n)
    } else {
        Want::Random(n)
    }
}

/// Checks that `buf[..n]` is one well-formed response, and the bytes after it are `before`'s.
/// Returns its code and body.
pub fn well_formed<'a>(buf: &'a [u8], n: usize, before: &[u8]) -> Result<Option<(u32, &'a [u8])>, String> {
    if n > buf.len() {
        return Err(format!("returned length {n} is beyond the {}-byte buffer", buf.len()));
    }
    if let Some(i) = (n..buf.len()).find(|&i| buf[i] != before[i]) {
        return Err(format!("byte {i} beyond the returned length {n} was modified"));
    }
    if buf.len() < 10 {
        if n != 0 {
            return Err(format!("{n} bytes returned in a buffer too small for a header"));
        }
        return Ok(None);
    }
    if n < 10 {
        return Err(format!("only {n} bytes returned although a header fits"));
    }
    if buf[..2] != [0x80, 0x01] {
        return Err(format!("response tag {:02x}{:02x}", buf[0], buf[1]));
    }
    let size = be32(&buf[2..6]);
    if size as usize != n {
        return Err(format!("header says {size} bytes, returned length is {n}"));
    }
    let rc = be32(&buf[6..10]);
    if rc != 0 && n != 10 {
        return Err(format!("error response {rc:#x} of {n} bytes"));
    }
    Ok(Some((rc, &buf[10..n])))
}

/// Judges a response (code, body) against what was wanted.
pub fn judge(w: &Want, got: Option<(u32, &[u8])>, room: usize) -> Result<(), String> {
    let Some((rc, body)) = got else {
        return if room < 10 { Ok(()) } else { Err("no response".into()) };
    };
    let ok = match w {
        Want::Rc(c) => rc == *c,
        Want::Random(n) => rc == 0 && body.len() == *n,
        Want::Open(n) => rc != 0 || body.len() == *n,
        Want::AnyError => rc != 0,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("response code {rc:#x} with {} bytes, expected {w:x?}", body.len()))
    }
}
