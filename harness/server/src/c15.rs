//! C15: platform byte buffers, and the server over custom ones.
use crate::c13::{request, room};
use crate::world::*;
use std::cell::{Cell, RefCell};
use tpm2_impl::platform::{
    ReadOutOfBounds, TpmContextDeps, TpmReadBuffer, TpmWriteBuffer, WriteOutOfBounds,
};
use tpm2_impl::TpmContext;
use vh_engine::{hex, Ctx, Prop, Src};

// ------------------------------------------------------------------ custom buffers

/// Request buffer: scattered storage, records what is read.
pub struct Req {
    bytes: Vec<u8>,
    fast: bool,
    reads: RefCell<Vec<(usize, usize)>>,
}
impl TpmReadBuffer for Req {
    fn len(&self) -> usize {
        self.bytes.len()
    }
    fn read_into(&self, offset: usize, out: &mut [u8]) -> Result<(), ReadOutOfBounds> {
        let end = offset.checked_add(out.len()).ok_or(ReadOutOfBounds)?;
        if end > self.bytes.len() {
            return Err(ReadOutOfBounds);
        }
        self.reads.borrow_mut().push((offset, out.len()));
        for (i, o) in out.iter_mut().enumerate() {
            *o = self.bytes[offset + i];
        }
        Ok(())
    }
    fn read_be_u16(&self, offset: usize) -> Result<u16, ReadOutOfBounds> {
        let mut b = [0; 2];
        self.read_into(offset, &mut b)?;
        // same result, the "more optimized version" a platform may provide
        Ok(if self.fast { (b[0] as u16) << 8 | b[1] as u16 } else { u16::from_be_bytes(b) })
    }
}

/// Response buffer: refuses chosen writes, records accesses.
pub struct Resp {
    bytes: Vec<u8>,
    /// Reads must stay below this (the request part in place).
    limit: usize,
    bad_read: Cell<Option<(usize, usize)>>,
    ops: usize,
    refuse: Option<usize>,
    refuse_all_after: bool,
    refused: usize,
    accepted: Vec<(usize, usize)>,
}
impl Resp {
    fn new(bytes: Vec<u8>, limit: usize) -> Resp {
        Resp {
            bytes,
            limit,
            bad_read: Cell::new(None),
            ops: 0,
            refuse: None,
            refuse_all_after: false,
            refused: 0,
            accepted: vec![],
        }
    }
    fn admits(&mut self, at: usize, n: usize) -> bool {
        let op = self.ops;
        self.ops += 1;
        match at.checked_add(n) {
            Some(e) if e <= self.bytes.len() => {}
            _ => return false,
        }
        if let Some(r) = self.refuse {
            if op == r || (self.refuse_all_after && op > r) {
                self.refused += 1;
                return false;
            }
        }
        self.accepted.push((at, n));
        true
    }
}
impl TpmReadBuffer for Resp {
    fn len(&self) -> usize {
        self.bytes.len()
    }
    fn read_into(&self, offset: usize, out: &mut [u8]) -> Result<(), ReadOutOfBounds> {
        let end = offset.checked_add(out.len()).ok_or(ReadOutOfBounds)?;
        if end > self.bytes.len() {
            return Err(ReadOutOfBounds);
        }
        if end > self.limit {
            self.bad_read.set(Some((offset, out.len())));
        }
        out.copy_from_slice(&self.bytes[offset..end]);
        Ok(())
    }
}
impl TpmWriteBuffer for Resp {
    fn write(&mut self, at: usize, data: &[u8]) -> Result<(), WriteOutOfBounds> {
        if !self.admits(at, data.len()) {
            return Err(WriteOutOfBounds);
        }
        self.bytes[at..at + data.len()].copy_from_slice(data);
        Ok(())
    }
    fn write_callback(
        &mut self,
        at: usize,
        size: usize,
        callback: impl FnOnce(&mut [u8]),
    ) -> Result<(), WriteOutOfBounds> {
        if !self.admits(at, size) {
            return Err(WriteOutOfBounds);
        }
        // through a bounce buffer, as hardware might
        let mut tmp = self.bytes[at..at + size].to_vec();
        callback(&mut tmp);
        self.bytes[at..at + size].copy_from_slice(&tmp);
        Ok(())
    }
}
pub struct Custom;
impl TpmContextDeps for Custom {
    type Drbg = Gen<32, 16>;
    type EntropySource = Source;
    type Request = Req;
    type Response = Resp;
}

// ------------------------------------------------------------------ histories on slices

fn offset(s: &mut Src, len: usize) -> usize {
    match s.below(10) {
        0 => s.int(u64::MAX) as usize,
        1 => usize::MAX - s.below(6) as usize,
        2 => len,
        3 => len + s.below(5) as usize,
        4 => len.saturating_sub(s.below(5) as usize),
        5 => 0,
        6 => (usize::MAX / 2).wrapping_add(s.below(4) as usize),
        _ => s.below(len as u64 + 1) as usize,
    }
}
fn fits(off: usize, n: usize, len: usize) -> bool {
    off.checked_add(n).is_some_and(|e| e <= len)
}
/// Any bytes; beyond what is worth choosing one by one, from a generator of their own.
fn bytes(s: &mut Src, n: usize) -> Vec<u8> {
    if n <= 400 {
        return s.blob(n);
    }
    let mut g = vh_engine::Rng::new(s.below(1 << 16));
    (0..n).map(|_| g.next() as u8).collect()
}
/// How much to transfer at an offset.
fn amount(s: &mut Src, len: usize, off: usize) -> usize {
    if len > 400 && s.chance(2, 3) {
        // all the rest, or nearly
        return (len.saturating_sub(off) + 1).saturating_sub(s.idx(3));
    }
    s.len(len + 4)
}
fn slices(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let len = match s.below(4) {
        _ if s.chance(1, 1500) => 400 + s.idx(140_000),
        0 => s.below(4) as usize,
        1 => s.len(300),
        _ => s.below(24) as usize,
    };
    let mut model = bytes(s, len);
    // canaries around the buffer
    let mut store = vec![0xA5u8; len + 16];
    store[8..8 + len].copy_from_slice(&model);
    let steps = 1 + s.idx(8);
    c.describe(|| format!("{len}-byte slice"));
    for _ in 0..steps {
        let buf: &mut [u8] = &mut store[8..8 + len];
        let off = offset(s, len);
        match s.below(6) {
            0 => {
                let n = amount(s, len, off);
                let mut out = vec![0x3C; n];
                let ok = TpmReadBuffer::read_into(buf, off, &mut out).is_ok();
                c.describe(|| format!("read {n} at {off:#x}"));
                if ok != fits(off, n, len) {
                    return Err(format!("reading {n} bytes at {off:#x} of {len}: success {ok}"));
                }
                if ok && out != model[off..off + n] || !ok && out.iter().any(|&b| b != 0x3C) {
                    return Err(format!("reading {n} bytes at {off:#x} of {len} gives {}", hex(&out[..n.min(400)])));
                }
                if ok && n > 0 || off.checked_add(n).is_none() {
                    c.nontrivial();
                }
                c.label(if ok { "read" } else { "refused read" });
            }
            1 => {
                let r = TpmReadBuffer::read_be_u16(buf, off);
                c.describe(|| format!("read u16 at {off:#x}"));
                let want = fits(off, 2, len).then(|| (model[off] as u16) << 8 | model[off + 1] as u16);
                if r.ok() != want {
                    return Err(format!("u16 at {off:#x} of {} is {r:x?}", hex(&model[..len.min(400)])));
                }
                c.label("read u16");
            }
            2 => {
                let r = TpmReadBuffer::read_be_u32(buf, off);
                c.describe(|| format!("read u32 at {off:#x}"));
                let want = fits(off, 4, len).then(|| be32(&model[off..off + 4]));
                if r.ok() != want {
                    return Err(format!("u32 at {off:#x} of {} is {r:x?}", hex(&model[..len.min(400)])));
                }
                c.label("read u32");
            }
            3 => {
                let n = amount(s, len, off);
                let data = bytes(s, n);
                let ok = TpmWriteBuffer::write(buf, off, &data).is_ok();
                c.describe(|| format!("write {n} at {off:#x}"));
                if ok != fits(off, n, len) {
                    return Err(format!("writing {n} bytes at {off:#x} of {len}: success {ok}"));
                }
                if ok {
                    model[off..off + n].copy_from_slice(&data);
                }
                if ok && n > 0 || off.checked_add(n).is_none() {
                    c.nontrivial();
                }
                c.label(if ok { "write" } else { "refused write" });
            }
            4 => {
                let n = match s.below(5) {
                    0 => s.int(u64::MAX) as usize,
                    1 => usize::MAX - s.below(4) as usize,
                    2 => 0usize.wrapping_sub(off).wrapping_add(s.below(4) as usize),
                    _ => amount(s, len, off),
                };
                let b0 = s.u8();
                let calls = Cell::new(0);
                let mut bad = None;
                let ok = TpmWriteBuffer::write_callback(buf, off, n, |d| {
                    calls.set(calls.get() + 1);
                    if d.len() != n {
                        bad = Some(d.len());
                    }
                    for (i, x) in d.iter_mut().enumerate() {
                        *x = b0.wrapping_add(i as u8);
                    }
                })
                .is_ok();
                c.describe(|| format!("write {n:#x} in place at {off:#x}"));
                if ok != fits(off, n, len) || calls.get() != usize::from(ok) || bad.is_some() {
                    return Err(format!(
                        "in-place write of {n:#x} bytes at {off:#x} of {len}: success {ok}, {} callbacks, wrong length {bad:?}",
                        calls.get()
                    ));
                }
                if ok {
                    for i in 0..n {
                        model[off + i] = b0.wrapping_add(i as u8);
                    }
                }
                if ok && n > 0 || off.checked_add(n).is_none() {
                    c.nontrivial();
                }
                c.label(if ok { "in-place write" } else { "refused in-place write" });
            }
            _ => {
                if TpmReadBuffer::len(buf) != len || TpmReadBuffer::is_empty(buf) != (len == 0) {
                    return Err(format!("a {len}-byte buffer reports length {}", TpmReadBuffer::len(buf)));
                }
            }
        }
        if store[8..8 + len] != model[..] {
            return Err(format!("buffer holds {} instead of {}", hex(&store[8..8 + len.min(400)]), hex(&model[..len.min(400)])));
        }
        if store[..8].iter().chain(&store[8 + len..]).any(|&b| b != 0xA5) {
            return Err("bytes outside the buffer were written".into());
        }
    }
    Ok(())
}

/// The provided methods over a buffer that only supplies the required ones.
fn provided(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    struct Min(Vec<u8>);
    impl TpmReadBuffer for Min {
        fn len(&self) -> usize {
            self.0.len()
        }
        fn read_into(&self, offset: usize, out: &mut [u8]) -> Result<(), ReadOutOfBounds> {
            if !fits(offset, out.len(), self.0.len()) {
                return Err(ReadOutOfBounds);
            }
            out.copy_from_slice(&self.0[offset..offset + out.len()]);
            Ok(())
        }
    }
    let n = s.below(12) as usize;
    let b = Min(s.blob(n));
    let off = offset(s, n);
    c.describe(|| format!("custom buffer {} read at {off:#x}", hex(&b.0)));
    c.label("provided methods");
    c.nontrivial();
    let w2 = fits(off, 2, n).then(|| (b.0[off] as u16) << 8 | b.0[off + 1] as u16);
    let w4 = fits(off, 4, n).then(|| be32(&b.0[off..off + 4]));
    let (g2, g4) = (b.read_be_u16(off).ok(), b.read_be_u32(off).ok());
    if g2 != w2 || g4 != w4 || b.is_empty() != (n == 0) {
        return Err(format!("{} at {off:#x}: u16 {g2:x?}, u32 {g4:x?}, empty {}", hex(&b.0), b.is_empty()));
    }
    Ok(())
}

/// The server over custom buffers behaves as over slices, within bounds, and copes with refusals.
fn server(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let seed = s.below(1 << 16);
    let script = Script { interval: s.below(3), strict: true, ..Default::default() };
    let mut wp = World::new(seed, script.clone());
    let mut wc = World::new(seed, script);
    enter(&mut wp);
    let plain = TpmContext::<Plain<32, 16>>::new();
    leave(&mut wp);
    enter(&mut wc);
    let cust = TpmContext::<Custom>::new();
    leave(&mut wc);
    let (Ok(mut plain), Ok(mut cust)) = (plain, cust) else { return Err("no context".into()) };
    for _ in 0..1 + s.idx(4) {
        let req = request(s);
        let m = room(s, &req);
        let inplace = s.chance(1, 2);
        let before: Vec<u8> = (0..m).map(|i| 0x60 ^ i as u8).collect();
        c.describe(|| {
            format!("{} request {} room {m}", if inplace { "in place" } else { "separate" }, hex(&req))
        });
        if req.len() >= 10 {
            c.nontrivial();
        }
        let mut slice = before.clone();
        let size = if s.chance(1, 6) { s.len(m + 20) } else { req.len() };
        let k = req.len().min(m);
        if inplace {
            slice[..k].copy_from_slice(&req[..k]);
        }
        let start = slice.clone();
        let seen = if inplace { start[..size.min(m)].to_vec() } else { req.clone() };
        let w = want(&seen, m);
        enter(&mut wp);
        let r = vh_engine::catch(|| {
            if inplace {
                plain.execute_command_in_place(&mut slice[..], size)
            } else {
                plain.execute_command_separate(&req, &mut slice[..])
            }
        });
        leave(&mut wp);
        let n = r?;
        judge(&w, well_formed(&slice, n, &start)?, m)?;
        let rq = Req { bytes: req.clone(), fast: s.chance(1, 2), reads: RefCell::new(vec![]) };
        let mut rs = Resp::new(start.clone(), if inplace { size.min(m) } else { 0 });
        if s.chance(1, 3) {
            rs.refuse = Some(s.below(6) as usize);
            rs.refuse_all_after = s.chance(1, 2);
            c.describe(|| format!("write {:?} refused, later ones too: {}", rs.refuse, rs.refuse_all_after));
        }
        enter(&mut wc);
        let r = vh_engine::catch(|| {
            if inplace {
                cust.execute_command_in_place(&mut rs, size)
            } else {
                cust.execute_command_separate(&rq, &mut rs)
            }
        });
        leave(&mut wc);
        let nc = r?;
        if let Some((o, l)) = rs.bad_read.get() {
            return Err(format!("{l} bytes at {o} were read, outside the {}-byte request", rs.limit));
        }
        if rs.refused == 0 {
            if nc != n || rs.bytes != slice {
                return Err(format!(
                    "over custom buffers the response is {}, over slices {}",
                    hex(&rs.bytes[..nc.min(m)]),
                    hex(&slice[..n])
                ));
            }
            c.label("custom buffer compared");
            continue;
        }
        c.label("refused write");
        // A refused write: the memory error, or nothing if not even the error could be written.
        if nc == 0 {
            let header_refused = rs.refuse_all_after || rs.ops == rs.refuse.unwrap_or(0) + 1;
            if !header_refused {
                return Err("nothing was returned although the error response could be written".into());
            }
        } else {
            if nc != 10 || m < 10 {
                return Err(format!("{nc} bytes returned after a refused write"));
            }
            let h = &rs.bytes[..10];
            if h[..6] != [0x80, 1, 0, 0, 0, 10] || be32(&h[6..10]) != MEMORY {
                return Err(format!("response {} after a refused write", hex(h)));
            }
            if n <= 10 && be32(&slice[6..10]) != 0 {
                return Err("a refused error response was replaced by another".into());
            }
        }
        // the generators may have diverged; continue from equal states
        wp = World::new(seed ^ 3, wp.script.clone());
        wc = World::new(seed ^ 3, wc.script.clone());
    }
    Ok(())
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    match s.below(8) {
        0..=2 => slices(s, c),
        3 => provided(s, c),
        _ => server(s, c),
    }
}

pub fn prop() -> Prop {
    Prop {
        quick: 2_000_000,
        quick_cov: 600_000,
        thorough: 60_000_000,
        thorough_cov: 30_000_000,
        assumptions: &[
            "custom buffers are: a recording request buffer, and a response buffer with a bounce buffer that refuses one chosen write or all writes from a chosen one on",
            "after a refused write the bytes beyond the returned length are not checked",
        ],
        ..Prop::new("C15", case, "a case is non-trivial when it transfers at least one byte, uses a range whose end overflows, or sends a request with a complete header over custom buffers")
    }
}
