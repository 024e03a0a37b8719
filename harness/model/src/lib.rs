//! Reference model of the TPM 2.0 wire encoding: value trees, schemas, and an encoder and decoder
//! written from Part 2, independent of the code under test.
use vh_engine::Src;

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    U(u64),
    B(Vec<u8>),
    L(Vec<Val>),
    S(Vec<Val>),
    E(u64, Vec<Val>),
}
pub type Vars = Vec<(u64, Vec<Sch>)>;

#[derive(Clone, Debug)]
pub enum Sch {
    /// Big-endian integer of that many bytes.
    U(usize),
    /// Exactly that many bytes.
    Fixed(usize),
    /// 16-bit length, bytes; the capacity.
    B2(usize),
    /// Count of `cw` bytes, then that many elements.  `open`: the count field is public, so that a
    /// value can claim more elements than fit.
    List { cw: usize, cap: usize, elem: Box<Sch>, open: bool },
    S(Vec<Sch>),
    /// Selector, then the selected member's fields.
    E { w: usize, vars: Vars },
    /// Fields, selector, fields, selected member; the value is S(pre.. mid.. E).
    Sel { pre: Vec<Sch>, w: usize, mid: Vec<Sch>, vars: Vars },
    /// Fields some of which are counts that say how many elements of later arrays are there.
    Rec(Vec<Fld>),
}
#[derive(Clone, Debug)]
pub enum Fld {
    Plain(Sch),
    /// Integer of that many bytes; the value is Val::U.
    Count(usize),
    /// Governed by the count at that position; the value is Val::L.
    Arr { of: usize, cap: usize, elem: Sch },
}
/// What the arrays governed by this count can hold.
fn room(fs: &[Fld], count: usize) -> usize {
    let caps = fs.iter().filter_map(|f| match f {
        Fld::Arr { of, cap, .. } if *of == count => Some(*cap),
        _ => None,
    });
    caps.min().unwrap_or(usize::MAX)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Count,
    Len,
    Selector,
    Int,
}
/// Where in an encoding something interesting lies.
#[derive(Clone, Copy, Debug)]
pub struct Mark {
    pub pos: usize,
    pub w: usize,
    pub kind: Kind,
    pub cap: u64,
}

fn put(out: &mut Vec<u8>, v: u64, w: usize) {
    for i in (0..w).rev() {
        out.push((v >> (8 * i)) as u8);
    }
}
fn members<'a>(vars: &'a Vars, sel: u64) -> Option<&'a Vec<Sch>> {
    vars.iter().find(|x| x.0 == sel).map(|x| &x.1)
}

pub fn encode(sch: &Sch, v: &Val) -> Vec<u8> {
    let mut out = Vec::new();
    enc(sch, v, &mut out, &mut Vec::new());
    out
}
pub fn enc(sch: &Sch, v: &Val, out: &mut Vec<u8>, marks: &mut Vec<Mark>) {
    let mut mark = |pos, w, kind, cap: usize| marks.push(Mark { pos, w, kind, cap: cap as u64 });
    match (sch, v) {
        (Sch::U(w), Val::U(x)) => {
            mark(out.len(), *w, Kind::Int, 0);
            put(out, *x, *w)
        }
        (Sch::Fixed(n), Val::B(b)) => {
            assert_eq!(*n, b.len());
            out.extend_from_slice(b)
        }
        (Sch::B2(cap), Val::B(b)) => {
            mark(out.len(), 2, Kind::Len, *cap);
            put(out, b.len() as u64, 2);
            out.extend_from_slice(b)
        }
        (Sch::List { cw, cap, elem, .. }, Val::L(l)) => {
            mark(out.len(), *cw, Kind::Count, *cap);
            put(out, l.len() as u64, *cw);
            for e in l {
                enc(elem, e, out, marks);
            }
        }
        (Sch::S(ss), Val::S(vs)) => {
            assert_eq!(ss.len(), vs.len());
            for (s, v) in ss.iter().zip(vs) {
                enc(s, v, out, marks);
            }
        }
        (Sch::E { w, vars }, Val::E(sel, fs)) => {
            mark(out.len(), *w, Kind::Selector, 0);
            put(out, *sel, *w);
            for (s, v) in members(vars, *sel).unwrap().iter().zip(fs) {
                enc(s, v, out, marks);
            }
        }
        (Sch::Sel { pre, w, mid, vars }, Val::S(vs)) => {
            for (s, v) in pre.iter().zip(vs) {
                enc(s, v, out, marks);
            }
            let Some(Val::E(sel, fs)) = vs.last() else { panic!("schema mismatch") };
            marks.push(Mark { pos: out.len(), w: *w, kind: Kind::Selector, cap: 0 });
            put(out, *sel, *w);
            for (s, v) in mid.iter().zip(&vs[pre.len()..]) {
                enc(s, v, out, marks);
            }
            for (s, v) in members(vars, *sel).unwrap().iter().zip(fs) {
                enc(s, v, out, marks);
            }
        }
        (Sch::Rec(fs), Val::S(vs)) => {
            assert_eq!(fs.len(), vs.len());
            for (i, (f, v)) in fs.iter().zip(vs).enumerate() {
                match (f, v) {
                    (Fld::Plain(s), v) => enc(s, v, out, marks),
                    (Fld::Count(w), Val::U(n)) => {
                        marks.push(Mark { pos: out.len(), w: *w, kind: Kind::Count, cap: room(fs, i) as u64 });
                        put(out, *n, *w)
                    }
                    (Fld::Arr { elem, .. }, Val::L(l)) => l.iter().for_each(|e| enc(elem, e, out, marks)),
                    _ => panic!("schema mismatch {f:?} {v:?}"),
                }
            }
        }
        _ => panic!("schema mismatch {sch:?} {v:?}"),
    }
}

/// Which errors are acceptable, as a bit set.
pub const ALE: u8 = 1;
pub const UEOB: u8 = 2;
pub const USEL: u8 = 4;

fn take<'a>(b: &'a [u8], pos: &mut usize, n: usize) -> Result<&'a [u8], u8> {
    if b.len() - *pos < n {
        return Err(UEOB);
    }
    let r = &b[*pos..*pos + n];
    *pos += n;
    Ok(r)
}
fn num(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| a << 8 | *x as u64)
}
/// Decodes from the start of `b`; on failure the set of acceptable errors.
pub fn dec(sch: &Sch, b: &[u8], pos: &mut usize) -> Result<Val, u8> {
    Ok(match sch {
        Sch::U(w) => Val::U(num(take(b, pos, *w)?)),
        Sch::Fixed(n) => Val::B(take(b, pos, *n)?.to_vec()),
        Sch::B2(cap) => {
            let n = num(take(b, pos, 2)?) as usize;
            if n > *cap {
                // The specification of the check names no particular error here.
                return Err(ALE | UEOB | USEL);
            }
            Val::B(take(b, pos, n)?.to_vec())
        }
        Sch::List { cw, cap, elem, .. } => {
            let n = num(take(b, pos, *cw)?);
            if n > *cap as u64 {
                // Also acceptable: an error among the elements, if there is one.
                let mut p = *pos;
                for _ in 0..n {
                    match dec(elem, b, &mut p) {
                        Ok(_) if p > *pos => (),
                        Ok(_) => break,
                        Err(e) => return Err(e | ALE),
                    }
                }
                return Err(ALE);
            }
            let mut l = Vec::new();
            for _ in 0..n {
                l.push(dec(elem, b, pos)?);
            }
            Val::L(l)
        }
        Sch::S(ss) => {
            let mut l = Vec::new();
            for s in ss {
                l.push(dec(s, b, pos)?);
            }
            Val::S(l)
        }
        Sch::E { w, vars } => {
            let sel = num(take(b, pos, *w)?);
            let fs = members(vars, sel).ok_or(USEL)?;
            let mut l = Vec::new();
            for s in fs {
                l.push(dec(s, b, pos)?);
            }
            Val::E(sel, l)
        }
        Sch::Sel { pre, w, mid, vars } => {
            let mut l = Vec::new();
            for s in pre {
                l.push(dec(s, b, pos)?);
            }
            let sel = num(take(b, pos, *w)?);
            let unknown = if members(vars, sel).is_none() { USEL } else { 0 };
            for s in mid {
                l.push(dec(s, b, pos).map_err(|e| e | unknown)?);
            }
            let fs = members(vars, sel).ok_or(USEL)?;
            let mut f = Vec::new();
            for s in fs {
                f.push(dec(s, b, pos)?);
            }
            l.push(Val::E(sel, f));
            Val::S(l)
        }
        Sch::Rec(fs) => {
            let mut l = Vec::new();
            // A count above capacity may be reported when it is read, or when its array's turn comes.
            let mut bad = 0;
            for (i, f) in fs.iter().enumerate() {
                l.push(match f {
                    Fld::Plain(s) => dec(s, b, pos).map_err(|e| e | bad)?,
                    Fld::Count(w) => {
                        let n = num(take(b, pos, *w).map_err(|e| e | bad)?);
                        if n > room(fs, i) as u64 {
                            bad = ALE;
                        }
                        Val::U(n)
                    }
                    Fld::Arr { of, cap, elem } => {
                        let Val::U(n) = l[*of] else { panic!("schema mismatch") };
                        let mut a = Vec::new();
                        for _ in 0..n.min(*cap as u64) {
                            a.push(dec(elem, b, pos).map_err(|e| e | bad)?);
                        }
                        if n > *cap as u64 {
                            return Err(ALE | dec(elem, b, pos).err().unwrap_or(0));
                        }
                        Val::L(a)
                    }
                });
            }
            Val::S(l)
        }
    })
}

/// Length of the longest encoding.
pub fn max_len(sch: &Sch) -> usize {
    let sum = |ss: &[Sch]| ss.iter().map(max_len).sum::<usize>();
    let var = |vars: &Vars| vars.iter().map(|v| sum(&v.1)).max().unwrap_or(0);
    match sch {
        Sch::U(w) => *w,
        Sch::Fixed(n) => *n,
        Sch::B2(cap) => 2 + cap,
        Sch::List { cw, cap, elem, .. } => cw + cap * max_len(elem),
        Sch::S(ss) => sum(ss),
        Sch::E { w, vars } => w + var(vars),
        Sch::Sel { pre, w, mid, vars } => sum(pre) + w + sum(mid) + var(vars),
        Sch::Rec(fs) => fs.iter().map(|f| match f {
            Fld::Plain(s) => max_len(s),
            Fld::Count(w) => *w,
            Fld::Arr { of, elem, .. } => room(fs, *of) * max_len(elem),
        }).sum(),
    }
}
/// Does the schema hold a list with a public count?
pub fn has_open(sch: &Sch) -> bool {
    let any = |ss: &[Sch]| ss.iter().any(has_open);
    let var = |vars: &Vars| vars.iter().any(|v| any(&v.1));
    match sch {
        Sch::List { elem, open, .. } => *open || has_open(elem),
        Sch::S(ss) => any(ss),
        Sch::E { vars, .. } => var(vars),
        Sch::Sel { pre, mid, vars, .. } => any(pre) || any(mid) || var(vars),
        Sch::Rec(_) => true,
        _ => false,
    }
}
/// Does the value claim more elements than fit somewhere?
pub fn overfull(sch: &Sch, v: &Val) -> bool {
    let any = |ss: &[Sch], vs: &[Val]| ss.iter().zip(vs).any(|(s, v)| overfull(s, v));
    match (sch, v) {
        (Sch::List { cap, elem, .. }, Val::L(l)) => {
            l.len() > *cap || l.iter().any(|e| overfull(elem, e))
        }
        (Sch::S(ss), Val::S(vs)) => any(ss, vs),
        (Sch::E { vars, .. }, Val::E(sel, fs)) => any(members(vars, *sel).unwrap(), fs),
        (Sch::Sel { pre, mid, vars, .. }, Val::S(vs)) => {
            let Some(Val::E(sel, fs)) = vs.last() else { return false };
            any(pre, vs) || any(mid, &vs[pre.len()..]) || any(members(vars, *sel).unwrap(), fs)
        }
        (Sch::Rec(fs), Val::S(vs)) => fs.iter().zip(vs).enumerate().any(|(i, (f, v))| match (f, v) {
            (Fld::Plain(s), v) => overfull(s, v),
            (Fld::Count(_), Val::U(n)) => *n > room(fs, i) as u64,
            (Fld::Arr { elem, .. }, Val::L(l)) => l.iter().any(|e| overfull(elem, e)),
            _ => panic!("schema mismatch"),
        }),
        _ => false,
    }
}

/// Generates a value.  `over` (per mille) is the chance that a list with a public count claims too
/// much.
pub fn gen(s: &mut Src, sch: &Sch, over: u64) -> Val {
    match sch {
        Sch::U(w) => Val::U(s.int(if *w == 8 { u64::MAX } else { (1 << (8 * w)) - 1 })),
        Sch::Fixed(n) => Val::B(s.blob(*n)),
        Sch::B2(cap) => {
            let n = s.len(*cap);
            Val::B(s.blob(n))
        }
        Sch::List { cw, cap, elem, open } => {
            if *open && over > 0 && s.chance(over, 1000) {
                let top = if *cw == 8 { u64::MAX } else { (1u64 << (8 * cw)) - 1 };
                let top = top.min(*cap as u64 + 300);
                let n = *cap as u64 + 1 + s.int(top - *cap as u64 - 1);
                let e = gen(s, elem, 0);
                return Val::L(vec![e; n as usize]);
            }
            let n = s.len(*cap);
            Val::L((0..n).map(|_| gen(s, elem, over)).collect())
        }
        Sch::S(ss) => Val::S(ss.iter().map(|x| gen(s, x, over)).collect()),
        Sch::E { vars, .. } => gen_var(s, vars, over),
        Sch::Sel { pre, mid, vars, .. } => {
            let mut l: Vec<Val> = pre.iter().map(|x| gen(s, x, over)).collect();
            l.extend(mid.iter().map(|x| gen(s, x, over)));
            l.push(gen_var(s, vars, over));
            Val::S(l)
        }
        Sch::Rec(fs) => {
            let mut l: Vec<Val> = Vec::new();
            for (i, f) in fs.iter().enumerate() {
                l.push(match f {
                    Fld::Plain(x) => gen(s, x, over),
                    Fld::Count(w) => {
                        let cap = room(fs, i) as u64;
                        let top = if *w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
                        Val::U(if over > 0 && cap < top && s.chance(over, 1000) {
                            match s.below(3) {
                                // what a narrower type would take for a small number
                                0 if *w > 1 => (1u64 << (8 * (1 + s.below(*w as u64 - 1)))) | s.len(cap as usize) as u64,
                                1 => cap + 1,
                                _ => cap + 1 + s.int(top - cap - 1),
                            }
                        } else {
                            s.len(cap.min(top) as usize) as u64
                        })
                    }
                    Fld::Arr { of, cap, elem } => {
                        let Val::U(n) = l[*of] else { panic!("schema mismatch") };
                        Val::L((0..n.min(*cap as u64)).map(|_| gen(s, elem, over)).collect())
                    }
                });
            }
            Val::S(l)
        }
    }
}
fn gen_var(s: &mut Src, vars: &Vars, over: u64) -> Val {
    let (sel, fs) = s.pick(vars).clone();
    Val::E(sel, fs.iter().map(|x| gen(s, x, over)).collect())
}

/// An encoding damaged in a way a peer or an attacker could damage it.
pub fn damage(s: &mut Src, bytes: &mut Vec<u8>, marks: &[Mark]) {
    match s.below(9) {
        0 => (),
        1 => {
            let n = s.idx(bytes.len() + 1);
            bytes.truncate(n);
        }
        2 => {
            let n = 1 + s.idx(3).min(bytes.len());
            bytes.truncate(bytes.len().saturating_sub(n));
        }
        3 | 4 => {
            let of: Vec<&Mark> = marks.iter().filter(|m| m.kind != Kind::Int).collect();
            if !of.is_empty() {
                let m = **s.pick(&of);
                let top = if m.w == 8 { u64::MAX } else { (1 << (8 * m.w)) - 1 };
                let old = num(&bytes[m.pos..m.pos + m.w]);
                let v = match s.below(8) {
                    0 => m.cap + 1,
                    1 => m.cap,
                    2 => old.wrapping_add(1),
                    3 => old.wrapping_sub(1),
                    4 => top,
                    5 => m.cap + 1 + s.int(64),
                    6 => old ^ 1 << s.below(8 * m.w as u64),
                    _ => s.int(top),
                } & top;
                for i in 0..m.w {
                    bytes[m.pos + i] = (v >> (8 * (m.w - 1 - i))) as u8;
                }
            }
        }
        5 => {
            if !bytes.is_empty() {
                let i = s.idx(bytes.len());
                bytes[i] = s.u8();
            }
        }
        6 => {
            let i = s.idx(bytes.len() + 1);
            let b = s.u8();
            bytes.insert(i, b);
        }
        7 => {
            if !bytes.is_empty() {
                let i = s.idx(bytes.len());
                bytes.remove(i);
            }
        }
        _ => {
            if !bytes.is_empty() {
                let i = s.idx(bytes.len());
                let n = s.idx(bytes.len() - i + 1);
                let f = s.u8();
                bytes[i..i + n].fill(f);
            }
        }
    }
}

