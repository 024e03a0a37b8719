//! Property engine: choice-sequence generation, coverage-guided mutation, shrinking, replay files,
//! worker processes and evidence.

pub mod src;
mod words;
pub use src::{hash64, hash_u64s, Rng, Src};

use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::time::{Duration, Instant};

/// Collects what a case covered.
pub struct Ctx {
    pub evaluations: u64,
    /// Non-trivial cases, by hash.
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
    want_sample: bool,
    cur: Option<String>,
    cur_nontrivial: bool,
    cur_key: Option<u64>,
    quiet: bool,
}
impl Ctx {
    fn new() -> Self {
        Ctx {
            evaluations: 0,
            nontrivial: HashSet::new(),
            labels: BTreeMap::new(),
            samples: Vec::new(),
            known: BTreeMap::new(),
            want_sample: false,
            cur: None,
            cur_nontrivial: false,
            cur_key: None,
            quiet: false,
        }
    }
    /// Marks the current case as non-trivial by the property's rule.
    pub fn nontrivial(&mut self) {
        self.cur_nontrivial = true;
    }
    /// Marks the case as non-trivial, identified by `key` rather than by its choices.
    pub fn nontrivial_key(&mut self, key: u64) {
        self.cur_nontrivial = true;
        self.cur_key = Some(key);
    }
    /// Counts a class of cases.
    pub fn label(&mut self, l: &str) {
        if self.quiet {
            return;
        }
        if let Some(n) = self.labels.get_mut(l) {
            *n += 1;
        } else {
            self.labels.insert(l.to_string(), 1);
        }
    }
    /// Describes the current case; only evaluated when a rendering is wanted.
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            let mut s = f();
            if s.len() > 2000 {
                let mut cut = 2000;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push('…');
            }
            match &mut self.cur {
                Some(c) => {
                    c.push_str("; ");
                    c.push_str(&s)
                }
                None => self.cur = Some(s),
            }
        }
    }
    /// Records one occurrence of a finding if the known-findings file lists it; false if not.
    pub fn known(&mut self, property: &str, what: &str) -> bool {
        static LIST: std::sync::OnceLock<String> = std::sync::OnceLock::new();
        let list = LIST.get_or_init(|| {
            let root = std::env::var("VH_ROOT").unwrap_or_else(|_| ".".into());
            fs::read_to_string(Path::new(&root).join("known_findings.txt")).unwrap_or_default()
        });
        let listed = list.lines().any(|l| l.starts_with(&format!("finding: property={property} {what}")));
        if listed {
            *self.known.entry(what.to_string()).or_insert(0) += 1;
        }
        listed
    }
    /// Adds evaluations made inside one case (exhaustive sweeps).
    pub fn more_evaluations(&mut self, n: u64) {
        if !self.quiet {
            self.evaluations += n;
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Result<(), String>;

/// A property and how to search it.
pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub case: CaseFn,
    /// Choice sequences always run first (directed and exhaustive parts). `(tier_thorough)`.
    pub seeds: Option<fn(bool) -> Vec<Vec<u64>>>,
    /// True if `seeds` enumerate a finite space completely.
    pub exhaustive: bool,
    /// Random cases over all workers.
    pub quick: u64,
    pub thorough: u64,
    /// Coverage-guided cases over all workers.
    pub quick_cov: u64,
    pub thorough_cov: u64,
    pub workers: u64,
    /// Cap on shrink executions.
    pub shrink: u64,
}
impl Prop {
    pub const fn new(id: &'static str, case: CaseFn, rule: &'static str) -> Prop {
        Prop {
            id,
            level: "exploration",
            rule,
            assumptions: &[],
            case,
            seeds: None,
            exhaustive: false,
            quick: 100_000,
            thorough: 4_000_000,
            quick_cov: 100_000,
            thorough_cov: 8_000_000,
            workers: 8,
            shrink: 4000,
        }
    }
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {loc}: {msg}")));
    }));
}
/// Runs `f`, turning a panic into its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panicked".into())),
    }
}

fn run_case(case: CaseFn, s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    c.cur = None;
    c.cur_nontrivial = false;
    c.cur_key = None;
    match catch(|| case(s, c)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

// ---------------------------------------------------------------- shrinking

fn simpler(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

fn shrink(prop: &Prop, start: Vec<u64>, msg: String) -> (Vec<u64>, String, u64) {
    let mut best = start;
    let mut best_msg = msg;
    let mut ctx = Ctx::new();
    ctx.quiet = true;
    let mut tries = 0u64;
    let deadline = Instant::now() + Duration::from_secs(45);
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, best_msg: &mut String| -> bool {
        if tries >= prop.shrink || Instant::now() > deadline {
            return false;
        }
        tries += 1;
        let mut s = Src::new(cand, None);
        if let Err(m) = run_case(prop.case, &mut s, &mut ctx) {
            let mut u = s.used;
            while u.last() == Some(&0) {
                u.pop();
            }
            if simpler(&u, best) {
                *best = u;
                *best_msg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete blocks
        let mut k = (best.len() / 2).max(1);
        while k >= 1 {
            let mut i = best.len().saturating_sub(k);
            loop {
                if i + k <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + k);
                    attempt(c, &mut best, &mut best_msg);
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(k);
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // zero blocks, then reduce values
        let mut k = 8usize;
        while k >= 1 {
            let mut i = 0;
            while i < best.len() {
                let e = (i + k).min(best.len());
                if best[i..e].iter().any(|&v| v != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|v| *v = 0);
                    attempt(c, &mut best, &mut best_msg);
                }
                i += k;
            }
            k /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut lo = 0u64;
                let mut hi = v;
                while lo < hi {
                    let mid = lo + (hi - lo) / 2;
                    if i >= best.len() {
                        break;
                    }
                    let mut c = best.clone();
                    c[i] = mid;
                    if attempt(c, &mut best, &mut best_msg) {
                        hi = mid;
                    } else {
                        lo = mid + 1;
                    }
                }
            }
            i += 1;
        }
        // shrink a length-like choice and delete something after it
        for i in 0..best.len().min(64) {
            if i < best.len() && best[i] > 0 {
                for d in 1..3usize {
                    if i + 1 + d <= best.len() {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.drain(i + 1..i + 1 + d);
                        attempt(c, &mut best, &mut best_msg);
                    }
                    if i >= best.len() || best[i] == 0 {
                        break;
                    }
                }
            }
        }
        if best == before {
            break;
        }
    }
    (best, best_msg, tries)
}

// ---------------------------------------------------------------- worker

/// Said of a failure that needs what happened in the process before.
const ALONE: &str = "(not by this case alone)";

struct Failure {
    worker: u64,
    choices: Vec<u64>,
    msg: String,
    rendering: String,
}

fn render(prop: &Prop, choices: &[u64]) -> (Result<(), String>, String) {
    let mut ctx = Ctx::new();
    ctx.quiet = true;
    ctx.want_sample = true;
    let mut s = Src::new(choices.to_vec(), None);
    let r = run_case(prop.case, &mut s, &mut ctx);
    (r, ctx.cur.unwrap_or_default())
}

fn bucket(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

struct Campaign<'a> {
    prop: &'a Prop,
    ctx: Ctx,
    cur_file: Option<fs::File>,
    seen: Vec<u8>,
    corpus: Vec<Vec<u64>>,
    pairs: Vec<Vec<(u64, u64, u8)>>,
    nsample: u64,
}

impl Campaign<'_> {
    fn note(&self, prefix: &[u64], rng: &Option<Rng>) {
        if let Some(f) = &self.cur_file {
            // Enough to find the case again if the process dies: the prefix, and whether more
            // random choices follow.
            let mut b = Vec::with_capacity(24 + prefix.len() * 8);
            b.extend_from_slice(&self.ctx.evaluations.to_le_bytes());
            b.extend_from_slice(&(rng.is_some() as u64).to_le_bytes());
            b.extend_from_slice(&(prefix.len() as u64).to_le_bytes());
            for p in prefix {
                b.extend_from_slice(&p.to_le_bytes());
            }
            let _ = f.write_at(&b, 0);
        }
    }
    fn exec(&mut self, prefix: Vec<u64>, rng: Option<Rng>) -> Result<Vec<u64>, (Vec<u64>, String)> {
        self.note(&prefix, &rng);
        let n = self.ctx.evaluations;
        self.ctx.want_sample = n.is_power_of_two() || n % 100_003 == 77;
        let mut s = Src::new(prefix, rng);
        self.ctx.evaluations += 1;
        let r = run_case(self.prop.case, &mut s, &mut self.ctx);
        if self.ctx.cur_nontrivial {
            let k = self.ctx.cur_key.unwrap_or_else(|| hash_u64s(&s.used));
            if self.ctx.nontrivial.len() < 3_000_000 {
                self.ctx.nontrivial.insert(k);
            }
            if self.ctx.want_sample && self.ctx.samples.len() < 24 {
                if let Some(c) = self.ctx.cur.take() {
                    self.ctx.samples.push(c);
                    self.nsample += 1;
                }
            }
        }
        match r {
            Ok(()) => Ok(s.used),
            Err(m) => Err((s.used, m)),
        }
    }
    /// Executes with coverage; keeps the sequence if it reached something new.
    fn exec_cov(&mut self, prefix: Vec<u64>, rng: Option<Rng>) -> Result<(), (Vec<u64>, String)> {
        vh_rt::reset();
        vh_rt::tracing(true);
        let r = self.exec(prefix, rng);
        vh_rt::tracing(false);
        let used = r?;
        let mut new = false;
        let seen = &mut self.seen;
        vh_rt::visit(|i, c| {
            let b = bucket(c);
            if seen[i] & b == 0 {
                seen[i] |= b;
                new = true;
            }
        });
        if new && self.corpus.len() < 20_000 {
            self.corpus.push(used);
            self.pairs.push(vh_rt::pairs());
        }
        Ok(())
    }
}

fn mutate(r: &mut Rng, corpus: &[Vec<u64>], pairs: &[Vec<(u64, u64, u8)>]) -> Vec<u64> {
    // favour recent entries
    let n = corpus.len() as u64;
    let pickone = |r: &mut Rng| -> usize {
        if r.upto(2) == 0 {
            (n - 1 - r.upto((n - 1).min(15))) as usize
        } else {
            r.upto(n - 1) as usize
        }
    };
    let ci = pickone(r);
    let mut v = corpus[ci].clone();
    let rounds = 1 + r.upto(3);
    for _ in 0..rounds {
        if v.is_empty() {
            v.push(r.next());
            continue;
        }
        let len = v.len() as u64;
        // positions: favour the front, which usually decides the shape
        let pos = |r: &mut Rng, len: u64| -> usize {
            if r.upto(2) == 0 {
                r.upto((len - 1).min(15)) as usize
            } else {
                r.upto(len - 1) as usize
            }
        };
        match r.upto(13) {
            0 => {
                let p = pos(r, len);
                v[p] = r.upto(0xff);
            }
            1 => {
                let p = pos(r, len);
                let b = r.upto(63);
                v[p] ^= 1 << b;
            }
            2 => {
                let p = pos(r, len);
                v[p] = v[p].wrapping_add(1 + r.upto(3));
            }
            3 => {
                let p = pos(r, len);
                v[p] = v[p].saturating_sub(1 + r.upto(3));
            }
            4 => {
                let p = pos(r, len);
                v[p] = r.next() >> r.upto(63);
            }
            5 => {
                let p = pos(r, len);
                let k = 1 + r.upto((len - p as u64 - 1).min(8)) as usize;
                v.drain(p..(p + k).min(v.len()));
            }
            6 => {
                let p = pos(r, len);
                let k = 1 + r.upto(3) as usize;
                for _ in 0..k {
                    let x = r.next() >> r.upto(63);
                    v.insert(p, x);
                }
            }
            7 => {
                let p = pos(r, len);
                v.truncate(p);
            }
            8 => {
                let o = &corpus[pickone(r)];
                if !o.is_empty() {
                    let a = pos(r, len);
                    let b = r.upto(o.len() as u64 - 1) as usize;
                    v.truncate(a);
                    v.extend_from_slice(&o[b..]);
                }
            }
            9 => {
                let p = pos(r, len);
                let k = 1 + r.upto((len - p as u64 - 1).min(12)) as usize;
                let blk: Vec<u64> = v[p..(p + k).min(v.len())].to_vec();
                let q = pos(r, len);
                for (i, x) in blk.into_iter().enumerate() {
                    v.insert(q + i, x);
                }
            }
            10 => {
                let n = vh_rt::nconsts() as u64;
                if n > 0 {
                    let c = vh_rt::konst_at(r.upto(n - 1) as usize);
                    let p = pos(r, len);
                    v[p] = c;
                }
            }
            _ => {
                // input-to-state: replace an operand seen in a comparison by its counterpart
                let ps = &pairs[ci];
                if !ps.is_empty() {
                    for _ in 0..4 {
                        let (a, b, _) = ps[r.upto(ps.len() as u64 - 1) as usize];
                        let (a, b) = if r.upto(1) == 0 { (a, b) } else { (b, a) };
                        let hits: Vec<usize> =
                            (0..v.len()).filter(|&i| v[i] == a).collect();
                        if !hits.is_empty() {
                            let p = hits[r.upto(hits.len() as u64 - 1) as usize];
                            v[p] = match r.upto(5) {
                                0 => b.wrapping_add(1),
                                1 => b.wrapping_sub(1),
                                _ => b,
                            };
                            break;
                        }
                    }
                }
            }
        }
    }
    v
}

fn worker(prop: &Prop, thorough: bool, seed: u64, w: u64, out: &Path) -> i32 {
    let nw = prop.workers;
    let base = hash64(format!("{}/{}/{}", prop.id, seed, w).as_bytes());
    let mut c = Campaign {
        prop,
        ctx: Ctx::new(),
        cur_file: fs::File::create(out.join(format!("cur.{w}"))).ok(),
        seen: vec![0; vh_rt::counters()],
        corpus: Vec::new(),
        pairs: Vec::new(),
        nsample: 0,
    };
    let (nr, nc) = if thorough {
        (prop.thorough, prop.thorough_cov)
    } else {
        (prop.quick, prop.quick_cov)
    };
    let share = |n: u64| n / nw + u64::from(w < n % nw);
    let res = (|| -> Result<(), (Vec<u64>, String)> {
        if let Some(f) = prop.seeds {
            for (i, s) in f(thorough).into_iter().enumerate() {
                if i as u64 % nw == w {
                    c.exec_cov(s, None)?;
                }
            }
        }
        let mut rng = Rng::new(base);
        // a short instrumented warm-up fills the dictionary of compared constants
        let warm = (share(nr) / 20).min(2000);
        for i in 0..share(nr) {
            let r = Rng::new(rng.next());
            if i < warm {
                c.exec_cov(Vec::new(), Some(r))?;
            } else {
                c.exec(Vec::new(), Some(r))?;
            }
        }
        for i in 0..share(nc) {
            if c.corpus.is_empty() || i % 32 == 31 {
                let r = Rng::new(rng.next());
                c.exec_cov(Vec::new(), Some(r))?;
                continue;
            }
            let m = mutate(&mut rng, &c.corpus, &c.pairs);
            let r = Rng::new(rng.next());
            c.exec_cov(m, Some(r))?;
        }
        Ok(())
    })();
    let mut fail = None;
    if let Err((choices, msg)) = res {
        let (b, m, tries) = shrink(prop, choices, msg);
        let (again, rendering) = render(prop, &b);
        let m = match again {
            Err(m2) => m2,
            Ok(()) => format!("{m} {ALONE}"),
        };
        c.ctx.label(&format!("shrink attempts: {tries}"));
        fail = Some(Failure { worker: w, choices: b, msg: m, rendering });
    }
    let covered = c.seen.iter().filter(|&&x| x != 0).count();
    let mut o = Vec::new();
    let _ = writeln!(o, "evaluations {}", c.ctx.evaluations);
    let _ = writeln!(o, "edges {} {}", covered, c.seen.len());
    let _ = writeln!(o, "corpus {}", c.corpus.len());
    for (l, n) in &c.ctx.labels {
        let _ = writeln!(o, "label {n} {l}");
    }
    for (l, n) in &c.ctx.known {
        let _ = writeln!(o, "known {n} {l}");
    }
    for s in &c.ctx.samples {
        let _ = writeln!(o, "sample {}", s.replace('\n', " "));
    }
    if let Some(f) = &fail {
        let _ = writeln!(
            o,
            "fail {}\nfailmsg {}\nfailcase {}",
            f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
            f.msg.replace('\n', " "),
            f.rendering.replace('\n', " ")
        );
    }
    let _ = writeln!(o, "end");
    let mut h: Vec<u8> = Vec::with_capacity(c.ctx.nontrivial.len() * 8);
    for k in &c.ctx.nontrivial {
        h.extend_from_slice(&k.to_le_bytes());
    }
    if fs::write(out.join(format!("hash.{w}")), h).is_err()
        || fs::write(out.join(format!("out.{w}")), o).is_err()
    {
        return 2;
    }
    if fail.is_some() {
        1
    } else {
        0
    }
}

// ---------------------------------------------------------------- parent

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Opts {
    prop: String,
    thorough: bool,
    seed: u64,
    root: PathBuf,
    start: Instant,
    build_s: f64,
    extra: String,
}

fn parent(prop: &Prop, o: &Opts) -> i32 {
    let work = o.root.join("work").join("run").join(format!("{}-{}", prop.id, std::process::id()));
    let _ = fs::remove_dir_all(&work);
    if let Err(e) = fs::create_dir_all(&work) {
        eprintln!("cannot create {}: {e}", work.display());
        return 2;
    }
    let me = match std::env::current_exe() {
        Ok(m) => m,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let mut kids = Vec::new();
    for w in 0..prop.workers {
        let k = Command::new(&me)
            .arg("worker")
            .arg(prop.id)
            .arg(if o.thorough { "thorough" } else { "quick" })
            .arg(o.seed.to_string())
            .arg(w.to_string())
            .arg(&work)
            .stdin(Stdio::null())
            .spawn();
        match k {
            Ok(k) => kids.push(Some(k)),
            Err(e) => {
                eprintln!("cannot start worker: {e}");
                return 2;
            }
        }
    }
    // Generous overall limit; reaching it is an error of the check, never a violation.
    let limit = Duration::from_secs(if o.thorough { 6 * 3600 } else { 780 });
    let t0 = Instant::now();
    let n = kids.len();
    let mut status: Vec<Option<std::process::ExitStatus>> = vec![None; n];
    let mut first_fail: Option<Instant> = None;
    loop {
        let mut open = false;
        for i in 0..n {
            if status[i].is_some() {
                continue;
            }
            if let Some(k) = &mut kids[i] {
                match k.try_wait() {
                    Ok(Some(s)) => {
                        status[i] = Some(s);
                        if s.code() != Some(0) && first_fail.is_none() {
                            first_fail = Some(Instant::now());
                        }
                    }
                    Ok(None) => open = true,
                    Err(_) => open = true,
                }
            }
        }
        if !open {
            break;
        }
        // A failure in one worker decides the check; give the others a little time to also
        // report (a smaller reproduction may be among them).
        let over = t0.elapsed() > limit;
        let enough = first_fail.map(|t| t.elapsed() > Duration::from_secs(10)).unwrap_or(false);
        if over || enough {
            for k in kids.iter_mut().flatten() {
                let _ = k.kill();
                let _ = k.wait();
            }
            if over && first_fail.is_none() {
                eprintln!("ERROR property={} time limit of the check reached (inconclusive)", prop.id);
                let _ = fs::remove_dir_all(&work);
                return 2;
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut evals = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let (mut edges, mut edges_total, mut corpus) = (0u64, 0u64, 0u64);
    let mut fails: Vec<Failure> = Vec::new();
    let mut died: Vec<String> = Vec::new();
    for w in 0..n {
        let txt = fs::read_to_string(work.join(format!("out.{w}"))).unwrap_or_default();
        let complete = txt.ends_with("end\n");
        if !complete {
            if let Some(s) = status[w] {
                died.push(format!("worker {w} ended with {s}; {}", last_case(&work, w as u64)));
            }
            continue;
        }
        let mut f = Failure { worker: w as u64, choices: vec![], msg: String::new(), rendering: String::new() };
        let mut has = false;
        let mut mine = 0;
        for l in txt.lines() {
            let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "evaluations" => evals += rest.parse::<u64>().unwrap_or(0),
                "edges" => {
                    let (a, b) = rest.split_once(' ').unwrap_or(("0", "0"));
                    edges = edges.max(a.parse().unwrap_or(0));
                    edges_total = edges_total.max(b.parse().unwrap_or(0));
                }
                "corpus" => corpus += rest.parse::<u64>().unwrap_or(0),
                "label" => {
                    if let Some((c, l)) = rest.split_once(' ') {
                        *labels.entry(l.to_string()).or_insert(0) += c.parse::<u64>().unwrap_or(0);
                    }
                }
                "known" => {
                    if let Some((c, l)) = rest.split_once(' ') {
                        *known.entry(l.to_string()).or_insert(0) += c.parse::<u64>().unwrap_or(0);
                    }
                }
                "sample" => {
                    if mine < 3 {
                        samples.push(rest.to_string());
                        mine += 1;
                    }
                }
                "fail" => {
                    has = true;
                    f.choices = rest.split(',').filter_map(|x| x.parse().ok()).collect();
                }
                "failmsg" => f.msg = rest.to_string(),
                "failcase" => f.rendering = rest.to_string(),
                _ => {}
            }
        }
        if has {
            fails.push(f);
        }
        if let Ok(h) = fs::read(work.join(format!("hash.{w}"))) {
            for c in h.chunks_exact(8) {
                nontrivial.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    // a worker killed by a signal while executing the code under test
    let _ = fs::remove_dir_all(&work);
    let mut rc = 0;
    if !fails.is_empty() {
        fails.sort_by_key(|f| (f.msg.ends_with(ALONE), f.choices.len(), f.choices.clone()));
        let f = &fails[0];
        let dir = o.root.join("replays");
        let _ = fs::create_dir_all(&dir);
        let name = format!("{}-{:016x}.replay", prop.id, hash_u64s(&f.choices));
        let path = dir.join(&name);
        let mut body = format!(
            "property {}\nseed {}\nextra {}\nchoices {}\nmessage {}\ncase {}\n",
            prop.id,
            o.seed,
            o.extra,
            f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
            f.msg,
            f.rendering
        );
        let mut saved = fs::write(&path, &body);
        // A failure that depends on what was done before is replayed with all of that.
        let alone = Command::new(&me).arg("replay").arg(&path).stdin(Stdio::null()).stdout(Stdio::null()).status();
        if saved.is_ok() && alone.is_ok_and(|s| s.code() == Some(0)) {
            body.push_str(&format!("history {} {}\n", if o.thorough { "thorough" } else { "quick" }, f.worker));
            saved = fs::write(&path, &body);
        }
        if saved.is_err() {
            eprintln!("cannot write {}", path.display());
        }
        println!("property {} is violated: {}", prop.id, f.msg);
        println!("minimal case: {}", f.rendering);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        rc = 1;
    } else if !died.is_empty() {
        for d in &died {
            eprintln!("ERROR property={} {d}", prop.id);
        }
        rc = 2;
    }
    for (k, n) in &known {
        println!("KNOWN-FINDING: property={} {k} ({n} generated cases)", prop.id);
    }
    let mut j = String::new();
    j.push_str("{\n");
    j.push_str(&format!(" \"property\": {},\n", jstr(prop.id)));
    j.push_str(&format!(" \"tier\": \"{}\",\n", if o.thorough { "thorough" } else { "quick" }));
    j.push_str(&format!(" \"seed\": {},\n", o.seed));
    j.push_str(&format!(" \"level\": {},\n", jstr(prop.level)));
    j.push_str(" \"coverage\": {\n");
    j.push_str(&format!("  \"evaluations\": {evals},\n"));
    j.push_str(&format!("  \"distinct_nontrivial\": {},\n", nontrivial.len()));
    j.push_str(&format!("  \"rule\": {},\n", jstr(prop.rule)));
    j.push_str(&format!("  \"exhaustive\": {},\n", prop.exhaustive));
    j.push_str(&format!("  \"edges_covered_by_one_worker\": {edges},\n  \"edges_instrumented\": {edges_total},\n  \"corpus_entries\": {corpus},\n"));
    j.push_str("  \"classes\": {");
    j.push_str(
        &labels.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", "),
    );
    j.push_str("},\n  \"samples\": [");
    j.push_str(&samples.iter().take(16).map(|s| jstr(s)).collect::<Vec<_>>().join(",\n   "));
    j.push_str("]\n },\n");
    j.push_str(" \"assumptions\": [");
    j.push_str(&prop.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
    j.push_str("],\n");
    j.push_str(&format!(" \"wall_s\": {:.2},\n", o.start.elapsed().as_secs_f64() + o.build_s));
    j.push_str(&format!(" \"violations\": {}\n", u64::from(rc == 1)));
    j.push_str("}\n");
    let ev = o.root.join("evidence");
    let _ = fs::create_dir_all(&ev);
    if let Err(e) = fs::write(ev.join(format!("{}.json", prop.id)), j) {
        eprintln!("cannot write evidence: {e}");
        if rc == 0 {
            rc = 2;
        }
    }
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {} of {} edges, {:.1} s (+{:.1} s build)",
        prop.id,
        evals,
        nontrivial.len(),
        edges,
        edges_total,
        o.start.elapsed().as_secs_f64(),
        o.build_s
    );
    rc
}

fn last_case(work: &Path, w: u64) -> String {
    match fs::read(work.join(format!("cur.{w}"))) {
        Ok(b) if b.len() >= 24 => {
            let n = u64::from_le_bytes(b[0..8].try_into().unwrap());
            let l = u64::from_le_bytes(b[16..24].try_into().unwrap()) as usize;
            let ch: Vec<String> = b[24..]
                .chunks_exact(8)
                .take(l)
                .map(|c| u64::from_le_bytes(c.try_into().unwrap()).to_string())
                .collect();
            format!("last case number {n}, choice prefix [{}]", ch.join(","))
        }
        _ => "no case recorded".into(),
    }
}

/// Entry point of every harness binary:
/// `run ID TIER`, `replay FILE`, `worker …`.
pub fn main(props: &[Prop]) -> ! {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| -> &Prop {
        match props.iter().find(|p| p.id == id) {
            Some(p) => p,
            None => {
                eprintln!("unknown property {id}");
                exit(2)
            }
        }
    };
    match a.get(1).map(|s| s.as_str()) {
        Some("run") if a.len() >= 4 => {
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.trim().parse::<u64>().ok())
                .unwrap_or(1);
            let o = Opts {
                prop: a[2].clone(),
                thorough: a[3] == "thorough",
                seed,
                root: PathBuf::from(std::env::var("VH_ROOT").unwrap_or_else(|_| ".".into())),
                start: Instant::now(),
                build_s: std::env::var("VH_BUILD_S").ok().and_then(|s| s.parse().ok()).unwrap_or(0.0),
                extra: std::env::var("VH_EXTRA").unwrap_or_default(),
            };
            let p = find(&o.prop);
            exit(parent(p, &o))
        }
        Some("worker") if a.len() >= 7 => {
            let p = find(&a[2]);
            exit(worker(
                p,
                a[3] == "thorough",
                a[4].parse().unwrap_or(1),
                a[5].parse().unwrap_or(0),
                Path::new(&a[6]),
            ))
        }
        Some("replay") if a.len() >= 3 => {
            let t = match fs::read_to_string(&a[2]) {
                Ok(t) => t,
                Err(e) => {
                    eprintln!("{e}");
                    exit(2)
                }
            };
            let get = |k: &str| {
                t.lines()
                    .find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(' ')))
                    .unwrap_or("")
                    .to_string()
            };
            let p = find(&get("property"));
            let ch: Vec<u64> = get("choices").split(',').filter_map(|x| x.parse().ok()).collect();
            let (r, desc) = render(p, &ch);
            println!("case: {desc}");
            match r {
                Ok(()) => {
                    let h = get("history");
                    if let Some((tier, w)) = h.split_once(' ') {
                        let out = PathBuf::from(std::env::var("VH_ROOT").unwrap_or_else(|_| ".".into()))
                            .join("work")
                            .join(format!("replay-{}", std::process::id()));
                        let _ = fs::create_dir_all(&out);
                        let w: u64 = w.parse().unwrap_or(0);
                        let rc = worker(p, tier == "thorough", get("seed").parse().unwrap_or(1), w, &out);
                        let o = fs::read_to_string(out.join(format!("out.{w}"))).unwrap_or_default();
                        let _ = fs::remove_dir_all(&out);
                        if rc == 1 {
                            let m = o.lines().find_map(|l| l.strip_prefix("failmsg ")).unwrap_or("");
                            println!("with the cases before it, property {} is violated: {m}", p.id);
                            println!("VIOLATION property={} replay={}", p.id, a[2]);
                            exit(1)
                        }
                    }
                    println!("property {} holds on this case", p.id);
                    exit(0)
                }
                Err(m) => {
                    println!("property {} is violated: {m}", p.id);
                    println!("VIOLATION property={} replay={}", p.id, a[2]);
                    exit(1)
                }
            }
        }
        _ => {
            eprintln!("usage: run ID quick|thorough | replay FILE");
            exit(2)
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for (i, x) in b.iter().enumerate() {
        if i == 96 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{x:02x}"));
    }
    s
}
