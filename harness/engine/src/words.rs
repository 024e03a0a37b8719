//! Byte strings written down in the code under test: a dictionary for generated contents, as fuzzers
//! use one.  What the code does with them is all that is judged.
use std::fs;
use std::path::Path;
use std::sync::OnceLock;

const MAX: usize = 24;

/// All string, byte-string and byte-array literals of at most 24 bytes, each once.
pub fn words() -> &'static [Vec<u8>] {
    static W: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    W.get_or_init(|| {
        let root = std::env::var("VH_REPO").unwrap_or_else(|_| "/repo".into());
        let mut v = Vec::new();
        for d in ["base", "marshalable", "marshalable-derive", "crates"] {
            walk(&Path::new(&root).join(d), &mut v);
        }
        v.retain(|w: &Vec<u8>| (2..=MAX).contains(&w.len()));
        v.sort();
        v.dedup();
        v
    })
}
fn walk(d: &Path, out: &mut Vec<Vec<u8>>) {
    let Ok(r) = fs::read_dir(d) else { return };
    for e in r.flatten() {
        let p = e.path();
        let n = e.file_name();
        let n = n.to_string_lossy();
        if p.is_dir() {
            if n != "target" && n != "tests" {
                walk(&p, out);
            }
        } else if n.ends_with(".rs") && n != "tests.rs" {
            if let Ok(t) = fs::read(&p) {
                literals(&t, out);
            }
        }
    }
}
fn literals(t: &[u8], out: &mut Vec<Vec<u8>>) {
    let mut i = 0;
    while i < t.len() {
        if t[i..].starts_with(b"//") {
            while i < t.len() && t[i] != b'\n' {
                i += 1;
            }
        } else if t[i] == b'\'' {
            // a character (or a lifetime)
            i += if t.get(i + 1) == Some(&b'\\') { 4 } else if t.get(i + 2) == Some(&b'\'') { 3 } else { 1 };
        } else if t[i] == b'"' {
            let mut w = Vec::new();
            i += 1;
            while i < t.len() && t[i] != b'"' {
                let c = t[i];
                i += 1;
                if c != b'\\' {
                    w.push(c);
                    continue;
                }
                let Some(e) = t.get(i) else { break };
                i += 1;
                match e {
                    b'n' => w.push(b'\n'),
                    b'r' => w.push(b'\r'),
                    b't' => w.push(b'\t'),
                    b'0' => w.push(0),
                    b'x' => {
                        let h = t.get(i..i + 2).and_then(|h| std::str::from_utf8(h).ok());
                        w.push(h.and_then(|h| u8::from_str_radix(h, 16).ok()).unwrap_or(0));
                        i += 2;
                    }
                    c => w.push(*c),
                }
            }
            i += 1;
            out.push(w);
        } else if t[i] == b'[' {
            let end = t[i..].iter().position(|c| *c == b']').map_or(t.len(), |k| i + k);
            let inner = String::from_utf8_lossy(&t[i + 1..end.max(i + 1)]);
            let w: Option<Vec<u8>> = inner.split(',').map(str::trim).filter(|x| !x.is_empty()).map(number).collect();
            out.extend(w);
            i += 1;
        } else {
            i += 1;
        }
    }
}
fn number(x: &str) -> Option<u8> {
    let x = x.trim_end_matches("u8").replace('_', "");
    match x.strip_prefix("0x") {
        Some(h) => u8::from_str_radix(h, 16).ok(),
        None => x.parse().ok(),
    }
}
