//! C20: the manager of the simulator process.
use crate::c17::{io, own_ip};
use std::ffi::{OsStr, OsString};
use std::fs;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tpm2_client::connection::{Connection, SimulatorPlatformSignal, TcpConnection, TcpSimulator};
use vh_engine::{hash64, hex, Ctx, Prop, Src};

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn setsockopt(fd: i32, level: i32, name: i32, value: *const [i32; 2], len: u32) -> i32;
}

// ---------------------------------------------------------------- the stand-in simulator

pub const SIM: &str = "vhsim";
/// Runs if the program was started under the stand-in's name.  It touches nothing outside the
/// directory its own path lies in, whatever directory it is started in.
pub fn sim() {
    let mut a = std::env::args_os();
    let me = PathBuf::from(a.next().unwrap_or_default());
    if !me.file_name().is_some_and(|n| n == SIM) {
        return;
    }
    let dir = me.parent().unwrap().to_path_buf();
    let mut rec = Vec::new();
    rec.extend_from_slice(std::env::current_dir().unwrap_or_default().as_os_str().as_bytes());
    for x in a {
        rec.push(0);
        rec.extend_from_slice(x.as_bytes());
    }
    announce(&dir.join("record"), &rec);
    let mode = fs::read_to_string(dir.join("mode")).unwrap_or_default();
    let w: Vec<&str> = mode.split(' ').collect();
    let t0 = Instant::now();
    match w[0] {
        // Exits when the file `stop` appears.
        "idle" => {
            while t0.elapsed() < Duration::from_secs(150) {
                if dir.join("stop").exists() {
                    announce(&dir.join("bye"), b"");
                    std::process::exit(0);
                }
                std::thread::sleep(Duration::from_millis(3));
            }
        }
        // Opens and announces its ports itself, and exits when told on both.
        "serve" => {
            let l: Vec<TcpListener> = (0..2).map(|_| TcpListener::bind((w[1], 0)).unwrap()).collect();
            for (i, name) in ["command.port", "platform.port"].iter().enumerate() {
                std::thread::sleep(Duration::from_millis(w[2 + i].parse().unwrap()));
                announce(&dir.join("cwd").join(name), format!("{}\n", l[i].local_addr().unwrap().port()).as_bytes());
            }
            let hs: Vec<_> = l
                .into_iter()
                .map(|l| {
                    std::thread::spawn(move || {
                        let mut b = Vec::new();
                        let _ = l.accept().unwrap().0.read_to_end(&mut b);
                        b
                    })
                })
                .collect();
            if hs.into_iter().all(|h| h.join().unwrap() == [0, 0, 0, 21]) {
                announce(&dir.join("bye"), b"");
            }
        }
        _ => (),
    }
    std::process::exit(0)
}
/// The file appears with its content, never without.
fn announce(p: &Path, b: &[u8]) {
    let t = p.with_extension("tmp");
    if fs::write(&t, b).is_ok() {
        let _ = fs::rename(&t, p);
    }
}

// ---------------------------------------------------------------- the peer of the manager

type Got = Arc<Mutex<[Vec<u8>; 2]>>;
/// Accepts one connection on each port and records what arrives; when both were told to stop,
/// leaves the file `stop`.
struct Peer {
    ports: [u16; 2],
    conns: Arc<Mutex<[Option<TcpStream>; 2]>>,
    got: Got,
}
fn told(b: &[u8]) -> bool {
    b.ends_with(&[0, 0, 0, 21])
}
impl Peer {
    fn listen(l: [TcpListener; 2], dir: PathBuf) -> Peer {
        let ports = [io(l[0].local_addr()).port(), io(l[1].local_addr()).port()];
        let conns: Arc<Mutex<[Option<TcpStream>; 2]>> = Default::default();
        let got: Got = Default::default();
        for (i, l) in l.into_iter().enumerate() {
            let (conns, got, dir) = (conns.clone(), got.clone(), dir.clone());
            std::thread::spawn(move || {
                io(l.set_nonblocking(true));
                let t0 = Instant::now();
                let mut s = loop {
                    match l.accept() {
                        Ok((s, _)) => break s,
                        Err(_) if t0.elapsed() < Duration::from_secs(60) && dir.exists() => std::thread::sleep(Duration::from_millis(1)),
                        Err(_) => return,
                    }
                };
                io(s.set_nonblocking(false));
                conns.lock().unwrap()[i] = Some(io(s.try_clone()));
                let mut b = [0; 256];
                while let Ok(n @ 1..) = s.read(&mut b) {
                    let mut g = got.lock().unwrap();
                    g[i].extend(&b[..n]);
                    if told(&g[0]) && told(&g[1]) {
                        announce(&dir.join("stop"), b"");
                    }
                }
            });
        }
        Peer { ports, conns, got }
    }
    fn conn(&self, i: usize) -> Option<TcpStream> {
        until(|| self.conns.lock().unwrap()[i].is_some());
        self.conns.lock().unwrap()[i].as_ref().map(|s| io(s.try_clone()))
    }
    /// Ends the connection; with `reset`, so that the other side's next write fails.
    fn cut(&self, i: usize, reset: bool) {
        if let Some(s) = self.conn(i) {
            if reset {
                unsafe { setsockopt(s.as_raw_fd(), 1, 13, &[1, 0], 8) };
            }
            // Wakes the reader, which drops its end; the last to go tells the other side.
            let _ = s.shutdown(std::net::Shutdown::Read);
            self.conns.lock().unwrap()[i] = None;
            let gone = Arc::strong_count(&self.got);
            drop(s);
            until(|| Arc::strong_count(&self.got) < gone);
        }
    }
}

/// Waits for something that must happen; false if it did not within a long time.
fn until(f: impl Fn() -> bool) -> bool {
    let t0 = Instant::now();
    let mut pause = 1;
    while t0.elapsed() < Duration::from_secs(20) {
        if f() {
            return true;
        }
        std::thread::sleep(Duration::from_millis(pause));
        pause = (pause * 2).min(16);
    }
    f()
}
/// Processes running under this program path (a process that has ended has no command line).
fn running(bin: &Path) -> Vec<i32> {
    let mut v = Vec::new();
    for e in fs::read_dir("/proc").into_iter().flatten().flatten() {
        let Some(pid) = e.file_name().to_str().and_then(|n| n.parse::<i32>().ok()) else { continue };
        if let Ok(c) = fs::read(e.path().join("cmdline")) {
            if c.split(|b| *b == 0).next() == Some(bin.as_os_str().as_bytes()) {
                v.push(pid);
            }
        }
    }
    v
}

/// A directory of the case's own, with the stand-in under a path nobody else uses; on drop, its
/// processes and files are removed.
struct Scratch {
    dir: PathBuf,
    bin: PathBuf,
    cwd: PathBuf,
}
impl Scratch {
    fn new(mode: &str) -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let root = PathBuf::from(std::env::var("VH_ROOT").unwrap_or_else(|_| "/tmp".into()));
        let dir = root.join("work").join("sim").join(format!("{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        let _ = fs::remove_dir_all(&dir);
        let (bin, cwd) = (dir.join(SIM), dir.join("cwd"));
        io(fs::create_dir_all(&cwd));
        io(std::os::unix::fs::symlink(io(std::env::current_exe()), &bin));
        io(fs::write(dir.join("mode"), mode));
        Scratch { dir, bin, cwd }
    }
    /// One of the paths which lead to the working directory.
    fn some_path(&self, s: &mut Src) -> PathBuf {
        let odd = |name: &[u8]| {
            let p = self.dir.join(OsStr::from_bytes(name));
            io(std::os::unix::fs::symlink(&self.cwd, &p));
            p
        };
        match 7 - s.below(8) {
            0 => odd(b"a b"),
            1 => odd("d\u{e9}\u{4e2d}".as_bytes()),
            2 => odd(b"\xff\xfe\n"),
            3 => {
                // Relative to where this process is.
                let up = io(std::env::current_dir()).components().count() - 1;
                PathBuf::from("../".repeat(up)).join(self.cwd.strip_prefix("/").unwrap())
            }
            4 => self.cwd.join("..").join("cwd").join(""),
            _ => self.cwd.clone(),
        }
    }
    fn has(&self, f: &str) -> bool {
        self.dir.join(f).exists()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        for p in running(&self.bin) {
            unsafe { kill(p, 9) };
        }
        // The manager leaves ended children to whoever started them.
        while unsafe { waitpid(-1, std::ptr::null_mut(), 1) } > 0 {}
        let _ = fs::remove_dir_all(&self.dir);
    }
}

fn gen_args(s: &mut Src) -> Vec<OsString> {
    let n = if s.chance(1, 60) { 5 + s.idx(300) } else { s.idx(5) };
    (0..n)
        .map(|_| match s.below(5) {
            1 if s.chance(1, 30) => OsString::from("x".repeat(1 + s.idx(9000))),
            0 => OsString::new(),
            1 => OsString::from(*s.pick(&["-rm", "--", "-p", "a b", "*", "$HOME", "'", "worker", "-1", "é"])),
            _ => {
                let k = s.len(12);
                OsString::from_vec(s.blob(k).into_iter().map(|b| if b == 0 { 1 } else { b }).collect())
            }
        })
        .collect()
}
fn port_text(s: &mut Src, p: u16) -> String {
    match s.below(4) {
        0 => format!("{p}"),
        1 => format!("{p}\r\n"),
        2 => format!(" {p} \n"),
        _ => format!("{p}\n"),
    }
}
/// Was it started as asked?
fn started(sc: &Scratch, args: &[OsString]) -> Result<(), String> {
    if !until(|| sc.has("record")) {
        return Err("the program was not started".into());
    }
    let rec = fs::read(sc.dir.join("record")).unwrap_or_default();
    let mut want = io(fs::canonicalize(&sc.cwd)).as_os_str().as_bytes().to_vec();
    for a in args {
        want.push(0);
        want.extend_from_slice(a.as_bytes());
    }
    if rec != want {
        return Err(format!("started as {:?} instead of {:?}", OsStr::from_bytes(&rec), OsStr::from_bytes(&want)));
    }
    if running(&sc.bin).len() != 1 {
        return Err(format!("{} simulator processes running", running(&sc.bin).len()));
    }
    Ok(())
}
fn none_left(sc: &Scratch, after: &str) -> Result<(), String> {
    if until(|| running(&sc.bin).is_empty()) {
        Ok(())
    } else {
        Err(format!("{after}: the simulator process is still running"))
    }
}
fn listeners(ip: &str) -> [TcpListener; 2] {
    [io(TcpListener::bind((ip, 0))), io(TcpListener::bind((ip, 0)))]
}

/// Ports of any size, where they can be had.
fn some_listeners(s: &mut Src, ip: &str) -> [TcpListener; 2] {
    let mut l = listeners(ip);
    for x in &mut l {
        let p = match 3 - s.below(4) {
            0 => *s.pick(&[2321u16, 2322, 1023, 80, 999, 65535, 1, 10000, 9999, 32767, 32768]),
            1 => 1 + s.u16() % 9999,
            _ => continue,
        };
        if let Ok(y) = TcpListener::bind((ip, p)) {
            *x = y;
        }
    }
    l
}

/// Starts a simulator.  Files and ports are waited for during seconds, so that after a minute the
/// start will not return any more.
fn start(bin: &Path, args: &[OsString], cwd: &Path, ip: &str) -> Result<std::io::Result<TcpSimulator>, String> {
    let (tx, rx) = std::sync::mpsc::channel();
    let (bin, args, cwd, ip) = (bin.to_path_buf(), args.to_vec(), cwd.to_path_buf(), ip.to_string());
    std::thread::spawn(move || {
        let _ = tx.send(vh_engine::catch(|| TcpSimulator::new(&bin, &args, &cwd, &ip)));
    });
    match rx.recv_timeout(Duration::from_secs(60)) {
        Ok(r) => r,
        Err(_) => Err("neither a simulator nor an error after a minute".into()),
    }
}

// ---------------------------------------------------------------- scenarios

/// Starts, uses and ends a simulator whose ports are this process's.  `late`: how long files and
/// ports take to appear, in milliseconds (command.port, platform.port, listening).
fn life(s: &mut Src, c: &mut Ctx, late: [u64; 3]) -> Result<(), String> {
    let sc = Scratch::new("idle");
    let ip = own_ip();
    let args = gen_args(s);
    let how = s.below(11);
    let used = s.chance(1, 2);
    let what = ["dropped", "dropped by a panic", "asked to stop nicely", "told to stop at once", "tpm connection lost", "platform connection lost", "both connections lost", "simulator already dead", "forgotten ports", "tpm connection closed by the simulator", "platform connection closed by the simulator"][how as usize];
    let txt: [String; 2];
    c.label(what);
    let l = some_listeners(s, &ip);
    let ports = [io(l[0].local_addr()).port(), io(l[1].local_addr()).port()];
    txt = [port_text(s, ports[0]), port_text(s, ports[1])];
    let given = sc.some_path(s);
    c.describe(|| format!("arguments {args:?}, directory {given:?}, files {txt:?} late by {late:?} ms, used {used}, {what}"));
    c.nontrivial_key(hash64(format!("{args:?}{how}{late:?}{used}").as_bytes()));
    let files = [sc.cwd.join("command.port"), sc.cwd.join("platform.port")];
    let mut helpers = Vec::new();
    for i in 0..2 {
        if late[i] == 0 {
            announce(&files[i], txt[i].as_bytes());
        } else {
            let (f, t, d) = (files[i].clone(), txt[i].clone(), late[i]);
            helpers.push(std::thread::spawn(move || {
                std::thread::sleep(Duration::from_millis(d));
                announce(&f, t.as_bytes());
            }));
        }
    }
    let peer = if late[2] == 0 {
        Some(Peer::listen(l, sc.dir.clone()))
    } else {
        drop(l);
        None
    };
    let (tx, rx) = std::sync::mpsc::channel();
    if late[2] > 0 {
        let (d, ip, dir) = (late[2], ip.clone(), sc.dir.clone());
        helpers.push(std::thread::spawn(move || {
            std::thread::sleep(Duration::from_millis(d));
            let l = ports.map(|p| io(TcpListener::bind((ip.as_str(), p))));
            let _ = tx.send(Peer::listen(l, dir));
        }));
    }
    let r = start(&sc.bin, &args, &given, &ip);
    for h in helpers {
        let _ = h.join();
    }
    let peer = match peer {
        Some(p) => p,
        None => rx.recv().unwrap(),
    };
    assert_eq!(peer.ports, ports);
    let mut t = r?.map_err(|e| format!("not started: {e}"))?;
    started(&sc, &args)?;
    let (Some(mut a), Some(mut b)) = (peer.conn(0), peer.conn(1)) else {
        return Err("it did not connect to both announced ports".into());
    };
    if used {
        // Which connection is which.
        io(a.write_all(&[0, 0, 0, 3, 7, 8, 9, 0, 0, 0, 0]));
        io(b.write_all(&[0, 0, 0, 0]));
        let mut buf = [0; 16];
        match t.connection_mut().transact(&[1, 2, 3, 4], &mut buf) {
            Ok(r) if *r == [7, 8, 9] => (),
            r => return Err(format!("a command over the manager's connection: {r:?}")),
        }
        t.connection_mut().platform_signal(SimulatorPlatformSignal::PowerOn).map_err(|e| format!("a signal over the manager's connection: {e}"))?;
        let _ = t.connection();
    }
    drop((a, b));
    let pid = running(&sc.bin).first().copied().unwrap_or(-1);
    match how {
        2 => t.stop_nicely().map_err(|e| format!("not stopped nicely: {e}"))?,
        3 => t.stop().map_err(|e| format!("not stopped: {e}"))?,
        4 => peer.cut(0, true),
        5 => peer.cut(1, true),
        6 => {
            peer.cut(0, true);
            peer.cut(1, true)
        }
        9 => peer.cut(0, false),
        10 => peer.cut(1, false),
        7 if pid > 0 => {
            unsafe { kill(pid, 9) };
            none_left(&sc, "killed by the harness")?;
        }
        _ => (),
    }
    if how == 2 || how == 3 {
        none_left(&sc, what)?;
        if (how == 2) != sc.has("bye") {
            return Err(format!("{what}: the simulator {}", if how == 2 { "was killed" } else { "was told instead of killed" }));
        }
    }
    if how == 1 {
        let _ = vh_engine::catch(|| {
            let _dropped = t;
            panic!("of the manager's user");
        });
    } else {
        vh_engine::catch(|| drop(t))?;
    }
    match how {
        0 | 1 | 8 => {
            if !until(|| peer.got.lock().unwrap().iter().all(|g| told(g))) {
                let got = peer.got.lock().unwrap().clone();
                return Err(format!("dropped, and the ports got {} and {}", hex(&got[0]), hex(&got[1])));
            }
            none_left(&sc, "told on both ports")?;
            if !sc.has("bye") {
                return Err("the simulator was told to stop on both ports, but also killed".into());
            }
        }
        4..=6 => {
            none_left(&sc, what)?;
            if sc.has("bye") {
                return Err("the simulator ended by itself".into());
            }
        }
        // Writing to a closed connection may succeed, so the manager need not have noticed.
        9 | 10 => {
            if !until(|| running(&sc.bin).is_empty() || told(&peer.got.lock().unwrap()[10 - how as usize])) {
                return Err(format!("{what}: neither told on its other port nor killed"));
            }
        }
        _ => none_left(&sc, what)?,
    }
    if matches!(how, 0 | 1 | 2 | 8) {
        // Exactly the stop message (after what was sent before).
        let mut want: [Vec<u8>; 2] = Default::default();
        if used {
            want[0] = vec![0, 0, 0, 8, 0, 0, 0, 0, 4, 1, 2, 3, 4];
            want[1] = vec![0, 0, 0, 1];
        }
        for i in 0..2 {
            want[i].extend([0, 0, 0, 21]);
            until(|| peer.got.lock().unwrap()[i].len() >= want[i].len());
            let g = peer.got.lock().unwrap();
            if g[i] != want[i] {
                return Err(format!("{what}: port {i} got {} instead of {}", hex(&g[i]), hex(&want[i])));
            }
        }
    }
    Ok(())
}

/// A start that must fail; afterwards nothing may be running.
fn failing(s: &mut Src, c: &mut Ctx, slow: bool) -> Result<(), String> {
    let sc = Scratch::new(if s.chance(1, 5) { "exit" } else { "idle" });
    let ip = own_ip();
    let args = gen_args(s);
    let files = [sc.cwd.join("command.port"), sc.cwd.join("platform.port")];
    let l = listeners(&ip);
    let ports = [io(l[0].local_addr()).port(), io(l[1].local_addr()).port()];
    let (mut bin, mut cwd) = (sc.bin.clone(), sc.cwd.clone());
    let which = s.idx(2);
    let what;
    let mut l: [Option<TcpListener>; 2] = l.map(Some);
    for i in 0..2 {
        announce(&files[i], format!("{}\n", ports[i]).as_bytes());
    }
    if slow {
        match s.below(4) {
            0 => {
                let _ = fs::remove_file(&files[which]);
                what = "port file missing";
            }
            1 => {
                let _ = fs::remove_file(&files[which]);
                io(fs::create_dir(&files[which]));
                what = "port file is a directory";
            }
            2 => {
                l[which] = None;
                what = "nobody listens on one port";
            }
            _ => {
                l = [None, None];
                what = "nobody listens";
            }
        }
    } else {
        match s.below(8) {
            0 => {
                bin = sc.dir.join("nonexistent");
                what = "no such program";
            }
            1 => {
                bin = sc.dir.join("mode");
                what = "program not executable";
            }
            2 => {
                cwd = sc.dir.join("nowhere");
                what = "no such directory";
            }
            _ => {
                let t = *s.pick(&["", "x", "70000", "-1", "12 34", "65536", "0x911", "2321x", "\n", "99999999999", "\u{661}", "1.5"]);
                announce(&files[which], t.as_bytes());
                what = "port file with something else than a port";
            }
        }
    }
    c.describe(|| format!("{what} (port {which}), arguments {args:?}"));
    c.label(what);
    c.nontrivial_key(hash64(format!("{what}{which}{args:?}").as_bytes()));
    let r = start(&bin, &args, &cwd, &ip)?;
    drop(l);
    if r.is_ok() {
        return Err(format!("{what}: started all the same"));
    }
    none_left(&sc, what)
}

/// A simulator that opens its own ports and announces them when it gets round to it.
fn whole(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let ip = own_ip();
    let (a, b) = (s.below(1200), s.below(1200));
    let sc = Scratch::new(&format!("serve {ip} {a} {b}"));
    let args = gen_args(s);
    c.describe(|| format!("simulator announcing its ports after {a} and {b} ms, arguments {args:?}"));
    c.label("whole life of a separate simulator");
    c.nontrivial_key(a << 32 | b);
    let mut t = start(&sc.bin, &args, &sc.cwd, &ip)?.map_err(|e| format!("not started: {e}"))?;
    started(&sc, &args)?;
    let nicely = s.chance(1, 3);
    if nicely {
        t.stop_nicely().map_err(|e| format!("not stopped nicely: {e}"))?;
        none_left(&sc, "stopped nicely")?;
    }
    drop(t);
    none_left(&sc, "dropped")?;
    if !sc.has("bye") {
        return Err("the simulator was not told to stop on both ports".into());
    }
    Ok(())
}

/// Connecting to ports that open after a while, or never.
fn retries(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let ip = own_ip();
    let never = s.chance(1, 4);
    let which = s.idx(3);
    let d = 100 + s.below(2300);
    let l = listeners(&ip);
    let ports = [io(l[0].local_addr()).port(), io(l[1].local_addr()).port()];
    c.describe(|| format!("connecting to ports of which {which} (2: both) {}", if never { "never opens".into() } else { format!("opens after {d} ms") }));
    c.label("connecting with retries");
    c.nontrivial_key(d << 8 | (which as u64) << 1 | never as u64);
    let mut l = l.map(Some);
    for i in 0..2 {
        if which == 2 || which == i {
            l[i] = None;
        }
    }
    let (tx, rx) = std::sync::mpsc::channel();
    let at = ip.clone();
    std::thread::spawn(move || {
        let _ = tx.send(vh_engine::catch(|| TcpConnection::connect_with_retries(&at, Some(ports[0]), Some(ports[1]))));
    });
    if !never {
        std::thread::sleep(Duration::from_millis(d));
        for i in 0..2 {
            if l[i].is_none() {
                l[i] = Some(io(TcpListener::bind((ip.as_str(), ports[i]))));
            }
        }
    }
    let r = rx.recv_timeout(Duration::from_secs(60)).map_err(|_| "neither a connection nor an error after a minute")??;
    match r {
        Err(_) if never => Ok(()),
        Ok(_) if never => Err("connected to a port nobody listens on".into()),
        Err(e) => Err(format!("not connected: {e}")),
        Ok(mut t) => {
            // An attempt that reached only one port may have been accepted there before.
            t.stop_simulator().map_err(|e| format!("not connected: {e}"))?;
            drop(t);
            for (i, l) in l.into_iter().flatten().enumerate() {
                io(l.set_nonblocking(true));
                let told = until(|| {
                    while let Ok((mut x, _)) = l.accept() {
                        let mut b = Vec::new();
                        io(x.set_nonblocking(false));
                        if x.read_to_end(&mut b).is_ok() && b == [0, 0, 0, 21] {
                            return true;
                        }
                    }
                    false
                });
                if !told {
                    return Err(format!("nothing arrived on port {i}"));
                }
            }
            Ok(())
        }
    }
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    match s.directed(9) {
        8 => return retries(s, c),
        0 => (),
        1 => return failing(s, c, true),
        2 => return whole(s, c),
        k => {
            let late = match k {
                3 => [100 + s.below(2300), 0, 0],
                4 => [0, 100 + s.below(2300), 0],
                5 => [100 + s.below(1500), 100 + s.below(2300), 0],
                _ => [0, 0, 100 + s.below(2300)],
            };
            return life(s, c, late);
        }
    }
    if s.chance(1, 4) {
        failing(s, c, false)
    } else {
        life(s, c, [0; 3])
    }
}
/// The scenarios that take seconds, in a fixed number.
fn seeds(thorough: bool) -> Vec<Vec<u64>> {
    let n = if thorough { 4 } else { 1 };
    let mut v = Vec::new();
    for r in 0..n {
        let mut g = vh_engine::Rng::new(0xC20 + r);
        for k in 1..=8u64 {
            for j in 0..8u64 {
                let mut x = vec![k];
                match k {
                    // exit or idle, arguments, which port, what
                    1 => x.extend([j % 2 * 4, 0, j / 4, j % 4]),
                    2 => x.extend([g.next() % 1200, g.next() % 1200, g.next() % 3, 3]),
                    8 => x.extend([(j == 0) as u64 * 3, j % 3, g.next() % 2300]),
                    5 => x.extend([g.next() % 1500, g.next() % 2300, 1, 1, j, j, j % 2]),
                    _ => x.extend([g.next() % 2300, 1, 1, j, j, j % 2]),
                }
                v.push(x);
            }
        }
    }
    v
}

pub fn prop() -> Prop {
    Prop {
        seeds: Some(seeds),
        quick: 2_000,
        thorough: 60_000,
        quick_cov: 0,
        thorough_cov: 0,
        workers: 24,
        shrink: 60,
        assumptions: &[
            "the simulator is a stand-in of the harness, and in most cases its ports are the harness's",
            "files and ports that appear late do so within 2.5 seconds, and a file appears with its content",
            "a process counts as left running if it is still there 20 seconds later",
        ],
        ..Prop::new("C20", case, "distinct by scenario, arguments and delays")
    }
}
