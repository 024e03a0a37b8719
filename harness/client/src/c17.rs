//! C17: the simulator connection against a scripted peer.
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tpm2_client::connection::{Connection, SimulatorPlatformSignal as Sig, TcpConnection};
use vh_engine::{hash64, hex, Ctx, Prop, Src};

/// A loopback address of this process's own, so that port numbers cannot collide.
pub fn own_ip() -> String {
    let p = std::process::id();
    format!("127.{}.{}.{}", 1 + (p >> 16) % 250, (p >> 8) & 255, 1 + (p & 255) % 250)
}

/// What the client's reads do during an operation.  `recv` is the harness's own, in front of the
/// system's: it can deliver less than is there, and it notices a client that goes on reading after
/// the end of the data for ever, without measuring time.
mod reads {
    use std::cell::Cell;
    thread_local! {
        static MOST: Cell<usize> = const { Cell::new(0) };
        static ENDS: Cell<u32> = const { Cell::new(0) };
    }
    const PATIENCE: u32 = 20_000;
    pub fn begin(most: usize) {
        MOST.set(most);
        ENDS.set(0);
    }
    /// Whether the end was met so often that it was not going to stop.
    pub fn end() -> bool {
        MOST.set(0);
        ENDS.get() > PATIENCE
    }
    #[cfg(all(target_arch = "x86_64", target_os = "linux"))]
    mod system {
        use super::*;
        use std::ffi::{c_int, c_long, c_void};
        extern "C" {
            fn syscall(n: c_long, ...) -> c_long;
            fn __errno_location() -> *mut c_int;
        }
        const RECVFROM: c_long = 45;
        const EIO: c_int = 5;
        #[no_mangle]
        unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, len: usize, flags: c_int) -> isize {
            let most = MOST.get();
            let n = if most == 0 { len } else { len.min(most) };
            let r = syscall(RECVFROM, fd, buf, n, flags, 0usize, 0usize) as isize;
            if r == 0 && n > 0 && most > 0 {
                ENDS.set(ENDS.get() + 1);
                if ENDS.get() > PATIENCE {
                    *__errno_location() = EIO;
                    return -1;
                }
            }
            r
        }
    }
}

#[derive(Clone, Debug)]
enum Op {
    Transact { cmd: Vec<u8>, room: usize },
    Hcrtm(Vec<u8>),
    Handshake(u32),
    AltResult(u32),
    Signal(usize),
    Reinit,
    FailureMode,
    Sizes,
    Act(u32),
    FwHash(u32),
    FwSvn(u32),
    Locality(u8),
    SessionEnd,
    Stop,
}
const SIGNALS: [(Sig, u32); 12] = [
    (Sig::PowerOn, 1),
    (Sig::PowerOff, 2),
    (Sig::PhysicalPresenceOn, 3),
    (Sig::PhysicalPresenceOff, 4),
    (Sig::CancelOn, 9),
    (Sig::CancelOff, 10),
    (Sig::NvOn, 11),
    (Sig::NvOff, 12),
    (Sig::KeyCacheOn, 13),
    (Sig::KeyCacheOff, 14),
    (Sig::Reset, 17),
    (Sig::Restart, 18),
];

const TPM: usize = 0;
const PLAT: usize = 1;

/// A message to a socket, and the reply to it (without terminator; `None`: no reply at all).
struct Msg {
    sock: usize,
    bytes: Vec<u8>,
    reply: Option<Vec<u8>>,
}
fn msg(sock: usize, words: &[u32], tail: &[u8], reply: &[u8]) -> Msg {
    let mut b: Vec<u8> = words.iter().flat_map(|w| w.to_be_bytes()).collect();
    b.extend(tail);
    Msg { sock, bytes: b, reply: Some(reply.to_vec()) }
}
/// The messages of an operation, with the data it is to return.
fn messages(op: &Op, loc: u8, data: &[u8]) -> Vec<Msg> {
    let sized = |d: &[u8]| [&(d.len() as u32).to_be_bytes()[..], d].concat();
    match op {
        Op::Transact { cmd, .. } => {
            let mut b = vec![0, 0, 0, 8, loc];
            b.extend((cmd.len() as u32).to_be_bytes());
            b.extend(cmd);
            vec![Msg { sock: TPM, bytes: b, reply: Some(sized(data)) }]
        }
        Op::Hcrtm(d) => vec![msg(TPM, &[5], &[], &[]), msg(TPM, &[6, d.len() as u32], d, &[]), msg(TPM, &[7], &[], &[])],
        Op::Handshake(v) => vec![msg(TPM, &[15, *v], &[], data)],
        Op::AltResult(v) => vec![msg(TPM, &[16, *v], &[], &[])],
        Op::Signal(i) => vec![msg(PLAT, &[SIGNALS[*i].1], &[], &[])],
        Op::Reinit => [12, 2, 1, 11].iter().map(|x| msg(PLAT, &[*x], &[], &[])).collect(),
        Op::FailureMode => vec![msg(PLAT, &[30], &[], &[])],
        Op::Sizes => vec![msg(PLAT, &[25], &[], &sized(data))],
        Op::Act(h) => vec![msg(PLAT, &[26, *h], &[], data)],
        Op::FwHash(h) => vec![msg(PLAT, &[35, *h], &[], &[])],
        Op::FwSvn(h) => vec![msg(PLAT, &[36, *h], &[], &[])],
        Op::Locality(_) => vec![],
        Op::SessionEnd => vec![Msg { reply: None, ..msg(TPM, &[20], &[], &[]) }, Msg { reply: None, ..msg(PLAT, &[20], &[], &[]) }],
        Op::Stop => vec![Msg { reply: None, ..msg(TPM, &[21], &[], &[]) }, Msg { reply: None, ..msg(PLAT, &[21], &[], &[]) }],
    }
}
/// Often makes the bytes look like a TPM command or response; the connection must not care.
fn tpm_header(s: &mut Src, b: &mut [u8], response: bool) {
    if b.len() < 10 || !s.chance(1, 2) {
        return;
    }
    let tag: u16 = *s.pick(&[0x8001, 0x8002, 0x00C4, 0xC1]);
    let size = match s.below(6) {
        0 => s.int(u32::MAX as u64) as u32,
        1 => (b.len() as u32).wrapping_add(s.below(3) as u32).wrapping_sub(1),
        _ => b.len() as u32,
    };
    let code = match s.below(8) {
        0 => s.int(u32::MAX as u64) as u32,
        1 => 0x100 + s.below(0x60) as u32,
        2 | 3 if response => 0x900 + s.below(0x30) as u32,
        4 if response => 0x80 + s.below(0x80) as u32,
        _ if response => 0,
        _ => 0x11F + s.below(0x80) as u32,
    };
    b[..2].copy_from_slice(&tag.to_be_bytes());
    b[2..6].copy_from_slice(&size.to_be_bytes());
    b[6..10].copy_from_slice(&code.to_be_bytes());
}
fn gen_op(s: &mut Src) -> Op {
    match s.below(17) {
        0..=4 => {
            let n = match s.below(6) {
                0 => 4090 + s.idx(10),
                1 => match s.chance(1, 20) {
                    true => 65_000 + s.idx(200_000),
                    _ => s.len(6000),
                },
                _ => s.len(60),
            };
            let room = match s.below(4) {
                0 if s.chance(1, 30) => 65_000 + s.idx(80_000),
                0 => 4096,
                1 => s.len(5000),
                _ => s.len(64),
            };
            let mut cmd = s.blob(n);
            tpm_header(s, &mut cmd, false);
            Op::Transact { cmd, room }
        }
        5 => {
            let n = match s.below(5) {
                0 if s.chance(1, 60) => 65_000 + s.idx(200_000),
                0 if s.chance(1, 20) => 65_000 + s.idx(3_000),
                0 => s.len(5000),
                _ => s.len(70),
            };
            Op::Hcrtm(s.blob(n))
        }
        6 => Op::Handshake(s.u32()),
        7 => Op::AltResult(s.u32()),
        8 | 9 => Op::Signal(s.idx(12)),
        10 => Op::Reinit,
        11 => Op::FailureMode,
        12 => Op::Sizes,
        13 => Op::Act(s.u32()),
        14 => {
            if s.chance(1, 2) {
                Op::FwHash(s.u32())
            } else {
                Op::FwSvn(s.u32())
            }
        }
        _ => Op::Locality(s.u8()),
    }
}

/// What the operation must return.
#[derive(PartialEq, Debug)]
enum Want {
    Data(Vec<u8>),
    /// An error after which the connection still works.
    ErrUsable,
    /// An error; nothing is said about the connection afterwards.
    Err,
}

/// Runs the operation; the data it returns in the form the peer sent them.
fn run(t: &mut TcpConnection, op: &Op, fill: u8) -> std::io::Result<Vec<u8>> {
    match op {
        Op::Transact { cmd, room } => {
            let mut b = vec![fill; *room];
            t.transact(cmd, &mut b).map(|r| r.to_vec())
        }
        Op::Hcrtm(d) => t.hcrtm_sequence(d).map(|_| vec![]),
        Op::Handshake(v) => {
            let r = t.remote_handshake(*v)?;
            Ok([r.server_version().to_be_bytes(), r.endpoint_info().to_be_bytes()].concat())
        }
        Op::AltResult(v) => t.set_alternative_result(*v).map(|_| vec![]),
        Op::Signal(i) => t.platform_signal(SIGNALS[*i].0).map(|_| vec![]),
        Op::Reinit => t.reinit().map(|_| vec![]),
        Op::FailureMode => t.test_failure_mode().map(|_| vec![]),
        Op::Sizes => {
            let r = t.get_command_response_sizes()?;
            // The simulator sends the sizes in its own byte order.
            Ok([
                r.largest_command_size().to_ne_bytes(),
                r.largest_command().to_be_bytes(),
                r.largest_response_size().to_ne_bytes(),
                r.largest_response().to_be_bytes(),
            ]
            .concat())
        }
        Op::Act(h) => t.act_get_signaled(*h).map(|r| r.to_be_bytes().to_vec()),
        Op::FwHash(h) => t.set_firmware_hash(*h).map(|_| vec![]),
        Op::FwSvn(h) => t.set_firmware_svn(*h).map(|_| vec![]),
        Op::Locality(l) => {
            t.set_locality(*l);
            Ok(vec![])
        }
        Op::SessionEnd => t.session_end().map(|_| vec![]),
        Op::Stop => t.stop_simulator().map(|_| vec![]),
    }
}

pub fn io<T>(r: std::io::Result<T>) -> T {
    r.unwrap_or_else(|e| {
        // The sandbox, not the code under test.
        eprintln!("the harness cannot use the loopback network: {e}");
        std::process::exit(2)
    })
}

/// Whether the sandbox has this address, and it is one address only.
fn usable(host: &str) -> bool {
    let Ok(a) = std::net::ToSocketAddrs::to_socket_addrs(&(host, 0)) else { return false };
    let mut a: Vec<_> = a.collect();
    a.dedup();
    a.len() == 1 && TcpListener::bind(a[0]).is_ok()
}

fn connect(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let ip = own_ip();
    // Default or given, for each port by itself.
    let default = match s.below(4) {
        0 => [false; 2],
        1 => [true, false],
        2 => [false, true],
        _ => [true; 2],
    };
    let mut up = [s.chance(1, 2), s.chance(1, 2)];
    // Addresses other processes use as well: only with ports nobody else can have meanwhile.
    let mut ip = ip;
    if default == [false; 2] {
        let other = *s.pick(&["", "::1", "localhost"]);
        if other != "" && usable(other) {
            ip = other.into();
            up = [true; 2];
        }
    }
    c.describe(|| format!("connecting to {ip} with the ports open: {up:?}, the default ones: {default:?}"));
    c.label("connecting");
    let bind = |p: u16| io(TcpListener::bind((ip.as_str(), p)));
    let ports = [if default[0] { 2321 } else { 0 }, if default[1] { 2322 } else { 0 }];
    let l: Vec<TcpListener> = ports.iter().map(|p| bind(*p)).collect();
    let at: Vec<u16> = l.iter().map(|x| io(x.local_addr()).port()).collect();
    // A listener that is dropped leaves a port nobody else uses on this address.
    let l: Vec<Option<TcpListener>> = l.into_iter().zip(up).map(|(x, u)| u.then_some(x)).collect();
    let arg = |i: usize| (!default[i]).then_some(at[i]);
    let r = TcpConnection::connect(&ip, arg(0), arg(1));
    if r.is_ok() != (up[0] && up[1]) {
        return Err(format!("connected: {} with the ports open: {up:?}", r.is_ok()));
    }
    if let Ok(t) = r {
        // Both listeners have a connection waiting.
        for x in l.iter().flatten() {
            io(x.set_nonblocking(true));
            if x.accept().is_err() {
                return Err("one of the ports was not connected to".into());
            }
        }
        drop(t);
    }
    Ok(())
}

/// Operations answered by a slow peer.
const SLOW: [fn() -> Op; 8] = [
    || Op::Transact { cmd: vec![7; 30], room: 200 },
    || Op::Sizes,
    || Op::Transact { cmd: vec![7; 30], room: 20 },
    || Op::Handshake(3),
    || Op::Act(5),
    || Op::Signal(0),
    || Op::Hcrtm(vec![1; 9]),
    || Op::Reinit,
];
fn slow_seeds(thorough: bool) -> Vec<Vec<u64>> {
    // In milliseconds; sequences of messages have several pauses.
    let ms = |k: usize| [6000, 2000][usize::from(k >= 6)] / 2 * if thorough { 10 } else { 1 };
    // The last two choices: a reply of 50 bytes, or one too large, where there is a choice.
    (0..SLOW.len()).map(|k| vec![0, k as u64 + 1, ms(k), 0, if k == 0 { 7 } else { 1 }, 50]).collect()
}

fn case(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    if s.chance(1, 30) {
        return connect(s, c);
    }
    // A peer that takes its time, for one operation of this kind.
    let slow = s.directed(SLOW.len() as u64 + 1) as usize;
    // It thinks for so long before each reply, and again in the middle of it.
    let pause = Duration::from_millis(if slow > 0 { s.below(60_000) } else { 0 });
    // The script: operations, what the peer sends on each socket, and what must come of it.
    let n = match s.chance(1, 40) {
        _ if slow > 0 => 1,
        true => 20 + s.len(100),
        _ => 1 + s.len(7),
    };
    let mut loc = 0u8;
    let mut ops: Vec<(Op, Want)> = Vec::new();
    let mut sent: [Vec<u8>; 2] = Default::default();
    // In the order of the operations: socket and bytes; then where the peer stops sending.
    // Third: how much the client must have sent before, on that socket.
    let mut script: Vec<(usize, Vec<u8>, usize)> = Vec::new();
    let mut broken = false;
    for i in 0..n {
        let op = if slow > 0 {
            SLOW[slow - 1]()
        } else if i + 1 == n && s.chance(1, 4) {
            if s.chance(1, 2) {
                Op::SessionEnd
            } else {
                Op::Stop
            }
        } else {
            gen_op(s)
        };
        if let Op::Locality(l) = op {
            loc = l;
        }
        let data = match &op {
            Op::Transact { room, .. } => {
                let k = match s.below(8) {
                    0 => *room,
                    1 if s.chance(1, 12) => *room + match s.below(8) {
                        0 => s.idx(2_000_000),
                        1 | 2 => 60_000 + s.idx(20_000),
                        _ => s.idx(40_000),
                    },
                    1 => *room + 1 + s.len(3000),
                    2 => s.len(6000),
                    _ => s.len(*room),
                };
                let mut d = s.blob(k);
                tpm_header(s, &mut d, true);
                d
            }
            Op::Handshake(_) => s.blob(8),
            Op::Sizes => s.blob(16),
            Op::Act(_) => s.blob(4),
            _ => vec![],
        };
        let ms = messages(&op, loc, &data);
        let replies = ms.iter().filter(|m| m.reply.is_some()).count();
        // A fault in one of the replies?
        let fault = (replies > 0 && s.chance(1, if n >= 20 { 80 } else { 6 })).then(|| (s.idx(ms.len()), s.below(6)));
        let mut want = match &op {
            Op::Transact { room, .. } if data.len() > *room => Want::ErrUsable,
            _ => Want::Data(data.clone()),
        };
        for (j, m) in ms.into_iter().enumerate() {
            sent[m.sock].extend(&m.bytes);
            let Some(mut r) = m.reply else { continue };
            let end = r.len();
            r.extend([0; 4]);
            if fault.map(|f| f.0) == Some(j) {
                want = Want::Err;
                broken = true;
                match fault.unwrap().1 {
                    // a terminator that is not zero
                    0 | 1 => {
                        let k = end + s.idx(4);
                        r[k] = if s.chance(1, 2) { 1 << s.below(8) } else { 1 + s.below(255) as u8 };
                    }
                    // the connection ends early
                    2 | 3 => {
                        let k = s.idx(r.len());
                        r.truncate(k);
                    }
                    // nothing at all
                    4 => r.clear(),
                    // a size that is wrong
                    _ => match &op {
                        Op::Sizes => {
                            let l = match s.below(6) {
                                // right in the low bits only
                                4 => 16 | (s.u32() << 8),
                                5 => 16 | 1 << (8 + s.below(24)),
                                0 => s.u32(),
                                1 => 15,
                                2 => 17,
                                _ => s.below(64) as u32,
                            };
                            let l = if l == 16 { 0 } else { l };
                            r[..4].copy_from_slice(&l.to_be_bytes());
                        }
                        Op::Transact { .. } => {
                            // more than ever comes
                            let l = (data.len() as u32 + 5).saturating_add(s.int(u32::MAX as u64) as u32);
                            r[..4].copy_from_slice(&l.to_be_bytes());
                        }
                        _ => r.clear(),
                    },
                }
                script.push((m.sock, r, sent[m.sock].len()));
                break;
            }
            script.push((m.sock, r, sent[m.sock].len()));
        }
        ops.push((op, want));
        if broken {
            break;
        }
    }
    // How the bytes are cut up on their way.
    let cut = s.below(4);
    let piece = 1 + s.idx(9);
    let fill = s.u8();
    // How much one read gets at most.
    let most = match s.below(4) {
        1 => 1 + s.idx(5),
        2 => 1 + s.idx(40),
        _ => usize::MAX,
    };
    if slow > 0 {
        c.describe(|| format!("peer pausing for {} ms: ", pause.as_millis()));
        c.label("slow peer");
    }
    c.describe(|| format!("{:?}, delivered in {} pieces", ops.iter().map(|(o, w)| (brief(o), brief_w(w))).collect::<Vec<_>>(), ["whole", "small", "small delayed", "whole, on request"][cut as usize]) + &if most < 99 { format!(", at most {most} bytes per read") } else { String::new() });
    c.nontrivial_key(hash64(&sent.concat()) ^ hash64(&script.iter().flat_map(|x| x.1.clone()).collect::<Vec<_>>()) ^ cut);
    c.label(if broken { "with a fault" } else { "without fault" });

    let ip = own_ip();
    let l = [io(TcpListener::bind((ip.as_str(), 0))), io(TcpListener::bind((ip.as_str(), 0)))];
    let port = |i: usize| io(l[i].local_addr()).port();
    let mut t = TcpConnection::connect(&ip, Some(port(TPM)), Some(port(PLAT))).map_err(|e| format!("not connected: {e}"))?;
    let peer: Vec<TcpStream> = l.iter().map(|x| io(x.accept()).0).collect();
    // One thread reads everything from each socket until the client closes it; one sends the whole
    // script, then closes the sending side of both, so that the client can wait for nothing in vain.
    let readers: Vec<_> = peer
        .iter()
        .map(|p| {
            let mut p = io(p.try_clone());
            let seen = Arc::new(AtomicUsize::new(0));
            let n = seen.clone();
            let h = std::thread::spawn(move || {
                let (mut b, mut x) = (Vec::new(), [0; 4096]);
                while let Ok(k @ 1..) = p.read(&mut x) {
                    b.extend(&x[..k]);
                    n.store(b.len(), Ordering::SeqCst);
                }
                b
            });
            (h, seen)
        })
        .collect();
    let seen: Vec<_> = readers.iter().map(|r| r.1.clone()).collect();
    let stuck = Arc::new(AtomicUsize::new(0));
    let stuck2 = stuck.clone();
    let writer = std::thread::spawn(move || {
        let mut peer = peer;
        for p in &peer {
            let _ = p.set_nodelay(true);
            let _ = p.set_write_timeout(Some(Duration::from_secs(30)));
        }
        let mut naps = 15;
        for (i, b, need) in &script {
            // The peer answers only what it was asked.
            let t0 = Instant::now();
            while cut == 3 && seen[*i].load(Ordering::SeqCst) < *need {
                let over = stuck2.load(Ordering::SeqCst) == 2;
                if over || t0.elapsed() > Duration::from_secs(30) {
                    stuck2.fetch_max(1, Ordering::SeqCst);
                    for p in &peer {
                        let _ = p.shutdown(Shutdown::Both);
                    }
                    return;
                }
                std::thread::yield_now();
            }
            std::thread::sleep(pause);
            let pieces = if slow > 0 {
                (b.len() / 2).max(1)
            } else if cut == 0 || cut == 3 || b.len() > 600 { b.len().max(1) } else { piece };
            for (k, x) in b.chunks(pieces).enumerate() {
                if k == 1 {
                    std::thread::sleep(pause);
                }
                if peer[*i].write_all(x).is_err() {
                    break;
                }
                if cut == 2 && naps > 0 {
                    naps -= 1;
                    std::thread::sleep(Duration::from_micros(20));
                }
            }
        }
        for p in &mut peer {
            let _ = p.shutdown(Shutdown::Write);
        }
    });
    let mut verdict = Ok(());
    for (op, want) in &ops {
        reads::begin(most);
        let r = vh_engine::catch(|| run(&mut t, op, fill));
        let bad = match (&r, want) {
            _ if reads::end() => Some("goes on reading for ever after the peer has closed the connection".into()),
            (Err(p), _) => Some(p.clone()),
            (Ok(Ok(d)), Want::Data(w)) if d == w => None,
            (Ok(Err(_)), Want::Err | Want::ErrUsable) => None,
            (Ok(r), w) => Some(format!("returned {} instead of {}", show(r), brief_w(w))),
        };
        c.more_evaluations(1);
        if stuck.load(Ordering::SeqCst) > 0 {
            verdict = Err(format!("{}: waited for the reply without having sent the whole request", brief(op)));
            break;
        }
        if let Some(b) = bad {
            verdict = Err(format!("{}: {b}", brief(op)));
            break;
        }
    }
    // Closing with replies unread would discard what the peer has not read yet.
    let t0 = Instant::now();
    while verdict.is_ok() && readers.iter().zip(&sent).any(|(r, s)| r.1.load(Ordering::SeqCst) < s.len()) && t0.elapsed() < Duration::from_secs(4) {
        std::thread::yield_now();
    }
    stuck.store(2, Ordering::SeqCst);
    drop(t);
    let got: Vec<Vec<u8>> = readers.into_iter().map(|r| r.0.join().unwrap_or_default()).collect();
    let _ = writer.join();
    verdict?;
    // After a fault inside a sequence of messages, the later messages are not sent.
    for i in [TPM, PLAT] {
        if got[i] != sent[i] {
            return Err(format!("on the {} port: sent {} instead of {}", ["tpm", "platform"][i], hex(&got[i]), hex(&sent[i])));
        }
    }
    Ok(())
}
fn brief(o: &Op) -> String {
    match o {
        Op::Transact { cmd, room } => format!("transact({} bytes, room {room})", cmd.len()),
        Op::Hcrtm(d) => format!("hcrtm({} bytes)", d.len()),
        Op::Signal(i) => format!("{:?}", SIGNALS[*i].0),
        o => format!("{o:x?}"),
    }
}
fn brief_w(w: &Want) -> String {
    match w {
        Want::Data(d) if d.is_empty() => "ok".into(),
        Want::Data(d) => format!("{} bytes {}", d.len(), hex(&d[..d.len().min(40)])),
        w => format!("{w:?}"),
    }
}
fn show(r: &std::io::Result<Vec<u8>>) -> String {
    match r {
        Ok(d) => format!("{} bytes {}", d.len(), hex(&d[..d.len().min(40)])),
        Err(e) => format!("error {e}"),
    }
}

pub fn prop() -> Prop {
    Prop {
        quick: 40_000,
        thorough: 2_500_000,
        quick_cov: 0,
        thorough_cov: 0,
        shrink: 1500,
        seeds: Some(slow_seeds),
        assumptions: &[
            "in three quarters of the histories the peer sends its replies ahead of the requests and never waits; in the rest it answers when the whole request has arrived; what is compared is the whole stream on each socket and the result of each operation",
            "nothing is required of the connection after an error other than a reply too large for the buffer",
            "sizes in the reply to GetCommandResponseSizes are in the byte order of this machine, as the simulator sends them",
        ],
        ..Prop::new("C17", case, "history of at least one operation, distinct by everything exchanged")
    }
}
