//! C19 to C22: what a listener, a forger and a stranger can do to encrypted sessions.
use std::collections::{BTreeMap, HashMap};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};

use tftp_dus::encryption::EncryptionLevel;

use crate::case::{hex, Case};
use crate::clock;
use crate::endpoints::*;
use crate::gen::*;
use crate::refcodec::Pk;
use crate::refcrypto::*;
use crate::rng::{drawn, Rng};
use crate::session::*;
use crate::storage::{Fault, Plan};
use crate::world::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cover {
    Data,
    Protocol,
    Full,
}

/// level of protection the user has asked for
fn cover(level: EncryptionLevel, knows_server: bool) -> Cover {
    match level {
        EncryptionLevel::Data | EncryptionLevel::OptionalData => Cover::Data,
        EncryptionLevel::Full => Cover::Full,
        EncryptionLevel::Protocol if knows_server => Cover::Full,
        _ => Cover::Protocol,
    }
}

fn long_name(r: &mut Rng) -> String {
    (0..r.range(10, 24)).map(|_| *r.pick(b"abcdefghijkmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789") as char).collect()
}

struct Sess {
    c: ClientSpec,
    cover: Cover,
    data: Vec<u8>,
    why: &'static str,
}

/// option names and values which must not show in a fully encrypted session
const WORDS: &[&str] = &["octet", "blksize", "windowsize", "timeout", "tsize", "enclevel", "spubk", "apubk"];

pub fn c19(case: &mut Case) {
    let mut r = case.rng.fork();
    let sk = sign_key(&mut r);
    let n_clients = *r.pick(&[1usize, 1, 1, 2, 3]);
    let max_blocks = if case.thorough { 60 } else { 20 };
    let mut s = ServerSpec {
        private_key: Some(sk.clone()),
        port_change: r.chance(0.3),
        prefer_seek: SEEK && r.chance(0.3),
        max_block_size: if r.chance(0.8) { MAX_BLOCK } else { block_size(&mut r) },
        max_window: if r.chance(0.8) { MAX_WINDOW } else { window(&mut r) },
        request_timeout_ms: 3000,
        ..ServerSpec::default()
    };
    let auth = r.chance(0.3).then(|| sign_key(&mut r));
    if let Some(k) = &auth {
        s.authorized = Some(vec![k.verifying_key()]);
    }
    let mut net = net(&mut r, 2.0);
    net.base_us = *r.pick(&[20, 300, 2_000]);
    net.icmp = r.chance(0.2);
    let mut list: Vec<Sess> = vec![];
    let mut files = vec![];
    for i in 0..n_clients {
        let upload = r.chance(0.5);
        let name = long_name(&mut r);
        let mut c = ClientSpec::new(i, upload, &name);
        c.level = *r.pick(&[EncryptionLevel::Data, EncryptionLevel::Protocol, EncryptionLevel::Protocol, EncryptionLevel::Full, EncryptionLevel::Full, EncryptionLevel::OptionalData, EncryptionLevel::OptionalProtocol]);
        c.block_size = block_size(&mut r);
        c.window = window(&mut r);
        c.prefer_seek = SEEK && r.chance(0.3);
        c.allow_port_change = true;
        c.retry_ms = *r.pick(&[80, 80, 80, 1000, 2000]);
        c.request_timeout_ms = 3000;
        if r.chance(0.3) {
            c.start_after = r.below(50_000);
        }
        if c.level == EncryptionLevel::Full || r.chance(0.3) {
            c.remote_key = Some(sk.verifying_key());
        }
        if auth.is_some() {
            c.private_key = auth.clone();
        } else if r.chance(0.2) {
            c.private_key = Some(sign_key(&mut r));
        }
        let cover = cover(c.level, c.remote_key.is_some());
        let eff = c.block_size.min(s.max_block_size);
        let sz = size(&mut r, payload(eff, c.level), if eff > 8000 { 8 } else { max_blocks });
        let data = unique_content(&mut r, sz);
        c.data = data.clone().into();
        let mut why = "";
        let mut exists = !upload;
        match r.below(14) {
            0 => {
                // missing file, or one that exists already
                why = "refused";
                exists = upload;
            }
            1 if auth.is_some() => {
                why = "stranger";
                c.private_key = r.chance(0.5).then(|| sign_key(&mut r));
            }
            2 => {
                why = "too large";
                s.max_file_size = s.max_file_size.min(1 + (sz / 2) as u64);
                c.tsize = Some(if upload { sz as u64 } else { 0 });
            }
            3 if !upload => {
                why = "client limit";
                c.max_file_size = (sz / 2) as u64;
                c.tsize = r.chance(0.5).then_some(0);
            }
            4 => {
                why = "client storage";
                c.plan = Plan { at: HashMap::from([(r.below(6), Fault::Error)]), ..Plan::default() };
            }
            5 => {
                why = "server storage";
                s.plans.insert(name.clone(), Plan { at: HashMap::from([(r.below(6), Fault::Error)]), ..Plan::default() });
            }
            6 => {
                why = "cut";
                let at = clock::START + r.below(30_000);
                let both = r.below(3);
                if both != 0 {
                    net.cut.push((Some(c.addr), None, at, u64::MAX));
                }
                if both != 1 {
                    net.cut.push((None, Some(c.addr), at, u64::MAX));
                }
            }
            _ => (),
        }
        if exists {
            files.push((name, data.clone()));
        }
        list.push(Sess { c, cover, data, why });
    }
    let srv_block = s.max_block_size;
    let mut x = Xfer::new(Some(s), list.iter().map(|l| l.c.clone()).collect(), net);
    for (n, d) in &files {
        x = x.file(n, d);
    }
    x.linger_us = 8_000_000;
    let o = run(case, x);
    basic(case, &o);
    let mut ring = Ring::new(&drawn(), &[scalar(&sk)]);
    let mut nonces = Nonces::default();
    let data_find: Vec<Finder> = list.iter().map(|l| Finder::new(&l.data)).collect();
    let by_addr: HashMap<SocketAddr, usize> = list.iter().enumerate().map(|(i, l)| (l.c.addr, i)).collect();
    // sizes of the packets after the handshake, sizes of the repeated request
    let mut sizes: Vec<BTreeMap<usize, u64>> = vec![Default::default(); list.len()];
    // the last plain request of a client which a thread has read and not answered
    let mut fresh: HashMap<(i32, usize), bool> = HashMap::new();
    let mut hidden = 0u64;
    for e in &o.log {
        match &e.ev {
            Ev::Recv { at, src, data, .. } if at.port() == 69 && *at == srv_addr() => {
                if let Some(i) = by_addr.get(src) {
                    if matches!(Pk::dec(data), Some(Pk::Rrq { .. } | Pk::Wrq { .. })) {
                        fresh.insert((e.actor, *i), true);
                    }
                }
            }
            Ev::Send { src, dst, data, n, real: true } => {
                let (i, from_client) = match (by_addr.get(src), by_addr.get(dst)) {
                    (Some(i), _) => (*i, true),
                    (_, Some(i)) => (*i, false),
                    _ => continue,
                };
                let l = &list[i];
                let what = || {
                    format!(
                        "{} of {} B level {} block {} {} {}: packet #{n} of the {}",
                        if l.c.upload { "upload" } else { "download" },
                        l.data.len(),
                        l.c.level,
                        l.c.block_size,
                        if l.c.remote_key.is_some() { "server key known" } else { "" },
                        l.why,
                        if from_client { "client" } else { "server" }
                    )
                };
                let sealed = classify(&mut ring, data);
                if let Some(p) = data_find[i].find(data) {
                    case.fail(format!("{} shows file content at byte {p}: {}", what(), hex(&data[p..], 16)));
                }
                if l.cover == Cover::Full {
                    let has = |w: &str| data.windows(w.len()).any(|x| x.eq_ignore_ascii_case(w.as_bytes()));
                    if has(&l.c.remote) {
                        case.fail(format!("{} shows the file name", what()));
                    }
                    if let Some(w) = WORDS.iter().find(|w| has(w)) {
                        case.fail(format!("{} shows the word {w}", what()));
                    }
                }
                let was_fresh = fresh.insert((e.actor, i), false) == Some(true);
                match &sealed {
                    Sealed::Initial { key, .. } => {
                        hidden += 1;
                        case.count("encrypted_requests", 1);
                        if let Some(m) = nonces.used(*key, &data[data.len() - KEY - NONCE..data.len() - KEY], *n) {
                            case.fail(format!("{} uses the nonce of packet #{m}", what()));
                        }
                        case.check(l.cover == Cover::Full && from_client, || format!("{} looks like a request", what()));
                        *sizes[i].entry(usize::MAX - data.len()).or_default() += 1;
                    }
                    Sealed::Whole { key, plain } => {
                        hidden += 1;
                        case.count("encrypted_packets", 1);
                        if let Some(m) = nonces.used(*key, &data[data.len() - NONCE..], *n) {
                            case.fail(format!("{} uses the nonce of packet #{m}", what()));
                        }
                        let skip = l.why == "stranger" && matches!(unpad(plain).as_deref().and_then(Pk::dec), Some(Pk::Error { .. }));
                        if !skip {
                            *sizes[i].entry(data.len()).or_default() += 1;
                        }
                    }
                    Sealed::Body { key, .. } => {
                        hidden += 1;
                        case.count("encrypted_bodies", 1);
                        if let Some(m) = nonces.used(*key, &data[data.len() - NONCE..], *n) {
                            case.fail(format!("{} uses the nonce of packet #{m}", what()));
                        }
                        case.check(l.cover == Cover::Data, || format!("{} shows its kind and block number {}", what(), hex(data, 8)));
                    }
                    Sealed::No => {
                        let pk = Pk::dec(data);
                        let hello = match &pk {
                            Some(Pk::Rrq { .. } | Pk::Wrq { .. }) => from_client,
                            Some(Pk::Oack { .. }) => !from_client,
                            // the refusal of a request which was in the clear itself
                            Some(Pk::Error { .. }) => !from_client && was_fresh,
                            _ => false,
                        };
                        match l.cover {
                            Cover::Full => case.fail(format!("{} is in the clear: {}", what(), hex(data, 40))),
                            Cover::Protocol => {
                                case.check(hello, || format!("{} is in the clear after the handshake: {}", what(), hex(data, 40)));
                            }
                            Cover::Data => {
                                case.check(hello || matches!(pk, Some(Pk::Ack { .. } | Pk::Error { .. })), || format!("{} is not encrypted with a key of the session: {}", what(), hex(data, 40)));
                            }
                        }
                    }
                }
            }
            _ => (),
        }
    }
    for (l, z) in list.iter().zip(&sizes) {
        let what = format!("{} of {} B level {} block {} {}", if l.c.upload { "upload" } else { "download" }, l.data.len(), l.c.level, l.c.block_size, l.why);
        let session: Vec<usize> = z.keys().copied().filter(|k| *k < 1 << 32).collect();
        let requests: Vec<usize> = z.keys().filter(|k| **k > 1 << 32).map(|k| usize::MAX - k).collect();
        case.check(session.len() <= 1 && requests.len() <= 1, || format!("{what}: encrypted packets of several sizes {session:?}, requests {requests:?}"));
        if let (Some(a), Some(b)) = (session.first(), requests.first()) {
            // the same size from the first packet on unless the server has lowered the block size
            case.check(a == b || l.c.block_size > srv_block, || format!("{what}: requests of {b} bytes, other packets of {a} bytes"));
        }
        case.count(&format!("sessions_{:?}", l.cover).to_lowercase(), 1);
        if !l.why.is_empty() {
            case.count("sessions_that_go_wrong", 1);
        }
    }
    case.nontrivial = hidden > 0;
    case.sample = Some(list.iter().map(|l| format!("{} {} B level {} {} -> {:?}", if l.c.upload { "up" } else { "down" }, l.data.len(), l.c.level, l.why, o.res(l.c.id).map(|r| r.ok))).collect::<Vec<_>>().join("; "));
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}

// ------------------------------------------------------------------------------------------------

/// what the attacker has done so far
#[derive(Default)]
struct Tricks {
    replaced: Vec<u64>,
    injected: u64,
    moved: u64,
    lib: Vec<Vec<u8>>,
}

pub fn c20(case: &mut Case) {
    let mut r = case.rng.fork();
    let upload = r.chance(0.5);
    let mut p = params(&mut r, upload, if case.thorough { 60 } else { 25 });
    if p.level == EncryptionLevel::None {
        p.level = *r.pick(&[EncryptionLevel::Data, EncryptionLevel::Protocol, EncryptionLevel::Full]);
    }
    // the level may have changed: what fits in a block as well
    p.size = size(&mut r, payload(p.block.min(p.srv_block), p.level), if p.block > 8000 { 10 } else { 25 });
    p.data = unique_content(&mut r, p.size);
    let (s, mut c) = pair(&mut r, &p);
    c.allow_port_change = true;
    let cover = cover(p.level, c.remote_key.is_some());
    let me = c.addr;
    // the block number of an encrypted data packet is not protected by the data level: see known-findings.txt
    let header_game = cover == Cover::Data && r.chance(0.02);
    // the other session whose packets are replayed
    let twin = r.chance(0.4);
    let mut clients = vec![c.clone()];
    if twin {
        let mut t = c.clone();
        t.id = 1;
        t.addr = cli_addr(1);
        t.remote = "twin.bin".into();
        clients.push(t);
    }
    let other = cli_addr(1);
    let rate = *r.pick(&[0.05, 0.2, 0.6, 1.0]);
    let mut replace_left = if header_game { 0 } else { *r.pick(&[0u64, 0, 1, 3, 10]) };
    let mut inject_left = *r.pick(&[3u64, 20, 200]);
    let fresh_keys: Vec<Key> = (0..3).map(|_| secret(&mut r)).collect();
    let tricks: Arc<Mutex<Tricks>> = Default::default();
    let t2 = tricks.clone();
    let mut held: Option<Bytes> = None;
    let plain_blocks = p.data.clone();
    let mitm: Mitm = Box::new(move |d, _now, rng| {
        let mut t = t2.lock().unwrap_or_else(|e| e.into_inner());
        let ours = d.src == me || d.dst == me;
        if !ours {
            if d.src == other || d.dst == other {
                if t.lib.len() < 64 {
                    t.lib.push(d.data.to_vec());
                } else {
                    let i = rng.below(64) as usize;
                    t.lib[i] = d.data.to_vec();
                }
            }
            return None;
        }
        let pk = Pk::dec(&d.data);
        let fair = match cover {
            Cover::Data => matches!(pk, Some(Pk::Data { .. })),
            // a handshake in the clear is not protected, an encrypted one is
            Cover::Protocol => !matches!(pk, Some(Pk::Rrq { .. } | Pk::Wrq { .. } | Pk::Oack { .. } | Pk::Error { .. })),
            Cover::Full => true,
        };
        if !fair {
            return None;
        }
        if header_game {
            // one encrypted block takes the place of another one
            if t.moved == 0 && d.data.len() > 60 {
                if let Some(old) = held.take() {
                    t.moved = 1;
                    let mut b = d.data.to_vec();
                    b[4..].iter_mut().zip(&old[4..]).for_each(|(a, o)| *a = *o);
                    if old.len() == b.len() {
                        return Some(vec![(300, Dgram { data: b.into(), ..d.clone() })]);
                    }
                    return None;
                }
                held = Some(d.data.clone());
            }
            return None;
        }
        if !rng.chance(rate) {
            return None;
        }
        let to_main = d.dst == srv_addr();
        let mut list = vec![];
        for _ in 0..rng.range(1, 3) {
            if inject_left == 0 {
                break;
            }
            let number = match &pk {
                Some(Pk::Data { block, .. }) => *block,
                _ => rng.below(12) as u16,
            };
            let mut b = match rng.below(10) {
                0 if !d.data.is_empty() => {
                    // one bit
                    let mut v = d.data.to_vec();
                    let from = if cover == Cover::Data { 4.min(v.len() - 1) } else { 0 };
                    let i = from + rng.below((v.len() - from) as u64) as usize;
                    v[i] ^= 1 << rng.below(8);
                    v
                }
                1 => {
                    let mut v = d.data.to_vec();
                    v.truncate(rng.below(v.len() as u64 + 1) as usize);
                    v
                }
                2 => {
                    let mut v = d.data.to_vec();
                    let n = rng.range(1, 50) as usize;
                    let e = rng.bytes(n);
                    if rng.chance(0.5) {
                        v.extend_from_slice(&e);
                    } else {
                        let at = if cover == Cover::Data { 4 } else { rng.below(v.len() as u64) as usize };
                        v.splice(at..at, e);
                    }
                    v
                }
                3 => {
                    // random bytes of the same or another size
                    let n = if rng.chance(0.5) { d.data.len() } else { *rng.pick(&[0usize, 1, 4, 39, 40, 41, 43, 44, 45, 100, 516]) };
                    rng.bytes(n)
                }
                4 | 5 => {
                    // a packet in the right form, made with another key
                    let k = rng.pick(&fresh_keys);
                    let n = rng.bytes(NONCE);
                    let inner = match rng.below(3) {
                        0 => Pk::Data { block: number, data: vec![0x5a; *rng.pick(&[0usize, 5, 400])] },
                        1 => Pk::Ack { block: number },
                        _ => Pk::Error { code: rng.below(8) as u16, msg: b"forged".to_vec() },
                    }
                    .enc();
                    if cover == Cover::Data {
                        let mut v = Pk::Data { block: number, data: vec![] }.enc();
                        let n2 = rng.below(400) as usize;
                        let body = rng.bytes(n2);
                        v.extend_from_slice(&seal(k, &body, &n));
                        v
                    } else {
                        seal(k, &pad(&inner, d.data.len().saturating_sub(41)), &n)
                    }
                }
                6 | 7 => {
                    // in the clear, with content from elsewhere
                    let at = rng.below(plain_blocks.len() as u64 + 1) as usize;
                    let n = rng.below(600) as usize;
                    let cut: Vec<u8> = plain_blocks[at..].iter().take(n).map(|c| c ^ 1).collect();
                    let e = match rng.below(4) {
                        0 if cover != Cover::Data => Pk::Ack { block: number },
                        1 if cover != Cover::Data => Pk::Error { code: rng.below(8) as u16, msg: b"forged".to_vec() },
                        2 if cover != Cover::Data => Pk::Oack { opts: vec![(b"blksize".to_vec(), b"600".to_vec())] },
                        _ => Pk::Data { block: number, data: cut },
                    };
                    e.enc()
                }
                _ if !t.lib.is_empty() => {
                    let v = rng.pick(&t.lib).clone();
                    // of another session; not its requests and replies, and only data at the data level
                    let k = Pk::dec(&v);
                    if cover == Cover::Data && !matches!(k, Some(Pk::Data { .. })) || cover == Cover::Protocol && k.is_some() {
                        continue;
                    }
                    v
                }
                _ => continue,
            };
            if cover == Cover::Data {
                // what is not a data packet is not protected at this level
                if b.len() < 4 {
                    b.resize(4, 0);
                }
                b[0] = 0;
                b[1] = 3;
                if let Some(Pk::Data { block, .. }) = &pk {
                    b[2..4].copy_from_slice(&block.to_be_bytes());
                }
                // another session's body under another session's number is a replay all the same
            }
            if to_main && matches!(Pk::dec(&b), Some(Pk::Rrq { .. } | Pk::Wrq { .. })) {
                continue;
            }
            // a request of the other session is a request in its own right
            if to_main && t.lib.contains(&b) {
                continue;
            }
            inject_left -= 1;
            t.injected += 1;
            list.push((50 + rng.below(500), Dgram { data: b.into(), ..d.clone() }));
        }
        if replace_left > 0 && rng.chance(0.5) {
            replace_left -= 1;
            t.replaced.push(d.n);
        } else {
            list.push((300, d.clone()));
        }
        Some(list)
    });
    let mut x = Xfer::new(Some(s), clients, Net { jitter_us: 0, ..Net::clean() });
    if !upload {
        x = x.file(NAME, &p.data);
        if twin {
            x = x.file("twin.bin", &p.data);
        }
    }
    x = x.setup(move |sh| sh.lock().mitm = Some(mitm));
    let o = run(case, x);
    basic(case, &o);
    let t = tricks.lock().unwrap_or_else(|e| e.into_inner());
    let what = format!("{} of {} B level {} block {} window {}, {} packets added, {} replaced", if upload { "upload" } else { "download" }, p.size, p.level, p.block, p.window, t.injected, t.replaced.len());
    case.nontrivial = t.injected > 0 || !t.replaced.is_empty() || t.moved > 0;
    case.count("forged_packets", t.injected);
    case.count("genuine_packets_removed", t.replaced.len() as u64);
    let Some(res) = o.res(0) else {
        case.fail(format!("{what}: the client did not return"));
        return;
    };
    let key = if upload { format!("srv/{NAME}") } else { "cli/0".to_string() };
    let same = o.fs.get(&key).map(|v| v[..] == p.data[..]) == Some(true);
    case.sample = Some(format!("{what} -> ok {} {}", res.ok, res.err));
    if header_game {
        case.count("blocks_exchanged", t.moved);
        if t.moved > 0 && res.ok && !same {
            case.known.push("data-level-block-number".into());
        }
        return;
    }
    case.check(!res.ok || same, || format!("{what}: success although the content differs"));
    crate::monitors::prefix(case, &o.log, &key, &p.data, &what);
    if !res.ok {
        let ids = crate::monitors::handles(&o.log, &key, true);
        let last = o.log.iter().rposition(|e| matches!(&e.ev, Ev::StoreWrite { id, data, .. } if ids.contains(id) && !data.is_empty())).unwrap_or(0);
        let ack = upload && same && o.log[last..].iter().any(|e| matches!(&e.ev, Ev::Send { src, n, real: true, .. } if src.ip() == srv_addr().ip() && t.replaced.contains(n)));
        if ack {
            case.count("final_ack_lost", 1);
        } else if t.replaced.len() > 2 {
            // many losses: how fast it recovers is C04's subject
            case.count("given_up_after_losses", 1);
        } else {
            case.fail(format!("{what}: the transfer failed: {}", res.err));
        }
    } else {
        case.check(res.count == p.size, || format!("{what}: {} bytes reported", res.count));
    }
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Auth {
    None,
    Listed,
    Unlisted,
    /// not a key at all
    Garbage,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Sig {
    None,
    Good,
    /// made for another session key
    Elsewhere,
    /// made by another key
    Foreign,
    Flipped,
    Garbage,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Sess2 {
    None,
    Good,
    Garbage,
}

struct Ask {
    me: SocketAddr,
    level: Option<&'static str>,
    auth: Auth,
    sig: Sig,
    sess: Sess2,
    wrapped: bool,
    read: bool,
    name: String,
    bytes: Vec<u8>,
    hs_key: Option<Key>,
}

pub fn c21(case: &mut Case) {
    let mut r = case.rng.fork();
    let sk = sign_key(&mut r);
    let listed: Vec<SignKey> = (0..r.range(1, 4)).map(|_| sign_key(&mut r)).collect();
    let has_list = r.chance(0.75);
    let empty = has_list && r.chance(0.1);
    let mut s = ServerSpec { port_change: r.chance(0.3), prefer_seek: SEEK && r.chance(0.3), request_timeout_ms: 3000, ..ServerSpec::default() };
    let has_key = r.chance(0.85);
    if has_key {
        s.private_key = Some(sk.clone());
    }
    if has_list {
        s.authorized = Some(if empty { vec![] } else { listed.iter().map(|k| k.verifying_key()).collect() });
        s.error_auth_only = r.chance(0.4);
    }
    s.require_full = has_key && r.chance(0.35);
    let n = r.range(1, 6) as usize;
    let mut asks = vec![];
    let mut files = vec![];
    let mut plan = vec![];
    for i in 0..n {
        let me = addr(21, i as u8 + 1, 3000 + i as u16);
        // mostly one flaw at a time
        let mut a = Ask {
            me,
            level: Some(*r.pick(&["data", "protocol", "full", "optional-data", "optional-protocol"])),
            auth: Auth::Listed,
            sig: Sig::Good,
            sess: Sess2::Good,
            wrapped: has_key && r.chance(0.5),
            read: r.chance(0.5),
            name: format!("file{i}-{}.bin", long_name(&mut r)),
            bytes: vec![],
            hs_key: None,
        };
        if a.level == Some("full") && r.chance(0.8) {
            a.wrapped = has_key;
        }
        for _ in 0..*r.pick(&[0u64, 1, 1, 1, 2, 5]) {
            match r.below(12) {
                0 => a.level = None,
                1 => a.level = Some("none"),
                2 => a.level = Some(*r.pick(&["", "FULL", "fulll", "1", "data ", "secret"])),
                3 => a.auth = Auth::None,
                4 | 5 => a.auth = Auth::Unlisted,
                6 => a.auth = Auth::Garbage,
                7 => a.sig = Sig::None,
                8 => a.sig = *r.pick(&[Sig::Elsewhere, Sig::Foreign, Sig::Flipped]),
                9 => a.sig = Sig::Garbage,
                10 => a.sess = *r.pick(&[Sess2::None, Sess2::Garbage]),
                _ => a.wrapped = !a.wrapped,
            }
        }
        let eph = secret(&mut r);
        let spk = public(&eph);
        let key = match a.auth {
            Auth::Unlisted => sign_key(&mut r),
            _ => r.pick(&listed).clone(),
        };
        let garbage = |r: &mut Rng| match r.below(4) {
            0 => String::new(),
            1 => "%%%%".to_string(),
            2 => {
                let n = r.range(33, 60) as usize;
                b64(&r.bytes(n))
            }
            _ => "A".repeat(r.range(1, 80) as usize),
        };
        let mut o: Vec<(Vec<u8>, Vec<u8>)> = vec![];
        if let Some(l) = a.level {
            o.push((b"enclevel".to_vec(), l.as_bytes().to_vec()));
        }
        match a.sess {
            Sess2::None => (),
            Sess2::Good => o.push((b"spubk".to_vec(), b64(&spk).into_bytes())),
            Sess2::Garbage => o.push((b"spubk".to_vec(), r.pick(&["%%%".to_string(), b64(&r.clone().bytes(40)), "====".into()]).clone().into_bytes())),
        }
        match a.auth {
            Auth::None => (),
            Auth::Garbage => {
                // must not decode to a key of the list either
                let g = garbage(&mut r);
                o.push((b"apubk".to_vec(), g.into_bytes()));
            }
            _ => o.push((b"apubk".to_vec(), b64(key.verifying_key().as_bytes()).into_bytes())),
        }
        match a.sig {
            Sig::None => (),
            Sig::Good => o.push((b"sig".to_vec(), b64(&sign(&key, &spk)).into_bytes())),
            Sig::Elsewhere => {
                let e = public(&secret(&mut r));
                o.push((b"sig".to_vec(), b64(&sign(&key, &e)).into_bytes()));
            }
            Sig::Foreign => {
                let k = sign_key(&mut r);
                o.push((b"sig".to_vec(), b64(&sign(&k, &spk)).into_bytes()));
            }
            Sig::Flipped => {
                let mut v = sign(&key, &spk);
                let i = r.below(v.len() as u64) as usize;
                v[i] ^= 1 << r.below(8);
                o.push((b"sig".to_vec(), b64(&v).into_bytes()));
            }
            Sig::Garbage => {
                let g = garbage(&mut r);
                o.push((b"sig".to_vec(), g.into_bytes()));
            }
        }
        if r.chance(0.3) {
            o.push((b"windowsize".to_vec(), b"4".to_vec()));
        }
        r.shuffle(&mut o);
        let (name, mode) = (a.name.as_bytes().to_vec(), b"octet".to_vec());
        let pk = if a.read { Pk::Rrq { name, mode, opts: o } } else { Pk::Wrq { name, mode, opts: o } };
        a.bytes = pk.enc();
        if a.wrapped {
            let hs = secret(&mut r);
            let sp = public(&scalar(&sk));
            a.hs_key = Some(dh(&hs, &sp));
            a.bytes = initial(&mut r, &hs, &sp, &a.bytes, 1024);
        }
        let data = {
            let n = r.range(20, 3000) as usize;
            unique_content(&mut r, n)
        };
        if a.read {
            files.push((a.name.clone(), data));
        }
        plan.push((r.below(30_000), me, srv_addr(), a.bytes.clone()));
        asks.push(a);
    }
    let err_auth_only = s.error_auth_only;
    let require_full = s.require_full;
    let addrs: Vec<SocketAddr> = asks.iter().map(|a| a.me).collect();
    let mut x = Xfer::new(Some(s), vec![], Net::clean());
    for (n, d) in &files {
        x = x.file(n, d);
    }
    x.linger_us = 300_000;
    let x = x.setup(move |sh| {
        sh.add_peer(&addrs, Box::new(crate::peers::Script1::new(plan)), 0);
    });
    let mut o = run(case, x);
    basic(case, &o);
    let got = std::mem::take(&mut o.peer::<crate::peers::Script1>(0).got);
    for a in &asks {
        let opened = a.wrapped && has_key;
        let understood = !a.wrapped || opened;
        let keyed = matches!(a.auth, Auth::Listed | Auth::Unlisted);
        let signed = keyed && a.sig == Sig::Good && a.sess == Sess2::Good;
        let encrypted = matches!(a.level, Some("data" | "protocol" | "optional-data" | "optional-protocol")) || a.level == Some("full") && opened;
        let authorized = understood && (!has_list || a.auth == Auth::Listed && !empty && signed && encrypted);
        let full_ok = !require_full || opened;
        let valid = match a.level {
            None | Some("none") => true,
            _ => encrypted && a.sess == Sess2::Good && (a.auth == Auth::None || signed),
        };
        let served_expected = authorized && full_ok && valid;
        let what = format!(
            "{} level {:?} key {:?} signature {:?} session key {:?} {}; server list {} full {} errors to authorized only {}",
            if a.read { "read" } else { "write" },
            a.level,
            a.auth,
            a.sig,
            a.sess,
            if a.wrapped { "encrypted request" } else { "plain request" },
            if empty { "empty".into() } else { has_list.to_string() },
            require_full,
            err_auth_only
        );
        let path = format!("srv/{}", a.name);
        let touched = o.log.iter().any(|e| matches!(&e.ev, Ev::StoreOpen { path: p, .. } if *p == path));
        let replies: Vec<&Vec<u8>> = got.iter().filter(|g| g.2 == a.me).map(|g| &g.3).collect();
        case.nontrivial = true;
        if served_expected {
            case.count("requests_served", 1);
            case.check(touched, || format!("{what}: not served, replies {:?}", replies.iter().map(|b| hex(b, 60)).collect::<Vec<_>>()));
            continue;
        }
        case.count("requests_refused", 1);
        // an unlisted key without a list, or a request that cannot be understood, is refused for other reasons
        let refused_by_policy = has_list || require_full;
        case.check(!touched, || format!("{what}: the file was opened"));
        case.check(a.read || !o.fs.contains_key(&path), || format!("{what}: the file was created"));
        case.check(replies.len() <= 1, || format!("{what}: {} replies", replies.len()));
        if err_auth_only && refused_by_policy {
            case.count("refused_in_silence", 1);
            case.check(replies.is_empty(), || format!("{what}: answered with {}", hex(replies[0], 80)));
        }
        for b in &replies {
            let plain = match a.hs_key.filter(|_| opened).and_then(|k| open(&k, b)) {
                Some(p) => unpad(&p).unwrap_or_default(),
                None => b.to_vec(),
            };
            case.check(matches!(Pk::dec(&plain), Some(Pk::Error { .. })), || format!("{what}: answered with {}", hex(&plain, 80)));
        }
    }
    case.sample = Some(format!("{} requests, list {has_list}, require full {require_full}, {} replies", asks.len(), got.len()));
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}

// ------------------------------------------------------------------------------------------------

/// poses as the server
struct Impostor {
    mode: u64,
    variant: u64,
    known: Key,
    genuine_sig: Option<(Key, Vec<u8>)>,
    own: SignKey,
    eph: Key,
    session: Option<Key>,
    client_level: String,
    level: String,
    data: Vec<u8>,
    next: u16,
    sent: u64,
    label: String,
    /// the server's own key: it is the server, but answers with less than was asked for
    real: Option<SignKey>,
}

impl Impostor {
    /// the reply of the real server to an encrypted request
    fn lower(&mut self, rng: &mut Rng, data: &[u8]) -> Option<Vec<u8>> {
        let sk = self.real.as_ref()?;
        let (body, e) = data.split_at(data.len().checked_sub(KEY)?);
        let k = dh(&scalar(sk), &<Key>::try_from(e).ok()?);
        let Some(Pk::Rrq { opts: o, .. } | Pk::Wrq { opts: o, .. }) = Pk::dec(&unpad(&open(&k, body)?)?) else { return None };
        let mut opts: Vec<(Vec<u8>, Vec<u8>)> = o.iter().filter(|(k, _)| matches!(&k[..], b"blksize" | b"windowsize" | b"timeout")).cloned().collect();
        let level = *rng.pick(&["none", "", "data", "protocol", "optional-data", "optional-protocol", "None"]);
        if !level.is_empty() {
            opts.push((b"enclevel".to_vec(), level.as_bytes().to_vec()));
        }
        let spk = public(&self.eph);
        if rng.chance(0.7) {
            opts.push((b"spubk".to_vec(), b64(&spk).into_bytes()));
        }
        if crate::refcodec::opt(&o, "apubk").is_some() {
            opts.push((b"apubk".to_vec(), b64(&self.known).into_bytes()));
            opts.push((b"sig".to_vec(), b64(&sign(sk, &spk)).into_bytes()));
        }
        self.level = level.into();
        self.label = "the server itself, with a lower level".into();
        let reply = match self.mode {
            0 if matches!(Pk::dec(&unpad(&open(&k, body)?)?), Some(Pk::Wrq { .. })) => Pk::Ack { block: 0 },
            0 => Pk::Data { block: 1, data: self.data[..self.data.len().min(512)].to_vec() },
            _ => Pk::Oack { opts },
        };
        let n = rng.bytes(NONCE);
        Some(seal(&k, &pad(&reply.enc(), data.len() - KEY - NONCE - TAG - 1), &n))
    }
    fn oack(&mut self, r: &mut Rng, req: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
        let mut o: Vec<(Vec<u8>, Vec<u8>)> = vec![];
        for (k, v) in req {
            if matches!(&k[..], b"blksize" | b"windowsize" | b"timeout") && r.chance(0.7) {
                o.push((k.clone(), v.clone()));
            }
        }
        let spk = public(&self.eph);
        let mut push = |k: &str, v: String| o.push((k.as_bytes().to_vec(), v.into_bytes()));
        match self.variant {
            // options, but nothing about encryption
            0 => self.label = "option reply without encryption".into(),
            1 => {
                push("enclevel", "none".into());
                self.label = "level none".into();
            }
            2 => {
                push("enclevel", "none".into());
                push("spubk", b64(&spk));
                self.label = "level none with a key".into();
            }
            3 => {
                let l = *r.pick(&["", "optional-data", "optional-protocol", "OFF", "full", "protocol "]);
                push("enclevel", l.into());
                push("spubk", b64(&spk));
                self.label = format!("level {l:?}");
                self.level = l.into();
            }
            4 => {
                push("enclevel", self.level.clone());
                self.label = "no session key".into();
            }
            5 => {
                push("enclevel", self.level.clone());
                push("spubk", "%%%%".into());
                self.label = "malformed session key".into();
            }
            // no word about identity
            6 => {
                push("enclevel", self.level.clone());
                push("spubk", b64(&spk));
                self.label = "no identity".into();
            }
            // an identity of its own
            7 => {
                push("enclevel", self.level.clone());
                push("spubk", b64(&spk));
                push("apubk", b64(self.own.verifying_key().as_bytes()));
                push("sig", b64(&sign(&self.own, &spk)));
                self.label = "own identity".into();
            }
            // the server's identity with the wrong signature
            8 => {
                push("enclevel", self.level.clone());
                push("spubk", b64(&spk));
                push("apubk", b64(&self.known));
                push("sig", b64(&sign(&self.own, &spk)));
                self.label = "signature of another key".into();
            }
            9 => {
                push("enclevel", self.level.clone());
                push("spubk", b64(&spk));
                push("apubk", b64(&self.known));
                self.label = "no signature".into();
            }
            10 => {
                push("enclevel", self.level.clone());
                push("spubk", b64(&spk));
                push("apubk", b64(&self.known));
                let s = self.genuine_sig.as_ref().map(|s| s.1.clone()).unwrap_or_else(|| vec![0; 64]);
                push("sig", b64(&s));
                self.label = "signature of another session".into();
            }
            _ => {
                push("enclevel", self.level.clone());
                push("spubk", b64(&spk));
                push("apubk", b64(&self.known));
                push("sig", b64(&r.bytes(64)));
                self.label = "random signature".into();
            }
        }
        Pk::Oack { opts: o }.enc()
    }
    fn content(&mut self, cx: &mut Cx, dst: SocketAddr) {
        // goes on as if all was well, in the clear and with the key of the session it proposes
        for _ in 0..2 {
            self.next += 1;
            let at = ((self.next - 1) as usize * 512).min(self.data.len());
            let end = (at + 512).min(self.data.len());
            let d = Pk::Data { block: self.next, data: self.data[at..end].to_vec() }.enc();
            cx.send(srv_addr(), dst, d);
            cx.send(srv_addr(), dst, Pk::Ack { block: self.next }.enc());
        }
    }
}

impl Peer for Impostor {
    fn start(&mut self, _cx: &mut Cx) {}
    fn packet(&mut self, cx: &mut Cx, src: SocketAddr, _at: SocketAddr, data: &[u8]) {
        self.sent += 1;
        if self.sent > 60 {
            return;
        }
        match Pk::dec(data) {
            Some(Pk::Rrq { opts: o, .. } | Pk::Wrq { opts: o, .. }) => {
                let read = data[1] == 1;
                if let Some(l) = crate::refcodec::opt(&o, "enclevel") {
                    self.client_level = l.to_string();
                    if self.level.is_empty() {
                        self.level = l.trim_start_matches("optional-").to_string();
                    }
                }
                if let Some(k) = crate::refcodec::opt(&o, "spubk").and_then(unb64) {
                    if let Ok(k) = <Key>::try_from(&k[..]) {
                        self.session = Some(dh(&self.eph, &k));
                    }
                }
                match self.mode {
                    0 => {
                        self.label = "plain reply".into();
                        cx.send(srv_addr(), src, if read { Pk::Data { block: 1, data: self.data[..self.data.len().min(512)].to_vec() }.enc() } else { Pk::Ack { block: 0 }.enc() });
                        self.next = 1;
                    }
                    1 => {
                        let code = self.variant as u16 % 9;
                        self.label = format!("error {code}");
                        cx.send(srv_addr(), src, Pk::Error { code, msg: b"options are not supported".to_vec() }.enc());
                    }
                    _ => {
                        let b = self.oack(cx.rng, &o);
                        cx.send(srv_addr(), src, b);
                    }
                }
            }
            // an encrypted request, or whatever comes later
            _ if self.sent == 1 || self.mode == 3 => {
                if let Some(b) = self.lower(cx.rng, data) {
                    cx.send(srv_addr(), src, b);
                    self.content(cx, src);
                    return;
                }
                self.label = format!("{} to an encrypted request", if self.mode == 0 { "plain reply" } else { "option reply" });
                match self.mode {
                    0 => {
                        cx.send(srv_addr(), src, Pk::Ack { block: 0 }.enc());
                        cx.send(srv_addr(), src, Pk::Data { block: 1, data: self.data[..self.data.len().min(512)].to_vec() }.enc());
                    }
                    1 => cx.send(srv_addr(), src, Pk::Error { code: self.variant as u16 % 9, msg: b"options are not supported".to_vec() }.enc()),
                    _ => {
                        let b = self.oack(cx.rng, &[]);
                        // in the clear, and sealed with a key it can make up
                        cx.send(srv_addr(), src, b.clone());
                        if data.len() > KEY {
                            let e: Key = data[data.len() - KEY..].try_into().expect("32");
                            let n = cx.rng.bytes(NONCE);
                            let k = dh(&scalar(&self.own), &e);
                            cx.send(srv_addr(), src, seal(&k, &pad(&b, 500), &n));
                        }
                    }
                }
            }
            _ => (),
        }
        self.content(cx, src);
    }
    fn as_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}

pub fn c22(case: &mut Case) {
    let mut r = case.rng.fork();
    let upload = r.chance(0.5);
    let name = long_name(&mut r);
    let mut c = ClientSpec::new(0, upload, &name);
    c.level = *r.pick(&[EncryptionLevel::Data, EncryptionLevel::Protocol, EncryptionLevel::Full, EncryptionLevel::Data, EncryptionLevel::Protocol, EncryptionLevel::OptionalData, EncryptionLevel::OptionalProtocol]);
    let required = matches!(c.level, EncryptionLevel::Data | EncryptionLevel::Protocol | EncryptionLevel::Full);
    c.block_size = if r.chance(0.5) { 512 } else { block_size(&mut r) };
    c.window = *r.pick(&[1, 1, 2, 4]);
    c.request_timeout_ms = 2000;
    c.allow_port_change = r.chance(0.5);
    c.retry_ms = *r.pick(&[80, 1000]);
    let sz = r.range(600, 5000) as usize;
    let data = unique_content(&mut r, sz);
    c.data = data.clone().into();
    let sk = sign_key(&mut r);
    if c.level == EncryptionLevel::Full || r.chance(0.5) {
        c.remote_key = Some(sk.verifying_key());
    }
    if !required || r.chance(0.5) {
        c.private_key = Some(sign_key(&mut r));
        if !required {
            c.remote_key = Some(sk.verifying_key());
        }
    }
    let knows = c.remote_key.is_some() && c.private_key.is_some();
    let sealed_start = cover(c.level, c.remote_key.is_some()) == Cover::Full;
    let old = public(&secret(&mut r));
    let traitor = sealed_start && r.chance(0.3);
    let imp = Impostor {
        real: traitor.then(|| sk.clone()),
        mode: r.below(4),
        variant: r.below(12),
        known: *sk.verifying_key().as_bytes(),
        genuine_sig: Some((old, sign(&sk, &old))),
        own: sign_key(&mut r),
        eph: secret(&mut r),
        session: None,
        client_level: String::new(),
        level: if r.chance(0.25) { r.pick(&["data", "protocol"]).to_string() } else { String::new() },
        data: data.clone(),
        next: 0,
        sent: 0,
        label: String::new(),
    };
    let me = c.addr;
    let x = Xfer::new(None, vec![c.clone()], Net { jitter_us: 0, ..Net::clean() }).setup(move |sh| {
        sh.add_peer(&[srv_addr()], Box::new(imp), 0);
    });
    let mut o = run(case, x);
    basic(case, &o);
    let (label, session, level) = {
        let p = o.peer::<Impostor>(0);
        (p.label.clone(), p.session, p.level.clone())
    };
    let what = format!(
        "{} level {} block {} {}{}, the other side: {label} (level {level})",
        if upload { "upload" } else { "download" },
        c.level,
        c.block_size,
        if c.private_key.is_some() { "own key " } else { "" },
        if c.remote_key.is_some() { "server key known" } else { "" }
    );
    let Some(res) = o.res(0) else {
        case.fail(format!("{what}: the client did not return"));
        return;
    };
    let res = res.clone();
    case.nontrivial = true;
    let find = Finder::new(&data);
    // did the client start an encrypted session with it?
    let accepted = session.is_some_and(|k| {
        o.log.iter().any(|e| matches!(&e.ev, Ev::Send { src, data, real: true, .. } if *src == me && (open(&k, data).is_some() || data.len() > 4 && open(&k, &data[4..]).is_some())))
    });
    // with the data level the client shows only by an acknowledgement that it goes on
    let acked = o.log.iter().any(|e| matches!(&e.ev, Ev::Send { src, data, real: true, .. } if *src == me && matches!(Pk::dec(data), Some(Pk::Ack { .. }))));
    let stored: usize = {
        let ids = crate::monitors::handles(&o.log, "cli/0", true);
        o.log.iter().filter_map(|e| if let Ev::StoreWrite { id, data, .. } = &e.ev { ids.contains(id).then_some(data.len()) } else { None }).sum()
    };
    case.count(if accepted || acked { "sessions_with_the_impostor" } else { "impostors_refused" }, 1);
    if required {
        for e in &o.log {
            if let Ev::Send { src, data, n, real: true, .. } = &e.ev {
                if *src == me {
                    if let Some(p) = find.find(data) {
                        case.fail(format!("{what}: packet #{n} shows file content: {}", hex(&data[p..], 16)));
                        break;
                    }
                }
            }
        }
        case.check(stored == 0, || format!("{what}: {stored} bytes received in the clear were stored"));
        // who is anybody to a client which checks nobody's identity; acknowledgements are in the clear at the data level
        let anybody = upload && accepted && !knows && !sealed_start;
        case.check(!res.ok || anybody, || format!("{what}: reported as a success"));
    }
    if sealed_start {
        for e in &o.log {
            if let Ev::Send { src, data, n, real: true, .. } = &e.ev {
                if *src == me && Pk::dec(data).is_some_and(|p| !matches!(p, Pk::Error { .. })) {
                    case.fail(format!("{what}: after an encrypted request packet #{n} is in the clear: {}", hex(data, 40)));
                    break;
                }
            }
        }
    }
    if (knows || sealed_start) && !traitor {
        // an optional level may end up without encryption, but not with somebody else's
        let encrypted = accepted || acked && required;
        case.count("identity_checks", 1);
        case.check(!encrypted, || format!("{what}: the client started a session with it"));
    }
    case.sample = Some(format!("{what} -> ok {} {}", res.ok, res.err));
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}
