//! C13, C14, C15: hostile datagrams, strangers and concurrent sessions.
use std::any::Any;
use std::collections::BTreeMap;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::sync::{Arc, Mutex};

use tftp_dus::encryption::EncryptionLevel;

use crate::case::{hex, Case};
use crate::clock;
use crate::endpoints::*;
use crate::gen::*;
use crate::peers::*;
use crate::props::time::plausible;
use crate::refcodec::{opts, Pk};
use crate::rng::Rng;
use crate::session::*;
use crate::storage::{Fault, Plan};
use crate::world::*;

/// datagrams seen on the wire, raw material for altered ones
type Library = Arc<Mutex<Vec<Bytes>>>;

pub fn mutate(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..r.range(1, 3) {
        match r.below(8) {
            0 if !v.is_empty() => {
                let i = r.below(v.len() as u64) as usize;
                v[i] ^= 1 << r.below(8);
            }
            1 if !v.is_empty() => v.truncate(r.below(v.len() as u64) as usize),
            2 => {
                let n = r.range(1, 60) as usize;
                let e = r.bytes(n);
                v.extend_from_slice(&e);
            }
            3 if !v.is_empty() => {
                let i = r.below(v.len() as u64) as usize;
                v[i] = *r.pick(&[0, 1, 0xff, 0x7f, 0x80]);
            }
            4 if !v.is_empty() => {
                let i = r.below(v.len().min(12) as u64) as usize;
                v[i] = r.below(256) as u8;
            }
            5 if v.len() > 4 => {
                let i = r.below(v.len() as u64 - 1) as usize;
                let n = r.range(1, (v.len() - i) as u64) as usize;
                let part = v[i..i + n].to_vec();
                let j = r.below(v.len() as u64) as usize;
                v.splice(j..j, part);
            }
            6 if v.len() > 4 => {
                let i = r.below(v.len() as u64 - 1) as usize;
                let n = r.range(1, (v.len() - i) as u64) as usize;
                v.drain(i..i + n);
            }
            _ if v.len() >= 2 => {
                v[0] = 0;
                v[1] = r.below(9) as u8;
            }
            _ => (),
        }
    }
    v.truncate(65000);
    v
}

fn odd_name(r: &mut Rng) -> Vec<u8> {
    match r.below(14) {
        0 => vec![],
        1 => vec![b'a'; r.range(100, 600) as usize],
        2 => "\u{e4}".repeat(r.range(60, 90) as usize).into_bytes(),
        3 => format!("{}{}", "x".repeat(r.range(130, 150) as usize), "\u{1F600}\u{1F600}\u{1F600}").into_bytes(),
        4 => vec![0xff, 0xfe, 0x80],
        5 => b"../../../etc/passwd".to_vec(),
        6 => b"/".to_vec(),
        7 => b"a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r/s/t/u/v/w/x/y/z".to_vec(),
        8 => b".".to_vec(),
        9 => b"\n\r\x1b[31m%s%n{}{0}".to_vec(),
        10 => {
            let n = r.range(1, 200) as usize;
            r.bytes(n).into_iter().map(|c| if c == 0 { 1 } else { c }).collect()
        }
        11 => b"..".to_vec(),
        12 => b"missing.txt".to_vec(),
        _ => b"open".to_vec(),
    }
}

/// a request no server should accept, or one it may accept (then `name` is "open")
fn odd_request(r: &mut Rng) -> Vec<u8> {
    let mut name = odd_name(r);
    let mut mode = match r.below(8) {
        0 => vec![],
        1 => b"netascii".to_vec(),
        2 => vec![0xc3, 0x28],
        3 => vec![b'o'; 700],
        _ => b"octet".to_vec(),
    };
    let mut o: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for _ in 0..*r.pick(&[0u64, 1, 2, 4, 9, 40]) {
        let k: Vec<u8> = match r.below(14) {
            0 => b"blksize".to_vec(),
            1 => b"windowsize".to_vec(),
            2 => b"tsize".to_vec(),
            3 => b"timeout".to_vec(),
            4 => b"enclevel".to_vec(),
            5 => b"spubk".to_vec(),
            6 => b"apubk".to_vec(),
            7 => b"sig".to_vec(),
            8 => vec![],
            9 => vec![0xff, 0xff],
            10 => vec![b'k'; 300],
            _ => b"what".to_vec(),
        };
        let v: Vec<u8> = match r.below(12) {
            0 => vec![],
            1 => b"0".to_vec(),
            2 => b"-1".to_vec(),
            3 => b"65535".to_vec(),
            4 => b"65536".to_vec(),
            5 => b"18446744073709551616".to_vec(),
            6 => b"full".to_vec(),
            7 => b"data".to_vec(),
            8 => b"protocol".to_vec(),
            9 => {
                let n = r.range(30, 90) as usize;
                (0..n).map(|_| *r.pick(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=")).collect()
            }
            10 => vec![b'9'; r.range(50, 900) as usize],
            _ => {
                let n = r.range(1, 40) as usize;
                r.bytes(n).into_iter().map(|c| if c == 0 { 1 } else { c }).collect()
            }
        };
        o.push((k, v));
    }
    if r.chance(0.1) {
        std::mem::swap(&mut name, &mut mode);
    }
    let p = if r.chance(0.5) { Pk::Rrq { name, mode, opts: o } } else { Pk::Wrq { name, mode, opts: o } };
    let mut b = p.enc();
    if r.chance(0.2) {
        b.pop();
    }
    b
}

/// every datagram from an address of its own
struct Attacker {
    ip: [u8; 2],
    targets: Vec<SocketAddr>,
    every_us: u64,
    left: u64,
    lib: Library,
    /// how many datagrams that a server may accept as a request may still be sent
    openings: u64,
    port: u16,
    sent: BTreeMap<SocketAddr, Vec<u8>>,
    replies: BTreeMap<SocketAddr, Vec<Vec<u8>>>,
}

impl Attacker {
    fn next_addr(&mut self, r: &mut Rng) -> SocketAddr {
        self.port += 1;
        let ip = match r.below(12) {
            // session sockets for this one cannot be made
            0 if self.ip[0] == 0 => Ipv4Addr::new(10, 66, 66, 66),
            _ => Ipv4Addr::new(10, 67, self.ip[0], self.ip[1]),
        };
        match r.below(40) {
            0 => SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 68, (self.port >> 8) as u8, self.port as u8)), 0),
            1 => SocketAddr::new(IpAddr::V4(Ipv4Addr::BROADCAST), 2000 + self.port),
            _ => SocketAddr::new(IpAddr::V4(ip), 2000 + self.port),
        }
    }
}

impl Peer for Attacker {
    fn start(&mut self, cx: &mut Cx) {
        cx.timer(1, 0);
    }
    fn packet(&mut self, _cx: &mut Cx, _src: SocketAddr, at: SocketAddr, data: &[u8]) {
        self.replies.entry(at).or_default().push(data.to_vec());
    }
    fn timer(&mut self, cx: &mut Cx, _id: u64) {
        if self.left == 0 {
            return;
        }
        self.left -= 1;
        let old = {
            let l = self.lib.lock().unwrap_or_else(|e| e.into_inner());
            if l.is_empty() {
                None
            } else {
                Some(cx.rng.pick(&l[..]).clone())
            }
        };
        let mut d = match (cx.rng.below(10), old) {
            (0..=2, Some(o)) => mutate(cx.rng, &o),
            (3, _) => {
                let n = *cx.rng.pick(&[0usize, 1, 2, 3, 4, 5, 8, 64, 90, 91, 92, 600, 9000, 65000]);
                let mut b = cx.rng.bytes(n);
                if n >= 2 && cx.rng.chance(0.5) {
                    b[0] = 0;
                    b[1] = cx.rng.below(10) as u8;
                }
                b
            }
            (4, _) => plausible(cx.rng),
            (5, _) => {
                let b = odd_request(cx.rng);
                mutate(cx.rng, &b)
            }
            _ => odd_request(cx.rng),
        };
        if matches!(Pk::dec(&d), Some(Pk::Rrq { .. } | Pk::Wrq { .. })) || d.len() >= 90 {
            // bounded: sessions of strangers use up the server's connections like any others
            if self.openings == 0 {
                d = plausible(cx.rng);
            } else if matches!(Pk::dec(&d), Some(Pk::Wrq { .. })) || d.windows(4).any(|w| w == b"open") || d.len() >= 90 {
                self.openings -= 1;
            }
        }
        let a = self.next_addr(cx.rng);
        let t = *cx.rng.pick(&self.targets);
        self.sent.insert(a, d.clone());
        cx.send(a, t, d);
        let w = self.every_us / 2 + cx.rng.below(self.every_us.max(1));
        cx.timer(w.max(1), 0);
    }
    fn as_any(&mut self) -> &mut dyn Any {
        self
    }
}

/// opens a session and then sends nonsense in it
pub struct Abuser {
    pub me: SocketAddr,
    pub open: Vec<u8>,
    pub left: u64,
    pub peer: Option<SocketAddr>,
    pub max: usize,
}
impl Abuser {
    fn nonsense(&mut self, cx: &mut Cx) {
        let to = self.peer.unwrap_or(srv_addr());
        for _ in 0..cx.rng.range(1, 3) {
            if self.left == 0 {
                return;
            }
            self.left -= 1;
            let d = match cx.rng.below(6) {
                0 => Pk::Data { block: *cx.rng.pick(&[0, 1, 2, 3, 0x7fff, 0x8000, 0xffff]), data: vec![7; *cx.rng.pick(&[0usize, 1, 511, 512, 513, 1024, 65000])] }.enc(),
                1 => Pk::Ack { block: *cx.rng.pick(&[0, 1, 2, 3, 9, 0x7fff, 0x8000, 0xffff]) }.enc(),
                2 => self.open.clone(),
                _ => plausible(cx.rng),
            };
            let mut d = if cx.rng.chance(0.2) { mutate(cx.rng, &d) } else { d };
            d.truncate(self.max);
            cx.send(self.me, to, d);
        }
    }
}
impl Peer for Abuser {
    fn start(&mut self, cx: &mut Cx) {
        cx.send(self.me, srv_addr(), self.open.clone());
        cx.timer(20_000, 0);
    }
    fn packet(&mut self, cx: &mut Cx, src: SocketAddr, _at: SocketAddr, _data: &[u8]) {
        self.peer = Some(src);
        self.nonsense(cx);
    }
    fn timer(&mut self, cx: &mut Cx, _id: u64) {
        self.nonsense(cx);
        if self.left > 0 {
            cx.timer(20_000, 0);
        }
    }
    fn as_any(&mut self) -> &mut dyn Any {
        self
    }
}

pub fn abuser(r: &mut Rng, i: usize) -> Abuser {
    let name = if r.chance(0.5) { b"open".to_vec() } else { format!("abuse{i}").into_bytes() };
    let mut v: Vec<(&str, String)> = vec![];
    if r.chance(0.5) {
        v.push(("windowsize", r.range(1, 8).to_string()));
    }
    if r.chance(0.3) {
        v.push(("blksize", r.range(512, 2000).to_string()));
    }
    if r.chance(0.2) {
        v.push(("tsize", "100".into()));
    }
    let (mode, o) = (b"octet".to_vec(), opts(&v));
    let p = if r.chance(0.5) { Pk::Rrq { name: b"open".to_vec(), mode, opts: o } } else { Pk::Wrq { name, mode, opts: o } };
    Abuser { me: addr(20, 1 + i as u8, 2000), open: p.enc(), left: r.range(5, 120), peer: None, max: 65000 }
}

/// a legitimate client of any kind with its own file; `i` numbers it
pub fn probe(r: &mut Rng, i: usize, s: &ServerSpec, srv_key: &Option<SignKey>, cli_key: &Option<SignKey>, max_blocks: u64) -> (ClientSpec, String, Vec<u8>) {
    let upload = r.chance(0.5);
    // no alteration of one name gives another
    let name = format!("good{:08x}-{i}.bin", r.below(1 << 32));
    let mut c = ClientSpec::new(i, upload, &name);
    c.level = if s.require_full {
        EncryptionLevel::Full
    } else if srv_key.is_some() && r.chance(0.5) {
        *r.pick(LEVELS)
    } else {
        EncryptionLevel::None
    };
    c.block_size = block_size(r);
    c.window = if ALLOC { window(r) } else { *r.pick(&[1, 1, 1, 2, 5]) };
    c.prefer_seek = SEEK && r.chance(0.3);
    c.allow_port_change = true;
    #[cfg(feature = "enc")]
    {
        if s.authorized.is_some() {
            if c.level == EncryptionLevel::None {
                c.level = EncryptionLevel::Protocol;
            }
            c.private_key = cli_key.clone();
        }
        if c.level != EncryptionLevel::None && (c.level == EncryptionLevel::Full || c.private_key.is_some() || r.chance(0.5)) {
            c.remote_key = srv_key.as_ref().map(|k| k.verifying_key());
        }
    }
    let _ = cli_key;
    let size = size(r, payload(c.block_size.min(s.max_block_size), c.level), max_blocks);
    let data = unique_content(r, size);
    c.data = data.clone().into();
    (c, name, data)
}

/// a server, possibly with keys
pub fn any_server(r: &mut Rng) -> (ServerSpec, Option<SignKey>, Option<SignKey>) {
    #[allow(unused_mut)]
    let mut s = ServerSpec {
        prefer_seek: SEEK && r.chance(0.3),
        port_change: r.chance(0.4),
        allow_overwrite: r.chance(0.3),
        max_block_size: if r.chance(0.7) { MAX_BLOCK } else { block_size(r) },
        max_window: if r.chance(0.7) { MAX_WINDOW } else { window(r) },
        ..ServerSpec::default()
    };
    #[cfg(feature = "enc")]
    {
        let (mut sk, mut ck) = (None, None);
        if r.chance(0.7) {
            let k = sign_key(r);
            s.private_key = Some(k.clone());
            sk = Some(k);
            if r.chance(0.3) {
                let k = sign_key(r);
                s.authorized = Some(vec![k.verifying_key()]);
                s.error_auth_only = r.chance(0.4);
                ck = Some(k);
            }
            s.require_full = r.chance(0.2);
        }
        (s, sk, ck)
    }
    #[cfg(not(feature = "enc"))]
    {
        (s, None, None)
    }
}

fn bad_reply_count(case: &mut Case, a: &Attacker) {
    for (from, list) in &a.replies {
        let Some(d) = a.sent.get(from) else { continue };
        let is_err = |b: &[u8]| matches!(Pk::dec(b), Some(Pk::Error { .. }));
        case.count("answered_hostile_datagrams", 1);
        if is_err(&list[0]) {
            case.check(list.len() == 1, || format!("{} packets in answer to the refused datagram {}", list.len(), hex(d, 80)));
        }
        let req = matches!(Pk::dec(d), Some(Pk::Rrq { .. } | Pk::Wrq { .. }));
        if !req && d.len() < 90 {
            case.check(list.len() == 1 && is_err(&list[0]), || format!("{} packets, first {}, in answer to the malformed datagram {}", list.len(), hex(&list[0], 40), hex(d, 90)));
        }
    }
}

pub fn c13(case: &mut Case) {
    let mut r = case.rng.fork();
    let (mut s, sk, ck) = any_server(&mut r);
    // a repeated request to overwrite is a request like any other
    s.allow_overwrite = false;
    s.request_timeout_ms = *r.pick(&[3000, 15000]);
    let max_blocks = if case.thorough { 80 } else { 25 };
    let lib: Library = Default::default();
    let mut clients = vec![];
    let mut files = vec![];
    let mut probes = vec![];
    let probes_n = r.range(1, 3) as usize;
    for i in 0..probes_n {
        let (mut c, name, data) = probe(&mut r, i, &s, &sk, &ck, max_blocks);
        c.start_after = r.below(60_000);
        if !c.upload {
            files.push((name.clone(), data.clone()));
        }
        probes.push((i, c.upload, name, data, c.clone()));
        clients.push(c);
    }
    // a client whose packets are damaged on the way: it may fail, nothing else may happen
    let victim = r.chance(0.6);
    let mut victim_addr = None;
    if victim {
        let (mut c, name, data) = probe(&mut r, 10, &s, &sk, &ck, max_blocks);
        c.request_timeout_ms = 3000;
        if !c.upload {
            files.push((name, data));
        }
        victim_addr = Some(c.addr);
        clients.push(c);
    }
    let damage = *r.pick(&[0.02, 0.1, 0.4]);
    let l2 = lib.clone();
    let mitm: Mitm = Box::new(move |d, _now, rng| {
        if d.src.ip() != srv_addr().ip() && d.src.ip().to_string().starts_with("10.0.") {
            let mut l = l2.lock().unwrap_or_else(|e| e.into_inner());
            if l.len() < 64 {
                l.push(d.data.clone());
            } else {
                let i = rng.below(64) as usize;
                l[i] = d.data.clone();
            }
        }
        if Some(d.src) == victim_addr && rng.chance(damage) {
            let b = mutate(rng, &d.data);
            return Some(vec![(300, Dgram { src: d.src, dst: d.dst, data: b.into(), n: d.n })]);
        }
        None
    });
    let mut net = Net::clean();
    net.icmp = r.chance(0.6);
    net.base_us = *r.pick(&[20, 300, 2_000]);
    net.jitter_us = 0;
    let timeout_ms = s.request_timeout_ms;
    let mut x = Xfer::new(Some(s), clients, net);
    let n = r.range(1, 2);
    let mut attackers = vec![];
    for k in 0..n {
        let mut ports = vec![srv_addr(), srv_addr()];
        if r.chance(0.4) {
            for p in 40001..40006 {
                ports.push(SocketAddr::new(srv_addr().ip(), p));
            }
        }
        let a = Attacker {
            ip: [k as u8, 1],
            targets: ports,
            every_us: *r.pick(&[150, 1_000, 5_000]),
            left: r.range(10, 250),
            lib: lib.clone(),
            openings: if ALLOC { 25 } else { 2 },
            port: 0,
            sent: BTreeMap::new(),
            replies: BTreeMap::new(),
        };
        // the addresses are made up as it goes: it gets everything for its networks through `attach`
        attackers.push(a);
    }
    x = x.setup(move |sh| {
        let mut g = sh.lock();
        g.mitm = Some(mitm);
        g.bind_fail = Some(IpAddr::V4(Ipv4Addr::new(10, 66, 66, 66)));
    });
    for (k, a) in attackers.into_iter().enumerate() {
        let mut all: Vec<SocketAddr> = vec![];
        for p in 0..300u16 {
            all.push(SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 67, k as u8, 1)), 2000 + p));
            if k == 0 {
                all.push(SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 66, 66, 66)), 2000 + p));
            }
        }
        let at = r.below(20_000);
        x = x.setup(move |sh| {
            sh.add_peer(&all, Box::new(a), at);
        });
    }
    for i in 0..r.below(4) as usize {
        let a = abuser(&mut r, i);
        let at = r.below(30_000);
        x = x.setup(move |sh| {
            let me = a.me;
            sh.add_peer(&[me], Box::new(a), at);
        });
    }
    x = x.file("open", &r.bytes(3000));
    for (nm, d) in &files {
        x = x.file(nm, d);
    }
    x.linger_us = *r.pick(&[50_000, 50_000, (timeout_ms + 4000) * 1000]);
    let mut o = run(case, x);
    basic(case, &o);
    for (i, upload, name, data, c) in &probes {
        let what = format!("{} of {} B as {name} block {} window {} level {}", if *upload { "upload" } else { "download" }, data.len(), c.block_size, c.window, c.level);
        let Some(res) = o.res(*i).cloned() else {
            case.fail(format!("{what}: the client did not return"));
            continue;
        };
        case.check(res.ok, || format!("{what} beside hostile traffic: {}", res.err));
        let key = if *upload { format!("srv/{name}") } else { format!("cli/{i}") };
        let same = o.fs.get(&key).map(|v| v[..] == data[..]) == Some(true);
        case.check(same, || format!("{what}: content differs"));
        let ms = (res.end - res.start) / 1000;
        case.max("probe_ms", ms);
        case.check(ms < 6_000, || format!("{what}: took {ms} ms"));
        case.sample = Some(format!("{what} beside {n} attackers -> ok {} in {ms} ms", res.ok));
    }
    for k in 0..n as usize {
        let a = o.peer::<Attacker>(k);
        let a = Attacker {
            ip: a.ip,
            targets: vec![],
            every_us: 0,
            left: a.left,
            lib: lib.clone(),
            openings: 0,
            port: a.port,
            sent: std::mem::take(&mut a.sent),
            replies: std::mem::take(&mut a.replies),
        };
        case.count("hostile_datagrams", a.sent.len() as u64);
        case.nontrivial |= a.sent.len() > 5;
        for d in a.sent.values() {
            case.mix(d.len() as u64);
            case.mix_bytes(&d[..d.len().min(24)]);
        }
        bad_reply_count(case, &a);
    }
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}

// ------------------------------------------------------------------------------------------------

pub fn c14(case: &mut Case) {
    let mut r = case.rng.fork();
    match r.below(4) {
        0 => c14_strangers(case, &mut r),
        1 => c14_port(case, &mut r),
        2 => c14_error(case, &mut r),
        _ => c14_hostile(case, &mut r),
    }
}

/// what a client did, packet by packet
fn sends_of(o: &Outcome, me: SocketAddr) -> Vec<(SocketAddr, Bytes)> {
    o.log
        .iter()
        .filter_map(|e| match &e.ev {
            Ev::Send { src, dst, data, real: true, .. } if *src == me => Some((*dst, data.clone())),
            _ => None,
        })
        .collect()
}

/// the same transfer with and without strangers: same packets, same result
fn c14_strangers(case: &mut Case, r: &mut Rng) {
    let upload = r.chance(0.5);
    let mut c = ClientSpec::new(0, upload, NAME);
    c.block_size = if r.chance(0.6) { 512 } else { block_size(r) };
    c.window = window(r).min(20);
    c.retry_ms = 2000;
    c.allow_port_change = r.chance(0.5);
    let (me, cb, cw, allow) = (c.addr, c.block_size, c.window, c.allow_port_change);
    let plain = r.chance(0.3);
    let mut v = vec![];
    if !plain && cb != 512 {
        v.push(("blksize", cb.to_string()));
    }
    if !plain && cw != 1 {
        v.push(("windowsize", cw.to_string()));
    }
    if !plain {
        v.push(("timeout", "2".to_string()));
    }
    let v = opts(&v);
    let (bs, _) = eff(&v);
    let sz = size(r, bs, 30);
    let data = unique_content(r, sz);
    c.data = data.clone().into();
    let tid = if allow && r.chance(0.6) { SocketAddr::new(srv_addr().ip(), 3300) } else { srv_addr() };
    let err_end = r.chance(0.15);
    let lag = r.range(1_000, 30_000);
    let density = r.range(1, 4);
    let seed = r.next();
    let mut outs = vec![];
    for with in [false, true] {
        let v2 = v.clone();
        let script: Script = Box::new(move |_, _, _| if v2.is_empty() { Reply::Plain } else { Reply::Oack(v2.clone()) });
        let mut srv = RawServer::new(srv_addr(), tid, data.clone(), script);
        if err_end {
            srv.chaos.error_at = Some(1 + seed % 10);
        }
        let mut n = Net::clean();
        n.base_us = lag;
        n.jitter_us = 0;
        let mut started = false;
        let mut rng2 = Rng::new(seed);
        let mitm: Mitm = Box::new(move |d, _now, _| {
            if !with {
                return None;
            }
            let mut out = vec![(lag, d.clone())];
            let from_server = d.src.ip() == srv_addr().ip() && d.dst == me;
            for _ in 0..rng2.below(density + 1) {
                let foreign = *rng2.pick(&[addr(7, 7, 69), addr(7, 9, d.src.port()), addr(1, 1, 1)]);
                let b = match rng2.below(4) {
                    0 if from_server => mutate(&mut rng2, &d.data),
                    1 if from_server => d.data.to_vec(),
                    _ => {
                        let lim = plausible(&mut rng2);
                        lim
                    }
                };
                let at = rng2.below(lag);
                out.push((at, Dgram { src: foreign, dst: me, data: b.into(), n: d.n }));
            }
            if from_server {
                // once the server has answered, other ports of the same host are strangers too
                for _ in 0..rng2.below(density + 1) {
                    let mut p = 1 + rng2.below(60000) as u16;
                    if p == d.src.port() {
                        p += 1;
                    }
                    let b = match rng2.below(5) {
                        0 => mutate(&mut rng2, &d.data),
                        1 => d.data.to_vec(),
                        2 => Pk::Error { code: rng2.below(8) as u16, msg: b"other port".to_vec() }.enc(),
                        _ => plausible(&mut rng2),
                    };
                    let at = lag + 1 + rng2.below(lag / 2);
                    out.push((at, Dgram { src: SocketAddr::new(d.src.ip(), p), dst: me, data: b.into(), n: d.n }));
                }
                started = true;
            }
            let _ = started;
            Some(out)
        });
        let x = Xfer::new(None, vec![c.clone()], n).setup(move |sh| {
            sh.add_peer(&[srv_addr(), tid], Box::new(srv), 0);
            sh.lock().mitm = Some(mitm);
        });
        let o = run(case, x);
        basic(case, &o);
        outs.push(o);
    }
    let what = format!("{} of {sz} B block {bs} window {cw}", if upload { "upload" } else { "download" });
    let (a, b) = (&outs[0], &outs[1]);
    let strangers = b.log.iter().filter(|e| matches!(&e.ev, Ev::Recv { at, src, .. } if *at == me && *src != srv_addr() && *src != tid)).count() as u64;
    case.count("stranger_packets_received", strangers);
    case.nontrivial = strangers > 0;
    let (Some(ra), Some(rb)) = (a.res(0), b.res(0)) else {
        case.fail(format!("{what}: the client did not return"));
        return;
    };
    case.sample = Some(format!("{what}: {strangers} stranger packets, ok {} and {}", ra.ok, rb.ok));
    case.check((ra.ok, ra.count, &ra.err, &ra.stored) == (rb.ok, rb.count, &rb.err, &rb.stored), || {
        format!("{what}: with strangers ok {} count {} {:?}, without ok {} count {} {:?}", rb.ok, rb.count, rb.err, ra.ok, ra.count, ra.err)
    });
    let (sa, sb) = (sends_of(a, me), sends_of(b, me));
    let diff = sa.iter().zip(&sb).position(|(x, y)| x != y).or(if sa.len() != sb.len() { Some(sa.len().min(sb.len())) } else { None });
    case.check(diff.is_none(), || {
        let i = diff.unwrap_or(0);
        format!("{what}: packet {i} differs: {:?} without, {:?} with strangers", sa.get(i).map(|s| (s.0, hex(&s.1, 20))), sb.get(i).map(|s| (s.0, hex(&s.1, 20))))
    });
    case.check(a.fs.get("cli/0") == b.fs.get("cli/0"), || format!("{what}: stored content differs"));
    if !case.viol.is_empty() {
        keep_trace(case, &outs[1]);
    }
}

/// the server answers from another port
fn c14_port(case: &mut Case, r: &mut Rng) {
    let upload = r.chance(0.5);
    let allow = r.chance(0.5);
    let p = params(r, upload, 20);
    let (mut s, mut c) = pair(r, &p);
    s.port_change = true;
    c.allow_port_change = allow;
    let me = c.addr;
    let mut x = Xfer::new(Some(s), vec![c], Net::clean());
    if !upload {
        x = x.file(NAME, &p.data);
    }
    let o = run(case, x);
    basic(case, &o);
    let what = format!("{} of {} B level {}, server on another port, allowed {allow}", if upload { "upload" } else { "download" }, p.size, p.level);
    let Some(res) = o.res(0) else {
        case.fail(format!("{what}: the client did not return"));
        return;
    };
    case.nontrivial = true;
    case.sample = Some(format!("{what} -> ok {} {}", res.ok, res.err));
    case.check(res.ok == allow, || format!("{what}: ok {} {}", res.ok, res.err));
    if !allow {
        case.count("port_changes_refused", 1);
        case.check(!o.fs.contains_key("cli/0"), || format!("{what}: a file was created"));
        let to_other = o.log.iter().any(|e| matches!(&e.ev, Ev::Send { src, dst, data, real: true, .. } if *src == me && dst.port() != 69 && data.len() > 60));
        case.check(!to_other, || format!("{what}: data went to the other port"));
    }
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}

/// an error packet at any point is a failure
fn c14_error(case: &mut Case, r: &mut Rng) {
    let upload = r.chance(0.5);
    let mut c = ClientSpec::new(0, upload, NAME);
    c.window = window(r).min(20);
    c.allow_port_change = true;
    let sz = size(r, 512, 30);
    let data = unique_content(r, sz);
    c.data = data.clone().into();
    c.retry_ms = *r.pick(&[80, 1000]);
    let me = c.addr;
    let win = c.window;
    let code = *r.pick(&[0u16, 1, 2, 3, 4, 5, 6, 7]);
    let text = *r.pick(&["no such file", "", "disk full or allocation exceeded", "\u{e4}\u{f6}"]);
    let at_start = r.chance(0.4);
    let v = if win != 1 && r.chance(0.7) { opts(&[("windowsize", win.to_string())]) } else { vec![] };
    let script: Script = Box::new(move |_, _, _| {
        if at_start {
            Reply::Error(code, text.as_bytes().to_vec())
        } else if v.is_empty() {
            Reply::Plain
        } else {
            Reply::Oack(v.clone())
        }
    });
    let mut srv = RawServer::new(srv_addr(), srv_addr(), data.clone(), script);
    let k = r.range(1, 30);
    srv.chaos.error_at = Some(k);
    let x = Xfer::new(None, vec![c], Net { jitter_us: 0, ..Net::clean() }).setup(move |sh| {
        sh.add_peer(&[srv_addr()], Box::new(srv), 0);
    });
    let o = run(case, x);
    basic(case, &o);
    let what = format!("{} of {sz} B window {win}, error {code} {text:?} {}", if upload { "upload" } else { "download" }, if at_start { "at once".into() } else { format!("after {k} packets") });
    let Some(res) = o.res(0) else {
        case.fail(format!("{what}: the client did not return"));
        return;
    };
    // what the client had read before it returned
    let read = o.log.iter().find(|e| matches!(&e.ev, Ev::Recv { at, data, .. } if *at == me && matches!(Pk::dec(data), Some(Pk::Error { .. }))));
    if let Some(e) = read {
        case.nontrivial = true;
        case.count("error_packets_delivered", 1);
        let done_before = upload && o.log.iter().take_while(|x| x.t < e.t).any(|x| matches!(&x.ev, Ev::Recv { at, data, .. } if *at == me && matches!(Pk::dec(data), Some(Pk::Ack { block }) if block as usize == data.len() / 512 + 1)));
        case.check(!res.ok || done_before, || format!("{what}: success reported after the error packet"));
        if !at_start {
            case.check(res.end <= e.t + 1_100_000, || format!("{what}: the client went on for {} ms", (res.end - e.t) / 1000));
        }
        let told = match &e.ev {
            Ev::Recv { data, .. } => match Pk::dec(data) {
                Some(Pk::Error { msg, .. }) => String::from_utf8_lossy(&msg).into_owned(),
                _ => String::new(),
            },
            _ => String::new(),
        };
        if !told.is_empty() && !res.ok {
            let has = res.err.contains(&told);
            case.check(has, || format!("{what}: reported as {:?}", res.err));
        }
    }
    case.sample = Some(format!("{what} -> ok {} {}", res.ok, res.err));
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}

/// the server (or something on the way) sends nonsense
fn c14_hostile(case: &mut Case, r: &mut Rng) {
    let upload = r.chance(0.5);
    let p = params(r, upload, 40);
    let (s, mut c) = pair(r, &p);
    c.request_timeout_ms = *r.pick(&[2000, 5000]);
    let rt_us = c.request_timeout_ms * 1000;
    let me = c.addr;
    let rate = *r.pick(&[0.02, 0.1, 0.5, 1.0]);
    let raw = r.chance(0.35);
    let what = format!("{} of {} B block {} window {} level {}, {} nonsense {rate}", if upload { "upload" } else { "download" }, p.size, p.block, p.window, p.level, if raw { "scripted" } else { "real server," });
    let extra = r.below(3);
    let mitm: Mitm = Box::new(move |d, _now, rng| {
        if d.dst != me || !rng.chance(rate) {
            return None;
        }
        let mut out = vec![];
        if rng.chance(0.4) {
            out.push((300, d.clone()));
        }
        for _ in 0..=extra {
            let b = match rng.below(5) {
                0 => plausible(rng),
                1 => {
                    let n = *rng.pick(&[0usize, 1, 2, 3, 40, 41, 96, 600, 65000]);
                    rng.bytes(n)
                }
                _ => mutate(rng, &d.data),
            };
            out.push((200 + rng.below(300), Dgram { src: d.src, dst: d.dst, data: b.into(), n: d.n }));
        }
        Some(out)
    });
    let mut x = if raw {
        c.allow_port_change = true;
        let list: Vec<Vec<u8>> = (0..r.range(1, 40))
            .map(|_| match r.below(4) {
                0 => {
                    let o = odd_request(r);
                    let mut v = o;
                    v[1] = 6;
                    v
                }
                1 => {
                    let n = r.below(700) as usize;
                    r.bytes(n)
                }
                _ => plausible(r),
            })
            .collect();
        let l2 = list.clone();
        let script: Script = Box::new(move |_, _, _| Reply::Raw(l2.clone()));
        let srv = RawServer::new(srv_addr(), srv_addr(), p.data.clone(), script);
        Xfer::new(None, vec![c], Net::clean()).setup(move |sh| {
            sh.add_peer(&[srv_addr()], Box::new(srv), 0);
        })
    } else {
        Xfer::new(Some(s), vec![c], Net::clean())
    };
    if !upload {
        x = x.file(NAME, &p.data);
    }
    x = x.setup(move |sh| sh.lock().mitm = Some(mitm));
    let o = run(case, x);
    for p in &o.panics {
        case.fail(format!("{what}: panic: {p}"));
    }
    if o.timed_out {
        case.fail(format!("{what}: a call did not return"));
    }
    let Some(res) = o.res(0) else {
        case.fail(format!("{what}: the client did not return"));
        keep_trace(case, &o);
        return;
    };
    case.check(!res.panicked, || format!("{what}: panic"));
    let last = o.log.iter().filter(|e| matches!(&e.ev, Ev::Recv { at, .. } if *at == me)).map(|e| e.t).max().unwrap_or(res.start);
    case.count("hostile_worlds", 1);
    case.nontrivial = true;
    case.check(res.end <= last + rt_us + 3_500_000, || format!("{what}: the client returned {} ms after the last packet", (res.end - last) / 1000));
    case.sample = Some(format!("{what} -> ok {} {}", res.ok, res.err));
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}

// ------------------------------------------------------------------------------------------------

pub fn c15(case: &mut Case) {
    let mut r = case.rng.fork();
    let (mut s, sk, ck) = any_server(&mut r);
    s.error_auth_only = false;
    s.request_timeout_ms = *r.pick(&[2000, 15000]);
    let max_blocks = if case.thorough { 60 } else { 20 };
    let good = if r.chance(0.15) { r.range(8, if ALLOC { 40 } else { 20 }) } else { r.range(2, 7) } as usize;
    let mut plans: std::collections::HashMap<String, Plan> = Default::default();
    let mut clients = vec![];
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    let mut list = vec![];
    let mut multi = 0;
    let shared = r.chance(0.2);
    for i in 0..good {
        let (mut c, mut name, mut data) = probe(&mut r, i, &s, &sk, &ck, max_blocks);
        let jit = *r.pick(&[1, 5_000, 100_000]);
        c.start_after = r.below(jit);
        if !c.upload && c.window > 1 {
            multi += 1;
            if !ALLOC && multi > 6 {
                c.window = 1;
            }
        }
        if shared && !c.upload {
            // several readers of one file
            if let Some((n, d)) = files.iter().find(|f| f.0.starts_with("good")) {
                name = n.clone();
                data = d.clone();
                c.remote = name.clone();
            }
        }
        if !c.upload {
            files.push((name.clone(), data.clone()));
        }
        list.push((i, name, data, c.clone(), 0u8));
        clients.push(c);
    }
    let mut id = good;
    // clients which must fail, alone as well as here
    for _ in 0..r.below(4) {
        let (mut c, name, data) = probe(&mut r, id, &s, &sk, &ck, max_blocks);
        if c.upload && !data.is_empty() && r.chance(0.5) {
            // storage of this file fails
            plans.insert(name.clone(), Plan { at: [(r.below((data.len() as u64).div_ceil(MAX_BLOCK as u64).min(3)), Fault::Error)].into(), ..Plan::default() });
        } else {
            c.upload = false;
            c.data = vec![].into();
            c.tsize = Some(0);
            c.window = 1;
        }
        c.start_after = r.below(50_000);
        list.push((id, name, data, c.clone(), 1));
        clients.push(c);
        id += 1;
    }
    // clients whose path loses everything at some point
    let mut net = Net::clean();
    net.base_us = *r.pick(&[20, 300, 2_000]);
    net.icmp = r.chance(0.3);
    for _ in 0..r.below(3) {
        let (mut c, name, data) = probe(&mut r, id, &s, &sk, &ck, max_blocks);
        c.window = c.window.min(2);
        c.request_timeout_ms = 2000;
        if !c.upload {
            c.window = 1;
            files.push((name.clone(), data.clone()));
        }
        let at = r.below(60_000);
        net.cut.push((Some(c.addr), None, clock::START + at, u64::MAX));
        net.cut.push((None, Some(c.addr), clock::START + at, u64::MAX));
        list.push((id, name, data, c.clone(), 2));
        clients.push(c);
        id += 1;
    }
    let mut conns = clients.len() as u64;
    let abusers = r.below(3) as usize;
    conns += abusers as u64;
    if r.chance(0.3) {
        // exactly as many as needed
        s.max_connections = conns as u16;
    }
    s.plans = plans;
    let session_ports: Vec<SocketAddr> = (40001..40001 + conns as u16).map(|p| SocketAddr::new(srv_addr().ip(), p)).collect();
    let mut x = Xfer::new(Some(s), clients, net);
    x.sched_jitter = *r.pick(&[0, 0, 50, 500]);

    for (n, d) in &files {
        x = x.file(n, d);
    }
    x = x.file("open", &r.bytes(3000));
    for i in 0..abusers {
        let a = abuser(&mut r, i);
        let at = r.below(30_000);
        x = x.setup(move |sh| {
            let me = a.me;
            sh.add_peer(&[me], Box::new(a), at);
        });
    }
    // strangers to the session ports, some of them with the address of a client and another port
    if r.chance(0.7) {
        let from: Vec<SocketAddr> = (0..4).map(|i| SocketAddr::new(cli_addr(i).ip(), 900 + i as u16)).chain([addr(30, 1, 69)]).collect();
        let st = crate::props::time::Stranger { from: from.clone(), to: session_ports.into_iter().chain([srv_addr()]).collect(), every_us: *r.pick(&[200, 2_000, 20_000]), until: clock::START + 3_000_000, sent: 0, no_requests: true };
        x = x.setup(move |sh| {
            sh.add_peer(&from, Box::new(st), 10);
        });
        case.count("worlds_with_strangers", 1);
    }
    let o = run(case, x);
    basic(case, &o);
    case.max("open_sessions", o.max_open as u64);
    case.nontrivial = o.max_open >= 2;
    for (i, name, data, c, kind) in &list {
        let what = format!("{} of {} B as {name} block {} window {} level {} beside {} others", if c.upload { "upload" } else { "download" }, data.len(), c.block_size, c.window, c.level, list.len() - 1 + abusers);
        let Some(res) = o.res(*i) else {
            case.fail(format!("{what}: the client did not return"));
            continue;
        };
        let key = if c.upload { format!("srv/{name}") } else { format!("cli/{i}") };
        let same = o.fs.get(&key).map(|v| v[..] == data[..]) == Some(true);
        let ms = (res.end - res.start) / 1000;
        match kind {
            0 => {
                case.count("undisturbed_sessions", 1);
                case.max("session_ms", ms);
                case.check(res.ok, || format!("{what}: {}", res.err));
                case.check(same && (!res.ok || res.count == data.len()), || format!("{what}: content or length differs"));
                case.check(ms < 8_000, || format!("{what}: took {ms} ms"));
            }
            1 => {
                case.count("failing_sessions", 1);
                case.check(!res.ok, || format!("{what}: succeeded although it cannot"));
            }
            _ => {
                case.count("cut_sessions", 1);
                case.check(!res.ok || same, || format!("{what}: success with other content"));
            }
        }
        case.sample = Some(format!("{what} -> ok {} in {ms} ms, {} sessions at once", res.ok, o.max_open));
    }
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}
