//! Scripted peers: reference clients and servers written from the RFCs, with deliberate misbehaviour.
use std::any::Any;
use std::net::SocketAddr;

use crate::refcodec::{opt, Pk};
use crate::rng::Rng;
use crate::world::{Cx, Peer};

/// chances (per packet sent) of legal but unusual or hostile behaviour
#[derive(Clone, Debug, Default)]
pub struct Chaos {
    /// the packet is sent twice
    pub dup: f64,
    /// an older packet is sent again before it
    pub stale: f64,
    /// older data packets that are sent again carry other bytes
    pub alter: bool,
    /// a packet from beyond the window is sent first
    pub future: f64,
    /// the packet is left out (the timer repeats it)
    pub skip: f64,
    /// the packet is exchanged with the following one
    pub swap: f64,
    /// acknowledge before the window is full
    pub early: f64,
    /// a malformed packet is sent first
    pub junk: f64,
    /// an ERROR is sent in the middle and the transfer is carried on regardless
    pub error_at: Option<u64>,
    /// nothing more is sent after this many packets
    pub silent_after: Option<u64>,
    /// more data or acknowledgements after the end
    pub extra: bool,
    pub budget: u64,
    /// thinking time before each reply
    pub lag_us: u64,
}

impl Chaos {
    pub fn gen(r: &mut Rng) -> Chaos {
        let mut c = Chaos { budget: r.range(2, 60), ..Chaos::default() };
        let p = *r.pick(&[0.02, 0.1, 0.3]);
        for _ in 0..r.range(1, 4) {
            match r.below(7) {
                0 => c.dup = p,
                1 => c.stale = p,
                2 => c.future = p,
                3 => c.skip = p,
                4 => c.swap = p,
                5 => c.early = p,
                _ => c.junk = p,
            }
        }
        c.alter = r.chance(0.5);
        c.extra = r.chance(0.3);
        c.lag_us = *r.pick(&[0, 0, 100, 3_000, 30_000]);
        c
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Role {
    Sender,
    Receiver,
}

/// data phase, either direction
pub struct Flow {
    pub role: Role,
    pub me: SocketAddr,
    pub peer: SocketAddr,
    pub bs: usize,
    pub window: u64,
    pub data: Vec<u8>,
    pub chaos: Chaos,
    pub acked: u64,
    pub next: u64,
    pub total: u64,
    pub complete: bool,
    pub sent: u64,
    pub spent: u64,
    pub silent: bool,
    since_ack: u64,
    last_rewind: u64,
    pub packets_seen: u64,
    finals: u64,
    lag_until: u64,
}

impl Flow {
    pub fn sender(me: SocketAddr, peer: SocketAddr, bs: usize, window: u64, data: Vec<u8>, chaos: Chaos) -> Flow {
        let total = (data.len() / bs) as u64 + 1;
        Flow {
            role: Role::Sender,
            me,
            peer,
            bs,
            window,
            data,
            chaos,
            acked: 0,
            next: 1,
            total,
            complete: false,
            sent: 0,
            spent: 0,
            silent: false,
            since_ack: 0,
            last_rewind: u64::MAX,
            packets_seen: 0,
            finals: u64::MAX,
            lag_until: 0,
        }
    }
    pub fn receiver(me: SocketAddr, peer: SocketAddr, bs: usize, window: u64, chaos: Chaos) -> Flow {
        let mut f = Flow::sender(me, peer, bs, window, vec![], chaos);
        f.role = Role::Receiver;
        f.total = u64::MAX;
        f
    }

    fn out(&mut self, cx: &mut Cx, p: Vec<u8>) {
        if self.silent {
            return;
        }
        if self.chaos.silent_after.is_some_and(|n| self.sent >= n) {
            self.silent = true;
            return;
        }
        self.sent += 1;
        // the order of what is sent is kept: the lag only ever grows
        let at = (cx.now + if self.chaos.lag_us > 0 { cx.rng.below(self.chaos.lag_us) } else { 0 }).max(self.lag_until);
        self.lag_until = at + 1;
        cx.send_after(self.me, self.peer, p, at - cx.now);
        if self.chaos.error_at == Some(self.sent) {
            let e = Pk::Error { code: 0, msg: b"changed my mind".to_vec() }.enc();
            cx.send_after(self.me, self.peer, e, at + 1 - cx.now);
        }
    }

    fn act(&mut self, cx: &mut Cx, p: f64) -> bool {
        if p > 0.0 && self.spent < self.chaos.budget && cx.rng.chance(p) {
            self.spent += 1;
            return true;
        }
        false
    }

    pub fn block(&self, i: u64) -> Vec<u8> {
        let from = ((i - 1) as usize * self.bs).min(self.data.len());
        let to = (from + self.bs).min(self.data.len());
        Pk::Data { block: i as u16, data: self.data[from..to].to_vec() }.enc()
    }

    fn junk(&mut self, cx: &mut Cx) {
        let n = cx.rng.below(40) as usize;
        let mut b = cx.rng.bytes(n);
        match cx.rng.below(4) {
            0 if b.len() >= 2 => {
                // right opcode, too short or otherwise odd
                b.truncate(3);
                b[0] = 0;
                b[1] = *cx.rng.pick(&[3, 4]);
            }
            1 if b.len() >= 2 => {
                b[0] = 0;
                b[1] = *cx.rng.pick(&[0, 1, 2, 6, 7, 9]);
            }
            // never a well-formed packet of the data phase by accident
            _ if !b.is_empty() => b[0] |= 0x80,
            _ => (),
        }
        self.out(cx, b);
    }

    fn emit(&mut self, cx: &mut Cx, i: u64) {
        if self.act(cx, self.chaos.junk) {
            self.junk(cx);
        }
        if self.act(cx, self.chaos.stale) && i > 1 {
            let old = if cx.rng.chance(0.5) { i - 1 } else { 1 + cx.rng.below(i - 1) };
            // only within half of the number space is an old number recognisable
            if i - old < 30_000 {
                let mut b = self.block(old);
                // acknowledged blocks are known to be stored: their bytes must not matter any more
                if self.chaos.alter && old <= self.acked {
                    for c in b[4..].iter_mut() {
                        *c ^= 0x5a;
                    }
                    if cx.rng.chance(0.3) {
                        b.truncate(4 + cx.rng.below(b.len() as u64 - 3) as usize);
                    }
                }
                self.out(cx, b);
            }
        }
        if self.act(cx, self.chaos.future) {
            let ahead = i + 1 + cx.rng.below(self.window + 5);
            let b = if ahead <= self.total { self.block(ahead) } else { Pk::Data { block: ahead as u16, data: cx.rng.bytes(self.bs) }.enc() };
            self.out(cx, b);
        }
        if self.act(cx, self.chaos.skip) {
            return;
        }
        let b = self.block(i);
        self.out(cx, b.clone());
        if self.act(cx, self.chaos.dup) {
            self.out(cx, b);
        }
    }

    pub fn pump(&mut self, cx: &mut Cx) {
        while self.next <= (self.acked + self.window).min(self.total) {
            let last = (self.acked + self.window).min(self.total);
            if self.next < last && self.act(cx, self.chaos.swap) {
                let n = self.next;
                self.emit(cx, n + 1);
                self.emit(cx, n);
                self.next += 2;
            } else {
                let n = self.next;
                self.emit(cx, n);
                self.next += 1;
            }
        }
    }

    /// called once the transfer may start
    pub fn begin(&mut self, cx: &mut Cx) {
        if self.role == Role::Sender {
            self.pump(cx);
        }
        cx.timer(100_000, 1);
    }

    pub fn tick(&mut self, cx: &mut Cx) {
        if self.complete || self.silent {
            return;
        }
        if self.role == Role::Sender && self.acked == self.finals {
            self.next = self.acked + 1;
            self.pump(cx);
        }
        self.finals = self.acked;
        cx.timer(100_000, 1);
    }

    fn near(&self, n: u16, reference: u64) -> u64 {
        let base = reference as i64;
        let d = (n.wrapping_sub(reference as u16)) as i16 as i64;
        (base + d).max(0) as u64
    }

    pub fn ack(&mut self, cx: &mut Cx, n: u16) {
        self.packets_seen += 1;
        if self.complete {
            return;
        }
        let abs = self.near(n, self.acked);
        if abs > self.acked && abs <= self.total {
            self.acked = abs;
            if self.acked >= self.total {
                self.complete = true;
                if self.chaos.extra {
                    for k in 1..=3u64 {
                        let b = Pk::Data { block: (self.total + k) as u16, data: cx.rng.bytes(self.bs) }.enc();
                        self.out(cx, b);
                    }
                    let mut b = self.block(self.total);
                    b.extend_from_slice(&cx.rng.bytes(self.bs));
                    b.truncate(4 + self.bs);
                    self.out(cx, b);
                }
                return;
            }
            self.next = self.next.max(self.acked + 1);
            if self.next > self.acked + 1 {
                // a partial acknowledgement: the rest of the window was lost
                self.next = self.acked + 1;
            }
            self.pump(cx);
        } else if abs == self.acked && self.last_rewind != self.acked {
            self.last_rewind = self.acked;
            self.next = self.acked + 1;
            self.pump(cx);
        }
    }

    fn send_ack(&mut self, cx: &mut Cx, n: u64) {
        if self.act(cx, self.chaos.junk) {
            self.junk(cx);
        }
        if self.act(cx, self.chaos.stale) && n > 0 {
            let old = n - 1 - cx.rng.below(n.min(20));
            self.out(cx, Pk::Ack { block: old as u16 }.enc());
        }
        if self.act(cx, self.chaos.skip) {
            return;
        }
        self.out(cx, Pk::Ack { block: n as u16 }.enc());
        if self.act(cx, self.chaos.dup) {
            let k = 1 + cx.rng.below(3);
            for _ in 0..k {
                self.out(cx, Pk::Ack { block: n as u16 }.enc());
            }
        }
    }

    pub fn got_data(&mut self, cx: &mut Cx, n: u16, d: &[u8]) {
        self.packets_seen += 1;
        let have = self.next - 1;
        let abs = self.near(n, have);
        if !self.complete && abs == have + 1 && d.len() <= self.bs {
            self.data.extend_from_slice(d);
            self.next += 1;
            self.since_ack += 1;
            if d.len() < self.bs {
                self.complete = true;
                self.total = abs;
            }
            if self.complete || self.since_ack >= self.window || self.act(cx, self.chaos.early) {
                self.since_ack = 0;
                self.acked = abs;
                self.send_ack(cx, abs);
                if self.complete && self.chaos.extra {
                    self.out(cx, Pk::Ack { block: abs as u16 }.enc());
                }
            }
        } else {
            self.since_ack = 0;
            self.acked = have;
            self.send_ack(cx, have);
        }
    }
}

pub fn eff(o: &[(Vec<u8>, Vec<u8>)]) -> (usize, u64) {
    (opt(o, "blksize").and_then(|v| v.parse().ok()).unwrap_or(512), opt(o, "windowsize").and_then(|v| v.parse().ok()).unwrap_or(1))
}

/// a plain client
pub struct RawClient {
    pub me: SocketAddr,
    pub server: SocketAddr,
    pub upload: bool,
    pub request: Pk,
    pub data: Vec<u8>,
    pub chaos: Chaos,
    pub flow: Option<Flow>,
    pub first: Option<Pk>,
    pub first_len: usize,
    pub oack: Option<Vec<(Vec<u8>, Vec<u8>)>>,
    pub errors: Vec<(u16, String)>,
    pub replies: u64,
    pub ended: bool,
    pub give_up_us: u64,
    pub started: u64,
    pub end_at: u64,
    /// send the request again when nothing came back
    pub resend: bool,
    /// refuse the option acknowledgement with an error
    pub refuse: bool,
    pub raw_request: Option<Vec<u8>>,
    /// stop after the first reply
    pub only_first: bool,
}

impl RawClient {
    pub fn new(me: SocketAddr, server: SocketAddr, upload: bool, name: &str, opts: Vec<(Vec<u8>, Vec<u8>)>, data: Vec<u8>) -> RawClient {
        let (name, mode) = (name.as_bytes().to_vec(), b"octet".to_vec());
        RawClient {
            me,
            server,
            upload,
            request: if upload { Pk::Wrq { name, mode, opts } } else { Pk::Rrq { name, mode, opts } },
            data,
            chaos: Chaos::default(),
            flow: None,
            first: None,
            first_len: 0,
            oack: None,
            errors: vec![],
            replies: 0,
            ended: false,
            give_up_us: 30_000_000,
            started: 0,
            end_at: 0,
            resend: false,
            refuse: false,
            raw_request: None,
            only_first: false,
        }
    }
    pub fn ok(&self) -> bool {
        self.flow.as_ref().is_some_and(|f| f.complete)
    }
    pub fn got(&self) -> &[u8] {
        self.flow.as_ref().map(|f| &f.data[..]).unwrap_or(&[])
    }
    pub fn request_opts(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
        match &self.request {
            Pk::Rrq { opts, .. } | Pk::Wrq { opts, .. } => opts.clone(),
            _ => vec![],
        }
    }
    fn request_bytes(&self) -> Vec<u8> {
        self.raw_request.clone().unwrap_or_else(|| self.request.enc())
    }
}

impl Peer for RawClient {
    fn start(&mut self, cx: &mut Cx) {
        self.started = cx.now;
        cx.send(self.me, self.server, self.request_bytes());
        cx.timer(self.give_up_us, 99);
        if self.resend {
            cx.timer(1_000_000, 2);
        }
    }
    fn packet(&mut self, cx: &mut Cx, src: SocketAddr, _at: SocketAddr, data: &[u8]) {
        self.replies += 1;
        let pk = Pk::dec(data);
        if self.first.is_none() {
            self.first = pk.clone();
            self.first_len = data.len();
            if self.only_first {
                self.ended = true;
                self.end_at = cx.now;
                if let Some(Pk::Oack { opts }) = pk {
                    self.oack = Some(opts);
                }
                return;
            }
            let begin = match &pk {
                Some(Pk::Oack { opts }) => {
                    self.oack = Some(opts.clone());
                    if self.refuse {
                        cx.send(self.me, src, Pk::Error { code: 8, msg: b"no".to_vec() }.enc());
                        self.ended = true;
                        self.end_at = cx.now;
                        return;
                    }
                    true
                }
                Some(Pk::Ack { block: 0 }) if self.upload => true,
                Some(Pk::Data { block: 1, .. }) if !self.upload => true,
                _ => false,
            };
            if begin {
                let (bs, w) = eff(self.oack.as_deref().unwrap_or(&[]));
                let mut f = if self.upload {
                    Flow::sender(self.me, src, bs, w, self.data.clone(), self.chaos.clone())
                } else {
                    Flow::receiver(self.me, src, bs, w, self.chaos.clone())
                };
                if !self.upload && self.oack.is_some() {
                    f.out(cx, Pk::Ack { block: 0 }.enc());
                }
                f.begin(cx);
                self.flow = Some(f);
                if self.upload || self.oack.is_some() {
                    return;
                }
            }
        }
        match pk {
            Some(Pk::Error { code, msg }) => {
                self.errors.push((code, String::from_utf8_lossy(&msg).into_owned()));
                self.ended = true;
                self.end_at = cx.now;
            }
            Some(Pk::Ack { block }) if self.upload => {
                if let Some(f) = self.flow.as_mut() {
                    f.ack(cx, block);
                }
            }
            Some(Pk::Data { block, data }) if !self.upload => {
                if let Some(f) = self.flow.as_mut() {
                    f.got_data(cx, block, &data);
                }
            }
            Some(Pk::Oack { .. }) if !self.upload => {
                // the acknowledgement of the options was lost
                if let Some(f) = self.flow.as_mut() {
                    if f.next == 1 {
                        f.out(cx, Pk::Ack { block: 0 }.enc());
                    }
                }
            }
            _ => (),
        }
        if self.flow.as_ref().is_some_and(|f| f.complete) && !self.ended {
            self.ended = true;
            self.end_at = cx.now;
        }
    }
    fn timer(&mut self, cx: &mut Cx, id: u64) {
        match id {
            1 => {
                if let Some(f) = self.flow.as_mut() {
                    if !self.ended {
                        f.tick(cx);
                    }
                }
            }
            2 => {
                if self.first.is_none() && !self.ended {
                    cx.send(self.me, self.server, self.request_bytes());
                    cx.timer(1_000_000, 2);
                }
            }
            _ => {
                if !self.ended {
                    self.ended = true;
                    self.end_at = cx.now;
                }
            }
        }
    }
    fn done(&self) -> bool {
        self.ended || self.flow.as_ref().is_some_and(|f| f.silent)
    }
    fn as_any(&mut self) -> &mut dyn Any {
        self
    }
}

#[derive(Clone, Debug)]
pub enum Reply {
    Oack(Vec<(Vec<u8>, Vec<u8>)>),
    Plain,
    Error(u16, Vec<u8>),
    Raw(Vec<Vec<u8>>),
    Silence,
}

pub type Script = Box<dyn FnMut(&Pk, u64, &mut Rng) -> Reply + Send>;

/// a scripted server for one client
pub struct RawServer {
    pub me: SocketAddr,
    pub tid: SocketAddr,
    pub script: Script,
    pub data: Vec<u8>,
    pub chaos: Chaos,
    pub flow: Option<Flow>,
    pub requests: Vec<Pk>,
    pub errors: Vec<(u16, String)>,
    pub other: Vec<Vec<u8>>,
    pub is_read: bool,
    wait_ack0: bool,
    pub acks0: u64,
}

impl RawServer {
    pub fn new(me: SocketAddr, tid: SocketAddr, data: Vec<u8>, script: Script) -> RawServer {
        RawServer {
            me,
            tid,
            script,
            data,
            chaos: Chaos::default(),
            flow: None,
            requests: vec![],
            errors: vec![],
            other: vec![],
            is_read: false,
            wait_ack0: false,
            acks0: 0,
        }
    }
    pub fn ok(&self) -> bool {
        self.flow.as_ref().is_some_and(|f| f.complete)
    }
}

impl Peer for RawServer {
    fn start(&mut self, _cx: &mut Cx) {}
    fn packet(&mut self, cx: &mut Cx, src: SocketAddr, _at: SocketAddr, data: &[u8]) {
        let pk = Pk::dec(data);
        match pk {
            Some(p @ (Pk::Rrq { .. } | Pk::Wrq { .. })) => {
                self.requests.push(p.clone());
                if self.flow.is_some() {
                    return;
                }
                self.is_read = matches!(p, Pk::Rrq { .. });
                let n = self.requests.len() as u64 - 1;
                match (self.script)(&p, n, cx.rng) {
                    Reply::Oack(o) => {
                        let (bs, w) = eff(&o);
                        let (bs, w) = (bs.max(1), w.max(1));
                        cx.send(self.tid, src, Pk::Oack { opts: o }.enc());
                        self.wait_ack0 = self.is_read;
                        self.flow = Some(if self.is_read {
                            Flow::sender(self.tid, src, bs, w, self.data.clone(), self.chaos.clone())
                        } else {
                            Flow::receiver(self.tid, src, bs, w, self.chaos.clone())
                        });
                    }
                    Reply::Plain => {
                        let mut f = if self.is_read {
                            Flow::sender(self.tid, src, 512, 1, self.data.clone(), self.chaos.clone())
                        } else {
                            Flow::receiver(self.tid, src, 512, 1, self.chaos.clone())
                        };
                        if !self.is_read {
                            f.out(cx, Pk::Ack { block: 0 }.enc());
                        }
                        f.begin(cx);
                        self.flow = Some(f);
                    }
                    Reply::Error(c, m) => cx.send(self.tid, src, Pk::Error { code: c, msg: m }.enc()),
                    Reply::Raw(v) => {
                        for b in v {
                            cx.send(self.tid, src, b);
                        }
                    }
                    Reply::Silence => (),
                }
            }
            Some(Pk::Ack { block }) => {
                if block == 0 {
                    self.acks0 += 1;
                }
                if let Some(f) = self.flow.as_mut() {
                    if self.wait_ack0 {
                        if block == 0 {
                            self.wait_ack0 = false;
                            f.begin(cx);
                        }
                    } else if f.role == Role::Sender {
                        f.ack(cx, block);
                    }
                }
            }
            Some(Pk::Data { block, data }) => {
                if let Some(f) = self.flow.as_mut() {
                    if f.role == Role::Receiver {
                        f.got_data(cx, block, &data);
                    }
                }
            }
            Some(Pk::Error { code, msg }) => {
                self.errors.push((code, String::from_utf8_lossy(&msg).into_owned()));
                if let Some(f) = self.flow.as_mut() {
                    f.silent = true;
                }
            }
            _ => self.other.push(data.to_vec()),
        }
    }
    fn timer(&mut self, cx: &mut Cx, id: u64) {
        if id == 1 {
            if let Some(f) = self.flow.as_mut() {
                f.tick(cx);
            }
        }
    }
    fn as_any(&mut self) -> &mut dyn Any {
        self
    }
}

/// sends given datagrams at given times and records what comes back
pub struct Script1 {
    pub plan: Vec<(u64, SocketAddr, SocketAddr, Vec<u8>)>,
    pub got: Vec<(u64, SocketAddr, SocketAddr, Vec<u8>)>,
    at: usize,
}
impl Script1 {
    /// (delay from the start, source, destination, bytes), sorted by delay
    pub fn new(mut plan: Vec<(u64, SocketAddr, SocketAddr, Vec<u8>)>) -> Script1 {
        plan.sort_by_key(|p| p.0);
        Script1 { plan, got: vec![], at: 0 }
    }
}
impl Peer for Script1 {
    fn start(&mut self, cx: &mut Cx) {
        for (i, p) in self.plan.iter().enumerate() {
            cx.timer(p.0, i as u64);
        }
    }
    fn packet(&mut self, cx: &mut Cx, src: SocketAddr, at: SocketAddr, data: &[u8]) {
        self.got.push((cx.now, src, at, data.to_vec()));
    }
    fn timer(&mut self, cx: &mut Cx, id: u64) {
        let p = &self.plan[id as usize];
        cx.send(p.1, p.2, p.3.clone());
        self.at += 1;
    }
    fn done(&self) -> bool {
        true
    }
    fn as_any(&mut self) -> &mut dyn Any {
        self
    }
}
