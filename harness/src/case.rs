//! One generated case: its random source, what it observed, what it found wrong.
use std::collections::BTreeMap;

use crate::rng::Rng;
use crate::world::{Ev, LogEv};

pub struct Case {
    pub rng: Rng,
    pub seed: u64,
    pub index: u64,
    pub viol: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub nontrivial: bool,
    /// fingerprint of the observed execution (kinds, order and outcome of its events)
    pub sig: u64,
    pub sample: Option<String>,
    pub trace: Vec<String>,
    pub thorough: bool,
    /// identification of a known, unrepaired finding this case ran into
    pub known: Vec<String>,
}

impl Case {
    pub fn new(rng: Rng, seed: u64, index: u64, thorough: bool) -> Case {
        Case {
            rng,
            seed,
            index,
            viol: vec![],
            counters: BTreeMap::new(),
            nontrivial: false,
            sig: 0xcbf2_9ce4_8422_2325,
            sample: None,
            trace: vec![],
            thorough,
            known: vec![],
        }
    }
    pub fn fail(&mut self, s: impl Into<String>) {
        let s = s.into();
        if self.viol.len() < 20 {
            self.viol.push(s);
        }
    }
    pub fn check(&mut self, ok: bool, s: impl FnOnce() -> String) {
        self.count("oracle_checks", 1);
        if !ok {
            let s = s();
            self.fail(s);
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counters.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(format!("max_{k}")).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn mix(&mut self, v: u64) {
        self.sig = (self.sig ^ v).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(5);
    }
    pub fn mix_bytes(&mut self, b: &[u8]) {
        for c in b {
            self.mix(*c as u64);
        }
    }
    /// fold the order and kind of the events of a log into the fingerprint
    pub fn observe(&mut self, log: &[LogEv]) {
        let mut events = 0;
        for e in log {
            events += 1;
            let v = match &e.ev {
                Ev::Send { data, real, .. } => 1 + kind(data).wrapping_mul(16) + *real as u64 * 8,
                Ev::Recv { data, .. } => 2 + kind(data).wrapping_mul(16),
                Ev::PeerRecv { data, .. } => 3 + kind(data).wrapping_mul(16),
                Ev::Fault { what, .. } => 4 + what.len() as u64 * 16,
                Ev::SockOpen { .. } => 5,
                Ev::SockClose { .. } => 6,
                Ev::StoreOpen { write, ok, .. } => 7 + 16 * (*write as u64 + 2 * *ok as u64),
                Ev::StoreWrite { .. } => 8,
                Ev::StoreRead { .. } => 9,
                Ev::StoreFault { .. } => 10,
                Ev::StoreClose { .. } => 11,
                Ev::ClientEnd { ok, .. } => 12 + 16 * *ok as u64,
                Ev::Note(_) => 13,
            };
            self.mix(v.wrapping_add(((e.actor + 1) as u64) << 32));
        }
        self.count("events", events);
    }
}

fn kind(d: &[u8]) -> u64 {
    if d.len() >= 4 {
        // opcode and block number identify the packet; encrypted ones differ in every byte
        let op = d[1] as u64;
        if d[0] == 0 && (3..=4).contains(&op) {
            return op | (d[2] as u64) << 12 | (d[3] as u64) << 4;
        }
        if d[0] == 0 && matches!(op, 1 | 2 | 5 | 6) {
            let mut h = 0xcbf2_9ce4_8422_2325u64;
            for c in d {
                h = (h ^ *c as u64).wrapping_mul(0x0000_0100_0000_01b3);
            }
            return h;
        }
        return op & 15;
    }
    d.len() as u64
}

pub fn hex(b: &[u8], max: usize) -> String {
    let mut s = String::new();
    for c in b.iter().take(max) {
        s.push_str(&format!("{c:02x}"));
    }
    if b.len() > max {
        s.push_str(&format!("..({})", b.len()));
    }
    s
}

pub fn show(e: &LogEv) -> String {
    let t = e.t.saturating_sub(crate::clock::START) as f64 / 1000.0;
    let d = |b: &[u8]| match crate::refcodec::Pk::dec(b) {
        Some(crate::refcodec::Pk::Data { block, data }) => format!("DATA {block} len {} [{}]", data.len(), hex(&data, 8)),
        Some(crate::refcodec::Pk::Error { code, msg }) => format!("ERROR {code} {:?}", String::from_utf8_lossy(&msg)),
        Some(crate::refcodec::Pk::Ack { block }) => format!("ACK {block}"),
        _ => format!("[{}] {:?}", hex(b, 24), String::from_utf8_lossy(&b[..b.len().min(120)])),
    };
    let s = match &e.ev {
        Ev::Send { src, dst, data, n, real } => format!("{} #{n} {src} -> {dst} {}", if *real { "send" } else { "peer-send" }, d(data)),
        Ev::Recv { at, src, data, sock } => format!("recv at {at} (sock {sock}) from {src} {}", d(data)),
        Ev::PeerRecv { at, src, data } => format!("peer-recv at {at} from {src} {}", d(data)),
        Ev::StoreWrite { id, off, data } => format!("store {id} write off {off} len {}", data.len()),
        o => format!("{o:?}"),
    };
    format!("{t:>12.3}ms a{} {s}", e.actor)
}
