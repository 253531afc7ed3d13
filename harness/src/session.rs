//! Worlds with a real server and real clients, and what came out of them.
use std::collections::BTreeMap;
use std::sync::Arc;

use crate::case::{show, Case};
use crate::endpoints::*;
use crate::rng::{seed_sim, Rng};
use crate::world::*;

pub type Setup = Box<dyn FnOnce(&Arc<Shared>)>;

pub struct Xfer {
    pub server: Option<ServerSpec>,
    pub clients: Vec<ClientSpec>,
    pub net: Net,
    pub files: Vec<(String, Vec<u8>)>,
    pub linger_us: u64,
    pub max_secs: u64,
    pub setup: Vec<Setup>,
    pub sched_jitter: u64,
    pub max_events: u64,
    pub log: bool,
}

impl Xfer {
    pub fn new(server: Option<ServerSpec>, clients: Vec<ClientSpec>, net: Net) -> Xfer {
        Xfer {
            server,
            clients,
            net,
            files: vec![],
            linger_us: 0,
            max_secs: 600,
            setup: vec![],
            sched_jitter: 0,
            max_events: 5_000_000,
            log: true,
        }
    }
    pub fn file(mut self, name: &str, data: &[u8]) -> Xfer {
        self.files.push((format!("srv/{name}"), data.to_vec()));
        self
    }
    pub fn setup(mut self, f: impl FnOnce(&Arc<Shared>) + 'static) -> Xfer {
        self.setup.push(Box::new(f));
        self
    }
}

pub struct Outcome {
    pub log: Vec<LogEv>,
    pub results: Vec<ClientRes>,
    pub fs: BTreeMap<String, Vec<u8>>,
    pub panics: Vec<String>,
    pub timed_out: bool,
    pub faults: u64,
    pub last_fault: u64,
    pub sent: u64,
    pub max_open: usize,
    pub open_at_end: usize,
    pub stores_at_end: usize,
    pub end: u64,
    pub server_ended: bool,
    pub peers: Vec<Option<Box<dyn Peer>>>,
    pub switches: u64,
}

impl Outcome {
    pub fn res(&self, id: usize) -> Option<&ClientRes> {
        self.results.iter().find(|r| r.id == id)
    }
    pub fn peer<T: 'static>(&mut self, i: usize) -> &mut T {
        self.peers[i].as_mut().expect("peer").as_any().downcast_mut::<T>().expect("peer type")
    }
}

pub fn run(case: &mut Case, x: Xfer) -> Outcome {
    let world_rng: Rng = case.rng.fork();
    seed_sim(case.rng.next());
    take_panics();
    let sh = Shared::new(world_rng, x.net);
    {
        let mut g = sh.lock();
        g.linger_us = x.linger_us;
        g.max_time = crate::clock::START + x.max_secs * 1_000_000;
        g.sched_jitter = x.sched_jitter;
        g.max_events = x.max_events;
        g.log_on = x.log;
        for (k, v) in x.files {
            g.fs.insert(k, v);
        }
    }
    for f in x.setup {
        f(&sh);
    }
    let results: Results = Default::default();
    let mut handles = vec![];
    let has_server = x.server.is_some();
    if let Some(s) = x.server {
        handles.push(spawn_server(&sh, s));
    }
    for c in x.clients {
        handles.push(spawn_client(&sh, c, &results));
    }
    sh.run();
    for h in handles {
        let _ = h.join();
    }
    let mut g = sh.lock();
    let mut out = Outcome {
        log: std::mem::take(&mut g.log),
        results: std::mem::take(&mut *results.lock().unwrap_or_else(|e| e.into_inner())),
        fs: std::mem::take(&mut g.fs),
        panics: take_panics(),
        timed_out: g.timed_out,
        faults: g.faults,
        last_fault: g.last_fault,
        sent: g.sent,
        max_open: g.max_open_bound,
        open_at_end: 0,
        stores_at_end: 0,
        end: crate::clock::now(),
        server_ended: false,
        peers: std::mem::take(&mut g.peers),
        switches: g.switches,
    };
    // what was still open just before the world shut down
    out.open_at_end = g.open_at_shutdown;
    out.stores_at_end = g.stores_at_shutdown;
    drop(g);
    if has_server {
        out.server_ended = out.log.iter().any(|e| matches!(&e.ev, Ev::Note(s) if s.starts_with("server ended")));
    }
    case.observe(&out.log);
    case.count("packets", out.sent);
    case.count("faults", out.faults);
    case.count("thread_switches", out.switches);
    if std::env::var_os("VERIF_TRACE").is_some() {
        for e in &out.log {
            eprintln!("{}", show(e));
        }
        for r in &out.results {
            eprintln!("result client {} ok {} count {} err {:?} stored {:?}", r.id, r.ok, r.count, r.err, r.stored.as_ref().map(|s| s.len()));
        }
        for p in &out.panics {
            eprintln!("panic {p}");
        }
    }
    out
}

/// keep the end of the log for the replay file
pub fn keep_trace(case: &mut Case, o: &Outcome) {
    let n = o.log.len();
    let head = 120.min(n);
    for e in &o.log[..head] {
        case.trace.push(show(e));
    }
    if n > head {
        let from = head.max(n.saturating_sub(280));
        if from > head {
            case.trace.push(format!("... {} events ...", from - head));
        }
        for e in &o.log[from..] {
            case.trace.push(show(e));
        }
    }
    for p in &o.panics {
        case.trace.push(format!("panic {p}"));
    }
}

/// checks that hold in every world: no panic, the world came to an end, the server stayed up
pub fn basic(case: &mut Case, o: &Outcome) {
    for p in &o.panics {
        case.fail(format!("panic: {p}"));
    }
    if o.server_ended {
        case.fail("the server stopped");
    }
    if o.timed_out {
        case.fail("a call did not return within the bounds of the world");
    }
}
