//! Discrete-event world: virtual time, datagram network with faults, sockets, scripted peers,
//! storage with an operation log.  The code under test runs in OS threads that pass a baton: exactly
//! one of them runs at any moment, chosen by virtual wake-up time, so a run is a function of its seed.
use std::cell::Cell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, HashMap, VecDeque};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

use crate::clock;
use crate::rng::Rng;

pub type Bytes = Arc<[u8]>;

#[derive(Clone, Debug)]
pub struct Dgram {
    pub src: SocketAddr,
    pub dst: SocketAddr,
    pub data: Bytes,
    pub n: u64,
}

#[derive(Clone, Debug)]
pub enum Ev {
    /// a datagram put on the wire (`real`: by the code under test)
    Send { src: SocketAddr, dst: SocketAddr, data: Bytes, n: u64, real: bool },
    /// a datagram read by the code under test
    Recv { at: SocketAddr, src: SocketAddr, data: Bytes, sock: usize },
    /// a datagram that arrived at a scripted peer
    PeerRecv { at: SocketAddr, src: SocketAddr, data: Bytes },
    Fault { n: u64, what: &'static str },
    SockOpen { sock: usize, local: SocketAddr, peer: Option<SocketAddr> },
    SockClose { sock: usize },
    StoreOpen { id: usize, write: bool, path: String, ok: bool },
    StoreWrite { id: usize, off: usize, data: Bytes },
    StoreRead { id: usize, off: usize, len: usize },
    StoreFault { id: usize, what: &'static str },
    StoreClose { id: usize },
    ClientEnd { id: usize, ok: bool, count: usize, err: String },
    Note(String),
}

#[derive(Clone, Debug)]
pub struct LogEv {
    pub t: u64,
    pub actor: i32,
    pub ev: Ev,
}

#[derive(Clone, Debug, Default)]
pub struct Net {
    pub base_us: u64,
    pub jitter_us: u64,
    /// undisturbed packets between two endpoints keep their order despite the jitter
    pub fifo: bool,
    pub loss: f64,
    pub dup: f64,
    /// chance that a datagram is held back by up to `reorder_us`
    pub reorder: f64,
    pub reorder_us: u64,
    /// a duplicate arrives up to this much later
    pub dup_us: u64,
    pub corrupt: f64,
    /// random faults stop after this virtual time / number of faults
    pub until: u64,
    pub max_faults: u64,
    /// n-th datagram -> action (1 drop, 2 duplicate, 3 delay by reorder_us)
    pub targeted: HashMap<u64, u8>,
    /// drop everything sent by (src, dst) pairs from time t on
    pub cut: Vec<(Option<SocketAddr>, Option<SocketAddr>, u64, u64)>,
    pub icmp: bool,
}

impl Net {
    pub fn clean() -> Net {
        Net { base_us: 300, jitter_us: 200, fifo: true, until: u64::MAX, max_faults: u64::MAX, ..Net::default() }
    }
}

/// decides the fate of a datagram: None = use the normal policy
pub type Mitm = Box<dyn FnMut(&Dgram, u64, &mut Rng) -> Option<Vec<(u64, Dgram)>> + Send>;

pub struct Cx<'a> {
    pub now: u64,
    pub rng: &'a mut Rng,
    pub fs: &'a mut BTreeMap<String, Vec<u8>>,
    pub sends: Vec<(SocketAddr, SocketAddr, Vec<u8>, u64)>,
    pub timers: Vec<(u64, u64)>,
    pub notes: Vec<String>,
}

impl Cx<'_> {
    pub fn send(&mut self, src: SocketAddr, dst: SocketAddr, data: Vec<u8>) {
        self.sends.push((src, dst, data, 0));
    }
    pub fn send_after(&mut self, src: SocketAddr, dst: SocketAddr, data: Vec<u8>, delay: u64) {
        self.sends.push((src, dst, data, delay));
    }
    pub fn timer(&mut self, after_us: u64, id: u64) {
        self.timers.push((self.now + after_us, id));
    }
}

pub trait Peer: Send {
    fn start(&mut self, cx: &mut Cx);
    fn packet(&mut self, cx: &mut Cx, src: SocketAddr, at: SocketAddr, data: &[u8]);
    fn timer(&mut self, _cx: &mut Cx, _id: u64) {}
    fn done(&self) -> bool {
        true
    }
    fn as_any(&mut self) -> &mut dyn std::any::Any;
}

enum HeapEv {
    Deliver(Dgram),
    Timer { peer: usize, id: u64 },
    PeerStart(usize),
}

struct HeapItem {
    t: u64,
    seq: u64,
    ev: HeapEv,
}
impl PartialEq for HeapItem {
    fn eq(&self, o: &Self) -> bool {
        (self.t, self.seq) == (o.t, o.seq)
    }
}
impl Eq for HeapItem {}
impl PartialOrd for HeapItem {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for HeapItem {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.t, self.seq).cmp(&(o.t, o.seq))
    }
}

pub struct Sock {
    pub local: SocketAddr,
    pub peer: Option<SocketAddr>,
    pub key: usize,
    pub queue: VecDeque<Dgram>,
    pub open: bool,
    pub refused: bool,
    pub attached: bool,
    pub is_bound: bool,
}

#[derive(Default)]
struct Poll {
    /// (key, socket, armed)
    regs: Vec<(usize, usize, bool)>,
    notified: Vec<usize>,
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum St {
    Running,
    Blocked,
    Done,
}

struct Actor {
    st: St,
    socks: Vec<usize>,
    earliest: u64,
    deadline: u64,
    cv: Arc<Condvar>,
    client: bool,
}

pub struct Inner {
    pub gen: u64,
    seq: u64,
    heap: BinaryHeap<Reverse<HeapItem>>,
    pub socks: Vec<Sock>,
    polls: HashMap<usize, Poll>,
    actors: Vec<Actor>,
    pub peers: Vec<Option<Box<dyn Peer>>>,
    peer_addr: HashMap<SocketAddr, usize>,
    pub net: Net,
    pub mitm: Option<Mitm>,
    pub rng: Rng,
    pub log: Vec<LogEv>,
    pub log_on: bool,
    pub fs: BTreeMap<String, Vec<u8>>,
    pub faults: u64,
    in_order: HashMap<(SocketAddr, SocketAddr), u64>,
    pub sent: u64,
    pending_attach: usize,
    pub shutdown: bool,
    finished: bool,
    end_at: Option<u64>,
    pub linger_us: u64,
    pub max_time: u64,
    pub timed_out: bool,
    pub stop_requested: bool,
    shutdown_calls: u64,
    next_port: u16,
    pub store_ids: usize,
    pub store_ops: HashMap<usize, u64>,
    pub max_open_bound: usize,
    pub open_stores: usize,
    pub sched_jitter: u64,
    pub switches: u64,
    pub max_events: u64,
    events: u64,
    pub recv_queue: usize,
    pub last_fault: u64,
    pub open_at_shutdown: usize,
    pub stores_at_shutdown: usize,
    /// creating a session socket for a client at this address fails
    pub bind_fail: Option<std::net::IpAddr>,
}

pub struct Shared {
    m: Mutex<Inner>,
    attach_cv: Condvar,
    done_cv: Condvar,
}

thread_local! {
    static ACTOR: Cell<(u64, usize)> = const { Cell::new((0, usize::MAX)) };
    static GUARD: std::cell::RefCell<Option<Finish>> = const { std::cell::RefCell::new(None) };
}

struct Finish {
    sh: Arc<Shared>,
    id: usize,
}
impl Drop for Finish {
    fn drop(&mut self) {
        self.sh.finish(self.id);
    }
}

static GEN: AtomicU64 = AtomicU64::new(1);
pub static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// every byte which leaves the code under test decides about a branch, so that memory checkers see whether it was ever written
#[inline(never)]
pub fn watch(bytes: &[u8]) {
    let mut x = 0u8;
    for b in bytes {
        x = x.rotate_left(1) ^ *b;
    }
    if std::hint::black_box(x) == 0xa5 {
        std::hint::black_box(bytes.len());
    }
}

pub fn take_panics() -> Vec<String> {
    std::mem::take(&mut *PANICS.lock().unwrap_or_else(|e| e.into_inner()))
}

pub struct ShutdownPanic;

impl Shared {
    pub fn new(rng: Rng, net: Net) -> Arc<Shared> {
        clock::NOW_US.store(clock::START, Ordering::SeqCst);
        Arc::new(Shared {
            m: Mutex::new(Inner {
                gen: GEN.fetch_add(1, Ordering::SeqCst),
                seq: 0,
                heap: BinaryHeap::new(),
                socks: Vec::new(),
                polls: HashMap::new(),
                actors: Vec::new(),
                peers: Vec::new(),
                peer_addr: HashMap::new(),
                net,
                mitm: None,
                rng,
                log: Vec::new(),
                log_on: true,
                fs: BTreeMap::new(),
                faults: 0,
                in_order: HashMap::new(),
                sent: 0,
                pending_attach: 0,
                shutdown: false,
                finished: false,
                end_at: None,
                linger_us: 0,
                max_time: clock::START + 600_000_000,
                timed_out: false,
                stop_requested: false,
                shutdown_calls: 0,
                next_port: 40000,
                store_ids: 0,
                store_ops: HashMap::new(),
                max_open_bound: 0,
                open_stores: 0,
                sched_jitter: 0,
                switches: 0,
                max_events: 20_000_000,
                events: 0,
                recv_queue: 4096,
                last_fault: 0,
                open_at_shutdown: 0,
                stores_at_shutdown: 0,
                bind_fail: None,
            }),
            attach_cv: Condvar::new(),
            done_cv: Condvar::new(),
        })
    }

    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }

    pub fn add_peer(&self, addrs: &[SocketAddr], peer: Box<dyn Peer>, start_after: u64) -> usize {
        let mut g = self.lock();
        let id = g.peers.len();
        g.peers.push(Some(peer));
        for a in addrs {
            g.peer_addr.insert(*a, id);
        }
        let t = clock::now() + start_after;
        g.push(t, HeapEv::PeerStart(id));
        id
    }

    /// run `f` as an actor, first scheduled after `start_after` microseconds
    pub fn spawn<F: FnOnce() + Send + 'static>(self: &Arc<Self>, client: bool, start_after: u64, f: F) -> std::thread::JoinHandle<()> {
        let (id, gen, cv) = {
            let mut g = self.lock();
            let cv = Arc::new(Condvar::new());
            let t = clock::now() + start_after;
            g.actors.push(Actor { st: St::Blocked, socks: vec![], earliest: t, deadline: t, cv: cv.clone(), client });
            (g.actors.len() - 1, g.gen, cv)
        };
        let sh = self.clone();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                ACTOR.with(|a| a.set((gen, id)));
                {
                    let mut g = sh.lock();
                    while g.actors[id].st != St::Running {
                        g = cv.wait(g).unwrap_or_else(|e| e.into_inner());
                    }
                }
                let fin = Finish { sh: sh.clone(), id };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                let _ = r;
                drop(fin);
            })
            .expect("thread")
    }

    /// start scheduling and wait until everything has ended
    pub fn run(self: &Arc<Self>) {
        let mut g = self.lock();
        if let Some(n) = g.pick() {
            g.wake(n);
        }
        if g.actors.iter().all(|a| a.st == St::Done) {
            g.finished = true;
        }
        while !g.finished {
            g = self.done_cv.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }

    fn finish(&self, id: usize) {
        let mut g = self.lock();
        g.actors[id].st = St::Done;
        g = self.wait_attach(g);
        match g.pick() {
            Some(n) => g.wake(n),
            None => {
                g.finished = true;
                self.done_cv.notify_all();
            }
        }
    }

    fn wait_attach<'a>(&'a self, mut g: MutexGuard<'a, Inner>) -> MutexGuard<'a, Inner> {
        while g.pending_attach > 0 {
            g = self.attach_cv.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        g
    }

    /// the actor of this thread; a thread of the code under test becomes an actor at its first socket call
    fn me(self: &Arc<Self>, sock: Option<usize>) -> usize {
        let (gen, id) = ACTOR.with(|a| a.get());
        let mut g = self.lock();
        if gen == g.gen && id != usize::MAX {
            return id;
        }
        let cv = Arc::new(Condvar::new());
        let now = clock::now();
        g.actors.push(Actor { st: St::Blocked, socks: vec![], earliest: now, deadline: now, cv: cv.clone(), client: false });
        let id = g.actors.len() - 1;
        ACTOR.with(|a| a.set((g.gen, id)));
        if let Some(s) = sock {
            if !g.socks[s].attached {
                g.socks[s].attached = true;
                g.pending_attach -= 1;
                self.attach_cv.notify_all();
            }
        }
        while g.actors[id].st != St::Running {
            g = cv.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        drop(g);
        GUARD.with(|x| *x.borrow_mut() = Some(Finish { sh: self.clone(), id }));
        id
    }

    /// give up the baton until one of `socks` has a datagram or `wait` has passed
    fn block(self: &Arc<Self>, id: usize, socks: Vec<usize>, wait: Option<u64>) {
        let mut g = self.lock();
        let now = clock::now();
        let jit = if g.sched_jitter > 0 { let j = g.sched_jitter; g.rng.below(j) } else { 0 };
        let cost = 12 + jit;
        g.actors[id].earliest = now + cost;
        g.actors[id].deadline = now + cost + wait.unwrap_or(0);
        g.actors[id].socks = socks;
        g.actors[id].st = St::Blocked;
        g = self.wait_attach(g);
        match g.pick() {
            Some(n) if n == id => {
                g.actors[id].st = St::Running;
            }
            Some(n) => {
                g.switches += 1;
                g.wake(n);
                let cv = g.actors[id].cv.clone();
                while g.actors[id].st != St::Running {
                    g = cv.wait(g).unwrap_or_else(|e| e.into_inner());
                }
            }
            None => unreachable!("the caller can always run"),
        }
    }

    pub fn note(&self, s: String) {
        self.lock().ev(Ev::Note(s));
    }

    // ---- sockets -------------------------------------------------------------------------------

    pub fn open_socket(&self, mut local: SocketAddr, peer: Option<SocketAddr>, key: usize, bound: bool) -> usize {
        let mut g = self.lock();
        if local.port() == 0 {
            g.next_port += 1;
            let p = g.next_port;
            local.set_port(p);
        }
        g.socks.push(Sock { local, peer, key, queue: VecDeque::new(), open: true, refused: false, attached: !bound || cfg!(not(feature = "mt")), is_bound: bound });
        let id = g.socks.len() - 1;
        if bound {
            if cfg!(feature = "mt") {
                g.pending_attach += 1;
            }
            let open = g.open_bound();
            g.max_open_bound = g.max_open_bound.max(open);
        }
        g.ev(Ev::SockOpen { sock: id, local, peer });
        id
    }

    fn close_socket(&self, id: usize) {
        let mut g = self.lock();
        g.socks[id].open = false;
        g.socks[id].queue.clear();
        if !g.socks[id].attached {
            g.socks[id].attached = true;
            g.pending_attach -= 1;
            self.attach_cv.notify_all();
        }
        for p in g.polls.values_mut() {
            p.regs.retain(|r| r.1 != id);
        }
        g.ev(Ev::SockClose { sock: id });
    }
}

impl Inner {
    fn push(&mut self, t: u64, ev: HeapEv) {
        self.seq += 1;
        let seq = self.seq;
        self.heap.push(Reverse(HeapItem { t, seq, ev }));
    }

    pub fn ev(&mut self, ev: Ev) {
        if self.log_on {
            let (gen, id) = ACTOR.with(|a| a.get());
            let actor = if gen == self.gen && id != usize::MAX { id as i32 } else { -1 };
            self.log.push(LogEv { t: clock::now(), actor, ev });
        }
    }

    pub fn open_bound(&self) -> usize {
        self.socks.iter().filter(|s| s.open && s.is_bound).count()
    }

    fn wake(&mut self, n: usize) {
        self.actors[n].st = St::Running;
        self.actors[n].cv.notify_all();
    }

    fn should_end(&mut self) -> bool {
        if self.shutdown {
            return true;
        }
        let now = clock::now();
        if now >= self.max_time || self.events >= self.max_events {
            self.timed_out = true;
            return true;
        }
        if self.stop_requested {
            return true;
        }
        let idle = self.actors.iter().all(|a| !a.client || a.st == St::Done) && self.peers.iter().all(|p| p.as_ref().is_none_or(|p| p.done()));
        if !idle {
            self.end_at = None;
            return false;
        }
        let linger = self.linger_us;
        let end = *self.end_at.get_or_insert(now + linger);
        now >= end
    }

    /// advance the world until some blocked actor should run
    fn pick(&mut self) -> Option<usize> {
        loop {
            self.events += 1;
            if self.should_end() {
                if !self.shutdown {
                    self.shutdown = true;
                    self.open_at_shutdown = self.open_bound();
                    self.stores_at_shutdown = self.open_stores;
                }
                return self.actors.iter().position(|a| a.st == St::Blocked);
            }
            let now = clock::now();
            let mut best: Option<(u64, usize)> = None;
            let mut ties = 0;
            for i in 0..self.actors.len() {
                let a = &self.actors[i];
                if a.st != St::Blocked {
                    continue;
                }
                let ready = a.socks.iter().any(|s| !self.socks[*s].queue.is_empty() || self.socks[*s].refused);
                let t = if ready { a.earliest } else { a.deadline }.max(now);
                match best {
                    Some((bt, _)) if bt < t => (),
                    Some((bt, _)) if bt == t => {
                        ties += 1;
                        if self.rng.below(ties + 1) == 0 {
                            best = Some((t, i));
                        }
                    }
                    _ => {
                        ties = 0;
                        best = Some((t, i));
                    }
                }
            }
            let te = self.heap.peek().map(|e| e.0.t);
            let run_event = match (te, best) {
                (Some(te), Some((ta, _))) => te <= ta,
                (Some(_), None) => true,
                (None, Some(_)) => false,
                (None, None) => return None,
            };
            // never jump past the point where the world is to end
            let next = if run_event { te.unwrap_or(now) } else { best.map(|b| b.0).unwrap_or(now) };
            let limit = self.end_at.unwrap_or(u64::MAX).min(self.max_time);
            if next > limit && limit > now {
                clock::NOW_US.store(limit, Ordering::SeqCst);
                continue;
            }
            if next > now {
                clock::NOW_US.store(next, Ordering::SeqCst);
            }
            if run_event {
                let item = self.heap.pop().expect("peeked").0;
                self.event(item.ev);
                continue;
            }
            return best.map(|b| b.1);
        }
    }

    fn event(&mut self, ev: HeapEv) {
        match ev {
            HeapEv::Deliver(d) => self.deliver(d),
            HeapEv::Timer { peer, id } => self.with_peer(peer, |p, cx| p.timer(cx, id)),
            HeapEv::PeerStart(peer) => self.with_peer(peer, |p, cx| p.start(cx)),
        }
    }

    fn with_peer(&mut self, i: usize, f: impl FnOnce(&mut Box<dyn Peer>, &mut Cx)) {
        let Some(mut p) = self.peers[i].take() else { return };
        let mut rng = self.rng.fork();
        let mut fs = std::mem::take(&mut self.fs);
        let mut cx = Cx { now: clock::now(), rng: &mut rng, fs: &mut fs, sends: vec![], timers: vec![], notes: vec![] };
        f(&mut p, &mut cx);
        let (sends, timers, notes) = (cx.sends, cx.timers, cx.notes);
        self.fs = fs;
        self.peers[i] = Some(p);
        for n in notes {
            self.ev(Ev::Note(n));
        }
        for (src, dst, data, delay) in sends {
            self.transmit(src, dst, data.into(), false, delay);
        }
        for (t, id) in timers {
            self.push(t, HeapEv::Timer { peer: i, id });
        }
    }

    fn deliver(&mut self, d: Dgram) {
        if let Some(p) = self.peer_addr.get(&d.dst).copied() {
            self.ev(Ev::PeerRecv { at: d.dst, src: d.src, data: d.data.clone() });
            self.with_peer(p, |peer, cx| peer.packet(cx, d.src, d.dst, &d.data));
            return;
        }
        let mut hit = None;
        for (i, s) in self.socks.iter().enumerate().rev() {
            if s.open && s.local == d.dst {
                if s.peer == Some(d.src) {
                    hit = Some(i);
                    break;
                }
                if s.peer.is_none() && hit.is_none() {
                    hit = Some(i);
                }
            }
        }
        match hit {
            Some(i) => {
                if self.socks[i].queue.len() < self.recv_queue {
                    self.socks[i].queue.push_back(d);
                }
            }
            None => {
                if self.net.icmp {
                    for s in self.socks.iter_mut() {
                        if s.open && s.local == d.src && s.peer == Some(d.dst) {
                            s.refused = true;
                        }
                    }
                }
            }
        }
    }

    fn fault(&mut self, n: u64, what: &'static str) {
        self.faults += 1;
        self.last_fault = clock::now();
        self.ev(Ev::Fault { n, what });
    }

    fn transmit(&mut self, src: SocketAddr, dst: SocketAddr, data: Bytes, real: bool, extra: u64) {
        let n = self.sent;
        self.sent += 1;
        self.ev(Ev::Send { src, dst, data: data.clone(), n, real });
        let now = clock::now();
        let d = Dgram { src, dst, data, n };
        if let Some(mut m) = self.mitm.take() {
            let mut rng = self.rng.fork();
            let r = m(&d, now, &mut rng);
            self.mitm = Some(m);
            if let Some(list) = r {
                for (delay, d) in list {
                    self.push(now + delay + extra, HeapEv::Deliver(d));
                }
                return;
            }
        }
        for i in 0..self.net.cut.len() {
            let (s, t, from, to) = self.net.cut[i];
            if now >= from && now < to && s.is_none_or(|s| s == src) && t.is_none_or(|t| t == dst) {
                self.fault(n, "cut");
                return;
            }
        }
        let mut delay = self.net.base_us + extra;
        if self.net.jitter_us > 0 {
            let j = self.net.jitter_us;
            delay += self.rng.below(j);
        }
        if self.net.fifo && extra == 0 {
            let last = self.in_order.entry((src, dst)).or_insert(0);
            *last = (*last).max(now + delay);
            delay = *last - now;
        }
        match self.net.targeted.get(&n).copied() {
            Some(1) => {
                self.fault(n, "drop");
                return;
            }
            Some(2) => {
                self.fault(n, "dup");
                let d2 = self.rng.below(self.net.dup_us.max(1));
                self.push(now + delay + d2, HeapEv::Deliver(d.clone()));
            }
            Some(3) => {
                self.fault(n, "delay");
                delay += self.net.reorder_us;
            }
            _ => (),
        }
        if now < self.net.until && self.faults < self.net.max_faults {
            if self.rng.chance(self.net.loss) {
                self.fault(n, "drop");
                return;
            }
            if self.rng.chance(self.net.dup) {
                self.fault(n, "dup");
                let d2 = self.rng.below(self.net.dup_us.max(1));
                self.push(now + delay + d2, HeapEv::Deliver(d.clone()));
            }
            if self.rng.chance(self.net.reorder) {
                self.fault(n, "delay");
                delay += self.rng.below(self.net.reorder_us.max(1));
            }
        }
        self.push(now + delay, HeapEv::Deliver(d));
    }

    pub fn peer_mut<T: 'static>(&mut self, i: usize) -> &mut T {
        self.peers[i].as_mut().expect("peer").as_any().downcast_mut::<T>().expect("peer type")
    }
}

// ---- mock sockets ------------------------------------------------------------------------------

use std::time::Duration;
use tftp_dus::socket::{BoundSocket, Socket, SocketRawFd, ToSocketId};
use tftp_dus::std_compat::io;
use tftp_dus::types::DataBuffer;

fn err(k: io::ErrorKind) -> io::Error {
    io::Error::from(k)
}

/// what a real host answers when asked to send there
fn unsendable(a: SocketAddr) -> Option<io::Error> {
    if a.port() == 0 {
        return Some(err(io::ErrorKind::InvalidInput));
    }
    match a.ip() {
        std::net::IpAddr::V4(v) if v.is_broadcast() => Some(err(io::ErrorKind::PermissionDenied)),
        _ => None,
    }
}

pub struct MockSocket {
    sh: Arc<Shared>,
    id: usize,
    key: usize,
    server: bool,
}

impl MockSocket {
    pub fn new(sh: &Arc<Shared>, local: SocketAddr, key: usize, server: bool) -> Self {
        let id = sh.open_socket(local, None, key, false);
        if server {
            sh.lock().polls.insert(id, Poll { regs: vec![(key, id, true)], notified: vec![] });
        }
        MockSocket { sh: sh.clone(), id, key, server }
    }
}

impl Drop for MockSocket {
    fn drop(&mut self) {
        self.sh.close_socket(self.id);
    }
}

fn on_shutdown(g: &mut Inner) -> io::Error {
    g.shutdown_calls += 1;
    if g.shutdown_calls > 20_000 {
        std::panic::resume_unwind(Box::new(ShutdownPanic));
    }
    err(io::ErrorKind::Other)
}

fn take(g: &mut Inner, id: usize, buff: &mut [u8]) -> Option<(usize, SocketAddr)> {
    let d = g.socks[id].queue.pop_front()?;
    let n = d.data.len().min(buff.len());
    buff[..n].copy_from_slice(&d.data[..n]);
    let at = g.socks[id].local;
    g.ev(Ev::Recv { at, src: d.src, data: d.data.clone(), sock: id });
    Some((n, d.src))
}

impl Socket for MockSocket {
    fn recv_from(&mut self, buff: &mut DataBuffer, wait_for: Option<Duration>) -> io::Result<(usize, SocketAddr)> {
        let me = self.sh.me(None);
        let socks = if self.server {
            let mut g = self.sh.lock();
            let p = g.polls.get_mut(&self.id).expect("poller");
            p.notified.retain(|k| *k != self.key);
            for r in p.regs.iter_mut() {
                if r.0 == self.key {
                    r.2 = true;
                }
            }
            p.regs.iter().filter(|r| r.2).map(|r| r.1).collect()
        } else {
            vec![self.id]
        };
        let armed = socks.clone();
        self.sh.block(me, socks, wait_for.map(|d| d.as_micros() as u64));
        let mut g = self.sh.lock();
        if g.shutdown {
            return Err(on_shutdown(&mut g));
        }
        if self.server {
            let ready: Vec<usize> = armed.iter().copied().filter(|s| g.socks[*s].open && (!g.socks[*s].queue.is_empty() || g.socks[*s].refused)).collect();
            let p = g.polls.get_mut(&self.id).expect("poller");
            for r in p.regs.iter_mut() {
                if ready.contains(&r.1) {
                    r.2 = false;
                    if !p.notified.contains(&r.0) {
                        p.notified.push(r.0);
                    }
                }
            }
        }
        take(&mut g, self.id, buff).ok_or_else(|| err(io::ErrorKind::WouldBlock))
    }

    fn send_to(&self, buff: &mut DataBuffer, addr: SocketAddr) -> io::Result<usize> {
        self.sh.me(None);
        let mut g = self.sh.lock();
        if let Some(e) = unsendable(addr) {
            return Err(e);
        }
        let src = g.socks[self.id].local;
        clock::NOW_US.fetch_add(5, Ordering::SeqCst);
        watch(&buff[..]);
        let data: Bytes = buff[..].into();
        g.transmit(src, addr, data, true, 0);
        Ok(buff.len())
    }

    fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.sh.lock().socks[self.id].local)
    }

    fn modify_interest(&mut self, socket_id: usize, raw_fd: SocketRawFd) -> io::Result<()> {
        let mut g = self.sh.lock();
        let Some(p) = g.polls.get_mut(&self.id) else { return Ok(()) };
        p.notified.retain(|k| *k != socket_id);
        for r in p.regs.iter_mut() {
            if r.1 == raw_fd as usize {
                r.2 = true;
                r.0 = socket_id;
            }
        }
        Ok(())
    }

    #[cfg(not(feature = "mt"))]
    fn notified(&self, s: &impl ToSocketId) -> bool {
        let g = self.sh.lock();
        g.polls.get(&self.id).is_some_and(|p| p.notified.contains(&s.socket_id()))
    }

    #[cfg(not(feature = "mt"))]
    fn add_interest(&self, s: &impl ToSocketId) -> io::Result<()> {
        let mut g = self.sh.lock();
        let (key, fd) = (s.socket_id(), s.as_raw_fd() as usize);
        if let Some(p) = g.polls.get_mut(&self.id) {
            p.regs.push((key, fd, true));
        }
        Ok(())
    }
}

impl ToSocketId for MockSocket {
    fn as_raw_fd(&self) -> SocketRawFd {
        self.id as SocketRawFd
    }
    fn socket_id(&self) -> usize {
        self.key
    }
}

pub struct MockBound {
    sh: Arc<Shared>,
    id: usize,
    key: usize,
}

impl MockBound {
    pub fn new(sh: &Arc<Shared>, local: SocketAddr, key: usize, peer: SocketAddr) -> Self {
        let id = sh.open_socket(local, Some(peer), key, true);
        MockBound { sh: sh.clone(), id, key }
    }
}

impl Drop for MockBound {
    fn drop(&mut self) {
        self.sh.close_socket(self.id);
    }
}

impl BoundSocket for MockBound {
    fn recv(&mut self, buff: &mut DataBuffer, wait_for: Option<Duration>) -> io::Result<usize> {
        let me = self.sh.me(Some(self.id));
        if wait_for.is_some() || cfg!(feature = "mt") {
            self.sh.block(me, vec![self.id], wait_for.map(|d| d.as_micros() as u64));
        }
        let mut g = self.sh.lock();
        if g.shutdown {
            return Err(on_shutdown(&mut g));
        }
        if g.socks[self.id].refused {
            g.socks[self.id].refused = false;
            return Err(err(io::ErrorKind::ConnectionRefused));
        }
        take(&mut g, self.id, buff).map(|x| x.0).ok_or_else(|| err(io::ErrorKind::WouldBlock))
    }

    fn send(&self, buff: &mut DataBuffer) -> io::Result<usize> {
        self.sh.me(Some(self.id));
        let mut g = self.sh.lock();
        if g.socks[self.id].refused {
            g.socks[self.id].refused = false;
            return Err(err(io::ErrorKind::ConnectionRefused));
        }
        let (src, dst) = (g.socks[self.id].local, g.socks[self.id].peer.expect("bound"));
        if let Some(e) = unsendable(dst) {
            return Err(e);
        }
        clock::NOW_US.fetch_add(5, Ordering::SeqCst);
        watch(&buff[..]);
        let data: Bytes = buff[..].into();
        g.transmit(src, dst, data, true, 0);
        Ok(buff.len())
    }

    fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.sh.lock().socks[self.id].local)
    }
}

impl ToSocketId for MockBound {
    fn as_raw_fd(&self) -> SocketRawFd {
        self.id as SocketRawFd
    }
    fn socket_id(&self) -> usize {
        self.key
    }
}
