//! C05, C06: deadlines when the peer falls silent, and files of more than 65535 blocks.
use std::any::Any;
use std::net::SocketAddr;

use tftp_dus::encryption::EncryptionLevel;

use crate::case::Case;
use crate::clock;
use crate::endpoints::*;
use crate::gen::*;
use crate::monitors::near;
use crate::peers::*;
use crate::refcodec::{opts, Pk};
use crate::rng::Rng;
use crate::session::*;
use crate::world::*;

/// sends all kinds of datagrams from foreign addresses for ever
pub struct Stranger {
    pub from: Vec<SocketAddr>,
    pub to: Vec<SocketAddr>,
    pub every_us: u64,
    pub until: u64,
    pub sent: u64,
    /// only packets which cannot open a session
    pub no_requests: bool,
}

pub fn plausible(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 => Pk::Ack { block: r.below(40) as u16 }.enc(),
        1 => {
            let n = *r.pick(&[0, 5, 512, 512]);
            Pk::Data { block: r.below(40) as u16, data: r.bytes(n) }.enc()
        }
        2 => Pk::Error { code: r.below(9) as u16, msg: b"stranger".to_vec() }.enc(),
        3 => Pk::Oack { opts: opts(&[("blksize", "1024".into())]) }.enc(),
        4 => vec![],
        5 => vec![0, *r.pick(&[3, 4, 5, 6]), 0],
        _ => {
            let n = r.below(600) as usize;
            let mut b = r.bytes(n);
            if n > 0 {
                b[0] |= 0x40;
            }
            b
        }
    }
}

impl Peer for Stranger {
    fn start(&mut self, cx: &mut Cx) {
        cx.timer(1, 0);
    }
    fn packet(&mut self, _cx: &mut Cx, _src: SocketAddr, _at: SocketAddr, _data: &[u8]) {}
    fn timer(&mut self, cx: &mut Cx, _id: u64) {
        if cx.now > self.until {
            return;
        }
        let (f, t) = (*cx.rng.pick(&self.from), *cx.rng.pick(&self.to));
        let b = plausible(cx.rng);
        cx.send(f, t, b);
        self.sent += 1;
        let d = self.every_us / 2 + cx.rng.below(self.every_us);
        cx.timer(d, 0);
    }
    fn as_any(&mut self) -> &mut dyn Any {
        self
    }
}

const SLACK: u64 = 3_500_000;

/// deadlines of a client
#[allow(clippy::too_many_arguments)]
fn judge_client(case: &mut Case, o: &Outcome, id: usize, me: SocketAddr, server: SocketAddr, upload: bool, plain: bool, rt_us: u64, what: &str) {
    let Some(res) = o.res(id).cloned() else {
        case.fail(format!("{what}: the client did not return"));
        return;
    };
    if res.ok {
        case.count("completed_before_silence", 1);
        return;
    }
    let mut last = res.start;
    let mut progress = res.start;
    let mut acked = 0i64;
    let mut replies = 0;
    for e in &o.log {
        match &e.ev {
            Ev::Recv { at, src, data, .. } if *at == me && src.ip() == server.ip() => {
                last = last.max(e.t);
                replies += 1;
                if replies == 1 {
                    progress = progress.max(e.t);
                }
                if plain && upload {
                    if let Some(Pk::Ack { block }) = Pk::dec(data) {
                        let n = near(block, acked as u64);
                        if n > acked {
                            acked = n;
                            progress = progress.max(e.t);
                        }
                    }
                }
            }
            Ev::StoreOpen { id: _, write: true, path, .. } if path.starts_with("cli/") => progress = progress.max(e.t),
            Ev::StoreWrite { .. } if !upload && e.actor >= 0 => progress = progress.max(e.t),
            _ => (),
        }
    }
    case.count("client_deadlines", 1);
    let (early, late) = ((res.end - progress.min(res.end)) / 1000, (res.end - last.min(res.end)) / 1000);
    case.max("ms_beyond_deadline", late.saturating_sub(rt_us / 1000));
    case.check(res.end >= progress + rt_us, || format!("{what}: the client gave up {early} ms after the last progress: {}", res.err));
    case.check(res.end <= last + rt_us + SLACK, || format!("{what}: the client gave up only {late} ms after the last packet: {}", res.err));
    case.nontrivial = true;
}

/// deadlines of the sessions of a server with one client
#[allow(clippy::too_many_arguments)]
fn judge_server(case: &mut Case, o: &Outcome, client: SocketAddr, upload: bool, plain: bool, complete: bool, rt_us: u64, end: u64, what: &str) {
    let mut sock = None;
    for e in &o.log {
        if let Ev::SockOpen { sock: s, peer: Some(p), .. } = &e.ev {
            if *p == client {
                sock = Some((*s, e.t));
                break;
            }
        }
    }
    let Some((sock, opened)) = sock else {
        case.count("no_session", 1);
        return;
    };
    let (mut last, mut progress, mut acked) = (opened, opened, 0i64);
    let mut closed = None;
    let mut errors = vec![];
    let mut last_send = 0;
    let mut told = false;
    for e in &o.log {
        match &e.ev {
            Ev::Recv { sock: s, data, .. } if *s == sock => {
                last = last.max(e.t);
                match Pk::dec(data) {
                    Some(Pk::Ack { block }) if plain && !upload => {
                        let n = near(block, acked as u64);
                        if n > acked {
                            acked = n;
                            progress = progress.max(e.t);
                        }
                    }
                    Some(Pk::Error { .. }) if plain => told = true,
                    _ => (),
                }
            }
            Ev::StoreWrite { .. } if upload => progress = progress.max(e.t),
            Ev::SockClose { sock: s } if *s == sock => closed = closed.or(Some(e.t)),
            Ev::Send { dst, data, real: true, .. } if *dst == client && closed.is_none() => {
                last_send = e.t;
                if let Some(Pk::Error { .. }) = Pk::dec(data) {
                    errors.push(e.t);
                }
            }
            _ => (),
        }
    }
    if told {
        return;
    }
    match closed {
        None => {
            if end > last + rt_us + SLACK {
                case.fail(format!("{what}: the session was still open {} ms after the last packet of the client", (end - last) / 1000));
            } else {
                case.count("server_deadline_not_reached", 1);
            }
        }
        Some(t) => {
            if t >= end {
                // closed by the end of the world
                if end > last + rt_us + SLACK {
                    case.fail(format!("{what}: the session was still open {} ms after the last packet of the client", (end - last) / 1000));
                }
                return;
            }
            case.check(t <= last + rt_us + SLACK, || format!("{what}: the session ended {} ms after the last packet of the client", (t - last) / 1000));
            if complete {
                case.count("completed_before_silence", 1);
                return;
            }
            case.count("server_deadlines", 1);
            case.nontrivial = true;
            if plain || upload {
                case.check(t >= progress + rt_us, || format!("{what}: the session ended {} ms after the last progress", (t - progress) / 1000));
            }
            if plain {
                case.check(errors.iter().any(|e| *e + 5_000 >= t), || format!("{what}: the session ended without telling the client"));
            } else {
                case.check(last_send + 5_000 >= t, || format!("{what}: the session ended without telling the client"));
            }
        }
    }
}

fn rt(r: &mut Rng) -> u64 {
    *r.pick(&[1000, 2500, 5000, 15000, 60000])
}

pub fn c05(case: &mut Case) {
    let mut r = case.rng.fork();
    match r.below(3) {
        0 => silent_server(case, &mut r),
        1 => silent_client(case, &mut r),
        _ => cut(case, &mut r),
    }
}

fn strangers(r: &mut Rng, to: Vec<SocketAddr>, secs: u64) -> Option<Stranger> {
    if r.chance(0.35) {
        return None;
    }
    Some(Stranger {
        from: vec![addr(7, 7, 69), addr(7, 8, 2000), addr(8, 1, 5000), SocketAddr::new(addr(7, 7, 0).ip(), 1)],
        to,
        every_us: *r.pick(&[1_500, 20_000, 90_000, 400_000, 900_000, 1_100_000]),
        until: clock::START + secs * 1_000_000,
        sent: 0,
        no_requests: true,
    })
}

fn silent_server(case: &mut Case, r: &mut Rng) {
    let upload = r.chance(0.5);
    let mut c = ClientSpec::new(0, upload, NAME);
    c.block_size = if r.chance(0.7) { 512 } else { block_size(r) };
    c.window = window(r).min(20);
    c.retry_ms = *r.pick(&[80, 80, 200, 999]);
    c.allow_port_change = true;
    c.prefer_seek = SEEK && r.chance(0.3);
    c.request_timeout_ms = rt(r);
    let rt_us = c.request_timeout_ms * 1000;
    let (cb, cw, me) = (c.block_size, c.window, c.addr);
    let plain = r.chance(0.3);
    let mut o = vec![];
    if !plain && cb != 512 {
        o.push(("blksize", cb.to_string()));
    }
    if !plain && cw != 1 {
        o.push(("windowsize", cw.to_string()));
    }
    let o = opts(&o);
    let (bs, _) = eff(&o);
    let sz = size(r, bs, 30);
    let data = unique_content(r, sz);
    c.data = data.clone().into();
    let tid = if r.chance(0.5) { srv_addr() } else { SocketAddr::new(srv_addr().ip(), 3300) };
    let mute = r.chance(0.15);
    let o2 = o.clone();
    let script: Script = Box::new(move |_, _, _| {
        if mute {
            Reply::Silence
        } else if o2.is_empty() {
            Reply::Plain
        } else {
            Reply::Oack(o2.clone())
        }
    });
    let mut srv = RawServer::new(srv_addr(), tid, data, script);
    let k = if r.chance(0.3) { r.below(3) } else { r.below(40) };
    srv.chaos.silent_after = Some(k);
    srv.chaos.lag_us = *r.pick(&[0, 0, 2000, 30_000]);
    let st = strangers(r, vec![me], rt_us / 1_000_000 * 3 + 20);
    let what = format!("{} of {sz} B block {bs} window {cw}, server silent {}, timeout {rt_us} us, strangers every {:?} us", if upload { "upload" } else { "download" }, if mute { "from the start".into() } else { format!("after {k} packets") }, st.as_ref().map(|s| s.every_us));
    let mut x = Xfer::new(None, vec![c], Net::clean()).setup(move |sh| {
        sh.add_peer(&[srv_addr(), tid], Box::new(srv), 0);
    });
    if let Some(s) = st {
        case.count("worlds_with_strangers", 1);
        x = x.setup(move |sh| {
            let from = s.from.clone();
            sh.add_peer(&from, Box::new(s), 10);
        });
    }
    let o = run(case, x);
    basic(case, &o);
    judge_client(case, &o, 0, me, srv_addr(), upload, true, rt_us, &what);
    case.sample = Some(what);
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}

fn silent_client(case: &mut Case, r: &mut Rng) {
    let upload = r.chance(0.5);
    let s = ServerSpec {
        request_timeout_ms: rt(r),
        prefer_seek: SEEK && r.chance(0.4),
        port_change: r.chance(0.5),
        ..ServerSpec::default()
    };
    let rt_us = s.request_timeout_ms * 1000;
    let mut v: Vec<(&str, String)> = vec![];
    if r.chance(0.3) {
        v.push(("blksize", block_size(r).to_string()));
    }
    if r.chance(0.5) {
        v.push(("windowsize", r.range(1, MAX_WINDOW.min(20) as u64).to_string()));
    }
    if r.chance(0.2) {
        v.push(("tsize", "0".into()));
    }
    let v = opts(&v);
    let (bs, _) = eff(&v);
    let sz = size(r, bs.min(MAX_BLOCK as usize), 30);
    let data = unique_content(r, sz);
    let me = addr(1, 1, 2000);
    let mut c = RawClient::new(me, srv_addr(), upload, NAME, v, data.clone());
    c.give_up_us = 400_000_000;
    let k = if r.chance(0.3) { r.below(3) } else { r.below(40) };
    c.chaos.silent_after = Some(k);
    c.chaos.lag_us = *r.pick(&[0, 0, 2000, 30_000]);
    let st = strangers(r, vec![srv_addr(), srv_addr(), SocketAddr::new(srv_addr().ip(), 40001), SocketAddr::new(srv_addr().ip(), 40002)], rt_us / 1_000_000 * 3 + 20);
    let what = format!("{} of {sz} B, client silent after {k} packets, timeout {rt_us} us, port change {}, strangers every {:?} us", if upload { "upload" } else { "download" }, s.port_change, st.as_ref().map(|s| s.every_us));
    let mut x = Xfer::new(Some(s), vec![], Net::clean());
    if !upload {
        x = x.file(NAME, &data);
    }
    x.linger_us = rt_us + 8_000_000;
    x = x.setup(move |sh| {
        sh.add_peer(&[me], Box::new(c), 0);
    });
    if let Some(s) = st {
        case.count("worlds_with_strangers", 1);
        x = x.setup(move |sh| {
            let from = s.from.clone();
            sh.add_peer(&from, Box::new(s), 10);
        });
    }
    let mut o = run(case, x);
    basic(case, &o);
    let ok = o.peer::<RawClient>(0).ok();
    let blocks = (data.len() / eff_bs(&mut o)) as u64 + 1;
    let end = o.end;
    // an upload is complete when everything is stored, a download when the last acknowledgement got through
    let complete = if upload { o.fs.get(&format!("srv/{NAME}")).map(|v| v[..] == data[..]) == Some(true) && finished_upload(&o, me) } else { ok && last_acked(&o, me, blocks) };
    judge_server(case, &o, me, upload, true, complete, rt_us, end, &what);
    case.sample = Some(what);
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}

fn eff_bs(o: &mut Outcome) -> usize {
    eff(o.peer::<RawClient>(0).oack.as_deref().unwrap_or(&[])).0
}

/// the last short block reached the server
fn finished_upload(o: &Outcome, me: SocketAddr) -> bool {
    let bs = o
        .log
        .iter()
        .find_map(|e| match &e.ev {
            Ev::Send { dst, data, real: true, .. } if *dst == me => match Pk::dec(data) {
                Some(Pk::Oack { opts }) => Some(eff(&opts).0),
                _ => Some(512),
            },
            _ => None,
        })
        .unwrap_or(512);
    o.log.iter().any(|e| matches!(&e.ev, Ev::Recv { src, data, .. } if *src == me && matches!(Pk::dec(data), Some(Pk::Data { data, .. }) if data.len() < bs)))
}

fn last_acked(o: &Outcome, me: SocketAddr, total: u64) -> bool {
    o.log.iter().any(|e| matches!(&e.ev, Ev::Recv { src, data, .. } if *src == me && matches!(Pk::dec(data), Some(Pk::Ack { block }) if block as u64 == total)))
}

/// the network dies between two real sides
fn cut(case: &mut Case, r: &mut Rng) {
    let upload = r.chance(0.5);
    let p = params(r, upload, 60);
    let (mut s, mut c) = pair(r, &p);
    s.request_timeout_ms = rt(r);
    c.request_timeout_ms = rt(r);
    let (srt, crt) = (s.request_timeout_ms * 1000, c.request_timeout_ms * 1000);
    let me = c.addr;
    let mut n = Net::clean();
    n.base_us = *r.pick(&[300, 2_000, 20_000]);
    let at = match r.below(4) {
        0 => r.below(10 * n.base_us),
        1 => r.below(100 * n.base_us),
        _ => r.below(40 * n.base_us),
    };
    n.cut.push((None, None, clock::START + at, u64::MAX));
    let what = format!("{} of {} B block {} window {} level {}, cut at {at} us, timeouts {crt} and {srt} us", if upload { "upload" } else { "download" }, p.size, p.block, p.window, p.level);
    let mut x = Xfer::new(Some(s), vec![c], n);
    if !upload {
        x = x.file(NAME, &p.data);
    }
    x.linger_us = srt + 8_000_000;
    let o = run(case, x);
    basic(case, &o);
    let plain = p.level == EncryptionLevel::None;
    judge_client(case, &o, 0, me, srv_addr(), upload, plain, crt, &what);
    let stored = |k: &str| o.fs.get(k).map(|v| v[..] == p.data[..]) == Some(true);
    let (end, ok) = (o.end, o.res(0).is_some_and(|r| r.ok));
    // whether the last packet got through is not visible from outside when it is encrypted
    let complete = if upload { stored(&format!("srv/{NAME}")) } else { ok || stored("cli/0") };
    judge_server(case, &o, me, upload, plain, complete, srt, end, &what);
    case.sample = Some(what);
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}

// ------------------------------------------------------------------------------------------------

pub fn c06(case: &mut Case) {
    let mut r = case.rng.fork();
    let upload = r.chance(0.5);
    let level = if r.chance(0.75) { EncryptionLevel::None } else { *r.pick(LEVELS) };
    let win = match r.below(6) {
        0 => 1,
        1 => 2,
        2 => r.range(3, 9),
        3 => MAX_WINDOW.min(16) as u64,
        4 => r.range(2, MAX_WINDOW as u64),
        _ => *r.pick(&[3, 7, 16]),
    } as u16;
    let block = if r.chance(0.8) { 512 } else { r.range(513, 600) as u16 };
    let bs = payload(block, level);
    let wraps = if case.thorough {
        r.range(1, 5)
    } else {
        *r.pick(&[1, 1, 1, 1, 1, 1, 2, 2, 2, 3])
    };
    let base = 65536 * wraps;
    let blocks = match r.below(8) {
        0 => base - 1,
        1 => base,
        2 => base + 1,
        3 => base - 2,
        4 | 5 => base + r.range(1, 200),
        // well past the wrap
        _ => base + r.range(200, 30_000),
    } as usize;
    // besides the wrap itself, other places where packets are disturbed
    let mut spots = vec![0u16];
    if r.chance(0.5) {
        for _ in 0..r.range(1, 4) {
            spots.push(r.below(65536) as u16);
        }
        spots.push(*r.pick(&[10_000u16, 20_000, 32_768, 55_536, 65_000]));
    }
    let rem = match r.below(3) {
        0 => 0,
        1 => bs - 1,
        _ => r.below(bs as u64) as usize,
    };
    // `blocks` numbered packets, the last of them shorter than a block
    let sz = (blocks - 1) * bs + rem;
    let data = r.bytes(sz);
    let mut p = Params {
        upload,
        block,
        window: win,
        level,
        size: sz,
        data: vec![],
        seek: SEEK && r.chance(0.4),
        port_change: r.chance(0.3),
        retry_ms: 80,
        keys: false,
        srv_block: MAX_BLOCK,
        srv_window: MAX_WINDOW,
    };
    p.data = data.clone();
    let (mut s, c) = pair(&mut r, &p);
    p.data = vec![];
    s.prefer_seek = SEEK && r.chance(0.4);
    let me = c.addr;
    let plain = level == EncryptionLevel::None;
    let faults = r.chance(0.8);
    let prob = *r.pick(&[0.02, 0.1, 0.3]);
    let hist = std::sync::Arc::new(std::sync::Mutex::new((0u64, 0u64, 0u64)));
    let h2 = hist.clone();
    let reach = 2 * win as i64 + 8;
    // the packet count at which an encrypted transfer is about to wrap
    let mid = 65536.0 * (1.0 + 1.0 / win as f64);
    let mut max_faults = r.range(1, 25) * wraps;
    let mitm: Mitm = Box::new(move |d, _now, rng| {
        let mut g = h2.lock().unwrap_or_else(|e| e.into_inner());
        let close = if plain {
            match Pk::dec(&d.data) {
                Some(Pk::Data { block, .. }) | Some(Pk::Ack { block }) => {
                    // the start of the file also looks like a wrap
                    d.n > 30_000 && spots.iter().any(|s| (block.wrapping_sub(*s) as i16 as i64).abs() <= reach)
                }
                _ => false,
            }
        } else {
            let k = (d.n as f64 / mid).round();
            k >= 1.0 && (d.n as f64 - k * mid).abs() < 200.0 + 3.0 * win as f64
        };
        if !close {
            return None;
        }
        g.0 += 1;
        if max_faults == 0 || !faults || !rng.chance(prob) {
            return None;
        }
        max_faults -= 1;
        g.1 += 1;
        g.2 = g.2.wrapping_mul(31).wrapping_add(d.n * 4 + 1);
        let one = |t: u64| (t, Dgram { src: d.src, dst: d.dst, data: d.data.clone(), n: d.n });
        Some(match rng.below(3) {
            0 => vec![],
            1 => vec![one(300), one(300 + rng.below(3000))],
            _ => vec![one(300 + rng.below(6000))],
        })
    });
    let mut n = Net::clean();
    n.base_us = 50;
    n.jitter_us = 0;
    let mut x = Xfer::new(Some(s), vec![c], n).setup(move |sh| sh.lock().mitm = Some(mitm));
    x.log = false;
    x.max_secs = 3600;
    x.max_events = 50_000_000;
    if !upload {
        x = x.file(NAME, &data);
    }
    let o = run(case, x);
    basic(case, &o);
    let (near_wrap, hit, sig) = *hist.lock().unwrap_or_else(|e| e.into_inner());
    let what = format!("{} of {blocks} blocks ({sz} B, payload {bs}) window {win} level {level} seek {} faults {hit} of {near_wrap} packets near the wrap", if upload { "upload" } else { "download" }, p.seek);
    let Some(res) = o.res(0) else {
        case.fail(format!("{what}: the client did not return"));
        return;
    };
    let _ = me;
    case.count("blocks", blocks as u64);
    case.count("packets_near_wrap", near_wrap);
    case.count("faults_near_wrap", hit);
    case.mix(sig ^ sz as u64);
    case.mix(o.sent);
    case.mix(o.end);
    case.nontrivial = near_wrap > 0;
    let (ok, err, count) = (res.ok, res.err.clone(), res.count);
    let key = if upload { format!("srv/{NAME}") } else { "cli/0".to_string() };
    let same = o.fs.get(&key).map(|v| v[..] == data[..]) == Some(true);
    let len = o.fs.get(&key).map(|v| v.len());
    // the only way to fail is the loss of the very last acknowledgement
    let last_ack = upload && same && !ok && hit > 0;
    case.check(ok || last_ack, || format!("{what}: {err}, {len:?} bytes stored"));
    if ok {
        case.check(same, || format!("{what}: success, but the stored file of {len:?} bytes differs"));
        case.check(count == sz, || format!("{what}: success with {count} bytes"));
    }
    case.sample = Some(format!("{what} -> ok {ok}"));
}
