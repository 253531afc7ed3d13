//! C03, C07, C08: the data phase seen from outside, with scripted and with real peers.
use std::net::SocketAddr;

use tftp_dus::encryption::EncryptionLevel;

use crate::case::Case;
use crate::endpoints::*;
use crate::gen::*;
use crate::monitors::*;
use crate::peers::*;
use crate::refcodec::{opt, opts, Pk};
use crate::rng::Rng;
use crate::session::*;
use crate::world::*;

/// one data phase as it was observed
pub struct Seen {
    pub upload: bool,
    pub real_client: bool,
    pub real_server: bool,
    pub client: SocketAddr,
    pub server: SocketAddr,
    pub data: Vec<u8>,
    pub path: String,
    pub bs: usize,
    pub window: u64,
    pub srv_retry_us: u64,
    pub cli_retry_us: u64,
    pub oack: bool,
    pub level: EncryptionLevel,
}

pub fn req_opts(r: &mut Rng) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut v: Vec<(&str, String)> = vec![];
    if r.chance(0.6) {
        v.push(("blksize", block_size(r).to_string()));
    }
    if r.chance(0.7) {
        v.push(("windowsize", window(r).to_string()));
    }
    if r.chance(0.15) {
        v.push(("timeout", r.range(1, 3).to_string()));
    }
    if r.chance(0.3) {
        v.push(("tsize", "0".into()));
    }
    r.shuffle(&mut v);
    opts(&v)
}

/// the first option acknowledgement or first reply on the wire between two hosts
fn first_reply(log: &[LogEv], server_ip: std::net::IpAddr, client: SocketAddr) -> Option<Pk> {
    log.iter().find_map(|e| match &e.ev {
        Ev::Send { src, dst, data, .. } if src.ip() == server_ip && *dst == client => Pk::dec(data),
        _ => None,
    })
}

fn timeout_us(o: &[(Vec<u8>, Vec<u8>)], default: u64) -> u64 {
    opt(o, "timeout").and_then(|v| v.parse::<u64>().ok()).map(|s| s * 1_000_000).unwrap_or(default)
}

/// a world of one of three kinds; returns what was observed in it
pub fn flow_world(case: &mut Case, r: &mut Rng, plain_only: bool) -> (Outcome, Vec<Seen>) {
    let max_blocks = if case.thorough { 200 } else { 60 };
    let mut seen = vec![];
    match r.below(3) {
        0 => {
            // real client, scripted server
            let upload = r.chance(0.5);
            let mut c = ClientSpec::new(0, upload, NAME);
            c.block_size = block_size(r);
            c.window = window(r);
            c.retry_ms = *r.pick(&[80, 80, 200, 1000]);
            c.prefer_seek = SEEK && r.chance(0.3);
            c.allow_port_change = true;
            c.request_timeout_ms = *r.pick(&[5000, 15000]);
            let (cb, cw) = (c.block_size, c.window);
            let plain = r.chance(0.25);
            // options that differ from the defaults are the ones the client asks for
            let mut o: Vec<(&str, String)> = vec![];
            if cb != 512 && r.chance(0.8) {
                o.push(("blksize", if r.chance(0.6) { cb } else { r.range(512, cb as u64) as u16 }.to_string()));
            }
            if cw != 1 && r.chance(0.8) {
                o.push(("windowsize", r.range(1, cw as u64).to_string()));
            }
            let mut o = opts(&o);
            let (mut bs, mut w) = eff(&o);
            if plain {
                o.clear();
                (bs, w) = (512, 1);
            }
            let size = size(r, bs, max_blocks);
            let data = unique_content(r, size);
            c.data = data.clone().into();
            let mut chaos = if r.chance(0.85) { Chaos::gen(r) } else { Chaos::default() };
            if r.chance(0.1) {
                chaos.error_at = Some(r.range(1, 20));
            }
            if r.chance(0.1) {
                chaos.silent_after = Some(r.below(20));
            }
            let tid = if r.chance(0.5) { srv_addr() } else { SocketAddr::new(srv_addr().ip(), 3300) };
            let caddr = c.addr;
            let crt = c.retry_ms * 1000;
            let o2 = o.clone();
            let empty_ok = o.is_empty() && r.chance(0.3);
            let script: Script = Box::new(move |_, _, _| if o2.is_empty() && !empty_ok { Reply::Plain } else { Reply::Oack(o2.clone()) });
            let mut srv = RawServer::new(srv_addr(), tid, data.clone(), script);
            srv.chaos = chaos;
            let mut n = Net::clean();
            n.base_us = *r.pick(&[20, 300, 5_000]);
            n.jitter_us = 0;
            let x = Xfer::new(None, vec![c], n).setup(move |sh| {
                sh.add_peer(&[srv_addr(), tid], Box::new(srv), 0);
            });
            let out = run(case, x);
            // without a timeout option in the reply the default applies; plain replies keep the client's own
            let cli_retry_us = if o.is_empty() && !empty_ok { crt } else { 80_000 };
            seen.push(Seen {
                upload,
                real_client: true,
                real_server: false,
                client: caddr,
                server: tid,
                data,
                path: "cli/0".into(),
                bs,
                window: w,
                srv_retry_us: 0,
                cli_retry_us,
                oack: !o.is_empty() || empty_ok,
                level: EncryptionLevel::None,
            });
            (out, seen)
        }
        1 => {
            // real server, scripted clients
            let k = *r.pick(&[1usize, 1, 2, 4]);
            let s = ServerSpec {
                max_block_size: if r.chance(0.7) { MAX_BLOCK } else { block_size(r) },
                max_window: if r.chance(0.7) { MAX_WINDOW } else { window(r) },
                prefer_seek: SEEK && r.chance(0.4),
                port_change: r.chance(0.5),
                request_timeout_ms: *r.pick(&[3000, 15000]),
                ..ServerSpec::default()
            };
            let mut n = Net::clean();
            n.base_us = *r.pick(&[20, 300, 5_000]);
            n.jitter_us = 0;
            let (maxb, maxw) = (s.max_block_size, s.max_window);
            let mut x = Xfer::new(Some(s), vec![], n);
            x.linger_us = 100_000;
            let mut list = vec![];
            for i in 0..k {
                let upload = r.chance(0.5);
                let o = req_opts(r);
                let (b, _) = eff(&o);
                let name = format!("f{i}");
                let size = size(r, b.min(maxb as usize), max_blocks);
                let data = unique_content(r, size);
                if !upload {
                    x = x.file(&name, &data);
                }
                let mut c = RawClient::new(addr(0, 1 + i as u8, 2000), srv_addr(), upload, &name, o.clone(), data.clone());
                c.chaos = if r.chance(0.85) { Chaos::gen(r) } else { Chaos::default() };
                if r.chance(0.1) {
                    c.chaos.error_at = Some(r.range(1, 20));
                }
                if r.chance(0.1) {
                    c.chaos.silent_after = Some(r.below(20));
                }
                let me = c.me;
                let start = r.below(20_000);
                x = x.setup(move |sh| {
                    sh.add_peer(&[me], Box::new(c), start);
                });
                list.push((me, upload, name, data));
            }
            let _ = maxw;
            let out = run(case, x);
            for (me, upload, name, data) in list {
                let Some(first) = first_reply(&out.log, srv_addr().ip(), me) else { continue };
                let o = match &first {
                    Pk::Oack { opts } => opts.clone(),
                    Pk::Error { .. } => continue,
                    _ => vec![],
                };
                let (bs, w) = eff(&o);
                seen.push(Seen {
                    upload,
                    real_client: false,
                    real_server: true,
                    client: me,
                    server: srv_addr(),
                    data,
                    path: format!("srv/{name}"),
                    bs,
                    window: w,
                    srv_retry_us: timeout_us(&o, 80_000),
                    cli_retry_us: 0,
                    oack: matches!(first, Pk::Oack { .. }),
                    level: EncryptionLevel::None,
                });
            }
            (out, seen)
        }
        _ => {
            // both real, bad network
            let upload = r.chance(0.5);
            let mut p = params(r, upload, max_blocks);
            p.data = unique_content(r, p.size);
            if plain_only {
                p.level = EncryptionLevel::None;
            }
            let (s, c) = pair(r, &p);
            let mut n = net(r, 4.0);
            n.max_faults = 200;
            if r.chance(0.3) {
                n.loss = 0.15;
                n.dup = 0.1;
                n.reorder = 0.1;
            }
            let (ca, sa) = (c.addr, s.addr);
            let mut x = Xfer::new(Some(s), vec![c], n);
            x.sched_jitter = *r.pick(&[0, 0, 50, 2000]);
            x.linger_us = 3_000_000;
            if !upload {
                x = x.file(NAME, &p.data);
            }
            let out = run(case, x);
            let first = first_reply(&out.log, sa.ip(), ca);
            let o = match &first {
                Some(Pk::Oack { opts }) => opts.clone(),
                _ => vec![],
            };
            let (bs, w) = eff(&o);
            let oack = matches!(first, Some(Pk::Oack { .. }));
            seen.push(Seen {
                upload,
                real_client: true,
                real_server: true,
                client: ca,
                server: sa,
                data: p.data.clone(),
                path: if upload { format!("srv/{NAME}") } else { "cli/0".into() },
                bs,
                window: w,
                srv_retry_us: timeout_us(&o, 80_000),
                cli_retry_us: if oack { timeout_us(&o, 80_000) } else { p.retry_ms * 1000 },
                oack,
                level: p.level,
            });
            (out, seen)
        }
    }
}

fn describe(s: &Seen) -> String {
    format!(
        "{} of {} B, block {} window {} level {}, real client {} real server {}",
        if s.upload { "upload" } else { "download" },
        s.data.len(),
        s.bs,
        s.window,
        s.level,
        s.real_client,
        s.real_server
    )
}

pub fn c03(case: &mut Case) {
    let mut r = case.rng.fork();
    let (o, seen) = flow_world(case, &mut r, false);
    basic(case, &o);
    let mut wrote = 0;
    for s in &seen {
        let real_receiver = if s.upload { s.real_server } else { s.real_client };
        if !real_receiver {
            continue;
        }
        let w = describe(s);
        wrote += prefix(case, &o.log, &s.path, &s.data, &w);
        if s.upload {
            // once the server has told the client about an error, or was told, the session is over
            // (encrypted ones are not recognisable from outside)
            if s.level == EncryptionLevel::None {
            silent_after(case, &o.log, &s.path, &format!("{w}: the server sent an error"), |e| {
                matches!(&e.ev, Ev::Send { src, dst, data, real: true, .. } if src.ip() == s.server.ip() && *dst == s.client && matches!(Pk::dec(data), Some(Pk::Error { .. })))
            });
            }
            if s.level == EncryptionLevel::None && !s.real_client {
                silent_after(case, &o.log, &s.path, &format!("{w}: the client sent an error"), |e| {
                    matches!(&e.ev, Ev::Recv { src, data, .. } if *src == s.client && matches!(Pk::dec(data), Some(Pk::Error { .. })))
                });
            }
        } else {
            silent_after(case, &o.log, &s.path, &format!("{w}: the client call returned"), |e| matches!(&e.ev, Ev::ClientEnd { .. }));
        }
        case.sample = Some(w);
    }
    case.nontrivial = wrote > 1;
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}

pub fn c07(case: &mut Case) {
    let mut r = case.rng.fork();
    let (o, seen) = flow_world(case, &mut r, true);
    basic(case, &o);
    let mut n = 0;
    for s in &seen {
        let w = describe(s);
        let (real, peer, ok, retry) = if s.upload { (s.client, s.server, s.real_client, s.cli_retry_us) } else { (s.server, s.client, s.real_server, s.srv_retry_us) };
        if !ok {
            continue;
        }
        let sessions = o.log.iter().filter(|e| matches!(&e.ev, Ev::SockOpen { peer, .. } if *peer == Some(s.client))).count();
        if !s.upload && sessions > 1 {
            // a stale duplicate of the request started a second session
            case.count("skipped_second_session", 1);
            continue;
        }
        // the server may answer from another port
        let peer = if s.upload && s.real_server { session_peer(&o.log, s).unwrap_or(peer) } else { peer };
        n += sender(case, &o.log, &SenderSpec { real, peer, data: &s.data, bs: s.bs, window: s.window, retry_us: retry }, &w);
        case.sample = Some(w);
    }
    case.nontrivial = n > 1;
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}

/// the port the server used for the session with this client
fn session_peer(log: &[LogEv], s: &Seen) -> Option<SocketAddr> {
    log.iter().find_map(|e| match &e.ev {
        Ev::SockOpen { local, peer, .. } if local.ip() == s.server.ip() && *peer == Some(s.client) => Some(*local),
        _ => None,
    })
}

pub fn c08(case: &mut Case) {
    let mut r = case.rng.fork();
    let (o, seen) = flow_world(case, &mut r, true);
    basic(case, &o);
    let mut n = 0;
    for s in &seen {
        let w = describe(s);
        let spec = if s.upload {
            if !s.real_server || writers_of(&o.log, &s.path) != 1 {
                continue;
            }
            ReceiverSpec { real: s.server, peer: s.client, path: &s.path, bs: s.bs, window: s.window, client: false, ack0: true }
        } else {
            if !s.real_client {
                continue;
            }
            let peer = if s.real_server { session_peer(&o.log, s).unwrap_or(s.server) } else { s.server };
            ReceiverSpec { real: s.client, peer, path: &s.path, bs: s.bs, window: s.window, client: true, ack0: true }
        };
        n += receiver(case, &o.log, &spec, &w);
        case.sample = Some(w);
    }
    case.nontrivial = n > 1;
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}

fn writers_of(log: &[LogEv], path: &str) -> usize {
    handles(log, path, true).len()
}

