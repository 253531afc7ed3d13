//! C18, C25, C29: limits, storage faults and release of resources.
use std::collections::{HashMap, HashSet};
use std::net::SocketAddr;

use crate::case::Case;
use crate::clock;
use crate::endpoints::*;
use crate::gen::*;
use crate::monitors::handles;
use crate::peers::*;
use crate::props::hostile::{abuser, any_server, probe};
use crate::refcodec::{opts, Pk};
use crate::rng::Rng;
use crate::session::*;
use crate::storage::{Fault, Plan};
use crate::world::*;

fn fault_plan(r: &mut Rng, blocks: u64, reading: bool) -> Plan {
    let mut p = Plan::default();
    let at = |r: &mut Rng| if r.chance(0.3) { *r.pick(&[0, 1, blocks.saturating_sub(1), blocks, blocks + 1]) } else { r.below(blocks + 2) };
    match r.below(12) {
        0..=2 => {
            let i = at(r);
            p.at.insert(i, Fault::Error);
        }
        3 => {
            let i = at(r);
            p.at.insert(i, Fault::ErrorOnce);
        }
        4 => {
            let i = at(r);
            p.at.insert(i, Fault::Interrupted);
        }
        5 | 6 => {
            for _ in 0..r.range(1, 4) {
                let i = at(r);
                let k = *r.pick(&[0usize, 1, 2, 100, 511, 512]);
                p.at.insert(i, if k == 0 && !reading { Fault::Short(1) } else { Fault::Short(k) });
            }
        }
        7 => p.short_p = *r.pick(&[0.1, 0.5, 1.0]),
        8 => {
            for _ in 0..r.range(1, 3) {
                let i = at(r);
                p.at.insert(i, Fault::WouldBlock);
            }
        }
        9 if reading => p.seek_fail_at = Some(r.below(3)),
        9 => {
            // no space left: nothing is written
            let i = at(r);
            p.at.insert(i, Fault::Short(0));
        }
        10 => {
            p.short_p = 0.3;
            let i = at(r);
            p.at.insert(i, Fault::Error);
        }
        _ => p.open_fail = true,
    }
    p
}

pub fn c25(case: &mut Case) {
    let mut r = case.rng.fork();
    let upload = r.chance(0.5);
    let mut p = params(&mut r, upload, if case.thorough { 40 } else { 15 });
    p.data = unique_content(&mut r, p.size);
    let (mut s, mut c) = pair(&mut r, &p);
    let blocks = p.size as u64 / payload(p.block.min(p.srv_block), p.level) as u64 + 1;
    let sides = r.below(5);
    let lossy = r.chance(0.15);
    if sides < 3 {
        let plan = fault_plan(&mut r, blocks, !upload);
        s.plans.insert(NAME.into(), plan);
    }
    if sides >= 2 {
        c.plan = fault_plan(&mut r, blocks, upload);
    }
    let me = c.addr;
    let mut extra = vec![];
    for (id, after, name) in [(1, r.below(20_000), "twin.bin"), (2, 45_000_000, "late.bin")] {
        if id == 1 && r.chance(0.5) {
            continue;
        }
        let mut t = c.clone();
        t.id = id;
        t.addr = cli_addr(id);
        t.remote = name.into();
        t.plan = Plan::default();
        t.start_after = after;
        extra.push((t, name));
    }
    let mut net_ = if lossy { net(&mut r, 3.0) } else { Net::clean() };
    if lossy {
        net_.max_faults = 10;
    } else {
        net_.base_us = *r.pick(&[20, 300, 2_000]);
    }
    let mut clients = vec![c.clone()];
    clients.extend(extra.iter().map(|e| e.0.clone()));
    let mut x = Xfer::new(Some(s.clone()), clients, net_);
    x.linger_us = 20_000_000;
    if !upload {
        for n in [NAME, "twin.bin", "late.bin"] {
            x = x.file(n, &p.data);
        }
    }
    let o = run(case, x);
    basic(case, &o);
    let what = format!(
        "{} of {} B level {} block {} window {} seek {}/{}, server storage {:?}, client storage {:?}{}",
        if upload { "upload" } else { "download" },
        p.size,
        p.level,
        p.block.min(p.srv_block),
        p.window.min(p.srv_window),
        c.prefer_seek,
        s.prefer_seek,
        s.plans.get(NAME),
        (sides >= 2).then_some(&c.plan),
        if lossy { ", lossy network" } else { "" }
    );
    let Some(res) = o.res(0) else {
        case.fail(format!("{what}: the client did not return"));
        return;
    };
    let res = res.clone();
    let (src_key, dst_key) = if upload { ("cli/0".to_string(), format!("srv/{NAME}")) } else { (format!("srv/{NAME}"), "cli/0".to_string()) };
    let src_ids = handles(&o.log, &src_key, false);
    let dst_ids = handles(&o.log, &dst_key, true);
    let same = o.fs.get(&dst_key).map(|v| v[..] == p.data[..]) == Some(true) && !dst_ids.is_empty();
    // the first fault which is not merely temporary
    let mut hard = None;
    for (i, e) in o.log.iter().enumerate() {
        if let Ev::StoreFault { id, what: w } = &e.ev {
            let at_src = src_ids.contains(id);
            let ours = at_src || dst_ids.contains(id) || *id == 0;
            if ours {
                case.nontrivial = true;
                case.count(&format!("fault_{w}"), 1);
                if matches!(*w, "error" | "error-once" | "seek-error") && hard.is_none() {
                    hard = Some((i, e.t, at_src != upload));
                }
            }
        }
    }
    case.sample = Some(format!("{what} -> ok {} {}", res.ok, res.err));
    case.check(!res.ok || same, || format!("{what}: success although the destination differs"));
    case.check(!res.ok || res.count == p.size, || format!("{what}: {} bytes reported", res.count));
    case.check(res.ok || !res.err.is_empty(), || format!("{what}: failed without a reason"));
    crate::monitors::prefix(case, &o.log, &dst_key, &p.data, &what);
    if !lossy && !res.ok {
        if let Some((_, t, at_server)) = hard {
            if at_server {
                // told: it does not have to wait until it loses patience
                let late = res.end.saturating_sub(t);
                case.max("client_told_ms", late / 1000);
                case.count("told_checks", 1);
                case.check(late < 4_000_000, || format!("{what}: the server's storage failed, but the client went on for {} ms: {}", late / 1000, res.err));
            } else {
                let close = o.log.iter().position(|e| matches!(&e.ev, Ev::SockOpen { peer: Some(p), .. } if *p == me)).and_then(|_| {
                    let socks: Vec<usize> = o.log.iter().filter_map(|e| if let Ev::SockOpen { sock, peer: Some(p), .. } = &e.ev { (*p == me).then_some(*sock) } else { None }).collect();
                    o.log.iter().filter(|e| matches!(&e.ev, Ev::SockClose { sock } if socks.contains(sock))).map(|e| e.t).max()
                });
                if let Some(close) = close {
                    let late = close.saturating_sub(t);
                    case.max("server_told_ms", late / 1000);
                    case.count("told_checks", 1);
                    case.check(late < 6_000_000, || format!("{what}: the client's storage failed, but the server held the session for {} ms", late / 1000));
                }
            }
        }
    }
    if c.plan.open_fail && sides >= 2 {
        case.check(!res.ok, || format!("{what}: success although the local file could not be opened"));
    }
    for (t, name) in &extra {
        let key = if upload { format!("srv/{name}") } else { format!("cli/{}", t.id) };
        let good = o.fs.get(&key).map(|v| v[..] == p.data[..]) == Some(true);
        match o.res(t.id) {
            Some(x) => {
                case.count("other_sessions", 1);
                let lost_ack = lossy && upload && good;
                case.check(x.ok && good || lost_ack || lossy && t.id == 1 && !x.ok, || format!("{what}: another session ({name}) was affected: ok {} same {good} {}", x.ok, x.err));
            }
            None => case.fail(format!("{what}: another client ({name}) did not return")),
        }
    }
    case.check(o.open_at_end == 0 && o.stores_at_end == 0, || format!("{what}: {} sockets and {} files still open at the end", o.open_at_end, o.stores_at_end));
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}

// ------------------------------------------------------------------------------------------------

/// sockets and files of the server which are open at each of the given times
fn open_at(log: &[LogEv], times: &[u64]) -> Vec<(usize, Vec<String>)> {
    let mut socks: HashSet<usize> = HashSet::new();
    let mut files: HashMap<usize, String> = HashMap::new();
    let mut out = vec![];
    let mut k = 0;
    for e in log {
        while k < times.len() && e.t >= times[k] {
            out.push((socks.len(), files.values().cloned().collect()));
            k += 1;
        }
        match &e.ev {
            Ev::SockOpen { sock, peer: Some(_), .. } => {
                socks.insert(*sock);
            }
            Ev::SockClose { sock } => {
                socks.remove(sock);
            }
            Ev::StoreOpen { id, path, ok: true, .. } if path.starts_with("srv/") => {
                files.insert(*id, path.clone());
            }
            Ev::StoreClose { id } => {
                files.remove(id);
            }
            _ => (),
        }
    }
    while k < times.len() {
        out.push((socks.len(), files.values().cloned().collect()));
        k += 1;
    }
    out
}

const GAP: u64 = 14_000_000;

pub fn c29(case: &mut Case) {
    let mut r = case.rng.fork();
    let (mut s, sk, ck) = any_server(&mut r);
    s.request_timeout_ms = *r.pick(&[1000, 2000]);
    s.max_file_size = 1 << 20;
    let n = if r.chance(0.1) { r.range(9, if ALLOC { 30 } else { 20 }) } else { r.range(1, 8) } as usize;
    s.max_connections = n as u16;
    // histories of one kind exhaust what that kind does not give back
    let kinds = 11u64;
    let dominant = r.chance(0.6).then(|| r.below(kinds));
    let window = r.chance(0.6).then(|| *r.pick(&[1u16, 1, 2, 4]));
    let long = r.chance(if case.thorough { 0.4 } else { 0.12 });
    let batches = if long { (70 / n + 3).min(40) } else { r.range(2, 14 / (1 + n as u64 / 8)) as usize };
    let mut clients: Vec<ClientSpec> = vec![];
    let mut files: Vec<(String, Vec<u8>)> = vec![("open".into(), r.bytes(3000)), ("there.bin".into(), b"old".to_vec())];
    let mut net_ = Net::clean();
    net_.base_us = *r.pick(&[20, 300, 2_000]);
    let mut plan: Vec<(u64, SocketAddr, SocketAddr, Vec<u8>)> = vec![];
    let mut abusers = vec![];
    let mut id = 0;
    let mut total = 0u64;
    let mut done: HashMap<u64, u64> = HashMap::new();
    let mut bind_fail = None;
    for b in 0..batches {
        let begin = b as u64 * GAP;
        let burst = r.chance(0.1);
        let m = if burst { n + r.range(1, 4) as usize } else { r.range((n as u64 / 2).max(1), n as u64) as usize };
        for _ in 0..m {
            let at = begin + r.below(30_000);
            let kind = match dominant {
                Some(k) if r.chance(0.85) => k,
                _ => r.below(kinds),
            };
            total += 1;
            *done.entry(kind).or_insert(0) += 1;
            let (mut c, name, data) = probe(&mut r, id, &s, &sk, &ck, 8);
            c.start_after = at;
            c.request_timeout_ms = s.request_timeout_ms;
            if let Some(w) = window {
                c.window = w;
            }
            if !ALLOC && n > 8 {
                c.window = 1;
            }
            match kind {
                // completed
                0 | 1 => {
                    if !c.upload {
                        files.push((name, data));
                    }
                }
                // no such file
                2 => {
                    c.upload = false;
                    c.data = vec![].into();
                    c.tsize = Some(0);
                }
                // refused
                3 => {
                    c.upload = true;
                    c.tsize = None;
                    if r.chance(0.5) {
                        s.plans.insert(c.remote.clone(), Plan { open_fail: true, ..Plan::default() });
                    } else {
                        c.data = vec![0; (1 << 20) + 1].into();
                    }
                }
                // gone
                4 | 5 => {
                    if !c.upload {
                        files.push((name, data));
                    }
                    let t = clock::START + at + r.below(12 * net_.base_us + 100);
                    net_.cut.push((Some(c.addr), None, t, u64::MAX));
                    net_.cut.push((None, Some(c.addr), t, u64::MAX));
                }
                // storage of the server
                6 => {
                    let reading = !c.upload;
                    if reading {
                        files.push((name.clone(), data));
                    }
                    let mut p = fault_plan(&mut r, 4, reading);
                    if p.short_p > 0.0 {
                        p.at.insert(1, Fault::Error);
                    }
                    s.plans.insert(name, p);
                }
                // storage of the client
                7 => {
                    if !c.upload {
                        files.push((name, data));
                    }
                    c.plan = fault_plan(&mut r, 4, c.upload);
                }
                // requests nobody follows up, some of them with nonsense, some repeated
                8 | 9 => {
                    let from = SocketAddr::new(addr(21, (id % 250) as u8, 1).ip(), 1000 + id as u16);
                    let mut v: Vec<(&str, String)> = vec![];
                    if r.chance(0.5) {
                        v.push(("windowsize", c.window.to_string()));
                    }
                    if r.chance(0.3) {
                        v.push(("blksize", "600".into()));
                    }
                    if r.chance(0.2) {
                        v.push(("tsize", r.pick(&["1", "99999999999", "x"]).to_string()));
                    }
                    if r.chance(0.1) {
                        v.push(("enclevel", r.pick(&["data", "full", "odd"]).to_string()));
                    }
                    let o = opts(&v);
                    let mode = b"octet".to_vec();
                    let q = if r.chance(0.5) { Pk::Rrq { name: b"open".to_vec(), mode, opts: o } } else { Pk::Wrq { name: format!("aban{id}").into_bytes(), mode, opts: o } };
                    plan.push((at, from, srv_addr(), q.enc()));
                    if r.chance(0.3) {
                        plan.push((at + r.below(500_000), from, srv_addr(), q.enc()));
                    }
                    if kind == 9 {
                        // and goes away properly
                        let port = if s.port_change { 40001 } else { 69 };
                        plan.push((at + r.below(50_000), from, SocketAddr::new(srv_addr().ip(), port), Pk::Error { code: r.below(8) as u16, msg: b"bye".to_vec() }.enc()));
                    }
                    id += 1;
                    continue;
                }
                _ => {
                    if r.chance(0.3) && bind_fail.is_none() {
                        bind_fail = Some(c.addr.ip());
                        if !c.upload {
                            files.push((name, data));
                        }
                    } else {
                        let mut a = abuser(&mut r, id % 200);
                        a.me = SocketAddr::new(addr(22, (id % 250) as u8, 1).ip(), 2000 + id as u16);
                        a.left = r.below(20);
                        abusers.push((a, at));
                        id += 1;
                        continue;
                    }
                }
            }
            clients.push(c);
            id += 1;
        }
    }
    // as many as it takes, at once
    let begin = batches as u64 * GAP;
    let first_final = id;
    let mut finals = vec![];
    for _ in 0..n {
        let (mut c, name, data) = probe(&mut r, id, &s, &sk, &ck, 8);
        c.start_after = begin + r.below(2_000);
        if let Some(w) = window {
            c.window = w;
        }
        if !ALLOC && n > 8 {
            c.window = 1;
        }
        if !c.upload {
            files.push((name.clone(), data.clone()));
        }
        finals.push((id, name, data, c.clone()));
        clients.push(c);
        id += 1;
    }
    let mut x = Xfer::new(Some(s.clone()), clients, net_);
    x.max_secs = 3000;
    x.linger_us = 12_000_000;
    for (n, d) in &files {
        x = x.file(n, d);
    }
    x = x.setup(move |sh| {
        sh.lock().bind_fail = bind_fail;
        let mut from: Vec<SocketAddr> = plan.iter().map(|p| p.1).collect();
        from.sort();
        from.dedup();
        if !from.is_empty() {
            sh.add_peer(&from, Box::new(Script1::new(plan)), 0);
        }
        for (a, at) in abusers {
            let me = a.me;
            sh.add_peer(&[me], Box::new(a), at);
        }
    });
    let o = run(case, x);
    basic(case, &o);
    let mut hist: Vec<_> = done.into_iter().collect();
    hist.sort();
    let what = format!("{total} sessions in {batches} batches (kinds {hist:?}), limit {n}, timeout {} ms", s.request_timeout_ms);
    case.count("sessions", total + n as u64);
    case.count("batches", batches as u64);
    case.max("sessions_in_one_history", total);
    case.nontrivial = total > 1;
    case.check(o.max_open <= n, || format!("{what}: {} sessions at once", o.max_open));
    let times: Vec<u64> = (1..=batches as u64).map(|b| clock::START + b * GAP - 50_000).collect();
    for (b, (socks, paths)) in open_at(&o.log, &times).into_iter().enumerate() {
        case.count("quiet_points", 1);
        case.check(socks == 0 && paths.is_empty(), || format!("{what}: {socks} sockets and the files {paths:?} are still open {} ms after batch {}", GAP / 1000, b));
    }
    for (i, name, data, c) in &finals {
        let key = if c.upload { format!("srv/{name}") } else { format!("cli/{i}") };
        let same = o.fs.get(&key).map(|v| v[..] == data[..]) == Some(true);
        match o.res(*i) {
            Some(v) => {
                case.count("sessions_afterwards", 1);
                case.check(v.ok && same, || format!("{what}: afterwards session {} of {n} at once ({} level {} window {}) was not served: ok {} same {same} {}", i - first_final + 1, if c.upload { "upload" } else { "download" }, c.level, c.window, v.ok, v.err));
            }
            None => case.fail(format!("{what}: client {i} did not return")),
        }
    }
    case.check(o.open_at_end == 0 && o.stores_at_end == 0, || format!("{what}: {} sockets and {} files open at the end", o.open_at_end, o.stores_at_end));
    case.sample = Some(what);
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}

// ------------------------------------------------------------------------------------------------

pub fn c18(case: &mut Case) {
    match case.rng.below(10) {
        0..=3 => c18_upload(case),
        4..=6 => c18_download(case),
        _ => c18_connections(case),
    }
}

fn around(r: &mut Rng, m: u64, bs: u64) -> u64 {
    match r.below(9) {
        0 => m,
        1 => m + 1,
        2 => m.saturating_sub(1),
        3 => m + bs - 1,
        4 => m + bs,
        5 => m + bs + 1,
        6 => m + r.range(1, 20 * bs),
        7 => r.below(m + 1),
        _ => (m / bs + 1) * bs,
    }
}

fn c18_upload(case: &mut Case) {
    let mut r = case.rng.fork();
    let real = r.chance(0.5);
    let mut p = params(&mut r, true, 10);
    if !real {
        p.level = tftp_dus::encryption::EncryptionLevel::None;
        p.keys = false;
    }
    let bs = payload(p.block.min(p.srv_block), p.level) as u64;
    let limit = match r.below(4) {
        0 => bs * r.range(1, 8),
        1 => r.range(1, 3 * bs),
        _ => r.range(1, 9 * bs),
    };
    p.size = around(&mut r, limit, bs) as usize;
    p.data = unique_content(&mut r, p.size);
    let (mut s, mut c) = pair(&mut r, &p);
    s.max_file_size = limit;
    let mut x;
    let mut declared = None;
    let what;
    if real {
        if r.chance(0.5) {
            // a client which does not say how much it is going to send, or something else
            c.tsize = *r.pick(&[None, None, Some(1), Some(limit), Some(limit + 1)]);
        }
        // the size of the local file is what it declares
        declared = Some(p.size as u64);
        what = format!("upload of {} B with a limit of {limit}, level {} block {bs} window {}", p.size, p.level, p.window.min(p.srv_window));
        x = Xfer::new(Some(s), vec![c], net_of(&mut r));
    } else {
        let mut v: Vec<(&str, String)> = vec![];
        let bs2 = p.block.min(p.srv_block);
        if p.block != 512 {
            v.push(("blksize", p.block.to_string()));
        }
        if p.window > 1 {
            v.push(("windowsize", p.window.to_string()));
        }
        match r.below(4) {
            0 => (),
            1 => declared = Some(r.range(1, limit)),
            2 => declared = Some(p.size as u64),
            _ => declared = Some(around(&mut r, limit, bs)),
        }
        if let Some(d) = declared {
            v.push(("tsize", d.to_string()));
        }
        let me = addr(30, 1, 3000);
        let mut rc = RawClient::new(me, srv_addr(), true, NAME, opts(&v), p.data.clone());
        rc.chaos = if r.chance(0.3) { Chaos::gen(&mut r) } else { Chaos::default() };
        rc.give_up_us = 4_000_000;
        what = format!("scripted upload of {} B declared as {declared:?} with a limit of {limit}, block {bs2} window {}", p.size, p.window.min(p.srv_window));
        x = Xfer::new(Some(s), vec![], net_of(&mut r)).setup(move |sh| {
            sh.add_peer(&[me], Box::new(rc), 0);
        });
        x.linger_us = 8_000_000;
    }
    x.max_secs = 200;
    let mut o = run(case, x);
    basic(case, &o);
    case.nontrivial = true;
    let stored: usize = handles(&o.log, &format!("srv/{NAME}"), true)
        .iter()
        .map(|i| o.log.iter().filter_map(|e| if let Ev::StoreWrite { id, data, .. } = &e.ev { (id == i).then_some(data.len()) } else { None }).sum())
        .max()
        .unwrap_or(0);
    let size = p.size as u64;
    let (ok, err, got_error, end) = if real {
        let v = o.res(0).cloned();
        (v.as_ref().is_some_and(|v| v.ok), v.as_ref().map(|v| v.err.clone()).unwrap_or_default(), v.is_some_and(|v| !v.ok), true)
    } else {
        let q = o.peer::<RawClient>(0);
        (q.ok(), format!("{:?}", q.errors), !q.errors.is_empty(), q.flow.is_some())
    };
    case.count(if size > limit { "above_the_limit" } else { "within_the_limit" }, 1);
    case.max("bytes_above_limit_stored", (stored as u64).saturating_sub(limit));
    case.check(stored as u64 <= limit + bs, || format!("{what}: {stored} bytes stored"));
    case.check(!ok || size <= limit, || format!("{what}: acknowledged as complete"));
    if declared.is_some_and(|d| d > limit) {
        case.count("declared_above_the_limit", 1);
        case.check(stored == 0, || format!("{what}: declared above the limit, but {stored} bytes were stored"));
        case.check(got_error, || format!("{what}: declared above the limit, but not refused: {err}"));
    } else if size <= limit && end {
        case.check(ok, || format!("{what}: within the limit, but failed: {err}"));
    }
    case.sample = Some(format!("{what} -> ok {ok} stored {stored} {err}"));
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}

fn net_of(r: &mut Rng) -> Net {
    let mut n = Net::clean();
    n.base_us = *r.pick(&[20, 300, 2_000]);
    n
}

fn c18_download(case: &mut Case) {
    let mut r = case.rng.fork();
    let scripted = r.chance(0.6);
    let mut p = params(&mut r, false, 10);
    if scripted {
        p.level = tftp_dus::encryption::EncryptionLevel::None;
        p.keys = false;
    }
    let eff = if scripted && r.chance(0.3) { 512 } else { p.block.min(p.srv_block) };
    let bs = payload(eff, p.level) as u64;
    let limit = if r.chance(0.5) { bs * r.range(1, 8) } else { r.range(1, 9 * bs) };
    p.size = around(&mut r, limit, bs) as usize;
    p.data = unique_content(&mut r, p.size);
    let (s, mut c) = pair(&mut r, &p);
    c.max_file_size = limit;
    c.request_timeout_ms = 3000;
    let mut declared = Some(p.size as u64);
    let mut x;
    if scripted {
        // a server which lies about the size, or says nothing
        let me = srv_addr();
        let mut v: Vec<(&str, String)> = vec![];
        if eff != 512 {
            v.push(("blksize", eff.to_string()));
        }
        if p.window > 1 {
            v.push(("windowsize", p.window.to_string()));
        }
        declared = match r.below(4) {
            0 => None,
            1 => Some(r.range(1, limit)),
            2 => Some(p.size as u64),
            _ => Some(around(&mut r, limit, bs)),
        };
        if let Some(d) = declared {
            v.push(("tsize", d.to_string()));
        }
        let o = opts(&v);
        let script: Script = Box::new(move |_, _, _| if o.is_empty() { Reply::Plain } else { Reply::Oack(o.clone()) });
        let mut sv = RawServer::new(me, me, p.data.clone(), script);
        sv.chaos = if r.chance(0.3) { Chaos::gen(&mut r) } else { Chaos::default() };
        x = Xfer::new(None, vec![c.clone()], net_of(&mut r)).setup(move |sh| {
            sh.add_peer(&[me], Box::new(sv), 0);
        });
    } else {
        x = Xfer::new(Some(s), vec![c.clone()], net_of(&mut r)).file(NAME, &p.data);
    }
    x.max_secs = 200;
    let o = run(case, x);
    basic(case, &o);
    let what = format!("download of {} B declared as {declared:?} with a limit of {limit}, level {} block {bs} window {}", p.size, p.level, p.window);
    let Some(v) = o.res(0).cloned() else {
        case.fail(format!("{what}: did not return"));
        return;
    };
    case.nontrivial = true;
    let size = p.size as u64;
    case.count(if size > limit { "above_the_limit" } else { "within_the_limit" }, 1);
    let stored = o.fs.get("cli/0").map(|v| v.len()).unwrap_or(0);
    case.check(!v.ok || size <= limit && stored as u64 <= limit, || format!("{what}: reported as successful"));
    // the written limit is the server's; the client has the same one
    case.check(stored as u64 <= limit + bs, || format!("{what}: {stored} bytes stored"));
    if declared.is_some_and(|d| d > limit) {
        case.check(!v.ok && stored == 0, || format!("{what}: declared above the limit, but ok {} and {stored} bytes stored", v.ok));
    } else if size <= limit && !scripted {
        case.check(v.ok, || format!("{what}: within the limit, but failed: {}", v.err));
    }
    case.sample = Some(format!("{what} -> ok {} stored {stored} {}", v.ok, v.err));
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}

/// more clients than the limit, in several waves; those within it are served
fn c18_connections(case: &mut Case) {
    let mut r = case.rng.fork();
    let (mut s, sk, ck) = any_server(&mut r);
    s.request_timeout_ms = 2000;
    let n = if r.chance(0.1) { r.range(8, if ALLOC { 40 } else { 20 }) } else { r.range(1, 6) } as usize;
    s.max_connections = n as u16;
    // a late repeated request to overwrite is a valid request
    s.allow_overwrite = false;
    let mut clients = vec![];
    let mut files = vec![("open".to_string(), r.bytes(6000))];
    let mut list = vec![];
    let m = n + r.range(1, n as u64 + 4) as usize;
    for i in 0..m {
        let (mut c, name, data) = probe(&mut r, i, &s, &sk, &ck, 12);
        let spread = *r.pick(&[1, 2_000, 40_000]);
        c.start_after = r.below(spread);
        if !ALLOC && n > 6 {
            c.window = 1;
        }
        if r.chance(0.4) {
            // held for a while
            c.retry_ms = 500;
        }
        if !c.upload {
            files.push((name.clone(), data.clone()));
        }
        list.push((i, name, data, c.clone()));
        clients.push(c);
    }
    let mut abandoned = vec![];
    for i in 0..r.below(2 * n as u64 + 2) {
        let from = SocketAddr::new(addr(21, i as u8 + 1, 1).ip(), 1000);
        let at = r.below(50_000);
        let q = Pk::Rrq { name: b"open".to_vec(), mode: b"octet".to_vec(), opts: vec![] }.enc();
        abandoned.push((at, from, srv_addr(), q.clone()));
        if r.chance(0.5) {
            abandoned.push((at + r.below(20_000), from, srv_addr(), q));
        }
    }
    let mut net_ = net_of(&mut r);
    if r.chance(0.3) {
        net_ = net(&mut r, 2.0);
    }
    let mut x = Xfer::new(Some(s), clients, net_);
    x.sched_jitter = *r.pick(&[0, 0, 50, 500]);
    for (n, d) in &files {
        x = x.file(n, d);
    }
    let from: Vec<SocketAddr> = {
        let mut v: Vec<SocketAddr> = abandoned.iter().map(|a| a.1).collect();
        v.sort();
        v.dedup();
        v
    };
    x = x.setup(move |sh| {
        if !from.is_empty() {
            sh.add_peer(&from, Box::new(Script1::new(abandoned)), 0);
        }
    });
    let o = run(case, x);
    basic(case, &o);
    let what = format!("{m} clients, limit {n}");
    case.nontrivial = o.max_open == n;
    case.count("worlds_at_the_connection_limit", (o.max_open == n) as u64);
    case.max("sessions_at_once", o.max_open as u64);
    case.check(o.max_open <= n, || format!("{what}: {} sessions at once", o.max_open));
    // storage is held by sessions only
    let mut open: HashSet<usize> = HashSet::new();
    let mut most = 0;
    for e in &o.log {
        match &e.ev {
            Ev::StoreOpen { id, path, ok: true, .. } if path.starts_with("srv/") => {
                open.insert(*id);
                most = most.max(open.len());
            }
            Ev::StoreClose { id } => {
                open.remove(id);
            }
            _ => (),
        }
    }
    case.max("files_open_at_once", most as u64);
    case.check(most <= n + 1, || format!("{what}: {most} files open at once"));
    for (i, name, data, c) in &list {
        let key = if c.upload { format!("srv/{name}") } else { format!("cli/{i}") };
        let same = o.fs.get(&key).map(|v| v[..] == data[..]) == Some(true);
        if let Some(v) = o.res(*i) {
            case.check(!v.ok || same, || format!("{what}: client {i} succeeded with other content"));
        }
    }
    case.sample = Some(format!("{what}, {} at once", o.max_open));
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}
