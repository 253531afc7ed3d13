//! C09, C10, C11: option negotiation of both real sides against scripted RFC peers.
use std::net::SocketAddr;

use crate::case::Case;
use crate::endpoints::*;
use crate::gen::*;
use crate::monitors::*;
use crate::peers::*;
use crate::refcodec::{opt, Pk};
use crate::rng::Rng;
use crate::session::*;
use crate::world::*;

type Opts = Vec<(Vec<u8>, Vec<u8>)>;

const ODD: &[&str] = &[
    "", "0", "00", "1", "2", "3", "7", "8", "9", "10", "16", "17", "255", "256", "257", "300", "511", "512", "513", "0512", "+512", " 512", "512 ", "512a", "1428", "2048", "65463", "65464", "65465", "65535",
    "65536", "70000", "-1", "-512", "4294967296", "4294967808", "18446744073709551615", "18446744073709551616", "18446744073709552128", "99999999999999999999999999", "1e3", "0x200", "512.0", "abc", "\u{665}\u{661}\u{662}", "true", "\u{1F600}",
];

/// value read as a plain decimal number, when it is one (a sign or leading zeros included)
fn number(v: &str) -> Option<u128> {
    let d = v.strip_prefix('+').unwrap_or(v);
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let d = d.trim_start_matches('0');
    if d.len() > 30 {
        return Some(u128::MAX);
    }
    if d.is_empty() {
        return Some(0);
    }
    d.parse().ok()
}

fn strict(v: &str) -> Option<u128> {
    if v.starts_with('+') || v.len() > 1 && v.starts_with('0') {
        return None;
    }
    number(v)
}

fn casing(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_ascii_uppercase(),
        1 => s.chars().map(|c| if r.chance(0.5) { c.to_ascii_uppercase() } else { c }).collect(),
        _ => s.to_string(),
    }
}

fn odd_value(r: &mut Rng) -> String {
    match r.below(12) {
        0 => "9".repeat(r.range(20, 200) as usize),
        1 => r.range(0, 70_000).to_string(),
        _ => r.pick(ODD).to_string(),
    }
}

fn asked(r: &mut Rng, tsize: u64) -> Opts {
    let mut v: Vec<(String, String)> = vec![];
    if r.chance(0.7) {
        let x = if r.chance(0.5) { block_size(r).to_string() } else { odd_value(r) };
        v.push((casing(r, "blksize"), x));
    }
    if r.chance(0.6) {
        let x = if r.chance(0.5) { window(r).to_string() } else { odd_value(r) };
        v.push((casing(r, "windowsize"), x));
    }
    if r.chance(0.5) {
        let x = if r.chance(0.6) { r.range(1, 4).to_string() } else { odd_value(r) };
        v.push((casing(r, "timeout"), x));
    }
    if r.chance(0.5) {
        let x = if r.chance(0.7) { tsize.to_string() } else { odd_value(r) };
        v.push((casing(r, "tsize"), x));
    }
    for _ in 0..r.below(3) {
        if r.chance(0.4) {
            let name = *r.pick(&["multicast", "foo", "blksize2", "blk", "rollover", "x", "", "utimeout", "windowsiz", "blocksize"]);
            let x = odd_value(r);
            v.push((name.to_string(), x));
        }
    }
    r.shuffle(&mut v);
    v.into_iter().map(|(a, b)| (a.into_bytes(), b.into_bytes())).collect()
}

fn show_opts(o: &Opts) -> String {
    o.iter().map(|(a, b)| format!("{}={:?}", String::from_utf8_lossy(a), String::from_utf8_lossy(&b[..b.len().min(40)]))).collect::<Vec<_>>().join(" ")
}

pub fn c09(case: &mut Case) {
    let mut r = case.rng.fork();
    let s = ServerSpec {
        max_block_size: if r.chance(0.4) { MAX_BLOCK } else { block_size(&mut r) },
        max_window: if r.chance(0.4) { MAX_WINDOW } else { window(&mut r) },
        prefer_seek: SEEK && r.chance(0.4),
        port_change: r.chance(0.4),
        request_timeout_ms: *r.pick(&[1000, 2500, 9000, 15000]),
        max_file_size: if r.chance(0.8) { u64::MAX >> 1 } else { 1 << 30 },
        ..ServerSpec::default()
    };
    let k = r.range(1, 3) as usize;
    let (maxb, maxw, rt, maxf) = (s.max_block_size, s.max_window, s.request_timeout_ms / 1000, s.max_file_size);
    let mut net = Net::clean();
    net.jitter_us = 0;
    let mut x = Xfer::new(Some(s), vec![], net);
    x.linger_us = 50_000;
    struct C {
        me: SocketAddr,
        upload: bool,
        name: String,
        data: Vec<u8>,
        opts: Opts,
        stall: bool,
    }
    let mut list = vec![];
    for i in 0..k {
        let upload = r.chance(0.5);
        let size = size(&mut r, 512, 24);
        let data = unique_content(&mut r, size);
        let opts = asked(&mut r, if upload { data.len() as u64 } else { 0 });
        let name = format!("f{i}");
        if !upload {
            x = x.file(&name, &data);
        }
        let mut c = RawClient::new(addr(1, 1 + i as u8, 2000), srv_addr(), upload, &name, opts.clone(), data.clone());
        let stall = !upload && r.chance(0.25);
        if stall {
            c.chaos.silent_after = Some(r.below(4));
        } else if r.chance(0.3) && opt(&c.request_opts(), "timeout").is_none() {
            c.chaos.skip = 0.1;
            c.chaos.budget = 3;
        }
        let me = c.me;
        x = x.setup(move |sh| {
            sh.add_peer(&[me], Box::new(c), 1000 * i as u64);
        });
        if stall {
            // long enough for a retransmission at the largest accepted timeout
            x.linger_us = 9_000_000;
        }
        list.push(C { me, upload, name, data, opts, stall });
    }
    let mut o = run(case, x);
    basic(case, &o);
    for (i, c) in list.iter().enumerate() {
        let (ok, got, oack, errors, first) = {
            let p = o.peer::<RawClient>(i);
            (p.ok(), p.got().to_vec(), p.oack.clone(), p.errors.clone(), p.first.clone())
        };
        let what = format!("{} of {} B asking {} (server maximum block {maxb} window {maxw})", if c.upload { "upload" } else { "download" }, c.data.len(), show_opts(&c.opts));
        case.sample = Some(format!("{what} -> {:?}", oack.as_ref().map(show_opts)));
        // a declared size over the limit is refused (C18)
        let tsize = opt(&c.opts, "tsize").and_then(number);
        let acks: Opts = match (&first, oack) {
            (Some(Pk::Error { .. }), _) if tsize.is_some_and(|t| t > maxf as u128) => continue,
            (Some(Pk::Oack { .. }), Some(v)) => v,
            (Some(Pk::Ack { block: 0 }), _) if c.upload => vec![],
            (Some(Pk::Data { block: 1, .. }), _) if !c.upload => vec![],
            (f, _) => {
                case.fail(format!("{what}: first reply {f:?} {errors:?}"));
                continue;
            }
        };
        if matches!(first, Some(Pk::Oack { .. })) {
            case.count("option_acks", 1);
            case.check(!acks.is_empty(), || format!("{what}: an option acknowledgement without options"));
        } else {
            case.count("plain_replies", 1);
        }
        let mut seen: Vec<String> = vec![];
        for (n, v) in &acks {
            let name = String::from_utf8_lossy(n).to_ascii_lowercase();
            let value = String::from_utf8_lossy(v).into_owned();
            case.check(!seen.contains(&name), || format!("{what}: {name} acknowledged twice"));
            seen.push(name.clone());
            let wanted = opt(&c.opts, &name).map(|s| s.to_string());
            let Some(wanted) = wanted else {
                case.fail(format!("{what}: {name}={value} acknowledged without being asked"));
                continue;
            };
            let (Some(w), Some(v)) = (number(&wanted), number(&value)) else {
                case.fail(format!("{what}: {name}={value:?} acknowledged for {wanted:?}"));
                continue;
            };
            match name.as_str() {
                "blksize" => case.check(v <= w && v <= maxb as u128 && v >= 8, || format!("{what}: blksize {value} acknowledged")),
                "windowsize" => case.check(v <= w && v <= maxw as u128 && v >= 1, || format!("{what}: windowsize {value} acknowledged")),
                "timeout" => case.check(v == w && (1..=255).contains(&v), || format!("{what}: timeout {value} acknowledged")),
                "tsize" => {
                    let real = c.data.len() as u128;
                    let good = if c.upload { v == w } else { v == real || real == 0 && v == w };
                    case.check(good, || format!("{what}: tsize {value} acknowledged, the file has {real} bytes"))
                }
                _ => case.fail(format!("{what}: unknown option {name} acknowledged")),
            }
        }
        // a well-formed size request of a download is answered
        if !c.upload && opt(&c.opts, "tsize").and_then(strict).is_some_and(|t| t <= u64::MAX as u128) && c.opts.len() <= 4 {
            case.check(opt(&acks, "tsize").is_some(), || format!("{what}: the file size was asked for and not reported"));
        }
        let _ = rt;
        let (bs, w) = eff(&acks);
        let retry_us = opt(&acks, "timeout").and_then(number).map(|t| t as u64 * 1_000_000).unwrap_or(80_000);
        if c.upload {
            case.check(ok && errors.is_empty(), || format!("{what}: not completed {errors:?}"));
            case.check(o.fs.get(&format!("srv/{}", c.name)).map(|v| v[..] == c.data[..]) == Some(true), || format!("{what}: the stored file differs"));
            let n = receiver(
                case,
                &o.log,
                &ReceiverSpec { real: srv_addr(), peer: c.me, path: &format!("srv/{}", c.name), bs, window: w, client: false, ack0: true },
                &what,
            );
            case.nontrivial |= n > 0;
        } else {
            let n = sender(case, &o.log, &SenderSpec { real: srv_addr(), peer: c.me, data: &c.data, bs, window: w, retry_us }, &what);
            case.nontrivial |= n > 0;
            if c.stall && !ok {
                retransmits(case, &o.log, c.me, retry_us, (c.data.len() / bs) as u64 + 1, &what, o.end, rt * 1_000_000);
            } else {
                case.check(ok && got[..] == c.data[..], || format!("{what}: not completed, {} bytes {errors:?}", got.len()));
            }
        }
    }
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}

/// The client fell silent: the server's last new packet is followed by a retransmission about one timeout later.
#[allow(clippy::too_many_arguments)]
fn retransmits(case: &mut Case, log: &[LogEv], me: SocketAddr, retry_us: u64, _total: u64, what: &str, end: u64, rt_us: u64) {
    let last_recv = log.iter().filter(|e| matches!(&e.ev, Ev::Recv { src, .. } if *src == me)).map(|e| e.t).max().unwrap_or(0);
    let sends: Vec<u64> = log
        .iter()
        .filter(|e| e.t >= last_recv && matches!(&e.ev, Ev::Send { dst, real: true, data, .. } if *dst == me && matches!(Pk::dec(data), Some(Pk::Data { .. } | Pk::Oack { .. }))))
        .map(|e| e.t)
        .collect();
    // the burst after the last acknowledgement, then the first gap
    let Some(first) = sends.first() else { return };
    let mut last = *first;
    let mut gap = None;
    for s in &sends[1..] {
        if s - last > retry_us / 2 {
            gap = Some(s - last);
            break;
        }
        last = *s;
    }
    // the session must live long enough for it
    if retry_us + 600_000 + last > end || retry_us + 600_000 >= rt_us {
        return;
    }
    case.count("retransmission_timeouts_measured", 1);
    match gap {
        None => case.fail(format!("{what}: nothing was sent again within the acknowledged timeout of {retry_us} us")),
        Some(g) => case.check(g <= retry_us + retry_us / 2 + 500_000 && g + 1000 >= retry_us, || {
            format!("{what}: sent again {g} us after the last packet although the timeout is {retry_us} us")
        }),
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Bad {
    No,
    /// an option which was not asked for
    Extra,
    /// a value which must not be accepted
    Value,
}

pub fn c10(case: &mut Case) {
    let mut r = case.rng.fork();
    let upload = r.chance(0.5);
    let mut c = ClientSpec::new(0, upload, NAME);
    c.block_size = block_size(&mut r);
    c.window = window(&mut r);
    c.retry_ms = *r.pick(&[80, 80, 200, 500, 999, 1000, 1000, 1500, 2000, 3000]);
    c.prefer_seek = SEEK && r.chance(0.3);
    c.request_timeout_ms = 4000;
    if !upload && r.chance(0.3) {
        c.tsize = None;
    }
    let (cb, cw, crt, ctsize) = (c.block_size, c.window, c.retry_ms, c.tsize);
    let (bs_guess, _) = (cb as usize, 0);
    let sz = size(&mut r, bs_guess, 24);
    let data = unique_content(&mut r, sz);
    c.data = data.clone().into();
    // what the request must carry
    let mut want: Vec<(&str, String)> = vec![];
    if cb != 512 {
        want.push(("blksize", cb.to_string()));
    }
    if cw != 1 {
        want.push(("windowsize", cw.to_string()));
    }
    if crt != 80 && crt >= 1000 {
        want.push(("timeout", (crt / 1000).to_string()));
    }
    if upload && !data.is_empty() {
        want.push(("tsize", data.len().to_string()));
    } else if !upload && ctsize.is_some() {
        want.push(("tsize", "0".into()));
    }
    // the reply
    let mut reply: Vec<(String, String)> = vec![];
    for (n, v) in &want {
        if r.chance(0.75) {
            let v = match *n {
                "blksize" if cb > 512 && r.chance(0.4) => r.range(512, cb as u64).to_string(),
                "windowsize" if r.chance(0.4) => r.range(1, cw as u64).to_string(),
                "tsize" if !upload => data.len().to_string(),
                _ => v.clone(),
            };
            reply.push((n.to_string(), v));
        }
    }
    let mut bad = Bad::No;
    match r.below(10) {
        0..=2 => {
            // name an option that was not asked for
            let names: Vec<&str> = ["blksize", "windowsize", "timeout", "tsize"].into_iter().filter(|n| !want.iter().any(|w| w.0 == *n)).collect();
            if !names.is_empty() {
                let n = *r.pick(&names);
                let v = match n {
                    "blksize" => block_size(&mut r).to_string(),
                    "windowsize" => r.range(1, 4).to_string(),
                    "timeout" => r.range(1, 3).to_string(),
                    _ => data.len().to_string(),
                };
                reply.push((n.to_string(), v));
                bad = Bad::Extra;
            }
        }
        3..=6 if !reply.is_empty() => {
            let i = r.below(reply.len() as u64) as usize;
            let n = reply[i].0.clone();
            let v = match n.as_str() {
                "blksize" => match r.below(4) {
                    0 => (cb as u64 + r.range(1, 2000)).to_string(),
                    1 => r.below(512).to_string(),
                    2 => (65536 + cb as u64).to_string(),
                    _ => garbage(&mut r),
                },
                "windowsize" => match r.below(4) {
                    0 => (cw as u64 + r.range(1, 2000)).to_string(),
                    1 => "0".to_string(),
                    2 => (65536 + cw as u64).to_string(),
                    _ => garbage(&mut r),
                },
                "timeout" => match r.below(3) {
                    0 => "0".to_string(),
                    1 => r.range(256, 600).to_string(),
                    _ => garbage(&mut r),
                },
                _ if upload => match r.below(3) {
                    0 => (data.len() as u64 + r.range(1, 5)).to_string(),
                    1 => r.below(data.len() as u64).to_string(),
                    _ => garbage(&mut r),
                },
                _ => garbage(&mut r),
            };
            reply[i].1 = v;
            bad = Bad::Value;
        }
        _ => (),
    }
    r.shuffle(&mut reply);
    if r.chance(0.2) {
        for p in reply.iter_mut() {
            p.0 = casing(&mut r, &p.0.clone());
        }
    }
    let plain = reply.is_empty();
    let ropts: Opts = reply.iter().map(|(a, b)| (a.clone().into_bytes(), b.clone().into_bytes())).collect();
    let tid = srv_addr();
    let r2 = ropts.clone();
    let script: Script = Box::new(move |_, _, _| if plain { Reply::Plain } else { Reply::Oack(r2.clone()) });
    let mut srv = RawServer::new(srv_addr(), tid, data.clone(), script);
    if bad == Bad::No && crt < 500 && opt(&ropts, "timeout").is_none() && r.chance(0.3) {
        srv.chaos.skip = 0.1;
        srv.chaos.budget = 3;
    }
    let caddr = c.addr;
    let mut n = Net::clean();
    n.jitter_us = 0;
    let x = Xfer::new(None, vec![c], n).setup(move |sh| {
        sh.add_peer(&[srv_addr()], Box::new(srv), 0);
    });
    let mut o = run(case, x);
    basic(case, &o);
    let Some(res) = o.res(0).cloned() else {
        case.fail("the client did not return");
        return;
    };
    let what = format!(
        "{} of {} B, block {cb} window {cw} retry {crt} ms, reply {}",
        if upload { "upload" } else { "download" },
        data.len(),
        if plain { "plain".to_string() } else { show_opts(&ropts) }
    );
    case.sample = Some(format!("{what} ({bad:?}) -> ok {} {:?}", res.ok, res.err));
    let requests = o.peer::<RawServer>(0).requests.clone();
    let told = o.log.iter().any(|e| matches!(&e.ev, Ev::Send { src, dst, data, real: true, .. } if *src == caddr && *dst == tid && matches!(Pk::dec(data), Some(Pk::Error { .. }))));
    match requests.first() {
        Some(p @ (Pk::Rrq { name, mode, opts } | Pk::Wrq { name, mode, opts })) => {
            case.check(matches!(p, Pk::Wrq { .. }) == upload, || format!("{what}: wrong request type"));
            case.check(&name[..] == NAME.as_bytes(), || format!("{what}: request for another name"));
            case.check(mode.eq_ignore_ascii_case(b"octet"), || format!("{what}: request in another mode"));
            let mut a: Vec<(String, String)> = opts.iter().map(|(a, b)| (String::from_utf8_lossy(a).to_ascii_lowercase(), String::from_utf8_lossy(b).into_owned())).collect();
            let mut b: Vec<(String, String)> = want.iter().map(|(a, b)| (a.to_string(), b.clone())).collect();
            a.sort();
            b.sort();
            case.check(a == b, || format!("{what}: the request asks for {a:?}, its configuration calls for {b:?}"));
        }
        p => case.fail(format!("{what}: no request: {p:?}")),
    }
    let stored = o.fs.get("cli/0").cloned();
    let data_sent = o
        .log
        .iter()
        .any(|e| matches!(&e.ev, Ev::Send { src, data, real: true, .. } if *src == caddr && matches!(Pk::dec(data), Some(Pk::Data { .. }))));
    let wrote = o.log.iter().any(|e| matches!(&e.ev, Ev::StoreWrite { data, .. } if !data.is_empty()));
    if bad != Bad::No {
        case.count(if bad == Bad::Extra { "unrequested_options" } else { "bad_values" }, 1);
        case.nontrivial = true;
        case.check(!res.ok, || format!("{what}: the reply was accepted"));
        case.check(!data_sent && !wrote, || format!("{what}: data was transferred"));
        if bad == Bad::Extra {
            case.check(told, || format!("{what}: the server was not told"));
        }
    } else {
        case.count("valid_replies", 1);
        let (bs, w) = eff(&ropts);
        let retry_us = if plain { crt * 1000 } else { opt(&ropts, "timeout").and_then(number).map(|t| t as u64 * 1_000_000).unwrap_or(80_000) };
        case.check(res.ok, || format!("{what}: failed with {}", res.err));
        if upload {
            let p = o.peer::<RawServer>(0);
            let same = p.flow.as_ref().is_some_and(|f| f.complete && f.data == data);
            case.check(same, || format!("{what}: the server did not get the file"));
            case.nontrivial = sender(case, &o.log, &SenderSpec { real: caddr, peer: tid, data: &data, bs, window: w, retry_us }, &what) > 0;
        } else {
            case.check(stored.as_deref() == Some(&data[..]), || format!("{what}: the stored file differs"));
            case.nontrivial = receiver(case, &o.log, &ReceiverSpec { real: caddr, peer: tid, path: "cli/0", bs, window: w, client: true, ack0: true }, &what) > 0;
        }
    }
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}

fn garbage(r: &mut Rng) -> String {
    r.pick(&["", "a", "-1", " 1", "1 ", "99999999999999999999999", "0x10", "1.5", "NaN", "\u{661}", "--", "5,5"]).to_string()
}

pub fn c11(case: &mut Case) {
    let mut r = case.rng.fork();
    if r.chance(0.5) {
        c11_client(case, &mut r)
    } else {
        c11_server(case, &mut r)
    }
}

fn c11_client(case: &mut Case, r: &mut Rng) {
    let upload = r.chance(0.5);
    let mut c = ClientSpec::new(0, upload, NAME);
    c.block_size = block_size(r);
    c.window = window(r);
    c.retry_ms = *r.pick(&[80, 80, 200, 1000, 2000]);
    c.prefer_seek = SEEK && r.chance(0.3);
    if ENC && r.chance(0.2) {
        c.level = *r.pick(&[tftp_dus::encryption::EncryptionLevel::OptionalData, tftp_dus::encryption::EncryptionLevel::OptionalProtocol]);
    }
    c.allow_port_change = r.chance(0.6);
    let optional = c.level != tftp_dus::encryption::EncryptionLevel::None;
    let size = size(r, 512, if case.thorough { 120 } else { 40 });
    let data = unique_content(r, size);
    c.data = data.clone().into();
    let tid = if c.allow_port_change && r.chance(0.7) { SocketAddr::new(srv_addr().ip(), 3456) } else { srv_addr() };
    // how the server treats a request with options
    let reject: Option<u16> = if optional || r.chance(0.4) { None } else { Some(*r.pick(&[0u16, 4])) };
    let text: &[u8] = *r.pick(&[&b"options not supported"[..], b"", b"Illegal TFTP operation"]);
    let text = text.to_vec();
    let drop_first = r.chance(0.2);
    let script: Script = Box::new(move |p, n, _| {
        if drop_first && n == 0 {
            return Reply::Silence;
        }
        let has = matches!(p, Pk::Rrq { opts, .. } | Pk::Wrq { opts, .. } if !opts.is_empty());
        match reject {
            Some(c) if has => Reply::Error(c, text.clone()),
            _ => Reply::Plain,
        }
    });
    let mut srv = RawServer::new(srv_addr(), tid, data.clone(), script);
    if r.chance(0.4) {
        srv.chaos.skip = 0.05;
        srv.chaos.dup = 0.05;
        srv.chaos.budget = 6;
    }
    let (caddr, cb, cw, crt, level, port_change) = (c.addr, c.block_size, c.window, c.retry_ms, c.level, c.allow_port_change);
    let mut n = Net::clean();
    n.jitter_us = 0;
    let x = Xfer::new(None, vec![c], n).setup(move |sh| {
        sh.add_peer(&[srv_addr(), tid], Box::new(srv), 0);
    });
    let mut o = run(case, x);
    basic(case, &o);
    let Some(res) = o.res(0).cloned() else {
        case.fail("the client did not return");
        return;
    };
    let what = format!(
        "{} of {} B asking block {cb} window {cw} level {level}, server {}",
        if upload { "upload" } else { "download" },
        data.len(),
        match reject {
            Some(c) => format!("rejects options with error {c}"),
            None => "ignores options".into(),
        }
    );
    let _ = port_change;
    case.sample = Some(format!("{what} -> ok {} {:?}", res.ok, res.err));
    case.check(res.ok, || format!("{what}: failed with {}", res.err));
    case.check(res.count == data.len(), || format!("{what}: {} bytes reported", res.count));
    if reject.is_some() {
        let p = o.peer::<RawServer>(0);
        let clean = matches!(p.requests.last(), Some(Pk::Rrq { opts, .. } | Pk::Wrq { opts, .. }) if opts.is_empty());
        case.check(clean, || format!("{what}: the request was not repeated without options"));
        case.count("rejections_survived", 1);
    }
    if upload {
        let p = o.peer::<RawServer>(0);
        let same = p.flow.as_ref().is_some_and(|f| f.complete && f.data == data);
        case.check(same, || format!("{what}: the server did not get the file"));
        case.nontrivial = sender(case, &o.log, &SenderSpec { real: caddr, peer: tid, data: &data, bs: 512, window: 1, retry_us: crt * 1000 }, &what) > 0;
    } else {
        let same = o.fs.get("cli/0").map(|v| v[..] == data[..]) == Some(true);
        case.check(same, || format!("{what}: the stored file differs"));
        case.nontrivial = receiver(case, &o.log, &ReceiverSpec { real: caddr, peer: tid, path: "cli/0", bs: 512, window: 1, client: true, ack0: true }, &what) > 0;
    }
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}

fn c11_server(case: &mut Case, r: &mut Rng) {
    let s = ServerSpec {
        max_block_size: block_size(r),
        max_window: window(r),
        prefer_seek: SEEK && r.chance(0.4),
        port_change: r.chance(0.4),
        ..ServerSpec::default()
    };
    let (maxb, maxw) = (s.max_block_size as u64, s.max_window as u64);
    let mut net = Net::clean();
    net.jitter_us = 0;
    let mut x = Xfer::new(Some(s), vec![], net);
    x.linger_us = 50_000;
    let upload = r.chance(0.5);
    let size = size(r, 512, if case.thorough { 120 } else { 40 });
    let data = unique_content(r, size);
    let base = if r.chance(0.85) { "octet" } else { *r.pick(&["netascii", "mail", "octets", "", "binary", "o"]) };
    let mode = casing(r, base);
    let octet = mode.eq_ignore_ascii_case("octet");
    // options in any letter case, or none, or only unknown ones
    let kind = r.below(4);
    let opts: Opts = match kind {
        0 | 1 => vec![],
        2 => vec![(b"foo".to_vec(), b"1".to_vec()), (b"multicast".to_vec(), b"".to_vec())],
        _ => {
            let mut v = vec![];
            v.push((casing(r, "blksize").into_bytes(), r.range(512, 600.min(maxb)).to_string().into_bytes()));
            v.push((casing(r, "windowsize").into_bytes(), r.range(1, maxw.min(4)).to_string().into_bytes()));
            v.push((casing(r, "tsize").into_bytes(), if upload { data.len().to_string() } else { "0".into() }.into_bytes()));
            v
        }
    };
    let mut c = RawClient::new(addr(1, 1, 2000), srv_addr(), upload, "f0", vec![], data.clone());
    let (name, m) = (b"f0".to_vec(), mode.clone().into_bytes());
    c.request = if upload { Pk::Wrq { name, mode: m, opts: opts.clone() } } else { Pk::Rrq { name, mode: m, opts: opts.clone() } };
    if octet && r.chance(0.4) {
        c.chaos.skip = 0.05;
        c.chaos.dup = 0.05;
        c.chaos.budget = 6;
    }
    c.give_up_us = if octet { 30_000_000 } else { 500_000 };
    let me = c.me;
    x = x.setup(move |sh| {
        sh.add_peer(&[me], Box::new(c), 0);
    });
    if !upload {
        x = x.file("f0", &data);
    }
    let mut o = run(case, x);
    basic(case, &o);
    let (ok, got, oack, errors, first) = {
        let p = o.peer::<RawClient>(0);
        (p.ok(), p.got().to_vec(), p.oack.clone(), p.errors.clone(), p.first.clone())
    };
    let what = format!("{} of {} B in mode {mode:?} with options {}", if upload { "upload" } else { "download" }, data.len(), show_opts(&opts));
    case.sample = Some(format!("{what} -> complete {ok} {errors:?}"));
    case.nontrivial = true;
    if !octet {
        case.count("other_modes", 1);
        case.check(!ok && !matches!(first, Some(Pk::Data { .. } | Pk::Ack { .. } | Pk::Oack { .. })), || format!("{what}: an unsupported mode was served"));
        case.check(!o.fs.contains_key("srv/f0") || !upload, || format!("{what}: a file was created"));
    } else {
        if kind < 3 {
            let good = match &first {
                Some(Pk::Ack { block: 0 }) => upload,
                Some(Pk::Data { block: 1, .. }) => !upload,
                _ => false,
            };
            case.check(good, || format!("{what}: first reply {first:?}"));
            case.count("plain_sessions", 1);
        } else {
            let want: Vec<&str> = vec!["blksize", "windowsize", "tsize"];
            let good = oack.as_ref().is_some_and(|a| want.iter().all(|w| opt(a, w) == opt(&opts, w) || *w == "tsize" && opt(a, w).is_some()));
            case.check(good, || format!("{what}: acknowledged {:?}", oack.as_ref().map(show_opts)));
            case.count("odd_case_options", 1);
        }
        let (bs, w) = eff(oack.as_deref().unwrap_or(&[]));
        case.check(ok && errors.is_empty(), || format!("{what}: not completed {errors:?}"));
        if upload {
            case.check(o.fs.get("srv/f0").map(|v| v[..] == data[..]) == Some(true), || format!("{what}: the stored file differs"));
            receiver(case, &o.log, &ReceiverSpec { real: srv_addr(), peer: me, path: "srv/f0", bs, window: w, client: false, ack0: true }, &what);
        } else {
            case.check(got[..] == data[..], || format!("{what}: other content delivered"));
            sender(case, &o.log, &SenderSpec { real: srv_addr(), peer: me, data: &data, bs, window: w, retry_us: 80_000 }, &what);
        }
    }
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}
