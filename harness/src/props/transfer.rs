//! C01, C02: end-to-end integrity of reported success.
use crate::endpoints::srv_addr;
use crate::case::Case;
use crate::gen::*;
use crate::session::*;
use crate::world::*;
use std::collections::BTreeMap;

/// what was written through each handle opened for writing on `path`
pub fn writers(log: &[LogEv], path: &str) -> BTreeMap<usize, Vec<u8>> {
    let mut m: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    for e in log {
        match &e.ev {
            Ev::StoreOpen { id, write: true, path: p, ok: true } if p == path => {
                m.insert(*id, vec![]);
            }
            Ev::StoreWrite { id, off, data } => {
                if let Some(v) = m.get_mut(id) {
                    v.resize(v.len().max(off + data.len()), 0);
                    v[*off..off + data.len()].copy_from_slice(data);
                }
            }
            _ => (),
        }
    }
    m
}

fn integrity(case: &mut Case, upload: bool) {
    let mut r = case.rng.fork();
    let max_blocks = if case.thorough { 300 } else { 120 };
    let p = params(&mut r, upload, max_blocks);
    let (mut s, c) = pair(&mut r, &p);
    s.allow_overwrite = r.chance(0.5);
    let net = net(&mut r, 3.0);
    let overwrite = s.allow_overwrite;
    let mut x = Xfer::new(Some(s), vec![c], net);
    x.sched_jitter = *r.pick(&[0, 0, 50, 2000]);
    if !upload {
        x = x.file(NAME, &p.data);
    } else if overwrite && r.chance(0.3) {
        let n = r.below(p.size as u64 + 3000) as usize;
        let old = r.bytes(n);
        x = x.file(NAME, &old);
    }
    let o = run(case, x);
    basic(case, &o);
    let Some(res) = o.res(0) else {
        case.fail("the client did not return");
        keep_trace(case, &o);
        return;
    };
    case.sample = Some(format!(
        "{} {} B block {} window {} level {} seek {} faults {} -> ok {} count {} err {:?}",
        if upload { "upload" } else { "download" }, p.size, p.block, p.window, p.level, p.seek, o.faults, res.ok, res.count, res.err
    ));
    if res.ok {
        case.count("successes", 1);
        if o.faults > 0 {
            case.count("successes_despite_faults", 1);
        }
        case.nontrivial = true;
        let key = if upload { format!("srv/{NAME}") } else { "cli/0".to_string() };
        let mut same = res.stored.as_deref() == Some(&p.data[..]);
        let again = writers(&o.log, &key);
        if !same && overwrite && upload && again.len() > 1 {
            // a stale duplicate of the request opened the file once more, which overwriting permits
            same = again.values().any(|v| v[..] == p.data[..]);
            case.count("reopened_by_stale_request", 1);
        }
        let (stored, size, count) = (res.stored.as_ref().map(|s| s.len()), p.size, res.count);
        case.check(same, || format!("success reported but {stored:?} bytes stored for a file of {size}, or they differ"));
        case.check(count == size, || format!("success reported with {count} bytes for a file of {size}"));
        // and it stays: nothing after the end changes it
        if !(upload && overwrite) {
            let later = o.fs.get(&key).map(|v| v[..] == p.data[..]);
            case.check(later == Some(true), || "the stored file changed after success".to_string());
        }
    } else {
        case.count("failures_reported", 1);
        let sg = format!("err:{}", res.err.split(|c: char| c.is_ascii_digit()).next().unwrap_or(""));
        case.count(&sg, 1);
    }
    case.mix(p.size as u64);
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}

pub fn c01(case: &mut Case) {
    integrity(case, true)
}
pub fn c02(case: &mut Case) {
    integrity(case, false)
}

/// C04: with finitely many faults the transfer completes, soon after the last of them
pub fn c04(case: &mut Case) {
    let mut r = case.rng.fork();
    let upload = r.chance(0.5);
    let p = params(&mut r, upload, if case.thorough { 200 } else { 80 });
    let (s, c) = pair(&mut r, &p);
    let mut n = net(&mut r, 3.0);
    n.max_faults = r.range(1, 30);
    n.jitter_us = 0;
    let mut x = Xfer::new(Some(s), vec![c], n);
    x.sched_jitter = *r.pick(&[0, 0, 50, 2000]);
    if !upload {
        x = x.file(NAME, &p.data);
    }
    let o = run(case, x);
    basic(case, &o);
    let Some(res) = o.res(0) else {
        case.fail("the client did not return");
        keep_trace(case, &o);
        return;
    };
    case.nontrivial = o.faults > 0;
    let since = (res.end.saturating_sub(o.last_fault.max(crate::clock::START))) / 1000;
    case.sample = Some(format!(
        "{} {} B block {} window {} level {} retry {} ms seek {} faults {} -> ok {} err {:?}, {} ms after the last fault",
        if upload { "upload" } else { "download" }, p.size, p.block, p.window, p.level, p.retry_ms, p.seek, o.faults, res.ok, res.err, since
    ));
    if res.ok {
        case.max("ms_after_last_fault", since);
        case.count("completed", 1);
        case.check(since < 12_000 + 4 * p.retry_ms, || format!("the transfer ended only {since} ms after the last disturbed packet"));
    } else {
        let complete = upload && o.fs.get(&format!("srv/{NAME}")).map(|v| v[..] == p.data[..]) == Some(true);
        if complete && ack_disturbed(&o, &format!("srv/{NAME}")) {
            case.count("final_ack_lost", 1);
        } else {
            case.fail(format!("failed although only {} packets were disturbed: {}", o.faults, res.err));
        }
    }
    if !case.viol.is_empty() {
        keep_trace(case, &o);
    }
}

/// one of the disturbed packets was sent by the server after it had stored the last bytes of `path`
pub fn ack_disturbed(o: &Outcome, path: &str) -> bool {
    let ids = crate::monitors::handles(&o.log, path, true);
    let last = o.log.iter().rposition(|e| matches!(&e.ev, Ev::StoreWrite { id, data, .. } if ids.contains(id) && !data.is_empty())).unwrap_or(0);
    let hit: std::collections::HashSet<u64> = o.log.iter().filter_map(|e| if let Ev::Fault { n, .. } = &e.ev { Some(*n) } else { None }).collect();
    o.log[last..].iter().any(|e| matches!(&e.ev, Ev::Send { src, n, real: true, .. } if src.ip() == srv_addr().ip() && hit.contains(n)))
}
