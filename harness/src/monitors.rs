//! Offline monitors over the event log.
use std::net::SocketAddr;

use crate::case::Case;
use crate::refcodec::Pk;
use crate::world::{Ev, LogEv};

/// absolute block index closest to `reference` with this 16-bit number
pub fn near(n: u16, reference: u64) -> i64 {
    reference as i64 + (n.wrapping_sub(reference as u16)) as i16 as i64
}

/// Which storage handle belongs to which path, and whether it is for writing.
pub fn handles(log: &[LogEv], path: &str, write: bool) -> Vec<usize> {
    log.iter()
        .filter_map(|e| match &e.ev {
            Ev::StoreOpen { id, write: w, path: p, ok: true } if *w == write && p == path => Some(*id),
            _ => None,
        })
        .collect()
}

/// C03: every write extends the stored bytes, which stay a prefix of `data`
pub fn prefix(case: &mut Case, log: &[LogEv], path: &str, data: &[u8], what: &str) -> usize {
    let ids = handles(log, path, true);
    let mut lens: Vec<(usize, usize)> = ids.iter().map(|i| (*i, 0)).collect();
    let mut n = 0;
    for e in log {
        if let Ev::StoreWrite { id, off, data: d } = &e.ev {
            let Some(l) = lens.iter_mut().find(|l| l.0 == *id) else { continue };
            n += 1;
            if *off != l.1 {
                case.fail(format!("{what}: {} bytes written at offset {off} although {} are stored", d.len(), l.1));
                return n;
            }
            if off + d.len() > data.len() {
                case.fail(format!("{what}: {} bytes stored, more than the {} of the file", off + d.len(), data.len()));
                return n;
            }
            if d[..] != data[*off..off + d.len()] {
                case.fail(format!("{what}: the bytes written at offset {off} are not those of the file"));
                return n;
            }
            l.1 += d.len();
        }
    }
    case.count("store_writes", n as u64);
    case.count("oracle_checks", n as u64);
    n
}

/// nothing is written to `path` after the first event for which `f` holds
pub fn silent_after(case: &mut Case, log: &[LogEv], path: &str, what: &str, f: impl Fn(&LogEv) -> bool) -> bool {
    let ids = handles(log, path, true);
    let Some(p) = log.iter().position(f) else { return false };
    for e in &log[p + 1..] {
        if let Ev::StoreWrite { id, off, data } = &e.ev {
            if ids.contains(id) && !data.is_empty() {
                case.fail(format!("{what}: {} bytes stored at offset {off} afterwards", data.len()));
                break;
            }
        }
    }
    case.count("oracle_checks", 1);
    true
}

pub struct SenderSpec<'a> {
    pub real: SocketAddr,
    pub peer: SocketAddr,
    pub data: &'a [u8],
    pub bs: usize,
    pub window: u64,
    pub retry_us: u64,
}

/// C07 over the plain-text data packets of one sender.  `real` matches by host: a server may use several ports.
pub fn sender(case: &mut Case, log: &[LogEv], s: &SenderSpec, what: &str) -> u64 {
    let total = (s.data.len() / s.bs) as u64 + 1;
    let (mut acked, mut highest, mut resend_next) = (0u64, 0u64, 0u64);
    let mut last_sent = 0u64;
    let (mut n, mut resent) = (0u64, 0u64);
    for e in log {
        match &e.ev {
            Ev::Recv { at, src, data, .. } if at.ip() == s.real.ip() && *src == s.peer => {
                if let Some(Pk::Ack { block }) = Pk::dec(data) {
                    let a = near(block, acked);
                    if a > acked as i64 && a as u64 <= highest {
                        acked = a as u64;
                        resend_next = if acked < highest { acked + 1 } else { 0 };
                    }
                }
            }
            Ev::Send { src, dst, data, real: true, .. } if src.ip() == s.real.ip() && *dst == s.peer => {
                let Some(Pk::Data { block, data: d }) = Pk::dec(data) else { continue };
                n += 1;
                let i = near(block, highest);
                if i < 1 || i as u64 > total {
                    case.fail(format!("{what}: data block number {block} is none of the file's {total} blocks (highest {highest})"));
                    return n;
                }
                let i = i as u64;
                let from = ((i - 1) as usize * s.bs).min(s.data.len());
                let to = (from + s.bs).min(s.data.len());
                if d.len() != to - from {
                    case.fail(format!("{what}: block {i} of {total} has {} bytes, not {}", d.len(), to - from));
                    return n;
                }
                if d[..] != s.data[from..to] {
                    case.fail(format!("{what}: block {i} does not carry its bytes of the file"));
                    return n;
                }
                if i > acked + s.window {
                    case.fail(format!("{what}: block {i} sent with {acked} acknowledged and a window of {}", s.window));
                    return n;
                }
                if i > highest + 1 {
                    case.fail(format!("{what}: block {i} sent before block {}", highest + 1));
                    return n;
                }
                let waited = e.t.saturating_sub(last_sent);
                if i == highest + 1 {
                    highest = i;
                    if resend_next == i {
                        resend_next = i + 1;
                    }
                } else if i <= acked {
                    case.fail(format!("{what}: block {i} sent again although {acked} blocks are acknowledged"));
                    return n;
                } else if i == resend_next {
                    resend_next = i + 1;
                    resent += 1;
                } else if i == acked + 1 && waited + 1_000 >= s.retry_us {
                    resend_next = i + 1;
                    resent += 1;
                } else {
                    case.fail(format!(
                        "{what}: block {i} sent again {waited} us after the last packet, without timeout ({} us) or a partial acknowledgement (acknowledged {acked}, highest {highest})",
                        s.retry_us
                    ));
                    return n;
                }
                last_sent = e.t;
            }
            _ => (),
        }
    }
    case.count("data_packets_checked", n);
    case.count("retransmissions_checked", resent);
    case.count("oracle_checks", n);
    n
}

pub struct ReceiverSpec<'a> {
    pub real: SocketAddr,
    pub peer: SocketAddr,
    pub path: &'a str,
    pub bs: usize,
    pub window: u64,
    pub client: bool,
    /// the acknowledgement 0 of the options may be repeated
    pub ack0: bool,
}

/// C08 over the plain-text acknowledgements of one receiver
pub fn receiver(case: &mut Case, log: &[LogEv], s: &ReceiverSpec, what: &str) -> u64 {
    let ids = handles(log, s.path, true);
    let mut bytes = 0usize;
    let mut last = 0u64; // last acknowledged
    let mut acks = 0u64;
    // a data packet which has not been answered yet: (was in sequence, length)
    let mut pending: Option<(bool, usize, u64)> = None;
    let mut finished = false; // the short block is stored
    let mut blocks = 0u64; // accepted in sequence
    let mut over = false;
    // sockets of this session: the client's only one, or those the server bound to the peer
    let mut socks: Vec<usize> = vec![];
    // a refused request may be repeated: the session starts with the last one
    let begin = log
        .iter()
        .rposition(|e| matches!(&e.ev, Ev::Send { src, data, real: true, .. } if s.client && *src == s.real && matches!(Pk::dec(data), Some(Pk::Rrq { .. }))))
        .unwrap_or(0);
    for (pos, e) in log.iter().enumerate() {
        match &e.ev {
            Ev::SockOpen { sock, local, peer } if local.ip() == s.real.ip() && (s.client && *local == s.real || *peer == Some(s.peer)) => socks.push(*sock),
            Ev::SockClose { sock } if socks.contains(sock) => over = true,
            Ev::StoreWrite { id, data, .. } if ids.contains(id) => bytes += data.len(),
            Ev::StoreFault { id, .. } if ids.contains(id) => over = true,
            Ev::Recv { src, data, sock, .. } if socks.contains(sock) && *src == s.peer && pos > begin => {
                if over {
                    continue;
                }
                // an unanswered earlier packet: was an answer due?
                if let Some((in_seq, len, idx)) = pending.take() {
                    if !over {
                        due(case, what, in_seq, len, idx, blocks, last, s, finished);
                    }
                }
                match Pk::dec(data) {
                    Some(Pk::Data { block, data: d }) => {
                        let i = near(block, blocks);
                        let in_seq = i == blocks as i64 + 1 && !finished;
                        if in_seq {
                            blocks += 1;
                            if d.len() < s.bs {
                                finished = true;
                            }
                        }
                        pending = Some((in_seq, d.len(), blocks));
                    }
                    Some(Pk::Error { .. }) => over = true,
                    _ => (),
                }
            }
            Ev::Send { src, dst, data, real: true, .. } if src.ip() == s.real.ip() && *dst == s.peer => match Pk::dec(data) {
                Some(Pk::Ack { block }) => {
                    acks += 1;
                    let a = near(block, last);
                    if a == 0 && blocks == 0 && (s.ack0 || pending.is_none()) {
                        pending = None;
                        continue;
                    }
                    if a < last as i64 {
                        case.fail(format!("{what}: acknowledgement {block} after {last} was acknowledged"));
                        return acks;
                    }
                    let a = a as u64;
                    if a > blocks {
                        case.fail(format!("{what}: block {a} acknowledged with only {blocks} received in order"));
                        return acks;
                    }
                    let need = if finished && a == blocks { bytes_of_final(s, blocks, bytes) } else { a as usize * s.bs };
                    if bytes < need {
                        case.fail(format!("{what}: block {a} acknowledged with only {bytes} bytes stored"));
                        return acks;
                    }
                    if pending.take().is_none() {
                        case.fail(format!("{what}: acknowledgement {a} sent without a data packet to acknowledge"));
                        return acks;
                    }
                    last = a;
                }
                Some(Pk::Error { .. }) => over = true,
                _ => (),
            },
            Ev::ClientEnd { .. } => {}
            _ => (),
        }
    }
    case.count("acks_checked", acks);
    case.count("oracle_checks", acks);
    acks
}

/// all full blocks before the final one must be stored; the final one may be of any size
fn bytes_of_final(s: &ReceiverSpec, blocks: u64, _bytes: usize) -> usize {
    (blocks as usize - 1) * s.bs
}

#[allow(clippy::too_many_arguments)]
fn due(case: &mut Case, what: &str, in_seq: bool, len: usize, idx: u64, blocks: u64, last: u64, s: &ReceiverSpec, finished: bool) {
    let _ = (idx, finished);
    if !in_seq {
        case.fail(format!("{what}: a duplicate or out-of-order block was not answered (position {blocks})"));
    } else if len < s.bs {
        case.fail(format!("{what}: the final block {blocks} was not acknowledged"));
    } else if blocks - last >= s.window {
        case.fail(format!("{what}: {} blocks stored since the last acknowledgement with a window of {}", blocks - last, s.window));
    }
    case.count("oracle_checks", 1);
}
