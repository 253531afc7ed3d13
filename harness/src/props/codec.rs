//! C12 packet codec, C23 encryption at rest, C24 keys and key files.
use tftp_dus::packet::*;
use tftp_dus::types::*;

use crate::case::{hex, Case};
use crate::refcodec::Pk;
use crate::rng::Rng;

const ALLOC: bool = cfg!(feature = "alloc");
const NAMES: [&str; 8] = ["blksize", "timeout", "tsize", "enclevel", "windowsize", "spubk", "apubk", "sig"];
/// capacities of the flavours without allocation
const FILE_PATH: usize = 150;
const MESSAGE: usize = 140;
const VALUE: usize = 88;
const BLOCK: usize = 1425;

type Pairs = Vec<(Vec<u8>, Vec<u8>)>;

/// valid text without the terminator, length 0..=max in bytes, biased to the ends
fn text(r: &mut Rng, max: usize) -> String {
    let len = match r.below(8) {
        0 => 0,
        1 => max,
        2 => max.saturating_sub(1),
        3 => r.below(4) as usize,
        _ => r.below(max as u64 + 1) as usize,
    }
    .min(max);
    let kind = r.below(3);
    let mut s = String::new();
    while s.len() < len {
        let c = match kind {
            0 => (b'a' + r.below(26) as u8) as char,
            1 => (1 + r.below(127) as u8) as char,
            _ => char::from_u32(1 + r.below(0x2fff) as u32).unwrap_or('x'),
        };
        if s.len() + c.len_utf8() > len {
            s.push('y');
        } else {
            s.push(c);
        }
    }
    s
}

fn ext(n: usize) -> Extension {
    NAMES[n].parse().expect("option name")
}

fn path_max() -> usize {
    if ALLOC { 700 } else { FILE_PATH }
}
fn msg_max() -> usize {
    if ALLOC { 700 } else { MESSAGE }
}
fn value_max() -> usize {
    if ALLOC { 300 } else { VALUE }
}
fn data_max() -> usize {
    if ALLOC { 4000 } else { BLOCK }
}

fn pairs_of(e: &PacketExtensions) -> Pairs {
    e.iter().map(|(k, v)| (k.as_str().as_bytes().to_vec(), v.as_bytes().to_vec())).collect()
}

/// the packet as its meaning, options sorted by name
fn meaning(p: &Packet) -> Pk {
    let opts = |e: &PacketExtensions| {
        let mut v = pairs_of(e);
        v.sort();
        v
    };
    let mode = |m: &Mode| m.as_str().as_bytes().to_vec();
    match p {
        Packet::Read(p) => Pk::Rrq { name: p.file_name.as_bytes().to_vec(), mode: mode(&p.mode), opts: opts(&p.extensions) },
        Packet::Write(p) => Pk::Wrq { name: p.file_name.as_bytes().to_vec(), mode: mode(&p.mode), opts: opts(&p.extensions) },
        Packet::Data(p) => Pk::Data { block: p.block, data: p.data.to_vec() },
        Packet::Ack(p) => Pk::Ack { block: p.block },
        Packet::Error(p) => Pk::Error { code: p.code as u16, msg: p.message.as_bytes().to_vec() },
        Packet::OptionalAck(p) => Pk::Oack { opts: opts(&p.extensions) },
    }
}

fn extensions(r: &mut Rng) -> PacketExtensions {
    let mut order: Vec<usize> = (0..8).collect();
    r.shuffle(&mut order);
    let n = *r.pick(&[0u64, 1, 2, 3, 4, 7, 8, 8]);
    let mut e = PacketExtensions::new();
    for i in &order[..n as usize] {
        let v: ExtensionValue = text(r, value_max()).parse().expect("value fits");
        let _ = e.insert(ext(*i), v);
    }
    e
}

fn code(r: &mut Rng) -> ErrorCode {
    [
        ErrorCode::Undefined,
        ErrorCode::FileNotFound,
        ErrorCode::AccessViolation,
        ErrorCode::DiskFull,
        ErrorCode::IllegalOperation,
        ErrorCode::UnknownId,
        ErrorCode::FileAlreadyExists,
        ErrorCode::NotSuchUser,
    ][r.below(8) as usize]
}

fn make<'a>(r: &mut Rng, data: &'a mut Vec<u8>) -> Packet<'a> {
    match r.below(6) {
        k @ 0..=1 => {
            let p = RequestPacket { file_name: text(r, path_max()).parse().expect("path fits"), mode: Mode::Octet, extensions: extensions(r) };
            if k == 0 { Packet::Read(p) } else { Packet::Write(p) }
        }
        2 => {
            let max = data_max();
            let n = *r.pick(&[0, 1, 2, 511, 512, 513, 1024, max - 1, max]);
            *data = r.bytes(n.min(max));
            Packet::Data(DataPacket { block: *r.pick(&[0, 1, 255, 256, 32767, 65534, 65535]) ^ (r.below(2) as u16 * r.next() as u16), data })
        }
        3 => Packet::Ack(AckPacket { block: r.next() as u16 }),
        4 => Packet::Error(ErrorPacket::new(code(r), text(r, msg_max()).parse().expect("message fits"))),
        _ => Packet::OptionalAck(OptionalAck { extensions: extensions(r) }),
    }
}

/// the reference encoding with the options in some order
fn reference(p: &Packet) -> Vec<u8> {
    meaning(p).enc()
}

/// the same packet up to the order of its options
fn same(a: &[u8], want: &Pk) -> bool {
    let mut d = match Pk::dec(a) {
        Some(d) => d,
        None => return false,
    };
    if let Pk::Rrq { opts, .. } | Pk::Wrq { opts, .. } | Pk::Oack { opts } = &mut d {
        opts.sort();
    }
    d == *want
}

fn round_trip(c: &mut Case) {
    let mut data = vec![];
    let mut r = c.rng.fork();
    let p = make(&mut r, &mut data);
    let want = meaning(&p);
    let bytes: Vec<u8> = p.clone().to_bytes().to_vec();
    c.count("packets_made", 1);
    c.mix_bytes(&bytes[..bytes.len().min(64)]);
    c.check(same(&bytes, &want) && bytes.len() == want.enc().len(), || format!("encoded as {} instead of {}", hex(&bytes, 60), hex(&want.enc(), 60)));
    // into buffers
    let sizes: Vec<usize> = if bytes.len() <= 40 {
        (0..bytes.len() + 3).collect()
    } else {
        let l = bytes.len();
        vec![l, l - 1, l + 1, l + r.below(600) as usize, r.below(l as u64) as usize, r.below(l as u64) as usize, 0, 1, 2, 3]
    };
    for s in sizes {
        let junk = r.bytes(s);
        let mut b = junk.clone();
        let n = p.clone().to_buffer(&mut b);
        c.count("buffer_encodings", 1);
        if s < bytes.len() {
            c.check(n.is_none(), || format!("encoding of {} bytes claims {n:?} in a buffer of {s}", bytes.len()));
        } else {
            c.check(n == Some(bytes.len()) && b[..bytes.len()] == bytes[..] && b[bytes.len()..] == junk[bytes.len()..], || {
                format!("encoding into a buffer of {s}: {n:?} {} instead of {}", hex(&b, 60), hex(&bytes, 60))
            });
        }
    }
    if matches!(&want, Pk::Oack { opts } if opts.is_empty()) {
        return;
    }
    match Packet::from_bytes(&bytes) {
        Ok(q) => {
            let m = meaning(&q);
            c.check(m == want, || format!("{want:?} came back as {m:?}"));
            c.check(q.packet_type() == p.packet_type(), || "other packet type".to_string());
        }
        Err(e) => c.fail(format!("own encoding of {want:?} refused: {e}")),
    }
}

/// random spelling of a known or an unknown option name
fn spelled(r: &mut Rng, s: &str) -> Vec<u8> {
    let mode = r.below(3);
    s.bytes()
        .map(|b| match mode {
            0 => b,
            1 => b.to_ascii_uppercase(),
            _ if r.below(2) == 0 => b.to_ascii_uppercase(),
            _ => b,
        })
        .collect()
}

/// what RFC 1350 and 2347 allow but this code would not write itself
fn foreign(c: &mut Case) {
    let mut r = c.rng.fork();
    let mut order: Vec<usize> = (0..8).collect();
    r.shuffle(&mut order);
    let known = r.below(8) as usize;
    let mut opts: Pairs = order[..known].iter().map(|i| (spelled(&mut r, NAMES[*i]), text(&mut r, value_max()).into_bytes())).collect();
    for _ in 0..r.below(5) {
        let at = r.below(opts.len() as u64 + 1) as usize;
        let name = format!("x{}", text(&mut r, 30));
        opts.insert(at, (name.into_bytes(), text(&mut r, 200).into_bytes()));
    }
    let mut want: Pairs =
        opts.iter().filter_map(|(k, v)| NAMES.iter().find(|n| k.eq_ignore_ascii_case(n.as_bytes())).map(|n| (n.as_bytes().to_vec(), v.clone()))).collect();
    want.sort();
    let name = text(&mut r, path_max()).into_bytes();
    let mode = spelled(&mut r, "octet");
    let pk = match r.below(3) {
        0 => Pk::Rrq { name: name.clone(), mode, opts: opts.clone() },
        1 => Pk::Wrq { name: name.clone(), mode, opts: opts.clone() },
        _ if opts.is_empty() => return,
        _ => Pk::Oack { opts: opts.clone() },
    };
    let bytes = pk.enc();
    c.mix_bytes(&bytes[..bytes.len().min(64)]);
    c.count("foreign_packets", 1);
    let octet = b"octet".to_vec();
    let want = match pk {
        Pk::Rrq { .. } => Pk::Rrq { name, mode: octet, opts: want },
        Pk::Wrq { .. } => Pk::Wrq { name, mode: octet, opts: want },
        _ => Pk::Oack { opts: want },
    };
    match Packet::from_bytes(&bytes) {
        Ok(q) => {
            let m = meaning(&q);
            c.check(m == want, || format!("{} read as {m:?} instead of {want:?}", hex(&bytes, 400)));
        }
        Err(e) => c.fail(format!("valid packet {want:?} refused: {e}")),
    }
}

/// walk of the option pairs up to the point a decoder may stop; None when a field is not terminated or not text
fn walk(mut b: &[u8]) -> Option<Pairs> {
    let mut v: Pairs = vec![];
    let mut known = std::collections::HashSet::new();
    let field = |b: &mut &[u8]| -> Option<Vec<u8>> {
        let n = b.iter().position(|c| *c == 0)?;
        let f = b[..n].to_vec();
        *b = &b[n + 1..];
        std::str::from_utf8(&f).ok()?;
        Some(f)
    };
    loop {
        let k = field(&mut b)?;
        let val = field(&mut b)?;
        if let Some(n) = NAMES.iter().find(|n| k.eq_ignore_ascii_case(n.as_bytes())) {
            if val.len() <= VALUE || ALLOC {
                known.insert(*n);
            }
        }
        v.push((k, val));
        if b.is_empty() || known.len() == 8 {
            return Some(v);
        }
    }
}

fn options_are_in(got: &PacketExtensions, b: &[u8]) -> Result<(), String> {
    if b.is_empty() {
        return if got.is_empty() { Ok(()) } else { Err("options from nothing".into()) };
    }
    let Some(w) = walk(b) else { return Err("an option without terminator or which is not text was accepted".into()) };
    for (k, v) in pairs_of(got) {
        if !w.iter().any(|(a, b)| a.eq_ignore_ascii_case(&k) && *b == v) {
            return Err(format!("option {:?}={:?} is not in the bytes", String::from_utf8_lossy(&k), String::from_utf8_lossy(&v)));
        }
    }
    for (k, v) in &w {
        if v.len() > VALUE && !ALLOC {
            continue;
        }
        if NAMES.iter().any(|n| k.eq_ignore_ascii_case(n.as_bytes())) && !pairs_of(got).iter().any(|(a, _)| a.eq_ignore_ascii_case(k)) {
            return Err(format!("option {:?} got lost", String::from_utf8_lossy(k)));
        }
    }
    Ok(())
}

/// whatever was decoded must be in the bytes
fn honest(b: &[u8], p: &Packet) -> Result<(), String> {
    let op = if b.len() >= 2 { u16::from_be_bytes([b[0], b[1]]) } else { 0 };
    let num = || if b.len() >= 4 { Ok(u16::from_be_bytes([b[2], b[3]])) } else { Err("truncated field".to_string()) };
    let is = |ok: bool, s: &str| if ok { Ok(()) } else { Err(s.to_string()) };
    match p {
        Packet::Data(d) => {
            is(op == 3, "opcode")?;
            is(d.block == num()?, "block number")?;
            is(d.data == &b[4..], "data")
        }
        Packet::Ack(a) => {
            is(op == 4, "opcode")?;
            is(a.block == num()?, "block number")
        }
        Packet::Error(e) => {
            is(op == 5, "opcode")?;
            is(e.code as u16 == num()?, "error code")?;
            let end = b[4..].iter().position(|c| *c == 0).ok_or("message without terminator")?;
            is(e.message.as_bytes() == &b[4..4 + end], "message")
        }
        Packet::OptionalAck(o) => {
            is(op == 6, "opcode")?;
            is(b.len() > 2, "no options at all")?;
            options_are_in(&o.extensions, &b[2..])
        }
        Packet::Read(q) | Packet::Write(q) => {
            is(op == if matches!(p, Packet::Read(_)) { 1 } else { 2 }, "opcode")?;
            let r = &b[2..];
            let n = r.iter().position(|c| *c == 0).ok_or("name without terminator")?;
            is(q.file_name.as_bytes() == &r[..n], "file name")?;
            let r = &r[n + 1..];
            let n = r.iter().position(|c| *c == 0).ok_or("mode without terminator")?;
            is(r[..n].eq_ignore_ascii_case(b"octet"), "mode")?;
            options_are_in(&q.extensions, &r[n + 1..])
        }
    }
}

/// any bytes: mostly damaged packets
fn any_bytes(r: &mut Rng) -> Vec<u8> {
    let mut data = vec![];
    let mut b = match r.below(6) {
        0 => {
            let n = *r.pick(&[0usize, 1, 2, 3, 4, 5, 8, 40, 300, 1429, 1500]);
            let n = r.below(n as u64 + 1) as usize;
            r.bytes(n)
        }
        1 => {
            // strings of any kind after a valid opcode
            let mut v = vec![0, 1 + r.below(7) as u8];
            for _ in 0..r.below(24) {
                match r.below(5) {
                    0 => v.extend_from_slice(NAMES[r.below(8) as usize].as_bytes()),
                    1 => v.extend_from_slice(b"octet"),
                    2 => {
                        let n = r.below(100) as usize;
                        v.extend_from_slice(&r.bytes(n))
                    }
                    3 => v.extend_from_slice(text(r, 200).as_bytes()),
                    _ => v.extend_from_slice(r.below(70000).to_string().as_bytes()),
                }
                if r.below(12) != 0 {
                    v.push(0);
                }
            }
            v
        }
        _ => {
            let p = make(r, &mut data);
            reference(&p)
        }
    };
    for _ in 0..r.below(4) {
        if b.is_empty() {
            break;
        }
        let at = r.below(b.len() as u64) as usize;
        match r.below(9) {
            0 => b[at] = r.next() as u8,
            1 => b[at] ^= 1 << r.below(8),
            2 => b.truncate(at),
            3 => {
                b.pop();
            }
            4 => {
                b.remove(at);
            }
            5 => b.insert(at, *r.pick(&[0, 0xff, 0xc3, b'a'])),
            6 => {
                let n = r.below(20) as usize;
                let x = r.bytes(n);
                b.extend(x)
            }
            7 => {
                let (from, to) = (at, (at + 1 + r.below(40) as usize).min(b.len()));
                let x = b[from..to].to_vec();
                let i = r.below(b.len() as u64 + 1) as usize;
                b.splice(i..i, x);
            }
            _ => b.push(0),
        }
    }
    if b.len() >= 2 && r.below(4) == 0 {
        b[0] = 0;
        b[1] = r.below(8) as u8;
    }
    b
}

fn hostile_bytes(c: &mut Case) {
    let mut r = c.rng.fork();
    let b = any_bytes(&mut r);
    c.count("byte_strings", 1);
    let kind = b.get(1).copied().unwrap_or(9) as u64;
    match Packet::from_bytes(&b) {
        Ok(p) => {
            c.count("byte_strings_accepted", 1);
            c.mix(kind | 256);
            c.mix_bytes(&b[..b.len().min(40)]);
            if let Err(e) = honest(&b, &p) {
                c.fail(format!("decoded from {}: {e}: {:?}", hex(&b, 400), meaning(&p)));
            }
            c.count("oracle_checks", 1);
        }
        Err(_) => {
            c.mix(kind);
            c.mix(b.len() as u64);
            // what is a plain packet of fixed shape is never refused
            if b.len() >= 4 && b[0] == 0 && (3..=4).contains(&b[1]) {
                c.fail(format!("valid packet refused {}", hex(&b, 40)));
            }
        }
    }
    let _ = PacketType::from_bytes(&b);
}

fn header(c: &mut Case) {
    let block = c.rng.next() as u16;
    let n = c.rng.below(8) as usize;
    let junk = c.rng.bytes(n);
    let mut b = junk.clone();
    let got = prepend_data_header(block, &mut b);
    let want = [0, 3, (block >> 8) as u8, block as u8];
    let ok = if n < 4 { got.is_none() } else { got == Some(4) && b[..4] == want && b[4..] == junk[4..] };
    c.check(ok, || format!("data header {block} into {n} bytes: {got:?} {}", hex(&b, 8)));
}

pub fn c12(c: &mut Case) {
    for _ in 0..6 {
        round_trip(c);
        foreign(c);
        for _ in 0..6 {
            hostile_bytes(c);
        }
        header(c);
        #[cfg(feature = "enc")]
        enc::packets(c);
    }
    c.nontrivial = true;
    if c.index < 4 {
        c.sample = Some(format!("6 packets of random kinds made and read back, 36 damaged byte strings decoded, counters {:?}", c.counters));
    }
}

#[cfg(feature = "enc")]
pub use enc::{c23, c24};

#[cfg(feature = "enc")]
mod enc {
    use std::sync::{Arc, Mutex};

    use tftp_dus::encrypted_packet::{EncryptedDataPacket, EncryptedPacket, InitialPacket};
    use tftp_dus::encryption::*;
    use tftp_dus::key_management::*;
    use tftp_dus::readers::block_reader::BlockReader;
    use tftp_dus::readers::encrypted_stream_reader::StreamReader;
    use tftp_dus::readers::multiple_block_reader::MultipleBlockReader;
    use tftp_dus::readers::single_block_reader::SingleBlockReader;
    use tftp_dus::std_compat::io;
    use tftp_dus::std_compat::io::{Read, Write};
    use tftp_dus::writers::block_writer::BlockWriter;
    use tftp_dus::writers::encrypted_stream_writer::StreamWriter;
    use tftp_dus::writers::single_block_writer::SingleBlockWriter;

    use super::*;
    use crate::refcrypto as rc;
    use crate::rng::{seed_sim, SimRng};

    fn buffer(b: &[u8]) -> DataBuffer {
        b.iter().copied().collect()
    }

    /// a plaintext whose end tries to look like padding
    fn plain(r: &mut Rng, max: usize) -> Vec<u8> {
        let n = match r.below(5) {
            0 => 1,
            1 => max,
            _ => r.range(1, max as u64) as usize,
        };
        let mut v = r.bytes(n);
        if r.below(2) == 0 {
            let b = *r.pick(&[0u8, 255, 1, 254, 128, 127, 7]);
            let k = r.range(1, n as u64) as usize;
            v[n - k..].fill(b);
        }
        v
    }

    pub fn packets(c: &mut Case) {
        let mut r = c.rng.fork();
        seed_sim(r.next());
        let (a, b) = (create_session_keys(SimRng), create_session_keys(SimRng));
        let (pa, pb) = (a.public_key, b.public_key);
        let (ea, _) = a.finalize(&pb, SimRng);
        let (eb, _) = b.finalize(&pa, SimRng);
        let (other, _) = create_session_keys(SimRng).finalize(&pa, SimRng);
        c.count("encrypted_round_trips", 1);
        let max_block: usize = if ALLOC { 1425 } else { BLOCK };
        match r.below(4) {
            0 => {
                // everything but the key hidden
                let bs = r.range(512, max_block as u64 + 4) as usize;
                let p = plain(&mut r, bs - 73);
                let mut buf = buffer(&p);
                if let Err(e) = InitialPacket::encrypt(&ea, &mut buf, bs as u16, &pa) {
                    c.fail(format!("a first packet of {} in {bs} is refused: {e:?}", p.len()));
                    return;
                }
                c.check(buf.len() == bs, || format!("a first packet of {} bytes gets {} bytes, not {bs}", p.len(), buf.len()));
                let bytes = damaged(&mut r, &buf);
                let same = bytes == buf.as_slice();
                match InitialPacket::from_bytes(&bytes) {
                    Ok(i) => {
                        c.check(bytes.len() >= 72 && i.session_public_key.as_bytes()[..] == bytes[bytes.len() - 32..], || "key is not the end of the packet".into());
                        let d = i.decrypt(&eb);
                        let ok = match &d {
                            Ok(d) => d.as_slice() == p && (same || bytes[..bytes.len().min(bs) - 32] == buf[..bs - 32]),
                            Err(_) => !same,
                        };
                        c.check(ok, || format!("first packet of {} (altered {}) opens as {:?}", p.len(), !same, d.map(|d| d.len())));
                    }
                    Err(_) => c.check(bytes.len() < 72, || format!("{} bytes are no first packet", bytes.len())),
                }
            }
            1 => {
                let bs = r.range(512, max_block as u64) as usize - 41 + 4;
                let p = plain(&mut r, bs);
                let mut buf = buffer(&p);
                if let Err(e) = EncryptedPacket::encrypt(&ea, &mut buf, bs as u16) {
                    c.fail(format!("a packet of {} in {bs} is refused: {e:?}", p.len()));
                    return;
                }
                c.check(buf.len() == bs + 41, || format!("a packet of {} bytes gets {} bytes, not {}", p.len(), buf.len(), bs + 41));
                let mut bytes = buffer(&damaged(&mut r, &buf));
                let same = bytes == buf;
                let wrong = r.below(8) == 0;
                let d = EncryptedPacket::decrypt(if wrong { &other } else { &eb }, &mut bytes);
                let ok = if same && !wrong { d.is_ok() && bytes.as_slice() == p } else { d.is_err() };
                c.check(ok, || format!("packet of {} (altered {}, other key {wrong}): {d:?} {}", p.len(), !same, bytes.len()));
            }
            2 => {
                let n = r.below((max_block - 40) as u64 + 1) as usize;
                let mut p = vec![0, 3];
                p.extend(r.bytes(2 + n));
                let mut buf = buffer(&p);
                if let Err(e) = EncryptedDataPacket::encrypt(&ea, &mut buf) {
                    c.fail(format!("data of {n} bytes is refused: {e:?}"));
                    return;
                }
                c.check(buf.len() == p.len() + 40 && buf[..4] == p[..4], || "header or size of encrypted data".into());
                let alt = damaged(&mut r, &buf);
                let same = alt == buf.as_slice();
                // the header is not part of what is authenticated
                let body_same = alt.len() == buf.len() && alt[4..] == buf[4..];
                let mut bytes = buffer(&alt);
                let d = EncryptedDataPacket::decrypt(&eb, &mut bytes);
                let ok = match &d {
                    Ok(()) => body_same && bytes[..4] == alt[..4] && bytes[4..] == p[4..],
                    Err(_) => !same,
                };
                c.check(ok, || format!("data of {n} (altered {}): {d:?}", !same));
            }
            _ => {
                let n = *r.pick(&[0u64, 1, 15, 16, 24, 39, 40, 41, 44, 72, 100, 1429]);
                let n = if r.below(2) == 0 { n as usize } else { r.below(1430) as usize };
                let junk = r.bytes(n);
                let mut b1 = buffer(&junk);
                c.check(EncryptedPacket::decrypt(&eb, &mut b1).is_err(), || "nonsense opens as a packet".into());
                let mut b2 = buffer(&junk);
                c.check(EncryptedDataPacket::decrypt(&eb, &mut b2).is_err(), || "nonsense opens as data".into());
                if let Ok(i) = InitialPacket::from_bytes(&junk) {
                    c.check(i.decrypt(&eb).is_err(), || "nonsense opens as a first packet".into());
                }
                let mut b3 = buffer(&junk);
                let _ = remove_bit_padding(&mut b3);
                c.check(junk.starts_with(&b3), || "padding removed in the middle".into());
            }
        }
    }

    /// the bytes as they are, or altered
    fn damaged(r: &mut Rng, b: &[u8]) -> Vec<u8> {
        let mut v = b.to_vec();
        match r.below(6) {
            0 => {
                let at = r.below(v.len() as u64) as usize;
                v[at] ^= 1 << r.below(8);
            }
            1 => v.truncate(r.below(b.len() as u64) as usize),
            2 => {
                let n = r.below(200) as usize;
                let x = r.bytes(n);
                let room = if ALLOC { usize::MAX } else { 1429 - v.len() };
                v.extend(x.into_iter().take(room));
            }
            _ => (),
        }
        v
    }

    // ---------------------------------------------------------------- C23

    struct Source {
        data: Vec<u8>,
        pos: usize,
        rng: Rng,
        short: f64,
        block: f64,
    }
    impl Read for Source {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            if self.rng.chance(self.block) {
                return Err(if self.rng.below(2) == 0 { io::ErrorKind::WouldBlock } else { io::ErrorKind::Interrupted }.into());
            }
            let mut n = b.len().min(self.data.len() - self.pos);
            if n > 1 && self.rng.chance(self.short) {
                n = 1 + self.rng.below(n as u64 - 1) as usize;
            }
            b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
            self.pos += n;
            Ok(n)
        }
    }

    struct Sink {
        out: Arc<Mutex<Vec<u8>>>,
        rng: Rng,
        short: f64,
    }
    impl Write for Sink {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            if self.rng.chance(self.short / 4.0) {
                return Err(io::ErrorKind::Interrupted.into());
            }
            let mut n = b.len();
            if n > 1 && self.rng.chance(self.short) {
                n = 1 + self.rng.below(n as u64 - 1) as usize;
            }
            self.out.lock().unwrap().extend_from_slice(&b[..n]);
            Ok(n)
        }
        fn write_fmt(&mut self, _: std::fmt::Arguments<'_>) -> io::Result<()> {
            Err(io::ErrorKind::Unsupported.into())
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }

    /// the stored form, as the blocks of a transfer
    fn store(c: &mut Case, key: &EncryptionKey, content: &[u8], bs: usize, nonce: &StreamNonce) -> Option<Vec<Vec<u8>>> {
        let mut r = c.rng.fork();
        let (short, block) = (*r.pick(&[0.0, 0.0, 0.3, 0.9]), *r.pick(&[0.0, 0.0, 0.1, 0.5]));
        let src = Source { data: content.to_vec(), pos: 0, rng: r.fork(), short, block };
        let mut reader = StreamReader::new(StreamEncryptor::new(key, nonce), src, *nonce);
        let mut blocks: Vec<Vec<u8>> = vec![];
        let way = r.below(3);
        c.mix(way);
        let temporary = |e: &tftp_dus::error::StorageError| matches!(e, tftp_dus::error::StorageError::File(e) if e.kind() == io::ErrorKind::WouldBlock);
        match way {
            0 => {
                // as read by anybody: full buffers until the short one
                loop {
                    let mut b = r.bytes(bs);
                    match reader.read(&mut b) {
                        Ok(n) => {
                            blocks.push(b[..n].to_vec());
                            if n < bs {
                                break;
                            }
                        }
                        Err(e) if matches!(e.kind(), io::ErrorKind::WouldBlock | io::ErrorKind::Interrupted) => c.count("reads_repeated", 1),
                        Err(e) => {
                            c.fail(format!("reading {} bytes in blocks of {bs} failed: {e:?}", content.len()));
                            return None;
                        }
                    }
                    if blocks.len() > content.len() / 16 + 10 {
                        c.fail("the stream does not end".to_string());
                        return None;
                    }
                }
            }
            _ => {
                let window = if way == 1 { 1 } else { r.range(2, 16) as u16 };
                let mut one;
                let mut many;
                let rd: &mut dyn BlockReader = if way == 1 {
                    one = SingleBlockReader::new(reader, bs as u16);
                    &mut one
                } else {
                    many = MultipleBlockReader::new(reader, bs as u16, window);
                    &mut many
                };
                let mut free = 0u64;
                let mut steps = 0;
                while !rd.is_finished() {
                    steps += 1;
                    if steps > 40 * (content.len() / 16 + 20) {
                        c.fail("the reader does not end".to_string());
                        return None;
                    }
                    let mut b = r.bytes(bs);
                    let retry = r.below(6) == 0;
                    match rd.next(&mut b, retry) {
                        Ok(Some(x)) => {
                            let i = x.index as usize;
                            let got = b[..x.size].to_vec();
                            if i == blocks.len() + 1 {
                                blocks.push(got);
                            } else if i == 0 || i > blocks.len() || blocks[i - 1] != got {
                                c.fail(format!("block {i} of {} differs when read again", blocks.len()));
                                return None;
                            }
                        }
                        Ok(None) => {
                            // the receiver acknowledges some of them
                            free = r.range((free + 1).min(blocks.len() as u64), blocks.len() as u64);
                            rd.free_block(free as u16);
                        }
                        Err(e) if temporary(&e) => c.count("reads_repeated", 1),
                        Err(e) => {
                            c.fail(format!("reading {} bytes in blocks of {bs} failed: {e:?}", content.len()));
                            return None;
                        }
                    }
                }
            }
        }
        let last = blocks.len() - 1;
        for (i, b) in blocks.iter().enumerate() {
            c.check(if i < last { b.len() == bs } else { b.len() < bs }, || format!("block {} of {} has {} of {bs} bytes", i + 1, last + 1, b.len()));
        }
        Some(blocks)
    }

    /// read the stored form back: (output, complete)
    fn load(c: &mut Case, key: &EncryptionKey, blocks: &[Vec<u8>]) -> (Vec<u8>, bool) {
        let mut r = c.rng.fork();
        let out = Arc::new(Mutex::new(vec![]));
        let short = *r.pick(&[0.0, 0.0, 0.5]);
        let sink = Sink { out: out.clone(), rng: r.fork(), short };
        let mut w = StreamWriter::new(sink, *key);
        let mut done = true;
        if r.below(2) == 0 {
            for b in blocks {
                match w.write(b) {
                    Ok(n) => c.check(n == b.len(), || format!("{n} of {} bytes taken", b.len())),
                    Err(_) => {
                        done = false;
                        // nothing more is accepted afterwards, or at least nothing wrong is stored
                        if r.below(2) == 0 {
                            break;
                        }
                    }
                }
            }
        } else {
            let mut w = SingleBlockWriter::new(w);
            for (i, b) in blocks.iter().enumerate() {
                if w.write_block((i + 1) as u16, b).is_err() {
                    done = false;
                    break;
                }
            }
        }
        let o = out.lock().unwrap().clone();
        (o, done)
    }

    fn cut(stored: &[u8], bs: usize) -> Vec<Vec<u8>> {
        let mut v: Vec<Vec<u8>> = stored.chunks(bs).map(|c| c.to_vec()).collect();
        if stored.len() % bs == 0 {
            v.push(vec![]);
        }
        v
    }

    pub fn c23(c: &mut Case) {
        let mut r = c.rng.fork();
        let bs = *r.pick(&[37usize, 38, 40, 64, 100, 512, 1024, 1384, 1425]);
        let bs = if r.below(3) == 0 { r.range(37, 1425) as usize } else { bs };
        let per = bs - 16;
        // sizes around the first and the later chunks
        let size = match r.below(6) {
            0 => r.below(4) as usize,
            1 => (per - 21 + r.below(5) as usize).saturating_sub(2),
            2 => (per - 21 + per * r.range(1, 6) as usize + r.below(5) as usize).saturating_sub(2),
            3 => per * r.range(1, 6) as usize + r.below(3) as usize - 1,
            _ => r.below(bs as u64 * 8) as usize,
        };
        let content = crate::gen::content(&mut r, size);
        let key: EncryptionKey = r.bytes(32).try_into().unwrap();
        let nonce: StreamNonce = r.bytes(19).try_into().unwrap();
        let Some(blocks) = store(c, &key, &content, bs, &nonce) else { return };
        c.nontrivial = true;
        let stored: Vec<u8> = blocks.concat();
        c.mix(bs as u64);
        c.mix(size as u64);
        c.count("stored_bytes", stored.len() as u64);
        // zeros and the like are found in the header of the stored form by chance only for trivial contents
        if content.len() >= 16 && content[..16].iter().collect::<std::collections::HashSet<_>>().len() > 4 {
            let f = rc::Finder::new(&content);
            c.check(f.find(&stored).is_none(), || "the stored form shows the content".to_string());
        }
        c.check(stored.len() == size + 21 + 16 * blocks.len(), || format!("{size} bytes are stored as {}", stored.len()));
        let (out, ok) = load(c, &key, &cut(&stored, bs));
        c.check(ok && out == content, || format!("{size} bytes in blocks of {bs} came back as {} (complete {ok})", out.len()));
        c.count("round_trips", 1);
        for _ in 0..6 {
            tamper(c, &mut r, &key, &content, &blocks, bs);
        }
        if c.index < 4 {
            c.sample = Some(format!("{size} bytes in blocks of {bs}: {} stored, read back, six altered copies read", stored.len()));
        }
    }

    fn tamper(c: &mut Case, r: &mut Rng, key: &EncryptionKey, content: &[u8], blocks: &[Vec<u8>], bs: usize) {
        let stored = blocks.concat();
        let mut t = stored.clone();
        let mut k = *key;
        let mut read_bs = bs;
        let mut swapped: Option<Vec<u8>> = None;
        let n = blocks.len();
        let what = match r.below(12) {
            0 | 1 => {
                let at = r.below(t.len() as u64) as usize;
                t[at] ^= 1 << r.below(8);
                "bit"
            }
            2 => {
                t.truncate(r.below(t.len() as u64) as usize);
                "truncated"
            }
            3 => {
                t.truncate(bs * r.below(n as u64) as usize);
                "truncated at a block"
            }
            4 => {
                let m = *r.pick(&[1usize, 16, 17, bs]);
                let x = r.bytes(m);
                t.extend(x);
                "extended"
            }
            5 | 6 if n >= 2 => {
                let mut b = blocks.to_vec();
                let (i, j) = (r.below(n as u64) as usize, r.below(n as u64) as usize);
                match r.below(3) {
                    0 => b.swap(i, j),
                    1 => {
                        b.remove(i);
                    }
                    _ => {
                        let x = b[i].clone();
                        b.insert(j, x);
                    }
                }
                t = b.concat();
                "blocks moved, removed or doubled"
            }
            7 => {
                k[r.below(32) as usize] ^= 1 << r.below(8);
                "other key"
            }
            8 => {
                // part of another file stored with the same key and size of blocks
                let nonce: StreamNonce = r.bytes(19).try_into().unwrap();
                let other = crate::gen::content(r, content.len());
                let Some(o) = store(c, key, &other, bs, &nonce) else { return };
                let mut b = blocks.to_vec();
                let i = r.below(n as u64) as usize;
                if r.below(2) == 0 {
                    b[i] = o[i.min(o.len() - 1)].clone();
                } else {
                    // only the start of the other file
                    b[0] = o[0].clone();
                }
                if n == 1 {
                    // header of one, body of the other
                    let mut x = blocks[0][..21].to_vec();
                    x.extend_from_slice(&o[0][21..]);
                    b[0] = x;
                }
                t = b.concat();
                // its start is genuine as the start of that file
                swapped = (t.starts_with(&o[0])).then_some(other);
                "spliced with another file"
            }
            9 => {
                read_bs = r.range(37, 1425) as usize;
                "read in blocks of another size"
            }
            10 => {
                let v = *r.pick(&[0u16, 1, 36, 37, 512, 1425, 1426, 65535]);
                t[..2].copy_from_slice(&v.to_be_bytes());
                "other size in the header"
            }
            _ => {
                // an attacker claims that the file ends earlier: a final chunk in place of a full one
                let i = r.below(n as u64) as usize;
                t.truncate((bs * i + r.below(bs as u64) as usize).min(t.len()));
                "cut"
            }
        };
        let same = t == stored && k == *key && read_bs == bs;
        c.count("altered_copies_read", 1);
        let (out, ok) = load(c, &k, &cut(&t, read_bs));
        c.mix(what.len() as u64);
        c.mix(out.len() as u64);
        if same {
            c.check(ok && out == content, || "the unchanged copy is refused".to_string());
            return;
        }
        c.check(content.starts_with(&out) || swapped.is_some_and(|o| !ok && o.starts_with(&out)), || format!("{what}: wrong content was delivered"));
        if ok {
            // the size in the header only tells how to cut the file
            let body_same = t.len() == stored.len() && t[2..] == stored[2..] && k == *key;
            c.check(out == content && body_same, || format!("{what}: the altered copy is read as complete ({} of {} bytes)", out.len(), content.len()));
        } else {
            c.count("alterations_reported", 1);
        }
    }

    // ---------------------------------------------------------------- C24

    fn strict(t: &[u8]) -> Option<Vec<u8>> {
        std::str::from_utf8(t).ok().and_then(rc::unb64)
    }

    /// text which may or may not be the encoding of something
    fn some_text(r: &mut Rng, good: &str) -> Vec<u8> {
        let mut t = good.as_bytes().to_vec();
        match r.below(11) {
            0 => return t,
            1 => {
                let n = r.below(90) as usize;
                return rc::b64(&r.bytes(n)).into_bytes();
            }
            2 => {
                let n = r.below(60) as usize;
                return text(r, n).into_bytes();
            }
            3 => {
                let n = r.below(t.len() as u64) as usize;
                t.truncate(n)
            }
            4 => {
                t.pop();
            }
            5 => t.push(*r.pick(b"=A \n\0")),
            6 => {
                let at = r.below(t.len() as u64) as usize;
                t[at] = *r.pick(b"-_ =%\x00\xffAz+/");
            }
            7 => {
                // unused bits of the last letter
                if let Some(i) = t.iter().rposition(|c| *c != b'=') {
                    t[i] = *r.pick(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/");
                }
            }
            8 => t.insert(0, *r.pick(b" \tA=")),
            9 => {
                // the right bytes followed by zeros and more
                let mut b = rc::unb64(good).unwrap_or_default();
                b.push(0);
                let n = r.below(40) as usize;
                let x = r.bytes(n);
                b.extend(x);
                return rc::b64(&b).into_bytes();
            }
            _ => {
                let b = rc::unb64(good).unwrap_or_default();
                let n = r.below(b.len() as u64 + 1) as usize;
                return rc::b64(&b[..n]).into_bytes();
            }
        }
        t
    }

    fn decided(c: &mut Case, what: &str, t: &[u8], len: usize, got: Result<Vec<u8>, String>, lenient_short: bool, valid: impl Fn(&[u8]) -> bool) {
        c.count("texts_decoded", 1);
        let want = strict(t);
        let shown = || String::from_utf8_lossy(t).to_string();
        match (want, got) {
            (Some(w), Ok(g)) if w.len() == len => c.check(w == g, || format!("{what} {:?} read as {}", shown(), hex(&g, 64))),
            (Some(w), Ok(_)) if lenient_short && w.len() < len => {
                c.count("short_texts_accepted", 1);
                c.known.push("short-key-text".to_string());
            }
            (_, Ok(g)) => c.fail(format!("{what} {:?} accepted as {}", shown(), hex(&g, 64))),
            (Some(w), Err(e)) if w.len() == len && valid(&w) => c.fail(format!("{what} {:?} refused: {e}", shown())),
            (_, Err(_)) => c.count("texts_refused", 1),
        }
    }

    fn texts(c: &mut Case) {
        let mut r = c.rng.fork();
        let any: [u8; 32] = r.bytes(32).try_into().unwrap();
        let sk = SigningKey::from_bytes(&any);
        let vk = VerifyingKey::from(&sk);
        let err = |e: tftp_dus::error::EncryptionError| format!("{e}");
        let yes = |_: &[u8]| true;
        for kind in 0..6 {
            let (good, raw): (String, Vec<u8>) = match kind {
                0 => (encode_public_key(&PublicKey::from(any)).map(|s| s.to_string()).unwrap_or_default(), any.to_vec()),
                1 => (encode_verifying_key(&vk).map(|s| s.to_string()).unwrap_or_default(), vk.to_bytes().to_vec()),
                2 => (encode_private_key(&PrivateKey::from(any)).map(|s| s.to_string()).unwrap_or_default(), any.to_vec()),
                3 => (encode_signing_key(&sk).map(|s| s.to_string()).unwrap_or_default(), any.to_vec()),
                4 => {
                    let n = r.bytes(24);
                    (encode_nonce(Nonce::from_slice(&n)).map(|s| s.to_string()).unwrap_or_default(), n)
                }
                _ => {
                    let s = rc::sign(&sk, &any);
                    let sig = ed25519_dalek::Signature::from_slice(&s).unwrap();
                    (encode_signature(&sig).map(|s| s.to_string()).unwrap_or_default(), s)
                }
            };
            c.check(good == rc::b64(&raw), || format!("kind {kind}: {} printed as {good:?}", hex(&raw, 64)));
            for round in 0..3 {
                let t = if round == 0 { good.clone().into_bytes() } else { some_text(&mut r, &good) };
                c.mix(kind * 100 + t.len() as u64);
                c.mix_bytes(&t[..t.len().min(8)]);
                match kind {
                    0 => decided(c, "public key", &t, 32, decode_public_key(&t).map(|k| k.as_bytes().to_vec()).map_err(err), true, yes),
                    1 => decided(c, "verifying key", &t, 32, decode_verifying_key(&t).map(|k| k.to_bytes().to_vec()).map_err(err), false, |b| {
                        VerifyingKey::from_bytes(b.try_into().unwrap()).is_ok()
                    }),
                    2 => decided(c, "private key", &t, 32, decode_private_key(&t).map(|k| k.to_bytes().to_vec()).map_err(err), true, yes),
                    3 => decided(c, "signing key", &t, 32, decode_signing_key(&t).map(|k| k.to_bytes().to_vec()).map_err(err), false, yes),
                    4 => decided(c, "nonce", &t, 24, decode_nonce(&t).map(|k| k.to_vec()).map_err(err), true, yes),
                    _ => decided(c, "signature", &t, 64, decode_signature(&t).map(|k| k.to_bytes().to_vec()).map_err(err), false, yes),
                }
            }
        }
    }

    /// a file of lines; the reader fails for good at `fail_at`
    struct Lines {
        data: Vec<u8>,
        pos: usize,
        fail_at: Option<usize>,
        failures: Arc<Mutex<u64>>,
    }
    impl Lines {
        fn fill(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            let end = self.fail_at.unwrap_or(usize::MAX);
            if self.pos >= end {
                let mut g = self.failures.lock().unwrap();
                *g += 1;
                // a loop which never notices is ended here
                if *g > 1000 {
                    panic!("a storage error is read over and over");
                }
                return Err(std::io::ErrorKind::Other.into());
            }
            let n = b.len().min(self.data.len() - self.pos).min(end - self.pos);
            b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
            self.pos += n;
            Ok(n)
        }
    }
    impl std::io::Read for Lines {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            self.fill(b)
        }
    }

    #[cfg(feature = "mt")]
    fn lines(l: Lines) -> std::io::BufReader<Lines> {
        std::io::BufReader::new(l)
    }
    /// as the reader of the command line program in these flavours
    #[cfg(not(feature = "mt"))]
    struct Buf(std::io::BufReader<Lines>);
    #[cfg(not(feature = "mt"))]
    fn lines(l: Lines) -> Buf {
        Buf(std::io::BufReader::new(l))
    }
    #[cfg(not(feature = "mt"))]
    impl io::BufRead for Buf {
        fn read_line(&mut self, buf: &mut DefaultString) -> io::Result<usize> {
            let mut s = String::new();
            match std::io::BufRead::read_line(&mut self.0, &mut s) {
                Ok(n) => {
                    #[cfg(feature = "alloc")]
                    buf.push_str(&s);
                    #[cfg(not(feature = "alloc"))]
                    buf.push_str(&s).map_err(|_| io::Error::from(io::ErrorKind::InvalidData))?;
                    Ok(n)
                }
                Err(e) if e.kind() == std::io::ErrorKind::InvalidData => Err(io::ErrorKind::InvalidData.into()),
                Err(_) => Err(io::ErrorKind::Other.into()),
            }
        }
    }

    struct Appender(Arc<Mutex<Vec<u8>>>);
    impl Write for Appender {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.0.lock().unwrap().extend_from_slice(b);
            Ok(b.len())
        }
        fn write_fmt(&mut self, a: std::fmt::Arguments<'_>) -> io::Result<()> {
            self.0.lock().unwrap().extend_from_slice(a.to_string().as_bytes());
            Ok(())
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }

    fn open(data: &[u8], fail_at: Option<usize>) -> (Lines, Arc<Mutex<u64>>) {
        let f = Arc::new(Mutex::new(0));
        (Lines { data: data.to_vec(), pos: 0, fail_at, failures: f.clone() }, f)
    }

    fn new_key(r: &mut Rng) -> VerifyingKey {
        let b: [u8; 32] = r.bytes(32).try_into().unwrap();
        VerifyingKey::from(&SigningKey::from_bytes(&b))
    }

    fn filler(r: &mut Rng) -> Vec<u8> {
        match r.below(6) {
            0 => vec![],
            1 => b"   \t".to_vec(),
            2 => format!("#{}", text(r, 60).replace(['\n', '\r'], "_")).into_bytes(),
            3 => b"# aGVsbG8=".to_vec(),
            // not text at all
            4 => vec![b'#', 0xff, 0xfe, b'a'],
            _ => b"#".to_vec(),
        }
    }

    fn assemble(r: &mut Rng, lines: &[Vec<u8>]) -> Vec<u8> {
        let mut v = vec![];
        let crlf = r.below(3) == 0;
        for (i, l) in lines.iter().enumerate() {
            v.extend_from_slice(l);
            if i + 1 < lines.len() || r.below(2) == 0 {
                v.extend_from_slice(if crlf { b"\r\n" } else { b"\n" });
            }
        }
        v
    }

    fn key_file(c: &mut Case) {
        let mut r = c.rng.fork();
        let mut want = vec![];
        let mut ls = vec![];
        let mut bad = false;
        for _ in 0..r.below(12) {
            match r.below(8) {
                0..=4 => {
                    let k = new_key(&mut r);
                    ls.push(rc::b64(k.as_bytes()).into_bytes());
                    want.push(k);
                }
                5 if r.below(3) == 0 => {
                    let g = rc::b64(new_key(&mut r).as_bytes());
                    let t: Vec<u8> = some_text(&mut r, &g).into_iter().filter(|b| !matches!(b, b'\n' | b'\r')).collect();
                    let Ok(s) = std::str::from_utf8(&t) else { continue };
                    if s.starts_with('#') || s.trim().is_empty() {
                        continue;
                    }
                    match strict(&t).and_then(|b| <[u8; 32]>::try_from(b).ok()).and_then(|b| VerifyingKey::from_bytes(&b).ok()) {
                        Some(k) => want.push(k),
                        None => bad = true,
                    }
                    ls.push(t);
                }
                _ => ls.push(filler(&mut r)),
            }
        }
        let data = assemble(&mut r, &ls);
        c.count("key_files", 1);
        c.mix(ls.len() as u64 * 2 + bad as u64);
        c.mix_bytes(&data[..data.len().min(20)]);
        let (l, _) = open(&data, None);
        match read_authorized_keys(lines(l)) {
            Ok(k) => {
                c.check(!bad, || format!("a malformed line was passed over: {:?}", String::from_utf8_lossy(&data)));
                c.check(k.as_slice() == want.as_slice(), || format!("{} keys instead of {} from {:?}", k.len(), want.len(), String::from_utf8_lossy(&data)));
            }
            Err(e) => c.check(bad, || format!("key file refused ({e}): {:?}", String::from_utf8_lossy(&data))),
        }
        if r.below(4) == 0 && !data.is_empty() {
            // an unreadable file is no empty list
            let at = r.below(data.len() as u64) as usize;
            let (l, f) = open(&data, Some(at));
            let k = read_authorized_keys(lines(l));
            let met = *f.lock().unwrap() > 0;
            c.count("unreadable_files", 1);
            c.check(!met || k.is_err(), || format!("a key file which cannot be read gives {:?} keys", k.map(|k| k.len()).ok()));
        }
    }

    fn endpoint(r: &mut Rng) -> String {
        let base = *r.pick(&["127.0.0.1", "10.0.0.1", "10.0.0.11", "[::1]", "[fe80::1]", "server", "server.example", "a"]);
        match r.below(5) {
            0 => base.to_string(),
            1 => format!("{base}:69"),
            2 => format!("{base}:6969"),
            3 => format!("{base}:69{}", r.below(100)),
            _ => format!("{base}:{}", r.below(65536)),
        }
    }

    fn hosts_file(c: &mut Case) {
        let mut r = c.rng.fork();
        let pool: Vec<String> = (0..6).map(|_| endpoint(&mut r)).collect();
        let mut entries: Vec<(String, Option<VerifyingKey>)> = vec![];
        let mut ls = vec![];
        for _ in 0..r.below(10) {
            let e = r.pick(&pool).clone();
            match r.below(8) {
                0..=4 => {
                    let k = new_key(&mut r);
                    ls.push(format!("{e} {}", rc::b64(k.as_bytes())).into_bytes());
                    entries.push((e, Some(k)));
                }
                5 => {
                    let g = rc::b64(new_key(&mut r).as_bytes());
                    let t: Vec<u8> = some_text(&mut r, &g).into_iter().filter(|b| !matches!(b, b'\n' | b'\r')).collect();
                    if std::str::from_utf8(&t).is_err() {
                        continue;
                    }
                    let k = strict(&t).and_then(|b| <[u8; 32]>::try_from(b).ok()).and_then(|b| VerifyingKey::from_bytes(&b).ok());
                    let mut l = format!("{e} ").into_bytes();
                    l.extend(t);
                    ls.push(l);
                    entries.push((e, k));
                }
                // the end point alone
                6 if r.below(2) == 0 => ls.push(e.into_bytes()),
                _ => ls.push(filler(&mut r)),
            }
        }
        let mut data = assemble(&mut r, &ls);
        let ask = if r.below(4) == 0 { endpoint(&mut r) } else { r.pick(&pool).clone() };
        c.count("host_files", 1);
        c.mix(ls.len() as u64);
        c.mix_bytes(ask.as_bytes());
        let look = |d: &[u8]| {
            let (l, _) = open(d, None);
            get_from_known_hosts(lines(l), &ask)
        };
        let first = entries.iter().find(|(e, _)| *e == ask).map(|(_, k)| *k);
        let got = look(&data);
        let shown = String::from_utf8_lossy(&data).to_string();
        match (&first, &got) {
            (None, Ok(None)) => c.count("hosts_unknown", 1),
            (None, g) => c.fail(format!("{ask} is not recorded but gives {g:?}: {shown:?}")),
            (Some(Some(k)), Ok(Some(g))) if k == g => c.count("hosts_found", 1),
            (Some(Some(_)), g) => c.fail(format!("{ask} gives {g:?}: {shown:?}")),
            // its line is malformed: refused, or another line for exactly this end point
            (Some(None), Ok(Some(g))) => c.check(entries.iter().any(|(e, k)| *e == ask && k.as_ref() == Some(g)), || format!("{ask} gives {g:?}: {shown:?}")),
            (Some(None), _) => c.count("hosts_malformed", 1),
        }
        if first.is_none() {
            // what is recorded now is found from now on
            let k = new_key(&mut r);
            let file = Arc::new(Mutex::new(std::mem::take(&mut data)));
            if let Err(e) = append_to_known_hosts(Appender(file.clone()), &ask, &k) {
                c.fail(format!("{ask} cannot be recorded: {e}"));
                return;
            }
            data = file.lock().unwrap().clone();
            let got = look(&data);
            c.check(matches!(&got, Ok(Some(g)) if *g == k), || format!("{ask} was recorded and gives {got:?}: {:?}", String::from_utf8_lossy(&data)));
            // and the others are as before
            for (e, _) in &entries {
                let (l, _) = open(&data, None);
                let g = get_from_known_hosts(lines(l), e);
                let want = entries.iter().find(|(x, _)| x == e).and_then(|(_, k)| *k);
                if let Some(w) = want {
                    c.check(matches!(&g, Ok(Some(g)) if *g == w), || format!("{e} gives {g:?} after another was recorded"));
                }
            }
        }
        if r.below(4) == 0 && !data.is_empty() {
            let at = r.below(data.len() as u64) as usize;
            let (l, f) = open(&data, Some(at));
            let g = get_from_known_hosts(lines(l), &ask);
            let met = *f.lock().unwrap() > 0;
            c.count("unreadable_files", 1);
            c.check(!met || !matches!(g, Ok(None)), || "a list of known hosts which cannot be read counts as an empty one".to_string());
        }
    }

    pub fn c24(c: &mut Case) {
        for _ in 0..4 {
            texts(c);
            key_file(c);
            hosts_file(c);
        }
        c.nontrivial = true;
        if c.index < 4 {
            c.sample = Some(format!("4 rounds of key texts, key files and host files: {:?}", c.counters));
        }
    }
}
