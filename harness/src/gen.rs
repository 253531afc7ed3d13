//! Generators shared by the properties.
use tftp_dus::encryption::EncryptionLevel;

use crate::endpoints::*;
use crate::rng::Rng;
use crate::world::Net;

pub const LEVELS: &[EncryptionLevel] = if ENC {
    &[EncryptionLevel::None, EncryptionLevel::Data, EncryptionLevel::Protocol, EncryptionLevel::Full, EncryptionLevel::OptionalData, EncryptionLevel::OptionalProtocol]
} else {
    &[EncryptionLevel::None]
};

/// payload bytes per block once a session of that level is negotiated
pub fn payload(block: u16, level: EncryptionLevel) -> usize {
    let b = block as usize;
    match level {
        EncryptionLevel::None => b,
        EncryptionLevel::Data | EncryptionLevel::OptionalData => b - 40,
        _ => b - 41,
    }
}

pub fn block_size(r: &mut Rng) -> u16 {
    match r.below(10) {
        0..=4 => 512,
        5 => 513,
        6 => MAX_BLOCK,
        7 => 1024.min(MAX_BLOCK),
        _ => r.range(512, MAX_BLOCK as u64) as u16,
    }
}

pub fn window(r: &mut Rng) -> u16 {
    let m = MAX_WINDOW as u64;
    (match r.below(10) {
        0..=2 => 1,
        3 => 2,
        4 => 3,
        5..=6 => r.range(2, 8.min(m)),
        7 => 16.min(m),
        8 => r.range(1, m.min(64)),
        _ => m.min(if r.chance(0.2) { 1000 } else { 32 }),
    }) as u16
}

/// file size in terms of blocks of `p` bytes
pub fn size(r: &mut Rng, p: usize, max_blocks: u64) -> usize {
    let blocks = match r.below(12) {
        0 => 0,
        1 => 1,
        2 => 2,
        3..=6 => r.range(1, 12.min(max_blocks)),
        7..=9 => r.range(3, 40.min(max_blocks)),
        _ => r.range(1, max_blocks),
    } as usize;
    let rem = match r.below(5) {
        0 | 1 => 0,
        2 => 1,
        3 => p - 1,
        _ => r.below(p as u64) as usize,
    };
    blocks * p + rem
}

/// content in which every block differs from every other (position-dependent)
pub fn content(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(5) {
        0 => {
            // text with line ends
            let mut v = Vec::with_capacity(n + 16);
            let mut i = 0u64;
            while v.len() < n {
                v.extend_from_slice(format!("line {i}\r\n").as_bytes());
                i += 1;
            }
            v.truncate(n);
            v
        }
        1 => vec![0; n],
        _ => r.bytes(n),
    }
}

pub fn unique_content(r: &mut Rng, n: usize) -> Vec<u8> {
    r.bytes(n)
}

/// network fault profile; faults end after `secs` seconds of virtual time
pub fn net(r: &mut Rng, secs: f64) -> Net {
    let mut n = Net::clean();
    n.base_us = *r.pick(&[20, 300, 300, 2_000, 20_000]);
    n.jitter_us = *r.pick(&[0, 200, 1_000]);
    n.fifo = r.chance(0.3);
    n.until = crate::clock::START + (secs * 1e6) as u64;
    n.reorder_us = *r.pick(&[1_000, 5_000, 100_000]);
    n.dup_us = *r.pick(&[1, 2_000, 50_000]);
    n.max_faults = 40;
    match r.below(10) {
        0 => (),
        1 => n.loss = 0.02,
        2 => n.loss = 0.1,
        3 => n.loss = 0.3,
        4 => n.dup = 0.1,
        5 => n.reorder = 0.15,
        6 => {
            n.loss = 0.05;
            n.dup = 0.05;
            n.reorder = 0.05;
        }
        _ => {
            // a few faults at chosen packets
            let k = r.range(1, 5);
            for _ in 0..k {
                let at = if r.chance(0.4) { r.below(8) } else { r.below(80) };
                n.targeted.insert(at, r.range(1, 3) as u8);
            }
        }
    }
    n
}

#[derive(Clone, Debug)]
pub struct Params {
    pub upload: bool,
    pub block: u16,
    pub window: u16,
    pub level: EncryptionLevel,
    pub size: usize,
    pub data: Vec<u8>,
    pub seek: bool,
    pub port_change: bool,
    pub retry_ms: u64,
    pub keys: bool,
    pub srv_block: u16,
    pub srv_window: u16,
}

pub fn params(r: &mut Rng, upload: bool, max_blocks: u64) -> Params {
    let level = if r.chance(0.45) { EncryptionLevel::None } else { *r.pick(LEVELS) };
    let block = block_size(r);
    let window = window(r);
    // the protocol's limits on memory: keep block x blocks small
    let max_blocks = if block > 8000 { max_blocks.min(20) } else { max_blocks };
    let srv_block = if r.chance(0.8) { MAX_BLOCK } else { block_size(r) };
    let srv_window = if r.chance(0.8) { MAX_WINDOW } else { crate::gen::window(r) };
    let eff_block = block.min(srv_block);
    let size = size(r, payload(eff_block, level), max_blocks);
    let data = content(r, size);
    Params {
        upload,
        block,
        window,
        level,
        size,
        data,
        seek: SEEK && r.chance(0.3),
        port_change: r.chance(0.3),
        retry_ms: if r.chance(0.8) { 80 } else { *r.pick(&[20, 200, 1000, 2000]) },
        keys: ENC && r.chance(0.4),
        srv_block,
        srv_window,
    }
}

pub const NAME: &str = "dir/file.bin";

/// server and client of one transfer
pub fn pair(r: &mut Rng, p: &Params) -> (ServerSpec, ClientSpec) {
    let mut s = ServerSpec { max_block_size: p.srv_block, max_window: p.srv_window, prefer_seek: SEEK && r.chance(0.3), port_change: p.port_change, ..ServerSpec::default() };
    let mut c = ClientSpec::new(0, p.upload, NAME);
    c.block_size = p.block;
    c.window = p.window;
    c.level = p.level;
    c.prefer_seek = p.seek;
    c.retry_ms = p.retry_ms;
    c.allow_port_change = p.port_change;
    c.data = p.data.clone().into();
    #[cfg(feature = "enc")]
    if p.level != EncryptionLevel::None {
        let sk = sign_key(r);
        if p.level == EncryptionLevel::Full || p.keys {
            c.remote_key = Some(sk.verifying_key());
        }
        s.private_key = Some(sk);
        if p.keys {
            let ck = sign_key(r);
            s.authorized = Some(vec![ck.verifying_key()]);
            c.private_key = Some(ck);
        }
    }
    let _ = (&mut s, r);
    (s, c)
}

#[cfg(feature = "enc")]
pub fn sign_key(r: &mut Rng) -> SignKey {
    let b: [u8; 32] = r.bytes(32).try_into().expect("32");
    SignKey::from(b)
}
