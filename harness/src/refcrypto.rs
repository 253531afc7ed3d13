//! Independent view of the encrypted wire format: what a listener with the secrets of both sides sees.
use std::collections::{HashMap, HashSet};

use base64::Engine;
use chacha20poly1305::aead::{Aead, KeyInit};
use chacha20poly1305::{XChaCha20Poly1305, XNonce};
use ed25519_dalek::{Signer, SigningKey};
use x25519_dalek::{PublicKey, StaticSecret};

use crate::rng::Rng;

pub const NONCE: usize = 24;
pub const TAG: usize = 16;
pub const KEY: usize = 32;

pub type Key = [u8; 32];

/// body = ciphertext | tag | nonce
pub fn open(key: &Key, body: &[u8]) -> Option<Vec<u8>> {
    if body.len() < TAG + NONCE {
        return None;
    }
    let (c, n) = body.split_at(body.len() - NONCE);
    XChaCha20Poly1305::new(key.into()).decrypt(XNonce::from_slice(n), c).ok()
}

pub fn seal(key: &Key, plain: &[u8], nonce: &[u8]) -> Vec<u8> {
    let mut v = XChaCha20Poly1305::new(key.into()).encrypt(XNonce::from_slice(nonce), plain).expect("seal");
    v.extend_from_slice(nonce);
    v
}

/// padding: one byte value different from the end of the content, repeated
pub fn pad(plain: &[u8], to: usize) -> Vec<u8> {
    let mut v = plain.to_vec();
    let b = if v.last().map(|l| l & 1 == 1) == Some(true) { 0 } else { 255 };
    let n = to.saturating_sub(v.len()) + 1;
    v.resize(v.len() + n, b);
    v
}

pub fn unpad(v: &[u8]) -> Option<Vec<u8>> {
    let b = *v.last()?;
    if b != 0 && b != 255 {
        return None;
    }
    let n = v.iter().rev().take_while(|c| **c == b).count();
    Some(v[..v.len() - n].to_vec())
}

pub fn b64(b: &[u8]) -> String {
    base64::engine::general_purpose::STANDARD.encode(b)
}
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    base64::engine::general_purpose::STANDARD.decode(s).ok()
}

pub fn public(secret: &Key) -> Key {
    *PublicKey::from(&StaticSecret::from(*secret)).as_bytes()
}
pub fn dh(secret: &Key, remote: &Key) -> Key {
    *StaticSecret::from(*secret).diffie_hellman(&PublicKey::from(*remote)).as_bytes()
}
/// the identity key of a side as an x25519 secret
pub fn scalar(k: &SigningKey) -> Key {
    k.to_scalar_bytes()
}
pub fn secret(r: &mut Rng) -> Key {
    r.bytes(32).try_into().expect("32")
}
pub fn sign(k: &SigningKey, what: &[u8]) -> Vec<u8> {
    k.sign(what).to_bytes().to_vec()
}

/// a first packet encrypted for the holder of `server`
pub fn initial(r: &mut Rng, eph: &Key, server: &Key, plain: &[u8], block: usize) -> Vec<u8> {
    let n = r.bytes(NONCE);
    let room = (block + 4).saturating_sub(1 + TAG + NONCE + KEY);
    let mut v = seal(&dh(eph, server), &pad(plain, room), &n);
    v.extend_from_slice(&public(eph));
    v
}

/// all keys two sides of this world can have agreed on
pub struct Ring {
    pub keys: Vec<Key>,
    last: usize,
}

impl Ring {
    /// `drawn`: secrets made during the run, `fixed`: identity keys
    pub fn new(drawn: &[Key], fixed: &[Key]) -> Ring {
        let mut keys: Vec<Key> = vec![];
        let mut seen: HashSet<Key> = HashSet::new();
        let pubs: Vec<Key> = drawn.iter().map(public).collect();
        let mut add = |k: Key| {
            if seen.insert(k) {
                keys.push(k);
            }
        };
        for (i, s) in drawn.iter().enumerate() {
            for p in &pubs[..i] {
                add(dh(s, p));
            }
            for f in fixed {
                add(dh(s, &public(f)));
            }
        }
        Ring { keys, last: 0 }
    }
    pub fn open(&mut self, body: &[u8]) -> Option<(usize, Vec<u8>)> {
        if body.len() < TAG + NONCE {
            return None;
        }
        let l = self.last;
        for i in std::iter::once(l).chain((0..self.keys.len()).filter(|i| *i != l)) {
            if let Some(p) = self.keys.get(i).and_then(|k| open(k, body)) {
                self.last = i;
                return Some((i, p));
            }
        }
        None
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sealed {
    /// everything but the sender's public key at the end
    Initial { key: usize, plain: Vec<u8> },
    /// everything
    Whole { key: usize, plain: Vec<u8> },
    /// all but the four bytes of the header
    Body { key: usize, plain: Vec<u8> },
    No,
}

pub fn classify(ring: &mut Ring, d: &[u8]) -> Sealed {
    if let Some((key, plain)) = ring.open(d) {
        return Sealed::Whole { key, plain };
    }
    if d.len() > 4 && d[0] == 0 && d[1] == 3 {
        if let Some((key, plain)) = ring.open(&d[4..]) {
            return Sealed::Body { key, plain };
        }
    }
    if d.len() > KEY {
        if let Some((key, plain)) = ring.open(&d[..d.len() - KEY]) {
            return Sealed::Initial { key, plain };
        }
    }
    Sealed::No
}

/// nonces already seen per key
#[derive(Default)]
pub struct Nonces(HashMap<(usize, Vec<u8>), u64>);
impl Nonces {
    /// number of the packet which used it before
    pub fn used(&mut self, key: usize, nonce: &[u8], n: u64) -> Option<u64> {
        self.0.insert((key, nonce.to_vec()), n)
    }
}

/// finds any piece of `secret` of 8 bytes
pub struct Finder(HashSet<u64>);
impl Finder {
    pub fn new(secret: &[u8]) -> Finder {
        Finder(secret.windows(8).map(|w| u64::from_le_bytes(w.try_into().expect("8"))).collect())
    }
    pub fn find(&self, d: &[u8]) -> Option<usize> {
        if self.0.is_empty() {
            return None;
        }
        d.windows(8).position(|w| self.0.contains(&u64::from_le_bytes(w.try_into().expect("8"))))
    }
}
