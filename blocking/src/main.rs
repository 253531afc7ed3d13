//! Stress of the reader which follows a file that is still being written: real threads, delays at the points where it touches
//! the file and the flag. `tftp-blocking stress SEED CASES`
#![allow(dead_code)]

#[path = "/repo/std-binary/src/blocking_reader.rs"]
mod blocking_reader;

use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use blocking_reader::BlockingReader;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

/// how far the writer is; the source waits for it at chosen reads, so that rare orders happen often
#[derive(Default)]
struct Progress {
    steps: AtomicU64,
    ended: AtomicBool,
}

struct Source {
    bytes: Arc<Mutex<Vec<u8>>>,
    pos: usize,
    rng: Rng,
    progress: Arc<Progress>,
    interrupts: bool,
    orders: [u64; 4],
}

impl Source {
    fn pause(&mut self) -> u64 {
        match self.rng.below(8) {
            0 => {
                // until the writer has gone one step further
                let s = self.progress.steps.load(Ordering::Acquire);
                wait(|| self.progress.steps.load(Ordering::Acquire) != s || self.progress.ended.load(Ordering::Acquire));
                1
            }
            1 => {
                // until it has finished altogether
                wait(|| self.progress.ended.load(Ordering::Acquire));
                2
            }
            2 => {
                std::thread::yield_now();
                3
            }
            _ => 0,
        }
    }
}

fn wait(f: impl Fn() -> bool) {
    let s = Instant::now();
    while !f() && s.elapsed() < Duration::from_secs(5) {
        std::thread::yield_now();
    }
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let k = self.pause();
        self.orders[k as usize] += 1;
        if self.interrupts && self.rng.below(10) == 0 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let n = {
            let b = self.bytes.lock().unwrap();
            let left = b.len().saturating_sub(self.pos);
            // a file may return less than there is
            let mut n = left.min(buf.len());
            if n > 1 && self.rng.below(5) == 0 {
                n = 1 + self.rng.below(n as u64 - 1) as usize;
            }
            buf[..n].copy_from_slice(&b[self.pos..self.pos + n]);
            n
        };
        self.pos += n;
        let k = self.pause();
        self.orders[k as usize] += 1;
        Ok(n)
    }
}
impl Seek for Source {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        if let SeekFrom::Start(x) = p {
            self.pos = x as usize;
        }
        Ok(self.pos as u64)
    }
}

/// -> signature, or what went wrong
fn case(seed: u64, small: bool) -> std::result::Result<u64, String> {
    let mut r = Rng(seed);
    let block = [1, 2, 7, 64, 512, 1425][r.below(if small { 3 } else { 6 }) as usize];
    let size = match r.below(6) {
        0 => 0,
        1 => block,
        2 => block * (1 + r.below(5) as usize),
        3 => block * (1 + r.below(5) as usize) - 1,
        4 => r.below(block as u64 * 3 + 1) as usize,
        _ => r.below(if small { 20 } else { 12000 }) as usize,
    };
    let content: Vec<u8> = (0..size).map(|_| r.next() as u8).collect();
    let bytes = Arc::new(Mutex::new(Vec::new()));
    let finished = Arc::new(AtomicBool::new(false));
    let progress = Arc::new(Progress::default());
    let interrupts = r.below(4) == 0;
    let source = Source { bytes: bytes.clone(), pos: 0, rng: Rng(r.next()), progress: progress.clone(), interrupts, orders: [0; 4] };
    let mut reader = BlockingReader::new(source, finished.clone());
    let pieces = 1 + r.below(if small { 3 } else { 12 }) as usize;
    let mut w = Rng(r.next());
    let (c, p) = (content.clone(), progress.clone());
    let writer = std::thread::spawn(move || {
        let mut at = 0;
        for i in 0..pieces {
            let n = if i + 1 == pieces { c.len() - at } else { w.below((c.len() - at) as u64 + 1) as usize };
            bytes.lock().unwrap().extend_from_slice(&c[at..at + n]);
            at += n;
            p.steps.fetch_add(1, Ordering::AcqRel);
            match w.below(4) {
                0 => std::thread::yield_now(),
                1 => std::thread::sleep(Duration::from_micros(w.below(60))),
                _ => {}
            }
        }
        // as the watcher of the directory does it
        finished.store(true, Ordering::Release);
        p.ended.store(true, Ordering::Release);
    });
    let mut got = Vec::new();
    let start = Instant::now();
    let mut blocked = 0u64;
    let end = loop {
        if start.elapsed() > Duration::from_secs(20) {
            break Err(format!("no end of the file after 20 s, {} of {} bytes, block {block}, would block {blocked}", got.len(), size));
        }
        let mut buf = vec![0xEE; block];
        match reader.read(&mut buf) {
            Ok(n) => {
                got.extend_from_slice(&buf[..n]);
                // the sender takes a short block for the last one
                if n < block {
                    break Ok(());
                }
            }
            Err(e) if e.kind() == ErrorKind::WouldBlock || e.kind() == ErrorKind::Interrupted => {
                blocked += 1;
                std::thread::yield_now();
            }
            Err(e) => break Err(format!("error {e}")),
        }
    };
    writer.join().map_err(|_| "the writer panicked".to_string())?;
    end.map_err(|e| format!("case {seed}: {e}"))?;
    if got != content {
        let d = got.iter().zip(&content).position(|(a, b)| a != b).unwrap_or(got.len().min(size));
        return Err(format!("case {seed}: {} bytes were written, {} read, first difference at {d}, block {block}, pieces {pieces}, would block {blocked}", size, got.len()));
    }
    Ok(seed.rotate_left(7) ^ ((size as u64) << 20) ^ ((block as u64) << 8) ^ blocked.min(200))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(1);
    let cases: u64 = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(100);
    let small = cfg!(miri);
    let (mut ok, mut bad) = (0u64, 0u64);
    let mut blocked = 0;
    for i in 0..cases {
        match case(seed.wrapping_mul(1_000_003).wrapping_add(i), small) {
            Ok(s) => {
                ok += 1;
                blocked += s & 1;
                println!("SIG {s:x}");
            }
            Err(e) => {
                bad += 1;
                println!("BAD {e}");
                if bad > 3 {
                    break;
                }
            }
        }
    }
    println!("DONE {ok} {bad} {blocked}");
}
