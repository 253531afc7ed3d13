//! In-memory storage handed to the code under test: every operation is logged, faults are planned.
use std::collections::HashMap;
use std::sync::Arc;

use tftp_dus::std_compat::io;

use crate::world::{Bytes, Ev, Shared};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// permanent error of some kind
    Error,
    /// only n bytes are transferred
    Short(usize),
    /// nothing transferred, "try again"
    WouldBlock,
    /// error once, later operations work
    ErrorOnce,
    Interrupted,
}

/// operation index (0-based, per handle) -> fault; `every` applies to all data operations
#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub at: HashMap<u64, Fault>,
    pub short_p: f64,
    pub would_block_p: f64,
    pub seek_fail_at: Option<u64>,
    /// it cannot even be opened
    pub open_fail: bool,
}

#[derive(Debug)]
pub struct MemReader {
    sh: Arc<Shared>,
    pub id: usize,
    data: Bytes,
    pos: usize,
    plan: Plan,
    op: u64,
    seek_op: u64,
    dead: bool,
}

#[derive(Debug)]
pub struct MemWriter {
    sh: Arc<Shared>,
    pub id: usize,
    path: String,
    pos: usize,
    plan: Plan,
    op: u64,
    dead: bool,
}

impl std::fmt::Debug for Shared {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Shared")
    }
}

fn err(k: io::ErrorKind) -> io::Error {
    io::Error::from(k)
}

fn new_id(sh: &Arc<Shared>, write: bool, path: &str) -> usize {
    let mut g = sh.lock();
    g.store_ids += 1;
    g.open_stores += 1;
    let id = g.store_ids;
    g.ev(Ev::StoreOpen { id, write, path: path.to_string(), ok: true });
    id
}

impl MemReader {
    pub fn new(sh: &Arc<Shared>, path: &str, data: Bytes, plan: Plan) -> Self {
        MemReader { sh: sh.clone(), id: new_id(sh, false, path), data, pos: 0, plan, op: 0, seek_op: 0, dead: false }
    }
}

impl MemWriter {
    /// storage key `path` is created or truncated
    pub fn new(sh: &Arc<Shared>, path: &str, plan: Plan) -> Self {
        let id = new_id(sh, true, path);
        sh.lock().fs.insert(path.to_string(), Vec::new());
        MemWriter { sh: sh.clone(), id, path: path.to_string(), pos: 0, plan, op: 0, dead: false }
    }
}

fn plan_next(sh: &Arc<Shared>, id: usize, plan: &Plan, op: &mut u64, len: usize, dead: &mut bool, write: bool) -> Result<usize, io::Error> {
    let n = *op;
    *op += 1;
    let mut g = sh.lock();
    *g.store_ops.entry(id).or_insert(0) += 1;
    if *dead {
        return Err(err(io::ErrorKind::Other));
    }
    let f = plan.at.get(&n).copied();
    let res = match f {
        Some(Fault::Error) => {
            *dead = true;
            g.ev(Ev::StoreFault { id, what: "error" });
            Err(err(io::ErrorKind::Other))
        }
        Some(Fault::ErrorOnce) => {
            g.ev(Ev::StoreFault { id, what: "error-once" });
            Err(err(io::ErrorKind::Other))
        }
        Some(Fault::Interrupted) => {
            g.ev(Ev::StoreFault { id, what: "interrupted" });
            Err(err(io::ErrorKind::Interrupted))
        }
        Some(Fault::WouldBlock) => {
            g.ev(Ev::StoreFault { id, what: "would-block" });
            Err(err(io::ErrorKind::WouldBlock))
        }
        Some(Fault::Short(k)) => {
            let k = k.min(len);
            if k < len {
                g.ev(Ev::StoreFault { id, what: "short" });
            }
            Ok(k)
        }
        None => {
            if g.rng.chance(plan.would_block_p) {
                g.ev(Ev::StoreFault { id, what: "would-block" });
                Err(err(io::ErrorKind::WouldBlock))
            } else if len > 1 && g.rng.chance(plan.short_p) {
                let k = 1 + g.rng.below(len as u64 - 1) as usize;
                g.ev(Ev::StoreFault { id, what: "short" });
                Ok(k)
            } else {
                Ok(len)
            }
        }
    };
    let _ = write;
    res
}

impl MemReader {
    fn do_read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let avail = (self.data.len() - self.pos.min(self.data.len())).min(buf.len());
        let n = plan_next(&self.sh, self.id, &self.plan, &mut self.op, avail, &mut self.dead, false)?;
        let n = n.min(avail);
        // a short read of nothing would mean end of file
        let n = if n == 0 && avail > 0 { 1 } else { n };
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        let off = self.pos;
        self.pos += n;
        self.sh.lock().ev(Ev::StoreRead { id: self.id, off, len: n });
        Ok(n)
    }
    fn do_seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
        let n = self.seek_op;
        self.seek_op += 1;
        if self.plan.seek_fail_at == Some(n) {
            self.sh.lock().ev(Ev::StoreFault { id: self.id, what: "seek-error" });
            return Err(err(io::ErrorKind::Other));
        }
        let pos = match p {
            io::SeekFrom::Start(p) => p as i64,
            io::SeekFrom::Current(p) => self.pos as i64 + p,
            io::SeekFrom::End(p) => self.data.len() as i64 + p,
        };
        if pos < 0 {
            return Err(err(io::ErrorKind::InvalidInput));
        }
        self.pos = pos as usize;
        Ok(self.pos as u64)
    }
}

impl io::Read for MemReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.do_read(buf)
    }
}
impl io::Seek for MemReader {
    fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
        self.do_seek(p)
    }
}
impl io::Write for MemWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = plan_next(&self.sh, self.id, &self.plan, &mut self.op, buf.len(), &mut self.dead, true)?;
        let off = self.pos;
        crate::world::watch(&buf[..n]);
        let mut g = self.sh.lock();
        let f = g.fs.entry(self.path.clone()).or_default();
        if f.len() < off {
            f.resize(off, 0);
        }
        let over = (f.len() - off).min(n);
        f[off..off + over].copy_from_slice(&buf[..over]);
        f.extend_from_slice(&buf[over..n]);
        self.pos += n;
        let data: Bytes = buf[..n].into();
        g.ev(Ev::StoreWrite { id: self.id, off, data });
        Ok(n)
    }
    fn write_fmt(&mut self, _: std::fmt::Arguments<'_>) -> io::Result<()> {
        Err(err(io::ErrorKind::Unsupported))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn close(sh: &Arc<Shared>, id: usize) {
    let mut g = sh.lock();
    g.open_stores -= 1;
    g.ev(Ev::StoreClose { id });
}
impl Drop for MemReader {
    fn drop(&mut self) {
        close(&self.sh, self.id);
    }
}
impl Drop for MemWriter {
    fn drop(&mut self) {
        close(&self.sh, self.id);
    }
}
