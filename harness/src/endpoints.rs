//! Spawning the real client and the real server inside a world.
use std::collections::HashMap;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use tftp_dus::client::{receive_file, send_file, ClientConfig};
use tftp_dus::config::ConnectionOptions;
use tftp_dus::encryption::EncryptionLevel;
use tftp_dus::error::{BoxedResult, FileError};
use tftp_dus::server::{server, ServerConfig};
use tftp_dus::types::FilePath;

use crate::clock;
use crate::rng::SimRng;
use crate::storage::{MemReader, MemWriter, Plan};
use crate::world::{Bytes, Ev, MockBound, MockSocket, Shared};

#[cfg(feature = "enc")]
pub type SignKey = tftp_dus::encryption::SigningKey;
#[cfg(feature = "enc")]
pub type VerKey = tftp_dus::encryption::VerifyingKey;
#[cfg(not(feature = "enc"))]
pub type SignKey = ();
#[cfg(not(feature = "enc"))]
pub type VerKey = ();

pub const ENC: bool = cfg!(feature = "enc");
pub const ALLOC: bool = cfg!(feature = "alloc");
pub const MT: bool = cfg!(feature = "mt");
pub const SEEK: bool = cfg!(feature = "seek");
pub const MAX_BLOCK: u16 = tftp_dus::config::MAX_DATA_BLOCK_SIZE;
pub const MAX_WINDOW: u16 = tftp_dus::config::MAX_BLOCKS_FOR_MULTI_READER;

pub fn flavour() -> &'static str {
    match (ALLOC, ENC, MT) {
        (true, true, true) => "threads",
        (true, true, false) => "heap",
        (false, true, _) => "stack-enc",
        (false, false, _) => "stack",
        (true, false, _) => "heap-noenc",
    }
}

pub fn srv_addr() -> SocketAddr {
    SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 0, 0, 1)), 69)
}
pub fn cli_addr(i: usize) -> SocketAddr {
    SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 0, 1 + (i / 200) as u8, 1 + (i % 200) as u8)), 5000 + (i % 1000) as u16)
}
pub fn addr(a: u8, b: u8, port: u16) -> SocketAddr {
    SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 9, a, b)), port)
}

#[derive(Clone)]
pub struct ServerSpec {
    pub addr: SocketAddr,
    pub allow_overwrite: bool,
    pub max_window: u16,
    pub request_timeout_ms: u64,
    pub max_connections: u16,
    pub max_file_size: u64,
    pub max_block_size: u16,
    pub prefer_seek: bool,
    pub port_change: bool,
    pub require_full: bool,
    pub error_auth_only: bool,
    pub private_key: Option<SignKey>,
    pub authorized: Option<Vec<VerKey>>,
    pub plans: HashMap<String, Plan>,
    pub default_plan: Plan,
}

impl Default for ServerSpec {
    fn default() -> Self {
        ServerSpec {
            addr: srv_addr(),
            allow_overwrite: false,
            max_window: MAX_WINDOW,
            request_timeout_ms: 15000,
            max_connections: 100,
            max_file_size: 1 << 40,
            max_block_size: MAX_BLOCK,
            prefer_seek: false,
            port_change: false,
            require_full: false,
            error_auth_only: false,
            private_key: None,
            authorized: None,
            plans: HashMap::new(),
            default_plan: Plan::default(),
        }
    }
}

#[cfg(feature = "enc")]
fn keys(v: &Option<Vec<VerKey>>) -> Option<tftp_dus::key_management::AuthorizedKeys> {
    v.as_ref().map(|v| {
        let mut k = tftp_dus::key_management::AuthorizedKeys::new();
        for x in v {
            #[allow(unused_must_use)]
            {
                k.push(*x);
            }
        }
        k
    })
}
#[cfg(not(feature = "enc"))]
fn keys(_: &Option<Vec<VerKey>>) -> Option<tftp_dus::key_management::AuthorizedKeys> {
    None
}

pub fn spawn_server(sh: &Arc<Shared>, spec: ServerSpec) -> std::thread::JoinHandle<()> {
    let w = sh.clone();
    sh.spawn(false, 0, move || {
        let config = ServerConfig {
            listen: spec.addr,
            directory: "srv".parse().expect("dir"),
            allow_overwrite: spec.allow_overwrite,
            max_window_size: spec.max_window,
            request_timeout: Duration::from_millis(spec.request_timeout_ms),
            max_connections: spec.max_connections,
            max_file_size: spec.max_file_size,
            max_block_size: spec.max_block_size,
            authorized_keys: keys(&spec.authorized),
            private_key: spec.private_key.clone(),
            require_full_encryption: spec.require_full,
            require_server_port_change: spec.port_change,
            prefer_seek: spec.prefer_seek,
            directory_list: None,
            max_directory_depth: 10,
            error_to_authorized_only: spec.error_auth_only,
        };
        let (a, b, c, d) = (w.clone(), w.clone(), w.clone(), w.clone());
        let plan = |p: &str| spec.plans.get(p).cloned().unwrap_or_else(|| spec.default_plan.clone());
        let r = server(
            config,
            |p: &FilePath, _: &ServerConfig| -> BoxedResult<(Option<u64>, MemReader)> {
                let key = format!("srv/{}", p.as_str());
                let data = a.lock().fs.get(&key).cloned();
                let plan = plan(p.as_str());
                if plan.open_fail {
                    return Err(no_open(&a, false, key));
                }
                match data {
                    Some(d) => {
                        let len = d.len() as u64;
                        Ok((Some(len), MemReader::new(&a, &key, d.into(), plan)))
                    }
                    None => {
                        a.lock().ev(Ev::StoreOpen { id: 0, write: false, path: key, ok: false });
                        Err(FileError::InvalidFileName.into())
                    }
                }
            },
            |p: &FilePath, cfg: &ServerConfig| -> BoxedResult<MemWriter> {
                let key = format!("srv/{}", p.as_str());
                let exists = b.lock().fs.contains_key(&key);
                if exists && !cfg.allow_overwrite {
                    b.lock().ev(Ev::StoreOpen { id: 0, write: true, path: key, ok: false });
                    return Err(FileError::InvalidFileName.into());
                }
                let plan = plan(p.as_str());
                if plan.open_fail {
                    return Err(no_open(&b, true, key));
                }
                Ok(MemWriter::new(&b, &key, plan))
            },
            |addr: SocketAddr, key: usize, _: bool, _: usize| -> BoxedResult<MockSocket> { Ok(MockSocket::new(&c, addr, key, true)) },
            |listen: SocketAddr, key: usize, client: SocketAddr| -> BoxedResult<MockBound> {
                if d.lock().bind_fail == Some(client.ip()) {
                    return Err(tftp_dus::std_compat::io::Error::from(tftp_dus::std_compat::io::ErrorKind::Other).into());
                }
                Ok(MockBound::new(&d, listen, key, client))
            },
            clock::instant,
            SimRng,
        );
        if let Err(e) = r {
            let sd = w.lock().shutdown;
            if !sd {
                w.note(format!("server ended: {e}"));
            }
        }
    })
}

fn no_open(sh: &Arc<Shared>, write: bool, path: String) -> tftp_dus::error::BoxedError {
    let mut g = sh.lock();
    g.ev(Ev::StoreFault { id: 0, what: "open" });
    g.ev(Ev::StoreOpen { id: 0, write, path, ok: false });
    tftp_dus::std_compat::io::Error::from(tftp_dus::std_compat::io::ErrorKind::Other).into()
}

#[derive(Clone)]
pub struct ClientSpec {
    pub id: usize,
    pub addr: SocketAddr,
    pub server: SocketAddr,
    pub upload: bool,
    pub data: Bytes,
    pub remote: String,
    pub block_size: u16,
    pub window: u16,
    pub retry_ms: u64,
    pub level: EncryptionLevel,
    pub tsize: Option<u64>,
    pub prefer_seek: bool,
    pub request_timeout_ms: u64,
    pub max_file_size: u64,
    pub allow_port_change: bool,
    pub private_key: Option<SignKey>,
    pub remote_key: Option<VerKey>,
    pub plan: Plan,
    pub start_after: u64,
}

impl ClientSpec {
    pub fn new(id: usize, upload: bool, remote: &str) -> Self {
        ClientSpec {
            id,
            addr: cli_addr(id),
            server: srv_addr(),
            upload,
            data: Vec::new().into(),
            remote: remote.to_string(),
            block_size: 512,
            window: 1,
            retry_ms: 80,
            level: EncryptionLevel::None,
            tsize: if upload { None } else { Some(0) },
            prefer_seek: false,
            request_timeout_ms: 15000,
            max_file_size: 1 << 40,
            allow_port_change: false,
            private_key: None,
            remote_key: None,
            plan: Plan::default(),
            start_after: 0,
        }
    }
}

#[derive(Clone, Debug)]
pub struct ClientRes {
    pub id: usize,
    pub ok: bool,
    pub count: usize,
    pub err: String,
    pub start: u64,
    pub end: u64,
    /// local file of a download, or the server's copy of an upload, at the moment the call returned
    pub stored: Option<Vec<u8>>,
    pub has_key: bool,
    pub panicked: bool,
}

pub type Results = Arc<Mutex<Vec<ClientRes>>>;

pub fn spawn_client(sh: &Arc<Shared>, s: ClientSpec, results: &Results) -> std::thread::JoinHandle<()> {
    let w = sh.clone();
    let results = results.clone();
    sh.spawn(true, s.start_after, move || {
        let start = clock::now();
        let config = ClientConfig {
            listen: s.addr,
            endpoint: s.server,
            request_timeout: Duration::from_millis(s.request_timeout_ms),
            max_file_size: s.max_file_size,
            private_key: s.private_key.clone(),
            remote_public_key: s.remote_key,
            allow_server_port_change: s.allow_port_change,
            prefer_seek: s.prefer_seek,
            encryption_key: None,
        };
        let options = ConnectionOptions {
            block_size: s.block_size,
            retry_packet_after_timeout: Duration::from_millis(s.retry_ms),
            file_size: s.tsize,
            encryption_level: s.level,
            window_size: s.window,
        };
        let socket = MockSocket::new(&w, s.addr, 1, false);
        let local = format!("cli/{}", s.id);
        let lp: FilePath = local.parse().expect("path");
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let Ok(rp) = s.remote.parse::<FilePath>() else {
                return Err("remote name does not fit".to_string());
            };
            if s.upload {
                let (a, data, plan) = (w.clone(), s.data.clone(), s.plan.clone());
                let path = local.clone();
                send_file(
                    config,
                    lp,
                    rp,
                    options,
                    move |_: &FilePath| -> BoxedResult<(Option<u64>, MemReader)> {
                        if plan.open_fail {
                            return Err(no_open(&a, false, path));
                        }
                        let len = data.len() as u64;
                        Ok((Some(len), MemReader::new(&a, &path, data, plan)))
                    },
                    socket,
                    clock::instant,
                    SimRng,
                )
            } else {
                let (a, plan) = (w.clone(), s.plan.clone());
                let path = local.clone();
                receive_file(
                    config,
                    lp,
                    rp,
                    options,
                    move |_: &FilePath| -> BoxedResult<MemWriter> {
                        if plan.open_fail {
                            return Err(no_open(&a, true, path));
                        }
                        Ok(MemWriter::new(&a, &path, plan))
                    },
                    socket,
                    clock::instant,
                    SimRng,
                )
            }
            .map(|(n, k)| (n, k.is_some()))
            .map_err(|e| format!("{e}"))
        }));
        let mut g = w.lock();
        let stored = if s.upload { g.fs.get(&format!("srv/{}", s.remote.trim_start_matches('/'))).cloned() } else { g.fs.get(&local).cloned() };
        let mut res = ClientRes { id: s.id, ok: false, count: 0, err: String::new(), start, end: clock::now(), stored, has_key: false, panicked: false };
        match r {
            Ok(Ok((n, k))) => {
                res.ok = true;
                res.count = n;
                res.has_key = k;
            }
            Ok(Err(e)) => res.err = e,
            Err(_) => {
                res.panicked = true;
                res.err = "panic".into();
            }
        }
        g.ev(Ev::ClientEnd { id: s.id, ok: res.ok, count: res.count, err: res.err.clone() });
        drop(g);
        results.lock().unwrap_or_else(|e| e.into_inner()).push(res);
    })
}
