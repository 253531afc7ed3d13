//! Independent packet codec written from RFC 1350, 2347, 2348, 2349, 7440 (reference for the oracles).
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Pk {
    Rrq { name: Vec<u8>, mode: Vec<u8>, opts: Vec<(Vec<u8>, Vec<u8>)> },
    Wrq { name: Vec<u8>, mode: Vec<u8>, opts: Vec<(Vec<u8>, Vec<u8>)> },
    Data { block: u16, data: Vec<u8> },
    Ack { block: u16 },
    Error { code: u16, msg: Vec<u8> },
    Oack { opts: Vec<(Vec<u8>, Vec<u8>)> },
}

fn z(v: &mut Vec<u8>, s: &[u8]) {
    v.extend_from_slice(s);
    v.push(0);
}

pub fn opts(o: &[(&str, String)]) -> Vec<(Vec<u8>, Vec<u8>)> {
    o.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect()
}

impl Pk {
    pub fn enc(&self) -> Vec<u8> {
        let mut v = Vec::new();
        match self {
            Pk::Rrq { name, mode, opts } | Pk::Wrq { name, mode, opts } => {
                v.extend_from_slice(&[0, if matches!(self, Pk::Rrq { .. }) { 1 } else { 2 }]);
                z(&mut v, name);
                z(&mut v, mode);
                for (a, b) in opts {
                    z(&mut v, a);
                    z(&mut v, b);
                }
            }
            Pk::Data { block, data } => {
                v.extend_from_slice(&[0, 3]);
                v.extend_from_slice(&block.to_be_bytes());
                v.extend_from_slice(data);
            }
            Pk::Ack { block } => {
                v.extend_from_slice(&[0, 4]);
                v.extend_from_slice(&block.to_be_bytes());
            }
            Pk::Error { code, msg } => {
                v.extend_from_slice(&[0, 5]);
                v.extend_from_slice(&code.to_be_bytes());
                z(&mut v, msg);
            }
            Pk::Oack { opts } => {
                v.extend_from_slice(&[0, 6]);
                for (a, b) in opts {
                    z(&mut v, a);
                    z(&mut v, b);
                }
            }
        }
        v
    }

    pub fn dec(b: &[u8]) -> Option<Pk> {
        if b.len() < 2 {
            return None;
        }
        let op = u16::from_be_bytes([b[0], b[1]]);
        let r = &b[2..];
        let strings = |r: &[u8]| -> Option<Vec<Vec<u8>>> {
            if r.is_empty() {
                return Some(vec![]);
            }
            if *r.last()? != 0 {
                return None;
            }
            Some(r[..r.len() - 1].split(|c| *c == 0).map(|s| s.to_vec()).collect())
        };
        let pairs = |s: &[Vec<u8>]| s.chunks_exact(2).map(|c| (c[0].clone(), c[1].clone())).collect::<Vec<_>>();
        match op {
            1 | 2 => {
                let s = strings(r)?;
                if s.len() < 2 || s.len() % 2 != 0 {
                    return None;
                }
                let (name, mode, opts) = (s[0].clone(), s[1].clone(), pairs(&s[2..]));
                Some(if op == 1 { Pk::Rrq { name, mode, opts } } else { Pk::Wrq { name, mode, opts } })
            }
            3 if r.len() >= 2 => Some(Pk::Data { block: u16::from_be_bytes([r[0], r[1]]), data: r[2..].to_vec() }),
            4 if r.len() >= 2 => Some(Pk::Ack { block: u16::from_be_bytes([r[0], r[1]]) }),
            5 if r.len() >= 3 => {
                let end = r[2..].iter().position(|c| *c == 0)?;
                Some(Pk::Error { code: u16::from_be_bytes([r[0], r[1]]), msg: r[2..2 + end].to_vec() })
            }
            6 => {
                let s = strings(r)?;
                if s.len() % 2 != 0 {
                    return None;
                }
                Some(Pk::Oack { opts: pairs(&s) })
            }
            _ => None,
        }
    }
}

pub fn opt<'a>(o: &'a [(Vec<u8>, Vec<u8>)], k: &str) -> Option<&'a str> {
    o.iter().find(|(a, _)| a.eq_ignore_ascii_case(k.as_bytes())).and_then(|(_, v)| std::str::from_utf8(v).ok())
}
