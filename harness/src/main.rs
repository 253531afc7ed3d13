mod case;
mod clock;
mod endpoints;
mod gen;
mod monitors;
mod peers;
mod props;
mod refcodec;
#[cfg(feature = "enc")]
mod refcrypto;
mod rng;
mod session;
mod storage;
mod world;

use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::Ordering;

use case::Case;
use rng::Rng;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).cloned()
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).and_then(|v| v.parse().ok()).unwrap_or(d)
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = format!("{msg} at {loc}");
        if std::env::var_os("VERIF_PANICS").is_some() {
            eprintln!("PANIC {m}");
        }
        if loc.contains("/verif/harness") || std::env::var_os("VERIF_TRACE").is_some() {
            eprintln!("harness: {m}");
        }
        world::PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(m);
    }));
}

fn prop_hash(p: &str) -> u64 {
    p.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64))
}

fn one(f: props::Run, prop: &str, seed: u64, index: u64, thorough: bool) -> Case {
    let rng = Rng::from_parts(&[seed, prop_hash(prop), index]);
    let mut c = Case::new(rng, seed, index, thorough);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c)));
    if r.is_err() {
        let p = world::take_panics();
        c.fail(format!("panic in the case: {p:?}"));
    }
    c
}

/// faults on purpose: the memory checkers have to see them
fn control(kind: &str) {
    use std::hint::black_box;
    match kind {
        "uninitialised" => {
            let mut v: Vec<u8> = Vec::with_capacity(black_box(600));
            #[allow(clippy::uninit_vec)]
            unsafe {
                v.set_len(600)
            };
            world::watch(&v);
        }
        "overflow" => {
            let v: Vec<u8> = vec![1; black_box(100)];
            let x = unsafe { *v.as_ptr().add(black_box(100)) };
            println!("{x}");
        }
        "freed" => {
            let v: Vec<u8> = vec![1; black_box(100)];
            let p = v.as_ptr();
            drop(v);
            println!("{}", unsafe { *black_box(p).add(3) });
        }
        "race" => {
            static mut SHARED: u64 = 0;
            let t: Vec<_> = (0..2)
                .map(|i| {
                    std::thread::spawn(move || {
                        for _ in 0..1000 {
                            unsafe {
                                let p = std::ptr::addr_of_mut!(SHARED);
                                *black_box(p) = *p + i
                            };
                        }
                    })
                })
                .collect();
            for x in t {
                let _ = x.join();
            }
        }
        _ => {}
    }
    println!("not seen");
}

fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    let prop = arg("--prop").unwrap_or_default();
    let seed = num("--seed", 1);
    let thorough = arg("--tier").as_deref() == Some("thorough");
    install_panic_hook();
    if mode == "control" {
        return control(&prop);
    }
    clock::VIRTUAL.store(true, Ordering::SeqCst);
    let Some(f) = props::find(&prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    match mode.as_str() {
        "replay" => {
            let c = one(f, &prop, seed, num("--case", 0), thorough);
            for t in &c.trace {
                println!("{t}");
            }
            if let Some(s) = &c.sample {
                println!("{s}");
            }
            for v in &c.viol {
                println!("violated: {v}");
            }
            for (k, v) in &c.counters {
                println!("  {k} = {v}");
            }
            std::process::exit(if c.viol.is_empty() { 0 } else { 1 });
        }
        "worker" => worker(f, &prop, seed, thorough),
        _ => {
            eprintln!("usage: tftp-verif worker|replay --prop C01 ...");
            std::process::exit(2);
        }
    }
}

fn worker(f: props::Run, prop: &str, seed: u64, thorough: bool) {
    let (shard, nshards) = (num("--shard", 0), num("--nshards", 1));
    let cases = num("--cases", 100);
    let budget = num("--budget-ms", 30_000);
    let state = arg("--state");
    let start = clock::real_ms();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut total: BTreeMap<String, u64> = BTreeMap::new();
    let (mut evals, mut nontrivial) = (0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut bad: Vec<Case> = vec![];
    let mut i = shard;
    let mut statef = state.map(|p| std::fs::File::create(p).expect("state file"));
    let mut complete = true;
    while i < cases {
        if clock::real_ms() - start > budget {
            complete = false;
            break;
        }
        if let Some(f) = statef.as_mut() {
            use std::io::Seek;
            let _ = f.seek(std::io::SeekFrom::Start(0));
            let _ = f.write_all(format!("{i:>20}\n").as_bytes());
        }
        let c = one(f, prop, seed, i, thorough);
        evals += 1;
        if c.nontrivial {
            nontrivial += 1;
            sigs.insert(c.sig);
        }
        for (k, v) in &c.counters {
            let e = total.entry(k.clone()).or_insert(0);
            if k.starts_with("max_") {
                *e = (*e).max(*v);
            } else {
                *e += *v;
            }
        }
        for k in &c.known {
            *known.entry(k.clone()).or_insert(0) += 1;
        }
        if let Some(s) = &c.sample {
            if samples.len() < 4 && c.nontrivial {
                samples.push(s.clone());
            }
        }
        if !c.viol.is_empty() {
            bad.push(c);
            if bad.len() >= 5 {
                complete = false;
                break;
            }
        }
        i += nshards;
    }
    let mut o = String::new();
    o.push_str(&format!(
        "{{\"flavour\":{},\"evaluations\":{evals},\"nontrivial\":{nontrivial},\"distinct\":{},\"complete\":{complete},\"wall_ms\":{},",
        esc(endpoints::flavour()),
        sigs.len(),
        clock::real_ms() - start
    ));
    o.push_str("\"counters\":{");
    o.push_str(&total.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(","));
    o.push_str("},\"known\":{");
    o.push_str(&known.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(","));
    o.push_str("},\"sigs\":[");
    o.push_str(&sigs.iter().map(|s| format!("\"{s:x}\"")).collect::<Vec<_>>().join(","));
    o.push_str("],\"samples\":[");
    o.push_str(&samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
    o.push_str("],\"violations\":[");
    o.push_str(
        &bad.iter()
            .map(|c| {
                format!(
                    "{{\"case\":{},\"seed\":{},\"messages\":[{}],\"sample\":{},\"trace\":[{}]}}",
                    c.index,
                    c.seed,
                    c.viol.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
                    esc(c.sample.as_deref().unwrap_or("")),
                    c.trace.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("]}\n");
    // one line, written at once
    let mut out = std::io::stdout().lock();
    let _ = out.write_all(o.as_bytes());
    let _ = out.flush();
    drop(out);
    std::process::exit(0);
}
