#![feature(alloc_error_hook)]
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::Instant;
use versim::ch::Source;
use versim::run::*;
use versim::shared::Shared;

#[global_allocator]
static A: versim::alloc::SimAlloc = versim::alloc::SimAlloc;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).and_then(|x| x.parse().ok()).unwrap_or(d)
}

fn no_aslr() {
    // addresses never decide anything, but equal addresses make machine-level traces comparable
    const ADDR_NO_RANDOMIZE: libc::c_ulong = 0x0040000;
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && (p as libc::c_ulong) & ADDR_NO_RANDOMIZE == 0 && std::env::var_os("VERSIM_REEXEC").is_none() {
            if libc::personality(p as libc::c_ulong | ADDR_NO_RANDOMIZE) >= 0 {
                std::env::set_var("VERSIM_REEXEC", "1");
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
                let _ = e;
            }
        }
    }
}

fn main() {
    no_aslr();
    std::alloc::set_alloc_error_hook(versim::alloc::on_alloc_error);
    versim::sim::install_hook();
    let shared = Shared::map();
    versim::sim::set_shared(shared);
    let mode = std::env::args().nth(1).unwrap_or_default();
    let prop = arg("--prop").unwrap_or_default();
    if let Some(d) = arg("--nodes") {
        versim::props::set_nodes(d);
    }
    let p13 = prop == "P13" || arg("--file").is_some() && load()["property"] == "P13";
    if p13 {
        if let Err(e) = versim::node::open_all(&versim::props::nodes()) {
            eprintln!("{e}");
            std::process::exit(3);
        }
    }
    match mode.as_str() {
        "worker" => worker(shared, &prop),
        "replay" => replay(shared),
        "shrink" => shrink_cmd(shared),
        "hashes" => hashes(shared, &prop),
        _ => {
            eprintln!("usage: versim-bin worker|replay|shrink|hashes");
            std::process::exit(2);
        }
    }
}

/// event-log hashes of a block of runs: equal on every machine state, worker count and repetition
fn hashes(shared: &'static Shared, prop: &str) {
    let (seed, cfg, from, n) = (num("--seed", 1), num("--cfg", 0), num("--from", 0), num("--n", 10));
    for i in from..from + n {
        let s = run_seed(seed, prop, cfg, i);
        let r = run_once(shared, prop, seed_source(s), true, true);
        let mut h = r.hash;
        for b in r.trace.bytes() {
            h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01B3);
        }
        let v = match r.verdict {
            Verdict::Ok => "ok".to_string(),
            v => format!("{v:?}"),
        };
        println!("{i} {h:016x} {} {} {}", r.choices.len(), r.steps, v);
    }
}

fn worker(shared: &'static Shared, prop: &str) {
    let seed = num("--seed", 1);
    let cfg = num("--cfg", 0);
    let (shard, shards) = (num("--shard", 0), num("--shards", 1));
    let secs = arg("--secs").and_then(|x| x.parse::<f64>().ok()).unwrap_or(10.0);
    let max_runs = num("--max-runs", u64::MAX);
    let out = arg("--out").unwrap_or_else(|| "/dev/stdout".into());
    let t0 = Instant::now();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: Vec<u64> = vec![];
    let (mut runs, mut nontriv, mut steps, mut inconc) = (0u64, 0u64, 0u64, 0u64);
    let mut inconc_msg = String::new();
    let mut violation = Value::Null;
    let mut harness = Value::Null;
    let mut samples: Vec<u64> = vec![];
    let mut index = shard;
    while runs < max_runs && t0.elapsed().as_secs_f64() < secs {
        let s = run_seed(seed, prop, cfg, index);
        let r = run_once(shared, prop, seed_source(s), false, false);
        runs += 1;
        steps += r.steps;
        for (k, v) in &r.stats {
            *stats.entry(k.clone()).or_default() += v;
        }
        match r.verdict {
            Verdict::Ok => {
                if r.nontrivial {
                    nontriv += 1;
                    hashes.push(r.hash);
                    if samples.len() < 3 {
                        samples.push(index);
                    }
                }
            }
            Verdict::Inconclusive(m) => {
                inconc += 1;
                inconc_msg = m;
            }
            Verdict::Harness(m) => {
                harness = json!({"index": index, "run_seed": s, "msg": m});
                break;
            }
            Verdict::Violation { class, msg } => {
                violation = json!({"index": index, "run_seed": s, "class": class, "msg": msg, "choices": r.choices});
                break;
            }
        }
        index += shards;
    }
    // a few sample runs in readable form
    let mut texts = vec![];
    if violation.is_null() {
        for i in samples.iter().take(if shard == 0 { 2 } else { 0 }) {
            let s = run_seed(seed, prop, cfg, *i);
            let r = run_once(shared, prop, seed_source(s), true, false);
            let t: String = r.trace.lines().take(12).collect::<Vec<_>>().join("; ");
            texts.push(format!("run {i} seed {s}: {}", t.chars().take(900).collect::<String>()));
        }
    }
    hashes.sort_unstable();
    hashes.dedup();
    if let Some(h) = arg("--hashes") {
        let b: Vec<u8> = hashes.iter().flat_map(|x| x.to_le_bytes()).collect();
        let _ = std::fs::write(h, b);
    }
    let v = json!({
        "runs": runs, "nontrivial": nontriv, "steps": steps, "inconclusive": inconc, "inconclusive_msg": inconc_msg,
        "wall_s": t0.elapsed().as_secs_f64(), "stats": stats, "violation": violation, "harness": harness, "samples": texts,
    });
    std::fs::write(out, v.to_string()).unwrap();
}

fn load() -> Value {
    let f = arg("--file").expect("--file");
    serde_json::from_str(&std::fs::read_to_string(f).expect("read replay file")).expect("parse replay file")
}
fn choices_of(v: &Value) -> Vec<u64> {
    v["choices"].as_array().map(|a| a.iter().filter_map(Value::as_u64).collect()).unwrap_or_default()
}

fn replay(shared: &'static Shared) {
    let v = load();
    let prop = v["property"].as_str().unwrap_or("").to_string();
    let r = run_once(shared, &prop, Source::Replay(choices_of(&v), 0), true, true);
    let (st, class, msg) = match &r.verdict {
        Verdict::Ok => ("ok", String::new(), String::new()),
        Verdict::Violation { class, msg } => ("violation", class.clone(), msg.clone()),
        Verdict::Inconclusive(m) => ("inconclusive", String::new(), m.clone()),
        Verdict::Harness(m) => ("harness", String::new(), m.clone()),
    };
    println!(
        "{}",
        json!({"status": st, "class": class, "msg": msg, "hash": format!("{:016x}", r.hash), "steps": r.steps, "choices": r.choices.len(),
               "trace": r.trace.lines().collect::<Vec<_>>()})
    );
}

fn shrink_cmd(shared: &'static Shared) {
    let mut v = load();
    let prop = v["property"].as_str().unwrap_or("").to_string();
    let class = v["class"].as_str().unwrap_or("").to_string();
    let secs = arg("--secs").and_then(|x| x.parse::<f64>().ok()).unwrap_or(20.0);
    let start = choices_of(&v);
    let n0 = start.len();
    let (best, tries) = shrink(shared, &prop, start, &class, secs);
    let r = run_once(shared, &prop, Source::Replay(best.clone(), 0), true, true);
    if let Verdict::Violation { class: c, msg } = &r.verdict {
        if *c == class {
            v["choices"] = json!(best);
            v["msg"] = json!(msg);
            v["trace"] = json!(r.trace.lines().collect::<Vec<_>>());
            v["shrunk"] = json!({"from": n0, "to": best.len(), "executions": tries});
        }
    }
    println!("{v}");
}
