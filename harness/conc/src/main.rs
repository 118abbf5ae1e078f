mod alloc;
mod items;
mod prog;
mod rng;
mod rt;
#[path = "../../seq/src/world.rs"]
mod world;

use prog::*;
use rt::{rt, Cat};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::Instant;

#[global_allocator]
static A: alloc::Watching = alloc::Watching;

pub static CUR: AtomicU64 = AtomicU64::new(0);
pub static DONE: AtomicU64 = AtomicU64::new(0);

#[path = "../../seq/src/guard.rs"]
mod guard;

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Which findings are violations of which property.
fn lens(id: &str, c: Cat, reset_done: bool, detached: bool, asy: bool) -> bool {
    use Cat::*;
    c == Panic || match id {
        "C01" => matches!(c, Value | Early | Lost | Excess),
        "C02" => matches!(c, Value | Early | Lost | Excess | RaceRead),
        "C03" => matches!(c, RaceRead | RaceWrite | Region),
        "C04" => matches!(c, Order | Over | Region),
        "C05" => matches!(c, Over | Refused | Region),
        "C07" => matches!(c, Life | Flag),
        "C08" => matches!(c, Ledger | ZeroDrop),
        "C09" => matches!(c, ZeroDrop),
        "C10" => matches!(c, Steps | Drain | Under | Lost),
        "C11" => c == Reset || reset_done && matches!(c, Region | Over | Order),
        "C14" => asy && matches!(c, Value | Early | Excess | Refused | Polled | Ledger),
        "C15" => c == Wake,
        "C12" => matches!(c, Detached | Attach) || detached && matches!(c, Over | Under | Region),
        _ => true,
    }
}

/// Are the atomics of the crate hooked, such that the monitors see all of them?
fn calibrate() -> bool {
    use mutringbuf::{ConcurrentHeapRB, HeapSplit, MRBIterator};
    let (mut p, mut w, mut c) = ConcurrentHeapRB::from(vec![0u64; if cfg!(feature = "vmem") { 4096 } else { 4 }]).split_mut();
    let mut ok = true;
    let count = |f: &mut dyn FnMut()| {
        let (a, b) = (rt().monitored_loads, rt().monitored_stores);
        f();
        (rt().monitored_loads - a, rt().monitored_stores - b)
    };
    ok &= count(&mut || { p.prod_index(); }).0 > 0;
    ok &= count(&mut || { p.work_index(); }).0 > 0;
    ok &= count(&mut || { p.cons_index(); }).0 > 0;
    ok &= count(&mut || { let _ = p.push(1); }).1 > 0;
    ok &= count(&mut || { w.available(); }).0 > 0;
    ok &= count(&mut || unsafe { w.advance(1) }).1 > 0;
    ok &= count(&mut || { c.available(); }).0 > 0;
    ok &= count(&mut || { c.pop(); }).1 > 0;
    ok &= count(&mut || { p.available(); }).0 > 0;
    ok &= count(&mut || { p.is_cons_alive(); }).0 > 0;
    ok &= count(&mut || { p.is_work_alive(); }).0 > 0;
    ok &= count(&mut || { p.is_prod_alive(); }).0 > 0;
    ok
}

fn main() {
    let mut it = std::env::args().skip(1);
    let mode = it.next().unwrap_or_default();
    let mut a = HashMap::new();
    while let Some(k) = it.next() {
        a.insert(k.trim_start_matches("--").to_string(), it.next().unwrap_or_default());
    }
    let u = |k: &str, d: u64| a.get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let m = match mode.as_str() {
        "mix" => Mode::Mix,
        "pipe" => Mode::Pipe,
        "drops" => Mode::Drops,
        "await" => Mode::Await,
        _ => std::process::exit(2),
    };
    guard::install(true);
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("SEQ_PANIC").is_some() {
            eprintln!("{i}");
        }
    }));
    rt::init();
    rt().no_hb = u("sc", 0) != 0;
    let id = a.get("lens").cloned().unwrap_or_default();
    rt().id = id.clone();
    let secs = u("secs", 5) as f64;
    let (worker, max) = (u("worker", 0), u("cases", u64::MAX));
    let only = a.get("case").and_then(|v| v.parse::<u64>().ok());
    let mut seeds = rng::Rng::new(u("seed", 1) ^ (worker << 40) ^ 0xC04C ^ (m as u64) << 56);
    let (mut evals, mut nontrivial, mut distinct) = (0u64, 0u64, HashSet::new());
    let (mut samples, mut viol): (Vec<String>, Option<(String, String)>) = (vec![], None);
    let mut other: HashMap<String, u64> = HashMap::new();
    let skipped = !calibrate();
    let t0 = Instant::now();
    // One worker in three never reads anything stale.
    let sc = rt().no_hb;
    while !skipped && evals < max && t0.elapsed().as_secs_f64() < secs {
        let seed = only.unwrap_or_else(|| seeds.next() >> 1);
        CUR.store(seed, Relaxed);
        let conf = Conf::new(seed, m, sc || seed % 3 == 0);
        rt().log = only.map(|_| vec![]);
        let o = run(&conf);
        DONE.fetch_add(1, Relaxed);
        evals += 1;
        if o.nontrivial {
            nontrivial += 1;
            if distinct.len() < 3_000_000 {
                distinct.insert(o.hash ^ (conf.len as u64) << 3 ^ conf.three as u64);
            }
        }
        if let Some((c, msg)) = o.viol {
            let mine = rt().mine;
            if mine || only.is_some() {
                rt().log = Some(vec![]);
                let o2 = if only.is_some() { None } else { run(&conf).viol };
                let log = rt().log.take().unwrap_or_default();
                let n = log.len().saturating_sub(300);
                viol = Some((format!("{c:?}: {msg}"), format!("conc {mode} --lens {id} --case {seed} --cases 1\n{conf:?}\n{c:?}: {msg}\nreplayed: {o2:?}\n{}", log[n..].join("\n"))));
                break;
            }
            *other.entry(format!("{c:?}")).or_default() += 1;
            if other.values().sum::<u64>() > if cfg!(feature = "vmem") { 2_000 } else { 60_000 } {
                break;
            }
        } else if samples.is_empty() && o.nontrivial && only.is_none() {
            rt().log = Some(vec![]);
            run(&conf);
            let log = rt().log.take().unwrap_or_default();
            if log.len() < 120 {
                samples.push(format!("{conf:?} :: {}", log.join("; ")));
            }
        }
        if only.is_some() {
            for l in rt().log.take().unwrap_or_default() {
                println!("{l}");
            }
            break;
        }
    }
    if let Some(p) = a.get("hashes") {
        let b: Vec<u8> = distinct.iter().flat_map(|h: &u64| h.to_le_bytes()).collect();
        let _ = std::fs::write(p, b);
    }
    let mut c: Vec<String> = rt().counts.0.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect();
    c.push(format!("\"engine_skipped\":{}", skipped as u32));
    for (k, v) in other {
        c.push(format!("{}:{v}", jstr(&format!("deviations_of_other_properties_{k}"))));
    }
    let s: Vec<String> = samples.iter().map(|x| jstr(x)).collect();
    let v = match &viol {
        None => "null".into(),
        Some((m, r)) => format!("{{\"what\":{},\"replay\":{}}}", jstr(m), jstr(r)),
    };
    println!("JSON {{\"evaluations\":{evals},\"nontrivial\":{nontrivial},\"distinct\":{},\"counters\":{{{}}},\"samples\":[{}],\"violation\":{v}}}", distinct.len(), c.join(","), s.join(","));
    std::process::exit(viol.is_some() as i32);
}
