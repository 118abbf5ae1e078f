mod alloc;
mod cells;
mod panics;
mod extra;
mod gens;
mod items;
mod lens;
mod model;
mod modes;
mod rng;
mod run;
#[cfg(feature = "alloc")]
mod wake;
#[cfg(feature = "alloc")]
mod marathon;
mod world;

use model::*;
use run::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::Instant;

#[cfg(not(miri))]
#[global_allocator]
static A: alloc::Counting = alloc::Counting;

/// Case being run: reported should the process crash or hang.
pub static CUR: AtomicU64 = AtomicU64::new(0);
pub static DONE: AtomicU64 = AtomicU64::new(0);

#[cfg(not(miri))]
mod guard;

pub struct Args(HashMap<String, String>);
impl Args {
    fn parse() -> (String, Args) {
        let mut it = std::env::args().skip(1);
        let mode = it.next().unwrap_or_default();
        let mut m = HashMap::new();
        while let Some(k) = it.next() {
            m.insert(k.trim_start_matches("--").to_string(), it.next().unwrap_or_default());
        }
        (mode, Args(m))
    }
    pub fn u(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
    pub fn s(&self, k: &str) -> &str {
        self.0.get(k).map_or("", |v| v)
    }
    pub fn has(&self, k: &str) -> bool {
        self.0.contains_key(k)
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// What a worker reports: counters, samples and a violation.
#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: std::collections::HashSet<u64>,
    pub counters: Vec<(String, u64)>,
    pub samples: Vec<String>,
    pub viol: Option<(String, String)>,
}
impl Report {
    pub fn count(&mut self, k: &str, n: u64) {
        match self.counters.iter_mut().find(|x| x.0 == k) {
            Some(x) => x.1 += n,
            None => self.counters.push((k.into(), n)),
        }
    }
    pub fn stats(&mut self, s: &Stats) {
        for (k, v) in [
            ("operations", s.ops), ("granted", s.granted), ("refused", s.refused), ("values_delivered", s.delivered), ("values_pushed", s.pushed),
            ("in_place_edits", s.edited), ("wrap_arounds", s.wraps), ("resets", s.resets), ("detached_moves", s.detached_moves),
            ("async_polls", s.async_polls), ("availabilities_compared", s.avail_checked), ("windows_checked", s.windows),
            ("windows_across_the_end", s.wrapped_windows), ("slots_compared", s.slots_compared), ("stores_into_empty_slots", s.zeroed_stores),
            ("stores_over_values", s.replaced), ("values_moved_out", s.moved_out), ("sessions", s.sessions), ("resplits", s.resplits),
            ("iterators_dropped_midway", s.drops_mid), ("instances_tracked", s.instances), ("mirrors_compared", s.mirrors_compared), ("pending_polls", s.pendings), ("ready_after_pending", s.late_ready), ("futures_dropped_pending", s.futures_dropped),
            ("deviations_of_other_properties", s.other),
            ("model_states", s.states.len() as u64),
        ] {
            self.count(k, v);
        }
        for (i, n) in OP_NAMES.iter().enumerate() {
            let [no, yes] = s.op_counts.0[i];
            if no + yes > 0 {
                self.count(&format!("op:{n}:ok"), yes);
                self.count(&format!("op:{n}:refused"), no);
            }
        }
    }
    pub fn print(&self) {
        let c: Vec<String> = self.counters.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect();
        let s: Vec<String> = self.samples.iter().map(|x| jstr(x)).collect();
        let v = match &self.viol {
            None => "null".into(),
            Some((m, r)) => format!("{{\"what\":{},\"replay\":{}}}", jstr(m), jstr(r)),
        };
        println!("JSON {{\"evaluations\":{},\"nontrivial\":{},\"distinct\":{},\"counters\":{{{}}},\"samples\":[{}],\"violation\":{v}}}",
            self.evaluations, self.nontrivial, self.distinct.len(), c.join(","), s.join(","));
    }
}

/// Runs the cases of a mode and judges them against the model.
fn drive(mode: &str, a: &Args, rep: &mut Report) -> bool {
    let id = a.s("lens").to_string();
    let l = lens::lens(&id);
    let Some(g) = gens::gen(mode, &id, a.has("sanitize")) else { return false };
    let secs = a.u("secs", 5) as f64;
    let max = a.u("cases", u64::MAX);
    let (worker, workers) = (a.u("worker", 0), a.u("workers", 1));
    let t0 = Instant::now();
    let mut stats = Stats::default();
    stats.states.reserve(4096);
    let mut seeds = rng::Rng::new(a.u("seed", 1) ^ (worker << 40) ^ 0xC0FFEE);
    let only = a.0.get("case").and_then(|v| v.parse::<u64>().ok());
    let loud = a.has("announce");
    let mut next = worker;
    // Everything which is enumerated is run, whatever it takes.
    while rep.evaluations < max && (next < g.all || t0.elapsed().as_secs_f64() < secs) {
        let seed = match only {
            Some(s) => s,
            None if next < g.all => next,
            None => seeds.next() | 1 << 63,
        };
        if next < g.all {
            rep.count("enumerated_cases", 1);
        }
        next = next.saturating_add(workers);
        CUR.store(seed, Relaxed);
        if loud {
            eprintln!("CASE {seed}");
        }
        let case = (g.make)(seed);
        let before = stats.clone_counts();
        let mut o = run(&case, l, &mut stats, false, false);
        for _ in 0..3 {
            if !o.viol.as_ref().is_some_and(|v| matches!(v.cat, Cat::Leak | Cat::Map)) {
                break;
            }
            // Lazily initialised things of the process itself are no leak: it has to happen again.
            o = run(&case, l, &mut stats, false, false);
        }
        DONE.fetch_add(1, Relaxed);
        rep.evaluations += 1;
        let now = stats.clone_counts();
        let up = |i: usize| now[i] > before[i];
        let nontrivial = match case.kind {
            // refusals, deliveries and wrap-arounds
            Kind::Hist => up(0) && up(1) && up(2),
            // windows which go across the end
            Kind::Windows => up(3),
            Kind::Construct => case.len > 1,
            // a future which was pending and became ready later
            Kind::Polls => up(4),
            Kind::Drops(_) => true,
        };
        if nontrivial {
            rep.nontrivial += 1;
            let h = case.script.iter().fold(case.len as u64 ^ if case.script.is_empty() { seed << 16 } else { 0 }, |h, r| (h ^ (r.c as u64) ^ ((r.a as u64) << 8) ^ ((r.b as u64) << 20)).wrapping_mul(0x1000_0000_01b3).rotate_left(17));
            if rep.distinct.len() < 4_000_000 {
                rep.distinct.insert(h);
            }
        }
        if rep.samples.is_empty() && nontrivial && case.script.len() < 24 && only.is_none() && o.viol.is_none() {
            let mut s2 = Stats::default();
            let o = run(&case, l, &mut s2, true, false);
            rep.samples.push(format!("{} :: {}", case.describe(), o.log.iter().take(120).map(|x| &x[..]).collect::<Vec<_>>().join("; ")));
        }
        if let Some(v) = o.viol {
            let small = if cfg!(miri) || case.script.is_empty() { case.clone() } else { shrink(&case, l, v.cat) };
            let mut s2 = Stats::default();
            let o2 = run(&small, l, &mut s2, true, false);
            let what = o2.viol.as_ref().map_or(v.msg.clone(), |v| v.msg.clone());
            let skip = o2.log.len().saturating_sub(400);
            let replay = format!("seq {mode} --lens {id} --case {seed} --cases 1{}\n{}\n{:?}: {}\n{}",
                if g.sanitize { " --sanitize 1" } else { "" }, small.describe(), v.cat, v.msg, o2.log[skip..].join("\n"));
            rep.viol = Some((format!("{:?}: {what}", v.cat), replay));
            break;
        }
        if only.is_some() {
            let o = run(&case, l, &mut stats, true, false);
            println!("{}\n{}", case.describe(), o.log.join("\n"));
            break;
        }
    }
    rep.stats(&stats);
    true
}

fn main() {
    let (mode, a) = Args::parse();
    #[cfg(not(miri))]
    guard::install(!a.has("nosig"));
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("SEQ_PANIC").is_some() {
            eprintln!("{i}");
        }
    }));
    let mut rep = Report::default();
    match mode.as_str() {
        m if drive(m, &a, &mut rep) => {}
        "zero" => extra::zero(&mut rep),
        #[cfg(feature = "vmem")]
        "vmem" => extra::vmem(&mut rep),
        "known" => extra::known(&mut rep),
        "cells" => cells::cells(&a, &mut rep),
        "panics" => panics::panics(&a, &mut rep),
        "diff" => extra::diff(&a, &mut rep),
        #[cfg(feature = "alloc")]
        "marathon" => marathon::marathon(&a, &mut rep),
        #[cfg(feature = "alloc")]
        "wake" => wake::run(&a, &mut rep),
        m => {
            eprintln!("unknown mode {m}");
            std::process::exit(2);
        }
    }
    if a.has("hashes") {
        let b: Vec<u8> = rep.distinct.iter().flat_map(|h| h.to_le_bytes()).collect();
        let _ = std::fs::write(a.s("hashes"), b);
    }
    rep.print();
    std::process::exit(if rep.viol.is_some() { 1 } else { 0 });
}
