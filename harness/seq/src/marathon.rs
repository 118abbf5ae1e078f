//! Runs which go on for millions of operations and hundreds of thousands of laps, judged by counters alone.

use crate::rng::Rng;
use crate::{Args, Report, CUR, DONE};
use mutringbuf::iterators::MRBIterator;
use mutringbuf::{ConcurrentHeapRB, HeapSplit, LocalHeapRB};
use std::sync::atomic::Ordering::Relaxed;
use std::time::Instant;

#[cfg(not(feature = "vmem"))]
macro_rules! parts { ($w:expr) => {{ let w = $w; w.0.iter_mut().chain(w.1.iter_mut()) }}; }
#[cfg(feature = "vmem")]
macro_rules! parts { ($w:expr) => { $w.iter_mut() }; }
#[cfg(not(feature = "vmem"))]
macro_rules! rparts { ($w:expr) => {{ let w = $w; w.0.iter().chain(w.1.iter()).copied() }}; }
#[cfg(feature = "vmem")]
macro_rules! rparts { ($w:expr) => { $w.iter().copied() }; }

#[cfg(not(feature = "vmem"))]
const LENS: &[usize] = &[2, 2, 3, 3, 4, 5, 2, 3, 7, 8, 16, 33, 64, 100, 255, 256, 257, 1000, 65_536, 70_000];
#[cfg(feature = "vmem")]
const LENS: &[usize] = &[4096, 4096, 8192];

/// Kinds of deviation.
#[derive(Clone, Copy, PartialEq, Debug)]
enum K { Value, Over, Under, Index, Det, Reset }
fn concerns(id: &str, k: K) -> bool {
    match id {
        "C01" => k == K::Value,
        "C04" => matches!(k, K::Over | K::Under | K::Index),
        "C05" => matches!(k, K::Over | K::Under),
        "C10" => k == K::Under,
        "C11" => k == K::Reset,
        "C12" => k == K::Det,
        _ => true,
    }
}

struct Run {
    r: Rng,
    len: u64,
    three: bool,
    /// Published and local positions.
    pos: [u64; 3],
    ops: u64,
    /// What follows may be due to a reset, or to a detached phase.
    kind: Option<K>,
    bad: Option<(K, String)>,
}
impl Run {
    fn avail(&self, w: usize, loc: u64) -> u64 {
        match w { 0 => self.pos[2] + self.len - 1 - loc, 1 => self.pos[0] - loc, _ => self.pos[if self.three { 1 } else { 0 }] - loc }
    }
    fn bad(&mut self, k: K, m: String) {
        if self.bad.is_none() {
            self.bad = Some((self.kind.unwrap_or(k), format!("{m}, after {} operations, positions {:?}, len {}", self.ops, self.pos, self.len)));
        }
    }
    fn grant(&mut self, w: usize, n: u64, ok: bool, name: &str) -> bool {
        let a = self.avail(w, self.pos[w]);
        if ok != (n <= a) {
            self.bad(if ok { K::Over } else { K::Under }, format!("{name} of {n} is {} with {a} available", if ok { "granted" } else { "refused" }));
        }
        ok && self.bad.is_none()
    }
    fn is_avail(&mut self, w: usize, loc: u64, n: usize, name: &str) {
        let a = self.avail(w, loc);
        if n as u64 != a {
            self.bad(if n as u64 > a { K::Over } else { K::Under }, format!("available() of the {name} is {n} instead of {a}"));
        }
    }
    fn value(&mut self, at: u64, v: u64, name: &str) {
        let due = if self.three && at < self.pos[1] { at | 1 << 60 } else { at };
        // (the worker may have been here before, and gone back)
        let v = if self.three && at >= self.pos[1] { v & !(1 << 60) } else { v };
        if v != due {
            self.bad(K::Value, format!("{name} yields {v:#x} at position {at}"));
        }
    }
    fn some(&mut self) -> u64 {
        let n = self.len;
        1 + match self.r.below(4) { 0 => self.r.below(n), 1 => self.r.below(n.min(3)), _ => self.r.below(n.min(16)) }
    }
    fn index(&mut self, now: [usize; 4], w: usize, loc: u64) {
        let l = self.len;
        let due = [self.pos[0] % l, if self.three { self.pos[1] % l } else { now[1] as u64 }, self.pos[2] % l, loc % l];
        if now.map(|x| x as u64) != due {
            self.bad(K::Index, format!("indices (producer, worker, consumer, local one of {}) are {now:?} instead of {due:?}", ["P", "W", "C"][w]));
        }
    }
}

macro_rules! indices { ($i:expr) => { [$i.prod_index(), $i.work_index(), $i.cons_index(), $i.index()] }; }
/// Moves to and fro while detached.
macro_rules! detour {
    ($m:expr, $it:ident, $w:expr, $name:literal, $set:expr) => {{
        $m.kind = Some(K::Det);
        let mut d = $it.detach();
        let from = $m.pos[$w];
        let mut loc = from;
        for _ in 0..1 + $m.r.below(5) {
            let a = $m.avail($w, loc);
            match $m.r.below(6) {
                0 if loc > $m.pos[$w] => {
                    let k = 1 + $m.r.below(loc - $m.pos[$w]);
                    unsafe { d.go_back(k as usize) };
                    loc -= k;
                }
                1 => {
                    d.sync_index();
                    $m.pos[$w] = loc;
                }
                _ if a > 0 => {
                    let k = (1 + $m.r.below(a)).min(16);
                    if $m.r.below(2) == 0 {
                        // (what is passed gets its value)
                        if let Some(w) = d.get_workable_slice_exact(k as usize) {
                            for (i, x) in parts!(w).enumerate() {
                                *x = $set(*x, loc + i as u64);
                            }
                        } else {
                            $m.bad(K::Under, format!("{k} slots are refused to the detached {}", $name));
                        }
                        unsafe { d.advance(k as usize) };
                        loc += k;
                    } else {
                        let n = d.available();
                        $m.is_avail($w, loc, n, concat!("detached ", $name));
                    }
                }
                _ => {}
            }
            $m.index(indices!(d), $w, loc);
            $m.ops += 1;
        }
        $it = d.attach();
        $m.pos[$w] = loc;
        $m.index(indices!($it), $w, loc);
        let n = $it.available();
        $m.is_avail($w, loc, n, $name);
        $m.kind = None;
    }};
}

macro_rules! go {
    ($m:ident, $p:ident, $c:ident, $work:block, $until:expr) => {{
        let mut buf: Vec<u64> = vec![];
        while $m.bad.is_none() && !$until(&mut $m) {
            $m.ops += 1;
            let m = &mut $m;
            // the stages take turns, one of them favoured for a while
            let favour = (m.ops >> 6) % 4;
            match if m.r.below(3) == 0 && favour < 3 { favour } else { m.r.below(3) } {
                0 => {
                    let at = m.pos[0];
                    match m.r.below(12) {
                        0..=4 => {
                            let ok = $p.push(at).is_ok();
                            m.pos[0] += m.grant(0, 1, ok, "push") as u64;
                        }
                        5 | 6 => {
                            let n = m.some();
                            buf.clear();
                            buf.extend(at..at + n);
                            let ok = if n % 2 == 0 { $p.push_slice(&buf) } else { $p.push_slice_clone(&buf) }.is_some();
                            m.pos[0] += n * m.grant(0, n, ok, "push_slice") as u64;
                        }
                        7 => {
                            let x = $p.get_next_item_mut_init();
                            if m.grant(0, 1, x.is_some(), "get_next_item_mut_init") {
                                unsafe { *x.unwrap() = at };
                                unsafe { $p.advance(1) };
                                m.pos[0] += 1;
                            }
                        }
                        8 => {
                            let n = m.some();
                            let w = $p.get_workable_slice_exact(n as usize);
                            let ok = w.is_some();
                            if m.grant(0, n, ok, "get_workable_slice_exact") {
                                for (i, x) in parts!(w.unwrap()).enumerate() {
                                    *x = at + i as u64;
                                }
                                unsafe { $p.advance(n as usize) };
                                m.pos[0] += n;
                            }
                        }
                        9 if m.r.below(8) == 0 => detour!(m, $p, 0, "producer", |_, at| at),
                        _ => {
                            let n = $p.available();
                            m.is_avail(0, at, n, "producer");
                            m.index(indices!($p), 0, at);
                        }
                    }
                }
                1 => $work,
                _ => {
                    let at = m.pos[2];
                    match m.r.below(14) {
                        0..=3 => {
                            let v = $c.pop();
                            if m.grant(2, 1, v.is_some(), "pop") {
                                m.value(at, v.unwrap(), "pop");
                                m.pos[2] += 1;
                            }
                        }
                        4 | 5 => {
                            let n = m.some();
                            buf.clear();
                            buf.resize(n as usize, 0);
                            let ok = if n % 2 == 0 { $c.copy_slice(&mut buf) } else { $c.clone_slice(&mut buf) }.is_some();
                            if m.grant(2, n, ok, "copy_slice") {
                                for i in 0..n {
                                    m.value(at + i, buf[i as usize], "copy_slice");
                                }
                                m.pos[2] += n;
                            }
                        }
                        6 => {
                            let v = $c.peek_ref().copied();
                            if m.grant(2, 1, v.is_some(), "peek_ref") {
                                m.value(at, v.unwrap(), "peek_ref");
                                unsafe { $c.advance(1) };
                                m.pos[2] += 1;
                            }
                        }
                        7 | 8 => {
                            let n = m.some();
                            let ok = match $c.peek_slice(n as usize) {
                                None => false,
                                Some(w) => {
                                    buf.clear();
                                    buf.extend(rparts!(w));
                                    true
                                }
                            };
                            if m.grant(2, n, ok, "peek_slice") {
                                for i in 0..n {
                                    m.value(at + i, buf[i as usize], "peek_slice");
                                }
                                unsafe { $c.advance(n as usize) };
                                m.pos[2] += n;
                            }
                        }
                        9 => {
                            let mut v = 0;
                            let ok = if m.r.below(2) == 0 { $c.copy_item(&mut v) } else { $c.clone_item(&mut v) }.is_some();
                            if m.grant(2, 1, ok, "copy_item") {
                                m.value(at, v, "copy_item");
                                m.pos[2] += 1;
                            }
                        }
                        10 if m.r.below(8) == 0 => detour!(m, $c, 2, "consumer", |x, _| x),
                        11 if m.r.below(16) == 0 => {
                            m.kind = Some(K::Reset);
                            $c.reset_index();
                            m.pos[2] = m.pos[if m.three { 1 } else { 0 }];
                            m.index(indices!($c), 2, m.pos[2]);
                            m.grant(2, 1, $c.peek_ref().is_some(), "peek_ref after reset_index");
                            m.kind = None;
                        }
                        _ => {
                            let n = $c.available();
                            m.is_avail(2, at, n, "consumer");
                            m.index(indices!($c), 2, at);
                        }
                    }
                }
            }
        }
    }};
}

fn long(seed: u64, rep: &mut Report, mut until: impl FnMut(&mut Run) -> bool) -> Run {
    let mut r = Rng::new(seed);
    let len = LENS[r.below(LENS.len() as u64) as usize];
    let (three, local) = (r.chance(1, 2), r.chance(1, 3));
    let mut m = Run { r, len: len as u64, three, pos: [0; 3], ops: 0, kind: None, bad: None };
    macro_rules! both {
        ($ty:ident) => {{
            let b = $ty::from(vec![0u64; len]);
            if three {
                let (mut p, mut w, mut c) = b.split_mut();
                go!(m, p, c, {
                    let m = &mut m;
                    let at = m.pos[1];
                    match m.r.below(8) {
                        0 | 1 | 2 => {
                            let x = w.get_workable();
                            if m.grant(1, 1, x.is_some(), "get_workable") {
                                let x = x.unwrap();
                                m.value(at, *x, "get_workable");
                                *x |= 1 << 60;
                                unsafe { w.advance(1) };
                                m.pos[1] += 1;
                            }
                        }
                        3 | 4 | 5 => {
                            let f = m.r.below(3);
                            let n = m.some();
                            let a = m.avail(1, at);
                            let (x, n) = match f {
                                0 => (w.get_workable_slice_exact(n as usize), n),
                                1 => (w.get_workable_slice_avail(), a.max(1)),
                                _ => (w.get_workable_slice_multiple_of(n as usize), (a - a % n).max(n)),
                            };
                            let ok = x.is_some();
                            if m.grant(1, n, ok, "get_workable_slice_*") {
                                let mut k = 0;
                                for x in parts!(x.unwrap()) {
                                    m.value(at + k, *x, "get_workable_slice_*");
                                    *x |= 1 << 60;
                                    k += 1;
                                }
                                if k != n {
                                    m.bad(K::Value, format!("a window of {k} instead of {n} slots"));
                                }
                                unsafe { w.advance(n as usize) };
                                m.pos[1] += n;
                            }
                        }
                        6 if m.r.below(8) == 0 => detour!(m, w, 1, "worker", |x: u64, _| x | 1 << 60),
                        6 if m.r.below(16) == 0 => {
                            // (it has to have seen what it skips: the edits are due)
                            if let Some(x) = w.get_workable_slice_avail() {
                                for x in parts!(x) {
                                    *x |= 1 << 60;
                                }
                            }
                            m.kind = Some(K::Reset);
                            w.reset_index();
                            m.pos[1] = m.pos[0];
                            m.index(indices!(w), 1, m.pos[1]);
                            m.grant(1, 1, w.get_workable().is_some(), "get_workable after reset_index");
                            m.kind = None;
                        }
                        _ => {
                            let n = w.available();
                            m.is_avail(1, at, n, "worker");
                            m.index(indices!(w), 1, at);
                        }
                    }
                }, until);
            } else {
                let (mut p, mut c) = b.split();
                go!(m, p, c, {}, until);
            }
        }};
    }
    if local { both!(LocalHeapRB) } else { both!(ConcurrentHeapRB) }
    rep.count("operations", m.ops);
    rep.count("laps", m.pos[2] / m.len);
    rep.count("values_delivered", m.pos[2]);
    m
}

pub fn marathon(a: &Args, rep: &mut Report) {
    let id = a.s("lens").to_string();
    let secs = a.u("secs", 4) as f64;
    let t0 = Instant::now();
    let mut seeds = Rng::new(a.u("seed", 1) ^ (a.u("worker", 0) << 40) ^ 0x3A7A);
    let only = a.0.get("case").and_then(|v| v.parse::<u64>().ok());
    let mut most = 0;
    while rep.viol.is_none() && t0.elapsed().as_secs_f64() < secs {
        let seed = only.unwrap_or_else(|| seeds.next());
        CUR.store(seed, Relaxed);
        let t1 = Instant::now();
        // (a replay goes on until it fails, or gives up)
        let limit = if only.is_some() { 1e9 } else { (secs / 3.0).clamp(1.0, 20.0) };
        let m = long(seed, rep, |m| {
            if m.ops & 0x3fff != 0 {
                return false;
            }
            DONE.fetch_add(1, Relaxed);
            t1.elapsed().as_secs_f64() > limit || m.ops > 2_000_000_000
        });
        rep.evaluations += 1;
        most = most.max(m.pos[2] / m.len);
        if m.pos[2] > 100 * m.len {
            rep.nontrivial += 1;
            rep.distinct.insert(seed);
        }
        if rep.samples.is_empty() {
            rep.samples.push(format!("marathon, len {}, {} iterators, case {seed}: {} operations, positions {:?}", m.len, 2 + m.three as u32, m.ops, m.pos));
        }
        if let Some((k, what)) = m.bad {
            if concerns(&id, k) {
                rep.viol = Some((format!("{k:?}: {what}"), format!("seq marathon --lens {id} --case {seed}\n{} iterators, {k:?}: {what}", 2 + m.three as u32)));
            } else {
                rep.count("deviations_of_other_properties", 1);
            }
        }
        if only.is_some() {
            break;
        }
    }
    rep.count("most_laps_of_one_run", most);
}
