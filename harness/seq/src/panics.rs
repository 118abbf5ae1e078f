//! Items whose `clone` panics now and then: whatever the interrupted operation leaves behind, no value is destroyed
//! twice, read after its destruction or taken out of an empty slot, and none which the buffer owned is lost.

use crate::items::*;
use crate::rng::Rng;
use crate::{Args, Report, CUR, DONE};
use mutringbuf::iterators::{ConsIter, MRBIterator, ProdIter, WorkIter};
use mutringbuf::MutRB;
#[cfg(feature = "alloc")]
use mutringbuf::{ConcurrentHeapRB, HeapSplit, LocalHeapRB};
#[cfg(not(feature = "vmem"))]
use mutringbuf::{ConcurrentStackRB, LocalStackRB, StackSplit};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use std::time::Instant;

struct Run<T> {
    r: Rng,
    /// The buffer may have empty slots.
    gaps: bool,
    nkey: u64,
    /// Instances of which the buffer has been the owner.
    owned: Vec<usize>,
    log: Vec<String>,
    panics: u64,
    viol: Option<(char, String)>,
    item: std::marker::PhantomData<T>,
}

impl<T: Item> Run<T> {
    fn value(&mut self) -> T {
        self.nkey += 1;
        T::make(T::fresh(self.nkey))
    }
    /// Runs an operation, during which one of the next clones may panic.
    fn op<R>(&mut self, name: String, clones: u64, f: impl FnOnce() -> R) -> Option<R> {
        if clones > 0 && self.r.chance(1, 2) {
            fuse_in(1 + self.r.below(clones) as u32);
        }
        let o = catch_unwind(AssertUnwindSafe(f));
        fuse_in(0);
        if o.is_err() {
            self.panics += 1;
        }
        if self.log.len() < 300 {
            self.log.push(format!("{name}{}", if o.is_err() { " (a clone panics)" } else { "" }));
        }
        if let (Some(e), true) = (ledger_event(), self.viol.is_none()) {
            let sort = if matches!(e, Ev::ZeroRead | Ev::ZeroDrop) { 'z' } else { 'l' };
            self.viol = Some((sort, format!("{e:?} after {name}{}", if self.panics > 0 { ", some clones having panicked" } else { "" })));
        }
        o.ok()
    }
    fn session<B: MutRB<Item = T>, const W: bool>(&mut self, mut p: ProdIter<B>, w: Option<WorkIter<B>>, mut c: ConsIter<B, W>, len: usize) {
        let mut w = w;
        for _ in 0..self.r.below(40) {
            if self.viol.is_some() {
                break;
            }
            let n = if len > 64 { self.r.below(len as u64) } else { self.r.below(len as u64 + 1) } as usize;
            match self.r.below(if w.is_some() { 9 } else { 8 }) {
                0 | 1 => {
                    let v = self.value();
                    let id = ledger_made();
                    let init = self.gaps || self.r.chance(1, 2);
                    let o = self.op(if init { "push_init".into() } else { "push".into() }, 2, || if init { p.push_init(v) } else { p.push(v) });
                    if let Some(Ok(())) = o {
                        self.owned.push(id);
                    }
                }
                2..=4 => {
                    let v: Vec<T> = (0..n).map(|_| self.value()).collect();
                    let init = self.gaps || self.r.chance(1, 2);
                    self.op(format!("push_slice_clone{} of {n}", if init { "_init" } else { "" }), n as u64 + 1, || if init { p.push_slice_clone_init(&v) } else { p.push_slice_clone(&v) });
                }
                5 => {
                    let mut d = self.value();
                    self.op("clone_item".into(), 2, || c.clone_item(&mut d));
                }
                6 => {
                    let mut d: Vec<T> = (0..n).map(|_| self.value()).collect();
                    self.op(format!("clone_slice of {n}"), n as u64 + 1, || c.clone_slice(&mut d));
                }
                7 if self.gaps => {
                    for _ in 0..1 + self.r.below(n.max(1) as u64) {
                        self.op("pop_move".into(), 0, || unsafe { c.pop_move() });
                    }
                }
                7 => {
                    self.op("peek_ref".into(), 0, || {
                        if c.peek_ref().is_some() {
                            unsafe { c.advance(1) };
                        }
                    });
                }
                _ => {
                    let w = w.as_mut().unwrap();
                    self.op("the worker goes on".into(), 0, || {
                        let a = w.available();
                        unsafe { w.advance(a - a / 3) };
                    });
                }
            }
        }
        if self.viol.is_some() {
            // (destroying it may crash)
            std::mem::forget((p, w, c));
        }
    }
}

fn one<T: Item>(seed: u64) -> Run<T> {
    ledger_reset();
    let mut r = Rng::new(seed);
    let lens: &[usize] = if cfg!(feature = "vmem") { &[4096] } else if cfg!(feature = "alloc") { &[2, 3, 4, 5, 8, 13, 40] } else { &[5] };
    let len = lens[r.below(lens.len() as u64) as usize];
    let (gaps, zeroed, three, kind) = (r.chance(1, 2), r.chance(1, 2), r.chance(1, 2), r.below(4));
    let mut s = Run::<T> { r, gaps, nkey: 0, owned: Vec::new(), log: Vec::new(), panics: 0, viol: None, item: std::marker::PhantomData };
    s.log.push(format!("len {len} of {}, {}{}", T::NAME, if gaps && zeroed { "zeroed" } else { "initialised" }, if three { ", with a worker" } else { "" }));
    #[cfg(feature = "alloc")]
    macro_rules! heap {
        ($ty:ident) => {{
            let buf = if gaps && zeroed { unsafe { $ty::<T>::new_zeroed(len) } } else { $ty::<T>::from((0..len).map(|_| s.value()).collect::<Vec<T>>()) };
            s.owned.extend(1..=ledger_made());
            if three {
                let (p, w, c) = buf.split_mut();
                s.session(p, Some(w), c, len);
            } else {
                let (p, c) = buf.split();
                s.session(p, None, c, len);
            }
        }};
    }
    #[cfg(not(feature = "vmem"))]
    macro_rules! stack {
        ($ty:ident) => {{
            let mut buf = std::mem::ManuallyDrop::new(if gaps && zeroed { unsafe { $ty::<T, 5>::new_zeroed() } } else { $ty::<T, 5>::from(std::array::from_fn::<T, 5, _>(|_| s.value())) });
            s.owned.extend(1..=ledger_made());
            if three {
                let (p, w, c) = buf.split_mut();
                s.session(p, Some(w), c, 5);
            } else {
                let (p, c) = buf.split();
                s.session(p, None, c, 5);
            }
            if s.viol.is_none() {
                unsafe { std::mem::ManuallyDrop::drop(&mut buf) };
            }
        }};
    }
    match kind {
        #[cfg(feature = "alloc")]
        0 => heap!(LocalHeapRB),
        #[cfg(feature = "alloc")]
        1 => heap!(ConcurrentHeapRB),
        #[cfg(not(feature = "vmem"))]
        2 => stack!(LocalStackRB),
        #[cfg(not(feature = "vmem"))]
        3 => stack!(ConcurrentStackRB),
        #[cfg(feature = "alloc")]
        _ => heap!(ConcurrentHeapRB),
        #[cfg(not(feature = "alloc"))]
        _ => stack!(ConcurrentStackRB),
    }
    if s.viol.is_none() && T::TRACKED {
        if let Some(e) = ledger_event() {
            s.viol = Some((if matches!(e, Ev::ZeroRead | Ev::ZeroDrop) { 'z' } else { 'l' }, format!("{e:?} when the buffer is released")));
        } else if let Some(i) = s.owned.iter().find(|i| ledger_lives(**i)) {
            s.viol = Some(('l', format!("value {i}, which the buffer has owned, has never been destroyed")));
        }
    }
    s
}

pub fn panics(a: &Args, rep: &mut Report) {
    let sorts = match a.s("lens") { "C08" => "l", "C09" => "z", _ => "zl" };
    let secs = a.u("secs", 2) as f64;
    let max = a.u("cases", u64::MAX);
    let t0 = Instant::now();
    let mut seeds = Rng::new(a.u("seed", 1) ^ (a.u("worker", 0) << 40) ^ 0xFA11);
    let only = a.0.get("case").and_then(|v| v.parse::<u64>().ok());
    while rep.evaluations < max && t0.elapsed().as_secs_f64() < secs {
        let seed = only.unwrap_or_else(|| seeds.next());
        CUR.store(seed, Relaxed);
        if a.has("announce") {
            eprintln!("CASE {seed}");
        }
        let (viol, log, panics) = match seed / 64 % 6 {
            0 => { let s = one::<Sm>(seed); (s.viol, s.log, s.panics) }
            1 => { let s = one::<Od>(seed); (s.viol, s.log, s.panics) }
            2 if a.has("sanitize") || cfg!(miri) => { let s = one::<Bx>(seed); (s.viol, s.log, s.panics) }
            _ => { let s = one::<It>(seed); (s.viol, s.log, s.panics) }
        };
        DONE.fetch_add(1, Relaxed);
        rep.evaluations += 1;
        rep.count("clones_which_panicked", panics);
        if panics > 0 {
            rep.nontrivial += 1;
            rep.distinct.insert(log.iter().flat_map(|l| l.bytes()).fold(7u64, |h, b| (h ^ b as u64).wrapping_mul(0x1000_0000_01b3)));
        }
        if rep.samples.is_empty() && panics > 1 {
            rep.samples.push(log.join("; "));
        }
        if let Some((sort, msg)) = viol {
            if sorts.contains(sort) {
                rep.viol = Some((format!("panics: {msg}"), format!("seq panics --case {seed} --cases 1\n{}\n{msg}", log.join("\n"))));
                break;
            }
            rep.count("deviations_of_other_properties", 1);
        }
        if only.is_some() {
            println!("{}", log.join("\n"));
            break;
        }
    }
}
