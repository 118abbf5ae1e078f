//! The cells and the storages on their own: what is emptied, cloned, refilled and released.

use crate::items::*;
use crate::rng::Rng;
use crate::{Args, Report, CUR, DONE};
use mutringbuf::{Storage, UnsafeSyncCell};
#[cfg(feature = "alloc")]
use mutringbuf::HeapStorage;
#[cfg(not(feature = "vmem"))]
use mutringbuf::StackStorage;
use std::mem::ManuallyDrop;
use std::sync::atomic::Ordering::Relaxed;
use std::time::Instant;

type Cell<T> = UnsafeSyncCell<T>;

struct Judge {
    viol: Option<(char, String)>,
    log: Vec<String>,
    slots: u64,
}
impl Judge {
    /// Sort: 'z' an empty slot was used, 'l' ledger, 'c' contents.
    fn bad(&mut self, sort: char, msg: String) {
        if self.viol.is_none() {
            self.viol = Some((sort, msg));
        }
    }
    fn events(&mut self, what: &str) {
        if let Some(e) = ledger_event() {
            self.bad(if matches!(e, Ev::ZeroRead | Ev::ZeroDrop) { 'z' } else { 'l' }, format!("{e:?} after {what}"));
        }
    }
    /// The slots hold exactly those values (0: none), and nothing else is alive.
    fn compare<T: Item>(&mut self, what: &str, keys: &[u64], at: impl Fn(usize) -> *const T, others: usize) {
        if self.viol.is_some() {
            return;
        }
        self.events(what);
        for (i, k) in keys.iter().enumerate() {
            let got = unsafe { T::peek_raw(at(i)) };
            self.slots += 1;
            if got != *k {
                self.bad(if *k == 0 { 'z' } else { 'c' }, format!("slot {i} holds {got:#x} instead of {k:#x} after {what}"));
            }
            if Cell::<T>::check_zeroed(at(i)) != (*k == 0) {
                self.bad('z', format!("check_zeroed is wrong about slot {i}, which holds {k:#x}, after {what}"));
            }
        }
        let n = keys.iter().filter(|k| **k != 0).count() + others;
        if T::TRACKED && ledger_alive() != n {
            self.bad('l', format!("{} instances are alive, {n} values are stored, after {what}", ledger_alive()));
        }
    }
}

fn one<T: Item>(seed: u64, j: &mut Judge) {
    ledger_reset();
    let mut r = Rng::new(seed);
    #[cfg(feature = "vmem")]
    let n = 4096;
    #[cfg(not(feature = "vmem"))]
    let n = [1, 2, 3, 5, 8, 13][r.below(6) as usize];
    let mut nkey = 0u64;
    let mut fresh = || {
        nkey += 1;
        T::fresh(nkey * 5 + seed % 7)
    };
    let mut keys: Vec<u64> = (0..n).map(|_| fresh()).collect();
    let mut cells: Vec<Cell<T>> = Vec::with_capacity(n + r.below(3) as usize);
    for k in &mut keys {
        match r.below(5) {
            0 => {
                cells.push(Cell::default());
                *k = unsafe { T::peek_raw(cells.last().unwrap().as_mut_ptr()) };
            }
            _ => cells.push(T::make(*k).into()),
        }
    }
    j.log.push(format!("{n} cells of {}", T::NAME));
    j.compare::<T>("the construction", &keys, |i| cells[i].as_mut_ptr(), 0);
    let steps = r.below(3 * n.min(20) as u64 + 1);
    for _ in 0..steps {
        if j.viol.is_some() {
            break;
        }
        let i = r.below(n as u64) as usize;
        let full = keys[i] != 0;
        let what;
        unsafe {
            match (r.below(8), full) {
                (0..=2, true) => {
                    what = format!("take_inner of slot {i}");
                    let v = ManuallyDrop::new(cells[i].take_inner());
                    let got = T::peek_raw(&*v);
                    if got != keys[i] {
                        j.bad('c', format!("{what} yielded {got:#x} instead of {:#x}", keys[i]));
                    } else {
                        drop(ManuallyDrop::into_inner(v));
                    }
                    keys[i] = 0;
                }
                (3, true) => {
                    what = format!("inner_duplicate of slot {i}");
                    let v = ManuallyDrop::new(cells[i].inner_duplicate());
                    if T::peek_raw(&*v) != keys[i] {
                        j.bad('c', format!("{what} yielded {:#x} instead of {:#x}", T::peek_raw(&*v), keys[i]));
                    }
                }
                (4, true) => {
                    what = format!("inner_ref_mut of slot {i}");
                    cells[i].inner_ref_mut().edit();
                    keys[i] = T::edited(keys[i]);
                    if cells[i].inner_ref().key() != keys[i] {
                        j.bad('c', format!("{what}: the edit got lost"));
                    }
                }
                (5, true) => {
                    what = format!("assignment to slot {i}");
                    keys[i] = fresh();
                    *cells[i].as_mut_ptr() = T::make(keys[i]);
                }
                (6, _) => {
                    what = format!("the replacement of slot {i} by a clone of itself");
                    let c = cells[i].clone();
                    cells[i] = c;
                }
                (_, false) => {
                    what = format!("write to slot {i}");
                    keys[i] = fresh();
                    cells[i].as_mut_ptr().write(T::make(keys[i]));
                }
                _ => continue,
            }
        }
        if j.log.len() < 60 {
            j.log.push(what.clone());
        }
        j.compare::<T>(&what, &keys, |i| cells[i].as_mut_ptr(), 0);
    }
    let full = keys.iter().filter(|k| **k != 0).count();
    if j.viol.is_none() && r.chance(2, 3) {
        let copy = cells.clone();
        j.log.push("clone".into());
        j.compare::<T>("cloning them all (the original)", &keys, |i| cells[i].as_mut_ptr(), full);
        j.compare::<T>("cloning them all (the clone)", &keys, |i| copy[i].as_mut_ptr(), full);
        if j.viol.is_some() {
            std::mem::forget(copy);
        } else if r.chance(1, 2) {
            drop(std::mem::replace(&mut cells, copy));
        } else {
            drop(copy);
        }
        j.compare::<T>("dropping one of the two", &keys, |i| cells[i].as_mut_ptr(), 0);
    }
    if j.viol.is_some() {
        std::mem::forget(cells);
        return;
    }
    // a storage which takes them over
    fn look<T: Item, S: Storage<Item = T>>(j: &mut Judge, mut s: S, keys: &[u64], what: &str) {
        j.log.push(what.into());
        if s.len() != keys.len() {
            j.bad('c', format!("{what} has length {} instead of {}", s.len(), keys.len()));
        }
        j.compare::<T>(what, keys, |i| s[i].as_mut_ptr(), 0);
        let p = s.as_ptr() as *const T;
        j.compare::<T>(&format!("{what} (as_ptr)"), keys, |i| p.wrapping_add(i), 0);
        let p = s.as_mut_ptr() as *const T;
        j.compare::<T>(&format!("{what} (as_mut_ptr)"), keys, |i| p.wrapping_add(i), 0);
        if j.viol.is_some() {
            std::mem::forget(s);
        }
    }
    let plain = keys.iter().all(|k| *k != 0);
    let values = |cells: Vec<Cell<T>>| -> Vec<T> { cells.iter().map(|c| unsafe { c.take_inner() }).collect() };
    match r.below(6) {
        #[cfg(feature = "alloc")]
        0 => look::<T, _>(j, HeapStorage::from(cells), &keys, "HeapStorage::from(Vec<cell>)"),
        #[cfg(feature = "alloc")]
        1 => look::<T, _>(j, HeapStorage::from(cells.into_boxed_slice()), &keys, "HeapStorage::from(Box<[cell]>)"),
        #[cfg(feature = "alloc")]
        2 if plain => look::<T, _>(j, HeapStorage::from(values(cells)), &keys, "HeapStorage::from(Vec)"),
        #[cfg(feature = "alloc")]
        3 if plain => look::<T, _>(j, HeapStorage::from(values(cells).into_boxed_slice()), &keys, "HeapStorage::from(Box)"),
        #[cfg(not(feature = "vmem"))]
        4 if n == 5 => look::<T, _>(j, StackStorage::from(<[Cell<T>; 5]>::try_from(cells).ok().unwrap()), &keys, "StackStorage::from([cell; 5])"),
        #[cfg(not(feature = "vmem"))]
        5 if n == 5 && plain => look::<T, _>(j, StackStorage::from(<[T; 5]>::try_from(values(cells)).ok().unwrap()), &keys, "StackStorage::from([_; 5])"),
        _ => drop(cells),
    }
    if j.viol.is_none() {
        j.events("the release");
        if T::TRACKED && ledger_alive() != 0 {
            j.bad('l', format!("{} values have not been destroyed: {:x?}", ledger_alive(), ledger_survivors()));
        }
    }
}

pub fn cells(a: &Args, rep: &mut Report) {
    let sorts = match a.s("lens") { "C08" => "l", "C09" => "z", "C18" => "c", _ => "zlc" };
    let secs = a.u("secs", 2) as f64;
    let max = a.u("cases", u64::MAX);
    let t0 = Instant::now();
    let mut seeds = Rng::new(a.u("seed", 1) ^ (a.u("worker", 0) << 40) ^ 0xCE11);
    let only = a.0.get("case").and_then(|v| v.parse::<u64>().ok());
    let mut slots = 0;
    while rep.evaluations < max && t0.elapsed().as_secs_f64() < secs {
        let seed = only.unwrap_or_else(|| seeds.next());
        CUR.store(seed, Relaxed);
        if a.has("announce") {
            eprintln!("CASE {seed}");
        }
        let mut j = Judge { viol: None, log: Vec::new(), slots: 0 };
        match seed / 64 % 7 {
            0 => one::<It>(seed, &mut j),
            1 => one::<Sm>(seed, &mut j),
            2 => one::<Od>(seed, &mut j),
            3 => one::<Bx>(seed, &mut j),
            4 if !cfg!(miri) => one::<Pd>(seed, &mut j),
            6 if !cfg!(miri) => one::<Lg>(seed, &mut j),
            _ => one::<[u8; 3]>(seed, &mut j),
        }
        slots += j.slots;
        DONE.fetch_add(1, Relaxed);
        rep.evaluations += 1;
        if j.log.len() > 3 {
            rep.nontrivial += 1;
            let h = j.log.iter().flat_map(|l| l.bytes()).fold(7u64, |h, b| (h ^ b as u64).wrapping_mul(0x1000_0000_01b3));
            rep.distinct.insert(h);
        }
        if rep.samples.is_empty() && j.log.len() > 6 {
            rep.samples.push(j.log.join("; "));
        }
        if let Some((sort, msg)) = j.viol {
            if sorts.contains(sort) {
                rep.viol = Some((format!("cells: {msg}"), format!("seq cells --case {seed} --cases 1\n{}\n{msg}", j.log.join("\n"))));
                break;
            }
            rep.count("deviations_of_other_properties", 1);
        }
        if only.is_some() {
            println!("{}", j.log.join("\n"));
            break;
        }
    }
    rep.count("slots_compared", slots);
}
