//! Constructors which have to refuse, the recorded finding, and the comparison of the variants.

use crate::items::*;
use crate::lens;
use crate::model::*;
use crate::rng;
use crate::run::*;
use crate::{Args, Report, CUR, DONE};
#[cfg(feature = "alloc")]
use mutringbuf::iterators::MRBIterator;
#[cfg(not(feature = "vmem"))]
use mutringbuf::{ConcurrentStackRB, LocalStackRB};
#[cfg(feature = "alloc")]
use mutringbuf::{ConcurrentHeapRB, HeapSplit, LocalHeapRB};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use std::time::Instant;

/// Capacity 0 is refused with a panic.
pub fn zero(rep: &mut Report) {
    macro_rules! refuse {
        ($($e:expr),*) => {$({
            rep.evaluations += 1;
            rep.nontrivial += 1;
            rep.distinct.insert(rep.evaluations);
            rep.samples.push(concat!(stringify!($e), " panics").into());
            if catch_unwind(AssertUnwindSafe(|| std::mem::forget($e))).is_ok() && rep.viol.is_none() {
                rep.viol = Some((concat!("a buffer of length 0 is accepted by ", stringify!($e)).into(), concat!("seq zero: ", stringify!($e), " does not panic").into()));
            }
        })*};
    }
    #[cfg(feature = "alloc")]
    refuse!(
        ConcurrentHeapRB::<u64>::from(Vec::<u64>::new()), ConcurrentHeapRB::<u64>::from(Vec::<u64>::with_capacity(8)),
        ConcurrentHeapRB::<u64>::default(0), unsafe { ConcurrentHeapRB::<u64>::new_zeroed(0) },
        LocalHeapRB::<u64>::from(Vec::<u64>::new()), LocalHeapRB::<u64>::from(Vec::<u64>::with_capacity(8)),
        LocalHeapRB::<u64>::default(0), unsafe { LocalHeapRB::<u64>::new_zeroed(0) },
        ConcurrentHeapRB::<It>::from(Vec::<It>::new()), LocalHeapRB::<It>::from(Vec::<It>::new()),
        unsafe { ConcurrentHeapRB::<It>::new_zeroed(0) }, unsafe { LocalHeapRB::<It>::new_zeroed(0) }
    );
    #[cfg(not(feature = "vmem"))]
    refuse!(
        ConcurrentStackRB::<u64, 0>::from([]), unsafe { ConcurrentStackRB::<u64, 0>::new_zeroed() },
        LocalStackRB::<u64, 0>::from([]), unsafe { LocalStackRB::<u64, 0>::new_zeroed() },
        ConcurrentStackRB::<It, 0>::from([]), LocalStackRB::<It, 0>::from([]),
        ConcurrentStackRB::<u64, 0>::default(), LocalStackRB::<u64, 0>::default()
    );
}

/// The safe `reset_index` of a detached producer puts it on the consumer.
#[cfg(not(feature = "alloc"))]
pub fn known(_: &mut Report) {}
#[cfg(feature = "alloc")]
pub fn known(rep: &mut Report) {
    macro_rules! probe {
        ($ty:ident) => {{
            let (mut p, mut c) = $ty::from(vec![0u64; 4096]).split();
            for i in 0..3 {
                let _ = p.push(10 + i);
            }
            let before = (p.available(), c.available());
            let mut d = p.detach();
            d.reset_index();
            let mut p = d.attach();
            let after = (p.available(), c.available());
            rep.evaluations += 1;
            rep.nontrivial += 1;
            rep.distinct.insert(rep.evaluations);
            rep.count("known_finding_probes", 1);
            if before == (4092, 3) && (after.1 != 3 || after.0 + after.1 != 4095) {
                rep.count("known_finding_reproduced", 1);
            }
            rep.samples.push(format!("{}: producer/consumer availabilities {before:?} before, {after:?} after Detached<ProdIter>::reset_index + attach", stringify!($ty)));
        }};
    }
    probe!(ConcurrentHeapRB);
    probe!(LocalHeapRB);
}

/// Runs one and the same script on every variant and in every form, and compares what can be observed.
pub fn diff(a: &Args, rep: &mut Report) {
    let silent = Lens(|_, _, _| false);
    let mut p = lens::profile("C13");
    p.items = &["It", "u64"];
    p.lens = &STACK_LENS;
    p.inits = &[Init::From, Init::Zeroed];
    p.async_chance = 0;
    p.huge = false;
    for c in [code::DETACH, code::DETOP, code::ASYNC] {
        p.weights[c as usize] = 0;
    }
    if cfg!(feature = "vmem") {
        p.lens = &[4096];
    }
    let secs = a.u("secs", 5) as f64;
    let t0 = Instant::now();
    let mut stats = Stats::default();
    let mut seeds = rng::Rng::new(a.u("seed", 1) ^ (a.u("worker", 0) << 40) ^ 0xD1FF);
    let only = a.0.get("case").and_then(|v| v.parse::<u64>().ok());
    while t0.elapsed().as_secs_f64() < secs {
        let seed = only.unwrap_or_else(|| seeds.next());
        CUR.store(seed, Relaxed);
        let mut case = generate(seed, &p);
        case.sessions.truncate(1);
        case.to_async = 0;
        case.var = LEAN;
        if !cfg!(feature = "vmem") && !STACK_LENS.contains(&case.len) {
            case.len = STACK_LENS[case.len % 5];
        }
        // (variant, wrapped into detach/attach, polled)
        let mut forms: Vec<(Var, bool, u8)> = Vec::new();
        for v in VARS {
            let own = matches!(v, Var::CHeapAsync | Var::CStackAsync);
            if v == Var::CStackAsync && case.len != 5 {
                continue;
            }
            for (wrap, asy) in [(false, 0), (true, 0), (false, 7), (true, 7)] {
                if (v == LEAN && !wrap && asy == 0) || (own && asy != 0) {
                    continue;
                }
                // not everything, every time
                let often = matches!((v, wrap, asy), (Var::LHeap, false, 0) | (_, true, 0) | (Var::CHeap, _, 7) | (Var::LStack, false, 0) | (Var::CStack, false, 0) | (Var::CHeapAsync, false, 0) | (Var::CStackAsync, false, 0));
                if often || seed >> 7 & 1 == 0 {
                    forms.push((v, wrap, asy));
                }
            }
        }
        let before = stats.clone_counts();
        let mut go = |case: &Case, log| {
            let o = run(case, silent, &mut stats, log, true);
            (o.trace, o.viol.map(|v| v.msg), o.log)
        };
        let reference = go(&case, false);
        for (var, wrap, asy) in forms {
            let mut c = case.clone();
            c.var = var;
            c.wrap_detach = wrap;
            c.to_async = asy;
            let t = go(&c, false);
            rep.count("runs_compared", 1);
            rep.count("observations_compared", reference.0.len() as u64);
            if t.0 != reference.0 || t.1.is_some() != reference.1.is_some() {
                // shorten the common script
                let mut small = case.clone();
                let differs = |s: &Case, go: &mut dyn FnMut(&Case, bool) -> (Vec<u64>, Option<String>, Vec<String>)| {
                    let r = go(s, false);
                    let mut c = s.clone();
                    (c.var, c.wrap_detach, c.to_async) = (var, wrap, asy);
                    let t = go(&c, false);
                    t.0 != r.0 || t.1.is_some() != r.1.is_some()
                };
                let mut chunk = small.script.len();
                while chunk >= 1 {
                    let mut i = 0;
                    while i < small.script.len() {
                        let mut s = small.clone();
                        s.script.drain(i..(i + chunk).min(s.script.len()));
                        if differs(&s, &mut go) { small = s } else { i += chunk }
                    }
                    chunk /= 2;
                }
                let r = go(&small, true);
                let mut c = small.clone();
                (c.var, c.wrap_detach, c.to_async) = (var, wrap, asy);
                let t = go(&c, true);
                let i = r.0.iter().zip(&t.0).position(|(x, y)| x != y).unwrap_or(r.0.len().min(t.0.len()));
                rep.viol = Some((
                    format!("{var:?}{}{} behaves differently from a plain {:?} (observation {i}: {:x?} instead of {:x?}{})", if wrap { ", detached and attached" } else { "" }, if asy != 0 { ", polled" } else { "" }, LEAN,
                        t.0.get(i), r.0.get(i), t.1.as_ref().map_or(String::new(), |p| format!(", {p}"))),
                    format!("seq diff --case {seed}\n{}\n== reference\n{}\n== {var:?} wrapped={wrap} polled={asy}\n{}", small.describe(), r.2.join("\n"), t.2.join("\n")),
                ));
                break;
            }
        }
        let traced = reference.0.len();
        DONE.fetch_add(1, Relaxed);
        rep.evaluations += 1;
        let now = stats.clone_counts();
        if now[0] > before[0] && now[1] > before[1] && now[2] > before[2] {
            rep.nontrivial += 1;
            let h = reference.0.iter().fold(1u64, |h, x| (h ^ x).wrapping_mul(0x1000_0000_01b3).rotate_left(17));
            rep.distinct.insert(h);
        }
        if rep.samples.is_empty() {
            rep.samples.push(format!("{} on every variant and form: {traced} identical observations", case.describe()));
        }
        if rep.viol.is_some() || only.is_some() {
            break;
        }
    }
    rep.stats(&stats);
}

/// Rounding, contents and the two views of buffers with mirrored memory.
#[cfg(feature = "vmem")]
pub fn vmem(rep: &mut Report) {
    use mutringbuf::vmem_helper::{get_page_size_mul, page_size};
    let ps = unsafe { libc::sysconf(libc::_SC_PAGESIZE) } as usize;
    let mut bad = |rep: &mut Report, s: String| {
        if rep.viol.is_none() {
            rep.viol = Some((s.clone(), format!("seq (feature vmem) vmem\n{s}")));
        }
    };
    let mut eval = |rep: &mut Report, s: String| {
        rep.evaluations += 1;
        rep.nontrivial += 1;
        rep.distinct.insert(rep.evaluations);
        if rep.evaluations % 40 == 1 {
            rep.samples.push(s);
        }
    };
    if page_size() != ps {
        bad(rep, format!("page_size() = {} instead of {ps}", page_size()));
    }
    let sizes = [0, 1, 2, ps / 2, ps - 1, ps, ps + 1, 2 * ps - 1, 2 * ps, 2 * ps + 1, 3 * ps + 7, 5 * ps];
    for n in sizes {
        let want = n.div_ceil(ps) * ps;
        eval(rep, format!("get_page_size_mul({n}) = {want}"));
        if get_page_size_mul(n) != want {
            bad(rep, format!("get_page_size_mul({n}) = {} instead of {want}", get_page_size_mul(n)));
        }
    }
    macro_rules! each {
        ($ty:ident, $t:ty) => {{
            for n in sizes {
                if n == 0 { continue; }
                let want = n.div_ceil(ps) * ps;
                for z in [false, true] {
                    let buf: $ty<$t> = if z { unsafe { $ty::new_zeroed(n) } } else { <$ty<$t>>::default(n) };
                    let (mut p, mut c) = buf.split();
                    let what = format!("{}<{}>::{}({n})", stringify!($ty), stringify!($t), if z { "new_zeroed" } else { "default" });
                    eval(rep, format!("{what} has length {want}"));
                    if p.buf_len() != want || c.buf_len() != want {
                        bad(rep, format!("{what} has length {} instead of {want}", p.buf_len()));
                    } else if p.available() != want - 1 || c.available() != 0 {
                        bad(rep, format!("{what}: availabilities {} and {}", p.available(), c.available()));
                    }
                }
                // not a multiple of the page
                let keys = (0..n).map(|i| <$t>::fresh(i as u64));
                let v: Vec<$t> = keys.map(|k| <$t>::make(k)).collect();
                let r = catch_unwind(AssertUnwindSafe(|| $ty::<$t>::from(v)));
                let what = format!("{}<{}>::from a vector of {n}", stringify!($ty), stringify!($t));
                match r {
                    Err(_) if n % ps != 0 => eval(rep, format!("{what} is refused")),
                    Err(_) => bad(rep, format!("{what} panics")),
                    // Accepting it would be fine, with that length or more.
                    Ok(buf) => {
                        let (mut p, _c) = buf.split();
                        let l = p.buf_len();
                        eval(rep, format!("{what} has length {l}"));
                        if l != want {
                            bad(rep, format!("{what} has length {l} instead of {want}"));
                        } else if n % ps == 0 {
                            let base = p.get_workable().map(|x| x as *mut $t).unwrap();
                            for (view, at) in [("first", base), ("second", base.wrapping_add(l))] {
                                for i in 0..l {
                                    let got = unsafe { <$t>::peek_raw(at.add(i)) };
                                    if got != <$t>::fresh(i as u64) {
                                        bad(rep, format!("{what}: slot {i} of the {view} view holds {got:#x} instead of {:#x}", <$t>::fresh(i as u64)));
                                        break;
                                    }
                                }
                            }
                            rep.count("slots_compared", 2 * l as u64);
                            // every slot is written through one view and read through the other
                            for i in 0..l {
                                let k = <$t>::fresh(i as u64 * 7 + 3);
                                let (w, r) = if i % 2 == 0 { (base.wrapping_add(i), base.wrapping_add(l + i)) } else { (base.wrapping_add(l + i), base.wrapping_add(i)) };
                                unsafe {
                                    *w = <$t>::make(k);
                                    if <$t>::peek_raw(r) != k {
                                        bad(rep, format!("{what}: what is written to slot {i} through one view is not in the other"));
                                        break;
                                    }
                                }
                            }
                            rep.count("slots_written_through_one_view_and_read_through_the_other", l as u64);
                            let b = base as usize;
                            drop(p);
                            drop(_c);
                            let m = mapped(b, 2 * l * size_of::<$t>());
                            rep.count("views_unmapped", 2);
                            if m > 0 {
                                bad(rep, format!("{what}: {m} pages of the views are still mapped after the drop"));
                            }
                        }
                    }
                }
                ledger_reset();
            }
        }};
    }
    each!(ConcurrentHeapRB, u8);
    each!(ConcurrentHeapRB, u64);
    each!(ConcurrentHeapRB, [u8; 3]);
    each!(ConcurrentHeapRB, It);
    each!(LocalHeapRB, u16);
    each!(LocalHeapRB, It);
    each!(LocalHeapRB, u128);
}
