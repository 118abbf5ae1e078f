//! Session bodies other than plain scripts.

use crate::items::*;
use crate::model::*;
use crate::rng::Rng;
use crate::run::*;
use crate::world::*;
use std::task::Waker;

/// Pushes `n` items, slice-wise or item-wise.
fn fill<T: Item>(m: &mut Model<T>, world: &mut dyn World<T>, mut n: usize, slices: bool, r: &mut Rng) {
    while n > 0 && !m.stop {
        let k = if slices { 1 + r.below(n as u64) as usize } else { 1 };
        let (keys, mut v) = m.fresh_items(k);
        let inited = m.all_vals(Who::P, k);
        let op = if slices {
            match (r.below(2), inited) {
                (0, true) => Op::PushSlice(v),
                (_, true) => Op::PushSliceClone(v),
                (0, false) => Op::PushSliceInit(v),
                (_, false) => Op::PushSliceCloneInit(v),
            }
        } else if inited {
            Op::Push(v.pop().unwrap())
        } else {
            Op::PushInit(v.pop().unwrap())
        };
        m.attr = Attr { slice: slices, ..Attr::default() };
        let what = op.name();
        let ok = matches!(m.run(world, Who::P, op), Out::Yes);
        m.judge(Who::P, k, ok, what);
        if !ok {
            m.stop = true;
            return;
        }
        for (i, key) in keys.iter().enumerate() {
            let pos = m.loc[0] + i as u64;
            m.set_slot(pos, *key);
            m.set_hist(pos, *key);
        }
        let f = world.form(Who::P);
        m.moved(Who::P, k, f);
        n -= k;
    }
}

/// Consumes `n` items.
fn take<T: Item>(m: &mut Model<T>, world: &mut dyn World<T>, mut n: usize, r: &mut Rng) {
    while n > 0 && !m.stop {
        m.attr = Attr::default();
        if r.chance(1, 2) {
            let k = 1 + r.below(n as u64) as usize;
            m.attr.slice = true;
            if let Some(w) = m.window(world, Who::C, Op::PeekSlice(k), k) {
                unsafe { m.look(&w, k, Who::C, "peek_slice") };
                m.advance(world, Who::C, k);
                n -= k;
            } else {
                m.stop = true;
            }
        } else {
            let before = m.loc[2];
            m.step(world, Raw { c: code::CONS, a: 0, b: r.below(2) as u32 });
            if m.loc[2] == before {
                m.stop = true;
            }
            n -= 1;
        }
    }
}

fn probe_forms<T: Item>(m: &mut Model<T>, world: &mut dyn World<T>, w: Who, det: bool) {
    m.probe(world, w);
    if m.stop || !det || world.form(w) != Form::Sync {
        return;
    }
    m.run(world, w, Op::Detach);
    m.past.detached = true;
    m.probe(world, w);
    if !m.stop {
        m.run(world, w, Op::Attach);
        m.pubd[w.i()] = m.loc[w.i()];
    }
}

/// Every index, every filling, every position of the worker: all the windows of all the iterators.
/// Above a certain length, random states only.
pub fn windows<T: Item>(m: &mut Model<T>, world: &mut dyn World<T>, case: &Case) {
    let l = m.l;
    let mut r = Rng::new(case.seed);
    let all = l <= 12;
    let det = r.chance(1, 2);
    let rounds = if all { l * l } else { 2 + 400 / l };
    for round in 0..rounds {
        let (idx, n) = if all { (round / l, round % l) } else { (r.below(l as u64) as usize, r.below(l as u64) as usize) };
        // drain, then go to the index
        let left = (m.loc[0] - m.loc[2]) as usize;
        if m.three {
            let k = m.avail(Who::W);
            if k > 0 {
                m.advance(world, Who::W, k);
            }
        }
        take(m, world, left, &mut r);
        if l > 1 {
            while m.lidx(Who::C) != idx && !m.stop {
                let k = 1.max(((idx + l - m.lidx(Who::C)) % l).min(l - 1));
                let slices = r.chance(1, 2);
                fill(m, world, k, slices, &mut r);
                if m.stop {
                    return;
                }
                if m.three {
                    m.advance(world, Who::W, k);
                }
                take(m, world, k, &mut r);
            }
            let slices = round % 2 == 0;
            fill(m, world, n, slices, &mut r);
        } else if n > 0 {
            continue;
        }
        let steps = if m.three { n } else { 0 };
        for k in 0..=steps {
            m.refused = false;
            if !m.stop {
                m.sweep(world);
            }
            let pick = if all { 3 } else { r.below(3) as usize };
            for w in ALL {
                if (pick == 3 || pick == w.i()) && !m.stop {
                    probe_forms(m, world, w, det);
                }
            }
            if m.stop {
                return;
            }
            m.refused = false;
            m.sweep(world);
            if k < steps {
                let by = if all { 1 } else { 1 + r.below((steps - k) as u64) as usize };
                if m.avail(Who::W) < by {
                    break;
                }
                if r.chance(1, 2) {
                    if let Some(win) = m.window(world, Who::W, Op::Exact(by), by) {
                        unsafe { m.edit(&win, by, Who::W) };
                    }
                }
                m.advance(world, Who::W, by);
                if m.avail(Who::W) == 0 {
                    break;
                }
            }
        }
        m.stats.histories += 0;
    }
}

/// Right after the construction: length, availabilities, contents, capacity.
pub fn construct<T: Item>(m: &mut Model<T>, world: &mut dyn World<T>, case: &Case) {
    let mut r = Rng::new(case.seed);
    m.step_sum(world);
    if m.stop {
        return;
    }
    // Anything to consume? Nothing was pushed.
    m.attr = Attr::default();
    m.step(world, Raw { c: code::CONS, a: 0, b: r.below(7) as u32 });
    if m.stop {
        return;
    }
    // Address of the storage, then its contents.
    if m.l > 1 {
        let op = if m.all_vals(Who::P, 1) { Op::Item } else { Op::NextItemInit };
        m.window(world, Who::P, op, 1);
        if m.stop {
            return;
        }
        m.refused = false;
        m.attr = Attr::default();
        if m.base.is_some() {
            m.contents("");
            m.tr(1);
        }
    }
    if m.stop {
        return;
    }
    m.sweep_all = m.l <= 16;
    // Exactly l - 1 pushes, twice, from wherever.
    for round in 0..2 {
        for i in 0..m.l + 2 {
            let b = if i % 7 == 3 { 0 } else { 2 };
            if m.l > 300 && i > 20 && i < m.l - 20 {
                let k = m.avail(Who::P) - 10;
                fill(m, world, k, true, &mut r);
                continue;
            }
            if m.l > 300 && m.avail(Who::P) == 0 && i < m.l - 2 {
                continue;
            }
            m.step(world, Raw { c: code::PUSH, a: 0, b });
            if m.stop {
                return;
            }
        }
        m.step_sum(world);
        if m.stop {
            return;
        }
        if m.avail(Who::P) != 0 {
            let (a, l) = (m.avail(Who::P), m.l);
            m.bad(Cat::Construct, || format!("{} pushes have been accepted by a buffer of length {l}", l - 1 - a));
            return;
        }
        if m.three {
            let k = m.avail(Who::W);
            if k > 0 {
                m.advance(world, Who::W, k);
            }
        }
        let k = if round == 0 { m.avail(Who::C) } else { m.avail(Who::C).div_ceil(2) };
        take(m, world, k, &mut r);
        if m.stop {
            return;
        }
        m.refused = false;
        m.sweep(world);
        m.step_sum(world);
        if m.stop {
            return;
        }
    }
}

/// Gives each iterator a form, with something in the buffer.
pub fn forms<T: Item>(m: &mut Model<T>, world: &mut dyn World<T>, f: u8) {
    let mut r = Rng::new(f as u64);
    let n = m.avail(Who::P).min(2);
    fill(m, world, n, true, &mut r);
    for w in ALL {
        let k = f >> (2 * w.i()) & 3;
        if k & 2 != 0 && world.form(w) == Form::Sync {
            m.run(world, w, Op::ToAsync);
        }
        if k & 2 == 0 && world.form(w) == Form::Async {
            m.run(world, w, Op::ToSync);
        }
        if k & 1 != 0 {
            m.run(world, w, Op::Detach);
        }
    }
}

/// The script, with async operations which are polled any number of times while the others go on,
/// or dropped.
pub fn polls<T: Item>(m: &mut Model<T>, world: &mut dyn World<T>, case: &Case) {
    for raw in &case.script {
        if m.stop {
            return;
        }
        let mut r = Rng::new(raw.a as u64 | (raw.b as u64) << 32);
        let w = ALL[r.below(3) as usize];
        if r.chance(1, 4) || world.form(w) != Form::Async {
            if matches!(world.form(w), Form::Det | Form::ADet) && r.chance(1, 2) {
                m.run(world, w, Op::Attach);
                m.pubd[w.i()] = m.loc[w.i()];
            }
            m.step(world, *raw);
            continue;
        }
        one(m, world, w, &mut r);
        m.past.ops += 1;
        m.step += 1;
        if !m.stop {
            m.sweep(world);
        }
    }
}

fn one<T: Item>(m: &mut Model<T>, world: &mut dyn World<T>, w: Who, r: &mut Rng) {
    m.attr = Attr { asy: true, ..Attr::default() };
    m.past.asy = true;
    m.refused = false;
    let (a, b) = (r.next() as u32, r.next() as usize);
    let n = m.size(w, a).max(1);
    let rhs = 1 + b % m.l;
    let pick = r.below(match w { Who::P => 10, Who::W => 4, Who::C => 13 }) as usize;
    // (operation, sort: 0 exactly n slots, 1 all of them, 2 a multiple, keys of the values)
    let mut keys = Vec::new();
    let mut items = |m: &mut Model<T>, n| { let (k, v) = m.fresh_items(n); keys = k; v };
    let mut tracked = 0;
    let (op, sort, n) = match (w, pick) {
        (_, 0) => (Op::Item, 0, 1),
        (_, 1) => (Op::Exact(n), 0, n),
        (_, 2) => (Op::AvailSlice, 1, 1),
        (_, 3) => (Op::Multiple(rhs), 2, rhs),
        (Who::P, 4) | (Who::P, 8) => (Op::Push(items(m, 1).pop().unwrap()), 0, 1),
        (Who::P, 5) => (Op::PushSlice(items(m, n)), 0, n),
        (Who::P, 6) => (Op::PushSliceClone(items(m, n)), 0, n),
        (Who::P, 7) => (Op::NextItemMut, 0, 1),
        (Who::P, 9) if b % 2 == 0 => (Op::NextSlicesMut(n), 0, n),
        (Who::P, _) => (Op::NextItemInit, 0, 1),
        (_, 4) => (Op::PeekRef, 0, 1),
        (_, 5) => (Op::PeekSlice(n), 0, n),
        // an empty window is what the synchronous one yields, too
        (_, 6) => (Op::PeekAvail, 3, 0),
        (_, 7) | (_, 12) => (Op::Pop, 0, 1),
        (_, 8) => if m.keep { (Op::Pop, 0, 1) } else { (Op::PopMove, 0, 1) },
        (_, 9) => (Op::CopyItem(items(m, 1).pop().unwrap()), 0, 1),
        (_, 10) => (Op::CloneItem(items(m, 1).pop().unwrap()), 0, 1),
        (_, 11) => (Op::CopySlice(items(m, n)), 0, n),
        _ => (Op::CloneSlice(items(m, n)), 0, n),
    };
    if T::TRACKED {
        tracked = keys.len();
    }
    let init = matches!(op, Op::NextItemInit);
    let len = m.l;
    if w == Who::P && !init {
        // the slots it is going to get have to hold values
        let k = if sort == 0 { n.min(len) } else { len };
        if !m.all_vals(w, k) {
            return;
        }
    }
    let keep = m.keep;
    m.keep = keep || (w == Who::P && !init);
    let what = op.name();
    let first = m.avail(w);
    m.say(|| format!("{w:?}[Async].{what}({n}) ... ({first} available)"));
    // availability at the time of the last poll
    let mut at = 0usize;
    let mut pendings = 0u64;
    let mut dropped = false;
    let mut rr = r.clone();
    let needed = if sort == 1 { 1 } else { n };
    m.held = tracked;
    let waker = Waker::noop();
    let (out, polls) = {
        let m = &mut *m;
        let (at, pendings, dropped) = (&mut at, &mut pendings, &mut dropped);
        let mut poller = |world: &mut dyn World<T>, polls: u32| -> Option<Waker> {
            if polls > 0 {
                *pendings += 1;
                let avail = *at;
                m.say(|| format!("   poll {polls}: Pending ({avail} available)"));
                if avail >= needed {
                    m.attr = Attr { asy: true, ..Attr::default() };
                    m.bad(Cat::GrantUnder, || format!("{w:?}: {what} is still Pending when polled with {avail} slots available, it needs {needed}"));
                }
                if m.stop {
                    return None;
                }
                // the pending poll had no effect
                m.refused = true;
                m.sweep(world);
                m.refused = false;
                if m.stop {
                    return None;
                }
                if rr.chance(2, 3) {
                    for _ in 0..1 + rr.below(4) {
                        // the others, mostly those which help
                        let c = match (rr.below(4), w) {
                            (0, _) => rr.below(code::MAX as u64) as u8,
                            (1, _) => code::WORK_SLICE,
                            (_, Who::P) => 4 + rr.below(2) as u8,
                            (_, Who::W) => rr.below(2) as u8,
                            (_, Who::C) => rr.below(4) as u8,
                        };
                        if matches!(c, code::DROP | code::WAIT) {
                            continue;
                        }
                        let raw = Raw { c, a: rr.next() as u32, b: rr.next() as u32 };
                        m.step(world, raw);
                        if m.stop {
                            return None;
                        }
                    }
                }
                let now = m.avail(w);
                if (polls >= 6 && now < needed) || rr.chance(1, 10) {
                    *dropped = true;
                    return None;
                }
            }
            *at = m.avail(w);
            Some(waker.clone())
        };
        world.hold(w, op, &mut poller)
    };
    m.held = 0;
    m.keep = keep;
    m.attr = Attr { asy: true, prod: w == Who::P, slice: sort != 0 || n > 1, ..Attr::default() };
    m.stats.async_polls += polls as u64;
    m.stats.ops += 1;
    m.refused = dropped;
    let ready = !matches!(out, Out::No | Out::Unsup | Out::Into(false, _) | Out::IntoMany(false, _));
    m.say(|| format!("   after {polls} polls: {}", if ready { "Ready" } else { "dropped" }));
    if ready && pendings > 0 {
        m.stats.late_ready += 1;
    }
    m.stats.pendings += pendings;
    if !ready {
        m.stats.futures_dropped += 1;
    }
    if ready && at < needed {
        m.bad(Cat::GrantOver, || format!("{w:?}: {what} is Ready with {at} slots available, it needs {needed}"));
    }
    if m.stop {
        std::mem::forget(out);
        return;
    }
    let got_n = match sort { 0 => n, 1 | 3 => at, _ => at - at % n.max(1) };
    match out {
        Out::Unsup => {}
        Out::No => {}
        Out::Yes => {
            for (k, key) in keys.iter().enumerate() {
                let pos = m.loc[0] + k as u64;
                m.set_slot(pos, *key);
                m.set_hist(pos, *key);
            }
            m.moved(w, keys.len(), Form::Async);
        }
        Out::Dup(v) => {
            let got = unsafe { T::peek_raw(&*v) };
            m.value(w, 0, got, what);
            m.moved(w, 1, Form::Async);
        }
        Out::Val(v) => {
            let v = std::mem::ManuallyDrop::new(v);
            let got = unsafe { T::peek_raw(&*v) };
            m.value(w, 0, got, what);
            let pos = m.loc[2];
            m.set_slot(pos, T::EMPTY);
            m.past.zeroed = true;
            m.moved(w, 1, Form::Async);
            if got == 0 || got == BAD {
                m.stop = true;
            } else {
                drop(std::mem::ManuallyDrop::into_inner(v));
            }
        }
        Out::Into(ok, d) => dest(m, w, ok, vec![d], &keys, what),
        Out::IntoMany(ok, d) => dest(m, w, ok, d, &keys, what),
        Out::Ptr(_) | Out::Win(_) => {
            let win = match out { Out::Ptr(p) => Win { a: (p, 1), b: (std::ptr::null_mut(), 0) }, Out::Win(x) => x, _ => unreachable!() };
            if win.len() > at {
                m.bad(Cat::GrantOver, || format!("{w:?}: {what} handed out {} slots with {at} available", win.len()));
            }
            if m.stop || !m.shape(w, &win, got_n, what) || m.stop {
                return;
            }
            unsafe {
                match w {
                    Who::P => m.store(&win, got_n, w),
                    Who::W => {
                        m.look(&win, got_n, w, what);
                        m.edit(&win, got_n, w);
                    }
                    Who::C => m.look(&win, got_n, w, what),
                }
            }
            let k = if r.chance(3, 4) { got_n } else { r.below(got_n as u64 + 1) as usize };
            if k > 0 {
                m.advance(world, w, k);
            }
        }
        _ => unreachable!(),
    }
}

fn dest<T: Item>(m: &mut Model<T>, w: Who, ok: bool, d: Vec<T>, keys: &[u64], what: &str) {
    let mut poison = false;
    for (k, v) in d.iter().enumerate() {
        let got = unsafe { T::peek_raw(v) };
        poison |= got == 0 || got == BAD;
        if ok {
            m.value(w, k as u64, got, what);
        } else if got != keys[k] {
            m.bad(Cat::Refused, || format!("a pending {what} wrote {got:#x} into its destination, which held {:#x}", keys[k]));
        }
    }
    if ok {
        m.moved(w, d.len(), Form::Async);
    }
    if poison {
        std::mem::forget(d);
        m.stop = true;
    }
}
