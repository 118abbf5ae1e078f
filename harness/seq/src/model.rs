//! The reference model of a session and the monitor which judges each operation against it.
//!
//! The model knows slots (`Empty` or the key of a value) and *logical* positions, which never
//! wrap: the consumer is at or behind the worker, the worker at or behind the producer, the
//! producer at most `len - 1` ahead of the consumer. It follows what the iterators actually did
//! (an operation which should have been refused moves the model, too), so that a first deviation
//! does not hide its consequences.

use crate::items::*;
use crate::world::*;
use mutringbuf::UnsafeSyncCell;
use std::mem::ManuallyDrop;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Cat {
    /// The consumer (or the worker) got something else than what the model says.
    Value,
    /// Something which was not released yet was granted for reading.
    Unreleased,
    GrantOver,
    GrantUnder,
    AvailOver,
    AvailUnder,
    AvailSum,
    Index,
    Published,
    Flags,
    Len,
    Shape,
    Content,
    Refused,
    Ledger,
    ZeroRead,
    ZeroDrop,
    Leak,
    Trace,
    Wake,
    Pending,
    Panic,
    Construct,
    Mirror,
    Map,
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Attr {
    pub slice: bool,
    pub asy: bool,
    pub det: bool,
    pub init: bool,
    pub prod: bool,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub cat: Cat,
    pub msg: String,
    pub step: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Raw {
    pub c: u8,
    pub a: u32,
    pub b: u32,
}

/// Raw operation codes.
pub mod code {
    pub const PUSH: u8 = 0;
    pub const PUSH_SLICE: u8 = 1;
    pub const WORK: u8 = 2;
    pub const WORK_SLICE: u8 = 3;
    pub const CONS: u8 = 4;
    pub const CONS_SLICE: u8 = 5;
    pub const AVAIL: u8 = 6;
    pub const RESET: u8 = 7;
    pub const DETACH: u8 = 8;
    pub const DETOP: u8 = 9;
    pub const ASYNC: u8 = 10;
    pub const DROP: u8 = 11;
    pub const ADVANCE: u8 = 12;
    pub const SIZES: u8 = 13;
    pub const WAIT: u8 = 14;
    pub const AVAIL_ALL: u8 = 15;
    pub const MAX: usize = 16;
}

#[derive(Default, Clone)]
pub struct Stats {
    pub histories: u64,
    pub ops: u64,
    pub granted: u64,
    pub refused: u64,
    pub delivered: u64,
    pub pushed: u64,
    pub edited: u64,
    pub wraps: u64,
    pub resets: u64,
    pub detached_moves: u64,
    pub async_polls: u64,
    pub avail_checked: u64,
    pub windows: u64,
    pub wrapped_windows: u64,
    pub slots_compared: u64,
    pub zeroed_stores: u64,
    pub replaced: u64,
    pub moved_out: u64,
    pub sessions: u64,
    pub resplits: u64,
    pub drops_mid: u64,
    pub instances: u64,
    pub other: u64,
    pub pendings: u64,
    pub mirrors_compared: u64,
    pub late_ready: u64,
    pub futures_dropped: u64,
    pub op_counts: Counts,
    pub states: std::collections::HashSet<u64>,
}

impl Stats {
    pub fn clone_counts(&self) -> [u64; 5] {
        [self.refused, self.delivered, self.wraps, self.wrapped_windows, self.late_ready]
    }
}

#[derive(Clone)]
pub struct Counts(pub [[u64; 2]; 64]);
impl Default for Counts {
    fn default() -> Self {
        Counts([[0; 2]; 64])
    }
}

/// Which deviations are judged: those the property is about.
#[derive(Clone, Copy)]
pub struct Lens(pub fn(Cat, Attr, Past) -> bool);

/// What has happened in the session so far.
#[derive(Clone, Copy, Default, Debug)]
pub struct Past {
    pub reset: bool,
    pub detached: bool,
    pub asy: bool,
    pub ops: usize,
    pub session: usize,
    pub zeroed: bool,
    /// An iterator has been dropped.
    pub ending: bool,
}

pub struct Model<'e, T: Item> {
    pub l: usize,
    pub three: bool,
    pub pubd: [u64; 3],
    pub loc: [u64; 3],
    pub alive: [bool; 3],
    pub slots: Vec<u64>,
    pub hist: Vec<u64>,
    pub base: Option<*mut T>,
    pub vals: usize,
    pub held: usize,
    nkey: u64,
    pub past: Past,
    pub lens: Lens,
    pub stats: &'e mut Stats,
    pub diverged: bool,
    /// Reached a point from which going on is not safe.
    pub stop: bool,
    pub viol: Option<Viol>,
    pub step: usize,
    pub attr: Attr,
    pub refused: bool,
    /// The consumer leaves no slot empty.
    pub keep: bool,
    pub log: Option<Vec<String>>,
    pub trace: Option<Vec<u64>>,
    pub sweep_all: bool,
    /// Every now and then only.
    pub sweep_some: bool,
    sweeps: u32,
    pub last_base: Option<*mut T>,
    /// A common operation is wrapped into detach/attach, where possible.
    pub wrap_detach: bool,
    /// The buffer goes away with its last iterator.
    pub owned: bool,
}

fn opcode<T>(op: &Op<T>) -> usize {
    use Op::*;
    match op {
        Push(_) => 0, PushInit(_) => 1, PushSlice(_) => 2, PushSliceInit(_) => 3, PushSliceClone(_) => 4, PushSliceCloneInit(_) => 5,
        NextItemMut => 6, NextItemInit => 7, NextSlicesMut(_) => 8, Avail => 9, Advance(_) => 10, WaitFor(_) => 11, Item => 12,
        Exact(_) => 13, AvailSlice => 14, Multiple(_) => 15, Detach => 16, Attach => 17, GoBack(_) => 18, SetIndex(_) => 19,
        ResetIndex => 20, SyncIndex => 21, ToAsync => 22, ToSync => 23, Drop => 24, PeekRef => 25, PeekSlice(_) => 26, PeekAvail => 27,
        Pop => 28, PopMove => 29, CopyItem(_) => 30, CloneItem(_) => 31, CopySlice(_) => 32, CloneSlice(_) => 33,
    }
}
pub const OP_NAMES: [&str; 34] = [
    "push", "push_init", "push_slice", "push_slice_init", "push_slice_clone", "push_slice_clone_init", "get_next_item_mut",
    "get_next_item_mut_init", "get_next_slices_mut", "available", "advance", "wait_for", "get_workable", "get_workable_slice_exact",
    "get_workable_slice_avail", "get_workable_slice_multiple_of", "detach", "attach", "go_back", "set_index", "reset_index", "sync_index",
    "from_sync", "into_sync", "drop", "peek_ref", "peek_slice", "peek_available", "pop", "pop_move", "copy_item", "clone_item", "copy_slice",
    "clone_slice",
];

impl<'e, T: Item> Model<'e, T> {
    pub fn new(l: usize, init: Vec<u64>, lens: Lens, stats: &'e mut Stats) -> Self {
        assert_eq!(init.len(), l);
        let vals = init.iter().filter(|k| **k != 0).count();
        Self {
            l,
            three: false,
            pubd: [0; 3],
            loc: [0; 3],
            alive: [false; 3],
            slots: init,
            hist: Vec::new(),
            base: None,
            vals,
            held: 0,
            nkey: 0,
            past: Past::default(),
            lens,
            stats,
            diverged: false,
            stop: false,
            viol: None,
            step: 0,
            attr: Attr::default(),
            refused: false,
            keep: false,
            log: None,
            trace: None,
            sweep_all: true,
            sweep_some: false,
            sweeps: 0,
            last_base: None,
            wrap_detach: false,
            owned: false,
        }
    }

    pub fn say(&mut self, s: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            l.push(s());
        }
    }

    pub fn bad(&mut self, cat: Cat, msg: impl FnOnce() -> String) {
        if self.viol.is_some() {
            return;
        }
        if (self.lens.0)(cat, self.attr, self.past) {
            let m = msg();
            self.say(|| format!("  !! {cat:?}: {m}"));
            self.viol = Some(Viol { cat, msg: m, step: self.step });
            self.stop = true;
        } else {
            self.stats.other += 1;
            self.diverged = true;
        }
    }

    pub fn tr(&mut self, x: u64) {
        if let Some(t) = &mut self.trace {
            t.push(x);
        }
    }

    // ------------------------------------------------------------------------- positions

    /// Position of the iterator ahead, as published.
    pub fn ahead(&self, w: Who) -> u64 {
        match w {
            Who::P => self.pubd[2] + self.l as u64 - 1,
            Who::W => self.pubd[0],
            Who::C => if self.three { self.pubd[1] } else { self.pubd[0] },
        }
    }
    pub fn avail(&self, w: Who) -> usize {
        self.ahead(w).saturating_sub(self.loc[w.i()]) as usize
    }
    pub fn idx(&self, pos: u64) -> usize {
        (pos % self.l as u64) as usize
    }
    pub fn lidx(&self, w: Who) -> usize {
        self.idx(self.loc[w.i()])
    }

    /// The iterators of a new session start from the published positions.
    pub fn begin(&mut self, three: bool, world: &dyn World<T>) {
        self.three = three;
        self.alive = [true, three, true];
        self.loc = self.pubd;
        self.past.session += 1;
        self.past.ops = 0;
        self.stats.sessions += 1;
        if self.past.session > 1 {
            self.stats.resplits += 1;
        }
        if three {
            // The worker of a new session may start from anywhere between the consumer and what an earlier worker has released.
            if let Some(v) = world.view(Who::W) {
                let c = self.pubd[2];
                let d = (c..=self.pubd[0]).find(|p| self.idx(*p) == v.index);
                match d {
                    Some(p) if p > c.max(self.pubd[1]) => {
                        let n = p - c.max(self.pubd[1]);
                        self.bad(Cat::Unreleased, || format!("a new session lets the consumer have {n} values no worker has released"));
                    }
                    Some(p) => {
                        self.pubd[1] = p;
                        self.loc[1] = p;
                    }
                    None => self.bad(Cat::Index, || format!("the worker of a new session starts from {}", v.index)),
                }
            }
        }
        { let l = self.l; self.say(|| format!("-- split{} len={}", if three { "_mut" } else { "" }, l)); }
        self.sweep(world);
    }

    pub fn fresh(&mut self) -> u64 {
        self.nkey += 1;
        T::fresh(self.nkey)
    }
    pub fn fresh_items(&mut self, n: usize) -> (Vec<u64>, Vec<T>) {
        let k: Vec<u64> = (0..n).map(|_| self.fresh()).collect();
        let v = k.iter().map(|k| T::make(*k)).collect();
        (k, v)
    }

    pub fn set_slot(&mut self, pos: u64, key: u64) {
        let i = self.idx(pos);
        let s = &mut self.slots[i];
        if (*s == 0) != (key == 0) {
            if key == 0 { self.vals -= 1 } else { self.vals += 1 }
        }
        *s = key;
    }
    pub fn set_hist(&mut self, pos: u64, key: u64) {
        let p = pos as usize;
        if self.hist.len() <= p {
            self.hist.resize(p + 1, 0);
        }
        self.hist[p] = key;
    }
    pub fn all_vals(&self, w: Who, n: usize) -> bool {
        (0..n as u64).all(|k| self.slots[self.idx(self.loc[w.i()] + k)] != 0)
    }

    /// `count` slots have been passed by an iterator.
    pub fn moved(&mut self, w: Who, count: usize, form: Form) {
        let from = self.loc[w.i()];
        if w == Who::P {
            for pos in from..from + count as u64 {
                let k = self.slots[self.idx(pos)];
                self.set_hist(pos, k);
            }
            self.stats.pushed += count as u64;
        }
        let wraps = (from + count as u64) / self.l as u64 - from / self.l as u64;
        self.stats.wraps += wraps;
        self.loc[w.i()] += count as u64;
        if matches!(form, Form::Sync | Form::Async) {
            self.pubd[w.i()] = self.loc[w.i()];
        } else {
            self.stats.detached_moves += 1;
        }
    }

    // ------------------------------------------------------------------------- execution

    pub fn run(&mut self, world: &mut dyn World<T>, w: Who, op: Op<T>) -> Out<T> {
        let f = world.form(w);
        self.attr.det |= matches!(f, Form::Det | Form::ADet);
        self.attr.asy |= f == Form::Async;
        self.attr.prod = w == Who::P;
        if matches!(f, Form::Async | Form::ADet) {
            self.past.asy = true;
        }
        let oc = opcode(&op);
        let name = op.name();
        let arg = op.arg();
        let r = world.exec(w, op);
        if oc == 24 {
            self.past.ending = true;
        }
        self.stats.ops += 1;
        if f == Form::Async {
            self.stats.async_polls += 1;
        }
        let ok = match &r {
            Out::Unsup => return r,
            Out::No | Out::Back(_) | Out::Into(false, _) | Out::IntoMany(false, _) => false,
            _ => true,
        };
        self.stats.op_counts.0[oc][ok as usize] += 1;
        if self.log.is_some() {
            let d = match &r {
                Out::N(n) => format!("{n}"),
                Out::Win(x) => format!("window of {}+{}", x.a.1, x.b.1),
                _ => (if ok { "ok" } else { "refused" }).into(),
            };
            self.say(|| format!("{w:?}[{f:?}].{name}({arg}) -> {d}"));
        }
        r
    }

    /// Judges whether a request for `n` slots had to be granted.
    pub fn judge(&mut self, w: Who, n: usize, granted: bool, what: &str) {
        let av = self.avail(w);
        self.tr(0x100 + granted as u64);
        if granted { self.stats.granted += 1 } else { self.stats.refused += 1 }
        self.refused = !granted;
        if n == 0 {
            return;
        }
        if granted && n > av {
            self.bad(Cat::GrantOver, || format!("{w:?}: {what} granted {n} slots, {av} are available"));
            if w != Who::P {
                self.bad(Cat::Unreleased, || format!("{w:?}: {what} handed out {n} slots, only {av} had been released by the iterator ahead"));
            }
        }
        if granted && n > self.l {
            self.stop = true;
        }
        if !granted && n <= av {
            self.bad(Cat::GrantUnder, || format!("{w:?}: {what} refused {n} slots, {av} are available"));
        }
    }

    /// Checks the geometry of a window of `n` slots. False if touching it may not be safe.
    pub fn shape(&mut self, w: Who, win: &Win<T>, n: usize, what: &str) -> bool {
        self.stats.windows += 1;
        self.tr(0x10000 + ((win.a.1 as u64) << 20) + win.b.1 as u64);
        let idx = self.lidx(w);
        let sz = size_of::<T>();
        if win.len() != n {
            self.bad(Cat::Shape, || format!("{w:?}: {what}: window of {} slots instead of {n}", win.len()));
            return false;
        }
        if n == 0 {
            return true;
        }
        let off = |p: *mut T, b: *mut T| (p as isize).wrapping_sub(b as isize);
        let vmem = cfg!(feature = "vmem");
        let (ha, hb) = if vmem { (n, 0) } else { (n.min(self.l - idx), n.saturating_sub(self.l - idx)) };
        if hb > 0 || (vmem && idx + n > self.l) {
            self.stats.wrapped_windows += 1;
        }
        if (win.a.1, win.b.1) != (ha, hb) {
            { let l = self.l; self.bad(Cat::Shape, || format!("{w:?}: {what}: {n} slots from index {idx} of {} split as {}+{} instead of {ha}+{hb}", l, win.a.1, win.b.1)); }
        }
        let base = match self.base {
            Some(b) => b,
            None => {
                // First address seen: that of the slot the iterator is on.
                let b = if win.a.1 > 0 { win.a.0.wrapping_sub(idx) } else { win.b.0.wrapping_sub(idx) };
                self.base = Some(b);
                self.last_base = Some(b);
                b
            }
        };
        let bytes = (self.l * sz) as isize;
        let mut safe = true;
        for (k, p) in [(0usize, win.a), (win.a.1, win.b)] {
            if p.1 == 0 {
                continue;
            }
            let want = (((idx + k) % self.l) * sz) as isize;
            let got = off(p.0, base);
            let end = got + (p.1 * sz) as isize;
            let limit = if vmem { 2 * bytes } else { bytes };
            if got < 0 || end > limit || got % sz.max(1) as isize != 0 {
                safe = false;
            }
            if got != want && !(vmem && got == want + bytes) {
                { let l = self.l; self.bad(Cat::Shape, || format!("{w:?}: {what}: {n} slots from index {idx} of {}: a part is at byte {got} instead of {want} of the storage", l)); }
            } else if !safe {
                self.bad(Cat::Shape, || format!("{w:?}: {what}: a part of {} slots at byte {got} leaves the storage of {bytes} bytes", p.1));
            }
        }
        if !safe {
            self.stop = true;
        }
        safe
    }

    pub fn single(&mut self, w: Who, p: *mut T, what: &str) -> bool {
        self.shape(w, &Win { a: (p, 1), b: (std::ptr::null_mut(), 0) }, 1, what)
    }

    /// Judges a value read by `w` `k` positions after its own.
    pub fn value(&mut self, w: Who, k: u64, got: u64, what: &str) {
        let pos = self.loc[w.i()] + k;
        self.tr(got);
        if w == Who::P {
            return;
        }
        let want = self.hist.get(pos as usize).copied().unwrap_or(0);
        if w == Who::C {
            self.stats.delivered += 1;
        }
        if got != want {
            self.bad(Cat::Value, || format!("{w:?}: {what} yielded {got:#x} at position {pos}, expected {want:#x}"));
        }
    }

    // ------------------------------------------------------------------------- steps

    /// Stores into a producer's window and returns the keys.
    pub unsafe fn store(&mut self, win: &Win<T>, n: usize, w: Who) {
        for k in 0..n {
            let key = self.fresh();
            let p = win.at(k);
            let pos = self.loc[w.i()] + k as u64;
            if UnsafeSyncCell::check_zeroed(p) {
                p.write(T::make(key));
                self.stats.zeroed_stores += 1;
            } else if key % 2 == 0 && T::IS_COPY {
                (*p).set_key(key);
            } else {
                *p = T::make(key);
                self.stats.replaced += 1;
            }
            self.set_slot(pos, key);
            self.set_hist(pos, key);
        }
    }
    pub unsafe fn edit(&mut self, win: &Win<T>, n: usize, w: Who) {
        for k in 0..n {
            let p = win.at(k);
            let pos = self.loc[w.i()] + k as u64;
            let key = T::peek_raw(p);
            if key == 0 || key == BAD {
                self.bad(Cat::Value, || format!("{w:?}: a granted slot (position {pos}) holds {}", if key == 0 { "nothing" } else { "garbage" }));
                self.stop = true;
                return;
            }
            (*p).edit();
            let want = self.hist.get(pos as usize).copied().unwrap_or(0);
            if want != 0 && want != BAD {
                self.set_hist(pos, T::edited(want));
                self.set_slot(pos, T::edited(want));
            }
            self.stats.edited += 1;
        }
    }
    pub unsafe fn look(&mut self, win: &Win<T>, n: usize, w: Who, what: &str) {
        for k in 0..n {
            let got = T::peek_raw(win.at(k));
            self.value(w, k as u64, got, what);
        }
    }

    pub fn advance(&mut self, world: &mut dyn World<T>, w: Who, n: usize) {
        if self.stop {
            return;
        }
        let wrap = self.wrap_detach && world.form(w) == Form::Async;
        if wrap {
            self.run(world, w, Op::Detach);
        }
        let f = world.form(w);
        match self.run(world, w, Op::Advance(n)) {
            Out::Unsup => {}
            _ => self.moved(w, n, f),
        }
        if wrap {
            self.run(world, w, Op::Attach);
            self.pubd[w.i()] = self.loc[w.i()];
        }
    }

    /// Executes a request for a window and judges it.
    pub fn window(&mut self, world: &mut dyn World<T>, w: Who, op: Op<T>, n: usize) -> Option<Win<T>> {
        let what = op.name();
        match self.run(world, w, op) {
            Out::Unsup => None,
            Out::No => {
                self.judge(w, n, false, what);
                None
            }
            Out::Ptr(p) => {
                self.judge(w, n, true, what);
                let win = Win { a: (p, 1), b: (std::ptr::null_mut(), 0) };
                (!self.stop && self.single(w, p, what) && !self.stop).then_some(win)
            }
            Out::Win(win) => {
                self.judge(w, n, true, what);
                (!self.stop && self.shape(w, &win, n, what) && !self.stop).then_some(win)
            }
            _ => unreachable!(),
        }
    }

    /// Number of slots a step asks for: around what is available, more often than not.
    pub fn size(&self, w: Who, a: u32) -> usize {
        let av = self.avail(w);
        match a % 8 {
            0 => av,
            1 => av + 1,
            2 => 1,
            3 => (a as usize / 8) % (self.l + 3),
            4 => av.saturating_sub(1),
            5 => { // up to the physical end
                let i = self.lidx(w);
                self.l - i
            }
            _ => if av > 0 { 1 + (a as usize / 8) % av } else { 1 + (a as usize / 8) % 2 },
        }
    }

    /// The same, for requests which need not be accompanied by as many items: sometimes absurd.
    fn size_or_more(&self, w: Who, a: u32) -> usize {
        if a / 64 % 24 != 0 {
            return self.size(w, a);
        }
        let i = self.lidx(w);
        match a % 8 {
            0 | 1 => usize::MAX,
            2 => usize::MAX - i,
            3 if i > 0 => usize::MAX - i + 1,
            4 => usize::MAX / 2 + 1,
            5 => usize::MAX - self.l + 1,
            6 => (1 << 32) + self.avail(w),
            _ => (1 << 16) + self.avail(w),
        }
    }

    fn wrap_in(&mut self, world: &mut dyn World<T>, w: Who) -> bool {
        if self.wrap_detach && world.form(w) == Form::Sync {
            self.run(world, w, Op::Detach);
            self.past.detached = true;
            return true;
        }
        false
    }
    fn wrap_out(&mut self, world: &mut dyn World<T>, w: Who, wrapped: bool) {
        if wrapped && !self.stop {
            self.run(world, w, Op::Attach);
            self.pubd[w.i()] = self.loc[w.i()];
        }
    }

    pub fn step(&mut self, world: &mut dyn World<T>, r: Raw) {
        use code::*;
        self.attr = Attr::default();
        self.refused = false;
        let (a, b) = (r.a, r.b);
        match r.c {
            PUSH => self.step_push(world, a, b),
            PUSH_SLICE => self.step_push_slice(world, a, b),
            WORK => self.step_item(world, Who::W, b),
            WORK_SLICE => self.step_slice(world, Who::W, a, b),
            CONS => self.step_cons(world, b),
            CONS_SLICE => self.step_cons_slice(world, a, b),
            AVAIL => {
                let w = ALL[a as usize % 3];
                self.step_avail(world, w);
            }
            AVAIL_ALL => self.step_sum(world),
            RESET => {
                let w = if a % 2 == 0 { Who::C } else { Who::W };
                if matches!(world.form(w), Form::Sync | Form::Async) {
                    if !matches!(self.run(world, w, Op::ResetIndex), Out::Unsup) {
                        self.loc[w.i()] = self.ahead(w);
                        self.pubd[w.i()] = self.loc[w.i()];
                        self.past.reset = true;
                        self.stats.resets += 1;
                    }
                }
            }
            DETACH => {
                let w = ALL[a as usize % 3];
                match world.form(w) {
                    Form::Sync | Form::Async => {
                        self.run(world, w, Op::Detach);
                        self.past.detached = true;
                    }
                    Form::Det | Form::ADet => {
                        self.run(world, w, Op::Attach);
                        self.pubd[w.i()] = self.loc[w.i()];
                    }
                    Form::Gone => {}
                }
            }
            DETOP => self.step_det(world, a, b),
            ASYNC => {
                let w = ALL[a as usize % 3];
                match world.form(w) {
                    Form::Sync => { self.run(world, w, Op::ToAsync); }
                    Form::Async => { self.run(world, w, Op::ToSync); }
                    _ => {}
                }
            }
            DROP => {
                let w = ALL[a as usize % 3];
                if world.form(w) != Form::Gone {
                    self.run(world, w, Op::Drop);
                    self.alive[w.i()] = false;
                    self.stats.drops_mid += 1;
                    self.loc[w.i()] = self.pubd[w.i()];
                    self.released();
                }
            }
            ADVANCE => {
                let w = ALL[a as usize % 3];
                let av = self.avail(w);
                if av > 0 && world.form(w) != Form::Gone {
                    let n = 1 + (b as usize) % av;
                    if w != Who::P || self.all_vals(w, n) {
                        let x = self.wrap_in(world, w);
                        self.advance(world, w, n);
                        self.wrap_out(world, w, x);
                    }
                }
            }
            SIZES => {
                let w = ALL[a as usize % 3];
                if matches!(world.form(w), Form::Sync | Form::Det | Form::Async) {
                    let from = b as usize % 3;
                    for n in from..=(self.l + 1).min(from + 40) {
                        // slices of empty slots are never formed
                        if w == Who::P && (n > self.l || !self.all_vals(w, n)) && n <= self.avail(w) {
                            continue;
                        }
                        self.attr.slice = true;
                        let op = match (w, b / 3 % 3) {
                            (Who::C, 0) if world.form(w) != Form::Det => Op::PeekSlice(n),
                            (Who::P, 0) if world.form(w) != Form::Det => Op::NextSlicesMut(n),
                            _ => Op::Exact(n),
                        };
                        if let Some(win) = self.window(world, w, op, n) {
                            if w != Who::P {
                                unsafe { self.look(&win, n, w, "window") };
                            }
                        }
                        if self.stop {
                            return;
                        }
                    }
                }
            }
            WAIT => {
                let w = ALL[a as usize % 3];
                let av = self.avail(w);
                if matches!(world.form(w), Form::Sync | Form::Det | Form::Async) && !self.diverged {
                    self.run(world, w, Op::WaitFor(b as usize % (av + 1)));
                }
            }
            _ => {}
        }
        self.past.ops += 1;
        if !self.stop {
            self.sweep(world);
        }
        self.step += 1;
    }

    pub fn step_avail(&mut self, world: &mut dyn World<T>, w: Who) -> Option<usize> {
        let x = self.wrap_in(world, w);
        let r = self.run(world, w, Op::Avail);
        let r = match r {
            Out::N(n) => {
                self.stats.avail_checked += 1;
                self.tr(0x200 + n as u64);
                let av = self.avail(w);
                if n > av {
                    self.bad(Cat::AvailOver, || format!("{w:?}: available() = {n}, {av} are available"));
                }
                if n < av {
                    self.bad(Cat::AvailUnder, || format!("{w:?}: available() = {n}, {av} are available"));
                }
                Some(n)
            }
            _ => None,
        };
        self.wrap_out(world, w, x);
        r
    }

    pub fn step_sum(&mut self, world: &mut dyn World<T>) {
        let det = ALL.iter().any(|w| matches!(world.form(*w), Form::Det | Form::ADet));
        let mut sum = 0;
        let mut all = true;
        for w in ALL {
            if w == Who::W && !self.three {
                continue;
            }
            match self.step_avail(world, w) {
                Some(n) => sum += n,
                None => all = false,
            }
            if self.stop {
                return;
            }
        }
        if all && !det && sum != self.l - 1 {
            { let l = self.l; self.bad(Cat::AvailSum, || format!("the availabilities sum to {sum}, the length is {}", l)); }
        }
    }

    fn step_push(&mut self, world: &mut dyn World<T>, a: u32, b: u32) {
        let w = Who::P;
        let f = world.form(w);
        let inited = self.all_vals(w, 1);
        match f {
            Form::Gone | Form::ADet => return,
            Form::Det => return self.step_item(world, w, b),
            _ => {}
        }
        let kind = match b % 8 {
            0 | 1 => if inited { 0 } else { 1 },
            2 | 3 => 1,
            4 => if inited { 2 } else { 3 },
            5 | 6 => 3,
            _ => if inited { 4 } else { 1 },
        };
        let _ = a;
        match kind {
            0 | 1 => {
                let key = self.fresh();
                let v = T::make(key);
                let op = if kind == 0 { Op::Push(v) } else { Op::PushInit(v) };
                self.attr.init = kind == 1;
                let what = op.name();
                match self.run(world, w, op) {
                    Out::Yes => {
                        self.judge(w, 1, true, what);
                        if inited { self.stats.replaced += 1 } else { self.stats.zeroed_stores += 1 }
                        let pos = self.loc[0];
                        self.set_slot(pos, key);
                        self.moved(w, 1, f);
                    }
                    Out::Back(v) => {
                        self.judge(w, 1, false, what);
                        let got = unsafe { T::peek_raw(&v) };
                        if got != key {
                            self.bad(Cat::Refused, || format!("{what} refused {key:#x} and handed back {got:#x}"));
                        }
                        if got == 0 || got == BAD {
                            std::mem::forget(v);
                        }
                    }
                    Out::No => self.judge(w, 1, false, what),
                    _ => unreachable!(),
                }
            }
            _ => {
                let op = match kind { 2 => Op::NextItemMut, 3 => Op::NextItemInit, _ => Op::Item };
                let x = if kind == 4 { self.wrap_in(world, w) } else { false };
                if let Some(win) = self.window(world, w, op, 1) {
                    unsafe { self.store(&win, 1, w) };
                    // not always advanced: asked for again, later
                    if b / 8 % 8 != 0 {
                        self.advance(world, w, 1);
                    }
                }
                self.wrap_out(world, w, x);
            }
        }
    }

    fn step_push_slice(&mut self, world: &mut dyn World<T>, a: u32, b: u32) {
        let w = Who::P;
        let f = world.form(w);
        match f {
            Form::Gone | Form::ADet => return,
            Form::Det => return self.step_slice(world, w, a, b),
            _ => {}
        }
        self.attr.slice = true;
        let n = self.size(w, a);
        let inited = self.all_vals(w, n.min(self.l));
        match b % 8 {
            0..=4 => {
                let (keys, v) = self.fresh_items(n);
                let op = match (b % 4, inited) {
                    (0, true) => Op::PushSlice(v),
                    (0, false) | (1, _) => Op::PushSliceInit(v),
                    (2, true) => Op::PushSliceClone(v),
                    _ => Op::PushSliceCloneInit(v),
                };
                self.attr.init = matches!(op, Op::PushSliceInit(_) | Op::PushSliceCloneInit(_));
                let what = op.name();
                match self.run(world, w, op) {
                    Out::Yes => {
                        self.judge(w, n, true, what);
                        for (k, key) in keys.iter().enumerate() {
                            let pos = self.loc[0] + k as u64;
                            if self.slots[self.idx(pos)] == 0 { self.stats.zeroed_stores += 1 } else { self.stats.replaced += 1 }
                            self.set_slot(pos, *key);
                            self.set_hist(pos, *key);
                        }
                        self.moved(w, n, f);
                    }
                    Out::No => self.judge(w, n, false, what),
                    _ => unreachable!(),
                }
            }
            _ => {
                if inited || n > self.avail(w) {
                    self.step_slice(world, w, a, b);
                }
            }
        }
    }

    /// get_workable, by any iterator.
    fn step_item(&mut self, world: &mut dyn World<T>, w: Who, b: u32) {
        if matches!(world.form(w), Form::Gone | Form::ADet) {
            return;
        }
        if w == Who::P && !self.all_vals(w, 1) {
            return;
        }
        let x = self.wrap_in(world, w);
        if let Some(win) = self.window(world, w, Op::Item, 1) {
            if w == Who::P {
                unsafe { self.store(&win, 1, w) };
            } else {
                unsafe {
                    self.look(&win, 1, w, "get_workable");
                    if b % 4 != 0 && !self.stop {
                        self.edit(&win, 1, w);
                    }
                }
            }
            if b / 4 % 8 != 0 {
                self.advance(world, w, 1);
            }
        }
        self.wrap_out(world, w, x);
    }

    /// get_workable_slice_*, by any iterator.
    fn step_slice(&mut self, world: &mut dyn World<T>, w: Who, a: u32, b: u32) {
        if matches!(world.form(w), Form::Gone | Form::ADet) {
            return;
        }
        self.attr.slice = true;
        let av = self.avail(w);
        let mut n = self.size_or_more(w, a);
        let op = match b / 8 % 4 {
            0 | 1 => Op::Exact(n),
            2 => {
                n = av;
                Op::AvailSlice
            }
            _ => {
                let rhs = if n > 2 * self.l { n } else { 1 + (a as usize / 8) % (self.l + 1) };
                n = av - av % rhs;
                Op::Multiple(rhs)
            }
        };
        if w == Who::P && !self.all_vals(w, n.min(self.l)) && n <= av {
            return;
        }
        let op = if w == Who::P && matches!(op, Op::Exact(_)) && b / 32 % 2 == 0 && world.form(w) != Form::Det { Op::NextSlicesMut(n) } else { op };
        let detach = !matches!(op, Op::NextSlicesMut(_));
        let x = if detach { self.wrap_in(world, w) } else { false };
        // "0 slots" is never granted by avail/multiple_of
        let zero = n == 0 && matches!(op, Op::AvailSlice | Op::Multiple(_));
        let what = op.name();
        if zero {
            match self.run(world, w, op) {
                Out::No => self.judge(w, 0, false, what),
                Out::Win(win) => {
                    self.judge(w, 0, true, what);
                    if win.len() > 0 {
                        self.bad(Cat::GrantOver, || format!("{w:?}: {what} granted {} slots, {av} are available", win.len()));
                        if w != Who::P {
                            self.bad(Cat::Unreleased, || format!("{w:?}: {what} granted {} slots, {av} are available", win.len()));
                        }
                    } else {
                        self.bad(Cat::Shape, || format!("{w:?}: {what} granted no slot instead of refusing"));
                    }
                }
                _ => {}
            }
        } else if let Some(win) = self.window_sized(world, w, op, n) {
            let n = win.len();
            let k = match b / 64 % 4 { 0 => 0, 1 => n, 2 => n, _ => if n == 0 { 0 } else { (b as usize / 256) % (n + 1) } };
            unsafe {
                if w == Who::P {
                    self.store(&win, n, w);
                } else {
                    self.look(&win, n, w, what);
                    if !self.stop {
                        self.edit(&win, (b as usize / 1024) % (n + 1), w);
                    }
                }
            }
            if k > 0 {
                self.advance(world, w, k);
            }
        }
        self.wrap_out(world, w, x);
    }

    /// As `window`, for operations which choose the number of slots by themselves (`n` expected).
    pub fn window_sized(&mut self, world: &mut dyn World<T>, w: Who, op: Op<T>, n: usize) -> Option<Win<T>> {
        let what = op.name();
        let auto = matches!(op, Op::AvailSlice | Op::Multiple(_) | Op::PeekAvail);
        if !auto {
            return self.window(world, w, op, n);
        }
        match self.run(world, w, op) {
            Out::No => {
                self.judge(w, n, false, what);
                None
            }
            Out::Win(win) => {
                self.judge(w, win.len(), true, what);
                if self.stop {
                    return None;
                }
                if win.len() < n {
                    self.bad(Cat::GrantUnder, || format!("{w:?}: {what} granted {} slots instead of {n}", win.len()));
                }
                if win.len() > n && win.len() <= self.avail(w) {
                    self.bad(Cat::Shape, || format!("{w:?}: {what} granted {} slots instead of {n}", win.len()));
                }
                let len = win.len();
                (!self.stop && self.shape(w, &win, len, what) && !self.stop).then_some(win)
            }
            _ => None,
        }
    }

    fn step_cons(&mut self, world: &mut dyn World<T>, b: u32) {
        let w = Who::C;
        let f = world.form(w);
        match f {
            Form::Gone | Form::ADet => return,
            Form::Det => return self.step_item(world, w, b / 8),
            _ => {}
        }
        match if self.keep && b % 8 < 4 { 0 } else { b % 8 } {
            0 | 1 => match self.run(world, w, Op::Pop) {
                Out::Dup(v) => {
                    self.judge(w, 1, true, "pop");
                    let got = unsafe { T::peek_raw(&*v) };
                    self.value(w, 0, got, "pop");
                    self.moved(w, 1, f);
                }
                Out::No => self.judge(w, 1, false, "pop"),
                _ => unreachable!(),
            },
            2 | 3 => match self.run(world, w, Op::PopMove) {
                Out::Val(v) => {
                    let v = ManuallyDrop::new(v);
                    self.judge(w, 1, true, "pop_move");
                    let got = unsafe { T::peek_raw(&*v) };
                    self.value(w, 0, got, "pop_move");
                    self.stats.moved_out += 1;
                    let pos = self.loc[2];
                    self.set_slot(pos, T::EMPTY);
                    self.past.zeroed = true;
                    self.moved(w, 1, f);
                    if got == 0 || got == BAD {
                        self.stop = true;
                    } else {
                        drop(ManuallyDrop::into_inner(v));
                    }
                }
                Out::No => self.judge(w, 1, false, "pop_move"),
                _ => unreachable!(),
            },
            4 => {
                if let Some(win) = self.window(world, w, Op::PeekRef, 1) {
                    unsafe { self.look(&win, 1, w, "peek_ref") };
                    if b / 8 % 4 != 0 {
                        self.advance(world, w, 1);
                    }
                }
            }
            5 | 6 => {
                let key = self.fresh();
                let d = T::make(key);
                let op = if b % 8 == 5 { Op::CopyItem(d) } else { Op::CloneItem(d) };
                let what = op.name();
                match self.run(world, w, op) {
                    Out::Into(ok, d) => {
                        self.judge(w, 1, ok, what);
                        let got = unsafe { T::peek_raw(&d) };
                        if ok {
                            self.value(w, 0, got, what);
                            self.moved(w, 1, f);
                        } else if got != key {
                            self.bad(Cat::Refused, || format!("a refused {what} wrote {got:#x} into the destination, which held {key:#x}"));
                        }
                        if got == 0 || got == BAD {
                            std::mem::forget(d);
                            self.stop = true;
                        }
                    }
                    _ => unreachable!(),
                }
            }
            _ => self.step_item(world, w, b / 8),
        }
    }

    fn step_cons_slice(&mut self, world: &mut dyn World<T>, a: u32, b: u32) {
        let w = Who::C;
        let f = world.form(w);
        match f {
            Form::Gone | Form::ADet => return,
            Form::Det => return self.step_slice(world, w, a, b),
            _ => {}
        }
        self.attr.slice = true;
        let n = self.size(w, a);
        match b % 8 {
            0 | 1 => {
                let n = self.size_or_more(w, a);
                if let Some(win) = self.window(world, w, Op::PeekSlice(n), n) {
                    unsafe { self.look(&win, n, w, "peek_slice") };
                    let k = if b / 8 % 2 == 0 { n } else { (b as usize / 16) % (n + 1) };
                    if k > 0 {
                        self.advance(world, w, k);
                    }
                }
            }
            2 => {
                let n = self.avail(w);
                if let Some(win) = self.window_sized(world, w, Op::PeekAvail, n) {
                    let n = win.len();
                    unsafe { self.look(&win, n, w, "peek_available") };
                    let k = if b / 8 % 2 == 0 { n } else { (b as usize / 16) % (n + 1) };
                    if k > 0 {
                        self.advance(world, w, k);
                    }
                }
            }
            3..=6 => {
                let (keys, d) = self.fresh_items(n);
                let op = if b % 2 == 0 { Op::CopySlice(d) } else { Op::CloneSlice(d) };
                let what = op.name();
                match self.run(world, w, op) {
                    Out::IntoMany(ok, d) => {
                        self.judge(w, n, ok, what);
                        let mut poison = d.len() != n;
                        for (k, v) in d.iter().enumerate() {
                            let got = unsafe { T::peek_raw(v) };
                            poison |= got == 0 || got == BAD;
                            if ok {
                                self.value(w, k as u64, got, what);
                            } else if got != keys[k] {
                                self.bad(Cat::Refused, || format!("a refused {what} wrote {got:#x} into the destination, which held {:#x}", keys[k]));
                            }
                        }
                        if ok {
                            self.moved(w, n, f);
                        }
                        if poison {
                            std::mem::forget(d);
                            self.stop = true;
                        }
                    }
                    _ => unreachable!(),
                }
            }
            _ => self.step_slice(world, w, a, b / 8),
        }
    }

    /// Operations of detached iterators.
    fn step_det(&mut self, world: &mut dyn World<T>, a: u32, b: u32) {
        let dets: Vec<Who> = ALL.into_iter().filter(|w| matches!(world.form(*w), Form::Det | Form::ADet)).collect();
        if dets.is_empty() {
            return;
        }
        let w = dets[a as usize % dets.len()];
        let f = world.form(w);
        let (lo, at) = (self.pubd[w.i()], self.loc[w.i()]);
        let hi = self.ahead(w).max(at);
        self.attr.det = true;
        match b % 8 {
            0 | 1 => {
                let back = (b as u64 / 8) % (at - lo.min(at) + 1);
                if !matches!(self.run(world, w, Op::GoBack(back as usize)), Out::Unsup) {
                    self.loc[w.i()] -= back;
                    self.stats.detached_moves += 1;
                }
            }
            2 | 3 if f == Form::Det => {
                let to = lo + (b as u64 / 8) % (hi - lo + 1);
                if w == Who::P {
                    // A producer may only move over slots which hold something.
                    let n = (to.saturating_sub(at)) as usize;
                    if !self.all_vals(w, n) {
                        return;
                    }
                }
                let i = self.idx(to);
                if !matches!(self.run(world, w, Op::SetIndex(i)), Out::Unsup) {
                    if w == Who::P {
                        for pos in at..to {
                            let k = self.slots[self.idx(pos)];
                            self.set_hist(pos, k);
                        }
                    }
                    self.loc[w.i()] = to;
                    self.stats.detached_moves += 1;
                }
            }
            4 if f == Form::Det && w != Who::P => {
                self.run(world, w, Op::ResetIndex);
                self.loc[w.i()] = self.ahead(w);
                self.stats.detached_moves += 1;
                self.stats.resets += 1;
            }
            5 => {
                self.run(world, w, Op::SyncIndex);
                self.pubd[w.i()] = self.loc[w.i()];
            }
            _ => {
                let av = self.avail(w);
                if av > 0 {
                    let n = 1 + (b as usize / 8) % av;
                    if w != Who::P || self.all_vals(w, n) {
                        self.advance(world, w, n);
                    }
                }
            }
        }
    }

    /// Called when an iterator has been dropped.
    fn released(&mut self) {
        if self.owned && self.alive == [false; 3] {
            self.vals = 0;
            self.base = None;
            self.slots.iter_mut().for_each(|s| *s = 0);
        }
    }

    /// Drops what is left, in the given order.
    pub fn end(&mut self, world: &mut dyn World<T>, order: u32) {
        self.attr = Attr::default();
        self.refused = false;
        const PERM: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
        for i in PERM[order as usize % 6] {
            let w = ALL[i];
            if world.form(w) != Form::Gone {
                self.run(world, w, Op::Drop);
                self.alive[w.i()] = false;
                self.released();
                if !self.stop {
                    self.sweep(world);
                }
            }
        }
    }

    // ------------------------------------------------------------------------- sweeps

    /// Compares what the iterators say about themselves and each other, the raw contents of the
    /// slots and the ledger with the model.
    pub fn sweep(&mut self, world: &dyn World<T>) {
        let after = if self.refused { " after a refused operation" } else { "" };
        for w in ALL {
            let Some(v) = world.view(w) else { continue };
            let det = world.form(w) == Form::Det;
            let want = self.lidx(w);
            if v.index != want {
                let c = if self.refused { Cat::Refused } else { Cat::Index };
                self.attr.det |= det;
                self.bad(c, || format!("{w:?} is at index {} instead of {want}{after}", v.index));
                if self.stop {
                    return;
                }
            }
            for o in ALL {
                if o == Who::W && !self.three {
                    continue;
                }
                let want = self.idx(self.pubd[o.i()]);
                let got = v.published[o.i()];
                if got != want {
                    let c = if self.refused { Cat::Refused } else { Cat::Published };
                    self.attr.det |= matches!(world.form(o), Form::Det | Form::ADet);
                    self.bad(c, || format!("{w:?} sees {o:?} at index {got} instead of {want}{after}"));
                    if self.stop {
                        return;
                    }
                }
            }
            for o in ALL {
                if v.alive[o.i()] != self.alive[o.i()] {
                    self.bad(Cat::Flags, || format!("{w:?} sees {o:?} as {}", if v.alive[o.i()] { "alive after its drop" } else { "dead while it exists" }));
                }
            }
            if v.len != Some(self.l) {
                { let l = self.l; self.bad(Cat::Len, || format!("{w:?}: buf_len() = {:?} instead of {}", v.len, l)); }
            }
            if self.stop {
                return;
            }
            if self.trace.is_some() {
                let h = v.published.iter().enumerate().fold(v.index as u64, |h, (i, x)| if i == 1 && !self.three { h } else { h * 8191 + *x as u64 });
                let h = v.alive.iter().fold(h, |h, x| h * 2 + *x as u64);
                self.tr(h);
            }
        }
        if T::TRACKED {
            if let Some(e) = ledger_event() {
                let c = match e { Ev::ZeroRead => Cat::ZeroRead, Ev::ZeroDrop => Cat::ZeroDrop, _ => Cat::Ledger };
                self.bad(c, || format!("{e:?}"));
                if self.stop {
                    return;
                }
            }
            if !self.diverged && ledger_alive() != self.vals + self.held {
                let (x, y) = (ledger_alive(), self.vals + self.held);
                self.bad(Cat::Ledger, || format!("{x} instances are alive, {y} values are stored{after}"));
                if self.stop {
                    return;
                }
            }
        }
        self.sweeps += 1;
        if (self.sweep_all || (self.sweep_some && self.sweeps % 8 == 0)) && !self.diverged {
            self.contents(after);
        }
        let st = [
            self.l as u64,
            self.loc[0] - self.loc[2].min(self.loc[0]),
            self.loc[1].saturating_sub(self.loc[2]),
            self.pubd[2] % self.l as u64,
            self.loc[0] - self.pubd[0].min(self.loc[0]),
            self.three as u64,
            world.form(Who::P) as u64 * 25 + world.form(Who::W) as u64 * 5 + world.form(Who::C) as u64,
        ];
        if self.stats.states.len() < 2_000_000 {
            self.stats.states.insert(st.iter().fold(7u64, |h, x| (h ^ x).wrapping_mul(0x1000_0000_01b3).rotate_left(13)));
        }
    }

    pub fn contents(&mut self, after: &str) {
        let Some(base) = self.base else { return };
        for i in 0..self.l {
            let got = unsafe { T::peek_raw(base.add(i)) };
            let want = self.slots[i];
            if got != want {
                let c = if self.refused { Cat::Refused } else { Cat::Content };
                self.bad(c, || format!("slot {i} holds {got:#x} instead of {want:#x}{after}"));
                return;
            }
        }
        self.stats.slots_compared += self.l as u64;
        #[cfg(feature = "vmem")]
        unsafe {
            // The other view of the same memory.
            let n = self.l * size_of::<T>();
            let (a, b) = (std::slice::from_raw_parts(base as *const u8, n), std::slice::from_raw_parts((base as *const u8).add(n), n));
            if a != b {
                let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(0);
                self.bad(Cat::Mirror, || format!("byte {i} of the storage differs in its mirror{after}"));
            }
            self.stats.mirrors_compared += 1;
        }
    }

    /// Asks for windows of every size through every getter of an iterator.
    pub fn probe(&mut self, world: &mut dyn World<T>, w: Who) {
        if matches!(world.form(w), Form::Gone | Form::ADet) {
            return;
        }
        let det = world.form(w) == Form::Det;
        self.attr = Attr { slice: true, ..Attr::default() };
        let av = self.avail(w);
        let (i, l) = (self.lidx(w), self.l);
        let mut sizes: Vec<usize> = if l <= 64 {
            (0..=l + 2).collect()
        } else {
            let mut v = vec![0, 1, 2, l - i - 1, l - i, l - i + 1, l - i + 2, av.saturating_sub(1), av, av + 1, l - 1, l, l + 1, l + 2];
            v.extend((1..6).map(|k| (av * k / 6 + i) % (av + 1)));
            v
        };
        sizes.sort();
        sizes.dedup();
        for &n in &sizes {
            // slices of empty slots are never formed
            if w == Who::P && n <= av && !self.all_vals(w, n) {
                continue;
            }
            for g in 0..2 {
                let op = match (g, w) {
                    (0, _) => Op::Exact(n),
                    (_, Who::P) if !det => Op::NextSlicesMut(n),
                    (_, Who::C) if !det => Op::PeekSlice(n),
                    _ => continue,
                };
                if let Some(win) = self.window(world, w, op, n) {
                    if w != Who::P {
                        unsafe { self.look(&win, n, w, "window") };
                    }
                }
                if self.stop {
                    return;
                }
            }
        }
        if w == Who::P && !self.all_vals(w, av) {
            return;
        }
        for &r in &sizes {
            let (op, n) = match r {
                0 => (Op::AvailSlice, av),
                r => (Op::Multiple(r), av - av % r),
            };
            if n == 0 {
                let what = op.name();
                if let Out::Win(x) = self.run(world, w, op) {
                    if x.len() > 0 {
                        self.judge(w, x.len(), true, what);
                    }
                    self.bad(Cat::Shape, || format!("{w:?}: {what} of {r} granted {} slots, {av} are available", x.len()));
                }
            } else if let Some(win) = self.window_sized(world, w, op, n) {
                let n = win.len();
                if w != Who::P {
                    unsafe { self.look(&win, n, w, "window") };
                }
            }
            if self.stop {
                return;
            }
        }
        if w == Who::C && !det {
            if let Some(win) = self.window_sized(world, w, Op::PeekAvail, av) {
                let n = win.len();
                unsafe { self.look(&win, n, w, "peek_available") };
            }
        }
    }

    /// Attaches the iterators and drains the pipeline: whatever was published has to be found.
    pub fn drain(&mut self, world: &mut dyn World<T>) {
        self.attr = Attr::default();
        self.refused = false;
        for w in ALL {
            if matches!(world.form(w), Form::Det | Form::ADet) {
                self.run(world, w, Op::Attach);
                self.pubd[w.i()] = self.loc[w.i()];
            }
            if world.form(w) == Form::Async {
                self.run(world, w, Op::ToSync);
            }
        }
        if self.base.is_none() && world.form(Who::P) != Form::Gone && self.avail(Who::P) > 0 {
            self.window(world, Who::P, Op::NextItemInit, 1);
        }
        self.sweep(world);
        if self.stop || world.form(Who::C) == Form::Gone {
            return;
        }
        if self.three && world.form(Who::W) != Form::Gone {
            let n = self.avail(Who::W);
            self.step_avail(world, Who::W);
            if n > 0 {
                self.advance(world, Who::W, n);
            }
        }
        let n = self.avail(Who::C);
        for _ in 0..n.min(300) {
            if self.stop {
                return;
            }
            self.step_cons(world, 0);
        }
        if self.stop {
            return;
        }
        self.sweep(world);
        if n <= 300 && !self.stop {
            self.step_cons(world, 0);
            if !self.stop {
                self.sweep(world);
            }
        }
    }
}
