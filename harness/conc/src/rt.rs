//! The runtime: threads are coroutines, each atomic access of the crate is a scheduling point, loads
//! may yield any value the memory model allows, and monitors watch every step.

use crate::alloc;
use crate::rng::Rng;
use corosensei::Yielder;
use std::sync::atomic::{AtomicUsize, Ordering};

pub const NT: usize = 4;
/// The thread which builds, joins and drops.
pub const MAIN: usize = 3;
const NL: usize = 12;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cat {
    /// The consumer got something else than what was accepted (and edited).
    Value,
    /// The consumer got something which has not been released to it.
    Early,
    /// Items are missing or supernumerary at the end.
    Lost,
    /// Two accesses to a slot are not ordered by happens-before. Value read without the write being ordered before.
    RaceRead,
    RaceWrite,
    /// A slot has been granted to, or touched by, an iterator which it does not belong to.
    Region,
    /// Published positions out of order.
    Order,
    /// `available()` too high.
    Over,
    /// A refused request had an effect.
    Refused,
    /// Something published is not found by a fresh look, or an index has not been published.
    Under,
    /// A call publishes more positions than it has filled or emptied.
    Excess,
    /// A call takes too many steps.
    Steps,
    /// A reset which has not skipped what was there.
    Reset,
    /// A pipeline which keeps retrying does not drain.
    Drain,
    /// The buffer is released too early, twice or never.
    Life,
    Flag,
    /// A detached iterator publishes, or publishes otherwise than in one step.
    Detached,
    /// Attaching publishes another position than the local one.
    Attach,
    Ledger,
    ZeroDrop,
    /// A task waits for what has become possible, and nobody has woken it.
    Wake,
    /// A future is pending although what it waits for was there before the poll began.
    Polled,
    Panic,
}

#[derive(Clone, Copy, Default)]
struct Clock {
    vc: [u32; NT],
    /// Oldest store of each location which may still be read.
    view: [u32; NL],
}
impl Clock {
    fn join(&mut self, o: &Clock) {
        for i in 0..NT {
            self.vc[i] = self.vc[i].max(o.vc[i]);
        }
        for i in 0..NL {
            self.view[i] = self.view[i].max(o.view[i]);
        }
    }
}
struct Store {
    val: usize,
    msg: Option<Clock>,
}
struct Loc {
    at: usize,
    hist: Vec<Store>,
    sc: u32,
}

#[derive(Clone, Copy, Default)]
struct Slot {
    w: Option<(usize, u32)>,
    r: [u32; NT],
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pubs {
    /// None is allowed.
    None,
    /// By so many positions, or not at all if the request is refused. (In how many steps is the crate's business.)
    Exactly(u64),
    /// By so many positions, in one step.
    AtOnce(u64),
    Any,
}

pub struct Call {
    pub name: &'static str,
    pub steps: u32,
    pub endless: bool,
    pub pubs: Pubs,
    /// Slots are read before the publication.
    pub reads: bool,
    /// (number of publications, positions moved)
    pub moved: (u32, u64),
    pub switched: bool,
}

/// An async operation which is awaited.
#[derive(Clone, Copy, Default)]
pub struct Await {
    /// Number of slots it takes.
    pub need: u64,
    /// Identifies the waker of the latest poll.
    pub turn: u64,
    /// The task sleeps until it is woken.
    pub parked: bool,
    pub woken: bool,
    /// What it waits for is not going to happen.
    pub hopeless: bool,
    /// Slots available when the latest poll began.
    pub there: u64,
}

#[derive(Default)]
pub struct Counts(pub Vec<(&'static str, u64)>);
impl Counts {
    pub fn up(&mut self, k: &'static str, n: u64) {
        match self.0.iter_mut().find(|x| std::ptr::eq(x.0, k) || x.0 == k) {
            Some(x) => x.1 += n,
            None => self.0.push((k, n)),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Strategy { Random(u64), Pct, Freeze }

pub struct Rt {
    pub active: bool,
    pub monitor: bool,
    pub monitored_loads: u32,
    pub monitored_stores: u32,
    pub cur: usize,
    pub yielders: [*const Yielder<(), ()>; NT],
    pub viol: Option<(Cat, String)>,
    /// The first deviation, if it concerns other properties only: the run goes on.
    pub tainted: Option<(Cat, String)>,
    /// Does `viol` concern the checked property?
    pub mine: bool,
    /// The property which is checked.
    pub id: String,
    pub rng: Rng,
    pub strategy: Strategy,
    /// Chance (of 8) that a load looks for an older value.
    pub stale: u64,
    /// Fences or unhooked synchronisation: happens-before is not known.
    pub no_hb: bool,
    pub prio: [u32; NT],
    pub change: [u64; 4],
    pub frozen: usize,
    pub freeze_at: u64,
    pub runnable: [bool; NT],
    pub events: u64,
    pub limit: u64,
    locs: Vec<Loc>,
    clocks: [Clock; NT],
    // the buffer
    pub len: u64,
    pub base: usize,
    pub size: usize,
    shadow: Vec<u8>,
    slots: Vec<Slot>,
    pub ghost: Option<Box<dyn Fn() -> [usize; 3]>>,
    /// Index and logical position published by producer, worker and consumer.
    raw: [usize; 3],
    pub pos: [u64; 3],
    pub loc: [u64; 3],
    pub three: bool,
    pub exists: [bool; 3],
    pub drop_begun: [bool; 3],
    pub drop_done: [bool; 3],
    pub stack_buffer: bool,
    pub calls: [Call; NT],
    pub ledger: Vec<bool>,
    pub alive: i64,
    pub log: Option<Vec<String>>,
    pub counts: Counts,
    pub sched_hash: u64,
    pub preempted: u64,
    /// Two drops have overlapped.
    pub overlap: bool,
    /// Someone has reset its index.
    pub reset_done: bool,
    /// Who is detached.
    pub det: [bool; 3],
    pub awaits: [Await; NT],
    /// Whose call is an async one.
    pub asy: [bool; NT],
}

pub const NAMES: [&str; 4] = ["producer", "worker", "consumer", "main"];

static mut RT: Option<Rt> = None;
pub fn rt() -> &'static mut Rt {
    unsafe { (*(&raw mut RT)).as_mut().unwrap() }
}
fn call() -> Call {
    Call { name: "", steps: 0, endless: false, pubs: Pubs::Any, reads: false, moved: (0, 0), switched: false }
}
pub fn init() {
    unsafe {
        RT = Some(Rt {
            active: false, monitor: false, monitored_loads: 0, monitored_stores: 0, cur: MAIN, yielders: [std::ptr::null(); NT], viol: None, tainted: None, mine: false, id: String::new(), rng: Rng::new(0),
            strategy: Strategy::Random(2), stale: 0, no_hb: false, prio: [0; NT], change: [0; 4], frozen: 9, freeze_at: 0, runnable: [false; NT], events: 0, limit: 0,
            locs: vec![], clocks: Default::default(), len: 1, base: 0, size: 1, shadow: vec![], slots: vec![], ghost: None, raw: [0; 3], pos: [0; 3], loc: [0; 3],
            three: false, exists: [false; 3], drop_begun: [false; 3], drop_done: [false; 3], stack_buffer: false, calls: std::array::from_fn(|_| call()),
            ledger: vec![], alive: 0, log: None, counts: Counts::default(), sched_hash: 0, preempted: 0, overlap: false, reset_done: false, det: [false; 3], awaits: Default::default(), asy: [false; NT],
        })
    }
}

impl Rt {
    /// Starts to watch a buffer, which `main` has just split.
    pub fn begin(&mut self, base: usize, size: usize, len: usize, three: bool, start: u64) {
        // (with len 1 nothing is ever granted: a stand-in is watched)
        static NOWHERE: [u64; 8] = [0; 8];
        let base = if base == 0 { &raw const NOWHERE as usize } else { base };
        self.base = base;
        self.size = size;
        self.len = len as u64;
        self.three = three;
        self.shadow = unsafe { std::slice::from_raw_parts(base as *const u8, size * len) }.to_vec();
        self.slots = vec![Slot::default(); len];
        self.locs.clear();
        self.clocks = Default::default();
        for t in 0..NT {
            self.clocks[t].vc[t] = 1;
        }
        // everything main did happened before
        for t in 0..MAIN {
            self.clocks[t].vc[MAIN] = 1;
        }
        self.clocks[MAIN].vc[MAIN] = 2;
        for s in &mut self.slots {
            s.w = Some((MAIN, 1));
        }
        self.pos = [start; 3];
        self.loc = [start; 3];
        self.raw = self.triple();
        self.exists = [true, three, true];
        self.drop_begun = [false; 3];
        self.drop_done = [false; 3];
        self.events = 0;
        self.sched_hash = 0xcbf2_9ce4_8422_2325;
        self.preempted = 0;
        self.overlap = false;
        self.reset_done = false;
        self.det = [false; 3];
        self.awaits = Default::default();
        self.asy = [false; NT];
        self.viol = None;
        self.tainted = None;
        self.mine = false;
        self.frozen = 9;
        self.active = true;
        for t in 0..NT {
            self.calls[t] = call();
        }
    }
    pub fn raw_index(&self) -> [usize; 3] {
        self.raw
    }
    /// Everything the threads did happens before what main does next.
    pub fn join_all(&mut self) {
        for t in 0..MAIN {
            let c = self.clocks[t];
            self.clocks[MAIN].join(&c);
        }
        self.cur = MAIN;
    }
    fn triple(&mut self) -> [usize; 3] {
        self.monitor = true;
        let r = self.ghost.as_ref().map_or([0; 3], |g| g());
        self.monitor = false;
        r
    }
    pub fn fail(&mut self, c: Cat, m: String) {
        self.report(c, m, false)
    }
    /// A deviation after which the run makes no sense any more.
    pub fn fatal(&mut self, c: Cat, m: String) {
        self.report(c, m, true)
    }
    /// Ends the run with the first deviation which concerns the checked property. One which only concerns others
    /// does not end it, as long as the positions which the harness keeps still make sense: what it leads to may well be
    /// a violation of the checked property too.
    fn report(&mut self, c: Cat, m: String, fatal: bool) {
        use Cat::*;
        if !self.active || self.viol.is_some() {
            return;
        }
        let m = format!("{m} [{} in {}, published positions {:?}]", NAMES[self.cur], self.calls[self.cur].name, self.pos);
        self.note(|| format!("!! {c:?}: {m}"));
        let mine = crate::lens(&self.id, c, self.reset_done, self.cur != MAIN && self.det[self.cur], self.asy[self.cur]);
        let soft = self.id != "C11" && matches!(c, Value | Early | RaceRead | RaceWrite | Region | Over | Order | Detached);
        match self.tainted.take() {
            None if mine || fatal || !soft => {
                self.mine = mine;
                self.viol = Some((c, m));
            }
            None => self.tainted = Some((c, m)),
            Some((d, first)) if mine && soft => {
                self.mine = true;
                self.viol = Some((c, format!("{m} (before that, {d:?}: {first})")));
            }
            first if fatal || !soft => self.viol = first,
            first => self.tainted = first,
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            if l.len() < 4000 {
                let s = f();
                l.push(format!("{:>8} {s}", NAMES[self.cur]));
            }
        }
    }
    /// Positions an iterator may use: from its published one (or `loc`) up to this one.
    pub fn limit_of(&self, who: usize) -> u64 {
        match who {
            0 => self.pos[2] + self.len - 1,
            1 => self.pos[0],
            _ if self.three => self.pos[1],
            _ => self.pos[0],
        }
    }
    /// Slots the iterator may use from its local position.
    pub fn truth(&self, who: usize) -> u64 {
        self.limit_of(who).saturating_sub(self.loc[who])
    }
    fn owns(&self, who: usize, slot: u64) -> bool {
        let (lo, hi) = (self.pos[who], self.limit_of(who));
        if hi <= lo { return false; }
        let first = lo + (slot + self.len - lo % self.len) % self.len;
        first < hi
    }
    fn usable(&self) -> bool {
        !alloc::any_freed() && self.ghost.is_some()
    }
    /// Attributes what has changed in the slots to the current thread.
    fn scan(&mut self) {
        if !self.active || !self.usable() {
            return;
        }
        let now = unsafe { std::slice::from_raw_parts(self.base as *const u8, self.shadow.len()) };
        if now == &self.shadow[..] {
            return;
        }
        let at_once = 64;
        for first in (0..self.len as usize).step_by(at_once) {
            let end = (first + at_once).min(self.len as usize);
            if now[first * self.size..end * self.size] == self.shadow[first * self.size..end * self.size] {
                continue;
            }
            for s in first..end {
                let r = s * self.size..(s + 1) * self.size;
                if now[r.clone()] != self.shadow[r.clone()] {
                    self.shadow[r.clone()].copy_from_slice(&now[r]);
                    self.access(s, true);
                }
            }
        }
    }
    fn access(&mut self, s: usize, write: bool) {
        let t = self.cur;
        self.counts.up(if write { "slot_writes_observed" } else { "slot_reads_observed" }, 1);
        if t == MAIN {
            return;
        }
        // The slot the consumer has released last is the gap: nobody can be granted it, so finishing with it late is harmless.
        let gap = t == 2 && self.pos[2] > 0 && s as u64 == (self.pos[2] - 1) % self.len;
        if !gap && !self.owns(t, s as u64) {
            self.fail(Cat::Region, format!("slot {s} is {} by the {} while it does not belong to it", if write { "written" } else { "read" }, NAMES[t]));
        }
        if self.no_hb {
            return;
        }
        let c = self.clocks[t];
        let sl = self.slots[s];
        self.counts.up("happens_before_checks", 1);
        if let Some((u, e)) = sl.w {
            if u != t && c.vc[u] < e {
                self.fail(if write { Cat::RaceWrite } else { Cat::RaceRead }, format!("slot {s}: {} by the {} is not ordered after the write by the {}", if write { "the write" } else { "the read" }, NAMES[t], NAMES[u]));
            }
        }
        if write {
            for u in 0..NT {
                if u != t && c.vc[u] < sl.r[u] {
                    self.fail(Cat::RaceWrite, format!("slot {s}: the write by the {} is not ordered after the read by the {}", NAMES[t], NAMES[u]));
                }
            }
            self.slots[s].w = Some((t, c.vc[t]));
        } else {
            self.slots[s].r[t] = c.vc[t];
        }
    }
    /// Index of the location.
    fn locate(&mut self, at: &AtomicUsize) -> usize {
        let a = at as *const _ as usize;
        if let Some(i) = self.locs.iter().position(|l| l.at == a) {
            return i;
        }
        let val = at.load(Ordering::Relaxed);
        // everything before the threads were started happened before
        self.locs.push(Loc { at: a, hist: vec![Store { val, msg: None }], sc: 0 });
        if self.locs.len() > NL {
            self.fail(Cat::Panic, "harness: too many atomics".into());
            self.locs.truncate(NL);
            return NL - 1;
        }
        self.locs.len() - 1
    }
    /// The oldest store a load may still see.
    fn floor(&self, t: usize, l: usize, order: Ordering) -> usize {
        let v = self.clocks[t].view[l];
        if order == Ordering::SeqCst { v.max(self.locs[l].sc) as usize } else { v as usize }
    }
    fn published(&mut self) {
        if !self.usable() || self.drop_begun.iter().zip(self.exists).all(|(d, e)| *d || !e) {
            return;
        }
        let now = self.triple();
        if now == self.raw {
            return;
        }
        let t = self.cur;
        let len = self.len as usize;
        for i in 0..3 {
            if now[i] == self.raw[i] {
                continue;
            }
            if now[i] >= len {
                self.fatal(Cat::Order, format!("the index of the {} is {}, with len {len}", NAMES[i], now[i]));
                return;
            }
            let d = ((now[i] + len - self.raw[i]) % len) as u64;
            self.raw[i] = now[i];
            let old = self.pos[i];
            if t != MAIN && i != t {
                self.fatal(Cat::Order, format!("the {} moves the index of the {}", NAMES[t], NAMES[i]));
            }
            let room = self.limit_of(i).saturating_sub(old);
            if d > room {
                self.fail(Cat::Order, format!("the {} moves from position {old} to {}, beyond {}", NAMES[i], old + d, old + room));
            }
            self.counts.up("publications", 1);
            if self.calls[t].reads {
                for p in old..old + d {
                    self.access((p % self.len) as usize, false);
                }
            }
            self.pos[i] += d;
            let c = &mut self.calls[t];
            c.moved.0 += 1;
            c.moved.1 += d;
            let (name, pubs, moved) = (c.name, c.pubs, c.moved);
            match pubs {
                Pubs::None => self.fail(Cat::Detached, format!("{name} publishes a position")),
                Pubs::Exactly(n) if moved.1 > n => self.fail(Cat::Excess, format!("{name} publishes {} positions instead of {n}", moved.1)),
                Pubs::AtOnce(n) if moved.1 > n || moved.0 > 1 => self.fail(Cat::Detached, format!("{name} publishes {} positions in {} steps instead of {n} in one", moved.1, moved.0)),
                _ => {}
            }
        }
        let [p, w, c] = self.pos;
        let w = if self.three { w } else { p };
        if !(c <= w && w <= p && p < c + self.len) {
            self.fail(Cat::Order, format!("positions out of order: consumer {c}, worker {w}, producer {p}, len {len}"));
        }
    }
    fn pick(&mut self) -> bool {
        // Should the current thread be suspended?
        let t = self.cur;
        match self.strategy {
            Strategy::Random(n) => self.rng.chance(1, n),
            Strategy::Pct => {
                if self.change.contains(&self.events) {
                    self.prio[t] = self.rng.below(50) as u32;
                }
                let p = self.prio;
                (0..MAIN).any(|u| u != t && self.ready(u) && p[u] > p[t])
            }
            Strategy::Freeze => {
                if self.events == self.freeze_at && self.frozen == 9 {
                    self.frozen = t;
                    self.note(|| "is suspended until the others have finished".into());
                }
                self.frozen == t || self.rng.chance(1, 3)
            }
        }
    }
    fn ready(&self, t: usize) -> bool {
        self.runnable[t] && (!self.awaits[t].parked || self.awaits[t].woken)
    }
    /// Everyone sleeps or has finished. Yields one which does not have to wait any longer.
    fn asleep(&mut self) -> Option<usize> {
        let all: Vec<usize> = (0..MAIN).filter(|t| self.runnable[*t]).collect();
        for &t in &all {
            let (need, truth) = (self.awaits[t].need, self.truth(t));
            if truth >= need {
                self.cur = t;
                self.fatal(Cat::Wake, format!("a task awaits {need} slots; {truth} are available, all others sleep or have finished, and it has not been woken since its last poll"));
                return Some(t);
            }
        }
        if all.is_empty() {
            return None;
        }
        let t = all[self.rng.below(all.len() as u64) as usize];
        self.awaits[t].hopeless = true;
        self.counts.up("awaits_of_what_never_happens", 1);
        Some(t)
    }
    /// Next thread to run.
    pub fn choose(&mut self) -> Option<usize> {
        let live: Vec<usize> = (0..MAIN).filter(|t| self.ready(*t)).collect();
        if live.is_empty() {
            return self.asleep();
        }
        Some(match self.strategy {
            Strategy::Random(_) => live[self.rng.below(live.len() as u64) as usize],
            Strategy::Pct => *live.iter().max_by_key(|t| self.prio[**t]).unwrap(),
            Strategy::Freeze => {
                let l2: Vec<usize> = live.iter().copied().filter(|t| *t != self.frozen).collect();
                if l2.is_empty() { live[0] } else { l2[self.rng.below(l2.len() as u64) as usize] }
            }
        })
    }
    fn hash(&mut self, x: u64) {
        self.sched_hash = (self.sched_hash ^ x).wrapping_mul(0x1000_0000_01b3).rotate_left(21);
    }
}

fn maybe_yield() {
    let r = rt();
    r.events += 1;
    if r.cur == MAIN {
        return;
    }
    if r.viol.is_some() || r.events > r.limit {
        // Nothing which follows is of interest: this thread never continues.
        loop {
            suspend();
        }
    }
    if r.pick() {
        suspend();
    }
}
fn suspend() {
    let r = rt();
    let t = r.cur;
    let y = r.yielders[t];
    unsafe { (*y).suspend(()) };
    // the scheduler has set `cur` to this thread again
}

struct Bell(usize, u64);
impl std::task::Wake for Bell {
    fn wake(self: std::sync::Arc<Self>) {
        let r = rt();
        r.counts.up("wakes", 1);
        let a = &mut r.awaits[self.0];
        if a.turn == self.1 {
            a.woken = true;
        } else {
            r.counts.up("wakes_of_outdated_wakers", 1);
        }
    }
}
/// An await of the current thread begins.
pub fn await_begins(need: u64) {
    let r = rt();
    let turn = r.awaits[r.cur].turn + 1;
    r.awaits[r.cur] = Await { need: need.max(1), turn, ..Default::default() };
    r.counts.up("awaits", 1);
}
/// Waker for the next poll.
pub fn bell(fresh: bool) -> std::task::Waker {
    let r = rt();
    let t = r.cur;
    let there = r.truth(t);
    let a = &mut r.awaits[t];
    a.there = there;
    a.woken = false;
    a.turn += fresh as u64;
    r.calls[t].steps = 0;
    std::task::Waker::from(std::sync::Arc::new(Bell(t, r.awaits[t].turn)))
}
/// The current thread got `Pending`.
pub fn pending() {
    let r = rt();
    let t = r.cur;
    r.scan();
    r.counts.up("polls_pending", 1);
    let a = r.awaits[t];
    if r.stale == 0 && a.there >= a.need {
        r.fail(Cat::Polled, format!("a poll yields Pending for {} slots, while {} were available when it began and nothing stale is read", a.need, a.there));
    }
    if r.calls[t].moved.0 > 0 {
        r.fail(Cat::Refused, "a poll yields Pending and publishes a position all the same".into());
    }
}
/// The current thread sleeps until it is woken. False: in vain.
pub fn sleep() -> bool {
    let r = rt();
    let t = r.cur;
    r.note(|| format!("pending, {}", if rt().awaits[t].woken { "already woken" } else { "sleeps" }));
    r.awaits[t].parked = true;
    if !r.awaits[t].woken {
        r.counts.up("sleeps", 1);
        suspend();
    }
    maybe_yield();
    let a = &mut rt().awaits[t];
    a.parked = false;
    !a.hopeless
}

/// A point at which another thread may run.
pub fn point(what: &str) {
    let r = rt();
    if !r.active || r.monitor || r.cur == MAIN {
        return;
    }
    // (there are thousands of slots to look at, and of items to destroy)
    if cfg!(feature = "vmem") && r.rng.below(64) != 0 {
        return;
    }
    r.scan();
    let _ = what;
    maybe_yield();
}
pub fn settle_slots() {
    let r = rt();
    if r.active {
        r.scan();
    }
}
/// The current thread reads (or writes) an item at this address, if it lies within the buffer.
pub fn touch(at: usize, write: bool) {
    let r = rt();
    if !r.active || r.monitor || r.cur == MAIN {
        return;
    }
    let o = at.wrapping_sub(r.base);
    // (the mirror, if there is one, shows the same slots)
    let bytes = r.size * r.len as usize;
    if o >= if cfg!(feature = "vmem") { 2 * bytes } else { bytes } {
        return;
    }
    let o = o % bytes;
    if !r.usable() || (0..3).all(|i| !r.exists[i] || r.drop_begun[i]) {
        // the contents are being destroyed
        return;
    }
    r.access(o / r.size, write);
}
pub fn freed(times: u32) {
    let r = rt();
    if !r.active {
        return;
    }
    r.counts.up("buffer_blocks_released", 1);
    r.note(|| "releases a block of the buffer".into());
    if times > 1 {
        r.fail(Cat::Life, "the buffer is released twice".into());
    }
    if r.stack_buffer {
        r.fail(Cat::Life, "an iterator releases a stack buffer".into());
    }
    for i in 0..3 {
        if r.exists[i] && !r.drop_begun[i] {
            r.fail(Cat::Life, format!("the buffer is released while the {} still exists", NAMES[i]));
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Ledger

pub fn birth() -> u64 {
    let r = rt();
    r.ledger.push(true);
    r.alive += 1;
    r.ledger.len() as u64
}
pub fn alive(n: u64) -> bool {
    let r = rt();
    n > 0 && r.ledger.get(n as usize - 1).copied().unwrap_or(false)
}
pub fn death(n: u64) {
    let r = rt();
    if n == 0 {
        return r.fail(Cat::ZeroDrop, "an empty slot is destroyed".into());
    }
    match r.ledger.get_mut(n as usize - 1) {
        Some(a) if *a => {
            *a = false;
            r.alive -= 1;
        }
        Some(_) => r.fail(Cat::Ledger, format!("instance {n} is destroyed twice")),
        None => r.fail(Cat::Ledger, "something which is no value is destroyed".into()),
    }
}

// ------------------------------------------------------------------------------------------------
// Calls

pub fn enter(name: &'static str, pubs: Pubs, reads: bool, endless: bool) {
    let r = rt();
    let t = r.cur;
    r.calls[t] = Call { name, steps: 0, endless, pubs, reads, moved: (0, 0), switched: false };
}
/// (number of publications, positions moved)
pub fn leave() -> (u32, u64) {
    settle_slots();
    let r = rt();
    let t = r.cur;
    let c = &r.calls[t];
    let m = c.moved;
    let n = c.steps as u64;
    if r.active {
        r.counts.up("calls", 1);
        match r.counts.0.iter_mut().find(|x| x.0 == "max_steps_per_call") {
            Some(x) => x.1 = x.1.max(n),
            None => r.counts.0.push(("max_steps_per_call", n)),
        }
    }
    r.calls[t] = call();
    m
}

// ------------------------------------------------------------------------------------------------
// Hooks

fn before(at: &AtomicUsize) -> bool {
    let r = rt();
    if r.monitor || !r.active {
        return false;
    }
    let t = r.cur;
    r.scan();
    r.calls[t].steps += 1;
    if r.calls[t].steps as u64 > 2000 + 8 * r.len && !r.calls[t].endless {
        r.fail(Cat::Steps, "a call takes thousands of atomic steps: it waits".into());
    }
    let e = r.events;
    maybe_yield();
    let r = rt();
    if r.events > e + 1 {
        r.preempted += 1;
    }
    if alloc::freed_at(at as *const _ as usize) {
        r.fail(Cat::Life, "the buffer is used after it has been released".into());
        maybe_yield();
    }
    true
}
fn after() {
    let r = rt();
    if r.cur != MAIN {
        maybe_yield();
    }
}
fn acq(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
}
fn rel(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
}

#[no_mangle]
fn __mrb_hook_load(at: &AtomicUsize, order: Ordering) -> usize {
    if !before(at) {
        rt().monitored_loads += 1;
        return at.load(Ordering::SeqCst);
    }
    let r = rt();
    let t = r.cur;
    let l = r.locate(at);
    let last = r.locs[l].hist.len() - 1;
    let floor = r.floor(t, l, order);
    let mut i = last;
    if r.stale > 0 && floor < last && r.rng.chance(r.stale, 8) {
        i = floor + r.rng.below((last - floor + 1) as u64) as usize;
        if i < last {
            r.counts.up("stale_loads", 1);
        }
    }
    let v = r.locs[l].hist[i].val;
    r.clocks[t].view[l] = i as u32;
    if acq(order) {
        if let Some(m) = r.locs[l].hist[i].msg {
            r.clocks[t].join(&m);
        }
    }
    r.hash((t as u64) << 40 | (l as u64) << 32 | v as u64);
    r.note(|| format!("load  a{l} -> {v} {}({order:?})", if i < last { format!("[stale, latest {}] ", at.load(Ordering::SeqCst)) } else { String::new() }));
    r.counts.up("atomic_loads", 1);
    after();
    v
}

fn write(at: &AtomicUsize, l: usize, value: usize, order: Ordering, prior: Option<Clock>) {
    let r = rt();
    let t = r.cur;
    let n = r.locs[l].hist.len() as u32;
    r.clocks[t].view[l] = n;
    let mut msg = if rel(order) { Some(r.clocks[t]) } else { None };
    if let Some(p) = prior {
        match &mut msg {
            Some(m) => m.join(&p),
            None => msg = Some(p),
        }
    }
    r.locs[l].hist.push(Store { val: value, msg });
    if order == Ordering::SeqCst {
        r.locs[l].sc = n;
    }
    at.store(value, Ordering::SeqCst);
    r.hash((t as u64 + 8) << 40 | (l as u64) << 32 | value as u64);
    r.published();
    r.clocks[t].vc[t] += 1;
    r.counts.up("atomic_stores", 1);
}

#[no_mangle]
fn __mrb_hook_store(at: &AtomicUsize, value: usize, order: Ordering) {
    if !before(at) {
        rt().monitored_stores += 1;
        return at.store(value, Ordering::SeqCst);
    }
    let r = rt();
    let l = r.locate(at);
    r.note(|| format!("store a{l} <- {value} ({order:?})"));
    write(at, l, value, order, None);
    after();
}

#[no_mangle]
fn __mrb_hook_weak_fails() -> bool {
    let r = rt();
    let fails = r.active && !r.monitor && r.rng.chance(1, 6);
    if fails {
        r.counts.up("weak_exchanges_failed", 1);
    }
    fails
}

#[no_mangle]
fn __mrb_hook_rmw(at: &AtomicUsize, f: &mut dyn FnMut(usize) -> Option<usize>, success: Ordering, failure: Ordering) -> Result<usize, usize> {
    if !before(at) {
        rt().monitored_stores += 1;
        let v = at.load(Ordering::SeqCst);
        return match f(v) {
            Some(n) => {
                at.store(n, Ordering::SeqCst);
                Ok(v)
            }
            None => Err(v),
        };
    }
    let r = rt();
    let t = r.cur;
    let l = r.locate(at);
    let latest = r.locs[l].hist.len() - 1;
    // One which fails is a mere load, and may see an older value.
    let mut last = latest;
    let floor = r.floor(t, l, failure);
    if r.stale > 0 && floor < last && r.rng.chance(r.stale, 8) {
        last = floor + r.rng.below((last - floor + 1) as u64) as usize;
    }
    let mut n = f(r.locs[l].hist[last].val);
    if n.is_some() && last < latest {
        last = latest;
        n = f(r.locs[l].hist[last].val);
    }
    let v = r.locs[l].hist[last].val;
    let m = r.locs[l].hist[last].msg;
    r.clocks[t].view[l] = last as u32;
    if acq(if n.is_some() { success } else { failure }) {
        if let Some(m) = m {
            r.clocks[t].join(&m);
        }
    }
    r.note(|| format!("rmw   a{l} {v} -> {n:?} ({success:?})"));
    let res = match n {
        Some(n) => {
            write(at, l, n, success, m);
            Ok(v)
        }
        None => Err(v),
    };
    after();
    res
}
