//! The programs run by the threads, and what is expected of each call.

use crate::items::*;
use crate::rng::Rng;
use crate::rt::{self, rt, Cat, Pubs, Strategy};
use crate::world::*;
use mutringbuf::{ConcurrentHeapRB, HeapSplit, MRBIterator, MutRB};
#[cfg(not(feature = "vmem"))]
use mutringbuf::{ConcurrentStackRB, StackSplit};
use mutringbuf::iterators::ProdIter;
use std::mem::ManuallyDrop;
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// Random operations, each attempted once.
    Mix,
    /// Stages which retry until everything has gone through.
    Pipe,
    /// A few operations, and then every thread drops its iterator.
    Drops,
    /// Random operations, awaited by tasks which sleep until they are woken.
    Await,
}

#[derive(Clone, Debug)]
pub struct Conf {
    pub mode: Mode,
    pub three: bool,
    pub len: usize,
    /// Index at which all iterators start.
    pub start: u64,
    pub stack: bool,
    pub owned: bool,
    pub zeroed: bool,
    pub asy: u8,
    pub awaits: bool,
    pub ops: [u32; 3],
    pub items: u64,
    pub stale: u64,
    pub strategy: Strategy,
    pub drops: u8,
    pub seed: u64,
}

const VMEM: bool = cfg!(feature = "vmem");

impl Conf {
    pub fn new(seed: u64, mode: Mode, sc: bool) -> Conf {
        let mut r = Rng::new(seed);
        let three = r.chance(3, 5);
        let stack = r.chance(1, 6) && !VMEM;
        let strategy = match r.below(if mode == Mode::Pipe { 3 } else { 7 }) {
            0 => Strategy::Random(1),
            1 => Strategy::Random(2),
            2 => Strategy::Random(4),
            3 => Strategy::Random(9),
            4 => Strategy::Pct,
            5 => Strategy::Pct,
            _ => Strategy::Freeze,
        };
        // a few are long
        let wide = mode != Mode::Drops && !stack && r.chance(1, 16);
        let n = if mode == Mode::Drops { 3 } else if mode != Mode::Pipe && r.chance(1, 50) { 60 } else { 7 };
        let len = if VMEM { 4096 } else if stack { 3 } else if wide { if r.chance(1, 8) { 60 + r.below(250) as usize } else { 9 + r.below(32) as usize } } else { [1, 2, 2, 3, 3, 3, 4, 4, 5, 6][r.below(10) as usize] };
        Conf {
            mode, three, stack, len,
            start: match r.below(8) { 0 => r.below(len as u64), 1..=3 => len as u64 - 1 - r.below(len.min(20) as u64), _ => 0 },
            owned: r.chance(2, 5),
            zeroed: r.chance(1, 3),
            asy: if mode == Mode::Await { [7, 7, 1, 4, 5, 6, 3, 2][r.below(8) as usize] } else if r.chance(1, 3) { r.below(8) as u8 } else { 0 },
            awaits: mode == Mode::Await || r.chance(1, 2),
            ops: [r.below(n) as u32 + (mode != Mode::Drops) as u32, r.below(n) as u32, r.below(n) as u32 + (mode != Mode::Drops) as u32],
            items: 1 + r.below(if wide { 2 * len.clamp(35, 400) as u64 } else { 9 }),
            stale: if sc || r.chance(2, 5) { 0 } else { 1 + r.below(5) },
            strategy,
            drops: if mode == Mode::Drops { 7 } else if r.chance(1, 2) { 0 } else { r.below(8) as u8 },
            seed,
        }
    }
}

/// What is known of the accepted items, by position.
pub struct Shared {
    pub expected: Vec<u64>,
    pub next_id: u32,
    pub delivered: u64,
    pub skipped: u64,
    pub conf: Conf,
    /// Slots may be empty: only operations which cope with that are used.
    pub gaps: bool,
    pub quota: [u64; 3],
}

pub struct Agent<T: Item> {
    who: usize,
    sh: *mut Shared,
    world: *mut dyn World<T>,
    rng: Rng,
    /// Slots the iterator may use without asking again.
    known: u64,
    seen_dead: [bool; 3],
}

const WHO: [Who; 3] = [Who::P, Who::W, Who::C];
fn fail(c: Cat, m: String) {
    rt().fail(c, m)
}
fn fatal(c: Cat, m: String) {
    rt().fatal(c, m)
}
fn log(f: impl FnOnce() -> String) {
    rt().note(f)
}
fn show(k: u64) -> String {
    if k >= BAD - 4 { "something which is no value".into() } else { format!("#{}.{}", k as u32, k >> 32) }
}

impl<T: Item> Agent<T> {
    fn sh(&self) -> &'static mut Shared {
        unsafe { &mut *self.sh }
    }
    fn exec(&mut self, op: Op<T>) -> Out<T> {
        let r = rt();
        if !self.sh().conf.awaits || r.cur == rt::MAIN || self.form() != Form::Async {
            return unsafe { (*self.world).exec(WHO[self.who], op) };
        }
        // The patience of the task, in polls which it has been woken for.
        let mut patience = match self.pick(6) { 0 => 0, 1 => 40, n => 2 * n };
        let (fresh, spurious) = (self.pick(3), self.pick(10) == 0);
        let w = self.world;
        rt::await_begins(op.arg() as u64);
        let rng: *mut Rng = &mut self.rng;
        let mut poller = |_: &mut dyn World<T>, n: u32| {
            let rng = unsafe { &mut *rng };
            if n > 0 {
                rt::pending();
                if patience == 0 {
                    return None;
                }
                patience -= 1;
                // (a task may be polled without having been woken)
                let sleeps = !spurious || rng.below(2) == 0;
                if sleeps && !rt::sleep() {
                    return None;
                }
            }
            Some(rt::bell(n == 0 || rng.below(2) < fresh))
        };
        unsafe { (*w).hold(WHO[self.who], op, &mut poller).0 }
    }
    fn form(&self) -> Form {
        unsafe { (*self.world).form(WHO[self.who]) }
    }
    fn loc(&self) -> u64 {
        rt().loc[self.who]
    }
    fn pick(&mut self, n: u64) -> u64 {
        self.rng.below(n)
    }
    /// Number of slots to ask for.
    fn slots(&mut self) -> u64 {
        let most = if !VMEM { rt().len } else { match self.pick(40) { 0 => rt().len, 1..=4 => 200, _ => 12 } };
        1 + self.pick(most)
    }
    fn stop(&self) -> bool {
        rt().viol.is_some()
    }
    fn detached(&self) -> bool {
        matches!(self.form(), Form::Det | Form::ADet)
    }

    /// Runs a call. `n`: number of slots it asks for and publishes.
    fn call(&mut self, op: Op<T>, pubs: Pubs, reads: bool) -> (Out<T>, (u32, u64), u64) {
        let name = op.name();
        let arg = op.arg();
        let before = rt().truth(self.who);
        log(|| format!("{name}({arg}) begins, {before} slots are really available"));
        rt::enter(name, pubs, reads, name == "wait_for");
        rt().asy[rt().cur] = self.form() == Form::Async;
        let o = self.exec(op);
        let m = rt::leave();
        rt().det[self.who] = self.detached();
        log(|| format!("{name}({arg}) ends: {}", match &o { Out::Unsup => "unsupported".into(), Out::No => "refused".into(), Out::Back(_) => "refused, value handed back".into(), Out::N(n) => format!("{n}"), Out::Into(b, _) | Out::IntoMany(b, _) => format!("{b}"), _ => "done".to_string() }));
        rt().counts.up(if matches!(o, Out::No | Out::Back(_) | Out::Into(false, _) | Out::IntoMany(false, _)) { "refused" } else { "granted_or_done" }, 1);
        (o, m, before)
    }
    /// A request for `n` slots has been refused.
    fn refused(&mut self, name: &str, n: u64, m: (u32, u64), before: u64) {
        if m.1 > 0 || m.0 > 0 {
            fail(Cat::Refused, format!("{name} is refused and publishes a position all the same"));
        }
        if rt().stale == 0 && before >= n {
            fail(Cat::Under, format!("{name} asks for {n} slots and is refused, while {before} were available when it began and nothing stale is read"));
        }
    }
    /// A request for `n` slots has been granted, at the local position.
    fn granted(&mut self, name: &str, n: u64) {
        let t = rt().truth(self.who);
        rt().counts.up("grants_checked", 1);
        if t < n {
            (if n < rt().len { fail } else { fatal })(Cat::Region, format!("{name} is granted {n} slots at position {}, of which only {t} belong to it", self.loc()));
        }
    }
    /// An operation which moves by `n` has been granted.
    fn moved(&mut self, name: &str, n: u64, m: (u32, u64)) {
        if m.1 != n && n % rt().len != 0 {
            fail(Cat::Under, format!("{name} has moved by {n} and published {} positions", m.1));
        }
        rt().loc[self.who] += n;
        self.known = self.known.saturating_sub(n);
    }
    fn slot(&self, pos: u64) -> usize {
        let r = rt();
        r.base + r.size * (pos % r.len) as usize
    }
    fn expected(&self, pos: u64) -> u64 {
        self.sh().expected.get(pos as usize).copied().unwrap_or(0)
    }
    fn expect(&mut self, pos: u64, k: u64) {
        let e = &mut self.sh().expected;
        if e.len() <= pos as usize {
            e.resize(pos as usize + 1, 0);
        }
        e[pos as usize] = k;
    }
    fn fresh(&mut self) -> u64 {
        let s = self.sh();
        s.next_id += 1;
        key(s.next_id, 0)
    }
    /// The consumer got `k` for the item at `pos`.
    fn got(&mut self, name: &str, pos: u64, k: u64) {
        let e = self.expected(pos);
        rt().counts.up("values_compared", 1);
        if k != e {
            fail(Cat::Value, format!("{name} yields {} for position {pos}, where {} is due", show(k), show(e)));
        }
        let released = rt().limit_of(2);
        if pos >= released {
            fail(Cat::Early, format!("{name} yields the item of position {pos}, of which only those up to {released} have been released"));
        }
    }

    // Accesses through references: they may be interrupted.
    fn read_at(&mut self, a: usize) -> u64 {
        rt::touch(a, false);
        let k = unsafe { (*(a as *const T)).key() };
        k
    }

    fn push(&mut self) {
        let n;
        let gaps = self.sh().gaps;
        let asy = self.form() == Form::Async;
        let pos = self.loc();
        match self.pick(9) {
            0 | 1 | 2 => {
                let k = self.fresh();
                self.expect(pos, k);
                let v = T::make(k);
                let op = if gaps || self.pick(4) == 0 { Op::PushInit(v) } else { Op::Push(v) };
                let (o, m, b) = self.call(op, Pubs::Exactly(1), false);
                match o {
                    Out::Yes => {
                        self.granted_at("push", 1);
                        self.moved("push", 1, m);
                        self.done(1);
                    }
                    Out::Back(v) => {
                        if v.key() != k {
                            fail(Cat::Refused, format!("push hands back {} instead of {}", show(v.key()), show(k)));
                        }
                        self.refused("push", 1, m, b);
                        self.unexpect(pos);
                    }
                    Out::No => {
                        self.refused("push", 1, m, b);
                        self.unexpect(pos);
                    }
                    _ => {}
                }
            }
            3 | 4 | 5 => {
                n = if VMEM { self.slots() } else { 1 + self.pick(rt().len + if self.sh().conf.mode == Mode::Pipe { 0 } else { 1 }) };
                let n = self.cap(n);
                if n == 0 {
                    return;
                }
                let ks: Vec<u64> = (0..n).map(|_| self.fresh()).collect();
                for (i, k) in ks.iter().enumerate() {
                    self.expect(pos + i as u64, *k);
                }
                let v: Vec<T> = ks.iter().map(|k| T::make(*k)).collect();
                let init = gaps || self.pick(3) == 0;
                let clone = T::TRACKED || self.pick(2) == 0;
                let op = match (init, clone) {
                    (false, false) => Op::PushSlice(v),
                    (true, false) => Op::PushSliceInit(v),
                    (false, true) => Op::PushSliceClone(v),
                    (true, true) => Op::PushSliceCloneInit(v),
                };
                let (o, m, b) = self.call(op, Pubs::Exactly(n), false);
                match o {
                    Out::Yes => {
                        self.granted_at("push_slice", n);
                        self.moved("push_slice", n, m);
                        self.done(n);
                    }
                    _ => {
                        self.refused("push_slice", n, m, b);
                        for i in 0..n {
                            self.unexpect(pos + i);
                        }
                    }
                }
            }
            6 => {
                let (o, m, b) = self.call(Op::NextItemInit, Pubs::None, false);
                match o {
                    Out::Ptr(p) => {
                        self.granted("get_next_item_mut_init", 1);
                        self.address("get_next_item_mut_init", p as usize, pos);
                        if self.stop() {
                            return;
                        }
                        rt::point("granted");
                        self.store(p, pos);
                        rt::point("written");
                        self.known = self.known.max(1);
                        self.advance(1);
                        self.done(1);
                    }
                    _ => self.refused("get_next_item_mut_init", 1, m, b),
                }
            }
            7 if !gaps => {
                let n = self.slots();
                let n = self.cap(n);
                let op = if asy || self.pick(2) == 0 { Op::NextSlicesMut(n as usize) } else { Op::Exact(n as usize) };
                let (o, m, b) = self.call(op, Pubs::None, false);
                match o {
                    Out::Win(w) => {
                        self.window("get_next_slices_mut", &w, n);
                        for i in 0..n {
                            if self.stop() {
                                return;
                            }
                            self.store(w.at(i as usize), pos + i);
                            if self.pick(2) == 0 {
                                rt::point("written");
                            }
                        }
                        self.known = self.known.max(n);
                        let k = if self.pick(3) == 0 { self.pick(n + 1) } else { n };
                        self.advance(k);
                        self.done(k);
                    }
                    _ => self.refused("get_next_slices_mut", n, m, b),
                }
            }
            _ => {
                self.available();
            }
        }
    }
    fn unexpect(&mut self, pos: u64) {
        // (what the position held before cannot be consumed anyway)
        self.expect(pos, 0);
    }
    /// A call which has been granted and has published: its slots were the iterator's own.
    fn granted_at(&mut self, _name: &str, _n: u64) {
        rt().counts.up("grants_checked", 1);
    }
    /// No more than what the pipeline still needs.
    fn cap(&self, n: u64) -> u64 {
        if self.sh().conf.mode != Mode::Pipe { n } else { n.min(self.sh().quota[self.who]).min(rt().len.saturating_sub(1)) }
    }
    fn done(&mut self, n: u64) {
        let q = &mut self.sh().quota[self.who];
        *q = q.saturating_sub(n);
    }
    fn address(&mut self, name: &str, a: usize, pos: u64) {
        if a != self.slot(pos) && !(VMEM && a == self.slot(pos) + rt().size * rt().len as usize) {
            fatal(Cat::Region, format!("{name} does not yield the slot of position {pos}"));
        }
    }
    fn window(&mut self, name: &str, w: &Win<T>, n: u64) {
        if w.len() as u64 != n {
            fatal(Cat::Region, format!("{name} yields {} slots instead of {n}", w.len()));
            return;
        }
        self.granted(name, n);
        let pos = self.loc();
        for i in 0..n {
            if self.stop() {
                return;
            }
            self.address(name, w.at(i as usize) as usize, pos + i);
        }
        rt().counts.up("windows", 1);
    }
    fn store(&mut self, p: *mut T, pos: u64) {
        let k = self.fresh();
        self.expect(pos, k);
        unsafe {
            let zero = mutringbuf::UnsafeSyncCell::check_zeroed(p);
            let v = T::make(k);
            if zero {
                p.write(v);
            } else {
                *p = v;
            }
        }
        rt::settle_slots();
    }

    fn advance(&mut self, n: u64) {
        if self.detached() {
            let (_, m, _) = self.call(Op::Advance(n as usize), Pubs::None, false);
            if m.0 > 0 {
                fail(Cat::Detached, "a detached advance publishes".into());
            }
            rt().loc[self.who] += n;
            self.known = self.known.saturating_sub(n);
        } else {
            let (_, m, _) = self.call(Op::Advance(n as usize), Pubs::Exactly(n), false);
            self.moved("advance", n, m);
        }
    }
    fn available(&mut self) -> u64 {
        let (o, m, b) = self.call(Op::Avail, Pubs::None, false);
        let Out::N(n) = o else { return 0 };
        let n = n as u64;
        let t = rt().truth(self.who);
        rt().counts.up("availabilities_checked", 1);
        if n > t {
            (if n < rt().len { fail } else { fatal })(Cat::Over, format!("available() reports {n} while only {t} slots can be used"));
        }
        if m.0 > 0 {
            fail(Cat::Refused, "available() publishes a position".into());
        }
        if rt().stale == 0 && n < b {
            fail(Cat::Under, format!("available() reports {n}, while {b} slots were available when it began and nothing stale is read"));
        }
        let ahead = match self.who { 0 => 2, 2 if rt().three => 1, _ => 0 };
        if self.seen_dead[ahead] {
            let t = rt().truth(self.who);
            rt().counts.up("looks_after_a_peer_was_seen_dead", 1);
            if n < t {
                fail(Cat::Flag, format!("the {} has been observed as dropped, yet available() reports {n} instead of the {t} slots it has left behind", rt::NAMES[ahead]));
            }
        }
        self.known = n;
        n
    }
    fn flags(&mut self) {
        rt().asy[rt().cur] = false;
        rt::enter("is_*_alive", Pubs::None, false, false);
        let v = unsafe { (*self.world).view(WHO[self.who]) };
        rt::leave();
        let Some(v) = v else { return };
        rt().counts.up("flags_checked", 1);
        log(|| format!("sees alive: {:?}, published {:?}", v.alive, v.published));
        for i in 0..3 {
            if rt().exists[i] && !v.alive[i] {
                if !rt().drop_begun[i] {
                    fail(Cat::Flag, format!("the {} is reported as dropped while it exists", rt::NAMES[i]));
                }
                self.seen_dead[i] = true;
            }
        }
        if v.index as u64 != self.loc() % rt().len {
            fail(Cat::Order, format!("index() is {} at position {}", v.index, self.loc()));
        }
        let t = rt().truth(self.who);
        let _ = t;
        self.available();
    }
    fn edit(&mut self, p: *mut T, pos: u64) {
        let k = self.read_at(p as usize);
        let e = self.expected(pos);
        rt().counts.up("values_compared", 1);
        if k != e {
            fail(Cat::Value, format!("the {} finds {} at position {pos}, where {} is due", rt::NAMES[self.who], show(k), show(e)));
            return;
        }
        rt::point("read");
        let k = key(k as u32, (k >> 32) as u32 + 1);
        self.expect(pos, k);
        unsafe { (*p).set_key(k) };
        rt::settle_slots();
        rt().counts.up("in_place_edits", 1);
    }

    /// Workable references: edit, then move on.
    fn work(&mut self) {
        let pos = self.loc();
        match self.pick(6) {
            0 | 1 => {
                let (o, m, b) = self.call(Op::Item, Pubs::None, false);
                match o {
                    Out::Ptr(p) => {
                        self.granted("get_workable", 1);
                        self.address("get_workable", p as usize, pos);
                        if self.stop() {
                            return;
                        }
                        rt::point("granted");
                        if self.pick(4) != 0 {
                            self.edit(p, pos);
                        }
                        rt::point("edited");
                        self.known = self.known.max(1);
                        if self.pick(5) != 0 {
                            self.advance(1);
                            self.done(1);
                            self.deliver(1);
                        }
                    }
                    Out::Unsup => {}
                    _ => self.refused("get_workable", 1, m, b),
                }
            }
            2 | 3 | 4 => {
                let f = self.pick(3);
                let n = self.slots();
                let n = self.cap(n).max(1);
                let op = match f { 0 => Op::Exact(n as usize), 1 => Op::AvailSlice, _ => Op::Multiple(n as usize) };
                let name = op.name();
                let (o, m, b) = self.call(op, Pubs::None, false);
                match o {
                    Out::Win(w) => {
                        let k = match f { 0 => n, 1 => w.len() as u64, _ => w.len() as u64 };
                        if f == 2 && (k % n != 0 || k == 0) {
                            fatal(Cat::Region, format!("{name}({n}) yields {k} slots"));
                            return;
                        }
                        self.window(name, &w, k);
                        for i in 0..k {
                            if self.stop() {
                                return;
                            }
                            if self.pick(3) != 0 {
                                self.edit(w.at(i as usize), pos + i);
                            }
                        }
                        self.known = self.known.max(k);
                        let a = self.pick(3);
                        let k = if a == 0 { self.pick(k + 1) } else { k };
                        let k = if self.sh().conf.mode == Mode::Pipe { k.min(self.sh().quota[self.who]) } else { k };
                        self.advance(k);
                        self.done(k);
                        self.deliver(k);
                    }
                    Out::Unsup => {}
                    _ => self.refused(name, if f == 1 { 1 } else { n }, m, b),
                }
            }
            _ => {
                let n = self.available();
                if n > 0 && self.pick(2) == 0 && self.who != 0 {
                    let k = 1 + self.pick_ref(n);
                    let k = self.cap(k);
                    self.advance(k);
                    self.done(k);
                    self.deliver(k);
                }
            }
        }
    }
    fn pick_ref(&mut self, n: u64) -> u64 {
        self.rng.below(n)
    }
    fn deliver(&mut self, n: u64) {
        if self.who == 2 {
            self.sh().delivered += n;
        }
    }

    fn consume(&mut self) {
        let pos = self.loc();
        let mv = self.sh().gaps;
        match self.pick(10) {
            0 | 1 | 2 => {
                let mv = mv && (T::TRACKED || self.pick(2) == 0);
                let (o, m, b) = self.call(if mv { Op::PopMove } else { Op::Pop }, Pubs::Exactly(1), true);
                let k = match &o {
                    Out::Dup(v) => v.key_of(),
                    Out::Val(v) => v.key(),
                    _ => return self.refused("pop", 1, m, b),
                };
                if !T::TRACKED || mv {
                    self.got("pop", pos, k);
                }
                self.moved("pop", 1, m);
                self.done(1);
                self.deliver(1);
            }
            3 | 4 => {
                let copy = !T::TRACKED && self.pick(2) == 0;
                let d = T::make(key(777, 7));
                let (o, m, b) = self.call(if copy { Op::CopyItem(d) } else { Op::CloneItem(d) }, Pubs::Exactly(1), true);
                match o {
                    Out::Into(true, d) => {
                        self.got("copy_item", pos, d.key());
                        self.moved("copy_item", 1, m);
                        self.done(1);
                        self.deliver(1);
                    }
                    Out::Into(false, d) => {
                        if d.key() != key(777, 7) {
                            fail(Cat::Refused, "a refused copy writes its destination".into());
                        }
                        self.refused("copy_item", 1, m, b);
                    }
                    _ => {}
                }
            }
            5 | 6 => {
                let n = self.slots();
                let n = self.cap(n);
                if n == 0 {
                    return;
                }
                let copy = !T::TRACKED && self.pick(2) == 0;
                let d: Vec<T> = (0..n).map(|_| T::make(key(777, 7))).collect();
                let (o, m, b) = self.call(if copy { Op::CopySlice(d) } else { Op::CloneSlice(d) }, Pubs::Exactly(n), true);
                match o {
                    Out::IntoMany(true, d) => {
                        for (i, v) in d.iter().enumerate() {
                            self.got("copy_slice", pos + i as u64, v.key());
                        }
                        self.moved("copy_slice", n, m);
                        self.done(n);
                        self.deliver(n);
                    }
                    Out::IntoMany(false, d) => {
                        if d.iter().any(|v| v.key() != key(777, 7)) {
                            fail(Cat::Refused, "a refused copy writes its destination".into());
                        }
                        self.refused("copy_slice", n, m, b);
                    }
                    _ => {}
                }
            }
            7 => {
                let (o, m, b) = self.call(Op::PeekRef, Pubs::None, false);
                match o {
                    Out::Ptr(p) => {
                        self.granted("peek_ref", 1);
                        self.address("peek_ref", p as usize, pos);
                        if self.stop() {
                            return;
                        }
                        rt::point("granted");
                        let k = self.read_at(p as usize);
                        self.got("peek_ref", pos, k);
                        rt::point("read");
                        let k = self.read_at(p as usize);
                        self.got("peek_ref, again,", pos, k);
                        self.known = self.known.max(1);
                        self.advance(1);
                        self.done(1);
                        self.deliver(1);
                    }
                    Out::Unsup => {}
                    _ => self.refused("peek_ref", 1, m, b),
                }
            }
            8 => {
                let all = self.pick(2) == 0;
                let n = self.slots();
                let n = self.cap(n).max(1);
                let (o, m, b) = self.call(if all { Op::PeekAvail } else { Op::PeekSlice(n as usize) }, Pubs::None, false);
                match o {
                    Out::Win(w) => {
                        let n = if all { w.len() as u64 } else { n };
                        self.window("peek_slice", &w, n);
                        for i in 0..n {
                            if self.stop() {
                                return;
                            }
                            let k = self.read_at(w.at(i as usize) as usize);
                            self.got("peek_slice", pos + i, k);
                            if self.pick(2) == 0 {
                                rt::point("read");
                            }
                        }
                        self.known = self.known.max(n);
                        let n = if self.sh().conf.mode == Mode::Pipe { n.min(self.sh().quota[2]) } else { n };
                        let n = if self.pick(3) == 0 { self.pick(n + 1) } else { n };
                        self.advance(n);
                        self.done(n);
                        self.deliver(n);
                    }
                    Out::Unsup => {}
                    _ => self.refused("peek_slice", n, m, b),
                }
            }
            _ => self.work(),
        }
    }

    fn publish(&mut self, op: Op<T>) {
        let name = op.name();
        let w = self.who;
        if rt().loc[w] < rt().pos[w] {
            fatal(Cat::Order, "has published beyond its own position".into());
        }
        if self.stop() {
            return;
        }
        let d = rt().loc[w] - rt().pos[w];
        let (_, m, _) = self.call(op, Pubs::AtOnce(d), false);
        if m.1 != d && d % rt().len != 0 {
            fail(Cat::Attach, format!("{name} publishes {} positions instead of {d}", m.1));
        }
    }
    fn detach(&mut self) {
        let (_, m, _) = self.call(Op::Detach, Pubs::None, false);
        if m.0 > 0 {
            fail(Cat::Detached, "detach publishes".into());
        }
        for _ in 0..1 + self.pick(5) {
            let w = self.who;
            if rt().loc[w] < rt().pos[w] {
                fatal(Cat::Order, "has published beyond its own position".into());
            }
            if self.stop() {
                return;
            }
            let full = self.form() == Form::Det;
            match self.pick(8) {
                0 => {
                    let d = rt().loc[w] - rt().pos[w];
                    if d > 0 {
                        let k = 1 + self.pick(d);
                        let (_, m, _) = self.call(Op::GoBack(k as usize), Pubs::None, false);
                        if m.0 > 0 {
                            fail(Cat::Detached, "go_back publishes".into());
                        }
                        rt().loc[w] -= k;
                        self.known += k;
                        if self.known > rt().truth(w) {
                            self.known = rt().truth(w);
                        }
                    }
                }
                1 => self.publish(Op::SyncIndex),
                2 if full => {
                    // to any position which it knows to be its own
                    let (lo, hi) = (rt().pos[w], rt().loc[w] + self.known);
                    let to = lo + self.pick(hi - lo + 1);
                    let (_, m, _) = self.call(Op::SetIndex((to % rt().len) as usize), Pubs::None, false);
                    if m.0 > 0 {
                        fail(Cat::Detached, "set_index publishes".into());
                    }
                    rt().loc[w] = to;
                    self.known = hi - to;
                    self.available();
                    // (what the producer skips has not been accepted)
                    if w == 0 || self.pick(2) == 0 || (w == 2 && self.sh().gaps && T::TRACKED) {
                        self.back_to(lo);
                    }
                }
                3 if full && w != 0 => {
                    let lo = rt().pos[w];
                    let (_, m, _) = self.call(Op::ResetIndex, Pubs::None, false);
                    if m.0 > 0 {
                        fail(Cat::Detached, "reset_index of a detached iterator publishes".into());
                    }
                    rt().monitor = true;
                    let v = unsafe { (*self.world).view(WHO[w]) };
                    rt().monitor = false;
                    let Some(v) = v else { return };
                    let len = rt().len;
                    let to = lo + (v.index as u64 + len - lo % len) % len;
                    if to > rt().limit_of(w) {
                        fatal(Cat::Order, format!("reset_index moves to position {to}, beyond {}", rt().limit_of(w)));
                        return;
                    }
                    rt().loc[w] = to;
                    self.known = 0;
                    self.available();
                    if w == 2 && self.sh().gaps && T::TRACKED {
                        self.back_to(lo);
                    }
                }
                _ if !full => {
                    if self.known > 0 {
                        let k = 1 + self.pick(self.known);
                        if w != 0 {
                            self.advance(k);
                        }
                    }
                }
                _ if w == 0 && self.sh().gaps => {
                    self.available();
                }
                _ if w == 0 => {
                    // fill through references, move locally
                    let n = self.slots();
                    let pos = self.loc();
                    let (o, m, b) = self.call(Op::Exact(n as usize), Pubs::None, false);
                    match o {
                        Out::Win(win) => {
                            self.window("get_workable_slice_exact", &win, n);
                            for i in 0..n {
                                if self.stop() {
                                    return;
                                }
                                self.store(win.at(i as usize), pos + i);
                            }
                            self.known = self.known.max(n);
                            self.advance(n);
                        }
                        _ => self.refused("get_workable_slice_exact", n, m, b),
                    }
                }
                _ => self.work(),
            }
        }
        if self.stop() {
            return;
        }
        let d = rt().loc[self.who] - rt().pos[self.who];
        self.publish(Op::Attach);
        let _ = d;
    }
    fn back_to(&mut self, pos: u64) {
        let hi = rt().loc[self.who] + self.known;
        self.call(Op::SetIndex((pos % rt().len) as usize), Pubs::None, false);
        rt().loc[self.who] = pos;
        self.known = hi - pos;
    }
    fn reset(&mut self) {
        let w = self.who;
        let done = std::mem::replace(&mut rt().reset_done, true);
        let (o, m, b) = self.call(Op::ResetIndex, Pubs::Any, false);
        if matches!(o, Out::Unsup) {
            rt().reset_done = done;
            return;
        }
        rt().counts.up("resets", 1);
        if rt().stale == 0 && m.1 < b {
            fail(Cat::Reset, format!("reset_index skips {} positions while {b} were available when it began", m.1));
        }
        rt().loc[w] = rt().pos[w];
        self.known = 0;
        self.sh().skipped += m.1;
    }

    fn step(&mut self) {
        let pipe = self.sh().conf.mode == Mode::Pipe;
        let w = self.who;
        let x = self.pick(16);
        match (w, x) {
            (_, 0) => self.flags(),
            (_, 1) if !pipe || w != 2 => {
                if !pipe {
                    self.detach()
                }
            }
            (0, _) => self.push(),
            (1 | 2, 2) if !pipe && !(w == 2 && T::TRACKED && self.sh().gaps) => self.reset(),
            (1, _) => self.work(),
            _ => self.consume(),
        }
    }

    pub fn body(&mut self) {
        let conf = self.sh().conf.clone();
        let w = self.who;
        if conf.asy & (1 << w) != 0 {
            self.exec(Op::ToAsync);
        }
        match conf.mode {
            Mode::Pipe => {
                while self.sh().quota[w] > 0 && !self.stop() {
                    if self.pick(12) == 0 && rt().len > 1 {
                        let (_, m, _) = self.call(Op::WaitFor(1), Pubs::None, false);
                        if m.0 > 0 {
                            fail(Cat::Refused, "wait_for publishes".into());
                        }
                        self.known = self.known.max(1);
                        self.granted("wait_for", 1);
                    }
                    self.step();
                }
            }
            _ => {
                for _ in 0..conf.ops[w] {
                    if self.stop() {
                        return;
                    }
                    self.step();
                }
            }
        }
        if self.stop() {
            return;
        }
        if conf.drops & (1 << w) != 0 {
            if self.pick(4) == 0 && !self.detached() && !(w == 0) {
                self.call(Op::Detach, Pubs::None, false);
            }
            self.drop_it();
        }
    }
    pub fn drop_it(&mut self) {
        let w = self.who;
        let r = rt();
        log(|| "drops its iterator".into());
        r.drop_begun[w] = true;
        let others = (0..3).filter(|i| r.exists[*i] && r.drop_begun[*i] && !r.drop_done[*i]).count();
        if others > 1 {
            r.overlap = true;
            r.counts.up("overlapping_drops", 1);
        }
        rt().asy[rt().cur] = false;
        rt::enter("drop", Pubs::None, false, false);
        self.exec(Op::Drop);
        rt::leave();
        rt().drop_done[w] = true;
        rt().counts.up("iterators_dropped", 1);
        log(|| "has dropped its iterator".into());
    }
}

trait KeyOf {
    fn key_of(&self) -> u64;
}
impl<T: Item> KeyOf for ManuallyDrop<T> {
    fn key_of(&self) -> u64 {
        (**self).key()
    }
}

pub struct Outcome {
    pub viol: Option<(Cat, String)>,
    pub nontrivial: bool,
    pub hash: u64,
    pub finished: bool,
}

thread_local! {
    static STACKS: std::cell::RefCell<Vec<DefaultStack>> = const { std::cell::RefCell::new(vec![]) };
}

/// Copies a handle onto the buffer, which is not counted as an iterator.
fn ghost<B: MutRB + 'static>(p: &ProdIter<'static, B>) -> Box<dyn Fn() -> [usize; 3]>
where
    ProdIter<'static, B>: MRBIterator,
{
    let g = ManuallyDrop::new(unsafe { std::ptr::read(p) });
    Box::new(move || [g.prod_index(), g.work_index(), g.cons_index()])
}

fn drive<T: Item>(world: &mut dyn World<T>, conf: &Conf, base: usize) -> Outcome {
    let r = rt();
    r.rng = Rng::new(conf.seed ^ 0x5C4E_D01E);
    r.strategy = conf.strategy;
    r.stale = if r.no_hb { 0 } else { conf.stale };
    r.limit = if conf.mode == Mode::Pipe { 400_000 } else { 100_000 };
    for t in 0..3 {
        r.prio[t] = 50 + r.rng.below(50) as u32;
    }
    for i in 0..4 {
        r.change[i] = if i < 3 { 1 + r.rng.below(90) } else { 0 };
    }
    r.freeze_at = 1 + r.rng.below(60);
    r.stack_buffer = conf.stack;
    if conf.start > 0 {
        for w in [Who::P, Who::W, Who::C] {
            if w != Who::W || conf.three {
                world.exec(w, Op::Advance(conf.start as usize));
            }
        }
    }
    r.begin(base, size_of::<T>(), conf.len, conf.three, conf.start);

    let gaps = conf.zeroed || (conf.owned);
    let q = if conf.len > 1 { conf.items } else { 0 };
    let mut sh = Shared { expected: vec![0; conf.start as usize], next_id: 0, delivered: 0, skipped: 0, conf: conf.clone(), gaps, quota: [q; 3] };
    let shp: *mut Shared = &mut sh;
    let wp: *mut dyn World<T> = unsafe { std::mem::transmute::<*mut dyn World<T>, *mut dyn World<T>>(world as *mut _) };
    let mut seeds = Rng::new(conf.seed ^ 0xA6E7);
    let mut agents: Vec<Box<Agent<T>>> = (0..3).map(|who| Box::new(Agent { who, sh: shp, world: wp, rng: Rng::new(seeds.next()), known: 0, seen_dead: [false; 3] })).collect();

    let mut cos: Vec<Option<Coroutine<(), (), (), DefaultStack>>> = vec![];
    for t in 0..3 {
        if t == 1 && !conf.three {
            cos.push(None);
            r.runnable[t] = false;
            continue;
        }
        let st = STACKS.with_borrow_mut(|s| s.pop()).unwrap_or_else(|| DefaultStack::new(96 << 10).unwrap());
        let a: *mut Agent<T> = &mut *agents[t];
        cos.push(Some(Coroutine::with_stack(st, move |y, ()| {
            rt().yielders[t] = y;
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { (*a).body() }));
            if let Err(e) = res {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                rt().fail(Cat::Panic, format!("panic: {m}"));
            }
        })));
        r.runnable[t] = true;
    }
    let mut last = 9;
    while let Some(t) = rt().choose() {
        let r = rt();
        r.cur = t;
        if last != t {
            r.counts.up("context_switches", 1);
            last = t;
        }
        let done = matches!(cos[t].as_mut().unwrap().resume(()), CoroutineResult::Return(()));
        let r = rt();
        if done {
            r.runnable[t] = false;
            let c = cos[t].take().unwrap();
            STACKS.with_borrow_mut(|s| s.push(c.into_stack()));
        }
        if r.viol.is_some() || r.events > r.limit {
            break;
        }
    }
    let r = rt();
    if r.events > r.limit && r.viol.is_none() {
        r.fail(Cat::Drain, format!("after {} steps the stages still wait: they lack {:?} items", r.events, sh.quota));
    }
    if r.viol.is_some() {
        // The threads are not continued, nor unwound.
        for mut c in cos.into_iter().flatten() {
            unsafe { c.force_reset() };
            STACKS.with_borrow_mut(|s| s.push(c.into_stack()));
        }
        r.active = false;
        let viol = r.viol.take();
        let hash = r.sched_hash;
        std::mem::forget(agents);
        return Outcome { viol, nontrivial: true, hash, finished: false };
    }
    // Joined.
    r.join_all();
    r.stale = 0;
    log(|| "all threads are joined".into());
    let preempted = r.preempted;
    let mut present = [false; 3];
    for w in 0..3 {
        present[w] = rt().exists[w] && !rt().drop_begun[w];
    }
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| joined(&mut agents, present, wp)));
    if res.is_err() {
        rt().fail(Cat::Panic, "panic after the threads were joined".into());
    }
    let r = rt();
    let nontrivial = preempted > 0 && if conf.mode == Mode::Drops { r.overlap } else { sh.delivered > 0 };
    r.counts.up("values_delivered", sh.delivered);
    r.counts.up("preemptions_within_calls", preempted);
    let viol = r.viol.take().or(r.tainted.take());
    Outcome { finished: viol.is_none(), viol, nontrivial, hash: r.sched_hash }
}

/// What main finds once all threads have finished.
fn joined<T: Item>(agents: &mut [Box<Agent<T>>], present: [bool; 3], _world: *mut dyn World<T>) {
    for w in 0..3 {
        if present[w] {
            let b = rt().truth(w);
            let n = agents[w].available();
            if n > b {
                rt().fail(Cat::Over, format!("after the join the {} finds {n} slots instead of {b}", rt::NAMES[w]));
            } else if n < b {
                return rt().fail(Cat::Under, format!("after the join the {} finds {n} slots instead of {b}", rt::NAMES[w]));
            }
        }
    }
    // The consumer takes what is left.
    if present[2] {
        if present[1] {
            let n = agents[1].available();
            if n > 0 {
                agents[1].advance(n);
            }
        }
        let mut guard = 0;
        while rt().truth(2) > 0 && rt().viol.is_none() {
            let a = &mut agents[2];
            let before = a.loc();
            a.consume();
            guard += 1;
            if guard > 400 + 2 * rt().len as usize {
                return rt().fail(Cat::Lost, "what is left cannot be consumed".into());
            }
            let _ = before;
        }
        if rt().viol.is_none() {
            let (c, lim) = (rt().pos[2], rt().limit_of(2));
            if c != lim || agents[2].available() != 0 {
                return rt().fail(Cat::Lost, format!("drained up to position {c} of {lim}"));
            }
            rt().counts.up("drained", 1);
        }
    }
    let mut order = [0, 1, 2];
    let k = agents[0].rng.below(6) as usize;
    order.swap(0, k % 3);
    order.swap(1, 1 + k / 3);
    for w in order {
        if present[w] && rt().viol.is_none() {
            agents[w].drop_it();
        }
    }
}

fn finish<T: Item>(mut o: Outcome, conf: &Conf, harness_blocks: usize) -> Outcome {
    let r = rt();
    if o.viol.is_none() {
        let left = crate::alloc::finish();
        if left > harness_blocks && !conf.stack {
            r.fail(Cat::Life, format!("{left} blocks of the buffer are still allocated after the last iterator has been dropped"));
        }
        if T::TRACKED && r.alive != 0 {
            r.fail(Cat::Ledger, format!("{} values have not been destroyed", r.alive));
        }
        o.viol = r.viol.take();
    }
    r.active = false;
    r.ghost = None;
    o
}

/// Contents of a fresh buffer.
fn contents<T: Item>(conf: &Conf) -> Vec<T> {
    (0..conf.len).map(|i| T::make(key((1 << 20) + i as u32, 0))).collect()
}

pub fn run_as<T: Item>(conf: &Conf) -> Outcome {
    let r = rt();
    r.active = false;
    r.ledger.clear();
    r.ledger.reserve(4096);
    r.alive = 0;
    r.cur = rt::MAIN;
    #[cfg(not(feature = "vmem"))]
    if conf.stack {
        let mut buf: Box<ConcurrentStackRB<T, 3>> = Box::new(if conf.zeroed { unsafe { ConcurrentStackRB::new_zeroed() } } else {
            let v: [T; 3] = contents::<T>(conf).try_into().ok().unwrap();
            ConcurrentStackRB::from(v)
        });
        // The box is watched so that a release by an iterator is noticed.
        unsafe {
            let p = &raw mut crate::alloc::BLOCKS;
            (*p)[0] = crate::alloc::Block { at: &*buf as *const _ as usize, layout: std::alloc::Layout::new::<ConcurrentStackRB<T, 3>>(), freed: 0 };
            crate::alloc::N = 1;
        }
        let b: &'static mut ConcurrentStackRB<T, 3> = unsafe { &mut *(&mut *buf as *mut _) };
        macro_rules! go {
            ($p:expr, $w:expr, $c:expr, $m:literal) => {{
                let mut p = $p;
                rt().ghost = Some(ghost(&p));
                let base = first_slot(&mut p);
                let mut wd = Wd::<_, $m> { p: H::S(p), w: $w, c: H::S($c) };
                let o = drive::<T>(&mut wd, conf, base);
                if o.finished { drop(wd) } else { std::mem::forget(wd) }
                o
            }};
        }
        let o = if conf.three {
            let (p, w, c) = b.split_mut();
            go!(p, H::S(w), c, true)
        } else {
            let (p, c) = b.split();
            go!(p, H::Gone, c, false)
        };
        if !o.finished {
            std::mem::forget(buf);
            return o;
        }
        rt().active = false;
        unsafe { crate::alloc::N = 0 };
        drop(buf);
        return finish::<T>(o, conf, 0);
    }
    unsafe { crate::alloc::ON = true };
    let buf: ConcurrentHeapRB<T> = if conf.zeroed { unsafe { ConcurrentHeapRB::new_zeroed(conf.len) } } else { ConcurrentHeapRB::from(contents::<T>(conf)) };
    macro_rules! go {
        ($p:expr, $w:expr, $c:expr, $m:literal) => {{
            crate::alloc::settle();
            let mut p = $p;
            rt().ghost = Some(ghost(&p));
            let base = first_slot(&mut p);
            let mut wd = Wd::<_, $m> { p: H::S(p), w: $w, c: H::S($c) };
            let o = drive::<T>(&mut wd, conf, base);
            std::mem::forget(wd);
            o
        }};
    }
    let o = if conf.three {
        let (p, w, c) = buf.split_mut();
        go!(p, H::S(w), c, true)
    } else {
        let (p, c) = buf.split();
        go!(p, H::Gone, c, false)
    };
    if !o.finished {
        return o;
    }
    finish::<T>(o, conf, 0)
}

/// Address of the first slot. (With len 1 nothing is ever granted, and nothing needs it.)
fn first_slot<B: MutRB + 'static>(p: &mut ProdIter<'static, B>) -> usize
where
    ProdIter<'static, B>: MRBIterator,
    B: 'static,
{
    let q = unsafe { std::mem::ManuallyDrop::new(std::ptr::read(p)) };
    let mut q = q;
    rt().monitor = true;
    let a = base_of(&mut *q);
    rt().monitor = false;
    a
}
fn base_of<'a, T, B: MutRB<Item = T>>(p: &mut ProdIter<'a, B>) -> usize {
    p.get_next_item_mut_init().map_or(0, |x| x as usize)
}

pub fn run(conf: &Conf) -> Outcome {
    let mut c = conf.clone();
    if c.zeroed && !c.owned {
        // empty slots are only handled by the *_init operations
    }
    if c.len == 1 {
        c.zeroed = false;
    }
    if c.owned { run_as::<Ow>(&c) } else { run_as::<Cp>(&c) }
}
