//! Builds a buffer, runs the sessions of a case on it, releases it and judges what is left.

use crate::items::*;
use crate::model::*;
use crate::rng::Rng;
use crate::world::*;
#[cfg(not(feature = "vmem"))]
use mutringbuf::{ConcurrentStackRB, LocalStackRB, StackSplit};
#[cfg(feature = "alloc")]
use mutringbuf::{ConcurrentHeapRB, HeapSplit, LocalHeapRB};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Var {
    CHeap,
    LHeap,
    CStack,
    LStack,
    /// `split_async` / `split_mut_async` of a heap buffer.
    CHeapAsync,
    /// `split_async` / `split_mut_async` of a stack buffer, which moves it to the heap.
    CStackAsync,
}
#[cfg(all(feature = "alloc", not(feature = "vmem")))]
pub const VARS: [Var; 6] = [Var::CHeap, Var::LHeap, Var::CStack, Var::LStack, Var::CHeapAsync, Var::CStackAsync];
#[cfg(feature = "vmem")]
pub const VARS: [Var; 3] = [Var::CHeap, Var::LHeap, Var::CHeapAsync];
#[cfg(not(feature = "alloc"))]
pub const VARS: [Var; 3] = [Var::CStack, Var::LStack, Var::CStackAsync];
/// The one lean items are tried on.
#[cfg(feature = "alloc")]
pub const LEAN: Var = Var::CHeap;
#[cfg(not(feature = "alloc"))]
pub const LEAN: Var = Var::CStack;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Init {
    From,
    /// From a vector with spare capacity.
    FromSpare,
    Default,
    Zeroed,
}

/// What a session consists of.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    /// The script.
    Hist,
    /// Windows of every size at every position and every filling.
    Windows,
    /// Sizes, contents and capacity right after the construction.
    Construct,
    /// The script, with async operations polled any number of times.
    Polls,
    /// The iterators, each in the form given by two bits, are dropped.
    Drops(u8),
}

#[derive(Clone, Debug)]
pub struct Case {
    pub kind: Kind,
    pub item: &'static str,
    pub var: Var,
    pub len: usize,
    pub init: Init,
    /// For each session: three stages?
    pub sessions: Vec<bool>,
    /// Start by changing the form of the iterators (bit set of stages).
    pub to_async: u8,
    pub wrap_detach: bool,
    pub drain: bool,
    pub end: u32,
    pub script: Vec<Raw>,
    pub seed: u64,
}

impl Case {
    pub fn describe(&self) -> String {
        format!("kind={:?} item={} variant={:?} len={} init={:?} sessions={:?} to_async={} wrap_detach={} drain={} end={} ops={} seed={}",
            self.kind, self.item, self.var, self.len, self.init, self.sessions, self.to_async, self.wrap_detach, self.drain, self.end, self.script.len(), self.seed)
    }
}

pub struct Outcome {
    pub viol: Option<Viol>,
    pub log: Vec<String>,
    pub trace: Vec<u64>,
    pub diverged: bool,
}

fn initial<T: Item>(case: &Case) -> Vec<u64> {
    (0..case.len)
        .map(|i| match case.init {
            Init::From | Init::FromSpare => T::fresh(3 * i as u64 + 7),
            Init::Default => unsafe { T::peek_raw(&*std::mem::ManuallyDrop::new(T::default())) },
            Init::Zeroed => T::EMPTY,
        })
        .collect()
}

fn vector<T: Item>(case: &Case, keys: &[u64]) -> Vec<T> {
    let mut v = Vec::with_capacity(keys.len() + if case.init == Init::FromSpare { 3 } else { 0 });
    v.extend(keys.iter().map(|k| T::make(*k)));
    v
}

/// Runs one session.
fn session<T: Item>(m: &mut Model<T>, world: &mut dyn World<T>, case: &Case, n: usize) {
    m.begin(case.sessions[n], world);
    if m.stop {
        return;
    }
    for w in ALL {
        if case.to_async & (1 << w.i()) != 0 && world.form(w) == Form::Sync {
            world.exec(w, Op::ToAsync);
        }
    }
    match case.kind {
        Kind::Hist => {}
        Kind::Windows => crate::modes::windows(m, world, case),
        Kind::Construct => crate::modes::construct(m, world, case),
        Kind::Polls => crate::modes::polls(m, world, case),
        Kind::Drops(f) => crate::modes::forms(m, world, f),
    }
    if m.stop {
        return;
    }
    let per = if case.kind == Kind::Polls { 0 } else { case.script.len() / case.sessions.len() };
    for r in &case.script[n * per..(n + 1) * per] {
        m.step(world, *r);
        if m.stop {
            return;
        }
    }
    if case.drain && n + 1 == case.sessions.len() {
        m.drain(world);
    }
    if !m.stop {
        // What is at stake when the buffer is released.
        m.sweep_all = true;
        m.end(world, case.end / 6u32.pow(n as u32));
    }
}

#[cfg(feature = "alloc")]
macro_rules! heap {
    ($ty:ident, $case:ident, $m:ident, $keys:ident) => {{
        let buf: $ty<T> = match $case.init {
            Init::From | Init::FromSpare => $ty::from(vector::<T>($case, $keys)),
            Init::Default => <$ty<T>>::default($case.len),
            Init::Zeroed => unsafe { $ty::new_zeroed($case.len) },
        };
        $m.owned = true;
        if $case.sessions[0] {
            let (p, w, c) = buf.split_mut();
            let mut wd: Wd<_, true> = Wd { p: H::S(p), w: H::S(w), c: H::S(c) };
            session($m, &mut wd, $case, 0);
            if $m.stop { std::mem::forget(wd); }
        } else {
            let (p, c) = buf.split();
            let mut wd: Wd<_, false> = Wd { p: H::S(p), w: H::Gone, c: H::S(c) };
            session($m, &mut wd, $case, 0);
            if $m.stop { std::mem::forget(wd); }
        }
    }};
}

/// Without an allocator, the buffer is borrowed.
#[cfg(not(feature = "alloc"))]
macro_rules! split_async {
    ($buf:ident, $case:ident, $m:ident) => {{
        let mut buf = std::mem::ManuallyDrop::new($buf);
        if $case.sessions[0] {
            let (p, w, c) = buf.split_mut_async();
            let mut wd: Wd<_, true> = Wd { p: H::A(p), w: H::A(w), c: H::A(c) };
            session($m, &mut wd, $case, 0);
        } else {
            let (p, c) = buf.split_async();
            let mut wd: Wd<_, false> = Wd { p: H::A(p), w: H::Gone, c: H::A(c) };
            session($m, &mut wd, $case, 0);
        }
        if !$m.stop {
            unsafe { std::mem::ManuallyDrop::drop(&mut buf) };
        }
    }};
}

#[cfg(feature = "alloc")]
macro_rules! split_async {
    ($buf:ident, $case:ident, $m:ident) => {{
        $m.owned = true;
        if $case.sessions[0] {
            let (p, w, c) = $buf.split_mut_async();
            let mut wd: Wd<_, true> = Wd { p: H::A(p), w: H::A(w), c: H::A(c) };
            session($m, &mut wd, $case, 0);
            if $m.stop { std::mem::forget(wd); }
        } else {
            let (p, c) = $buf.split_async();
            let mut wd: Wd<_, false> = Wd { p: H::A(p), w: H::Gone, c: H::A(c) };
            session($m, &mut wd, $case, 0);
            if $m.stop { std::mem::forget(wd); }
        }
    }};
}

#[cfg(not(feature = "vmem"))]
macro_rules! stack {
    ($ty:ident, $n:literal, $case:ident, $m:ident, $keys:ident) => {{
        let mut buf: std::mem::ManuallyDrop<$ty<T, $n>> = std::mem::ManuallyDrop::new(match $case.init {
            Init::Zeroed => unsafe { $ty::new_zeroed() },
            _ => $ty::from(std::array::from_fn::<T, $n, _>(|i| T::make($keys[i]))),
        });
        for n in 0..$case.sessions.len() {
            if $case.sessions[n] {
                let (p, w, c) = buf.split_mut();
                let mut wd: Wd<_, true> = Wd { p: H::S(p), w: H::S(w), c: H::S(c) };
                session($m, &mut wd, $case, n);
            } else {
                let (p, c) = buf.split();
                let mut wd: Wd<_, false> = Wd { p: H::S(p), w: H::Gone, c: H::S(c) };
                session($m, &mut wd, $case, n);
            }
            if $m.stop {
                break;
            }
        }
        if !$m.stop {
            unsafe { std::mem::ManuallyDrop::drop(&mut buf) };
        }
    }};
}

pub const STACK_LENS: [usize; 5] = [1, 2, 3, 5, 8];

#[cfg(not(feature = "vmem"))]
fn stacks<T: Item>(case: &Case, m: &mut Model<T>, keys: &[u64]) {
    macro_rules! n {
        ($ty:ident) => {
            match case.len {
                1 => stack!($ty, 1, case, m, keys),
                2 => stack!($ty, 2, case, m, keys),
                3 => stack!($ty, 3, case, m, keys),
                5 => stack!($ty, 5, case, m, keys),
                8 => stack!($ty, 8, case, m, keys),
                _ => unreachable!(),
            }
        };
    }
    match case.var {
        Var::CStack => n!(ConcurrentStackRB),
        Var::LStack => n!(LocalStackRB),
        Var::CStackAsync => {
            let buf: ConcurrentStackRB<T, 5> = match case.init {
                Init::Zeroed => unsafe { ConcurrentStackRB::new_zeroed() },
                _ => ConcurrentStackRB::from(std::array::from_fn::<T, 5, _>(|i| T::make(keys[i]))),
            };
            split_async!(buf, case, m)
        }
        _ => unreachable!(),
    }
}
#[cfg(feature = "vmem")]
fn stacks<T: Item>(_: &Case, _: &mut Model<T>, _: &[u64]) {
    unreachable!()
}

/// Every variant.
pub fn all_variants<T: Item>(case: &Case, m: &mut Model<T>, keys: &[u64]) {
    match case.var {
        #[cfg(feature = "alloc")]
        Var::CHeap => heap!(ConcurrentHeapRB, case, m, keys),
        #[cfg(feature = "alloc")]
        Var::LHeap => heap!(LocalHeapRB, case, m, keys),
        #[cfg(feature = "alloc")]
        Var::CHeapAsync => {
            let buf: ConcurrentHeapRB<T> = match case.init {
                Init::From | Init::FromSpare => ConcurrentHeapRB::from(vector::<T>(case, keys)),
                Init::Default => <ConcurrentHeapRB<T>>::default(case.len),
                Init::Zeroed => unsafe { ConcurrentHeapRB::new_zeroed(case.len) },
            };
            split_async!(buf, case, m)
        }
        _ => stacks(case, m, keys),
    }
}
/// Concurrent heap buffers only: the variants share the code which depends on the item type.
#[cfg(feature = "alloc")]
pub fn one_variant<T: Item>(case: &Case, m: &mut Model<T>, keys: &[u64]) {
    heap!(ConcurrentHeapRB, case, m, keys)
}
#[cfg(not(feature = "alloc"))]
pub fn one_variant<T: Item>(case: &Case, m: &mut Model<T>, keys: &[u64]) {
    stacks(case, m, keys)
}

/// Runs a case. `log`: keep a readable account; `trace`: record what can be observed.
pub fn run_case<T: Item>(case: &Case, lens: Lens, stats: &mut Stats, log: bool, trace: bool) -> Outcome {
    ledger_reset();
    let keys = initial::<T>(case);
    ledger_reset();
    let before = crate::alloc::live();
    // Whatever the monitor itself keeps until the end has to be balanced out.
    let mut m = Model::new(case.len, keys.clone(), lens, stats);
    m.wrap_detach = case.wrap_detach;
    m.sweep_all = case.len < 200;
    m.sweep_some = cfg!(feature = "vmem");
    if log {
        m.log = Some(Vec::new());
    }
    if trace {
        m.trace = Some(Vec::new());
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let m = &mut m;
        let keys = &keys[..];
        T::dispatch(case, m, keys)
    }));
    if let Err(e) = r {
        let t = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        // Every property excludes it: a documented operation used according to its contract.
        if m.viol.is_none() {
            m.viol = Some(Viol { cat: Cat::Panic, msg: format!("panic: {t}"), step: m.step });
            m.stop = true;
        }
    }
    // Everything has been released.
    let clean = m.viol.is_none() && !m.stop;
    #[cfg(feature = "vmem")]
    if let (true, Some(b)) = (clean, m.last_base) {
        let pages = mapped(b as usize, 2 * case.len * size_of::<T>());
        if pages > 0 {
            m.bad(Cat::Map, || format!("{pages} pages of the two views are still mapped after the last iterator has been dropped"));
        }
    }
    if clean && T::TRACKED {
        if let Some(e) = ledger_event() {
            let c = match e { Ev::ZeroRead => Cat::ZeroRead, Ev::ZeroDrop => Cat::ZeroDrop, _ => Cat::Ledger };
            m.bad(c, || format!("{e:?}, once the buffer had been released"));
        }
        if ledger_alive() != 0 {
            let s = ledger_survivors();
            m.bad(Cat::Ledger, || format!("{} values have never been destroyed: {:x?}", s.len(), &s[..s.len().min(20)]));
        }
    }
    m.stats.instances += ledger_made() as u64;
    m.stats.histories += 1;
    let viol = m.viol.take();
    let out_log = m.log.take().unwrap_or_default();
    let tr = m.trace.take().unwrap_or_default();
    let diverged = m.diverged;
    let att = m.past;
    drop(m);
    drop(keys);
    let mut viol = viol;
    if clean && !log && !trace && viol.is_none() && !cfg!(miri) {
        // `keys` was there before, and is not anymore
        let after = crate::alloc::live();
        if after.0 > before.0 - 1 && (lens.0)(Cat::Leak, Attr::default(), att) {
            let n = after.0 - (before.0 - 1);
            viol = Some(Viol { cat: Cat::Leak, msg: format!("{n} heap blocks are still allocated once everything has been dropped"), step: case.script.len() });
        }
    }
    Outcome { viol, log: out_log, trace: tr, diverged }
}

/// Dispatches on the item type.
pub fn run(case: &Case, lens: Lens, stats: &mut Stats, log: bool, trace: bool) -> Outcome {
    match case.item {
        "It" => run_case::<It>(case, lens, stats, log, trace),
        "Sm" => run_case::<Sm>(case, lens, stats, log, trace),
        "Ze" => run_case::<Ze>(case, lens, stats, log, trace),
        "Zs" => run_case::<Zs>(case, lens, stats, log, trace),
        "Al" => run_case::<Al>(case, lens, stats, log, trace),
        "Pd" => run_case::<Pd>(case, lens, stats, log, trace),
        "Od" => run_case::<Od>(case, lens, stats, log, trace),
        "Lg" => run_case::<Lg>(case, lens, stats, log, trace),
        "Bx" => run_case::<Bx>(case, lens, stats, log, trace),
        "u8" => run_case::<u8>(case, lens, stats, log, trace),
        "u16" => run_case::<u16>(case, lens, stats, log, trace),
        "[u8;3]" => run_case::<[u8; 3]>(case, lens, stats, log, trace),
        "u64" => run_case::<u64>(case, lens, stats, log, trace),
        "[u32;3]" => run_case::<[u32; 3]>(case, lens, stats, log, trace),
        "u128" => run_case::<u128>(case, lens, stats, log, trace),
        _ => panic!("item {}", case.item),
    }
}

/// Shrinks the script of a failing case (same category).
pub fn shrink(case: &Case, lens: Lens, cat: Cat) -> Case {
    let mut best = case.clone();
    let mut stats = Stats::default();
    let mut budget = 3000;
    let fails = |c: &Case, stats: &mut Stats| run(c, lens, stats, false, false).viol.is_some_and(|v| v.cat == cat);
    let s = best.sessions.len();
    let begun = std::time::Instant::now();
    let mut chunk = (best.script.len() / 2).max(1);
    while chunk >= 1 && budget > 0 && begun.elapsed().as_secs() < 15 {
        let mut i = 0;
        let mut any = false;
        while i < best.script.len() && budget > 0 && begun.elapsed().as_secs() < 15 {
            let mut c = best.clone();
            let e = (i + chunk).min(c.script.len());
            if s == 1 {
                c.script.drain(i..e);
            } else {
                // keep the layout of the sessions
                for r in &mut c.script[i..e] {
                    r.c = 255;
                }
                if c.script == best.script {
                    i += chunk;
                    continue;
                }
            }
            budget -= 1;
            if fails(&c, &mut stats) {
                best = c;
                any = true;
                if s > 1 {
                    i += chunk;
                }
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !any {
            break;
        }
        chunk = if chunk > 1 { chunk / 2 } else if any { 1 } else { 0 };
    }
    best
}

// ---------------------------------------------------------------------------------------------

/// Relative weights of the raw operations, and the space cases are drawn from.
#[derive(Clone)]
pub struct Profile {
    pub weights: [u32; code::MAX],
    pub items: &'static [&'static str],
    pub vars: &'static [Var],
    pub inits: &'static [Init],
    pub lens: &'static [usize],
    pub ops: (usize, usize),
    pub async_chance: u64,
    pub drop_chance: u64,
    pub long: bool,
    /// A few buffers are too long for 16 bits.
    pub huge: bool,
}

pub fn generate(seed: u64, p: &Profile) -> Case {
    let mut r = Rng::new(seed);
    let item = p.items[r.below(p.items.len() as u64) as usize];
    let var = p.vars[r.below(p.vars.len() as u64) as usize];
    let mut len = p.lens[r.below(p.lens.len() as u64) as usize];
    let lean = !["It", "u64"].contains(&item);
    let var = if lean { LEAN } else { var };
    if item == "Lg" && !cfg!(feature = "vmem") {
        len = len.min(17);
    }
    let huge = p.huge && r.chance(1, 500);
    let (item, var) = if huge { (["u64", "It"][r.below(2) as usize], [Var::CHeap, Var::LHeap][r.below(2) as usize]) } else { (item, var) };
    if huge {
        let spread = [12, 6000][r.below(2) as usize];
        len = 65_530 + r.below(spread) as usize;
    }
    // and a few are of a middling size
    let middling = p.huge && !huge && item != "Lg" && r.chance(1, 150);
    let var = if middling && !lean { [Var::CHeap, Var::LHeap][r.below(2) as usize] } else { var };
    if middling {
        len = [256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096][r.below(11) as usize];
    }
    let stack = matches!(var, Var::CStack | Var::LStack | Var::CStackAsync);
    if stack && !STACK_LENS.contains(&len) {
        len = STACK_LENS[r.below(5) as usize];
    }
    if var == Var::CStackAsync {
        len = 5;
    }
    let mut init = p.inits[r.below(p.inits.len() as u64) as usize];
    if stack && init != Init::Zeroed {
        init = Init::From;
    }
    let ns = if stack && var != Var::CStackAsync && r.chance(1, 2) { 1 + r.below(3) as usize } else { 1 };
    let sessions: Vec<bool> = (0..ns).map(|_| r.chance(3, 5)).collect();
    let mut w = p.weights;
    // each history has its own taste
    for x in w.iter_mut() {
        *x *= [0, 1, 1, 2, 4][r.below(5) as usize];
    }
    if w[..2].iter().all(|x| *x == 0) {
        w[0] = 10;
        w[1] = 10;
    }
    if w[4..6].iter().all(|x| *x == 0) {
        w[4] = 10;
        w[5] = 10;
    }
    if w[2..4].iter().all(|x| *x == 0) {
        w[2] = 5;
        w[3] = 5;
    }
    if !r.chance(p.drop_chance, 100) {
        w[code::DROP as usize] = 0;
    }
    let total: u64 = w.iter().map(|x| *x as u64).sum();
    let mut nops = p.ops.0 + r.below((p.ops.1 - p.ops.0 + 1) as u64) as usize;
    // some go on for long
    if huge {
        nops = 30 + r.below(20) as usize;
    } else if p.long && item != "Lg" && !middling && r.chance(1, 60) {
        nops *= 24;
    }
    let mut script = Vec::with_capacity(nops * ns);
    // phases in which one stage is favoured make the buffer fill up and drain
    let mut phase = 0;
    for i in 0..nops * ns {
        if i % 8 == 0 {
            phase = r.below(5);
        }
        let mut x = r.below(total);
        let mut c = 0;
        for (k, v) in w.iter().enumerate() {
            if x < *v as u64 {
                c = k as u8;
                break;
            }
            x -= *v as u64;
        }
        if r.chance(1, 3) {
            c = match phase { 0 => r.below(2) as u8, 1 => 2 + r.below(2) as u8, 2 => 4 + r.below(2) as u8, _ => c };
        }
        script.push(Raw { c, a: r.next() as u32, b: r.next() as u32 });
    }
    Case {
        kind: Kind::Hist,
        item,
        var,
        len,
        init,
        sessions,
        to_async: if r.chance(p.async_chance, 100) { r.below(8) as u8 } else { 0 },
        wrap_detach: false,
        drain: r.chance(2, 3),
        end: r.below(216) as u32,
        script,
        seed,
    }
}

/// Number of mapped pages of a range.
#[cfg(feature = "vmem")]
pub fn mapped(at: usize, bytes: usize) -> usize {
    let mut v = [0u8; 1];
    let ps = mutringbuf::vmem_helper::page_size();
    (at..at + bytes).step_by(ps).filter(|p| unsafe { libc::mincore(*p as _, ps, v.as_mut_ptr()) } == 0).count()
}
