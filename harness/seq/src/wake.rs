//! Tasks on executors which poll when woken, and only then: nobody is left parked for ever.

use crate::rng::Rng;
use crate::{Args, Report, CUR, DONE};
use mutringbuf::iterators::async_iterators::AsyncIterator;
use mutringbuf::iterators::{AsyncConsIter, AsyncProdIter, AsyncWorkIter, ConsIter, MRBIterator, ProdIter, WorkIter};
use mutringbuf::{ConcurrentHeapRB, HeapSplit, LocalHeapRB, MutRB};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Instant;

struct Slot { flag: AtomicBool, gen: AtomicU64, wakes: AtomicU64 }
struct Wk { slot: Arc<Slot>, gen: u64, latest: bool }
impl Wake for Wk {
    fn wake(self: Arc<Self>) {
        self.slot.wakes.fetch_add(1, Relaxed);
        // Only the waker of the last poll counts.
        if !self.latest || self.slot.gen.load(SeqCst) == self.gen {
            self.slot.flag.store(true, SeqCst);
        }
    }
}

#[derive(Default)]
struct Shared {
    pushed: Cell<u64>,
    seen: Cell<u64>,
    bad: RefCell<Option<String>>,
    /// What each task is doing.
    doing: RefCell<[String; 3]>,
    pendings: Cell<u64>,
    dropped: Cell<u64>,
    ops: RefCell<std::collections::BTreeMap<&'static str, [u64; 2]>>,
}
type Sh = Rc<Shared>;

impl Shared {
    fn oops(&self, s: String) {
        let mut b = self.bad.borrow_mut();
        if b.is_none() {
            *b = Some(s);
        }
    }
}

/// Awaits a future, noting that it has been pending. `patience`: drop it after so many polls.
struct Try<'x, F> { f: F, sh: &'x Shared, patience: u32, name: &'static str, who: usize, pended: bool }
impl<O, F: Future<Output = Option<O>> + Unpin> Future for Try<'_, F> {
    type Output = Option<O>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<O>> {
        if self.patience == 0 {
            return Poll::Ready(None);
        }
        if !self.pended {
            self.sh.doing.borrow_mut()[self.who] = self.name.into();
        }
        match Pin::new(&mut self.f).poll(cx) {
            Poll::Ready(Some(o)) => {
                self.sh.ops.borrow_mut().entry(self.name).or_default()[self.pended as usize] += 1;
                Poll::Ready(Some(o))
            }
            Poll::Ready(None) => {
                self.sh.oops(format!("{} resolved to None", self.name));
                Poll::Ready(None)
            }
            Poll::Pending => {
                self.pended = true;
                self.sh.pendings.set(self.sh.pendings.get() + 1);
                self.patience -= 1;
                if self.patience == 0 {
                    self.sh.dropped.set(self.sh.dropped.get() + 1);
                    return Poll::Ready(None);
                }
                Poll::Pending
            }
        }
    }
}

/// Lets the others go on.
struct Pause(bool);
impl Future for Pause {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

#[derive(Clone, Copy, Debug)]
struct Plan { n: u64, chunk: u64, impatient: bool, seed: u64, fixed: Option<u64> }

fn patience(p: &Plan, r: &mut Rng) -> u32 {
    if p.impatient && r.chance(1, 3) { 1 + r.below(2) as u32 } else { u32::MAX }
}
fn kind(p: &Plan, r: &mut Rng, n: u64) -> u64 {
    p.fixed.map_or_else(|| r.below(n), |f| f % n)
}

#[cfg(not(feature = "vmem"))]
macro_rules! parts { ($w:expr) => {{ let w = $w; w.0.iter_mut().chain(w.1.iter_mut()) }}; }
#[cfg(feature = "vmem")]
macro_rules! parts { ($w:expr) => { $w.iter_mut() }; }
#[cfg(not(feature = "vmem"))]
macro_rules! rparts { ($w:expr) => {{ let w = $w; w.0.iter().chain(w.1.iter()).copied() }}; }
#[cfg(feature = "vmem")]
macro_rules! rparts { ($w:expr) => { $w.iter().copied() }; }

async fn producer<'b, B: MutRB<Item = u64> + 'b>(mut p: AsyncProdIter<'b, B>, sh: Sh, plan: Plan) {
    let mut r = Rng::new(plan.seed ^ 1);
    let mut done = 0;
    while done < plan.n {
        let left = plan.n - done;
        let k = 1 + r.below(plan.chunk.min(left));
        let vals: Vec<u64> = (0..k).map(|i| done + i + 1).collect();
        let pat = patience(&plan, &mut r);
        macro_rules! go { ($name:literal, $f:expr) => { Try { f: $f, sh: &sh, patience: pat, name: $name, who: 0, pended: false }.await }; }
        let mut adv = 0;
        let fill = |it: &mut dyn Iterator<Item = &mut u64>, done: u64| -> u64 {
            let mut c = 0;
            for (i, x) in it.enumerate() {
                if (i as u64) < left {
                    *x = done + i as u64 + 1;
                    c += 1;
                }
            }
            c
        };
        let got = match kind(&plan, &mut r, 10) {
            0 => go!("push", p.push(done + 1)).map(|_| 1),
            1 => go!("push_slice", p.push_slice(&vals)).map(|_| k),
            2 => go!("push_slice_clone", p.push_slice_clone(&vals)).map(|_| k),
            3 => go!("get_next_item_mut", unsafe { p.get_next_item_mut() }).map(|x| { *x = done + 1; adv = 1; 1 }),
            4 => go!("get_next_item_mut_init", p.get_next_item_mut_init()).map(|x| { unsafe { x.write(done + 1) }; adv = 1; 1 }),
            5 => go!("get_next_slices_mut", unsafe { p.get_next_slices_mut(k as usize) }).map(|w| { adv = fill(&mut parts!(w), done); adv }),
            6 => go!("P.get_workable", p.get_workable()).map(|x| { *x = done + 1; adv = 1; 1 }),
            7 => go!("P.get_workable_slice_exact", p.get_workable_slice_exact(k as usize)).map(|w| { adv = fill(&mut parts!(w), done); adv }),
            8 => go!("P.get_workable_slice_avail", p.get_workable_slice_avail()).map(|w| { adv = fill(&mut parts!(w), done); adv }),
            _ => go!("P.get_workable_slice_multiple_of", p.get_workable_slice_multiple_of(k as usize)).map(|w| { adv = fill(&mut parts!(w), done); adv }),
        };
        // published before the counter goes up, but nobody runs in between
        done += got.unwrap_or(0);
        sh.pushed.set(done);
        if adv > 0 {
            if r.chance(1, 4) {
                let mut d = p.detach();
                unsafe { d.advance(adv as usize) };
                d.sync_index();
                p = d.attach();
            } else {
                unsafe { p.advance(adv as usize) };
            }
        }
        if r.chance(1, 4) {
            Pause(false).await;
        }
    }
    // the other ones still need the buffer: dropped here
}

async fn worker<'b, B: MutRB<Item = u64> + 'b>(mut w: AsyncWorkIter<'b, B>, sh: Sh, plan: Plan) {
    let mut r = Rng::new(plan.seed ^ 2);
    let mut done = 0;
    while done < plan.n {
        let left = plan.n - done;
        let k = 1 + r.below(plan.chunk.min(left));
        let pat = patience(&plan, &mut r);
        macro_rules! go { ($name:literal, $f:expr) => { Try { f: $f, sh: &sh, patience: pat, name: $name, who: 1, pended: false }.await }; }
        let edit = |it: &mut dyn Iterator<Item = &mut u64>| -> u64 { it.map(|x| *x += 1 << 32).count() as u64 };
        let got = match kind(&plan, &mut r, 4) {
            0 => go!("W.get_workable", w.get_workable()).map(|x| { *x += 1 << 32; 1 }),
            1 => go!("W.get_workable_slice_exact", w.get_workable_slice_exact(k as usize)).map(|x| edit(&mut parts!(x))),
            2 => go!("W.get_workable_slice_avail", w.get_workable_slice_avail()).map(|x| edit(&mut parts!(x))),
            _ => go!("W.get_workable_slice_multiple_of", w.get_workable_slice_multiple_of(k as usize)).map(|x| edit(&mut parts!(x))),
        };
        if let Some(n) = got {
            done += n;
            unsafe { w.advance(n as usize) };
        }
        if r.chance(1, 4) {
            Pause(false).await;
        }
    }
}

fn check(sh: &Shared, done: &mut u64, vals: impl Iterator<Item = u64>, three: bool) {
    for v in vals {
        *done += 1;
        let want = *done + if three { 1 << 32 } else { 0 };
        if v != want {
            sh.oops(format!("the consumer got {v:#x} instead of {want:#x}"));
        }
    }
    sh.seen.set(*done);
}

async fn consumer<'b, B: MutRB<Item = u64> + 'b, const M: bool>(mut c: AsyncConsIter<'b, B, M>, sh: Sh, plan: Plan) {
    let mut r = Rng::new(plan.seed ^ 3);
    let mut done = 0;
    while done < plan.n {
        let left = plan.n - done;
        let k = 1 + r.below(plan.chunk.min(left));
        let pat = patience(&plan, &mut r);
        macro_rules! go { ($name:literal, $f:expr) => { Try { f: $f, sh: &sh, patience: pat, name: $name, who: 2, pended: false }.await }; }
        let mut one = 0;
        let mut many = vec![0; k as usize];
        let mut adv = 0;
        let got: Option<Vec<u64>> = match kind(&plan, &mut r, 12) {
            0 => go!("peek_ref", c.peek_ref()).map(|x| { adv = 1; vec![*x] }),
            1 => go!("peek_slice", c.peek_slice(k as usize)).map(|w| { adv = k; rparts!(w).collect() }),
            2 => go!("peek_available", c.peek_available()).map(|w| { let v: Vec<u64> = rparts!(w).collect(); adv = v.len() as u64; v }),
            3 => go!("pop", c.pop()).map(|x| vec![x]),
            4 => go!("pop_move", unsafe { c.pop_move() }).map(|x| vec![x]),
            5 => go!("copy_item", c.copy_item(&mut one)).map(|_| vec![one]),
            6 => go!("clone_item", c.clone_item(&mut one)).map(|_| vec![one]),
            7 => go!("copy_slice", c.copy_slice(&mut many)).map(|_| many.clone()),
            8 => go!("clone_slice", c.clone_slice(&mut many)).map(|_| many.clone()),
            9 => go!("C.get_workable", c.get_workable()).map(|x| { adv = 1; vec![*x] }),
            10 => go!("C.get_workable_slice_exact", c.get_workable_slice_exact(k as usize)).map(|w| { adv = k; rparts!(w).collect() }),
            _ => go!("C.get_workable_slice_avail", c.get_workable_slice_avail()).map(|w| { let v: Vec<u64> = rparts!(w).collect(); adv = v.len() as u64; v }),
        };
        if got.as_ref().is_some_and(|v| v.is_empty()) {
            Pause(false).await;
        }
        if let Some(v) = got {
            check(&sh, &mut done, v.into_iter(), M);
            if adv > 0 {
                if r.chance(1, 4) {
                    let mut d = c.detach();
                    unsafe { d.advance(adv as usize) };
                    d.sync_index();
                    c = d.attach();
                } else {
                    unsafe { c.advance(adv as usize) };
                }
            }
        }
        if r.chance(1, 4) {
            Pause(false).await;
        }
    }
}

/// A stage which runs outside of the executor: an attempt each time it is called. True when done.
type SyncStage<'b> = Box<dyn FnMut() -> bool + 'b>;

fn sync_producer<'b, B: MutRB<Item = u64> + 'b>(mut p: ProdIter<'b, B>, plan: Plan, sh: Sh) -> SyncStage<'b> {
    let mut done = 0;
    Box::new(move || {
        if done < plan.n && p.push(done + 1).is_ok() {
            done += 1;
            sh.pushed.set(done);
        }
        done == plan.n
    })
}
fn sync_worker<'b, B: MutRB<Item = u64> + 'b>(mut w: WorkIter<'b, B>, plan: Plan) -> SyncStage<'b> {
    let mut done = 0;
    Box::new(move || {
        if done < plan.n {
            if let Some(x) = w.get_workable() {
                *x += 1 << 32;
                unsafe { w.advance(1) };
                done += 1;
            }
        }
        done == plan.n
    })
}
fn sync_consumer<'b, B: MutRB<Item = u64> + 'b, const M: bool>(mut c: ConsIter<'b, B, M>, plan: Plan, sh: Sh) -> SyncStage<'b> {
    let mut done = 0;
    Box::new(move || {
        if done < plan.n {
            if let Some(x) = c.pop() {
                check(&sh, &mut done, std::iter::once(x), M);
            }
        }
        done == plan.n
    })
}

enum Stage<'b> { Task(Pin<Box<dyn Future<Output = ()> + 'b>>), Sync(SyncStage<'b>) }

/// Runs the stages; says what is wrong.
fn execute(mut stages: Vec<Stage>, sh: &Sh, plan: Plan, r: &mut Rng, latest: bool, fresh: bool) -> Result<u64, String> {
    let n = stages.len();
    let slots: Vec<Arc<Slot>> = (0..n).map(|_| Arc::new(Slot { flag: AtomicBool::new(true), gen: AtomicU64::new(0), wakes: AtomicU64::new(0) })).collect();
    let keep: Vec<Waker> = slots.iter().map(|s| Waker::from(Arc::new(Wk { slot: s.clone(), gen: 0, latest: false }))).collect();
    let mut done = vec![false; n];
    let mut polls = 0u64;
    let budget = 4000 * (plan.n + 10);
    let mut idle = 0;
    let progress = |sh: &Shared| (sh.pushed.get(), sh.seen.get());
    while done.iter().any(|d| !*d) {
        // whoever may run
        let ready: Vec<usize> = (0..n).filter(|i| !done[*i] && (matches!(stages[*i], Stage::Sync(_)) || slots[*i].flag.load(SeqCst))).collect();
        let tasks = ready.iter().any(|i| matches!(stages[*i], Stage::Task(_)));
        if ready.is_empty() || (!tasks && idle > 64) {
            let who: Vec<String> = (0..n).filter(|i| !done[*i]).map(|i| match &stages[i] {
                Stage::Task(_) => format!("task {i} (parked, awaiting {}, woken {} times in all)", sh.doing.borrow()[if n == 2 && i == 1 { 2 } else { i }], slots[i].wakes.load(Relaxed)),
                Stage::Sync(_) => format!("synchronous stage {i}"),
            }).collect();
            return Err(format!("after {polls} polls nobody has been woken, although an awaited operation is possible: {} ({} of {} pushed, {} consumed)", who.join(", "), sh.pushed.get(), plan.n, sh.seen.get()));
        }
        if polls > budget {
            return Err(format!("{polls} polls for {} items: an operation which is possible does not complete ({} pushed, {} consumed; {:?})", plan.n, sh.pushed.get(), sh.seen.get(), sh.doing.borrow()));
        }
        let i = ready[r.below(ready.len() as u64) as usize];
        let before = progress(sh);
        match &mut stages[i] {
            Stage::Sync(f) => {
                done[i] = f();
                if !tasks && progress(sh) == before && !done[i] { idle += 1 } else { idle = 0 }
            }
            Stage::Task(f) => {
                idle = 0;
                polls += 1;
                slots[i].flag.store(false, SeqCst);
                let w = if fresh {
                    let g = slots[i].gen.fetch_add(1, SeqCst) + 1;
                    Waker::from(Arc::new(Wk { slot: slots[i].clone(), gen: g, latest }))
                } else {
                    keep[i].clone()
                };
                if f.as_mut().poll(&mut Context::from_waker(&w)).is_ready() {
                    done[i] = true;
                }
            }
        }
        if let Some(b) = sh.bad.borrow_mut().take() {
            return Err(b);
        }
    }
    if sh.seen.get() != plan.n {
        return Err(format!("{} of {} items have been consumed", sh.seen.get(), plan.n));
    }
    Ok(polls)
}

fn one(seed: u64, rep: &mut Report) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let vmem = cfg!(feature = "vmem");
    let len = if vmem { 4096 } else { 2 + r.below(8) as usize };
    let three = r.chance(1, 2);
    let cap = len as u64 - 1;
    // small enough for somebody to be always able to go on
    let chunk = if three { (cap + 2) / 3 } else { (cap + 1) / 2 }.max(1);
    let chunk = if r.chance(1, 3) { 1 } else { chunk };
    let n = if vmem { 6000 } else { 1 + r.below(60) };
    let fixed = r.chance(1, 3).then(|| r.below(120));
    let plan = Plan { n, chunk, impatient: r.chance(1, 3), seed: r.next(), fixed };
    let (fresh, latest) = (r.chance(2, 3), r.chance(3, 4));
    let local = r.chance(1, 2);
    // at least one of them waits
    let asy = 1 + r.below(7);
    let asy = if !three && asy & 5 == 0 { 7 } else { asy };
    let sh: Sh = Rc::default();
    macro_rules! on { ($ty:ident) => {{
        let buf = $ty::from(vec![0u64; len]);
        let mut st: Vec<Stage> = Vec::new();
        if three {
            let (p, w, c) = buf.split_mut();
            st.push(if asy & 1 != 0 { Stage::Task(Box::pin(producer(AsyncProdIter::from_sync(p), sh.clone(), plan))) } else { Stage::Sync(sync_producer(p, plan, sh.clone())) });
            st.push(if asy & 2 != 0 { Stage::Task(Box::pin(worker(AsyncWorkIter::from_sync(w), sh.clone(), plan))) } else { Stage::Sync(sync_worker(w, plan)) });
            st.push(if asy & 4 != 0 { Stage::Task(Box::pin(consumer(AsyncConsIter::from_sync(c), sh.clone(), plan))) } else { Stage::Sync(sync_consumer(c, plan, sh.clone())) });
        } else {
            let (p, c) = buf.split();
            st.push(if asy & 1 != 0 { Stage::Task(Box::pin(producer(AsyncProdIter::from_sync(p), sh.clone(), plan))) } else { Stage::Sync(sync_producer(p, plan, sh.clone())) });
            st.push(if asy & 4 != 0 { Stage::Task(Box::pin(consumer(AsyncConsIter::from_sync(c), sh.clone(), plan))) } else { Stage::Sync(sync_consumer(c, plan, sh.clone())) });
        }
        execute(st, &sh, plan, &mut r, latest, fresh)
    }}; }
    let res = if local { on!(LocalHeapRB) } else { on!(ConcurrentHeapRB) };
    let head = format!("seed={seed} len={len} three={three} local={local} async={asy:03b} items={n} chunk={chunk} impatient={} fresh_waker_per_poll={fresh} only_latest_counts={latest} fixed={fixed:?}", plan.impatient);
    match res {
        Ok(polls) => {
            rep.count("polls", polls);
            rep.count("pending_polls", sh.pendings.get());
            rep.count("futures_dropped_pending", sh.dropped.get());
            rep.count("items_through", n);
            for (k, v) in sh.ops.borrow().iter() {
                rep.count(&format!("await:{k}:at_once"), v[0]);
                rep.count(&format!("await:{k}:after_pending"), v[1]);
            }
            if sh.pendings.get() > 0 {
                rep.nontrivial += 1;
                rep.distinct.insert(seed);
                if rep.samples.len() < 2 {
                    rep.samples.push(format!("{head}: {polls} polls, {} of them pending, everything consumed", sh.pendings.get()));
                }
            }
            Ok(())
        }
        Err(e) => Err(format!("{e}\n{head}")),
    }
}

pub fn run(a: &Args, rep: &mut Report) {
    let secs = a.u("secs", 5) as f64;
    let max = a.u("cases", u64::MAX);
    let t0 = Instant::now();
    let mut seeds = Rng::new(a.u("seed", 1) ^ (a.u("worker", 0) << 40) ^ 0x3A4E);
    let only = a.0.get("case").and_then(|v| v.parse::<u64>().ok());
    while rep.evaluations < max && (cfg!(miri) || t0.elapsed().as_secs_f64() < secs) {
        let seed = only.unwrap_or_else(|| seeds.next());
        CUR.store(seed, Relaxed);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(seed, rep)));
        DONE.fetch_add(1, Relaxed);
        rep.evaluations += 1;
        let e = match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(p) => Some(format!("panic: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
        };
        if let Some(e) = e {
            let first = e.lines().next().unwrap_or("").to_string();
            rep.viol = Some((first, format!("seq wake --case {seed}\n{e}")));
            break;
        }
        if only.is_some() {
            break;
        }
    }
}
