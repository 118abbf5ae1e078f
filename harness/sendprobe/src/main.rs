//! Moves every kind of iterator to another thread, or shares it with one, wherever the type system lets
//! safe code do so, and uses it there. Monitors: items which may not leave their thread notice where
//! they are touched; iterators of local buffers may not turn up on another thread at all.
//!
//! Which of the two methods `cross` is taken is decided by the compiler at each (concrete) call site.

use mutringbuf::iterators::async_iterators::{AsyncIterator, MRBFuture};
use mutringbuf::iterators::{AsyncConsIter, AsyncDetached, AsyncProdIter, AsyncWorkIter, ConsIter, Detached, MRBIterator, ProdIter, WorkIter};
use mutringbuf::{ConcurrentHeapRB, HeapSplit, LocalHeapRB, MutRB};
#[cfg(not(feature = "vmem"))]
use mutringbuf::{ConcurrentStackRB, LocalStackRB, StackSplit};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Mutex, MutexGuard};
use std::task::{Context, Waker};
use std::thread::{self, ThreadId};

static ABROAD: AtomicU64 = AtomicU64::new(0);
static TOUCHED: AtomicU64 = AtomicU64::new(0);

pub trait Item: Default + Clone + 'static {
    const SENDABLE: bool;
    fn poke(&mut self);
}
fn here() -> ThreadId {
    thread::current().id()
}
fn at(home: ThreadId) {
    TOUCHED.fetch_add(1, Relaxed);
    if home != here() {
        ABROAD.fetch_add(1, Relaxed);
    }
}
/// Neither `Send` nor `Sync`.
#[derive(Clone)]
pub struct Shared(Rc<Cell<u64>>, ThreadId);
impl Default for Shared {
    fn default() -> Self {
        Shared(Rc::new(Cell::new(1)), here())
    }
}
impl Item for Shared {
    const SENDABLE: bool = false;
    fn poke(&mut self) {
        self.0.set(self.0.get() + 1);
        at(self.1);
    }
}
/// `Sync`, but not `Send`: it has to stay where it was made, like a lock guard.
#[derive(Clone)]
pub struct Guard(u64, ThreadId, PhantomData<MutexGuard<'static, ()>>);
impl Default for Guard {
    fn default() -> Self {
        Guard(1, here(), PhantomData)
    }
}
impl Item for Guard {
    const SENDABLE: bool = false;
    fn poke(&mut self) {
        self.0 += 1;
        at(self.1);
    }
}
/// `Send`, but not `Sync`.
#[derive(Clone, Default)]
pub struct Alone(Cell<u64>);
impl Item for Alone {
    const SENDABLE: bool = true;
    fn poke(&mut self) {
        self.0.set(self.0.get() + 1);
        TOUCHED.fetch_add(1, Relaxed);
    }
}
impl Item for u64 {
    const SENDABLE: bool = true;
    fn poke(&mut self) {
        *self += 1;
        TOUCHED.fetch_add(1, Relaxed);
    }
}

/// Something that can be used wherever it is.
pub trait Use {
    fn use_it(&mut self);
    fn look(&self) {}
}
macro_rules! sync_iter {
    ($([$($g:tt)*] $t:ty),*) => {$(
        impl<T: Item, B: MutRB<Item = T>, $($g)*> Use for $t {
            fn use_it(&mut self) {
                self.available();
                if let Some(x) = self.get_workable() { x.poke() }
            }
            fn look(&self) {
                self.prod_index();
            }
        }
    )*};
}
sync_iter!([] ProdIter<'_, B>, [] WorkIter<'_, B>, [const W: bool] ConsIter<'_, B, W>);
impl<T: Item, I: MRBIterator<Item = T>> Use for Detached<I> {
    fn use_it(&mut self) {
        if let Some(x) = self.get_workable() { x.poke() }
    }
    fn look(&self) {
        self.prod_index();
    }
}
macro_rules! async_iter {
    ($([$($g:tt)*] $t:ty),*) => {$(
        impl<T: Item, B: MutRB<Item = T>, $($g)*> Use for $t {
            fn use_it(&mut self) {
                if let std::task::Poll::Ready(Some(x)) = Pin::new(&mut self.get_workable()).poll(&mut Context::from_waker(Waker::noop())) { x.poke() }
            }
            fn look(&self) {
                self.prod_index();
            }
        }
    )*};
}
async_iter!([] AsyncProdIter<'_, B>, [] AsyncWorkIter<'_, B>, [const W: bool] AsyncConsIter<'_, B, W>);
impl<T: Item, B: MutRB<Item = T>, I: AsyncIterator> Use for AsyncDetached<I, B> {
    fn use_it(&mut self) {
        // (what follows moves locally, by nothing)
        unsafe { self.advance(0) }
    }
}
impl<I: AsyncIterator, P, O, const R: bool> Use for MRBFuture<'_, I, P, O, R> {
    fn use_it(&mut self) {
        let _ = Pin::new(self).poll(&mut Context::from_waker(Waker::noop()));
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum How { Moved, MovedAndDropped, MutBorrowed, Shared }

/// Where the probe was used: only threads other than the one it was made on.
fn foreign(made: ThreadId) -> bool {
    made != here()
}

pub struct P<T>(RefCell<Option<T>>);
pub trait MayGo {
    fn cross(&self) -> bool;
}
impl<T: Send + Use> MayGo for P<T> {
    fn cross(&self) -> bool {
        let mut x = self.0.borrow_mut().take().unwrap();
        let made = here();
        let f = thread::scope(|s| s.spawn(move || { x.use_it(); let f = foreign(made); (x, f) }).join().unwrap());
        *self.0.borrow_mut() = Some(f.0);
        f.1
    }
}
pub trait HasToStay {
    fn cross(&self) -> bool;
}
impl<T> HasToStay for &P<T> {
    fn cross(&self) -> bool { false }
}

pub struct S<T>(RefCell<Option<T>>);
pub trait MayBeShared {
    fn share(&self) -> bool;
}
impl<T: Sync + Use> MayBeShared for S<T> {
    fn share(&self) -> bool {
        let b = self.0.borrow();
        let x = b.as_ref().unwrap();
        let made = here();
        thread::scope(|s| s.spawn(move || { x.look(); foreign(made) }).join().unwrap())
    }
}
pub trait HasToStayAlone {
    fn share(&self) -> bool;
}
impl<T> HasToStayAlone for &S<T> {
    fn share(&self) -> bool { false }
}

#[derive(Clone, Copy)]
pub struct Ctx { pub local: bool, pub sendable: bool, pub name: &'static str, pub storage: &'static str, pub item: &'static str }

#[derive(Default)]
struct Report { evals: u64, moved_ok: u64, stayed: u64, shared_ok: u64, bad: Option<String>, seen: BTreeMap<String, u64>, kinds: Vec<u64> }
static REPORT: Mutex<Option<Report>> = Mutex::new(None);

fn verdict(c: Ctx, what: &str, moved: bool, shared: bool, abroad: u64) {
    let mut g = REPORT.lock().unwrap();
    let r = g.get_or_insert_with(Default::default);
    r.evals += 1;
    let name = format!("{what} of a {} {} buffer of {}", if c.local { "local" } else { "concurrent" }, c.storage, c.item);
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in name.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    r.kinds.push(h);
    *r.seen.entry(format!("{}_{}_{}", if moved { "moved" } else { "stayed" }, if c.local { "local" } else { "concurrent" }, if c.sendable { "sendable" } else { "unsendable" })).or_default() += 1;
    if shared {
        *r.seen.entry(format!("shared_{}", if c.local { "local" } else { "concurrent" })).or_default() += 1;
    }
    let mut bad = |m: String| {
        if r.bad.is_none() {
            r.bad = Some(m);
        }
    };
    if moved && c.local {
        bad(format!("{name}: has been moved to another thread and used there"));
    } else if moved && !c.sendable {
        bad(format!("{name}: has been moved to another thread, where {abroad} items have been touched which may not leave theirs"));
    } else if shared && c.local {
        bad(format!("{name}: has been shared by reference with another thread and used there"));
    }
    if moved {
        r.moved_ok += 1;
    } else {
        r.stayed += 1;
    }
    r.shared_ok += shared as u64;
}

/// Sends a value and shares it; gives it back.
macro_rules! probe {
    ($c:expr, $what:expr, $x:expr) => {{
        let before = ABROAD.load(Relaxed);
        let p = P(RefCell::new(Some($x)));
        let moved = (&p).cross();
        let x = p.0.into_inner().unwrap();
        let s = S(RefCell::new(Some(x)));
        let shared = (&s).share();
        verdict($c, $what, moved, shared, ABROAD.load(Relaxed) - before);
        s.0.into_inner().unwrap()
    }};
}
/// All forms of one iterator.
macro_rules! forms {
    ($c:expr, $what:literal, $i:expr, $A:ident) => {{
        let i = probe!($c, $what, $i);
        let d = probe!($c, concat!("Detached<", $what, ">"), i.detach());
        let mut a = $A::from_sync(d.attach());
        a = probe!($c, concat!("Async", $what), a);
        drop(probe!($c, concat!("future of Async", $what, "::get_workable"), a.get_workable()));
        drop(probe!($c, concat!("future of Async", $what, "::get_workable_slice_exact"), a.get_workable_slice_exact(1)));
        let d = probe!($c, concat!("AsyncDetached<Async", $what, ">"), a.detach());
        let a = d.attach();
        let i = a.into_sync();
        // inside something else
        let b = probe!($c, concat!("Option<Box<", $what, ">>"), Wrapped(Some(Box::new(i))));
        *b.0.unwrap()
    }};
}
pub struct Wrapped<T>(Option<Box<T>>);
impl<T: Use> Use for Wrapped<T> {
    fn use_it(&mut self) {
        self.0.as_mut().unwrap().use_it()
    }
    fn look(&self) {
        self.0.as_ref().unwrap().look()
    }
}
macro_rules! session {
    ($c:expr, $T:ty, $b2:expr, $b3:expr) => {{
        let c: Ctx = $c;
        {
            let b = $b2;
            #[allow(unused_mut)]
            let mut b = b;
            let (mut p, i) = b.split();
            // something for the others to find
            let _ = p.push(<$T>::default());
            let p = forms!(c, "ProdIter", p, AsyncProdIter);
            let mut ap = AsyncProdIter::from_sync(p);
            // (a future which has been moved to another thread holds its value: made there, thus, if that can be)
            drop(probe!(c, "future of AsyncProdIter::push", ap.push(<$T>::default())));
            let i = forms!(c, "ConsIter", i, AsyncConsIter);
            let mut ai = AsyncConsIter::from_sync(i);
            drop(probe!(c, "future of AsyncConsIter::peek_ref", ai.peek_ref()));
            drop(ap);
        }
        {
            let b = $b3;
            #[allow(unused_mut)]
            let mut b = b;
            let (mut p, mut w, i) = b.split_mut();
            let _ = p.push(<$T>::default());
            let _ = p.push(<$T>::default());
            if let Some(x) = w.get_workable() {
                x.poke();
                unsafe { w.advance(1) };
            }
            let p = forms!(c, "ProdIter (3 stages)", p, AsyncProdIter);
            let w = forms!(c, "WorkIter", w, AsyncWorkIter);
            let i = forms!(c, "ConsIter (3 stages)", i, AsyncConsIter);
            drop((p, w, i));
        }
    }};
}
/// A buffer of every kind with items of one type.
macro_rules! buffers {
    ($T:ty, $n:literal) => {{
        let v = || (0..LEN).map(|_| <$T>::default()).collect::<Vec<$T>>();
        let a = || -> [$T; 4] { std::array::from_fn(|_| <$T>::default()) };
        let c = |local, storage| Ctx { local, sendable: <$T as Item>::SENDABLE, name: $n, storage, item: $n };
        session!(c(false, "heap"), $T, ConcurrentHeapRB::from(v()), ConcurrentHeapRB::from(v()));
        session!(c(true, "heap"), $T, LocalHeapRB::from(v()), LocalHeapRB::from(v()));
        let _ = &a;
        stacks!(c, $T, a);
    }};
}
#[cfg(not(feature = "vmem"))]
macro_rules! stacks {
    ($c:ident, $T:ty, $a:ident) => {
        session!($c(false, "stack"), $T, ConcurrentStackRB::from($a()), ConcurrentStackRB::from($a()));
        session!($c(true, "stack"), $T, LocalStackRB::from($a()), LocalStackRB::from($a()));
    };
}
#[cfg(feature = "vmem")]
macro_rules! stacks {
    ($c:ident, $T:ty, $a:ident) => {};
}
#[cfg(not(feature = "vmem"))]
const LEN: usize = 4;
#[cfg(feature = "vmem")]
const LEN: usize = 4096;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| {
        buffers!(u64, "u64");
        buffers!(Alone, "Send + !Sync items");
        buffers!(Guard, "!Send + Sync items");
        buffers!(Shared, "!Send + !Sync items");
    });
    let mut g = REPORT.lock().unwrap_or_else(|e| e.into_inner());
    let mut rep = g.take().unwrap_or_default();
    if r.is_err() && rep.bad.is_none() {
        rep.bad = Some("panic while an iterator was used".into());
    }
    let q = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""));
    let mut c: Vec<String> = rep.seen.iter().map(|(k, v)| format!("{}:{v}", q(k))).collect();
    c.push(format!("\"items_touched\":{},\"items_touched_on_a_foreign_thread\":{}", TOUCHED.load(Relaxed), ABROAD.load(Relaxed)));
    if let Some(p) = opt("--hashes") {
        let b: Vec<u8> = rep.kinds.iter().flat_map(|h| h.to_le_bytes()).collect();
        let _ = std::fs::write(p, b);
    }
    let v = match &rep.bad {
        None => "null".into(),
        Some(m) => format!("{{\"what\":{},\"replay\":{}}}", q(m), q("run target/*/release/sendprobe in harness/sendprobe")),
    };
    let mut k = rep.kinds.clone();
    k.sort();
    k.dedup();
    println!("JSON {{\"evaluations\":{},\"nontrivial\":{},\"distinct\":{},\"counters\":{{{}}},\"samples\":[{}],\"violation\":{v}}}", rep.evals, rep.evals, k.len(), c.join(","), q(&format!("{} probes: moved {}, had to stay {}, shared {}", rep.evals, rep.moved_ok, rep.stayed, rep.shared_ok)));
    std::process::exit(rep.bad.is_some() as i32);
}
