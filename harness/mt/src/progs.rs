use crate::rng::Rng;
use crate::violated;
use mutringbuf::iterators::async_iterators::AsyncIterator;
use mutringbuf::iterators::{AsyncConsIter, AsyncProdIter, AsyncWorkIter, ConsIter, MRBIterator, ProdIter, WorkIter};
use mutringbuf::{ConcurrentHeapRB, ConcurrentStackRB, HeapSplit, MutRB, StackSplit};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::*};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::thread;

/// What the worker does to each item.
fn map(v: u64) -> u64 {
    v * 2 + 1
}
/// The n-th item.
fn nth(n: u64) -> u64 {
    0x1000 + n * 16
}

static LIVE: AtomicI64 = AtomicI64::new(0);

pub trait Item: Clone + Default + Send + 'static {
    const OWNED: bool;
    fn make(v: u64) -> Self;
    fn val(&self) -> u64;
    fn set(&mut self, v: u64);
    fn push_slice<B: MutRB<Item = Self>>(p: &mut ProdIter<B>, s: &[Self], init: bool, clone: bool) -> Option<()>;
    fn copy_item<B: MutRB<Item = Self>, const W: bool>(c: &mut ConsIter<B, W>, d: &mut Self) -> Option<()>;
    fn copy_slice<B: MutRB<Item = Self>, const W: bool>(c: &mut ConsIter<B, W>, d: &mut [Self]) -> Option<()>;
}
/// Plain data in two halves, which always have to agree.
#[derive(Clone, Copy, Default)]
pub struct Two(u64, u64);
impl Item for Two {
    const OWNED: bool = false;
    fn make(v: u64) -> Self {
        Two(v, !v)
    }
    fn val(&self) -> u64 {
        if self.1 == !self.0 { self.0 } else { u64::MAX }
    }
    fn set(&mut self, v: u64) {
        self.0 = v;
        self.1 = !v;
    }
    fn push_slice<B: MutRB<Item = Self>>(p: &mut ProdIter<B>, s: &[Self], init: bool, clone: bool) -> Option<()> {
        match (init, clone) {
            (false, false) => p.push_slice(s),
            (true, false) => p.push_slice_init(s),
            (false, true) => p.push_slice_clone(s),
            (true, true) => p.push_slice_clone_init(s),
        }
    }
    fn copy_item<B: MutRB<Item = Self>, const W: bool>(c: &mut ConsIter<B, W>, d: &mut Self) -> Option<()> {
        c.copy_item(d)
    }
    fn copy_slice<B: MutRB<Item = Self>, const W: bool>(c: &mut ConsIter<B, W>, d: &mut [Self]) -> Option<()> {
        c.copy_slice(d)
    }
}
/// Owned data.
pub struct Own(Box<u64>);
impl Clone for Own {
    fn clone(&self) -> Self {
        Own::make(*self.0)
    }
}
impl Default for Own {
    fn default() -> Self {
        Own::make(1)
    }
}
impl Drop for Own {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Relaxed);
    }
}
impl Item for Own {
    const OWNED: bool = true;
    fn make(v: u64) -> Self {
        LIVE.fetch_add(1, Relaxed);
        Own(Box::new(v))
    }
    fn val(&self) -> u64 {
        *self.0
    }
    fn set(&mut self, v: u64) {
        *self.0 = v;
    }
    fn push_slice<B: MutRB<Item = Self>>(p: &mut ProdIter<B>, s: &[Self], init: bool, _: bool) -> Option<()> {
        if init { p.push_slice_clone_init(s) } else { p.push_slice_clone(s) }
    }
    fn copy_item<B: MutRB<Item = Self>, const W: bool>(c: &mut ConsIter<B, W>, d: &mut Self) -> Option<()> {
        c.clone_item(d)
    }
    fn copy_slice<B: MutRB<Item = Self>, const W: bool>(c: &mut ConsIter<B, W>, d: &mut [Self]) -> Option<()> {
        c.clone_slice(d)
    }
}

#[derive(Clone, Debug)]
struct Conf {
    len: usize,
    items: u64,
    three: bool,
    /// Slots are emptied by the consumer and filled by `*_init`.
    moves: bool,
    stack: bool,
    seed: u64,
}

fn pause(r: &mut Rng) {
    if r.chance(1, 2) { thread::yield_now() } else { std::hint::spin_loop() }
}

fn poll_once<O, F: Future<Output = Option<O>> + Unpin>(mut f: F) -> Option<O> {
    match Pin::new(&mut f).poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(r) => r,
        Poll::Pending => None,
    }
}

// ------------------------------------------------------------------------------------------------
// Stages: they stop once `upto` items have gone through.

fn produce<'b, T: Item, B: MutRB<Item = T>>(mut p: ProdIter<'b, B>, c: &Conf, from: u64, upto: u64) -> ProdIter<'b, B> {
    let mut r = Rng::new(c.seed ^ 1 ^ from << 8);
    let init = c.moves;
    let mut n = from;
    while n < upto {
        let max = (upto - n).min(c.len as u64 - 1);
        let k = 1 + r.below(max);
        let mut got = 0;
        match r.below(8) {
            0 => match if init || r.chance(1, 2) { p.push_init(T::make(nth(n))) } else { p.push(T::make(nth(n))) } {
                Ok(()) => got = 1,
                Err(v) if v.val() != nth(n) => violated("Refused", format!("{:#x} comes back instead of {:#x}", v.val(), nth(n))),
                Err(_) => {}
            },
            1 | 2 => {
                let v: Vec<T> = (0..k).map(|i| T::make(nth(n + i))).collect();
                if T::push_slice(&mut p, &v, init || r.chance(1, 2), r.chance(1, 2)).is_some() {
                    got = k
                }
            }
            3 => {
                if let Some(s) = p.get_next_item_mut_init() {
                    unsafe {
                        if mutringbuf::UnsafeSyncCell::check_zeroed(s) { s.write(T::make(nth(n))) } else { *s = T::make(nth(n)) }
                        p.advance(1);
                    }
                    got = 1;
                }
            }
            4 if !init => {
                if let Some((a, b)) = unsafe { p.get_next_slices_mut(k as usize) } {
                    for (i, s) in a.iter_mut().chain(b).enumerate() {
                        *s = T::make(nth(n + i as u64));
                    }
                    unsafe { p.advance(k as usize) };
                    got = k;
                }
            }
            5 if !init => {
                // detached: fill locally, publish at once
                let mut d = p.detach();
                for _ in 0..k {
                    if let Some(s) = d.get_workable() {
                        *s = T::make(nth(n + got));
                        unsafe { d.advance(1) };
                        got += 1;
                        if r.chance(1, 3) {
                            d.sync_index();
                        }
                    }
                }
                p = d.attach();
            }
            6 => {
                let mut a = AsyncProdIter::from_sync(p);
                if init {
                    if let Some(s) = poll_once(a.get_next_item_mut_init()) {
                        unsafe {
                            if mutringbuf::UnsafeSyncCell::check_zeroed(s) { s.write(T::make(nth(n))) } else { *s = T::make(nth(n)) }
                            a.advance(1);
                        }
                        got = 1;
                    }
                } else if poll_once(a.push(T::make(nth(n)))).is_some() {
                    got = 1;
                }
                p = a.into_sync();
            }
            _ => {
                let a = p.available();
                if a > c.len - 1 {
                    violated("Over", format!("the producer has {a} slots available of {}", c.len));
                }
            }
        }
        n += got;
        if got == 0 {
            if r.chance(1, 6) { p.wait_for(1) } else { pause(&mut r) }
        }
    }
    p
}

fn edit<T: Item>(s: &mut T, n: u64) {
    if s.val() != nth(n) {
        violated("Value", format!("the worker finds {:#x} instead of item {n} ({:#x})", s.val(), nth(n)));
    }
    s.set(map(nth(n)));
}

fn transform<'b, T: Item, B: MutRB<Item = T>>(mut w: WorkIter<'b, B>, c: &Conf, from: u64, upto: u64) -> WorkIter<'b, B> {
    let mut r = Rng::new(c.seed ^ 2 ^ from << 8);
    let mut n = from;
    while n < upto {
        let k = 1 + r.below((upto - n).min(c.len as u64 - 1));
        let mut got = 0;
        match r.below(7) {
            0 => {
                if let Some(s) = w.get_workable() {
                    edit(s, n);
                    unsafe { w.advance(1) };
                    got = 1;
                }
            }
            x @ (1 | 2 | 3) => {
                let s = match x {
                    1 => w.get_workable_slice_exact(k as usize),
                    2 => w.get_workable_slice_avail(),
                    _ => w.get_workable_slice_multiple_of(k as usize),
                };
                if let Some((a, b)) = s {
                    for s in a.iter_mut().chain(b).take((upto - n) as usize) {
                        edit(s, n + got);
                        got += 1;
                    }
                    unsafe { w.advance(got as usize) };
                }
            }
            4 => {
                let mut d = w.detach();
                let mut m = 0;
                while m < k {
                    let Some(s) = d.get_workable() else { break };
                    edit(s, n + m);
                    unsafe { d.advance(1) };
                    m += 1;
                    if r.chance(1, 4) {
                        // once more, from behind
                        unsafe { d.go_back(1) };
                        match d.get_workable() {
                            Some(s) if s.val() == map(nth(n + m - 1)) => {}
                            Some(s) => violated("Value", format!("after go_back the worker finds {:#x}", s.val())),
                            None => violated("Under", "after go_back nothing is available".into()),
                        }
                        unsafe { d.advance(1) };
                    }
                    if r.chance(1, 3) {
                        d.sync_index();
                    }
                }
                got = m;
                w = d.attach();
            }
            5 => {
                let mut a = AsyncWorkIter::from_sync(w);
                if let Some(s) = poll_once(a.get_workable()) {
                    edit(s, n);
                    unsafe { a.advance(1) };
                    got = 1;
                }
                w = a.into_sync();
            }
            _ => {
                w.available();
            }
        }
        n += got;
        if got == 0 {
            if r.chance(1, 6) { w.wait_for(1) } else { pause(&mut r) }
        }
    }
    w
}

fn consume<'b, T: Item, B: MutRB<Item = T>, const W: bool>(mut i: ConsIter<'b, B, W>, c: &Conf, from: u64, upto: u64) -> ConsIter<'b, B, W> {
    let mut r = Rng::new(c.seed ^ 3 ^ from << 8);
    let mut n = from;
    let check = |what: &str, n: u64, v: u64| {
        let e = if c.three { map(nth(n)) } else { nth(n) };
        if v != e {
            violated("Value", format!("{what} yields {v:#x} for item {n}, where {e:#x} is due"));
        }
    };
    while n < upto {
        let k = 1 + r.below((upto - n).min(c.len as u64 - 1));
        let mut got = 0;
        match if c.moves && T::OWNED { r.below(2) } else { r.below(8) } {
            0 if c.moves => {
                if let Some(v) = unsafe { i.pop_move() } {
                    check("pop_move", n, v.val());
                    got = 1;
                }
            }
            1 if c.moves => {
                let mut a = AsyncConsIter::from_sync(i);
                if let Some(v) = poll_once(unsafe { a.pop_move() }) {
                    check("async pop_move", n, v.val());
                    got = 1;
                }
                i = a.into_sync();
            }
            0 | 1 if !T::OWNED => {
                if let Some(v) = i.pop() {
                    check("pop", n, v.val());
                    got = 1;
                }
            }
            0 | 1 | 2 => {
                let mut d = T::make(3);
                if T::copy_item(&mut i, &mut d).is_some() {
                    check("copy_item", n, d.val());
                    got = 1;
                }
            }
            3 => {
                let mut d: Vec<T> = (0..k).map(|_| T::make(3)).collect();
                if T::copy_slice(&mut i, &mut d).is_some() {
                    for (j, v) in d.iter().enumerate() {
                        check("copy_slice", n + j as u64, v.val());
                    }
                    got = k;
                }
            }
            4 => {
                if let Some(v) = i.peek_ref() {
                    check("peek_ref", n, v.val());
                    unsafe { i.advance(1) };
                    got = 1;
                }
            }
            5 => {
                if let Some((a, b)) = if r.chance(1, 2) { i.peek_slice(k as usize) } else { i.peek_available() } {
                    for v in a.iter().chain(b).take((upto - n) as usize) {
                        check("peek_slice", n + got, v.val());
                        got += 1;
                    }
                    unsafe { i.advance(got as usize) };
                }
            }
            6 => {
                let mut d = i.detach();
                let mut m = 0;
                while m < k {
                    let Some(v) = d.get_workable() else { break };
                    check("detached", n + m, v.val());
                    unsafe { d.advance(1) };
                    m += 1;
                    if r.chance(1, 3) {
                        d.sync_index();
                    }
                }
                got = m;
                i = d.attach();
            }
            _ => {
                let mut a = AsyncConsIter::from_sync(i);
                if let Some(v) = poll_once(a.peek_ref()) {
                    check("async peek_ref", n, v.val());
                    unsafe { a.advance(1) };
                    got = 1;
                }
                i = a.into_sync();
            }
        }
        n += got;
        if got == 0 {
            if r.chance(1, 6) { i.wait_for(1) } else { pause(&mut r) }
        }
    }
    i
}

// ------------------------------------------------------------------------------------------------

/// The pipeline: everything goes through; a few items stay behind and are found by main.
fn pipe<'b, T: Item, B: MutRB<Item = T> + 'b, const W: bool>(p: ProdIter<'b, B>, w: Option<WorkIter<'b, B>>, i: ConsIter<'b, B, W>, c: &Conf)
where
    ProdIter<'b, B>: Send,
    WorkIter<'b, B>: Send,
    ConsIter<'b, B, W>: Send,
{
    let mut r = Rng::new(c.seed ^ 9);
    let left = r.below((c.len as u64).min(c.items + 1));
    let wleft = r.below(left + 1);
    let (n, wn, cn) = (c.items, c.items - wleft, c.items - left);
    let (p, w, i) = thread::scope(|s| {
        let a = s.spawn(move || produce::<T, B>(p, c, 0, n));
        let b = w.map(|w| s.spawn(move || transform::<T, B>(w, c, 0, wn)));
        let d = s.spawn(move || consume::<T, B, W>(i, c, 0, cn));
        (a.join().unwrap(), b.map(|b| b.join().unwrap()), d.join().unwrap())
    });
    let mut p = p;
    let mut i = i;
    let w = w.map(|w| {
        let mut w = transform::<T, B>(w, c, wn, n);
        if w.available() != 0 {
            violated("Lost", "the worker finds more than what has been pushed".into());
        }
        w
    });
    if i.available() as u64 != left {
        violated("Lost", format!("{} items are left instead of {left}", i.available()));
    }
    if p.available() as u64 != c.len as u64 - 1 - left {
        violated("Lost", format!("{} slots are free, with {left} items in {}", p.available(), c.len));
    }
    // ... by another thread, partly, while the iterators are dropped
    thread::scope(|s| {
        let t = s.spawn(move || {
            let mut i = consume::<T, B, W>(i, c, cn, n);
            if i.available() != 0 {
                violated("Lost", "more items come out than have been pushed".into());
            }
        });
        if c.seed & 1 == 0 {
            drop(p);
            drop(w);
        } else {
            t.join().unwrap();
        }
    });
}

/// A few operations, then all drop their iterators (plain, detached, async) at once.
fn drops<'b, T: Item, B: MutRB<Item = T> + 'b, const W: bool>(p: ProdIter<'b, B>, w: Option<WorkIter<'b, B>>, i: ConsIter<'b, B, W>, c: &Conf)
where
    ProdIter<'b, B>: Send,
    WorkIter<'b, B>: Send,
    ConsIter<'b, B, W>: Send,
{
    let mut r = Rng::new(c.seed ^ 4);
    let forms = [r.below(4), r.below(4), r.below(4)];
    let (n, wn, cn) = (r.below(c.len as u64), 0, 0);
    let start = AtomicBool::new(r.chance(1, 2));
    let start = &start;
    let spin = move || {
        let mut k = 0;
        while !start.load(Relaxed) && k < 200 {
            thread::yield_now();
            k += 1;
        }
    };
    macro_rules! end {
        ($i:expr, $a:ty, $f:expr) => {
            match $f {
                0 => drop($i),
                1 => drop($i.detach()),
                2 => drop(<$a>::from_sync($i)),
                _ => drop(<$a>::from_sync($i).detach()),
            }
        };
    }
    let _ = (wn, cn);
    thread::scope(|s| {
        s.spawn(move || {
            let p = produce::<T, B>(p, c, 0, n);
            spin();
            end!(p, AsyncProdIter<'b, B>, forms[0])
        });
        if let Some(w) = w {
            s.spawn(move || {
                spin();
                let mut w = w;
                if forms[1] == 0 {
                    w.available();
                }
                end!(w, AsyncWorkIter<'b, B>, forms[1])
            });
        }
        s.spawn(move || {
            spin();
            let mut i = i;
            if forms[2] == 0 {
                i.available();
            }
            end!(i, AsyncConsIter<'b, B, W>, forms[2])
        });
        start.store(true, Relaxed);
    });
}

/// Who sees a peer dead sees everything it has published.
fn flags<'b, T: Item, B: MutRB<Item = T> + 'b, const W: bool>(p: ProdIter<'b, B>, w: Option<WorkIter<'b, B>>, i: ConsIter<'b, B, W>, c: &Conf)
where
    ProdIter<'b, B>: Send,
    WorkIter<'b, B>: Send,
    ConsIter<'b, B, W>: Send,
{
    let mut r = Rng::new(c.seed ^ 5);
    let n = 1 + r.below(c.len as u64 - 1);
    let back = r.chance(1, 3);
    thread::scope(|s| {
        s.spawn(move || {
            let mut p = produce::<T, B>(p, c, 0, n);
            if back && !c.three {
                while p.is_cons_alive() {
                    thread::yield_now();
                }
                let a = p.available();
                if a != c.len - 1 {
                    violated("Flag", format!("the consumer is dead and has taken everything, yet {a} slots are free of {}", c.len));
                }
                produce::<T, B>(p, c, 0, c.len as u64 - 1);
            }
        });
        if let Some(mut w) = w {
            s.spawn(move || {
                while w.is_prod_alive() {
                    thread::yield_now();
                }
                let a = w.available();
                if a as u64 != n {
                    violated("Flag", format!("the producer is dead and has left {n} items, yet the worker finds {a}"));
                }
                transform::<T, B>(w, c, 0, n);
            });
        }
        s.spawn(move || {
            let mut i = i;
            if back && !c.three {
                consume::<T, B, W>(i, c, 0, n);
                return;
            }
            while if c.three { i.is_work_alive() } else { i.is_prod_alive() } {
                thread::yield_now();
            }
            let a = i.available();
            if a as u64 != n {
                violated("Flag", format!("the one ahead is dead and has left {n} items, yet the consumer finds {a}"));
            }
            consume::<T, B, W>(i, c, 0, n);
        });
    });
}

struct Unpark(thread::Thread, AtomicBool);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.1.store(true, Release);
        self.0.unpark();
    }
}
/// Parks until woken: a lost wake-up is a deadlock.
fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let u = Arc::new(Unpark(thread::current(), AtomicBool::new(false)));
    let w = Waker::from(u.clone());
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return r;
        }
        while !u.1.swap(false, Acquire) {
            thread::park();
        }
        thread::yield_now();
    }
}

/// Every stage awaits.
fn block<'b, T: Item, B: MutRB<Item = T> + 'b, const W: bool>(p: ProdIter<'b, B>, w: Option<WorkIter<'b, B>>, i: ConsIter<'b, B, W>, c: &Conf)
where
    ProdIter<'b, B>: Send,
    WorkIter<'b, B>: Send,
    ConsIter<'b, B, W>: Send,
{
    let n = c.items;
    let check = |n: u64, v: u64| {
        let e = if c.three { map(nth(n)) } else { nth(n) };
        if v != e {
            violated("Value", format!("an awaited operation yields {v:#x} for item {n}, where {e:#x} is due"));
        }
    };
    thread::scope(|s| {
        s.spawn(move || {
            let mut r = Rng::new(c.seed ^ 6);
            let mut p = AsyncProdIter::from_sync(p);
            let mut k = 0;
            while k < n {
                if c.moves || r.chance(1, 2) {
                    let s = block_on(p.get_next_item_mut_init()).unwrap();
                    unsafe {
                        if mutringbuf::UnsafeSyncCell::check_zeroed(s) { s.write(T::make(nth(k))) } else { *s = T::make(nth(k)) }
                        p.advance(1);
                    }
                } else {
                    block_on(p.push(T::make(nth(k)))).unwrap();
                }
                k += 1;
            }
        });
        if let Some(w) = w {
            s.spawn(move || {
                let mut w = AsyncWorkIter::from_sync(w);
                for k in 0..n {
                    edit(block_on(w.get_workable()).unwrap(), k);
                    unsafe { w.advance(1) };
                }
            });
        }
        s.spawn(move || {
            let mut r = Rng::new(c.seed ^ 7);
            let mut i = AsyncConsIter::from_sync(i);
            for k in 0..n {
                if c.moves {
                    check(k, block_on(unsafe { i.pop_move() }).unwrap().val());
                } else if r.chance(1, 2) {
                    check(k, block_on(i.peek_ref()).unwrap().val());
                    unsafe { i.advance(1) };
                } else {
                    let mut d = T::make(3);
                    block_on(i.clone_item(&mut d)).unwrap();
                    check(k, d.val());
                }
            }
        });
    });
}

fn go<T: Item>(mode: &str, c: &Conf) {
    macro_rules! with {
        ($b:ident) => {
            if c.three {
                let (p, w, i) = $b.split_mut();
                with!(p, Some(w), i)
            } else {
                let (p, i) = $b.split();
                with!(p, None, i)
            }
        };
        ($p:ident, $w:expr, $i:ident) => {
            match mode {
                "pipe" => pipe::<T, _, _>($p, $w, $i, c),
                "drops" => drops::<T, _, _>($p, $w, $i, c),
                "flags" => flags::<T, _, _>($p, $w, $i, c),
                _ => block::<T, _, _>($p, $w, $i, c),
            }
        };
    }
    if c.stack {
        let mut b: ConcurrentStackRB<T, 3> = if c.moves { unsafe { ConcurrentStackRB::new_zeroed() } } else { ConcurrentStackRB::from([T::make(5), T::make(5), T::make(5)]) };
        with!(b)
    } else {
        let b: ConcurrentHeapRB<T> = if c.moves { unsafe { ConcurrentHeapRB::new_zeroed(c.len) } } else { ConcurrentHeapRB::from((0..c.len).map(|_| T::make(5)).collect::<Vec<_>>()) };
        with!(b)
    }
}

pub fn run(mode: &str, seed: u64) {
    let mut r = Rng::new(seed);
    let stack = mode != "drops" && r.chance(1, 6);
    let c = Conf { len: if stack { 3 } else { 2 + r.below(3) as usize }, items: 2 + r.below(4), three: r.chance(1, 2), moves: r.chance(1, 2), stack, seed: r.next() };
    let owned = r.chance(1, 2);
    crate::say(format!("PROGRAM {mode} {seed} owned={owned} {c:?}\n"));
    let live = LIVE.load(Relaxed);
    if owned { go::<Own>(mode, &c) } else { go::<Two>(mode, &c) }
    let now = LIVE.load(Relaxed);
    if now != live {
        violated("Ledger", format!("{} values have not been destroyed", now - live));
    }
}
