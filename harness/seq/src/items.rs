//! Item types pushed through the buffers, and the ledger which records the fate of each instance.

use std::cell::RefCell;
use mutringbuf::iterators::{AsyncConsIter, AsyncProdIter, ConsIter, ProdIter, async_iterators::AsyncIterator};
use mutringbuf::MutRB;
use std::future::Future;

/// Key of a value: an identifier in `1..=IDS` and a counter of the edits made in place.
/// 0 is never the key of a value; `BAD` is what a torn or foreign representation reads as.
pub const BAD: u64 = u64::MAX;

pub trait Item: Sized + Clone + Default + 'static {
    const NAME: &'static str;
    const IS_COPY: bool;
    /// Has a ledger.
    const TRACKED: bool = false;
    const ID_BITS: u32;
    const EDIT_BITS: u32;
    /// What zeroed memory holds: nothing, unless that is a value like any other.
    const EMPTY: u64 = 0;

    fn make(key: u64) -> Self;
    fn key(&self) -> u64;
    fn set_key(&mut self, key: u64);

    /// Key after an edit.
    fn edited(key: u64) -> u64 {
        let id = key & ((1 << Self::ID_BITS) - 1);
        let e = ((key >> Self::ID_BITS) + 1) & ((1 << Self::EDIT_BITS) - 1);
        id | (e << Self::ID_BITS)
    }
    fn edit(&mut self) {
        let k = self.key();
        self.set_key(Self::edited(k));
    }
    /// `n`-th fresh key.
    fn fresh(n: u64) -> u64 {
        1 + n % ((1 << Self::ID_BITS) - 1)
    }

    /// Reads a slot without interpreting it unless it has a nonzero byte: 0 stands for empty.
    unsafe fn peek_raw(p: *const Self) -> u64 {
        let b = std::slice::from_raw_parts(p as *const u8, size_of::<Self>());
        if b.iter().all(|x| *x == 0) { 0 } else { Self::raw_key(p) }
    }
    unsafe fn raw_key(p: *const Self) -> u64 {
        (*p).key()
    }

    /// Runs a case on the buffer variants offered for this type.
    fn dispatch(case: &crate::run::Case, m: &mut crate::model::Model<Self>, keys: &[u64]);

    // Copy-specialised operations, if the type allows for them (clone ones, otherwise).
    fn push_slice<B: MutRB<Item = Self>>(p: &mut ProdIter<B>, s: &[Self]) -> Option<()>;
    fn push_slice_init<B: MutRB<Item = Self>>(p: &mut ProdIter<B>, s: &[Self]) -> Option<()>;
    fn copy_item<B: MutRB<Item = Self>, const W: bool>(c: &mut ConsIter<B, W>, d: &mut Self) -> Option<()>;
    fn copy_slice<B: MutRB<Item = Self>, const W: bool>(c: &mut ConsIter<B, W>, d: &mut [Self]) -> Option<()>;
    fn a_push_slice<'a, 'b: 'a, 'c: 'a, B: MutRB<Item = Self> + 'b>(p: &'a mut AsyncProdIter<'b, B>, s: &'c [Self]) -> Box<dyn Future<Output = Option<()>> + Unpin + 'a>;
    fn a_copy_item<'a, 'b: 'a, 'c: 'a, B: MutRB<Item = Self> + 'b, const W: bool>(c: &'a mut AsyncConsIter<'b, B, W>, d: &'c mut Self) -> Box<dyn Future<Output = Option<()>> + Unpin + 'a>;
    fn a_copy_slice<'a, 'b: 'a, 'c: 'a, B: MutRB<Item = Self> + 'b, const W: bool>(c: &'a mut AsyncConsIter<'b, B, W>, d: &'c mut [Self]) -> Box<dyn Future<Output = Option<()>> + Unpin + 'a>;
}

macro_rules! variants {
    ($f:ident) => {
        fn dispatch(case: &crate::run::Case, m: &mut crate::model::Model<Self>, keys: &[u64]) {
            crate::run::$f(case, m, keys)
        }
    };
}

macro_rules! slice_ops {
    ($push:ident, $push_init:ident, $item:ident, $slice:ident) => {
        fn push_slice<B: MutRB<Item = Self>>(p: &mut ProdIter<B>, s: &[Self]) -> Option<()> { p.$push(s) }
        fn push_slice_init<B: MutRB<Item = Self>>(p: &mut ProdIter<B>, s: &[Self]) -> Option<()> { p.$push_init(s) }
        fn copy_item<B: MutRB<Item = Self>, const W: bool>(c: &mut ConsIter<B, W>, d: &mut Self) -> Option<()> { c.$item(d) }
        fn copy_slice<B: MutRB<Item = Self>, const W: bool>(c: &mut ConsIter<B, W>, d: &mut [Self]) -> Option<()> { c.$slice(d) }
        fn a_push_slice<'a, 'b: 'a, 'c: 'a, B: MutRB<Item = Self> + 'b>(p: &'a mut AsyncProdIter<'b, B>, s: &'c [Self]) -> Box<dyn Future<Output = Option<()>> + Unpin + 'a> { Box::new(p.$push(s)) }
        fn a_copy_item<'a, 'b: 'a, 'c: 'a, B: MutRB<Item = Self> + 'b, const W: bool>(c: &'a mut AsyncConsIter<'b, B, W>, d: &'c mut Self) -> Box<dyn Future<Output = Option<()>> + Unpin + 'a> { Box::new(c.$item(d)) }
        fn a_copy_slice<'a, 'b: 'a, 'c: 'a, B: MutRB<Item = Self> + 'b, const W: bool>(c: &'a mut AsyncConsIter<'b, B, W>, d: &'c mut [Self]) -> Box<dyn Future<Output = Option<()>> + Unpin + 'a> { Box::new(c.$slice(d)) }
    };
}

// ---------------------------------------------------------------------------------------------
// Plain data: every byte takes part in the key.

fn fill(b: &mut [u8], key: u64) {
    b[0] = key as u8;
    if b.len() > 1 {
        b[1] = (key >> 8) as u8;
    }
    for i in 2..b.len() {
        b[i] = (key as u8).wrapping_mul(31).wrapping_add((key >> 8) as u8).wrapping_add((i as u8).wrapping_mul(7));
    }
}

fn read(b: &[u8]) -> u64 {
    if b.iter().all(|x| *x == 0) {
        return 0;
    }
    let key = b[0] as u64 | if b.len() > 1 { (b[1] as u64) << 8 } else { 0 };
    for i in 2..b.len() {
        if b[i] != (key as u8).wrapping_mul(31).wrapping_add((key >> 8) as u8).wrapping_add((i as u8).wrapping_mul(7)) {
            return BAD;
        }
    }
    if key == 0 { BAD } else { key }
}

macro_rules! pod {
    ($t:ty, $name:literal, $id:literal, $ed:literal, $vars:ident) => {
        impl Item for $t {
            const NAME: &'static str = $name;
            const IS_COPY: bool = true;
            const ID_BITS: u32 = $id;
            const EDIT_BITS: u32 = $ed;
            variants!($vars);
            fn make(key: u64) -> Self {
                let mut v: $t = Default::default();
                v.set_key(key);
                v
            }
            fn key(&self) -> u64 {
                read(unsafe { std::slice::from_raw_parts(self as *const _ as *const u8, size_of::<Self>()) })
            }
            fn set_key(&mut self, key: u64) {
                fill(unsafe { std::slice::from_raw_parts_mut(self as *mut _ as *mut u8, size_of::<Self>()) }, key)
            }
            slice_ops!(push_slice, push_slice_init, copy_item, copy_slice);
        }
    };
}

pod!(u8, "u8", 5, 3, one_variant);
pod!(u16, "u16", 11, 5, one_variant);
pod!([u8; 3], "[u8;3]", 11, 5, one_variant);
pod!(u64, "u64", 11, 5, all_variants);
pod!([u32; 3], "[u32;3]", 11, 5, one_variant);
pod!(u128, "u128", 11, 5, one_variant);

/// Plain data for which zero is a value like any other.
#[derive(Clone, Copy, Default)]
#[repr(transparent)]
pub struct Ze(u64);

impl Item for Ze {
    const NAME: &'static str = "Ze";
    const IS_COPY: bool = true;
    const ID_BITS: u32 = 3;
    const EDIT_BITS: u32 = 3;
    const EMPTY: u64 = 1;
    variants!(one_variant);
    fn make(key: u64) -> Self {
        Ze(key - 1)
    }
    fn key(&self) -> u64 {
        if self.0 < 64 { self.0 + 1 } else { BAD }
    }
    fn set_key(&mut self, key: u64) {
        self.0 = key - 1
    }
    unsafe fn peek_raw(p: *const Self) -> u64 {
        (*p).key()
    }
    slice_ops!(push_slice, push_slice_init, copy_item, copy_slice);
}

/// No bytes at all.
#[derive(Clone, Copy, Default)]
pub struct Zs;

impl Item for Zs {
    const NAME: &'static str = "Zs";
    const IS_COPY: bool = true;
    const ID_BITS: u32 = 1;
    const EDIT_BITS: u32 = 0;
    const EMPTY: u64 = 1;
    variants!(one_variant);
    fn make(_: u64) -> Self {
        Zs
    }
    fn key(&self) -> u64 {
        1
    }
    fn set_key(&mut self, _: u64) {}
    unsafe fn peek_raw(_: *const Self) -> u64 {
        1
    }
    slice_ops!(push_slice, push_slice_init, copy_item, copy_slice);
}

/// A whole cache line.
#[derive(Clone, Copy, Default)]
#[repr(align(64))]
pub struct Al([u8; 32], [u8; 32]);

impl Item for Al {
    const NAME: &'static str = "Al";
    const IS_COPY: bool = true;
    const ID_BITS: u32 = 11;
    const EDIT_BITS: u32 = 5;
    variants!(one_variant);
    fn make(key: u64) -> Self {
        let mut v = Al::default();
        v.set_key(key);
        v
    }
    fn key(&self) -> u64 {
        // a buffer must not keep them anywhere else
        if std::hint::black_box(self as *const _ as usize) % 64 != 0 {
            return BAD;
        }
        read(unsafe { std::slice::from_raw_parts(self as *const _ as *const u8, 64) })
    }
    fn set_key(&mut self, key: u64) {
        fill(unsafe { std::slice::from_raw_parts_mut(self as *mut _ as *mut u8, 64) }, key)
    }
    slice_ops!(push_slice, push_slice_init, copy_item, copy_slice);
}

// ---------------------------------------------------------------------------------------------
// Tracked items.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    /// A zeroed representation has been used as a value.
    ZeroRead,
    /// A zeroed representation has been passed to the destructor.
    ZeroDrop,
    /// An instance which had already been destroyed has been destroyed again.
    DoubleDrop(u64),
    /// An instance which had already been destroyed has been used.
    DeadRead(u64),
    /// Memory which does not represent any instance has been used or destroyed.
    Garbage,
}

#[derive(Default)]
pub struct Ledger {
    /// (key, alive)
    inst: Vec<(u64, bool)>,
    pub alive: usize,
    pub events: Vec<Ev>,
    pub made: u64,
    pub dropped: u64,
}

thread_local! {
    pub static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
}

pub fn ledger_reset() {
    LEDGER.with_borrow_mut(|l| {
        if l.inst.capacity() == 0 {
            l.inst.reserve(1 << 16);
            l.events.reserve(64);
        }
        l.inst.clear();
        l.events.clear();
        l.alive = 0;
    })
}
pub fn ledger_alive() -> usize {
    LEDGER.with_borrow(|l| l.alive)
}
pub fn ledger_made() -> usize {
    LEDGER.with_borrow(|l| l.inst.len())
}
pub fn ledger_event() -> Option<Ev> {
    LEDGER.with_borrow(|l| l.events.first().copied())
}
/// Is the n-th instance alive?
pub fn ledger_lives(n: usize) -> bool {
    LEDGER.with_borrow(|l| l.inst.get(n.wrapping_sub(1)).is_some_and(|x| x.1))
}
thread_local! {
    static FUSE: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// The n-th clone from now panics (0: none).
pub fn fuse_in(n: u32) {
    FUSE.set(n)
}
fn fuse() {
    let n = FUSE.get();
    if n > 0 {
        FUSE.set(n - 1);
        if n == 1 {
            panic!("this clone fails");
        }
    }
}
pub fn ledger_totals() -> (u64, u64) {
    LEDGER.with_borrow(|l| (l.made, l.dropped))
}
pub fn ledger_survivors() -> Vec<u64> {
    LEDGER.with_borrow(|l| l.inst.iter().filter(|x| x.1).map(|x| x.0).collect())
}

fn ev(e: Ev) {
    LEDGER.with_borrow_mut(|l| if l.events.len() < 64 { l.events.push(e) })
}
fn birth(key: u64) -> u64 {
    LEDGER.with_borrow_mut(|l| {
        l.inst.push((key, true));
        l.alive += 1;
        l.made += 1;
        l.inst.len() as u64
    })
}
/// Key of the instance with the given code.
fn lookup(code: Option<u64>) -> u64 {
    let Some(code) = code else {
        ev(Ev::Garbage);
        return BAD;
    };
    if code == 0 {
        ev(Ev::ZeroRead);
        return 0;
    }
    let r = LEDGER.with_borrow(|l| l.inst.get(code as usize - 1).copied());
    match r {
        None => {
            ev(Ev::Garbage);
            BAD
        }
        Some((k, true)) => k,
        Some((k, false)) => {
            ev(Ev::DeadRead(k));
            k
        }
    }
}
fn death(code: Option<u64>) {
    let Some(code) = code else { return ev(Ev::Garbage) };
    if code == 0 {
        return ev(Ev::ZeroDrop);
    }
    let r = LEDGER.with_borrow_mut(|l| {
        l.dropped += 1;
        match l.inst.get_mut(code as usize - 1) {
            None => Some(Ev::Garbage),
            Some((k, a)) => {
                if *a {
                    *a = false;
                    l.alive -= 1;
                    None
                } else {
                    Some(Ev::DoubleDrop(*k))
                }
            }
        }
    });
    if let Some(e) = r {
        ev(e)
    }
}
/// Like `lookup`, for the monitor: records nothing.
fn silent(code: Option<u64>) -> u64 {
    LEDGER.with_borrow(|l| match code {
        Some(c) if c > 0 => match l.inst.get(c as usize - 1) {
            Some((k, true)) => *k,
            _ => BAD,
        },
        _ => BAD,
    })
}
fn rekey(code: Option<u64>, key: u64) {
    lookup(code);
    if let Some(c) = code {
        LEDGER.with_borrow_mut(|l| if let Some(x) = l.inst.get_mut((c as usize).wrapping_sub(1)) { x.0 = key })
    }
}

macro_rules! tracked {
    ($t:ident, $name:literal, $vars:ident) => {
        impl Drop for $t {
            fn drop(&mut self) {
                death(self.code())
            }
        }
        impl Clone for $t {
            fn clone(&self) -> Self {
                fuse();
                let k = lookup(self.code());
                Self::from_code(birth(k))
            }
        }
        impl Default for $t {
            fn default() -> Self {
                Self::make(Self::fresh(1000))
            }
        }
        impl Item for $t {
            const NAME: &'static str = $name;
            const IS_COPY: bool = false;
            const TRACKED: bool = true;
            const ID_BITS: u32 = 32;
            const EDIT_BITS: u32 = 16;
            variants!($vars);
            fn make(key: u64) -> Self {
                Self::from_code(birth(key))
            }
            fn key(&self) -> u64 {
                lookup(self.code())
            }
            fn set_key(&mut self, key: u64) {
                rekey(self.code(), key)
            }
            unsafe fn raw_key(p: *const Self) -> u64 {
                silent((*p).code())
            }
            slice_ops!(push_slice_clone, push_slice_clone_init, clone_item, clone_slice);
        }
    };
}

/// A single nonzero byte at a position depending on the instance (two, beyond thousands of instances).
fn sparse<const N: usize>(code: u64) -> [u8; N] {
    let c = code as usize - 1;
    let mut w = [0; N];
    let p = c % N;
    w[p] = 1 + (c / N % 255) as u8;
    let hi = c / N / 255;
    assert!(hi < 256, "too many instances");
    if hi > 0 {
        w[(p + 1) % N] = hi as u8;
    }
    w
}
fn dense<const N: usize>(w: &[u8; N]) -> Option<u64> {
    let mut at = [0; 2];
    let mut n = 0;
    for (i, b) in w.iter().enumerate() {
        if *b != 0 {
            if n == 2 {
                return None;
            }
            at[n] = i;
            n += 1;
        }
    }
    let (p, hi) = match (n, at) {
        (0, _) => return Some(0),
        (1, [p, _]) => (p, 0),
        (_, [p, q]) if q == p + 1 => (p, w[q]),
        (_, [0, q]) if q == N - 1 => (q, w[0]),
        _ => return None,
    };
    Some(((hi as u64 * 255 + w[p] as u64 - 1) * N as u64) + p as u64 + 1)
}

/// 24 bytes.
#[repr(align(8))]
pub struct It([u8; 24]);

impl It {
    fn from_code(code: u64) -> Self {
        It(sparse(code))
    }
    fn code(&self) -> Option<u64> {
        let w: [u64; 3] = unsafe { std::mem::transmute(self.0) };
        // the usual cases, quickly
        let i = match (w[0] != 0, w[1] != 0, w[2] != 0) {
            (false, false, false) => return Some(0),
            (true, false, false) => 0,
            (false, true, false) => 1,
            (false, false, true) => 2,
            _ => return dense(&self.0),
        };
        let b = w[i].trailing_zeros() as u64 / 8;
        let v = w[i] >> (8 * b);
        if v > 255 {
            return dense(&self.0);
        }
        Some((v - 1) * 24 + 8 * i as u64 + b + 1)
    }
}
tracked!(It, "It", all_variants);

/// 71 bytes, byte aligned.
#[repr(transparent)]
pub struct Od([u8; 71]);

impl Od {
    fn from_code(code: u64) -> Self {
        Od(sparse(code))
    }
    fn code(&self) -> Option<u64> {
        dense(&self.0)
    }
}
tracked!(Od, "Od", one_variant);

/// 520 bytes, of which two neighbours are nonzero (three, beyond very many instances): equal ones or opposite ones, such
/// that their exclusive or their sum is zero.
#[repr(transparent)]
pub struct Lg([u8; 520]);

impl Lg {
    fn from_code(code: u64) -> Self {
        let c = code as usize;
        let (p, v, hi) = (c * 197 % 518, c / 518 % 255 + 1, c / 518 / 255);
        assert!(hi < 256, "too many instances");
        let mut w = [0; 520];
        w[p] = v as u8;
        w[p + 1] = if c % 2 == 0 { v as u8 } else { (v as u8).wrapping_neg() };
        w[p + 2] = hi as u8;
        Lg(w)
    }
    fn code(&self) -> Option<u64> {
        let w = &self.0;
        let Some(mut p) = w.chunks(8).position(|x| x != [0; 8]) else { return Some(0) };
        p *= 8;
        while w[p] == 0 {
            p += 1;
        }
        if p > 517 || w[p + 3..].chunks(8).any(|x| *x != [0; 8][..x.len()]) {
            return None;
        }
        let c = (w[p + 2] as u64 * 255 + w[p] as u64 - 1) * 518 + p as u64 * 71 % 518;
        let q = if c % 2 == 0 { w[p] } else { w[p].wrapping_neg() };
        // (the code 0 is never used)
        Some(c).filter(|c| *c > 0 && w[p + 1] == q)
    }
}
tracked!(Lg, "Lg", one_variant);

/// With padding.
#[repr(C)]
pub struct Pd {
    tag: u8,
    code: u64,
    tail: u16,
}

impl Pd {
    fn from_code(code: u64) -> Self {
        match code % 3 {
            0 => Pd { tag: (code % 255) as u8 + 1, code: code / 255 << 1, tail: 0 },
            1 => Pd { tag: 0, code: code << 1 | 1, tail: 0 },
            _ => Pd { tag: 0, code: code / 65535 << 1, tail: (code % 65535) as u16 + 1 },
        }
    }
    fn code(&self) -> Option<u64> {
        let (tag, code, tail) = (self.tag as u64, self.code, self.tail as u64);
        match (tag, code & 1, tail) {
            (0, 0, 0) if code == 0 => Some(0),
            (0, 1, 0) => Some(code >> 1).filter(|c| c % 3 == 1),
            (1.., 0, 0) => Some((code >> 1) * 255 + tag - 1).filter(|c| *c > 0 && c % 3 == 0),
            (0, 0, 1..) => Some((code >> 1) * 65535 + tail - 1).filter(|c| *c > 0 && c % 3 == 2),
            _ => None,
        }
    }
}
tracked!(Pd, "Pd", one_variant);

/// A single-byte sized... four bytes, byte aligned: the nonzero byte moves within them.
#[repr(transparent)]
pub struct Sm([u8; 5]);

impl Sm {
    fn from_code(code: u64) -> Self {
        // base 251 digits, digit at an instance dependent position is never zero
        let mut w = [0u8; 5];
        let p = (code as usize) % 2;
        let c = code as u32;
        if p == 0 {
            // low part last
            w[4] = (c % 250) as u8 + 1;
            w[3] = (c / 250) as u8;
            if c / 250 > 255 { w[2] = (c / 250 / 256) as u8; }
        } else {
            w[0] = (c % 250) as u8 + 1;
            w[1] = (c / 250) as u8;
            if c / 250 > 255 { w[2] = (c / 250 / 256) as u8; }
        }
        Sm(w)
    }
    fn code(&self) -> Option<u64> {
        let w = self.0;
        if w == [0; 5] {
            return Some(0);
        }
        let (lo, mid, other) = if w[4] != 0 { (w[4], w[3], [w[0], w[1]]) } else if w[0] != 0 { (w[0], w[1], [w[3], w[4]]) } else { return None };
        if other != [0, 0] {
            return None;
        }
        let c = (lo as u64 - 1) + 250 * (mid as u64 + 256 * w[2] as u64);
        Some(c).filter(|c| *c > 0 && (c % 2 == 0) == (w[4] != 0))
    }
}
tracked!(Sm, "Sm", one_variant);

// ---------------------------------------------------------------------------------------------
// Heap item: for sanitizers.

pub struct Bx(Box<u64>);

impl Clone for Bx {
    fn clone(&self) -> Self {
        fuse();
        Bx(self.0.clone())
    }
}
impl Default for Bx {
    fn default() -> Self {
        Bx(Box::new(1000))
    }
}
impl Item for Bx {
    const NAME: &'static str = "Bx";
    const IS_COPY: bool = false;
    const ID_BITS: u32 = 32;
    const EDIT_BITS: u32 = 16;
    variants!(one_variant);
    fn make(key: u64) -> Self {
        Bx(Box::new(key))
    }
    fn key(&self) -> u64 {
        *self.0
    }
    fn set_key(&mut self, key: u64) {
        *self.0 = key
    }
    slice_ops!(push_slice_clone, push_slice_clone_init, clone_item, clone_slice);
}

/// Runs a future which is expected to need a single poll.
#[allow(dead_code)]
pub fn is_async<I: AsyncIterator>(_: &I) {}
