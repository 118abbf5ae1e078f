//! Items which tell the runtime when they are cloned or destroyed within the buffer.

use crate::rt;
use mutringbuf::iterators::{AsyncConsIter, AsyncProdIter, ConsIter, ProdIter};
use mutringbuf::MutRB;
use std::future::Future;

pub const BAD: u64 = u64::MAX;
/// Key of a value: identifier and number of edits.
pub fn key(id: u32, e: u32) -> u64 {
    (e as u64) << 32 | id as u64
}
fn sum(k: u64) -> u64 {
    (k.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 7) | 1
}

pub trait Item: Sized + Clone + Default + 'static {
    const NAME: &'static str;
    const TRACKED: bool;
    fn make(key: u64) -> Self;
    fn key(&self) -> u64;
    /// Sets the key in two steps, which may be interrupted.
    fn set_key(&mut self, key: u64);
    fn forget_key(&self) -> u64 { self.key() }

    fn push_slice<B: MutRB<Item = Self>>(p: &mut ProdIter<B>, s: &[Self]) -> Option<()>;
    fn push_slice_init<B: MutRB<Item = Self>>(p: &mut ProdIter<B>, s: &[Self]) -> Option<()>;
    fn copy_item<B: MutRB<Item = Self>, const W: bool>(c: &mut ConsIter<B, W>, d: &mut Self) -> Option<()>;
    fn copy_slice<B: MutRB<Item = Self>, const W: bool>(c: &mut ConsIter<B, W>, d: &mut [Self]) -> Option<()>;
    fn a_push_slice<'a, 'b: 'a, 'c: 'a, B: MutRB<Item = Self> + 'b>(p: &'a mut AsyncProdIter<'b, B>, s: &'c [Self]) -> Box<dyn Future<Output = Option<()>> + Unpin + 'a>;
    fn a_copy_item<'a, 'b: 'a, 'c: 'a, B: MutRB<Item = Self> + 'b, const W: bool>(c: &'a mut AsyncConsIter<'b, B, W>, d: &'c mut Self) -> Box<dyn Future<Output = Option<()>> + Unpin + 'a>;
    fn a_copy_slice<'a, 'b: 'a, 'c: 'a, B: MutRB<Item = Self> + 'b, const W: bool>(c: &'a mut AsyncConsIter<'b, B, W>, d: &'c mut [Self]) -> Box<dyn Future<Output = Option<()>> + Unpin + 'a>;
}

macro_rules! slice_ops {
    ($push:ident, $push_init:ident, $item:ident, $slice:ident) => {
        fn push_slice<B: MutRB<Item = Self>>(p: &mut ProdIter<B>, s: &[Self]) -> Option<()> { p.$push(s) }
        fn push_slice_init<B: MutRB<Item = Self>>(p: &mut ProdIter<B>, s: &[Self]) -> Option<()> { p.$push_init(s) }
        fn copy_item<B: MutRB<Item = Self>, const W: bool>(c: &mut ConsIter<B, W>, d: &mut Self) -> Option<()> { c.$item(d) }
        fn copy_slice<B: MutRB<Item = Self>, const W: bool>(c: &mut ConsIter<B, W>, d: &mut [Self]) -> Option<()> { c.$slice(d) }
        fn a_push_slice<'a, 'b: 'a, 'c: 'a, B: MutRB<Item = Self> + 'b>(p: &'a mut AsyncProdIter<'b, B>, s: &'c [Self]) -> Box<dyn Future<Output = Option<()>> + Unpin + 'a> { Box::new(p.$push(s)) }
        fn a_copy_item<'a, 'b: 'a, 'c: 'a, B: MutRB<Item = Self> + 'b, const W: bool>(c: &'a mut AsyncConsIter<'b, B, W>, d: &'c mut Self) -> Box<dyn Future<Output = Option<()>> + Unpin + 'a> { Box::new(c.$item(d)) }
        fn a_copy_slice<'a, 'b: 'a, 'c: 'a, B: MutRB<Item = Self> + 'b, const W: bool>(c: &'a mut AsyncConsIter<'b, B, W>, d: &'c mut [Self]) -> Box<dyn Future<Output = Option<()>> + Unpin + 'a> { Box::new(c.$slice(d)) }
    };
}

/// Plain data.
#[derive(Copy)]
#[repr(C)]
pub struct Cp {
    k: u64,
    s: u64,
}
impl Clone for Cp {
    fn clone(&self) -> Self {
        rt::touch(self as *const _ as usize, false);
        let k = self.k;
        rt::point("clone");
        rt::touch(self as *const _ as usize, false);
        Cp { k, s: self.s }
    }
}
impl Default for Cp {
    fn default() -> Self {
        Self::make(key(999, 0))
    }
}
impl Item for Cp {
    const NAME: &'static str = "Cp";
    const TRACKED: bool = false;
    fn make(k: u64) -> Self {
        Cp { k, s: sum(k) }
    }
    fn key(&self) -> u64 {
        if self.s == sum(self.k) { self.k } else { BAD }
    }
    fn set_key(&mut self, k: u64) {
        self.k = k;
        rt::point("half an edit");
        self.s = sum(k);
    }
    slice_ops!(push_slice, push_slice_init, copy_item, copy_slice);
}

/// Owned data: each instance has to be destroyed exactly once.
#[repr(C)]
pub struct Ow {
    k: u64,
    /// instance: index into the ledger + 1
    n: u64,
}
impl Clone for Ow {
    fn clone(&self) -> Self {
        rt::touch(self as *const _ as usize, false);
        let k = self.key();
        rt::point("clone");
        rt::touch(self as *const _ as usize, false);
        if self.key() != k {
            return Self::make(BAD - 1);
        }
        Self::make(k)
    }
}
impl Default for Ow {
    fn default() -> Self {
        Self::make(key(999, 0))
    }
}
impl Drop for Ow {
    fn drop(&mut self) {
        rt::touch(self as *const _ as usize, false);
        rt::death(self.n);
        rt::point("drop");
    }
}
impl Item for Ow {
    const NAME: &'static str = "Ow";
    const TRACKED: bool = true;
    fn make(k: u64) -> Self {
        Ow { k, n: rt::birth() }
    }
    fn key(&self) -> u64 {
        if rt::alive(self.n) { self.k } else { BAD }
    }
    fn set_key(&mut self, k: u64) {
        self.k = BAD - 2;
        rt::point("half an edit");
        self.k = k;
    }
    slice_ops!(push_slice_clone, push_slice_clone_init, clone_item, clone_slice);
}
