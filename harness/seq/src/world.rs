//! Uniform, dynamically dispatched access to the iterators of a session, whatever the buffer
//! variant and the form (plain, detached, async, detached async) each of them is in.

use crate::items::Item;
use mutringbuf::iterators::async_iterators::AsyncIterator;
use mutringbuf::iterators::{AsyncConsIter, AsyncDetached, AsyncProdIter, AsyncWorkIter, ConsIter, Detached, MRBIterator, ProdIter, WorkIter};
use mutringbuf::MutRB;
use std::future::Future;
use std::mem::{replace, ManuallyDrop};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Who { P, W, C }
pub const ALL: [Who; 3] = [Who::P, Who::W, Who::C];
impl Who {
    pub fn i(self) -> usize { self as usize }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Form { Sync, Det, Async, ADet, Gone }

/// A slice window: (address, number of items) of each part.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Win<T> {
    pub a: (*mut T, usize),
    pub b: (*mut T, usize),
}
impl<T> Win<T> {
    pub fn len(&self) -> usize { self.a.1 + self.b.1 }
    pub fn at(&self, k: usize) -> *mut T {
        if k < self.a.1 { self.a.0.wrapping_add(k) } else { self.b.0.wrapping_add(k - self.a.1) }
    }
}

pub enum Op<T> {
    // producer
    Push(T), PushInit(T), PushSlice(Vec<T>), PushSliceInit(Vec<T>), PushSliceClone(Vec<T>), PushSliceCloneInit(Vec<T>),
    NextItemMut, NextItemInit, NextSlicesMut(usize),
    // any
    Avail, Advance(usize), WaitFor(usize), Item, Exact(usize), AvailSlice, Multiple(usize),
    Detach, Attach, GoBack(usize), SetIndex(usize), ResetIndex, SyncIndex, ToAsync, ToSync, Drop,
    // consumer
    PeekRef, PeekSlice(usize), PeekAvail, Pop, PopMove, CopyItem(T), CloneItem(T), CopySlice(Vec<T>), CloneSlice(Vec<T>),
}

impl<T> Op<T> {
    pub fn name(&self) -> &'static str {
        use Op::*;
        match self {
            Push(_) => "push", PushInit(_) => "push_init", PushSlice(_) => "push_slice", PushSliceInit(_) => "push_slice_init",
            PushSliceClone(_) => "push_slice_clone", PushSliceCloneInit(_) => "push_slice_clone_init",
            NextItemMut => "get_next_item_mut", NextItemInit => "get_next_item_mut_init", NextSlicesMut(_) => "get_next_slices_mut",
            Avail => "available", Advance(_) => "advance", WaitFor(_) => "wait_for", Item => "get_workable",
            Exact(_) => "get_workable_slice_exact", AvailSlice => "get_workable_slice_avail", Multiple(_) => "get_workable_slice_multiple_of",
            Detach => "detach", Attach => "attach", GoBack(_) => "go_back", SetIndex(_) => "set_index", ResetIndex => "reset_index",
            SyncIndex => "sync_index", ToAsync => "from_sync", ToSync => "into_sync", Drop => "drop",
            PeekRef => "peek_ref", PeekSlice(_) => "peek_slice", PeekAvail => "peek_available", Pop => "pop", PopMove => "pop_move",
            CopyItem(_) => "copy_item", CloneItem(_) => "clone_item", CopySlice(_) => "copy_slice", CloneSlice(_) => "clone_slice",
        }
    }
    pub fn arg(&self) -> usize {
        use Op::*;
        match self {
            PushSlice(v) | PushSliceInit(v) | PushSliceClone(v) | PushSliceCloneInit(v) | CopySlice(v) | CloneSlice(v) => v.len(),
            NextSlicesMut(n) | Advance(n) | WaitFor(n) | Exact(n) | Multiple(n) | GoBack(n) | SetIndex(n) | PeekSlice(n) => *n,
            _ => 1,
        }
    }
}

pub enum Out<T> {
    /// Not offered by the iterator in its current form.
    Unsup,
    Unit,
    /// Refused (or pending).
    No,
    Yes,
    /// Value handed back by a refused push.
    Back(T),
    Val(T),
    /// Bitwise duplicate of a value which is still in the buffer.
    Dup(ManuallyDrop<T>),
    Ptr(*mut T),
    Win(Win<T>),
    N(usize),
    /// Result of copy/clone of an item, with its destination.
    Into(bool, T),
    /// Result of copy/clone of a slice, with its destination.
    IntoMany(bool, Vec<T>),
}

/// What each iterator tells about itself and the others.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct View {
    pub index: usize,
    pub published: [usize; 3],
    pub alive: [bool; 3],
    pub len: Option<usize>,
}

/// Called before each poll with the outcome of the previous one (`None` before the first):
/// yields the waker to be used for the next poll, or `None` to drop the future.
pub type Poller<'x, T> = &'x mut dyn FnMut(&mut dyn World<T>, u32) -> Option<Waker>;

pub trait World<T: Item> {
    fn exec(&mut self, who: Who, op: Op<T>) -> Out<T>;
    /// Runs an async operation of `who`, which has to be in the async form. Returns the outcome and
    /// the number of polls.
    fn hold(&mut self, who: Who, op: Op<T>, poller: Poller<T>) -> (Out<T>, u32);
    fn form(&self, who: Who) -> Form;
    fn view(&self, who: Who) -> Option<View>;
}

#[cfg(not(feature = "vmem"))]
fn win_mut<T>(w: (&mut [T], &mut [T])) -> Win<T> {
    Win { a: (w.0.as_mut_ptr(), w.0.len()), b: (w.1.as_mut_ptr(), w.1.len()) }
}
#[cfg(not(feature = "vmem"))]
fn win<T>(w: (&[T], &[T])) -> Win<T> {
    Win { a: (w.0.as_ptr() as *mut T, w.0.len()), b: (w.1.as_ptr() as *mut T, w.1.len()) }
}
#[cfg(feature = "vmem")]
fn win_mut<T>(w: &mut [T]) -> Win<T> {
    Win { a: (w.as_mut_ptr(), w.len()), b: (std::ptr::null_mut(), 0) }
}
#[cfg(feature = "vmem")]
fn win<T>(w: &[T]) -> Win<T> {
    Win { a: (w.as_ptr() as *mut T, w.len()), b: (std::ptr::null_mut(), 0) }
}

fn yn<T>(o: Option<()>) -> Out<T> {
    if o.is_some() { Out::Yes } else { Out::No }
}
fn ptr<T>(o: Option<&mut T>) -> Out<T> {
    o.map_or(Out::No, |p| Out::Ptr(p as *mut T))
}

/// The operations all plain iterators share.
fn common<T: Item, I: MRBIterator<Item = T>>(i: &mut I, op: Op<T>) -> Result<Out<T>, Op<T>> {
    Ok(match op {
        Op::Avail => Out::N(i.available()),
        Op::Advance(n) => { unsafe { i.advance(n) }; Out::Unit }
        Op::WaitFor(n) => { i.wait_for(n); Out::Unit }
        Op::Item => ptr(i.get_workable()),
        Op::Exact(n) => i.get_workable_slice_exact(n).map_or(Out::No, |w| Out::Win(win_mut(w))),
        Op::AvailSlice => i.get_workable_slice_avail().map_or(Out::No, |w| Out::Win(win_mut(w))),
        Op::Multiple(n) => i.get_workable_slice_multiple_of(n).map_or(Out::No, |w| Out::Win(win_mut(w))),
        o => return Err(o),
    })
}

fn detached<T: Item, I: MRBIterator<Item = T>>(i: &mut Detached<I>, op: Op<T>) -> Out<T> {
    match op {
        Op::Avail => Out::N(i.available()),
        Op::Advance(n) => { unsafe { i.advance(n) }; Out::Unit }
        Op::WaitFor(n) => { i.wait_for(n); Out::Unit }
        Op::Item => ptr(i.get_workable()),
        Op::Exact(n) => i.get_workable_slice_exact(n).map_or(Out::No, |w| Out::Win(win_mut(w))),
        Op::AvailSlice => i.get_workable_slice_avail().map_or(Out::No, |w| Out::Win(win_mut(w))),
        Op::Multiple(n) => i.get_workable_slice_multiple_of(n).map_or(Out::No, |w| Out::Win(win_mut(w))),
        Op::GoBack(n) => { unsafe { i.go_back(n) }; Out::Unit }
        Op::SetIndex(n) => { unsafe { i.set_index(n) }; Out::Unit }
        Op::ResetIndex => { i.reset_index(); Out::Unit }
        Op::SyncIndex => { i.sync_index(); Out::Unit }
        _ => Out::Unsup,
    }
}

fn prod<T: Item, B: MutRB<Item = T>>(p: &mut ProdIter<B>, op: Op<T>) -> Out<T> {
    let op = match common(p, op) { Ok(o) => return o, Err(op) => op };
    match op {
        Op::Push(v) => p.push(v).map_or_else(Out::Back, |_| Out::Yes),
        Op::PushInit(v) => p.push_init(v).map_or_else(Out::Back, |_| Out::Yes),
        Op::PushSlice(v) => yn(T::push_slice(p, &v)),
        Op::PushSliceInit(v) => yn(T::push_slice_init(p, &v)),
        Op::PushSliceClone(v) => yn(p.push_slice_clone(&v)),
        Op::PushSliceCloneInit(v) => yn(p.push_slice_clone_init(&v)),
        Op::NextItemMut => ptr(unsafe { p.get_next_item_mut() }),
        Op::NextItemInit => p.get_next_item_mut_init().map_or(Out::No, Out::Ptr),
        Op::NextSlicesMut(n) => unsafe { p.get_next_slices_mut(n) }.map_or(Out::No, |w| Out::Win(win_mut(w))),
        _ => Out::Unsup,
    }
}

fn work<T: Item, B: MutRB<Item = T>>(w: &mut WorkIter<B>, op: Op<T>) -> Out<T> {
    match common(w, op) {
        Ok(o) => o,
        Err(Op::ResetIndex) => { w.reset_index(); Out::Unit }
        Err(_) => Out::Unsup,
    }
}

fn cons<T: Item, B: MutRB<Item = T>, const M: bool>(c: &mut ConsIter<B, M>, op: Op<T>) -> Out<T> {
    let op = match common(c, op) { Ok(o) => return o, Err(op) => op };
    match op {
        Op::ResetIndex => { c.reset_index(); Out::Unit }
        Op::PeekRef => c.peek_ref().map_or(Out::No, |r| Out::Ptr(r as *const T as *mut T)),
        Op::PeekSlice(n) => c.peek_slice(n).map_or(Out::No, |w| Out::Win(win(w))),
        Op::PeekAvail => c.peek_available().map_or(Out::No, |w| Out::Win(win(w))),
        Op::Pop => match c.pop() {
            None => Out::No,
            Some(v) => Out::Dup(ManuallyDrop::new(v)),
        },
        Op::PopMove => unsafe { c.pop_move() }.map_or(Out::No, Out::Val),
        Op::CopyItem(mut d) => { let r = T::copy_item(c, &mut d); Out::Into(r.is_some(), d) }
        Op::CloneItem(mut d) => { let r = c.clone_item(&mut d); Out::Into(r.is_some(), d) }
        Op::CopySlice(mut d) => { let r = T::copy_slice(c, &mut d); Out::IntoMany(r.is_some(), d) }
        Op::CloneSlice(mut d) => { let r = c.clone_slice(&mut d); Out::IntoMany(r.is_some(), d) }
        _ => Out::Unsup,
    }
}

/// Polls a future as the poller says.
struct Drive<'x, 'y, T: Item> { world: &'x mut dyn World<T>, poller: Poller<'y, T>, polls: u32 }
impl<T: Item> Drive<'_, '_, T> {
    fn run<O, F: Future<Output = Option<O>> + Unpin>(&mut self, mut f: F) -> Option<O> {
        loop {
            let waker = (self.poller)(self.world, self.polls)?;
            let mut cx = Context::from_waker(&waker);
            self.polls += 1;
            match Pin::new(&mut f).poll(&mut cx) {
                Poll::Pending => {}
                Poll::Ready(Some(r)) => return Some(r),
                // The public type allows for it, the crate never does it.
                Poll::Ready(None) => panic!("an async operation resolved to None"),
            }
        }
    }
}

macro_rules! acommon {
    ($i:ident, $op:ident, $d:ident) => {
        match $op {
            Op::Avail => return Out::N($i.available()),
            Op::Advance(n) => { unsafe { $i.advance(n) }; return Out::Unit }
            Op::WaitFor(n) => { $i.inner_mut().wait_for(n); return Out::Unit }
            Op::Item => return ptr($d.run($i.get_workable())),
            Op::Exact(n) => return $d.run($i.get_workable_slice_exact(n)).map_or(Out::No, |w| Out::Win(win_mut(w))),
            Op::AvailSlice => return $d.run($i.get_workable_slice_avail()).map_or(Out::No, |w| Out::Win(win_mut(w))),
            Op::Multiple(n) => return $d.run($i.get_workable_slice_multiple_of(n)).map_or(Out::No, |w| Out::Win(win_mut(w))),
            o => o,
        }
    };
}

fn aprod<T: Item, B: MutRB<Item = T> + 'static>(p: &mut AsyncProdIter<B>, op: Op<T>, d: &mut Drive<T>) -> Out<T> {
    let op = acommon!(p, op, d);
    match op {
        Op::Push(v) => yn(d.run(p.push(v))),
        Op::PushSlice(v) => yn(d.run(T::a_push_slice(p, &v))),
        Op::PushSliceClone(v) => yn(d.run(p.push_slice_clone(&v))),
        Op::NextItemMut => ptr(d.run(unsafe { p.get_next_item_mut() })),
        Op::NextItemInit => d.run(p.get_next_item_mut_init()).map_or(Out::No, Out::Ptr),
        Op::NextSlicesMut(n) => d.run(unsafe { p.get_next_slices_mut(n) }).map_or(Out::No, |w| Out::Win(win_mut(w))),
        // Not offered in async form: through the inner iterator.
        o => prod(p.inner_mut(), o),
    }
}
fn awork<T: Item, B: MutRB<Item = T>>(w: &mut AsyncWorkIter<B>, op: Op<T>, d: &mut Drive<T>) -> Out<T> {
    let op = acommon!(w, op, d);
    match op {
        Op::ResetIndex => { w.reset_index(); Out::Unit }
        _ => Out::Unsup,
    }
}
fn acons<T: Item, B: MutRB<Item = T> + 'static, const M: bool>(c: &mut AsyncConsIter<B, M>, op: Op<T>, d: &mut Drive<T>) -> Out<T> {
    let op = acommon!(c, op, d);
    match op {
        Op::ResetIndex => { c.reset_index(); Out::Unit }
        Op::PeekRef => d.run(c.peek_ref()).map_or(Out::No, |r| Out::Ptr(r as *const T as *mut T)),
        Op::PeekSlice(n) => d.run(c.peek_slice(n)).map_or(Out::No, |w| Out::Win(win(w))),
        Op::PeekAvail => d.run(c.peek_available()).map_or(Out::No, |w| Out::Win(win(w))),
        Op::Pop => match d.run(c.pop()) {
            None => Out::No,
            Some(v) => Out::Dup(ManuallyDrop::new(v)),
        },
        Op::PopMove => d.run(unsafe { c.pop_move() }).map_or(Out::No, Out::Val),
        Op::CopyItem(mut v) => { let r = d.run(T::a_copy_item(c, &mut v)); Out::Into(r.is_some(), v) }
        Op::CloneItem(mut v) => { let r = d.run(c.clone_item(&mut v)); Out::Into(r.is_some(), v) }
        Op::CopySlice(mut v) => { let r = d.run(T::a_copy_slice(c, &mut v)); Out::IntoMany(r.is_some(), v) }
        Op::CloneSlice(mut v) => { let r = d.run(c.clone_slice(&mut v)); Out::IntoMany(r.is_some(), v) }
        _ => Out::Unsup,
    }
}

fn adetached<B: MutRB<Item = T>, T: Item, I: AsyncIterator>(i: &mut AsyncDetached<I, B>, op: Op<T>) -> Out<T> {
    match op {
        Op::Advance(n) => { unsafe { i.advance(n) }; Out::Unit }
        Op::GoBack(n) => { unsafe { i.go_back(n) }; Out::Unit }
        Op::SyncIndex => { i.sync_index(); Out::Unit }
        _ => Out::Unsup,
    }
}

fn view_of<I: MRBIterator>(i: &I) -> View {
    View {
        index: i.index(),
        published: [i.prod_index(), i.work_index(), i.cons_index()],
        alive: [i.is_prod_alive(), i.is_work_alive(), i.is_cons_alive()],
        len: Some(i.buf_len()),
    }
}
fn view_of_det<T, I: MRBIterator<Item = T>>(i: &Detached<I>) -> View {
    View {
        index: i.index(),
        published: [i.prod_index(), i.work_index(), i.cons_index()],
        alive: [i.is_prod_alive(), i.is_work_alive(), i.is_cons_alive()],
        len: Some(i.buf_len()),
    }
}
fn view_of_async<I: AsyncIterator>(i: &I) -> View {
    View {
        index: i.index(),
        published: [i.prod_index(), i.work_index(), i.cons_index()],
        alive: [i.is_prod_alive(), i.is_work_alive(), i.is_cons_alive()],
        len: Some(i.inner().buf_len()),
    }
}

pub enum H<I: MRBIterator, A: AsyncIterator<I = I, B = B>, B: MutRB> {
    S(I),
    D(Detached<I>),
    A(A),
    AD(AsyncDetached<A, B>),
    Gone,
}

impl<T: Item, I: MRBIterator<Item = T>, A: AsyncIterator<I = I, B = B>, B: MutRB<Item = T>> H<I, A, B> {
    fn form(&self) -> Form {
        match self { H::S(_) => Form::Sync, H::D(_) => Form::Det, H::A(_) => Form::Async, H::AD(_) => Form::ADet, H::Gone => Form::Gone }
    }
    fn view(&self) -> Option<View> {
        match self {
            H::S(i) => Some(view_of(i)),
            H::D(i) => Some(view_of_det(i)),
            H::A(i) => Some(view_of_async(i)),
            _ => None,
        }
    }
    /// Changes of form.
    fn shift(&mut self, op: Op<T>) -> Result<Out<T>, Op<T>> {
        if !matches!(op, Op::Detach | Op::Attach | Op::ToAsync | Op::ToSync | Op::Drop) {
            return Err(op);
        }
        let h = replace(self, H::Gone);
        *self = match (op, h) {
            (Op::Detach, H::S(i)) => H::D(i.detach()),
            (Op::Detach, H::A(i)) => H::AD(i.detach()),
            (Op::Attach, H::D(i)) => H::S(i.attach()),
            (Op::Attach, H::AD(i)) => H::A(i.attach()),
            (Op::ToAsync, H::S(i)) => H::A(A::from_sync(i)),
            (Op::ToSync, H::A(i)) => H::S(i.into_sync()),
            (Op::Drop, h) => { drop(h); H::Gone }
            (_, h) => { *self = h; return Ok(Out::Unsup) }
        };
        Ok(Out::Unit)
    }
}

pub type HP<'b, B> = H<ProdIter<'b, B>, AsyncProdIter<'b, B>, B>;
pub type HW<'b, B> = H<WorkIter<'b, B>, AsyncWorkIter<'b, B>, B>;
pub type HC<'b, B, const M: bool> = H<ConsIter<'b, B, M>, AsyncConsIter<'b, B, M>, B>;

pub struct Wd<'b, B: MutRB, const M: bool> where B::Item: Item {
    pub p: HP<'b, B>,
    pub w: HW<'b, B>,
    pub c: HC<'b, B, M>,
}

fn once() -> impl FnMut(u32) -> Option<Waker> {
    let w = Waker::noop();
    move |n| if n == 0 { Some(w.clone()) } else { None }
}

macro_rules! dispatch {
    ($self:ident, $f:ident, $op:ident, $sync:ident, $asy:ident, $poller:expr) => {{
        let op = match $self.$f.shift($op) { Ok(o) => return (o, 0), Err(op) => op };
        match &mut $self.$f {
            H::S(i) => ($sync(i, op), 0),
            H::D(i) => (detached(i, op), 0),
            H::AD(i) => (adetached(i, op), 0),
            H::Gone => (Out::Unsup, 0),
            H::A(_) => {
                let mut h = replace(&mut $self.$f, H::Gone);
                let H::A(i) = &mut h else { unreachable!() };
                let mut d = Drive { world: $self, poller: $poller, polls: 0 };
                let r = $asy(i, op, &mut d);
                let polls = d.polls;
                $self.$f = h;
                (r, polls)
            }
        }
    }};
}

impl<'b, T: Item, B: MutRB<Item = T> + 'static, const M: bool> World<T> for Wd<'b, B, M> {
    fn exec(&mut self, who: Who, op: Op<T>) -> Out<T> {
        let mut o = once();
        self.hold(who, op, &mut |_, n| o(n)).0
    }
    fn hold(&mut self, who: Who, op: Op<T>, poller: Poller<T>) -> (Out<T>, u32) {
        match who {
            Who::P => dispatch!(self, p, op, prod, aprod, poller),
            Who::W => dispatch!(self, w, op, work, awork, poller),
            Who::C => dispatch!(self, c, op, cons, acons, poller),
        }
    }
    fn form(&self, who: Who) -> Form {
        match who { Who::P => self.p.form(), Who::W => self.w.form(), Who::C => self.c.form() }
    }
    fn view(&self, who: Who) -> Option<View> {
        match who { Who::P => self.p.view(), Who::W => self.w.view(), Who::C => self.c.view() }
    }
}
