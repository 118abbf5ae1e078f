//! Watches the blocks a buffer consists of: they are quarantined when released.
use std::alloc::{GlobalAlloc, Layout, System};

pub struct Watching;
#[derive(Clone, Copy)]
pub struct Block { pub at: usize, pub layout: Layout, pub freed: u32 }
pub const MAX: usize = 32;
pub static mut ON: bool = false;
pub static mut N: usize = 0;
pub static mut BLOCKS: [Block; MAX] = [Block { at: 0, layout: Layout::new::<u8>(), freed: 0 }; MAX];

pub fn blocks() -> &'static mut [Block] {
    unsafe {
        let p = &raw mut BLOCKS;
        &mut (&mut (*p))[..N]
    }
}

unsafe impl GlobalAlloc for Watching {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if ON && N < MAX {
            let b = &raw mut BLOCKS;
            (*b)[N] = Block { at: p as usize, layout: l, freed: 0 };
            N += 1;
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if N > 0 {
            for b in blocks() {
                if b.at == p as usize {
                    b.freed += 1;
                    if !ON {
                        crate::rt::freed(b.freed);
                        if b.freed == 1 {
                            std::ptr::write_bytes(p, 0xDD, b.layout.size());
                        }
                    }
                    return;
                }
            }
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if N > 0 {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
            return q;
        }
        System.realloc(p, l, n)
    }
}

/// Forgets the blocks which were only needed to build the buffer.
pub fn settle() {
    unsafe {
        ON = false;
        let p = &raw mut BLOCKS;
        let mut k = 0;
        for i in 0..N {
            let b = (*p)[i];
            if b.freed > 0 {
                System.dealloc(b.at as *mut u8, b.layout);
            } else {
                (*p)[k] = b;
                k += 1;
            }
        }
        N = k;
    }
}
/// Ends the quarantine. Returns the number of blocks which have not been released.
pub fn finish() -> usize {
    unsafe {
        let p = &raw mut BLOCKS;
        let n = std::mem::replace(&mut *(&raw mut N), 0);
        let mut left = 0;
        for i in 0..n {
            let b = (*p)[i];
            if b.freed > 0 {
                System.dealloc(b.at as *mut u8, b.layout);
            } else {
                left += 1;
            }
        }
        left
    }
}
pub fn freed_at(a: usize) -> bool {
    blocks().iter().any(|b| b.freed > 0 && a >= b.at && a < b.at + b.layout.size())
}
pub fn any_freed() -> bool {
    blocks().iter().any(|b| b.freed > 0)
}
