From 2768fa05b2d9396ae50ea91da36afc45f94456eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:31 +0000
Subject: [PATCH 01/11] fix: forget remembered availability in
 ConsIter/WorkIter::reset_index

After a reset the iterator sits on its successor, but it kept the availability
remembered before the jump, so the next getter/pop could hand out slots beyond
the successor without looking at its index.
---
 src/iterators/sync_iterators/cons_iter.rs | 2 ++
 src/iterators/sync_iterators/work_iter.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/iterators/sync_iterators/cons_iter.rs b/src/iterators/sync_iterators/cons_iter.rs
index 350cb27..201df81 100644
--- a/src/iterators/sync_iterators/cons_iter.rs
+++ b/src/iterators/sync_iterators/cons_iter.rs
@@ -76,6 +76,8 @@ impl<'buf, B: MutRB<Item = T>, T, const W: bool> ConsIter<'buf, B, W> {
     pub fn reset_index(&mut self) {
         let new_idx = self.succ_index();
         self.index = new_idx;
+        // Whatever was available before the jump is not anymore.
+        self.cached_avail = 0;
         self.set_atomic_index(new_idx);
     }
 
diff --git a/src/iterators/sync_iterators/work_iter.rs b/src/iterators/sync_iterators/work_iter.rs
index b1a04d4..f290d2b 100644
--- a/src/iterators/sync_iterators/work_iter.rs
+++ b/src/iterators/sync_iterators/work_iter.rs
@@ -78,6 +78,8 @@ impl<'buf, B: MutRB<Item = T>, T> WorkIter<'buf, B> {
     pub fn reset_index(&mut self) {
         let new_idx = self.succ_index();
         self.index = new_idx;
+        // Whatever was available before the jump is not anymore.
+        self.cached_avail = 0;
         self.set_atomic_index(new_idx);
     }
 }
\ No newline at end of file
-- 
2.43.0


From bb7787b32716f6a61c93f88baaf3d1dbbbc60c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:56 +0000
Subject: [PATCH 02/11] fix: go_back wraps to the right position from 0 < index
 < count

The wrapped position is len - (count - index), not len - count - index, which
was only right for index == 0 (and underflowed for count + index > len).
---
 src/iterators/async_iterators/detached.rs | 2 +-
 src/iterators/sync_iterators/detached.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iterators/async_iterators/detached.rs b/src/iterators/async_iterators/detached.rs
index 5109dca..fae68f8 100644
--- a/src/iterators/async_iterators/detached.rs
+++ b/src/iterators/async_iterators/detached.rs
@@ -56,7 +56,7 @@ impl<B: MutRB<Item = T>, T, I: AsyncIterator> AsyncDetached<I, B> {
         
         self.inner.inner_mut().set_local_index(
             match idx < count {
-                true => buf_len.unchecked_sub(count).unchecked_sub(idx),
+                true => buf_len.unchecked_sub(count.unchecked_sub(idx)),
                 false => idx.unchecked_sub(count)
             }
         );
diff --git a/src/iterators/sync_iterators/detached.rs b/src/iterators/sync_iterators/detached.rs
index dcecf0b..f645cf2 100644
--- a/src/iterators/sync_iterators/detached.rs
+++ b/src/iterators/sync_iterators/detached.rs
@@ -98,7 +98,7 @@ impl<T, I: MRBIterator<Item = T>> Detached<I> {
         
         self.inner.set_local_index(
             match idx < count {
-                true => self.inner.buf_len().unchecked_sub(count).unchecked_sub(idx),
+                true => self.inner.buf_len().unchecked_sub(count.unchecked_sub(idx)),
                 false => idx.unchecked_sub(count)
             }
         );
-- 
2.43.0


From 303f6106179a3fb0035fe2f0dd7f038448491fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:56 +0000
Subject: [PATCH 03/11] fix: forget remembered availability in
 Detached::{set_index,reset_index}

After a forward jump the availability remembered at the old position exceeds
the distance to the successor, so a getter called right after the jump could
hand out slots which were never released.
---
 src/iterators/sync_iterators/detached.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iterators/sync_iterators/detached.rs b/src/iterators/sync_iterators/detached.rs
index f645cf2..7544601 100644
--- a/src/iterators/sync_iterators/detached.rs
+++ b/src/iterators/sync_iterators/detached.rs
@@ -69,6 +69,8 @@ impl<T, I: MRBIterator<Item = T>> Detached<I> {
     #[inline]
     pub unsafe fn set_index(&mut self, index: usize) {
         self.inner.set_local_index(index);
+        // The remembered availability refers to the previous position.
+        self.inner.set_cached_avail(0);
     }
 
     /// Resets the *local* index of the iterator. I.e., moves the iterator to the location occupied by its successor.
@@ -77,6 +79,8 @@ impl<T, I: MRBIterator<Item = T>> Detached<I> {
     pub fn reset_index(&mut self) {
         let new_idx = self.inner.succ_index();
         self.inner.set_local_index(new_idx);
+        // The remembered availability refers to the previous position.
+        self.inner.set_cached_avail(0);
     }
 
     /// Advances the iterator as in [`MRBIterator::advance()`], but does not modify the atomic counter,
-- 
2.43.0


From e76694b3eb4cdf729455e944260205be4b907815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:56 +0000
Subject: [PATCH 04/11] fix: iterators are Send only for sendable items,
 detached ones only if the iterator is

The Send impls of the iterators had no bound on the item type, so e.g. an Rc
could be moved to another thread; those of Detached and AsyncDetached had no
bound at all, so even iterators of local buffers could cross threads.
---
 src/iterators/async_iterators/cons_iter.rs | 2 +-
 src/iterators/async_iterators/detached.rs  | 2 +-
 src/iterators/async_iterators/prod_iter.rs | 2 +-
 src/iterators/async_iterators/work_iter.rs | 2 +-
 src/iterators/sync_iterators/cons_iter.rs  | 2 +-
 src/iterators/sync_iterators/detached.rs   | 2 +-
 src/iterators/sync_iterators/prod_iter.rs  | 2 +-
 src/iterators/sync_iterators/work_iter.rs  | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/iterators/async_iterators/cons_iter.rs b/src/iterators/async_iterators/cons_iter.rs
index 6b86a43..9d74780 100644
--- a/src/iterators/async_iterators/cons_iter.rs
+++ b/src/iterators/async_iterators/cons_iter.rs
@@ -15,7 +15,7 @@ pub struct AsyncConsIter<'buf, B: MutRB, const W: bool> {
     inner: ConsIter<'buf, B, W>,
     waker: Option<Waker>
 }
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T, const W: bool> Send for AsyncConsIter<'_, B, W> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send, const W: bool> Send for AsyncConsIter<'_, B, W> {}
 
 impl<'buf, B: MutRB<Item = T>, T, const W: bool> AsyncIterator for AsyncConsIter<'buf, B, W> {
     type I = ConsIter<'buf, B, W>;
diff --git a/src/iterators/async_iterators/detached.rs b/src/iterators/async_iterators/detached.rs
index fae68f8..20cf168 100644
--- a/src/iterators/async_iterators/detached.rs
+++ b/src/iterators/async_iterators/detached.rs
@@ -15,7 +15,7 @@ pub struct AsyncDetached<I: AsyncIterator, B: MutRB> {
     phantom_data: PhantomData<B>
 }
 
-unsafe impl<I: AsyncIterator, B: MutRB> Send for AsyncDetached<I, B> {}
+unsafe impl<I: AsyncIterator + Send, B: MutRB> Send for AsyncDetached<I, B> {}
 
 impl<B: MutRB<Item = T>, T, I: AsyncIterator> AsyncDetached<I, B> {
        
diff --git a/src/iterators/async_iterators/prod_iter.rs b/src/iterators/async_iterators/prod_iter.rs
index c213a5d..0e82641 100644
--- a/src/iterators/async_iterators/prod_iter.rs
+++ b/src/iterators/async_iterators/prod_iter.rs
@@ -14,7 +14,7 @@ pub struct AsyncProdIter<'buf, B: MutRB> {
     inner: ProdIter<'buf, B>,
     waker: Option<Waker>
 }
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for AsyncProdIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for AsyncProdIter<'_, B> {}
 
 impl<'buf, B: MutRB<Item = T>, T> AsyncIterator for AsyncProdIter<'buf, B> {
     type I = ProdIter<'buf, B>;
diff --git a/src/iterators/async_iterators/work_iter.rs b/src/iterators/async_iterators/work_iter.rs
index 719df6a..0b19bbb 100644
--- a/src/iterators/async_iterators/work_iter.rs
+++ b/src/iterators/async_iterators/work_iter.rs
@@ -14,7 +14,7 @@ pub struct AsyncWorkIter<'buf, B: MutRB> {
     pub(crate) inner: WorkIter<'buf, B>,
     waker: Option<Waker>
 }
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for AsyncWorkIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for AsyncWorkIter<'_, B> {}
 
 impl<'buf, B: MutRB<Item = T>, T> AsyncIterator for AsyncWorkIter<'buf, B> {
     type I = WorkIter<'buf, B>;
diff --git a/src/iterators/sync_iterators/cons_iter.rs b/src/iterators/sync_iterators/cons_iter.rs
index 201df81..a0081ba 100644
--- a/src/iterators/sync_iterators/cons_iter.rs
+++ b/src/iterators/sync_iterators/cons_iter.rs
@@ -17,7 +17,7 @@ pub struct ConsIter<'buf, B: MutRB, const W: bool> {
     buffer: BufRef<'buf, B>,
 }
 
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T, const W: bool> Send for ConsIter<'_, B, W> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send, const W: bool> Send for ConsIter<'_, B, W> {}
 
 impl<B: MutRB + IterManager, const W: bool> Drop for ConsIter<'_, B, W> {
     fn drop(&mut self) {
diff --git a/src/iterators/sync_iterators/detached.rs b/src/iterators/sync_iterators/detached.rs
index 7544601..fd511d7 100644
--- a/src/iterators/sync_iterators/detached.rs
+++ b/src/iterators/sync_iterators/detached.rs
@@ -30,7 +30,7 @@ pub struct Detached<I: MRBIterator> {
     inner: I,
 }
 
-unsafe impl<I: MRBIterator> Send for Detached<I> {}
+unsafe impl<I: MRBIterator + Send> Send for Detached<I> {}
 
 
 impl<T, I: MRBIterator<Item = T>> Detached<I> {
diff --git a/src/iterators/sync_iterators/prod_iter.rs b/src/iterators/sync_iterators/prod_iter.rs
index b3eeb7e..4454c5e 100644
--- a/src/iterators/sync_iterators/prod_iter.rs
+++ b/src/iterators/sync_iterators/prod_iter.rs
@@ -60,7 +60,7 @@ pub struct ProdIter<'buf, B: MutRB> {
     buffer: BufRef<'buf, B>,
 }
 
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for ProdIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for ProdIter<'_, B> {}
 
 impl<B: MutRB + IterManager> Drop for ProdIter<'_, B> {
     fn drop(&mut self) {
diff --git a/src/iterators/sync_iterators/work_iter.rs b/src/iterators/sync_iterators/work_iter.rs
index f290d2b..71f241e 100644
--- a/src/iterators/sync_iterators/work_iter.rs
+++ b/src/iterators/sync_iterators/work_iter.rs
@@ -24,7 +24,7 @@ pub struct WorkIter<'buf, B: MutRB> {
     pub(crate) buffer: BufRef<'buf, B>,
 }
 
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for WorkIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for WorkIter<'_, B> {}
 
 impl<B: MutRB + IterManager> Drop for WorkIter<'_, B> {
     fn drop(&mut self) {
-- 
2.43.0


From 8c21d242cfdf25bfc59bb80588a2c41cde7221e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:24 +0000
Subject: [PATCH 05/11] fix: release a heap buffer exactly once when iterators
 are dropped concurrently

The decision to free was taken from three separate flags: two iterators dropped
at the same time could both see the others dead (double free), or, with store
buffering, neither could (leak). Count the owners instead.
---
 src/ring_buffer/wrappers/buf_ref.rs | 43 +++++++++--------------------
 1 file changed, 13 insertions(+), 30 deletions(-)

diff --git a/src/ring_buffer/wrappers/buf_ref.rs b/src/ring_buffer/wrappers/buf_ref.rs
index bd08651..815e869 100644
--- a/src/ring_buffer/wrappers/buf_ref.rs
+++ b/src/ring_buffer/wrappers/buf_ref.rs
@@ -1,11 +1,9 @@
 use crate::ring_buffer::variants::ring_buffer_trait::IterManager;
 #[cfg(feature = "alloc")]
-use alloc::boxed::Box;
+use alloc::sync::Arc;
 use core::marker::PhantomData;
 use core::ops::Deref;
 use core::ptr::NonNull;
-use core::sync::atomic::fence;
-use core::sync::atomic::Ordering::SeqCst;
 
 pub struct BufRef<'buf, B> {
     inner: NonNull<B>,
@@ -16,10 +14,10 @@ pub struct BufRef<'buf, B> {
 impl<'buf, B> BufRef<'buf, B> {
     #[cfg(feature = "alloc")]
     pub(crate) fn new(buf: B) -> Self {
-        let x = Box::new(buf);
+        let x = Arc::new(buf);
 
         Self {
-            inner: NonNull::new(Box::into_raw(x)).unwrap(),
+            inner: NonNull::new(Arc::into_raw(x) as *mut B).unwrap(),
             needs_drop: true,
             _phantom: Default::default(),
         }
@@ -28,7 +26,8 @@ impl<'buf, B> BufRef<'buf, B> {
     #[cfg(feature = "alloc")]
     pub(crate) fn drop(&mut self) {
         if self.needs_drop {
-            unsafe { let _ = Box::from_raw(self.inner.as_ptr()); }
+            // Only the last owner releases the buffer.
+            unsafe { Arc::decrement_strong_count(self.inner.as_ptr()); }
         }
     }
 
@@ -47,6 +46,11 @@ impl<'buf, B> BufRef<'buf, B> {
 
 impl<B> Clone for BufRef<'_, B> {
     fn clone(&self) -> Self {
+        #[cfg(feature = "alloc")]
+        if self.needs_drop {
+            unsafe { Arc::increment_strong_count(self.inner.as_ptr()); }
+        }
+
         Self {
             inner: self.inner,
             needs_drop: self.needs_drop,
@@ -67,43 +71,22 @@ impl<B> Deref for BufRef<'_, B> {
 impl<B: IterManager> BufRef<'_, B> {
     pub(crate) fn set_prod_alive(&mut self, alive: bool) {
         unsafe {
-            fence(SeqCst);
             self.inner.as_ref().set_prod_alive(alive);
-
-            let cond = !self.inner.as_ref().work_alive() && !self.inner.as_ref().cons_alive();
-            fence(SeqCst);
-
-            if cond {
-                self.drop();
-            }
+            self.drop();
         }
     }
 
     pub(crate) fn set_work_alive(&mut self, alive: bool) {
         unsafe {
-            fence(SeqCst);
             self.inner.as_ref().set_work_alive(alive);
-
-            let cond = !self.inner.as_ref().prod_alive() && !self.inner.as_ref().cons_alive();
-            fence(SeqCst);
-
-            if cond {
-                self.drop();
-            }
+            self.drop();
         }
     }
 
     pub(crate) fn set_cons_alive(&mut self, alive: bool) {
         unsafe {
-            fence(SeqCst);
             self.inner.as_ref().set_cons_alive(alive);
-
-            let cond = !self.inner.as_ref().prod_alive() && !self.inner.as_ref().work_alive();
-            fence(SeqCst);
-
-            if cond {
-                self.drop();
-            }
+            self.drop();
         }
     }
 }
\ No newline at end of file
-- 
2.43.0


From 414b790701b89e5f8ce78157c17fc402d76fcb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:33 +0000
Subject: [PATCH 06/11] fix: start the iterators of a re-split stack buffer
 from the published indices

New iterators started at index 0 while the published indices kept the values of
the previous session, so right after a second split the consumer was handed
stale slots and the availabilities did not add up.
---
 src/iterators/sync_iterators/cons_iter.rs | 3 ++-
 src/iterators/sync_iterators/prod_iter.rs | 3 ++-
 src/iterators/sync_iterators/work_iter.rs | 7 ++++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/iterators/sync_iterators/cons_iter.rs b/src/iterators/sync_iterators/cons_iter.rs
index a0081ba..b00144d 100644
--- a/src/iterators/sync_iterators/cons_iter.rs
+++ b/src/iterators/sync_iterators/cons_iter.rs
@@ -65,7 +65,8 @@ impl<B: MutRB<Item = T>, T, const W: bool> MRBIterator for ConsIter<'_, B, W> {
 impl<'buf, B: MutRB<Item = T>, T, const W: bool> ConsIter<'buf, B, W> {
     pub(crate) fn new(value: BufRef<'buf, B>) -> Self {
         Self {
-            index: 0,
+            // Not 0 if this is not the first session of a stack buffer.
+            index: value.cons_index(),
             buffer: value,
             cached_avail: 0,
         }
diff --git a/src/iterators/sync_iterators/prod_iter.rs b/src/iterators/sync_iterators/prod_iter.rs
index 4454c5e..9c37906 100644
--- a/src/iterators/sync_iterators/prod_iter.rs
+++ b/src/iterators/sync_iterators/prod_iter.rs
@@ -103,7 +103,8 @@ impl<B: MutRB<Item = T>, T> MRBIterator for ProdIter<'_, B> {
 impl<'buf, B: MutRB<Item = T>, T> ProdIter<'buf, B> {
     pub(crate) fn new(value: BufRef<'buf, B>) -> Self {
         Self {
-            index: 0,
+            // Not 0 if this is not the first session of a stack buffer.
+            index: value.prod_index(),
             buffer: value,
             cached_avail: 0,
         }
diff --git a/src/iterators/sync_iterators/work_iter.rs b/src/iterators/sync_iterators/work_iter.rs
index 71f241e..98deace 100644
--- a/src/iterators/sync_iterators/work_iter.rs
+++ b/src/iterators/sync_iterators/work_iter.rs
@@ -66,8 +66,13 @@ impl<B: MutRB<Item = T>, T> MRBIterator for WorkIter<'_, B> {
 
 impl<'buf, B: MutRB<Item = T>, T> WorkIter<'buf, B> {
     pub(crate) fn new(value: BufRef<'buf, B>) -> WorkIter<'buf, B> {
+        // A previous session may have moved past (or without) the worker, so it starts from the
+        // oldest item which has not been consumed yet.
+        let index = value.cons_index();
+        value.set_work_index(index);
+
         Self {
-            index: 0,
+            index,
             buffer: value,
             cached_avail: 0,
         }
-- 
2.43.0


From edbdddc370f4e9891c24d252c77560a9abab4363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:17 +0000
Subject: [PATCH 07/11] fix: vmem: map the same memory twice, so that the two
 views mirror each other

The two halves were separate anonymous private mappings, so whatever a slice
wrote past the physical end never reached the slots at the beginning.
---
 src/ring_buffer/storage/heap/vmem_helper.rs | 45 +++++++++++++++++----
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/ring_buffer/storage/heap/vmem_helper.rs b/src/ring_buffer/storage/heap/vmem_helper.rs
index dcc287e..4cd6c76 100644
--- a/src/ring_buffer/storage/heap/vmem_helper.rs
+++ b/src/ring_buffer/storage/heap/vmem_helper.rs
@@ -21,6 +21,25 @@ pub fn get_page_size_mul(min_size: usize) -> usize {
     min_size.div_ceil(page_size) * page_size
 }
 
+/// Returns a descriptor of an anonymous memory object, which can be mapped more than once.
+unsafe fn new_memory_object(size: usize) -> core::ffi::c_int {
+    #[cfg(any(target_os = "linux", target_os = "android"))]
+    let fd = libc::syscall(libc::SYS_memfd_create, c"mutringbuf".as_ptr(), 0) as libc::c_int;
+
+    #[cfg(not(any(target_os = "linux", target_os = "android")))]
+    let fd = {
+        let file = libc::tmpfile();
+        assert!(!file.is_null(), "cannot create the memory object.");
+        let fd = libc::dup(libc::fileno(file));
+        libc::fclose(file);
+        fd
+    };
+
+    assert_ne!(fd, -1, "cannot create the memory object.");
+    assert_eq!(libc::ftruncate(fd, size as libc::off_t), 0, "cannot resize the memory object.");
+    fd
+}
+
 pub(crate) fn new<T>(value: &[UnsafeSyncCell<T>]) -> *mut UnsafeSyncCell<T> {
     let page_size = page_size();
     assert_eq!(value.len() % page_size, 0, "must be a multiple of page size, which is: {}.", page_size);
@@ -28,6 +47,9 @@ pub(crate) fn new<T>(value: &[UnsafeSyncCell<T>]) -> *mut UnsafeSyncCell<T> {
     unsafe {
         let size = size_of_val(value);
         
+        let fd = new_memory_object(size);
+
+        // Reserve the whole range.
         let buffer = libc::mmap(
             ptr::null_mut(),
             2 * size as libc::size_t,
@@ -35,14 +57,21 @@ pub(crate) fn new<T>(value: &[UnsafeSyncCell<T>]) -> *mut UnsafeSyncCell<T> {
             libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
             -1, 0
         );
-        
-        libc::mmap(
-            buffer.byte_add(size),
-            size as libc::size_t,
-            libc::PROT_READ | libc::PROT_WRITE,
-            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED,
-            -1, 0
-        );
+        assert_ne!(buffer, libc::MAP_FAILED, "cannot map the buffer.");
+
+        // Both halves are views of the same memory object.
+        for view in [buffer, buffer.byte_add(size)] {
+            let r = libc::mmap(
+                view,
+                size as libc::size_t,
+                libc::PROT_READ | libc::PROT_WRITE,
+                libc::MAP_SHARED | libc::MAP_FIXED,
+                fd, 0
+            );
+            assert_eq!(r, view, "cannot map the buffer.");
+        }
+
+        libc::close(fd);
 
         let r = buffer as *mut UnsafeSyncCell<T>;
         libc::memcpy(value.as_ptr() as _, r as _, size_of_val(value));
-- 
2.43.0


From aa9ea3fc6db7ff877750d55797eb4249c2c655d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:17 +0000
Subject: [PATCH 08/11] fix: vmem: keep the contents a buffer is built from and
 destroy its items

memcpy was called with source and destination swapped, so the supplied contents
were replaced by zeros; items left in the buffer were never dropped, as Drop
only unmapped the memory.
---
 src/ring_buffer/storage/heap/mod.rs         | 12 ++++++++++--
 src/ring_buffer/storage/heap/vmem_helper.rs |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ring_buffer/storage/heap/mod.rs b/src/ring_buffer/storage/heap/mod.rs
index 4281335..a904606 100644
--- a/src/ring_buffer/storage/heap/mod.rs
+++ b/src/ring_buffer/storage/heap/mod.rs
@@ -20,7 +20,10 @@ impl <T> Drop for HeapStorage<T> {
     fn drop(&mut self) {
         unsafe {
             #[cfg(feature = "vmem")]
-            libc::munmap(self.inner as _, 2 * self.len * size_of::<T>());
+            {
+                core::ptr::drop_in_place(core::ptr::slice_from_raw_parts_mut(self.inner, self.len));
+                libc::munmap(self.inner as _, 2 * self.len * size_of::<T>());
+            }
 
             #[cfg(not(feature = "vmem"))]
             let _ = Box::from_raw(core::ptr::slice_from_raw_parts_mut(self.inner, self.len));
@@ -32,10 +35,15 @@ impl<T> HeapStorage<T> {
     #[cfg(feature = "vmem")]
     fn new(value: Box<[UnsafeSyncCell<T>]>) -> Self {
         let r = vmem_helper::new(&value);
+        let len = value.len();
+
+        // The items have been moved to the new location: release only the memory they were in.
+        let v = Box::into_raw(value) as *mut [core::mem::MaybeUninit<UnsafeSyncCell<T>>];
+        drop(unsafe { Box::from_raw(v) });
 
         Self {
             inner: r,
-            len: value.len(),
+            len,
         }
     }
 
diff --git a/src/ring_buffer/storage/heap/vmem_helper.rs b/src/ring_buffer/storage/heap/vmem_helper.rs
index 4cd6c76..67b667e 100644
--- a/src/ring_buffer/storage/heap/vmem_helper.rs
+++ b/src/ring_buffer/storage/heap/vmem_helper.rs
@@ -74,7 +74,7 @@ pub(crate) fn new<T>(value: &[UnsafeSyncCell<T>]) -> *mut UnsafeSyncCell<T> {
         libc::close(fd);
 
         let r = buffer as *mut UnsafeSyncCell<T>;
-        libc::memcpy(value.as_ptr() as _, r as _, size_of_val(value));
+        libc::memcpy(r as _, value.as_ptr() as _, size_of_val(value));
         
         r
     }
-- 
2.43.0


From ddcdf90e05b9523f4a7191c395d6a77ff39b65d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:17 +0000
Subject: [PATCH 09/11] fix: wake tasks which are waiting for an async
 operation

Wakers were stored, but nothing ever woke them, so under an executor polling
only on wake-up a pending operation stayed parked forever. Ask to be polled
again whenever Pending is returned.
---
 src/iterators/async_iterators/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iterators/async_iterators/mod.rs b/src/iterators/async_iterators/mod.rs
index cb6ce4d..6c9cef6 100644
--- a/src/iterators/async_iterators/mod.rs
+++ b/src/iterators/async_iterators/mod.rs
@@ -85,6 +85,9 @@ impl<I: AsyncIterator, P, O, const R: bool> Future for MRBFuture<'_, I, P, O, R>
             }
 
             if waker_registered {
+                // Other iterators do not know which tasks are waiting for them, so nobody else is
+                // going to wake this one.
+                cx.waker().wake_by_ref();
                 break Poll::Pending;
             }
             self.iter.register_waker(cx.waker());
-- 
2.43.0


From 2dad57b484e159d9f448d0df17b8b6104ee42e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 10/11] verif_hooks: instrumented atomics for the concurrent
 buffer (cfg verif_hooks, off by default)

---
 src/lib.rs                                |  3 +
 src/ring_buffer/variants/concurrent_rb.rs |  3 +
 src/verif_hooks.rs                        | 98 +++++++++++++++++++++++
 3 files changed, 104 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index e591d5b..a4784d1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,6 +2,7 @@
 #![doc = include_str!("../README.md")]
 
 #![no_std]
+#![allow(unexpected_cfgs)]
 
 #[cfg(feature = "alloc")]
 extern crate alloc;
@@ -36,3 +37,5 @@ pub use crate::ring_buffer::variants::local_rb::LocalMutRingBuf;
 
 pub mod iterators;
 mod ring_buffer;
+#[cfg(verif_hooks)]
+mod verif_hooks;
diff --git a/src/ring_buffer/variants/concurrent_rb.rs b/src/ring_buffer/variants/concurrent_rb.rs
index 12d48a5..a41b96d 100644
--- a/src/ring_buffer/variants/concurrent_rb.rs
+++ b/src/ring_buffer/variants/concurrent_rb.rs
@@ -1,7 +1,10 @@
 use core::cell::UnsafeCell;
 use core::num::NonZeroUsize;
 use core::sync::atomic::Ordering::{Acquire, Release};
+#[cfg(not(verif_hooks))]
 use core::sync::atomic::{AtomicBool, AtomicUsize};
+#[cfg(verif_hooks)]
+use crate::verif_hooks::{AtomicBool, AtomicUsize};
 
 #[cfg(any(feature = "async", doc))]
 use crate::iterators::{
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..95f7177
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,98 @@
+//! Instrumented stand-ins for the atomics used by concurrent buffers.
+//!
+//! Compiled only with `--cfg verif_hooks`. Each access is forwarded to functions provided by the
+//! program the crate is linked with, which can observe it, delay it and choose the value it returns.
+
+use core::sync::atomic::Ordering;
+use core::sync::atomic::AtomicUsize as Backing;
+
+extern "Rust" {
+    /// An atomic load from `at`.
+    fn __mrb_hook_load(at: &Backing, order: Ordering) -> usize;
+    /// An atomic store to `at`.
+    fn __mrb_hook_store(at: &Backing, value: usize, order: Ordering);
+    /// An atomic read-modify-write of `at`. `f` yields the new value, or `None` to leave it as it is.
+    fn __mrb_hook_rmw(at: &Backing, f: &mut dyn FnMut(usize) -> Option<usize>, success: Ordering, failure: Ordering) -> Result<usize, usize>;
+}
+
+macro_rules! twin {
+    ($name: ident, $t: ty, $to: expr, $from: expr) => {
+        #[derive(Debug)]
+        pub struct $name(Backing);
+
+        #[allow(dead_code)]
+        impl $name {
+            pub fn new(v: $t) -> Self {
+                Self(Backing::new($to(v)))
+            }
+            pub fn load(&self, order: Ordering) -> $t {
+                unsafe { $from(__mrb_hook_load(&self.0, order)) }
+            }
+            pub fn store(&self, v: $t, order: Ordering) {
+                unsafe { __mrb_hook_store(&self.0, $to(v), order) }
+            }
+            fn rmw(&self, mut f: impl FnMut($t) -> Option<$t>, success: Ordering, failure: Ordering) -> Result<$t, $t> {
+                unsafe {
+                    __mrb_hook_rmw(&self.0, &mut |v| f($from(v)).map($to), success, failure).map($from).map_err($from)
+                }
+            }
+            fn always(&self, mut f: impl FnMut($t) -> $t, order: Ordering) -> $t {
+                match self.rmw(|v| Some(f(v)), order, Ordering::Relaxed) { Ok(v) | Err(v) => v }
+            }
+            pub fn swap(&self, v: $t, order: Ordering) -> $t {
+                self.always(|_| v, order)
+            }
+            pub fn compare_exchange(&self, current: $t, new: $t, success: Ordering, failure: Ordering) -> Result<$t, $t> {
+                self.rmw(|v| (v == current).then_some(new), success, failure)
+            }
+            pub fn compare_exchange_weak(&self, current: $t, new: $t, success: Ordering, failure: Ordering) -> Result<$t, $t> {
+                self.compare_exchange(current, new, success, failure)
+            }
+            pub fn fetch_update(&self, set: Ordering, fetch: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
+                self.rmw(f, set, fetch)
+            }
+            pub fn fetch_and(&self, o: $t, order: Ordering) -> $t {
+                self.always(|v| v & o, order)
+            }
+            pub fn fetch_or(&self, o: $t, order: Ordering) -> $t {
+                self.always(|v| v | o, order)
+            }
+            pub fn fetch_xor(&self, o: $t, order: Ordering) -> $t {
+                self.always(|v| v ^ o, order)
+            }
+            pub fn into_inner(self) -> $t {
+                $from(self.0.into_inner())
+            }
+        }
+
+        impl Default for $name {
+            fn default() -> Self {
+                Self::new(Default::default())
+            }
+        }
+        impl From<$t> for $name {
+            fn from(v: $t) -> Self {
+                Self::new(v)
+            }
+        }
+    }
+}
+
+twin!(AtomicUsize, usize, |v: usize| v, |v: usize| v);
+twin!(AtomicBool, bool, |v: bool| v as usize, |v: usize| v != 0);
+
+#[allow(dead_code)]
+impl AtomicUsize {
+    pub fn fetch_add(&self, o: usize, order: Ordering) -> usize {
+        self.always(|v| v.wrapping_add(o), order)
+    }
+    pub fn fetch_sub(&self, o: usize, order: Ordering) -> usize {
+        self.always(|v| v.wrapping_sub(o), order)
+    }
+    pub fn fetch_max(&self, o: usize, order: Ordering) -> usize {
+        self.always(|v| v.max(o), order)
+    }
+    pub fn fetch_min(&self, o: usize, order: Ordering) -> usize {
+        self.always(|v| v.min(o), order)
+    }
+}
-- 
2.43.0


From 6ca65346b246f64f31672ad6d26ef36dfbb29c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 11/11] verif_hooks: weak exchanges may fail spuriously

---
 src/verif_hooks.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 95f7177..67fde4b 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -13,6 +13,8 @@ extern "Rust" {
     fn __mrb_hook_store(at: &Backing, value: usize, order: Ordering);
     /// An atomic read-modify-write of `at`. `f` yields the new value, or `None` to leave it as it is.
     fn __mrb_hook_rmw(at: &Backing, f: &mut dyn FnMut(usize) -> Option<usize>, success: Ordering, failure: Ordering) -> Result<usize, usize>;
+    /// Whether a weak exchange fails this time although the value is the expected one.
+    fn __mrb_hook_weak_fails() -> bool;
 }
 
 macro_rules! twin {
@@ -46,7 +48,8 @@ macro_rules! twin {
                 self.rmw(|v| (v == current).then_some(new), success, failure)
             }
             pub fn compare_exchange_weak(&self, current: $t, new: $t, success: Ordering, failure: Ordering) -> Result<$t, $t> {
-                self.compare_exchange(current, new, success, failure)
+                let fails = unsafe { __mrb_hook_weak_fails() };
+                self.rmw(|v| (v == current && !fails).then_some(new), success, failure)
             }
             pub fn fetch_update(&self, set: Ordering, fetch: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                 self.rmw(f, set, fetch)
-- 
2.43.0

