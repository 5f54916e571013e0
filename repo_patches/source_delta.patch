From 3b84008ca2dd955d9818dff290e699be3dc831ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:12 +0000
Subject: [PATCH 01/27] sim: guarded std seam for deterministic simulation (cfg
 divans_sim, off by default)

---
 src/lib.rs      |   8 ++
 src/sim_seam.rs | 357 ++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 365 insertions(+)
 create mode 100644 src/sim_seam.rs

diff --git a/src/lib.rs b/src/lib.rs
index 54137db..13a4f9f 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -29,9 +29,17 @@ extern crate std;
 #[cfg(feature="std")]
 #[cfg(not(test))]
 #[cfg(not(any(feature="billing", feature="findspeed")))]
+#[cfg(not(divans_sim))]
 #[macro_use]
 extern crate std;
 
+#[cfg(divans_sim)]
+#[macro_use]
+extern crate std as real_std;
+#[cfg(divans_sim)]
+#[path="sim_seam.rs"]
+pub mod std;
+
 #[cfg(test)]
 #[macro_use]
 extern crate std;
diff --git a/src/sim_seam.rs b/src/sim_seam.rs
new file mode 100644
index 0000000..1fac3d9
--- /dev/null
+++ b/src/sim_seam.rs
@@ -0,0 +1,357 @@
+//! Seam for deterministic simulation: `std` as the rest of the crate sees it,
+//! with the primitives the multithreaded decoder uses (locks, condition
+//! variables, threads, clock) replaced by stand-ins that hand control to a
+//! runtime installed from outside the crate.
+//!
+//! Compiled only with `--cfg divans_sim`, where it is the module `std` at the
+//! crate root; a build without that flag does not contain this file. With the
+//! flag on and no runtime installed, every operation falls through to the
+//! primitive it stands in for.
+#![cfg(divans_sim)]
+#![allow(dead_code)]
+
+pub use real_std::*;
+
+pub mod sim {
+use real_std as std;
+use real_std::prelude::v1::*;
+use real_std::sync::atomic::{AtomicUsize, Ordering};
+pub use real_std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
+pub use real_std::time::Duration;
+
+/// What the simulator decides. Every method is called by the thread the
+/// operation belongs to; a blocking one returns once the simulator has let it
+/// proceed.
+pub trait Runtime: Sync {
+    /// A lock or condition variable was created; the result names it.
+    fn register(&self) -> usize;
+    /// Returns once the calling thread owns the lock.
+    fn lock(&self, lock: usize);
+    /// Takes the lock if it is free.
+    fn try_lock(&self, lock: usize) -> bool;
+    fn unlock(&self, lock: usize);
+    /// Releases `lock`, waits on `cvar`, and takes `lock` again. Returns true
+    /// if the wait ended because `timeout` went by.
+    fn wait(&self, cvar: usize, lock: usize, timeout: Option<Duration>) -> bool;
+    fn notify(&self, cvar: usize, all: bool);
+    /// Runs `body` on a new simulated thread; the result names the thread.
+    fn spawn(&self, body: Box<dyn FnOnce() + Send + 'static>) -> usize;
+    fn join(&self, thread: usize);
+    fn is_finished(&self, thread: usize) -> bool;
+    fn yield_now(&self);
+    fn sleep(&self, duration: Duration);
+    /// Time since the epoch.
+    fn now(&self) -> Duration;
+}
+
+static RUNTIME: std::sync::RwLock<Option<&'static dyn Runtime>> = std::sync::RwLock::new(None);
+const NO_RUNTIME: usize = 0;
+
+pub fn install(runtime: Option<&'static dyn Runtime>) {
+    *RUNTIME.write().unwrap_or_else(|e| e.into_inner()) = runtime;
+}
+
+fn runtime() -> Option<&'static dyn Runtime> {
+    *RUNTIME.read().unwrap_or_else(|e| e.into_inner())
+}
+
+fn register(slot: &AtomicUsize) -> Option<(&'static dyn Runtime, usize)> {
+    let rt = match runtime() {
+        Some(rt) => rt,
+        None => return None,
+    };
+    let mut id = slot.load(Ordering::Relaxed);
+    if id == NO_RUNTIME {
+        // only one simulated thread runs at a time
+        id = rt.register() + 1;
+        slot.store(id, Ordering::Relaxed);
+    }
+    Some((rt, id))
+}
+
+#[derive(Debug)]
+pub struct Mutex<T: ?Sized> {
+    id: AtomicUsize,
+    inner: std::sync::Mutex<T>,
+}
+
+pub struct MutexGuard<'a, T: ?Sized + 'a> {
+    mutex: &'a Mutex<T>,
+    inner: Option<std::sync::MutexGuard<'a, T>>,
+}
+
+impl<T> Mutex<T> {
+    pub fn new(value: T) -> Self {
+        Mutex { id: AtomicUsize::new(NO_RUNTIME), inner: std::sync::Mutex::new(value) }
+    }
+    pub fn into_inner(self) -> LockResult<T> {
+        self.inner.into_inner()
+    }
+}
+
+impl<T: Default> Default for Mutex<T> {
+    fn default() -> Self {
+        Self::new(T::default())
+    }
+}
+
+impl<T: ?Sized> Mutex<T> {
+    fn guard<'a>(&'a self, inner: LockResult<std::sync::MutexGuard<'a, T>>) -> LockResult<MutexGuard<'a, T>> {
+        match inner {
+            Ok(g) => Ok(MutexGuard { mutex: self, inner: Some(g) }),
+            Err(e) => Err(PoisonError::new(MutexGuard { mutex: self, inner: Some(e.into_inner()) })),
+        }
+    }
+    pub fn lock(&self) -> LockResult<MutexGuard<T>> {
+        if let Some((rt, id)) = register(&self.id) {
+            rt.lock(id);
+        }
+        self.guard(self.inner.lock())
+    }
+    pub fn try_lock(&self) -> TryLockResult<MutexGuard<T>> {
+        if let Some((rt, id)) = register(&self.id) {
+            if !rt.try_lock(id) {
+                return Err(TryLockError::WouldBlock);
+            }
+        }
+        match self.inner.try_lock() {
+            Ok(g) => Ok(MutexGuard { mutex: self, inner: Some(g) }),
+            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(
+                MutexGuard { mutex: self, inner: Some(e.into_inner()) }))),
+        }
+    }
+    pub fn is_poisoned(&self) -> bool {
+        self.inner.is_poisoned()
+    }
+    pub fn clear_poison(&self) {
+        self.inner.clear_poison()
+    }
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.inner.get_mut()
+    }
+}
+
+impl<'a, T: ?Sized> std::ops::Deref for MutexGuard<'a, T> {
+    type Target = T;
+    fn deref(&self) -> &T {
+        &**self.inner.as_ref().unwrap()
+    }
+}
+
+impl<'a, T: ?Sized> std::ops::DerefMut for MutexGuard<'a, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        &mut **self.inner.as_mut().unwrap()
+    }
+}
+
+impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
+    fn drop(&mut self) {
+        if self.inner.take().is_some() {
+            if let Some((rt, id)) = register(&self.mutex.id) {
+                rt.unlock(id);
+            }
+        }
+    }
+}
+
+#[derive(Debug)]
+pub struct Condvar {
+    id: AtomicUsize,
+    inner: std::sync::Condvar,
+}
+
+#[derive(Debug, PartialEq, Eq, Copy, Clone)]
+pub struct WaitTimeoutResult(bool);
+
+impl WaitTimeoutResult {
+    pub fn timed_out(&self) -> bool {
+        self.0
+    }
+}
+
+impl Default for Condvar {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
+impl Condvar {
+    pub fn new() -> Self {
+        Condvar { id: AtomicUsize::new(NO_RUNTIME), inner: std::sync::Condvar::new() }
+    }
+    fn wait_internal<'a, T>(&self, mut guard: MutexGuard<'a, T>, timeout: Option<Duration>) -> (LockResult<MutexGuard<'a, T>>, bool) {
+        let mutex = guard.mutex;
+        let inner = guard.inner.take().unwrap();
+        if let Some((rt, id)) = register(&self.id) {
+            drop(inner);
+            let lock_id = mutex.id.load(Ordering::Relaxed);
+            let timed_out = rt.wait(id, lock_id, timeout);
+            return (mutex.guard(mutex.inner.lock()), timed_out);
+        }
+        match timeout {
+            None => (mutex.guard(self.inner.wait(inner)), false),
+            Some(limit) => match self.inner.wait_timeout(inner, limit) {
+                Ok((g, t)) => (mutex.guard(Ok(g)), t.timed_out()),
+                Err(e) => {
+                    let (g, t) = e.into_inner();
+                    (mutex.guard(Err(PoisonError::new(g))), t.timed_out())
+                },
+            },
+        }
+    }
+    pub fn wait<'a, T>(&self, guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
+        self.wait_internal(guard, None).0
+    }
+    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut guard: MutexGuard<'a, T>, mut condition: F) -> LockResult<MutexGuard<'a, T>> {
+        while condition(&mut *guard) {
+            guard = self.wait(guard)?;
+        }
+        Ok(guard)
+    }
+    pub fn wait_timeout<'a, T>(&self, guard: MutexGuard<'a, T>, limit: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
+        match self.wait_internal(guard, Some(limit)) {
+            (Ok(g), t) => Ok((g, WaitTimeoutResult(t))),
+            (Err(e), t) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(t)))),
+        }
+    }
+    pub fn notify_one(&self) {
+        match register(&self.id) {
+            Some((rt, id)) => rt.notify(id, false),
+            None => self.inner.notify_one(),
+        }
+    }
+    pub fn notify_all(&self) {
+        match register(&self.id) {
+            Some((rt, id)) => rt.notify(id, true),
+            None => self.inner.notify_all(),
+        }
+    }
+}
+
+#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
+pub struct SystemTime(Duration);
+pub type Instant = SystemTime;
+
+impl SystemTime {
+    pub const UNIX_EPOCH: SystemTime = SystemTime(Duration::from_secs(0));
+    pub fn now() -> Self {
+        match runtime() {
+            Some(rt) => SystemTime(rt.now()),
+            None => SystemTime(std::time::SystemTime::now().duration_since(
+                std::time::SystemTime::UNIX_EPOCH).unwrap_or(Duration::from_secs(0))),
+        }
+    }
+    /// An error, as with `std`, says the clock went backwards.
+    pub fn duration_since(&self, earlier: SystemTime) -> Result<Duration, Duration> {
+        self.0.checked_sub(earlier.0).ok_or_else(|| earlier.0 - self.0)
+    }
+    pub fn elapsed(&self) -> Result<Duration, Duration> {
+        Self::now().duration_since(*self)
+    }
+}
+
+pub mod thread {
+    use super::runtime;
+    use real_std as std;
+    use real_std::prelude::v1::*;
+    use real_std::sync::{Arc, Mutex};
+    pub use real_std::thread::Result;
+    use super::Duration;
+
+    enum Handle<T> {
+        Real(std::thread::JoinHandle<T>),
+        Simulated(usize, Arc<Mutex<Option<Result<T>>>>),
+    }
+    pub struct JoinHandle<T>(Handle<T>);
+
+    impl<T> JoinHandle<T> {
+        pub fn join(self) -> Result<T> {
+            match self.0 {
+                Handle::Real(h) => h.join(),
+                Handle::Simulated(id, slot) => {
+                    if let Some(rt) = runtime() {
+                        rt.join(id);
+                    }
+                    let result = slot.lock().unwrap_or_else(|e| e.into_inner()).take();
+                    result.unwrap_or_else(|| Err(Box::new("simulated thread was stopped")))
+                },
+            }
+        }
+        pub fn is_finished(&self) -> bool {
+            match self.0 {
+                Handle::Real(ref h) => h.is_finished(),
+                Handle::Simulated(id, _) => runtime().map_or(true, |rt| rt.is_finished(id)),
+            }
+        }
+    }
+
+    pub fn spawn<F, T>(f: F) -> JoinHandle<T>
+        where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
+        match runtime() {
+            None => JoinHandle(Handle::Real(std::thread::spawn(f))),
+            Some(rt) => {
+                let slot = Arc::new(Mutex::new(None));
+                let result = slot.clone();
+                let id = rt.spawn(Box::new(move || {
+                    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
+                        Ok(v) => *result.lock().unwrap_or_else(|e| e.into_inner()) = Some(Ok(v)),
+                        Err(payload) => std::panic::resume_unwind(payload),
+                    }
+                }));
+                JoinHandle(Handle::Simulated(id, slot))
+            },
+        }
+    }
+    pub struct Builder(std::thread::Builder);
+
+    impl Builder {
+        pub fn new() -> Self {
+            Builder(std::thread::Builder::new())
+        }
+        pub fn name(self, name: String) -> Self {
+            Builder(self.0.name(name))
+        }
+        pub fn stack_size(self, size: usize) -> Self {
+            Builder(self.0.stack_size(size))
+        }
+        pub fn spawn<F, T>(self, f: F) -> std::io::Result<JoinHandle<T>>
+            where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
+            match runtime() {
+                None => self.0.spawn(f).map(|h| JoinHandle(Handle::Real(h))),
+                Some(_) => Ok(spawn(f)),
+            }
+        }
+    }
+
+    pub fn yield_now() {
+        match runtime() {
+            Some(rt) => rt.yield_now(),
+            None => std::thread::yield_now(),
+        }
+    }
+    pub fn sleep(duration: Duration) {
+        match runtime() {
+            Some(rt) => rt.sleep(duration),
+            None => std::thread::sleep(duration),
+        }
+    }
+}
+
+}
+
+pub mod sync {
+    pub use real_std::sync::*;
+    pub use super::sim::{Condvar, Mutex, MutexGuard, WaitTimeoutResult};
+}
+
+pub mod time {
+    pub use real_std::time::*;
+    pub use super::sim::{Instant, SystemTime};
+    pub const UNIX_EPOCH: SystemTime = SystemTime::UNIX_EPOCH;
+}
+
+pub mod thread {
+    pub use real_std::thread::*;
+    pub use super::sim::thread::{sleep, spawn, yield_now, Builder, JoinHandle};
+}
-- 
2.43.0


From 8c5550a0aad5cc58e945856324be053b73dd783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 02/27] fix: abandoning a multithreaded decoder mid-stream ends
 its thread

free(), free_ref() and dropping the decoder while the worker waited for
input, for a context map or for room in the result queue deadlocked (or left
the thread waiting forever), because only some of the waits looked at the
error the main thread broadcasts, and a worker that got the error went on
asking for input.
---
 src/multithreading.rs        | 20 ++++++++++++++------
 src/parallel_decompressor.rs | 36 ++++++++++++++++++++++++++----------
 2 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/multithreading.rs b/src/multithreading.rs
index 85a9b62..7b84178 100755
--- a/src/multithreading.rs
+++ b/src/multithreading.rs
@@ -133,6 +133,14 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> MultiWorker<A
         thread_debug!(_thread_event_type, output.len(), self, _elapsed);
         return ret;        
     }
+    // the reason the other side gave for stopping, if it did
+    pub fn pending_err(&self) -> Option<ErrMsg> {
+        let &(ref lock, _) = &*self.queue;
+        match lock.lock() {
+            Ok(worker) => worker.err,
+            Err(_) => Some(ErrMsg::UnexpectedEof), // the other side panicked
+        }
+    }
     pub fn free(&mut self, m8: &mut RepurposingAlloc<u8, AllocU8>, mcommand: &mut AllocCommand) {
         let &(ref lock, ref cvar) = &*self.queue;
         let mut worker = lock.lock().unwrap();
@@ -243,7 +251,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.data_ready() {
+            if worker.data_ready() || worker.err.is_some() {
                 let ret = worker.pull_data();
                 thread_debug!(ThreadEventType::W_PULL_DATA, match ret {ThreadData::Data(ref d) => d.len(), ThreadData::Yield => 0, ThreadData::Eof=> 99999999,}, self, _elapsed);
                 return ret;
@@ -262,7 +270,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.cm_ready() {
+            if worker.cm_ready() || worker.err.is_some() {
                 if worker.waiters != 0 {
                     cvar.notify_one();
                 }
@@ -290,7 +298,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.result_space_ready() {
+            if worker.result_space_ready() || worker.err.is_some() {
                 thread_debug!(ThreadEventType::W_PUSH_CMD, 1, self, _elapsed);
                 if worker.waiters != 0 {
                     cvar.notify_one();
@@ -314,7 +322,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.result_space_ready() {
+            if worker.result_space_ready() || worker.err.is_some() {
                 if worker.waiters != 0 {
                     cvar.notify_one();
                 }
@@ -335,7 +343,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.result_space_ready() {
+            if worker.result_space_ready() || worker.err.is_some() {
                 if worker.waiters != 0 {
                     cvar.notify_one();
                 }
@@ -401,7 +409,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> BufferedMulti
                         continue;
                     }
                     DivansOutputResult::Failure(e) => {
-                        worker.set_error(e);
+                        return DivansOpResult::Failure(e);
                     }
                 }
                 if worker.waiters != 0 && !did_notify{
diff --git a/src/parallel_decompressor.rs b/src/parallel_decompressor.rs
index cc89219..11b484e 100755
--- a/src/parallel_decompressor.rs
+++ b/src/parallel_decompressor.rs
@@ -9,7 +9,7 @@ use std::sync::{Arc, Mutex};
 use divans_decompressor::HeaderParser;
 use super::mux::{Mux,DevNull};
 use codec::decoder::{DecoderResult, DivansDecoderCodec};
-use threading::{ThreadToMainDemuxer, ThreadToMain};
+use threading::{ThreadToMainDemuxer, ThreadToMain, MainToThread};
 use multithreading::{BufferedMultiWorker, MultiWorker};
 
 use ::interface::{DivansResult, DivansInputResult, ErrMsg};
@@ -18,6 +18,21 @@ use ::alloc::{Allocator};
 use std::thread;
 use super::divans_decompressor::StaticCommand;
 
+// Ends the worker when the process it works for goes out of scope, which
+// otherwise would leave it waiting for input that can no longer come.
+struct HangUpOnDrop<AllocU8:Allocator<u8>,
+                    AllocCommand:Allocator<StaticCommand>>(MultiWorker<AllocU8, AllocCommand>);
+impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> HangUpOnDrop<AllocU8, AllocCommand> {
+    fn hang_up(&mut self) {
+        <MultiWorker<AllocU8, AllocCommand> as MainToThread<AllocU8>>::broadcast_err(&mut self.0, ErrMsg::UnexpectedEof);
+    }
+}
+impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> Drop for HangUpOnDrop<AllocU8, AllocCommand> {
+    fn drop(&mut self) {
+        self.hang_up();
+    }
+}
+
 pub struct ParallelDivansProcess<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8>,
                                  AllocU8:Allocator<u8>,
                                  AllocCDF16:Allocator<interface::DefaultCDF16>,
@@ -30,7 +45,7 @@ pub struct ParallelDivansProcess<DefaultDecoder: ArithmeticEncoderOrDecoder + Ne
                                          AllocU8,
                                          AllocCDF16>>>,
                >,
-    worker: MultiWorker<AllocU8, AllocCommand>,
+    worker: HangUpOnDrop<AllocU8, AllocCommand>,
     literal_decoder: Option<DivansDecoderCodec<interface::DefaultCDF16,
                                                AllocU8,
                                                AllocCDF16,
@@ -108,6 +123,9 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
                 let mut unused_in = 0usize;
                 let mut unused = 0usize;
                 loop {
+                    if process_codec.demuxer().worker.worker.pending_err().is_some() {
+                        return; // the main thread has hung up
+                    }
                     match process_codec.encode_or_decode(
                         &[],
                         &mut unused_in,
@@ -127,20 +145,18 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
                         DivansResult::NeedsMoreOutput => {}, // lets make room for more output
                     }
                 }
-            } else {
-                panic!("Thread started with None-process_codec")
-            }
+            } // else the decoder was freed before this thread got going
         });
         ParallelDivansProcess::<DefaultDecoder, AllocU8, AllocCDF16, AllocCommand> {
             mcommand:mc,
             codec:worker_codec,
             literal_decoder:Some(main_thread_codec),
             bytes_encoded:0,
-            worker: multi_worker,
+            worker: HangUpOnDrop(multi_worker),
         }
     }
     pub fn free_ref(&mut self) {
-        self.worker.broadcast_err(ErrMsg::UnexpectedEof); // in case we still have a worker holding the lock, not done
+        self.worker.hang_up(); // in case we still have a worker holding the lock, not done
         if let Some(ref mut codec) = *self.codec.lock().unwrap() {
             let lit_decoder = core::mem::replace(&mut self.literal_decoder, None);
             if let Some(ld) = lit_decoder {
@@ -153,7 +169,7 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
     }
     pub fn free(mut self) -> (AllocU8, AllocCDF16, AllocCommand) {
         use codec::NUM_ARITHMETIC_CODERS;
-        self.worker.broadcast_err(ErrMsg::UnexpectedEof); // in case we still have a worker holding the lock, not done
+        self.worker.hang_up(); // in case we still have a worker holding the lock, not done
         if let Some(mut codec) = core::mem::replace(&mut *self.codec.lock().unwrap(), None) {
             let lit_decoder = core::mem::replace(&mut self.literal_decoder, None);
             if let Some(ld) = lit_decoder {
@@ -177,7 +193,7 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
         let old_output_offset = *output_offset;
         if let Some(literal_decoder) =  self.literal_decoder.as_mut() {
             loop {
-                match literal_decoder.decode_process_input(&mut self.worker,
+                match literal_decoder.decode_process_input(&mut self.worker.0,
                                                            input,
                                                            input_offset) {
                     DivansInputResult::Success => {},
@@ -188,7 +204,7 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
                 }
             }
             let retval = literal_decoder.decode_process_output(
-                &mut self.worker,
+                &mut self.worker.0,
                 output,
                 output_offset);
             self.bytes_encoded += *output_offset - old_output_offset;
-- 
2.43.0


From 9e3f205ab21e5946a2021665692d95b919b94c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 03/27] fix: a command stream that ends early no longer
 deadlocks the multithreaded decoder

When the end marker came before the commands were complete, the worker waited
for data and the main thread waited for commands, forever. The main thread now
tells the worker that everything was pushed.
---
 src/codec/decoder.rs  |  3 +++
 src/multithreading.rs | 16 ++++++++++++++++
 src/threading.rs      | 15 +++++++++++++++
 3 files changed, 34 insertions(+)

diff --git a/src/codec/decoder.rs b/src/codec/decoder.rs
index 6bd30dd..149ba53 100644
--- a/src/codec/decoder.rs
+++ b/src/codec/decoder.rs
@@ -296,6 +296,9 @@ impl<Cdf16:CDF16,
                 {
                     assert_eq!(self.pred_buffer[0].has_context_speeds(), false);
                     assert_eq!(self.pred_buffer[1].has_context_speeds(), false);
+                    if self.demuxer.encountered_eof() && self.demuxer.data_ready(CMD_CODER as StreamID) == 0 {
+                        worker.close(); // the worker must not wait for more
+                    }
                     status = worker.pull_command_buf(&mut self.cmd_buffer, &mut consumed_data, &mut self.pred_buffer);
                 }
                 let mut need_input = false;
diff --git a/src/multithreading.rs b/src/multithreading.rs
index 7b84178..61eecf8 100755
--- a/src/multithreading.rs
+++ b/src/multithreading.rs
@@ -236,6 +236,15 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> MainToThread<
             }
         }
     }
+    #[inline(always)]
+    fn close(&mut self) {
+        let &(ref lock, ref cvar) = &*self.queue;
+        let mut worker = lock.lock().unwrap();
+        if worker.waiters != 0 {
+            cvar.notify_one();
+        }
+        worker.close();
+    }
     fn broadcast_err(&mut self,
                      err:ErrMsg) {
         self.broadcast_err_internal(err, ThreadEventType::M_BROADCAST_ERR);
@@ -255,6 +264,13 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
                 let ret = worker.pull_data();
                 thread_debug!(ThreadEventType::W_PULL_DATA, match ret {ThreadData::Data(ref d) => d.len(), ThreadData::Yield => 0, ThreadData::Eof=> 99999999,}, self, _elapsed);
                 return ret;
+            } else if worker.data_exhausted() {
+                // the main thread may be waiting for commands which we lack the data to decode
+                if worker.waiters != 0 {
+                    cvar.notify_one();
+                }
+                worker.broadcast_err_internal(ErrMsg::UnexpectedEof);
+                return ThreadData::Err(ErrMsg::UnexpectedEof);
             } else {
                 thread_debug!(ThreadEventType::W_WAIT_PULL_DATA, 0, self, _elapsed);
                 worker.waiters += 1;
diff --git a/src/threading.rs b/src/threading.rs
index 4470663..8c7f227 100755
--- a/src/threading.rs
+++ b/src/threading.rs
@@ -52,6 +52,8 @@ pub trait MainToThread<AllocU8:Allocator<u8>> {
             output:&mut Self::CommandOutputType,
             consumed_data:&mut [AllocatedMemoryRange<u8, AllocU8>;NUM_DATA_BUFFERED],
             pm:&mut [PredictionModeContextMap<AllocatedMemoryPrefix<u8, AllocU8>>; 2]) -> CommandResult;
+    // no further data is going to be pushed
+    fn close(&mut self);
     fn broadcast_err(&mut self, err:ErrMsg);
 }
 
@@ -95,6 +97,7 @@ pub struct SerialWorker<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticComm
     result_data: [AllocatedMemoryRange<u8, AllocU8>; NUM_DATA_BUFFERED],
     result_cm: [PredictionModeContextMap<AllocatedMemoryPrefix<u8, AllocU8>>; 2],
     pub waiters: u8,
+    data_closed: bool, // everything there is has been pushed
     eof_present_in_result: CommandResult, // retriever should try to get everything
     pub err: Option<ErrMsg>,
 }
@@ -127,6 +130,9 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> SerialWorker<
     pub fn data_ready(&self) -> bool {
         self.data_len != 0
     }
+    pub fn data_exhausted(&self) -> bool {
+        self.data_len == 0 && self.data_closed
+    }
     pub fn returned_data_space_ready(&self) -> bool {
         self.result_data[NUM_DATA_BUFFERED -1].0.len() == 0
     }
@@ -171,6 +177,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> SerialWorker<
     pub fn new(mc:&mut AllocCommand) -> Self {
         SerialWorker::<AllocU8, AllocCommand> {
             waiters: 0,
+            data_closed: false,
             eof_present_in_result: CommandResult::Ok,
             data_len: 0,
             data:[ThreadData::<AllocU8>::default(),
@@ -255,6 +262,10 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> MainToThread<
         core::mem::swap(pm, &mut self.result_cm);
         self.eof_present_in_result
     }
+    #[inline(always)]
+    fn close(&mut self) {
+        self.data_closed = true;
+    }
     fn broadcast_err(&mut self, err:ErrMsg) {
         self.err = Some(err);
     }
@@ -431,6 +442,10 @@ impl <AllocU8:Allocator<u8>, WorkerInterface:ThreadToMain<AllocU8>+MainToThread<
             pm:&mut [PredictionModeContextMap<AllocatedMemoryPrefix<u8, AllocU8>>; 2]) -> CommandResult {    
         self.worker.pull(output, consumed_data, pm)
     }
+    #[inline(always)]
+    fn close(&mut self) {
+        self.worker.close();
+    }
     fn broadcast_err(&mut self, err:ErrMsg) {
         <WorkerInterface as ThreadToMain<AllocU8>>::broadcast_err(&mut self.worker, err);
     }
-- 
2.43.0


From 7238b5b0601c8fe6e98ba93dbc06193405d8139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 04/27] fix: the internal command assembler keeps its write
 position when input ends before the ring buffer does

RawToCmdState::stream wrapped the write position to the front of the ring
buffer whenever some bytes had been flushed before, even if the input ran out
before the end of the buffer was reached; the flush then emitted stale bytes.
---
 src/raw_to_cmd/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw_to_cmd/mod.rs b/src/raw_to_cmd/mod.rs
index d01ac94..a09eed5 100644
--- a/src/raw_to_cmd/mod.rs
+++ b/src/raw_to_cmd/mod.rs
@@ -66,7 +66,7 @@ impl<RingBuffer: SliceWrapperMut<u8> + SliceWrapper<u8>, AllocU32:Allocator<u32>
             self.ring_buffer.slice_mut()[(self.ring_buffer_decode_index as usize)..(self.ring_buffer_decode_index as usize + max_copy)].clone_from_slice(&input[*input_offset..(*input_offset + max_copy)]);
             *input_offset += max_copy;
             self.ring_buffer_decode_index += max_copy as u32;
-            if self.ring_buffer_output_index != 0 {
+            if self.ring_buffer_output_index != 0 && self.ring_buffer_decode_index as usize == self.ring_buffer.slice().len() {
                self.ring_buffer_decode_index = 0;
             }
         }
-- 
2.43.0


From c84ecc606ce08f16104f6b7000409a6cb5f0802a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 05/27] fix: a malformed or early end marker is an error, not
 an endless request for input

---
 src/codec/decoder.rs       | 8 ++++++++
 src/divans_decompressor.rs | 5 ++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/codec/decoder.rs b/src/codec/decoder.rs
index 149ba53..896b7a0 100644
--- a/src/codec/decoder.rs
+++ b/src/codec/decoder.rs
@@ -131,6 +131,10 @@ impl<Cdf16:CDF16,
                 self.crc.write(adjusted_input_bytes.split_at(adjusted_input_bytes_offset).0);
             }
             *input_offset += adjusted_input_bytes_offset;
+            if *input_offset != input.len() && !self.demuxer.encountered_eof() {
+                // the demuxer only leaves input alone if the stream has ended or the end marker is malformed
+                return DivansInputResult::Failure(ErrMsg::UnexpectedEof);
+            }
         }
         if self.demuxer.encountered_eof() && usize::from(self.deserialized_crc_count) != self.deserialized_crc.len() {
             let crc_bytes_remaining = self.deserialized_crc.len() - usize::from(self.deserialized_crc_count);
@@ -274,6 +278,10 @@ impl<Cdf16:CDF16,
                                         core::mem::replace(&mut self.state_lit.lc,
                                                            LiteralCommand::<AllocatedMemoryPrefix<u8, AllocU8>>::nop()));
                                 },
+                                DivansResult::NeedsMoreInput if self.demuxer.encountered_eof() => {
+                                    // there is no more
+                                    return DecoderResult::Processed(DivansResult::Failure(ErrMsg::UnexpectedEof));
+                                },
                                 retval => {
                                     return DecoderResult::Processed(retval);
                                 }
diff --git a/src/divans_decompressor.rs b/src/divans_decompressor.rs
index 2e7febd..b20c40e 100644
--- a/src/divans_decompressor.rs
+++ b/src/divans_decompressor.rs
@@ -2,7 +2,7 @@ use core;
 use core::marker::PhantomData;
 use core::hash::Hasher;
 use ::interface;
-use ::interface::{NewWithAllocator, Decompressor};
+use ::interface::{NewWithAllocator, Decompressor, StreamDemuxer};
 use ::DecoderSpecialization;
 use ::codec;
 use super::mux::{Mux,DevNull};
@@ -136,6 +136,9 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
                 DivansResult::Failure(e) => return DivansResult::Failure(e),
                 DivansResult::NeedsMoreInput => {
                     if process.literal_decoder.as_mut().unwrap().outstanding_buffer_count == 0 {
+                        if process.literal_decoder.as_mut().unwrap().demuxer.encountered_eof() {
+                            return DivansResult::Failure(ErrMsg::UnexpectedEof); // there is no more
+                        }
                         return DivansResult::NeedsMoreInput;
                     } else {
                         // we can fall through here because if outstanding_buffer_count != 0 then
-- 
2.43.0


From c7a6ccbf87e26d4959817b498869ac37f9afec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 06/27] fix: a context map resumed after a full output buffer
 comes from its own storage, not the ring buffer

When the output buffer filled up while the internal compressor was writing its
prediction-mode command, the command was put aside and later restored as a
slice of the input ring buffer, so the compressed bytes depended on the output
slicing and on whatever the ring buffer held.
---
 src/divans_compressor.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/divans_compressor.rs b/src/divans_compressor.rs
index 34a8dd4..c6556c6 100644
--- a/src/divans_compressor.rs
+++ b/src/divans_compressor.rs
@@ -129,10 +129,22 @@ pub fn make_header(window_size: u8) -> [u8; interface::HEADER_LENGTH] {
     retval[5] = window_size;
     retval
 }
-fn thaw_commands<'a>(input: &[Command<slice_util::SliceReference<'static, u8>>], ring_buffer: &'a[u8], start_index:  usize, end_index: usize) -> [Command<InputReference<'a>>; COMPRESSOR_CMD_BUFFER_SIZE] {
+fn thaw_commands<'a>(input: &[Command<slice_util::SliceReference<'static, u8>>],
+                     ring_buffer: &'a[u8],
+                     literal_context_map: &'a[u8],
+                     prediction_mode: &'a[u8],
+                     start_index:  usize,
+                     end_index: usize) -> [Command<InputReference<'a>>; COMPRESSOR_CMD_BUFFER_SIZE] {
    let mut ret : [Command<InputReference<'a>>; COMPRESSOR_CMD_BUFFER_SIZE] = [Command::<InputReference>::default(); COMPRESSOR_CMD_BUFFER_SIZE];
    for (thawed, frozen) in ret[start_index..end_index].iter_mut().zip(input[start_index..end_index].iter()) {
-      *thawed = brotli::interface::thaw(frozen, ring_buffer);
+      *thawed = match *frozen {
+          // the context maps live in their own backing stores, not in the ring buffer
+          Command::PredictionMode(ref pm) => Command::PredictionMode(PredictionModeContextMap::<InputReference<'a>> {
+              literal_context_map: slice_util::thaw_br(&pm.literal_context_map, literal_context_map),
+              predmode_speed_and_distance_context_map: slice_util::thaw_br(&pm.predmode_speed_and_distance_context_map, prediction_mode),
+          }),
+          _ => brotli::interface::thaw(frozen, ring_buffer),
+      };
    }
    ret
 }
@@ -189,7 +201,9 @@ impl<DefaultEncoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8>, All
     fn flush_freeze_dried_cmds(&mut self, output: &mut [u8], output_offset: &mut usize) -> interface::DivansOutputResult {
         if self.freeze_dried_cmd_start != self.freeze_dried_cmd_end { // we have some freeze dried items
             let thawed_buffer = thaw_commands(&self.freeze_dried_cmd_array[..], self.cmd_assembler.ring_buffer.slice(),
-                                                  self.freeze_dried_cmd_start, self.freeze_dried_cmd_end);
+                                              self.literal_context_map_backing.slice(),
+                                              self.prediction_mode_backing.slice(),
+                                              self.freeze_dried_cmd_start, self.freeze_dried_cmd_end);
             let mut unused: usize = 0;
             match self.codec.encode_or_decode(&[],
                                     &mut unused,
-- 
2.43.0


From 075c20ee3593718c62f8dcd22fd32fce3c882989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 07/27] fix: the hybrid compressor reads all the input it was
 given before asking for more

A single call with enough incompressible input filled the internal brotli
buffer and returned NeedsMoreInput with input still unread, which the writer
adaptor reports as trailing input. An error from the metablock callback is no
longer lost when brotli asks for more input.
---
 src/brotli_ir_gen.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/brotli_ir_gen.rs b/src/brotli_ir_gen.rs
index 13fe93c..1c8e403 100644
--- a/src/brotli_ir_gen.rs
+++ b/src/brotli_ir_gen.rs
@@ -190,14 +190,14 @@ impl<SelectedCDF:CDF16,
                     }
                 }
                 self.brotli_data.commit_next_buffer(brotli_out_offset);
+                if let Err(e) = cb_err {
+                    return DivansResult::Failure(e);
+                }
                 if available_out != 0 && available_in == 0 && BrotliEncoderIsFinished(&mut self.brotli_encoder) == 0 {
                     return DivansResult::NeedsMoreInput;
                 }
             }
         }
-        if let Err(e) = cb_err {
-            return DivansResult::Failure(e);
-        }
         if is_end && BrotliEncoderIsFinished(&mut self.brotli_encoder) == 0 {
             return DivansResult::NeedsMoreOutput;
         }
@@ -251,13 +251,18 @@ impl<SelectedCDF:CDF16,
               input_offset: &mut usize,
               _output: &mut [u8],
               _output_offset: &mut usize) -> DivansResult {
-        match self.internal_encode_stream(BrotliEncoderOperation::BROTLI_OPERATION_PROCESS,
-                                          input,
-                                          input_offset,
-                                          false) {
-            DivansResult::NeedsMoreOutput => DivansResult::Failure(ErrMsg::BrotliInternalEncodeStreamNeedsOutputWithoutFlush),
-            DivansResult::Failure(m) => DivansResult::Failure(m),
-            DivansResult::Success | DivansResult::NeedsMoreInput => DivansResult::NeedsMoreInput,
+        loop {
+            match self.internal_encode_stream(BrotliEncoderOperation::BROTLI_OPERATION_PROCESS,
+                                              input,
+                                              input_offset,
+                                              false) {
+                DivansResult::NeedsMoreOutput => return DivansResult::Failure(ErrMsg::BrotliInternalEncodeStreamNeedsOutputWithoutFlush),
+                DivansResult::Failure(m) => return DivansResult::Failure(m),
+                DivansResult::Success => return DivansResult::NeedsMoreInput,
+                DivansResult::NeedsMoreInput => if *input_offset == input.len() {
+                    return DivansResult::NeedsMoreInput;
+                },
+            }
         }
     }
     fn flush(&mut self,
-- 
2.43.0


From 4f89a4023900e49166b27b55a54b8a568f5ae5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 08/27] fix: out-of-range dictionary words and copy distances
 are errors, not panics or endless loops

A stream can name a dictionary word past the end of the dictionary, or copy
from distance 0 (a division by zero) or from a whole ring buffer back (which
never makes progress).
---
 src/cmd_to_raw/mod.rs | 21 +++++++++++++++++++--
 src/interface.rs      |  1 +
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/cmd_to_raw/mod.rs b/src/cmd_to_raw/mod.rs
index 52b03cb..37cef85 100644
--- a/src/cmd_to_raw/mod.rs
+++ b/src/cmd_to_raw/mod.rs
@@ -19,6 +19,7 @@ pub use alloc::{AllocatedStackMemory, Allocator, SliceWrapper, SliceWrapperMut,
 use brotli::dictionary::{kBrotliMaxDictionaryWordLength, kBrotliDictionary,
                                       kBrotliDictionaryOffsetsByLength};
 use brotli::TransformDictionaryWord;
+use brotli::transform::kNumTransforms;
 pub use super::interface::{Command, Compressor, LiteralCommand, CopyCommand, DictCommand, FeatureFlagSliceType};
 mod test;
 
@@ -243,6 +244,13 @@ impl<RingBuffer: SliceWrapperMut<u8> + SliceWrapper<u8>> DivansRecodeState<RingB
     }
     #[inline(always)]
     fn parse_copy(&mut self, copy:&CopyCommand) -> DivansOutputResult {
+        if copy.distance == 0 {
+            return DivansOutputResult::Failure(ErrMsg::Distance0NotAllowed);
+        }
+        if copy.distance as usize >= self.ring_buffer.slice().len() {
+            // the slot at the write position holds no history: such a copy would never make progress
+            return DivansOutputResult::Failure(ErrMsg::DistanceGreaterRingBuffer);
+        }
         let num_bytes_left_in_cmd = copy.num_bytes - self.state.input_sub_offset as u32;
         if copy.distance <= REPEAT_BUFFER_MAX_SIZE && num_bytes_left_in_cmd > copy.distance {
             let num_bytes_to_copy = core::cmp::min(num_bytes_left_in_cmd,
@@ -283,10 +291,19 @@ impl<RingBuffer: SliceWrapperMut<u8> + SliceWrapper<u8>> DivansRecodeState<RingB
     }
     fn parse_dictionary(&mut self, dict_cmd:&DictCommand) -> DivansOutputResult {
         // dictionary words are bounded in size: make sure there's enough room for the whole word
+        if dict_cmd.word_size > kBrotliMaxDictionaryWordLength {
+            return DivansOutputResult::Failure(ErrMsg::DictWordSizeTooLarge(dict_cmd.word_size));
+        }
+        if i32::from(dict_cmd.transform) >= kNumTransforms {
+            return DivansOutputResult::Failure(ErrMsg::DictTransformIndexUndefined(dict_cmd.transform));
+        }
         let copy_len = u32::from(dict_cmd.word_size);
-        let word_len_category_index = kBrotliDictionaryOffsetsByLength[copy_len as usize] as u32;
-        let word_index = (dict_cmd.word_id * copy_len) + word_len_category_index;
+        let word_len_category_index = kBrotliDictionaryOffsetsByLength[copy_len as usize] as u64;
+        let word_index = u64::from(dict_cmd.word_id) * u64::from(copy_len) + word_len_category_index;
         let dict = &kBrotliDictionary;
+        if word_index + u64::from(copy_len) > dict.len() as u64 {
+            return DivansOutputResult::Failure(ErrMsg::DictWordIndexOutOfBounds(dict_cmd.word_size));
+        }
         let word = &dict[(word_index as usize)..(word_index as usize + copy_len as usize)];
         let mut transformed_word = [0u8;kBrotliMaxDictionaryWordLength as usize + 13];
         let final_len = TransformDictionaryWord(&mut transformed_word[..],
diff --git a/src/interface.rs b/src/interface.rs
index 09f354c..113c9f0 100644
--- a/src/interface.rs
+++ b/src/interface.rs
@@ -61,6 +61,7 @@ pub enum ErrMsg {
     MainFunctionCalledFromThread(u8),
     DecodingDecoderAlreadyFreed,
     AdvContextMapNotBoolean(u8),
+    DictWordIndexOutOfBounds(u8),
 }
 
 
-- 
2.43.0


From 955ef78a31b5835280030d7519e18fd6e512c588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 09/27] fix: a decoder that has failed stays failed

After a bad header the parser asked for more input, and after a failed command
decoding carried on behind it.
---
 src/divans_decompressor.rs   | 33 +++++++++++++++++++++++++++++++--
 src/parallel_decompressor.rs | 16 ++++++++++++++++
 2 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/divans_decompressor.rs b/src/divans_decompressor.rs
index b20c40e..adfc5df 100644
--- a/src/divans_decompressor.rs
+++ b/src/divans_decompressor.rs
@@ -30,6 +30,7 @@ pub struct HeaderParser<AllocU8:Allocator<u8>,
     pub mcommand: Option<AllocCommand>,
     pub skip_crc: bool,
     pub multithread: bool,
+    pub failure: Option<ErrMsg>, // set once the header turned out bad
 }
 
 impl<AllocU8:Allocator<u8>,
@@ -54,6 +55,9 @@ impl<AllocU8:Allocator<u8>,
                   input:&[u8],
                   input_offset:&mut usize) -> (usize, bool, DivansInputResult) {
         let header_parser = self;
+        if let Some(e) = header_parser.failure {
+            return (0, false, DivansInputResult::Failure(e));
+        }
         let window_size: usize;
         let is_multi: bool;
         let remaining = input.len() - *input_offset;
@@ -67,7 +71,12 @@ impl<AllocU8:Allocator<u8>,
                     window_size = wsize;
                     is_multi = header_parser.multithread;
                 },
-                Err(result) => return (0, false, DivansInputResult::from(result)),
+                Err(result) => {
+                    if let DivansOpResult::Failure(e) = result {
+                        header_parser.failure = Some(e);
+                    }
+                    return (0, false, DivansInputResult::from(result));
+                },
             }
         } else {
             header_parser.header[(header_parser.read_offset)..
@@ -100,6 +109,7 @@ pub struct DivansProcess<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAll
                                                Mux<AllocU8>>>,
     bytes_encoded: usize,
     mcommand: AllocCommand,
+    failure: Option<ErrMsg>, // a stream that failed to decode stays failed
 }
 
 
@@ -113,6 +123,20 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
               input_offset:&mut usize,
               output:&mut [u8],
               output_offset: &mut usize) -> DivansResult {
+        if let Some(e) = self.failure {
+            return DivansResult::Failure(e);
+        }
+        let ret = self.decode_unless_failed(input, input_offset, output, output_offset);
+        if let DivansResult::Failure(e) = ret {
+            self.failure = Some(e);
+        }
+        ret
+    }
+    fn decode_unless_failed(&mut self,
+                            input:&[u8],
+                            input_offset:&mut usize,
+                            output:&mut [u8],
+                            output_offset: &mut usize) -> DivansResult {
         let process = self;
         let mut unused:usize = 0;
         let old_output_offset = *output_offset;
@@ -289,6 +313,7 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8>,
                                    literal_decoder:Some(main_thread_codec),
                                    bytes_encoded:0,
                                    mcommand:mcommand,
+                                   failure:None,
                                }));
         DivansResult::Success
     }
@@ -391,7 +416,10 @@ macro_rules! decode_body {
             }
             *self = DivansDecompressor::MultiDecode(par_proc);
         } else {
-            self.finish_parsing_header_serial(window_size);
+            match self.finish_parsing_header_serial(window_size) {
+                DivansResult::Success => {},
+                failure => return failure,
+            }
         }
         if *input_offset < input.len() {
             return self.decode(input, input_offset, output, output_offset);
@@ -447,6 +475,7 @@ pub trait DivansDecompressorFactory<
                                                 m8:Some(m8), mcdf16:Some(mcdf16), mcommand:Some(mc),
                                                 skip_crc:skip_crc,
                                                 multithread:multithread,
+                                                failure:None,
         })
     }
 }
diff --git a/src/parallel_decompressor.rs b/src/parallel_decompressor.rs
index 11b484e..83435fd 100755
--- a/src/parallel_decompressor.rs
+++ b/src/parallel_decompressor.rs
@@ -54,6 +54,7 @@ pub struct ParallelDivansProcess<DefaultDecoder: ArithmeticEncoderOrDecoder + Ne
                                                Mux<AllocU8>>>,
     bytes_encoded: usize,
     mcommand: AllocCommand,
+    failure: Option<ErrMsg>, // a stream that failed to decode stays failed
 }
 
 
@@ -153,6 +154,7 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
             literal_decoder:Some(main_thread_codec),
             bytes_encoded:0,
             worker: HangUpOnDrop(multi_worker),
+            failure: None,
         }
     }
     pub fn free_ref(&mut self) {
@@ -190,6 +192,20 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
               input_offset:&mut usize,
               output:&mut [u8],
               output_offset: &mut usize) -> DivansResult {
+        if let Some(e) = self.failure {
+            return DivansResult::Failure(e);
+        }
+        let ret = self.decode_unless_failed(input, input_offset, output, output_offset);
+        if let DivansResult::Failure(e) = ret {
+            self.failure = Some(e);
+        }
+        ret
+    }
+    fn decode_unless_failed(&mut self,
+              input:&[u8],
+              input_offset:&mut usize,
+              output:&mut [u8],
+              output_offset: &mut usize) -> DivansResult {
         let old_output_offset = *output_offset;
         if let Some(literal_decoder) =  self.literal_decoder.as_mut() {
             loop {
-- 
2.43.0


From c650bba913feb54db36a05722b7dfa5ee4eb48df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 10/27] fix: a panic in the decoder's worker thread reaches the
 caller as a failure instead of a deadlock

---
 src/multithreading.rs        | 57 ++++++++++++++++++++----------------
 src/parallel_decompressor.rs | 22 +++++++++++---
 2 files changed, 49 insertions(+), 30 deletions(-)

diff --git a/src/multithreading.rs b/src/multithreading.rs
index 61eecf8..e560f43 100755
--- a/src/multithreading.rs
+++ b/src/multithreading.rs
@@ -1,7 +1,7 @@
 #![cfg(feature="std")]
 use core;
 
-use std::sync::{Arc, Mutex, Condvar};
+use std::sync::{Arc, Mutex, Condvar, LockResult};
 use threading::{SerialWorker, MainToThread, ThreadToMain, CommandResult, ThreadData, NUM_SERIAL_COMMANDS_BUFFERED, NUM_DATA_BUFFERED,};
 use slice_util::{AllocatedMemoryRange, AllocatedMemoryPrefix};
 use alloc::{Allocator, SliceWrapper, SliceWrapperMut};
@@ -15,6 +15,13 @@ const MAX_LOG_SIZE: usize = 8192;
 #[cfg(not(feature="threadlog"))]
 const MAX_LOG_SIZE: usize = 0;
 
+// A panic on the other side is reported through the worker's error: the lock itself stays usable.
+pub fn unpoisoned<T>(result: LockResult<T>) -> T {
+    match result {
+        Ok(guard) => guard,
+        Err(poisoned) => poisoned.into_inner(),
+    }
+}
 
 pub struct MultiWorker<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> {
     start: SystemTime,
@@ -125,7 +132,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> MultiWorker<A
     fn broadcast_err_internal(&mut self, err: ErrMsg, _thread_event_type: ThreadEventType) {
         let _elapsed = unguarded_debug_time!(self);
         let &(ref lock, ref cvar) = &*self.queue;
-        let mut worker = lock.lock().unwrap();
+        let mut worker = unpoisoned(lock.lock());
         if worker.waiters != 0 {
             cvar.notify_one();
         }
@@ -136,14 +143,12 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> MultiWorker<A
     // the reason the other side gave for stopping, if it did
     pub fn pending_err(&self) -> Option<ErrMsg> {
         let &(ref lock, _) = &*self.queue;
-        match lock.lock() {
-            Ok(worker) => worker.err,
-            Err(_) => Some(ErrMsg::UnexpectedEof), // the other side panicked
-        }
+        let worker = unpoisoned(lock.lock());
+        worker.err
     }
     pub fn free(&mut self, m8: &mut RepurposingAlloc<u8, AllocU8>, mcommand: &mut AllocCommand) {
         let &(ref lock, ref cvar) = &*self.queue;
-        let mut worker = lock.lock().unwrap();
+        let mut worker = unpoisoned(lock.lock());
         if worker.waiters != 0 {
             worker.broadcast_err_internal(ErrMsg::UnexpectedEof);
             cvar.notify_one();
@@ -169,7 +174,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> MainToThread<
         loop { // FIXME: should this loop forever? We should never run out of context map room
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
-            let mut worker = lock.lock().unwrap();
+            let mut worker = unpoisoned(lock.lock());
             if worker.cm_space_ready() {
                 thread_debug!(ThreadEventType::M_PUSH_CONTEXT_MAP, 1, self, _elapsed);
                 if worker.waiters != 0 {
@@ -180,7 +185,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> MainToThread<
                 thread_debug!(ThreadEventType::M_WAIT_PUSH_CONTEXT_MAP, 0, self, _elapsed);
                 worker.waiters += 1;
                 let _ign = cvar.wait(worker); // always safe to loop around again
-                _ign.unwrap().waiters -= 1;
+                unpoisoned(_ign).waiters -= 1;
             }
         }
     }
@@ -189,7 +194,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> MainToThread<
         let _elapsed = unguarded_debug_time!(self);
         let _len = data.len();
         let &(ref lock, ref cvar) = &*self.queue;
-        let mut worker = lock.lock().unwrap();
+        let mut worker = unpoisoned(lock.lock());
         match worker.push(data) {
             Ok(()) => {
                 thread_debug!(ThreadEventType::M_PUSH_DATA, _len, self, _elapsed);
@@ -217,7 +222,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> MainToThread<
         loop {
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
-            let mut worker = lock.lock().unwrap();
+            let mut worker = unpoisoned(lock.lock());
             if worker.result_ready() {
                 if worker.waiters != 0 {
                     cvar.notify_one(); // FIXME: do we want to signal here?
@@ -229,7 +234,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> MainToThread<
                 thread_debug!(ThreadEventType::M_WAIT_PULL_COMMAND_RESULT, 0, self, _elapsed);
                 worker.waiters += 1;
                 let _ign = cvar.wait(worker);
-                _ign.unwrap().waiters -= 1;
+                unpoisoned(_ign).waiters -= 1;
                 //return CommandResult::ProcessedData(AllocatedMemoryRange::<u8, AllocU8>::default()); // FIXME: busy wait
             } else {
                 return CommandResult::Err(worker.err.unwrap());
@@ -239,7 +244,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> MainToThread<
     #[inline(always)]
     fn close(&mut self) {
         let &(ref lock, ref cvar) = &*self.queue;
-        let mut worker = lock.lock().unwrap();
+        let mut worker = unpoisoned(lock.lock());
         if worker.waiters != 0 {
             cvar.notify_one();
         }
@@ -259,7 +264,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
         loop {
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
-            let mut worker = lock.lock().unwrap();
+            let mut worker = unpoisoned(lock.lock());
             if worker.data_ready() || worker.err.is_some() {
                 let ret = worker.pull_data();
                 thread_debug!(ThreadEventType::W_PULL_DATA, match ret {ThreadData::Data(ref d) => d.len(), ThreadData::Yield => 0, ThreadData::Eof=> 99999999,}, self, _elapsed);
@@ -275,7 +280,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
                 thread_debug!(ThreadEventType::W_WAIT_PULL_DATA, 0, self, _elapsed);
                 worker.waiters += 1;
                 let _ign = cvar.wait(worker);
-                _ign.unwrap().waiters -= 1;
+                unpoisoned(_ign).waiters -= 1;
             }
         }
     }
@@ -285,7 +290,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
         loop {
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
-            let mut worker = lock.lock().unwrap();
+            let mut worker = unpoisoned(lock.lock());
             if worker.cm_ready() || worker.err.is_some() {
                 if worker.waiters != 0 {
                     cvar.notify_one();
@@ -296,7 +301,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
                 thread_debug!(ThreadEventType::W_WAIT_PULL_CONTEXT_MAP, 0, self, _elapsed);
                 worker.waiters += 1;
                 let _ign = cvar.wait(worker);
-                _ign.unwrap().waiters -= 1;
+                unpoisoned(_ign).waiters -= 1;
             }
         }
     }
@@ -313,7 +318,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
         loop {
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
-            let mut worker = lock.lock().unwrap();
+            let mut worker = unpoisoned(lock.lock());
             if worker.result_space_ready() || worker.err.is_some() {
                 thread_debug!(ThreadEventType::W_PUSH_CMD, 1, self, _elapsed);
                 if worker.waiters != 0 {
@@ -324,7 +329,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
                 thread_debug!(ThreadEventType::W_WAIT_PUSH_CMD, 0, self, _elapsed);
                 worker.waiters += 1;
                 let _ign = cvar.wait(worker);
-                _ign.unwrap().waiters -= 1;
+                unpoisoned(_ign).waiters -= 1;
             }
         }
     }
@@ -337,7 +342,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
         loop {
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
-            let mut worker = lock.lock().unwrap();
+            let mut worker = unpoisoned(lock.lock());
             if worker.result_space_ready() || worker.err.is_some() {
                 if worker.waiters != 0 {
                     cvar.notify_one();
@@ -348,7 +353,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
                 thread_debug!(ThreadEventType::W_WAIT_PUSH_CONSUMED_DATA, 0, self, _elapsed);
                 worker.waiters += 1;
                 let _ign = cvar.wait(worker);
-                _ign.unwrap().waiters -= 1;
+                unpoisoned(_ign).waiters -= 1;
             }
         }
     }
@@ -358,7 +363,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
         loop {
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
-            let mut worker = lock.lock().unwrap();
+            let mut worker = unpoisoned(lock.lock());
             if worker.result_space_ready() || worker.err.is_some() {
                 if worker.waiters != 0 {
                     cvar.notify_one();
@@ -369,7 +374,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
                 thread_debug!(ThreadEventType::W_WAIT_PUSH_EOF, 1, self, _elapsed);
                 worker.waiters += 1;
                 let _ign = cvar.wait(worker);
-                _ign.unwrap().waiters -=1;
+                unpoisoned(_ign).waiters -=1;
             }
         }
     }
@@ -410,7 +415,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> BufferedMulti
         loop {
             let _elapsed = unguarded_debug_time!(self.worker);
             let &(ref lock, ref cvar) = &*self.worker.queue;
-            let mut worker = lock.lock().unwrap();
+            let mut worker = unpoisoned(lock.lock());
             let mut did_notify = false;
             if data.0.len() != 0 { // before we get to sending commands, lets make sure data is taken care of
                 match worker.push_consumed_data(data, None) {
@@ -421,7 +426,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> BufferedMulti
                         thread_debug!(ThreadEventType::W_WAIT_PUSH_CONSUMED_DATA, data.0.len(), self.worker, _elapsed);
                         worker.waiters += 1;
                         let _ign = cvar.wait(worker);
-                        _ign.unwrap().waiters -= 1;
+                        unpoisoned(_ign).waiters -= 1;
                         continue;
                     }
                     DivansOutputResult::Failure(e) => {
@@ -451,7 +456,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> BufferedMulti
                 thread_debug!(ThreadEventType::W_WAIT_PUSH_CMD, self.buffer.1, self.worker, _elapsed);
                 worker.waiters += 1;
                 let _ign = cvar.wait(worker);
-                _ign.unwrap().waiters -= 1;
+                unpoisoned(_ign).waiters -= 1;
             } else {
                 return DivansOpResult::Failure(worker.err.unwrap());
             }
diff --git a/src/parallel_decompressor.rs b/src/parallel_decompressor.rs
index 83435fd..0c04754 100755
--- a/src/parallel_decompressor.rs
+++ b/src/parallel_decompressor.rs
@@ -10,7 +10,7 @@ use divans_decompressor::HeaderParser;
 use super::mux::{Mux,DevNull};
 use codec::decoder::{DecoderResult, DivansDecoderCodec};
 use threading::{ThreadToMainDemuxer, ThreadToMain, MainToThread};
-use multithreading::{BufferedMultiWorker, MultiWorker};
+use multithreading::{BufferedMultiWorker, MultiWorker, unpoisoned};
 
 use ::interface::{DivansResult, DivansInputResult, ErrMsg};
 use ::ArithmeticEncoderOrDecoder;
@@ -33,6 +33,18 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> Drop for Hang
     }
 }
 
+// Tells the main thread, which otherwise would wait forever for the next
+// command, that the worker panicked.
+struct BroadcastOnPanic<AllocU8:Allocator<u8>,
+                        AllocCommand:Allocator<StaticCommand>>(MultiWorker<AllocU8, AllocCommand>);
+impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> Drop for BroadcastOnPanic<AllocU8, AllocCommand> {
+    fn drop(&mut self) {
+        if thread::panicking() {
+            <MultiWorker<AllocU8, AllocCommand> as ThreadToMain<AllocU8>>::broadcast_err(&mut self.0, ErrMsg::WrongInternalDecoderState);
+        }
+    }
+}
+
 pub struct ParallelDivansProcess<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8>,
                                  AllocU8:Allocator<u8>,
                                  AllocCDF16:Allocator<interface::DefaultCDF16>,
@@ -117,8 +129,10 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
         let multi_worker = (codec.demuxer().worker).worker.clone();
         let thread_codec = Arc::new(Mutex::new(Some(codec)));
         let worker_codec = thread_codec.clone();
+        let panic_broadcast = BroadcastOnPanic(multi_worker.clone());
         thread::spawn(move || {
-            let mut guard = thread_codec.lock().unwrap();
+            let _panic_broadcast = panic_broadcast;
+            let mut guard = unpoisoned(thread_codec.lock());
             if let Some(ref mut process_codec) = *guard {
                 let mut unused_out = 0usize;
                 let mut unused_in = 0usize;
@@ -159,7 +173,7 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
     }
     pub fn free_ref(&mut self) {
         self.worker.hang_up(); // in case we still have a worker holding the lock, not done
-        if let Some(ref mut codec) = *self.codec.lock().unwrap() {
+        if let Some(ref mut codec) = *unpoisoned(self.codec.lock()) {
             let lit_decoder = core::mem::replace(&mut self.literal_decoder, None);
             if let Some(ld) = lit_decoder {
                 codec.join(ld, &mut self.mcommand);
@@ -172,7 +186,7 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
     pub fn free(mut self) -> (AllocU8, AllocCDF16, AllocCommand) {
         use codec::NUM_ARITHMETIC_CODERS;
         self.worker.hang_up(); // in case we still have a worker holding the lock, not done
-        if let Some(mut codec) = core::mem::replace(&mut *self.codec.lock().unwrap(), None) {
+        if let Some(mut codec) = core::mem::replace(&mut *unpoisoned(self.codec.lock()), None) {
             let lit_decoder = core::mem::replace(&mut self.literal_decoder, None);
             if let Some(ld) = lit_decoder {
                 codec.join(ld, &mut self.mcommand);
-- 
2.43.0


From 216576cfcacbb372530a6b39b4a5540b4d7d8735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 11/27] fix: the Read adaptors survive errors of the reader
 under them and end only where the stream does

A read error made the adaptor treat its input as finished: pending output was
dropped and the next read reported a clean end of file. A truncated stream
could also end cleanly when its last bytes were used up without output, bytes
after the end of a compressed stream made read() loop forever, and so did an
empty destination buffer.
---
 src/reader.rs | 115 +++++++++++++++++++++++---------------------------
 1 file changed, 53 insertions(+), 62 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index a1149e1..ccec694 100755
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -36,7 +36,8 @@ struct GenReader<R: Read,
   input_offset: usize,
   input_len: usize,
   input_eof: bool,
-  has_flushed: bool,
+  needs_flush: bool,
+  finished: bool,
   input: R,
   read_error: Option<io::Error>,
 }
@@ -44,67 +45,56 @@ struct GenReader<R: Read,
 
 impl<R:Read, P:Processor, BufferType:SliceWrapperMut<u8>> Read for GenReader<R,P,BufferType> {
 	fn read(&mut self, buf: &mut [u8]) -> Result<usize, io::Error> {
-        let mut output_offset : usize = 0;
-        let mut avail_out = buf.len() - output_offset;
-        let mut avail_in = self.input_len - self.input_offset;
-        let mut needs_input = false;
-        while avail_out == buf.len() && (!needs_input || !self.input_eof) {
-           if self.input_len < self.input_buffer.slice_mut().len() && !self.input_eof {
-               match self.input.read(&mut self.input_buffer.slice_mut()[self.input_len..]) {
-                   Err(e) => {
-                       if let io::ErrorKind::Interrupted = e.kind() {
-                          continue;
-                       }
-                       self.read_error = Some(e);
-                       self.input_eof = true;
-                   },
-                   Ok(size) => if size == 0 {
-                       self.input_eof = true;
-                   } else {
-                       needs_input = false;
-                       self.input_len += size;
-                       avail_in = self.input_len - self.input_offset;
-                   },
-               }
-           }
-           let old_output_offset = output_offset;
-           let old_input_offset = self.input_offset;
-           let ret = if avail_in == 0 {
-               self.has_flushed = true;
-               DivansResult::from(self.compressor.close(
-                   buf.split_at_mut(output_offset + avail_out).0,
-                   &mut output_offset))
-           } else {
-               self.compressor.process(
-                   self.input_buffer.slice_mut().split_at_mut(self.input_offset + avail_in).0,
-                   &mut self.input_offset,
-                   buf.split_at_mut(output_offset + avail_out).0,
-                   &mut output_offset)
-           };
-           avail_in -= self.input_offset - old_input_offset;
-           avail_out -= output_offset - old_output_offset;
-           if avail_in == 0 {
-             match self.read_error.take() {
-               Some(err) => return Err(err),
-               None => {
-                 needs_input = true;
-                 self.copy_to_front();
-               },
-             }
-           }
-           match ret {
-               DivansResult::Failure(m) => {
-                   return Err(io::Error::new(io::ErrorKind::InvalidData, m));
-               },
-             DivansResult::Success => {
-               if self.input_eof && avail_in == 0 && self.has_flushed {
-                 break;
-               }
-             },
-             DivansResult::NeedsMoreInput | DivansResult::NeedsMoreOutput => {},
-           }
+        if buf.len() == 0 {
+            return Ok(0);
         }
-        Ok(output_offset)
+        while !self.finished {
+            if self.input_len < self.input_buffer.slice_mut().len() && !self.input_eof && self.read_error.is_none() {
+                match self.input.read(&mut self.input_buffer.slice_mut()[self.input_len..]) {
+                    Err(e) => {
+                        if let io::ErrorKind::Interrupted = e.kind() {
+                            continue;
+                        }
+                        self.read_error = Some(e); // reported once what was read before it is used up
+                    },
+                    Ok(size) => if size == 0 {
+                        self.input_eof = true;
+                    } else {
+                        self.input_len += size;
+                    },
+                }
+            }
+            let mut output_offset : usize = 0;
+            let closing = self.input_offset == self.input_len;
+            let ret = if closing {
+                if let Some(err) = self.read_error.take() {
+                    return Err(err);
+                }
+                DivansResult::from(self.compressor.close(buf, &mut output_offset))
+            } else {
+                self.compressor.process(
+                    self.input_buffer.slice_mut().split_at_mut(self.input_len).0,
+                    &mut self.input_offset,
+                    buf,
+                    &mut output_offset)
+            };
+            if self.input_offset == self.input_len {
+                self.copy_to_front();
+            }
+            match ret {
+                DivansResult::Failure(m) => {
+                    return Err(io::Error::new(io::ErrorKind::InvalidData, m));
+                },
+                DivansResult::Success => if closing || !self.needs_flush {
+                    self.finished = true;
+                },
+                DivansResult::NeedsMoreInput | DivansResult::NeedsMoreOutput => {},
+            }
+            if output_offset != 0 {
+                return Ok(output_offset);
+            }
+        }
+        Ok(0)
     }
 }
 impl<R:Read, C:Processor, BufferType:SliceWrapperMut<u8>> GenReader<R,C,BufferType>{
@@ -116,7 +106,8 @@ impl<R:Read, C:Processor, BufferType:SliceWrapperMut<u8>> GenReader<R,C,BufferTy
             input_offset : 0,
             input_len : 0,
             input_eof : false,
-            has_flushed: !needs_flush,
+            needs_flush: needs_flush,
+            finished: false,
             read_error: None,
         }
     }
-- 
2.43.0


From 5c2e4e7c4816af3fc1dbb08abe44ccb4da6c42e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 12/27] fix: the Write adaptors keep output the writer
 underneath refused, and refuse input after the stream has ended

An error of the writer underneath dropped the compressed or decompressed bytes
it did not take, so a retry or a later flush() succeeded with a corrupt stream;
data written after flush() vanished without an error.
---
 src/writer.rs | 78 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 48 insertions(+), 30 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 7806913..af5e8a6 100755
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -22,6 +22,9 @@ struct GenWriter<W: Write,
                  BufferType:SliceWrapperMut<u8>> {
   compressor: P,
   output_buffer: BufferType,
+  pending_start: usize, // output the writer underneath has not taken yet
+  pending_end: usize,
+  needs_flush: bool,
   has_flushed: bool,
   output: W,
 }
@@ -29,55 +32,52 @@ struct GenWriter<W: Write,
 
 impl<W:Write, P:Processor, BufferType:SliceWrapperMut<u8>> Write for GenWriter<W,P,BufferType> {
     fn write(&mut self, buf: &[u8]) -> Result<usize, io::Error> {
-        let mut avail_in = buf.len();
+        self.drain()?;
+        if self.needs_flush && self.has_flushed && buf.len() != 0 {
+            // the compressed stream has ended: what is written now could not be read back
+            return Err(io::Error::new(io::ErrorKind::InvalidInput, ErrMsg::NotAllowedToEncodeAfterFlush));
+        }
         let mut input_offset : usize = 0;
         loop {
-            let mut output_offset = 0;
-            let old_input_offset = input_offset;
             let op_result = self.compressor.process(
-                &buf.split_at(avail_in + input_offset).0,
+                buf,
                 &mut input_offset,
                 self.output_buffer.slice_mut(),
-                &mut output_offset);
-            avail_in -= input_offset - old_input_offset;
-            match self.output.write_all(&self.output_buffer.slice_mut()[..output_offset]) {
-                Ok(_) => {},
-                Err(e) => return Err(e),
+                &mut self.pending_end);
+            if let Err(e) = self.drain() {
+                if input_offset == 0 {
+                    return Err(e);
+                }
+                return Ok(input_offset); // the next call tries again to pass on what is pending
             }
             match op_result {
-                DivansResult::NeedsMoreInput => if avail_in != 0 {
-                    return Err(io::Error::new(
-                        io::ErrorKind::UnexpectedEof,
-                        ErrMsg::TrailingInput(core::cmp::min(avail_in, 255) as u8)));
+                DivansResult::NeedsMoreInput => {
+                    let avail_in = buf.len() - input_offset;
+                    if avail_in != 0 {
+                        return Err(io::Error::new(
+                            io::ErrorKind::UnexpectedEof,
+                            ErrMsg::TrailingInput(core::cmp::min(avail_in, 255) as u8)));
+                    }
+                    return Ok(buf.len());
                 },
                 DivansResult::NeedsMoreOutput => continue,
                 DivansResult::Success => return Ok(buf.len()),
                 DivansResult::Failure(m) => return Err(io::Error::new(io::ErrorKind::InvalidInput, m)),
             }
-            if avail_in == 0 {
-                break
-            }
         }
-        Ok(buf.len())
     }
     fn flush(&mut self) -> Result<(), io::Error> {
+        self.drain()?;
         while !self.has_flushed {
-            let mut output_offset = 0;
             let ret = self.compressor.close(
                 self.output_buffer.slice_mut(),
-                &mut output_offset);
-            match self.output.write_all(&self.output_buffer.slice_mut()[..output_offset]) {
-                Ok(_) => {},
-                Err(e) => return Err(e),
+                &mut self.pending_end);
+            if let DivansOutputResult::Success = ret {
+                self.has_flushed = true;
             }
-            match ret {
-                DivansOutputResult::Failure(m) => {
-                    return Err(io::Error::new(io::ErrorKind::InvalidInput, m))
-                }
-                DivansOutputResult::NeedsMoreOutput => {},
-                DivansOutputResult::Success => {
-                    self.has_flushed = true;
-                }
+            self.drain()?;
+            if let DivansOutputResult::Failure(m) = ret {
+                return Err(io::Error::new(io::ErrorKind::InvalidInput, m))
             }
         }
         self.output.flush()
@@ -89,9 +89,27 @@ impl<W:Write, C:Processor, BufferType:SliceWrapperMut<u8>> GenWriter<W,C,BufferT
             output:writer,
             compressor:compressor,
             output_buffer: buffer,
+            pending_start: 0,
+            pending_end: 0,
+            needs_flush: needs_flush,
             has_flushed: !needs_flush,
         }
     }
+    // passes on everything in the output buffer; what could not be passed on stays there
+    fn drain(&mut self) -> Result<(), io::Error> {
+        while self.pending_start != self.pending_end {
+            match self.output.write(&self.output_buffer.slice_mut()[self.pending_start..self.pending_end]) {
+                Ok(0) => return Err(io::Error::new(io::ErrorKind::WriteZero, "failed to write whole buffer")),
+                Ok(size) => self.pending_start += size,
+                Err(e) => if e.kind() != io::ErrorKind::Interrupted {
+                    return Err(e);
+                },
+            }
+        }
+        self.pending_start = 0;
+        self.pending_end = 0;
+        Ok(())
+    }
 }
 type DivansBrotliFactory = ::BrotliDivansHybridCompressorFactory<HeapAlloc<u8>,
 //                                                         HeapAlloc<u32>,
-- 
2.43.0


From 4841d7d85d987fcc21da8c4163a67bd91ba9c710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 13/27] fix: give back the input buffer a decoder holds when it
 is freed

free_demux handed the buffer to the worker interface after that had been
freed, and then freed an empty one.
---
 src/threading.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/threading.rs b/src/threading.rs
index 8c7f227..d4f2271 100755
--- a/src/threading.rs
+++ b/src/threading.rs
@@ -376,10 +376,9 @@ impl<AllocU8:Allocator<u8>, WorkerInterface:ThreadToMain<AllocU8>> StreamDemuxer
     }
     #[inline(always)]
     fn free_demux(&mut self, m8: &mut AllocU8){
-        if self.slice.0.slice().len() != 0 {
-            self.worker.push_consumed_data(&mut self.slice, None);
-            m8.free_cell(core::mem::replace(&mut self.slice.0, AllocU8::AllocatedMemory::default()));
-        }
+        // nobody is left to collect the buffer from the worker interface
+        self.slice.1 = 0..0;
+        m8.free_cell(core::mem::replace(&mut self.slice.0, AllocU8::AllocatedMemory::default()));
     }
 }
 
-- 
2.43.0


From c0d4750625ac044e7480b0678e53bb6ed3f2e81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 14/27] fix: free the command a codec was about to hand on when
 it is freed

---
 src/codec/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/codec/mod.rs b/src/codec/mod.rs
index 00fd7fb..9f86f7d 100755
--- a/src/codec/mod.rs
+++ b/src/codec/mod.rs
@@ -327,6 +327,8 @@ impl<AllocU8: Allocator<u8>,
                                LiteralCommand::<AllocatedMemoryPrefix<u8, AllocU8>>::nop()).data);
 
         self.state_prediction_mode.free(self.cross_command_state.thread_ctx.m8().unwrap());
+        free_cmd(&mut self.state_populate_ring_buffer,
+                 &mut self.cross_command_state.thread_ctx.m8().unwrap().use_cached_allocation::<UninitializedOnAlloc>());
         self.cross_command_state.free_ref()
     }
     #[inline(always)]
-- 
2.43.0


From a40fd12efcf350424e74de6bb584470c0055e9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 15/27] fix: free a context map the decoder rejects

---
 src/codec/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/codec/decoder.rs b/src/codec/decoder.rs
index 896b7a0..389b67e 100644
--- a/src/codec/decoder.rs
+++ b/src/codec/decoder.rs
@@ -399,7 +399,11 @@ impl<Cdf16:CDF16,
                             &mut self.ctx.mcdf16);
                         match ret {
                             DivansOpResult::Success => {},
-                            _ => return DecoderResult::Processed(DivansResult::from(ret)),
+                            _ => {
+                                free_cmd(&mut Command::PredictionMode(pred_mode),
+                                         &mut self.ctx.m8.use_cached_allocation::<UninitializedOnAlloc>());
+                                return DecoderResult::Processed(DivansResult::from(ret));
+                            },
                         }
                         self.codec_traits = construct_codec_trait_from_bookkeeping(&self.ctx.lbk);
                         match worker.push_context_map(pred_mode) {
-- 
2.43.0


From ed93a9143d03bb09f21bfcabd1d9a0dd38d46fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 16/27] fix: a flush of the write adaptors passes on output a
 failed write left in the decoder

---
 src/writer.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index af5e8a6..3cad5ae 100755
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -24,6 +24,7 @@ struct GenWriter<W: Write,
   output_buffer: BufferType,
   pending_start: usize, // output the writer underneath has not taken yet
   pending_end: usize,
+  more_output: bool, // the compressor has output its last call had no room for
   needs_flush: bool,
   has_flushed: bool,
   output: W,
@@ -44,6 +45,7 @@ impl<W:Write, P:Processor, BufferType:SliceWrapperMut<u8>> Write for GenWriter<W
                 &mut input_offset,
                 self.output_buffer.slice_mut(),
                 &mut self.pending_end);
+            self.more_output = if let DivansResult::NeedsMoreOutput = op_result {true} else {false};
             if let Err(e) = self.drain() {
                 if input_offset == 0 {
                     return Err(e);
@@ -68,6 +70,19 @@ impl<W:Write, P:Processor, BufferType:SliceWrapperMut<u8>> Write for GenWriter<W
     }
     fn flush(&mut self) -> Result<(), io::Error> {
         self.drain()?;
+        while self.more_output {
+            // the writer underneath failed before all output could be passed on
+            let ret = self.compressor.process(
+                &[],
+                &mut 0,
+                self.output_buffer.slice_mut(),
+                &mut self.pending_end);
+            if let DivansResult::Failure(m) = ret {
+                return Err(io::Error::new(io::ErrorKind::InvalidInput, m));
+            }
+            self.more_output = if let DivansResult::NeedsMoreOutput = ret {true} else {false};
+            self.drain()?;
+        }
         while !self.has_flushed {
             let ret = self.compressor.close(
                 self.output_buffer.slice_mut(),
@@ -91,6 +106,7 @@ impl<W:Write, C:Processor, BufferType:SliceWrapperMut<u8>> GenWriter<W,C,BufferT
             output_buffer: buffer,
             pending_start: 0,
             pending_end: 0,
+            more_output: false,
             needs_flush: needs_flush,
             has_flushed: !needs_flush,
         }
-- 
2.43.0


From e517281a21522bb6db827d7bc2dc3fc21267057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:43 +0000
Subject: [PATCH 17/27] fix: stop when the output takes nothing instead of
 offering it again for ever

---
 src/bin/divans.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/bin/divans.rs b/src/bin/divans.rs
index cf2f306..7615134 100644
--- a/src/bin/divans.rs
+++ b/src/bin/divans.rs
@@ -769,6 +769,11 @@ fn compress_raw_inner<Compressor: divans::interface::Compressor,
         }
         while oenc_index != olim {
             match w.write(&obuffer.slice()[oenc_index..olim]) {
+                Ok(0) => {
+                    err = Err(io::Error::new(io::ErrorKind::WriteZero,
+                                             "failed to write the whole output"));
+                    break;
+                },
                 Ok(count) => oenc_index += count,
                 Err(e) => {
                     if e.kind() == io::ErrorKind::Interrupted {
@@ -805,6 +810,13 @@ fn compress_raw_inner<Compressor: divans::interface::Compressor,
         }
         while oenc_index != olim {
             match w.write(&obuffer.slice()[oenc_index..olim]) {
+                Ok(0) => {
+                    let mut m8 = free_state(compress_state);
+                    m8.free_cell(ibuffer);
+                    m8.free_cell(obuffer);
+                    return Err(io::Error::new(io::ErrorKind::WriteZero,
+                                              "failed to write the whole output"));
+                },
                 Ok(count) => oenc_index += count,
                 Err(e) => {
                     if e.kind() == io::ErrorKind::Interrupted {
@@ -1039,6 +1051,10 @@ fn decompress_generic<Reader:std::io::Read,
                 while output_written != output_offset {
                     // flush buffer, if any
                     match w.write(obuffer[..].split_at(output_written).1.split_at(output_offset - output_written).0) {
+                        Ok(0) => {
+                            return Err(io::Error::new(io::ErrorKind::WriteZero,
+                                                      "failed to write the whole output"));
+                        },
                         Ok(count) => output_written += count,
                         Err(e) => {
                             if e.kind() == io::ErrorKind::Interrupted {
@@ -1093,6 +1109,10 @@ fn decompress_generic<Reader:std::io::Read,
     while output_written != output_offset {
         // flush buffer, if any
         match w.write(obuffer[..].split_at(output_written).1.split_at(output_offset - output_written).0) {
+            Ok(0) => {
+                return Err(io::Error::new(io::ErrorKind::WriteZero,
+                                          "failed to write the whole output"));
+            },
             Ok(count) => output_written += count,
             Err(e) => {
                 if e.kind() == io::ErrorKind::Interrupted {
-- 
2.43.0


From 13826afd1eebc7e0645cc1dc9bda783eb86a170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:43 +0000
Subject: [PATCH 18/27] fix: report an error that leaves output in the buffer
 of stdout

---
 src/bin/divans.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bin/divans.rs b/src/bin/divans.rs
index 7615134..9f286c1 100644
--- a/src/bin/divans.rs
+++ b/src/bin/divans.rs
@@ -604,7 +604,7 @@ fn recode_inner<Reader:std::io::BufRead,
         }
     }
 
-    Ok(())
+    w.flush()
 }
 
 fn allowed_command(_cmd: &Command<ItemVec<u8>>, _last_literal_switch: &mut divans::LiteralBlockSwitch) -> bool {
@@ -705,7 +705,7 @@ fn compress_inner<Reader:std::io::BufRead,
             }
         }
     }
-    Ok(())
+    w.flush()
 }
 fn compress_raw_inner<Compressor: divans::interface::Compressor,
                       Reader:std::io::Read,
@@ -835,7 +835,7 @@ fn compress_raw_inner<Compressor: divans::interface::Compressor,
     let mut m8 = free_state(compress_state);
     m8.free_cell(ibuffer);
     m8.free_cell(obuffer);
-    Ok(())
+    w.flush()
 }
 
 
@@ -1122,7 +1122,7 @@ fn decompress_generic<Reader:std::io::Read,
             }
         }
     }
-    Ok(())
+    w.flush()
 }
 
 fn recode<Reader:std::io::BufRead,
-- 
2.43.0


From e57250f8c83014fd110b77653ff2c728bcab8e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 19/27] fix: do not compress the last buffer again when a read
 is interrupted

---
 src/bin/divans.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/divans.rs b/src/bin/divans.rs
index 9f286c1..325468c 100644
--- a/src/bin/divans.rs
+++ b/src/bin/divans.rs
@@ -737,6 +737,7 @@ fn compress_raw_inner<Compressor: divans::interface::Compressor,
         }
         if idec_index == ilim {
             idec_index = 0;
+            ilim = 0; // an interrupted read comes back here
             match r.read(borrowed_ibuffer) {
                 Ok(count) => {
                     ilim = count;
-- 
2.43.0


From 7ef1be36cf333f7c7b2e3a09de02c9536fbbf4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 20/27] fix: no memory for the state gives no state instead of
 a write to address zero

---
 src/ffi/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ffi/mod.rs b/src/ffi/mod.rs
index af84f97..50522db 100755
--- a/src/ffi/mod.rs
+++ b/src/ffi/mod.rs
@@ -43,6 +43,9 @@ pub unsafe extern fn divans_new_compressor_with_custom_alloc(allocators:CAllocat
     };
     if let Some(alloc_fn) = allocators.alloc_func {
         let ptr = alloc_fn(allocators.opaque, core::mem::size_of::<DivansCompressorState>());
+        if ptr.is_null() {
+            return core::ptr::null_mut();
+        }
         let divans_compressor_state_ptr = core::mem::transmute::<*mut c_void, *mut DivansCompressorState>(ptr);
         core::ptr::write(divans_compressor_state_ptr, to_box);
         divans_compressor_state_ptr
@@ -223,6 +226,9 @@ pub unsafe extern fn divans_new_decompressor_with_custom_alloc(allocators:CAlloc
     };
     if let Some(alloc_fn) = allocators.alloc_func {
         let ptr = alloc_fn(allocators.opaque, core::mem::size_of::<DivansDecompressorState>());
+        if ptr.is_null() {
+            return core::ptr::null_mut();
+        }
         let divans_decompressor_state_ptr = core::mem::transmute::<*mut c_void, *mut DivansDecompressorState>(ptr);
         core::ptr::write(divans_decompressor_state_ptr, to_box);
         divans_decompressor_state_ptr
-- 
2.43.0


From ddc7a43094dfbb64780457d6e9fc7137d1417b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 21/27] fix: the C header declares the third parameter of
 divans_new_decompressor_with_custom_alloc

---
 c/divans/ffi.h | 2 +-
 c/example.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/divans/ffi.h b/c/divans/ffi.h
index 8e603b1..fbe93d5 100644
--- a/c/divans/ffi.h
+++ b/c/divans/ffi.h
@@ -58,7 +58,7 @@ void divans_free_compressor(struct DivansCompressorState* mfd);
 
 
 struct DivansDecompressorState* divans_new_decompressor();
-struct DivansDecompressorState* divans_new_decompressor_with_custom_alloc(struct CAllocator alloc, uint8_t skip_crc);
+struct DivansDecompressorState* divans_new_decompressor_with_custom_alloc(struct CAllocator alloc, uint8_t skip_crc, uint8_t multithread);
 DivansResult divans_decode(struct DivansDecompressorState* state,
                            const uint8_t *input_buf_ptr, size_t input_size, size_t*input_offset,
                            uint8_t *output_buf_ptr, size_t output_size, size_t *output_offset);
diff --git a/c/example.c b/c/example.c
index 4c223e7..a559786 100644
--- a/c/example.c
+++ b/c/example.c
@@ -59,7 +59,7 @@ DivansResult compress(const unsigned char *data, size_t len, struct VecU8 *ret_b
 DivansResult decompress(const unsigned char *data, size_t len, struct VecU8 *ret_buffer) {
     unsigned char buf[BUF_SIZE];
     struct CAllocator alloc = {custom_malloc, custom_free, custom_alloc_opaque};
-    struct DivansDecompressorState *state = divans_new_decompressor_with_custom_alloc(alloc, 0);
+    struct DivansDecompressorState *state = divans_new_decompressor_with_custom_alloc(alloc, 0, 1);
     DivansResult res;
     do {
         size_t read_offset = 0;
-- 
2.43.0


From c23d109d41158b4148abd141eaa709f85bad3d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:37 +0000
Subject: [PATCH 22/27] sim: guarded hook: nibbles replaced on their way into
 the stream

---
 src/codec/io.rs  | 13 +++++++++++++
 src/interface.rs |  2 ++
 src/sim_seam.rs  | 21 +++++++++++++++++++++
 3 files changed, 36 insertions(+)

diff --git a/src/codec/io.rs b/src/codec/io.rs
index c7050a3..c0e4a1a 100644
--- a/src/codec/io.rs
+++ b/src/codec/io.rs
@@ -126,6 +126,19 @@ impl<AllocU8:Allocator<u8>, LinearInputBytes:StreamDemuxer<AllocU8>> ThreadToMai
         let tmp_output_offset_bytes = specialization.get_recoder_output_offset(
             output_offset,
             &mut tmp_output_offset_bytes_backing);
+        #[cfg(divans_sim)]
+        {
+            if let Some(ret) = ::std::sim::tolerate(|| recoder.as_mut().unwrap().encode_cmd(cmd, &mut [0; 1 << 16], &mut 0)) {
+                return match ret {
+                    Some(DivansOutputResult::NeedsMoreOutput) => DivansOutputResult::NeedsMoreOutput,
+                    _ => {
+                        free_cmd(cmd, &mut m8.as_mut().unwrap().use_cached_allocation::<
+                            UninitializedOnAlloc>());
+                        DivansOutputResult::Success
+                    },
+                };
+            }
+        }
         let ret = recoder.as_mut().unwrap().encode_cmd(cmd,
                                                        specialization.get_recoder_output(output),
                                                        tmp_output_offset_bytes);
diff --git a/src/interface.rs b/src/interface.rs
index 113c9f0..b5e3cd5 100644
--- a/src/interface.rs
+++ b/src/interface.rs
@@ -412,6 +412,8 @@ pub trait ArithmeticEncoderOrDecoder : Sized {
                                    nibble: &mut u8,
                                    prob: &C,
                                    _billing: BillingDesignation) -> ProbRange {
+        #[cfg(divans_sim)]
+        ::std::sim::recode(nibble, &_billing);
         self.get_or_put_nibble_without_billing(nibble, prob)
     }
 
diff --git a/src/sim_seam.rs b/src/sim_seam.rs
index 1fac3d9..b699d31 100644
--- a/src/sim_seam.rs
+++ b/src/sim_seam.rs
@@ -55,6 +55,27 @@ fn runtime() -> Option<&'static dyn Runtime> {
     *RUNTIME.read().unwrap_or_else(|e| e.into_inner())
 }
 
+/// What a nibble is replaced by, given what it stands for.
+pub type Recode = fn(u8, &dyn std::fmt::Debug) -> u8;
+thread_local!(static RECODE: std::cell::Cell<Option<Recode>> = std::cell::Cell::new(None));
+
+/// From now on the encoders of this thread put `f` of each nibble into the
+/// stream in its place, and carry on as if that had been what they were given.
+pub fn set_recode(f: Option<Recode>) {
+    RECODE.with(|r| r.set(f));
+}
+pub fn recode(nibble: &mut u8, what: &dyn std::fmt::Debug) {
+    if let Some(f) = RECODE.with(|r| r.get()) {
+        *nibble = f(*nibble, what) & 0xf;
+    }
+}
+
+/// While nibbles are being replaced: what `run` gave, None for a panic, of
+/// which an encoder that codes nonsense is to take no notice.
+pub fn tolerate<R>(run: impl FnOnce() -> R) -> Option<Option<R>> {
+    RECODE.with(|r| r.get()).map(|_| std::panic::catch_unwind(std::panic::AssertUnwindSafe(run)).ok())
+}
+
 fn register(slot: &AtomicUsize) -> Option<(&'static dyn Runtime, usize)> {
     let rt = match runtime() {
         Some(rt) => rt,
-- 
2.43.0


From b0dfe0cd231d8681f09167a77b302be43b0925cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:39 +0000
Subject: [PATCH 23/27] fix: compressing with brotli at quality 0 or 1 no
 longer loses the data

---
 src/brotli_ir_gen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brotli_ir_gen.rs b/src/brotli_ir_gen.rs
index 1c8e403..3f0a1d6 100644
--- a/src/brotli_ir_gen.rs
+++ b/src/brotli_ir_gen.rs
@@ -396,7 +396,7 @@ impl<AllocU8:Allocator<u8>,
                                                        opt.lgblock.unwrap_or(18));
         brotli::enc::encode::BrotliEncoderSetParameter(&mut ret.brotli_encoder,
                                                        brotli::enc::encode::BrotliEncoderParameter::BROTLI_PARAM_QUALITY,
-                                                       u32::from(opt.quality.unwrap_or(10)));
+                                                       u32::from(max(2, opt.quality.unwrap_or(10)))); // below that brotli makes a bitstream but no commands
         if opt.q9_5 {
             brotli::enc::encode::BrotliEncoderSetParameter(&mut ret.brotli_encoder,
                                                        brotli::enc::encode::BrotliEncoderParameter::BROTLI_PARAM_Q9_5,
-- 
2.43.0


From ce7b4be0bd5db1ed0e7963e303df4cce4dfe33d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:39 +0000
Subject: [PATCH 24/27] fix: a brotli literal byte score of 2080 or more no
 longer corrupts the data

---
 src/brotli_ir_gen.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/brotli_ir_gen.rs b/src/brotli_ir_gen.rs
index 3f0a1d6..97d2c03 100644
--- a/src/brotli_ir_gen.rs
+++ b/src/brotli_ir_gen.rs
@@ -34,6 +34,10 @@ use super::interface::{DivansOutputResult, DivansResult, ErrMsg};
 use super::brotli::enc::encode::{BrotliEncoderStateStruct, BrotliEncoderCompressStream, BrotliEncoderOperation, BrotliEncoderIsFinished};
 use super::brotli::enc::backward_references::BrotliEncoderMode;
 use super::divans_compressor::write_header;
+
+// beyond this brotli finds a single byte of a dictionary word worth a command, which has no code for that length
+const MAX_LITERAL_BYTE_SCORE: u32 = 2079;
+
 pub struct BrotliDivansHybridCompressor<SelectedCDF:CDF16,
                             ChosenEncoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8>,
                             AllocU8:Allocator<u8>,
@@ -414,7 +418,7 @@ impl<AllocU8:Allocator<u8>,
         if let Some(literal_byte_score) = opt.brotli_literal_byte_score {
             brotli::enc::encode::BrotliEncoderSetParameter(&mut ret.brotli_encoder,
                                                            brotli::enc::encode::BrotliEncoderParameter::BROTLI_PARAM_LITERAL_BYTE_SCORE,
-                                                           literal_byte_score);
+                                                           min(literal_byte_score, MAX_LITERAL_BYTE_SCORE));
         }
         
         brotli::enc::encode::BrotliEncoderSetParameter(&mut ret.brotli_encoder,
-- 
2.43.0


From 0288c903c3c0558d45658d1124df70fccebff7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:39 +0000
Subject: [PATCH 25/27] fix: a prior depth of 16 or more no longer makes a
 stream that cannot be decoded

---
 src/codec/interface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/interface.rs b/src/codec/interface.rs
index 79fd45c..400b091 100644
--- a/src/codec/interface.rs
+++ b/src/codec/interface.rs
@@ -365,7 +365,7 @@ impl<
             },
         }
         CrossCommandBookKeeping{
-            desired_prior_depth:prior_depth,
+            desired_prior_depth:core::cmp::min(prior_depth, 15), // a nibble in the bitstream
             desired_literal_adaptation: literal_adaptation_speed,
             desired_context_mixing:dynamic_context_mixing,
             last_dlen: 1,
-- 
2.43.0


From 4ece0bb2f9bf3a6a09b4593ec52b32aff085c726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:39 +0000
Subject: [PATCH 26/27] fix: a dynamic context mixing of 8 or more no longer
 aborts the process or the decompression

---
 src/codec/interface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/interface.rs b/src/codec/interface.rs
index 400b091..f8bcd43 100644
--- a/src/codec/interface.rs
+++ b/src/codec/interface.rs
@@ -357,7 +357,7 @@ impl<
            literal_adaptation_speed:Option<[Speed;4]>,
            do_context_map: bool,
            force_stride: StrideSelection) -> Self {
-        assert!(dynamic_context_mixing < 15); // leaves room for expansion
+        dynamic_context_mixing = core::cmp::min(dynamic_context_mixing, 7); // has three bits in the bitstream
         match force_stride {
             StrideSelection::PriorDisabled => {},
             _ => if dynamic_context_mixing == 0 && do_context_map {
-- 
2.43.0


From ddfb67667d63ff9184fda5c5f31f42f3dbb3d278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:06 +0000
Subject: [PATCH 27/27] fix: a build with blending probabilities no longer
 divides by zero when a symbol is as rare as it can be

---
 src/probability/blend_cdf.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/probability/blend_cdf.rs b/src/probability/blend_cdf.rs
index 6d04db9..503f400 100644
--- a/src/probability/blend_cdf.rs
+++ b/src/probability/blend_cdf.rs
@@ -1,4 +1,5 @@
-use super::interface::{Prob, BaseCDF, Speed, CDF_MAX, CDF16, BLEND_FIXED_POINT_PRECISION};
+use core;
+use super::interface::{Prob, BaseCDF, Speed, CDF_MAX, CDF16, BLEND_FIXED_POINT_PRECISION, ProbRange, SymStartFreq};
 
 
 #[allow(unused)]
@@ -167,6 +168,22 @@ impl BaseCDF for BlendCDF16 {
             }
         }
     }
+    // A symbol may be as rare as 1 in 1 << LOG2_SCALE, which leaves nothing to take off its
+    // frequency. Being off by one is of no harm here: nothing is divided.
+    fn sym_to_start_and_freq(&self, sym: u8) -> SymStartFreq {
+        let cdf_prev = if sym != 0 { self.cdf(sym - 1) } else { 0 };
+        SymStartFreq {
+            range: ProbRange {
+                start: cdf_prev + 1,
+                freq: core::cmp::max(self.cdf(sym) - cdf_prev - 1, 1),
+            },
+            sym: sym,
+        }
+    }
+    #[cfg(feature="avoid-divide")]
+    fn sym_to_start_and_freq_with_div_hint(&self, sym: u8, _inv_max_and_bitlen: (i64, u8)) -> SymStartFreq {
+        self.sym_to_start_and_freq(sym)
+    }
     fn valid(&self) -> bool {
         for item in &self.cdf {
             if *item < 0 || !(*item <= CDF_MAX) {
-- 
2.43.0

