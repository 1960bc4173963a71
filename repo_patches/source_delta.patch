From 53aebaf2ff3c4d1f0283919782b3bee5b76de3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 01/18] fix: buffer: fail requests sent through a slot reserved
 before the worker went away

A handle that had already reserved a slot kept reporting ready after the
worker was dropped, and a request sent through that slot sat in the dead
channel forever: its response future never resolved.
---
 tower/src/buffer/service.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/tower/src/buffer/service.rs b/tower/src/buffer/service.rs
index 9493f10..18eeb4e 100644
--- a/tower/src/buffer/service.rs
+++ b/tower/src/buffer/service.rs
@@ -84,6 +84,21 @@ where
     }
 }
 
+impl<Req, F> Buffer<Req, F>
+where
+    Req: Send + 'static,
+    F: Send + 'static,
+{
+    /// Returns `true` if the worker is gone or no longer accepts requests.
+    ///
+    /// `PollSender::is_closed` only tells whether this handle was closed, so the
+    /// channel itself has to be asked as well: a handle which has already
+    /// reserved a slot does not notice otherwise.
+    fn is_worker_closed(&self) -> bool {
+        self.tx.is_closed() || self.tx.get_ref().map_or(true, |tx| tx.is_closed())
+    }
+}
+
 impl<Req, Rsp, F, E> Service<Req> for Buffer<Req, F>
 where
     F: Future<Output = Result<Rsp, E>> + Send + 'static,
@@ -96,7 +111,7 @@ where
 
     fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
         // First, check if the worker is still alive.
-        if self.tx.is_closed() {
+        if self.is_worker_closed() {
             // If the inner service has errored, then we error here.
             return Poll::Ready(Err(self.get_worker_error()));
         }
@@ -120,6 +135,12 @@ where
         let (tx, rx) = oneshot::channel();
 
         match self.tx.send_item(Message { request, span, tx }) {
+            // The worker went away after the slot had been reserved: nobody
+            // may be left to receive the request, so don't wait for a response.
+            Ok(_) if self.is_worker_closed() => {
+                tracing::trace!("buffer channel closed");
+                ResponseFuture::failed(self.get_worker_error())
+            }
             Ok(_) => ResponseFuture::new(rx),
             // If the channel is closed, propagate the error from the worker.
             Err(_) => {
-- 
2.43.0


From 6c926f0153ca2b173709f7ca87c7d6685bc7c2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 02/18] fix: steer: clones must wait for their own services to
 become ready

Cloning a Steer copied the list of services that were not ready yet, so a
clone of a ready Steer called cloned services which had never been polled.
---
 tower/src/steer/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tower/src/steer/mod.rs b/tower/src/steer/mod.rs
index d614196..6cbfee3 100644
--- a/tower/src/steer/mod.rs
+++ b/tower/src/steer/mod.rs
@@ -177,7 +177,9 @@ where
         Self {
             router: self.router.clone(),
             services: self.services.clone(),
-            not_ready: self.not_ready.clone(),
+            // readiness is not inherited by clones, so every cloned service
+            // has to be polled to readiness again before it may be called.
+            not_ready: (0..self.services.len()).collect(),
             _phantom: PhantomData,
         }
     }
-- 
2.43.0


From a695b0144abded92f2f62b50721c2660edc47cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 03/18] fix: retry budget: keep the deposit/withdraw ratio
 close to retry_percent

Truncating the inverse of retry_percent turned 0.6 or 0.9 into 100%, and
700.0 into 1000.0.
---
 tower/src/retry/budget/tps_budget.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tower/src/retry/budget/tps_budget.rs b/tower/src/retry/budget/tps_budget.rs
index d694998..c4eb3e3 100644
--- a/tower/src/retry/budget/tps_budget.rs
+++ b/tower/src/retry/budget/tps_budget.rs
@@ -79,12 +79,14 @@ impl TpsBudget {
             // Withdrawals can only be made against the reserve, over time.
             (0, 1)
         } else if retry_percent <= 1.0 {
-            (1, (1.0 / retry_percent) as isize)
+            // The amounts are scaled and rounded so that their ratio stays
+            // close to `retry_percent` even if its inverse is not integral.
+            (1000, (1000.0 / retry_percent).round() as isize)
         } else {
             // Support for when retry_percent is between 1.0 and 1000.0,
             // meaning for every deposit D, D * retry_percent withdrawals
             // can be made.
-            (1000, (1000.0 / retry_percent) as isize)
+            ((1000.0 * retry_percent).round() as isize, 1000)
         };
         let reserve = (min_per_sec as isize)
             .saturating_mul(ttl.as_secs() as isize) // ttl is between 1 and 60 seconds
-- 
2.43.0


From 2769cd10ed536fb062a2ca93b6fcd9f46f6c8273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 04/18] fix: retry budget: do not expire deposits and
 withdrawals early

A window that ended between two multiples of the slot width advanced the
slots by one too many, so that with steady traffic entries were forgotten
after little more than half of the ttl.
---
 tower/src/retry/budget/tps_budget.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tower/src/retry/budget/tps_budget.rs b/tower/src/retry/budget/tps_budget.rs
index c4eb3e3..5e9b158 100644
--- a/tower/src/retry/budget/tps_budget.rs
+++ b/tower/src/retry/budget/tps_budget.rs
@@ -126,16 +126,21 @@ impl TpsBudget {
         let to_commit = self.writer.swap(0, Ordering::SeqCst);
         self.slots[gen.index].store(to_commit, Ordering::SeqCst);
 
-        let mut diff = diff;
+        // Advance by the number of whole windows that have passed, and keep the
+        // remainder, so that slots always stand for `window` of elapsed time.
+        let mut diff = diff - self.window;
         let mut idx = (gen.index + 1) % self.slots.len();
-        while diff > self.window {
+        let mut skipped = 0;
+        while diff >= self.window && skipped <= self.slots.len() {
             self.slots[idx].store(0, Ordering::SeqCst);
             diff -= self.window;
             idx = (idx + 1) % self.slots.len();
+            skipped += 1;
         }
 
         gen.index = idx;
-        gen.time = now;
+        // If everything has expired there is nothing left to align with.
+        gen.time = if diff < self.window { now - diff } else { now };
     }
 
     fn sum(&self) -> isize {
-- 
2.43.0


From 8cafb7ec48c910e9bc5cab7bf8719ba03400a2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 05/18] fix: backoff: compute the jitter from the whole base
 delay

Seconds and nanoseconds were scaled and truncated separately, so a base of
one second got no jitter at all; a random value of zero, which Rng may
return, tripped a debug assertion.
---
 tower/src/retry/backoff.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tower/src/retry/backoff.rs b/tower/src/retry/backoff.rs
index 38a5f69..ce11ecf 100644
--- a/tower/src/retry/backoff.rs
+++ b/tower/src/retry/backoff.rs
@@ -155,14 +155,17 @@ impl<R: Rng> ExponentialBackoff<R> {
         } else {
             let jitter_factor = self.rng.next_f64();
             debug_assert!(
-                jitter_factor > 0.0,
+                (0.0..1.0).contains(&jitter_factor),
                 "rng returns values between 0.0 and 1.0"
             );
             let rand_jitter = jitter_factor * self.jitter;
-            let secs = (base.as_secs() as f64) * rand_jitter;
-            let nanos = (base.subsec_nanos() as f64) * rand_jitter;
+            let jitter = base.as_secs_f64() * rand_jitter;
             let remaining = self.max - base;
-            time::Duration::new(secs as u64, nanos as u32).min(remaining)
+            if jitter >= remaining.as_secs_f64() {
+                remaining
+            } else {
+                time::Duration::from_secs_f64(jitter).min(remaining)
+            }
         }
     }
 }
-- 
2.43.0


From 0d06292f704b045fb351417171bcbdcde1a5bc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 06/18] fix: backoff: cloning an ExponentialBackoff starts a
 new session

The Backoff trait requires Clone to reset the backoff; the derived
implementation kept the iteration count.
---
 tower/src/retry/backoff.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tower/src/retry/backoff.rs b/tower/src/retry/backoff.rs
index ce11ecf..fc3cfba 100644
--- a/tower/src/retry/backoff.rs
+++ b/tower/src/retry/backoff.rs
@@ -60,7 +60,7 @@ pub struct ExponentialBackoffMaker<R = HasherRng> {
 ///
 /// [exponential backoff]: https://en.wikipedia.org/wiki/Exponential_backoff
 /// [random jitter]: https://aws.amazon.com/blogs/architecture/exponential-backoff-and-jitter/
-#[derive(Debug, Clone)]
+#[derive(Debug)]
 pub struct ExponentialBackoff<R = HasherRng> {
     min: time::Duration,
     max: time::Duration,
@@ -131,6 +131,19 @@ where
     }
 }
 
+/// As [`Backoff`] requires, a clone starts a new session.
+impl<R: Clone> Clone for ExponentialBackoff<R> {
+    fn clone(&self) -> Self {
+        ExponentialBackoff {
+            min: self.min,
+            max: self.max,
+            jitter: self.jitter,
+            rng: self.rng.clone(),
+            iterations: 0,
+        }
+    }
+}
+
 impl<R: Rng> ExponentialBackoff<R> {
     fn base(&self) -> time::Duration {
         debug_assert!(
-- 
2.43.0


From 338f610362d7286546ab3828fc560bbd339fd633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 07/18] fix: balance: select anew when a removal invalidates
 the chosen index

Removing an endpoint moves another one to its index, so that the next
request went to whatever service had been moved to the stale index instead
of the less loaded of two random ones.
---
 tower/src/balance/p2c/service.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tower/src/balance/p2c/service.rs b/tower/src/balance/p2c/service.rs
index 30572fc..bb7d01b 100644
--- a/tower/src/balance/p2c/service.rs
+++ b/tower/src/balance/p2c/service.rs
@@ -116,7 +116,11 @@ where
                 None => return Poll::Ready(None),
                 Some(Change::Remove(key)) => {
                     trace!("remove");
-                    self.services.evict(&key);
+                    if self.services.evict(&key) {
+                        // Evicting a service may change the indices of others,
+                        // so a new service has to be selected.
+                        self.ready_index = None;
+                    }
                 }
                 Some(Change::Insert(key, svc)) => {
                     trace!("insert");
-- 
2.43.0


From 4d153293bc60178872a5f03d0f649527cb3b517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 08/18] fix: balance: do not poll the discovery stream after it
 has ended

---
 tower/src/balance/p2c/service.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tower/src/balance/p2c/service.rs b/tower/src/balance/p2c/service.rs
index bb7d01b..fa2f129 100644
--- a/tower/src/balance/p2c/service.rs
+++ b/tower/src/balance/p2c/service.rs
@@ -32,6 +32,8 @@ where
     D::Key: Hash,
 {
     discover: D,
+    /// Set when `discover` has ended and must not be polled again.
+    discover_done: bool,
 
     services: ReadyCache<D::Key, D::Service, Req>,
     ready_index: Option<usize>,
@@ -73,6 +75,7 @@ where
         Self {
             rng,
             discover,
+            discover_done: false,
             services: ReadyCache::default(),
             ready_index: None,
 
@@ -107,13 +110,19 @@ where
         &mut self,
         cx: &mut Context<'_>,
     ) -> Poll<Option<Result<(), error::Discover>>> {
+        if self.discover_done {
+            return Poll::Ready(None);
+        }
         debug!("updating from discover");
         loop {
             match ready!(Pin::new(&mut self.discover).poll_discover(cx))
                 .transpose()
                 .map_err(|e| error::Discover(e.into()))?
             {
-                None => return Poll::Ready(None),
+                None => {
+                    self.discover_done = true;
+                    return Poll::Ready(None);
+                }
                 Some(Change::Remove(key)) => {
                     trace!("remove");
                     if self.services.evict(&key) {
-- 
2.43.0


From 8788f1d9247a43cc03d35de7d64604092b02f9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 09/18] fix: call_all: keep the request already taken from the
 stream in unordered()

A CallAll that was waiting for its service had taken one request from the
stream; switching it to unordered mode silently dropped that request.
---
 tower/src/util/call_all/common.rs    | 12 +++++++++++-
 tower/src/util/call_all/unordered.rs | 11 +++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/tower/src/util/call_all/common.rs b/tower/src/util/call_all/common.rs
index 9f2490b..d4e4236 100644
--- a/tower/src/util/call_all/common.rs
+++ b/tower/src/util/call_all/common.rs
@@ -61,6 +61,11 @@ where
         }
     }
 
+    pub(crate) fn with_request(mut self, curr_req: Option<S::Item>) -> Self {
+        self.curr_req = curr_req;
+        self
+    }
+
     /// Extract the wrapped [`Service`].
     pub(crate) fn into_inner(mut self) -> Svc {
         self.service.take().expect("Service already taken")
@@ -77,7 +82,12 @@ where
     pub(crate) fn unordered(mut self) -> super::CallAllUnordered<Svc, S> {
         assert!(self.queue.is_empty() && !self.eof);
 
-        super::CallAllUnordered::new(self.service.take().unwrap(), self.stream)
+        // A request may have been taken from the stream already.
+        super::CallAllUnordered::with_request(
+            self.service.take().unwrap(),
+            self.stream,
+            self.curr_req.take(),
+        )
     }
 }
 
diff --git a/tower/src/util/call_all/unordered.rs b/tower/src/util/call_all/unordered.rs
index 3038932..a7c7d37 100644
--- a/tower/src/util/call_all/unordered.rs
+++ b/tower/src/util/call_all/unordered.rs
@@ -46,6 +46,17 @@ where
         }
     }
 
+    pub(crate) fn with_request(
+        service: Svc,
+        stream: S,
+        curr_req: Option<S::Item>,
+    ) -> CallAllUnordered<Svc, S> {
+        CallAllUnordered {
+            inner: common::CallAll::new(service, stream, FuturesUnordered::new())
+                .with_request(curr_req),
+        }
+    }
+
     /// Extract the wrapped [`Service`].
     ///
     /// # Panics
-- 
2.43.0


From dcdef1e51c27863a0697ee1cd215769ece8f319a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:54 +0000
Subject: [PATCH 10/18] Guarded switch points for simulated threads (cfg
 tower_sim)

---
 tower/src/buffer/worker.rs           |   6 +-
 tower/src/hedge/mod.rs               |   6 +-
 tower/src/lib.rs                     |   6 +
 tower/src/load/peak_ewma.rs          |   9 +-
 tower/src/retry/budget/tps_budget.rs |  13 +-
 tower/src/sim_sync.rs                | 171 +++++++++++++++++++++++++++
 6 files changed, 197 insertions(+), 14 deletions(-)
 create mode 100644 tower/src/sim_sync.rs

diff --git a/tower/src/buffer/worker.rs b/tower/src/buffer/worker.rs
index 7f4416d..dba8dce 100644
--- a/tower/src/buffer/worker.rs
+++ b/tower/src/buffer/worker.rs
@@ -2,8 +2,12 @@ use super::{
     error::{Closed, ServiceError},
     message::Message,
 };
+#[cfg(tower_sim)]
+use crate::sim_sync::Mutex;
 use futures_core::ready;
-use std::sync::{Arc, Mutex};
+use std::sync::Arc;
+#[cfg(not(tower_sim))]
+use std::sync::Mutex;
 use std::{
     future::Future,
     pin::Pin,
diff --git a/tower/src/hedge/mod.rs b/tower/src/hedge/mod.rs
index 3cd152e..ef3c812 100644
--- a/tower/src/hedge/mod.rs
+++ b/tower/src/hedge/mod.rs
@@ -4,9 +4,13 @@
 #![warn(missing_debug_implementations, missing_docs, unreachable_pub)]
 
 use crate::filter::AsyncFilter;
+#[cfg(tower_sim)]
+use crate::sim_sync::Mutex;
 use futures_util::future;
 use pin_project_lite::pin_project;
-use std::sync::{Arc, Mutex};
+use std::sync::Arc;
+#[cfg(not(tower_sim))]
+use std::sync::Mutex;
 use std::time::Duration;
 use std::{
     pin::Pin,
diff --git a/tower/src/lib.rs b/tower/src/lib.rs
index ce911e9..d07e3de 100644
--- a/tower/src/lib.rs
+++ b/tower/src/lib.rs
@@ -6,6 +6,8 @@
 )]
 #![forbid(unsafe_code)]
 #![allow(elided_lifetimes_in_paths, clippy::type_complexity)]
+// `tower_sim` is set by simulation harnesses only.
+#![allow(unknown_lints, unexpected_cfgs)]
 #![cfg_attr(test, allow(clippy::float_cmp))]
 #![cfg_attr(docsrs, feature(doc_auto_cfg, doc_cfg))]
 // `rustdoc::broken_intra_doc_links` is checked on CI
@@ -199,6 +201,10 @@ pub mod util;
 pub mod builder;
 pub mod layer;
 
+#[cfg(tower_sim)]
+#[doc(hidden)]
+pub mod sim_sync;
+
 #[cfg(feature = "util")]
 #[doc(inline)]
 #[cfg_attr(docsrs, doc(cfg(feature = "util")))]
diff --git a/tower/src/load/peak_ewma.rs b/tower/src/load/peak_ewma.rs
index c145ab6..4955101 100644
--- a/tower/src/load/peak_ewma.rs
+++ b/tower/src/load/peak_ewma.rs
@@ -11,11 +11,12 @@ use std::pin::Pin;
 
 use super::completion::{CompleteOnResponse, TrackCompletion, TrackCompletionFuture};
 use super::Load;
+#[cfg(tower_sim)]
+use crate::sim_sync::Mutex;
+#[cfg(not(tower_sim))]
+use std::sync::Mutex;
 use std::task::{Context, Poll};
-use std::{
-    sync::{Arc, Mutex},
-    time::Duration,
-};
+use std::{sync::Arc, time::Duration};
 use tokio::time::Instant;
 use tower_service::Service;
 use tracing::trace;
diff --git a/tower/src/retry/budget/tps_budget.rs b/tower/src/retry/budget/tps_budget.rs
index 5e9b158..ee4b79e 100644
--- a/tower/src/retry/budget/tps_budget.rs
+++ b/tower/src/retry/budget/tps_budget.rs
@@ -1,13 +1,10 @@
 //! Transactions Per Minute (Tps) Budget implementations
 
-use std::{
-    fmt,
-    sync::{
-        atomic::{AtomicIsize, Ordering},
-        Mutex,
-    },
-    time::Duration,
-};
+#[cfg(tower_sim)]
+use crate::sim_sync::{AtomicIsize, Mutex};
+#[cfg(not(tower_sim))]
+use std::sync::{atomic::AtomicIsize, Mutex};
+use std::{fmt, sync::atomic::Ordering, time::Duration};
 use tokio::time::Instant;
 
 use super::Budget;
diff --git a/tower/src/sim_sync.rs b/tower/src/sim_sync.rs
new file mode 100644
index 0000000..98ec91b
--- /dev/null
+++ b/tower/src/sim_sync.rs
@@ -0,0 +1,171 @@
+//! Stand-ins for `std::sync` types that let a simulator decide which thread
+//! runs next. Only built with `--cfg tower_sim`; nothing in a normal build
+//! refers to this module.
+
+#![allow(missing_docs, missing_debug_implementations)]
+
+use std::fmt;
+use std::ops::{Deref, DerefMut};
+use std::sync::atomic::Ordering;
+use std::sync::{LockResult, OnceLock, PoisonError, TryLockError};
+
+static SWITCH: OnceLock<fn(bool)> = OnceLock::new();
+
+/// Registers the function called at every point where another thread may run.
+/// Its argument tells whether the caller cannot go on until another one does.
+pub fn set_switch(f: fn(bool)) {
+    let _ = SWITCH.set(f);
+}
+
+fn switch(blocked: bool) {
+    if let Some(f) = SWITCH.get() {
+        f(blocked)
+    }
+}
+
+#[derive(Default)]
+pub struct Mutex<T: ?Sized>(std::sync::Mutex<T>);
+
+pub struct MutexGuard<'a, T: ?Sized>(Option<std::sync::MutexGuard<'a, T>>);
+
+impl<T> Mutex<T> {
+    pub const fn new(t: T) -> Self {
+        Mutex(std::sync::Mutex::new(t))
+    }
+    pub fn into_inner(self) -> LockResult<T> {
+        self.0.into_inner()
+    }
+}
+
+impl<T: ?Sized> Mutex<T> {
+    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        switch(false);
+        loop {
+            match self.0.try_lock() {
+                Ok(g) => return Ok(MutexGuard(Some(g))),
+                Err(TryLockError::Poisoned(e)) => {
+                    return Err(PoisonError::new(MutexGuard(Some(e.into_inner()))))
+                }
+                Err(TryLockError::WouldBlock) => switch(true),
+            }
+        }
+    }
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.0.get_mut()
+    }
+}
+
+impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        self.0.fmt(f)
+    }
+}
+
+impl<T: ?Sized> Deref for MutexGuard<'_, T> {
+    type Target = T;
+    fn deref(&self) -> &T {
+        self.0.as_ref().expect("locked")
+    }
+}
+
+impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        self.0.as_mut().expect("locked")
+    }
+}
+
+impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        (**self).fmt(f)
+    }
+}
+
+impl<T: ?Sized> Drop for MutexGuard<'_, T> {
+    fn drop(&mut self) {
+        self.0 = None;
+        if !std::thread::panicking() {
+            switch(false);
+        }
+    }
+}
+
+#[derive(Default)]
+pub struct AtomicIsize(std::sync::atomic::AtomicIsize);
+
+impl AtomicIsize {
+    pub const fn new(v: isize) -> Self {
+        AtomicIsize(std::sync::atomic::AtomicIsize::new(v))
+    }
+    pub fn load(&self, o: Ordering) -> isize {
+        switch(false);
+        self.0.load(o)
+    }
+    pub fn store(&self, v: isize, o: Ordering) {
+        switch(false);
+        self.0.store(v, o)
+    }
+    pub fn swap(&self, v: isize, o: Ordering) -> isize {
+        switch(false);
+        self.0.swap(v, o)
+    }
+    pub fn fetch_add(&self, v: isize, o: Ordering) -> isize {
+        switch(false);
+        self.0.fetch_add(v, o)
+    }
+    pub fn fetch_sub(&self, v: isize, o: Ordering) -> isize {
+        switch(false);
+        self.0.fetch_sub(v, o)
+    }
+    pub fn fetch_max(&self, v: isize, o: Ordering) -> isize {
+        switch(false);
+        self.0.fetch_max(v, o)
+    }
+    pub fn fetch_min(&self, v: isize, o: Ordering) -> isize {
+        switch(false);
+        self.0.fetch_min(v, o)
+    }
+    pub fn compare_exchange(
+        &self,
+        old: isize,
+        new: isize,
+        ok: Ordering,
+        err: Ordering,
+    ) -> Result<isize, isize> {
+        switch(false);
+        self.0.compare_exchange(old, new, ok, err)
+    }
+    pub fn compare_exchange_weak(
+        &self,
+        old: isize,
+        new: isize,
+        ok: Ordering,
+        err: Ordering,
+    ) -> Result<isize, isize> {
+        self.compare_exchange(old, new, ok, err)
+    }
+    pub fn fetch_update<F>(&self, ok: Ordering, err: Ordering, mut f: F) -> Result<isize, isize>
+    where
+        F: FnMut(isize) -> Option<isize>,
+    {
+        let mut prev = self.load(err);
+        while let Some(next) = f(prev) {
+            match self.compare_exchange_weak(prev, next, ok, err) {
+                Ok(x) => return Ok(x),
+                Err(x) => prev = x,
+            }
+        }
+        Err(prev)
+    }
+    pub fn get_mut(&mut self) -> &mut isize {
+        self.0.get_mut()
+    }
+    pub fn into_inner(self) -> isize {
+        self.0.into_inner()
+    }
+}
+
+impl fmt::Debug for AtomicIsize {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        self.0.fmt(f)
+    }
+}
-- 
2.43.0


From 144af97c196105a159bd44350aed9ad88531be55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 11/18] fix: retry budget: check and take a withdrawal under
 one lock

Concurrent withdrawals could each see the same balance and together
overdraw it, and a withdrawal that ran while another thread was moving
the current slot into the window could miss those deposits and be
refused.
---
 tower/src/retry/budget/tps_budget.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tower/src/retry/budget/tps_budget.rs b/tower/src/retry/budget/tps_budget.rs
index ee4b79e..55d4498 100644
--- a/tower/src/retry/budget/tps_budget.rs
+++ b/tower/src/retry/budget/tps_budget.rs
@@ -110,9 +110,7 @@ impl TpsBudget {
         }
     }
 
-    fn expire(&self) {
-        let mut gen = self.generation.lock().expect("generation lock");
-
+    fn expire(&self, gen: &mut Generation) {
         let now = Instant::now();
         let diff = now.saturating_duration_since(gen.time);
         if diff < self.window {
@@ -154,15 +152,22 @@ impl TpsBudget {
             .saturating_add(self.reserve)
     }
 
+    // The balance is checked and changed under the generation lock, so that
+    // concurrent withdrawals cannot spend the same tokens.
+
     fn put(&self, amt: isize) {
-        self.expire();
+        let mut gen = self.generation.lock().expect("generation lock");
+
+        self.expire(&mut gen);
         self.writer.fetch_add(amt, Ordering::SeqCst);
     }
 
     fn try_get(&self, amt: isize) -> bool {
         debug_assert!(amt >= 0);
 
-        self.expire();
+        let mut gen = self.generation.lock().expect("generation lock");
+
+        self.expire(&mut gen);
 
         let sum = self.sum();
         if sum >= amt {
-- 
2.43.0


From bf8667c4cc489915c83fdb5090ec19517267cc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:13 +0000
Subject: [PATCH 12/18] Guarded switch points at the buffer's channel, try_lock
 (cfg tower_sim)

---
 tower/src/buffer/service.rs |   7 ++-
 tower/src/buffer/worker.rs  |   3 +-
 tower/src/sim_sync.rs       | 118 +++++++++++++++++++++++++++++++++++-
 3 files changed, 125 insertions(+), 3 deletions(-)

diff --git a/tower/src/buffer/service.rs b/tower/src/buffer/service.rs
index 18eeb4e..fde402b 100644
--- a/tower/src/buffer/service.rs
+++ b/tower/src/buffer/service.rs
@@ -4,11 +4,16 @@ use super::{
     worker::{Handle, Worker},
 };
 
+#[cfg(tower_sim)]
+use crate::sim_sync::{mpsc, PollSender};
 use std::{
     future::Future,
     task::{Context, Poll},
 };
-use tokio::sync::{mpsc, oneshot};
+#[cfg(not(tower_sim))]
+use tokio::sync::mpsc;
+use tokio::sync::oneshot;
+#[cfg(not(tower_sim))]
 use tokio_util::sync::PollSender;
 use tower_service::Service;
 
diff --git a/tower/src/buffer/worker.rs b/tower/src/buffer/worker.rs
index dba8dce..bd36886 100644
--- a/tower/src/buffer/worker.rs
+++ b/tower/src/buffer/worker.rs
@@ -3,7 +3,7 @@ use super::{
     message::Message,
 };
 #[cfg(tower_sim)]
-use crate::sim_sync::Mutex;
+use crate::sim_sync::{mpsc, Mutex};
 use futures_core::ready;
 use std::sync::Arc;
 #[cfg(not(tower_sim))]
@@ -13,6 +13,7 @@ use std::{
     pin::Pin,
     task::{Context, Poll},
 };
+#[cfg(not(tower_sim))]
 use tokio::sync::mpsc;
 use tower_service::Service;
 
diff --git a/tower/src/sim_sync.rs b/tower/src/sim_sync.rs
index 98ec91b..24003dd 100644
--- a/tower/src/sim_sync.rs
+++ b/tower/src/sim_sync.rs
@@ -7,7 +7,7 @@
 use std::fmt;
 use std::ops::{Deref, DerefMut};
 use std::sync::atomic::Ordering;
-use std::sync::{LockResult, OnceLock, PoisonError, TryLockError};
+use std::sync::{LockResult, OnceLock, PoisonError, TryLockError, TryLockResult};
 
 static SWITCH: OnceLock<fn(bool)> = OnceLock::new();
 
@@ -50,11 +50,33 @@ impl<T: ?Sized> Mutex<T> {
             }
         }
     }
+    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+        switch(false);
+        match self.0.try_lock() {
+            Ok(g) => Ok(MutexGuard(Some(g))),
+            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(
+                MutexGuard(Some(e.into_inner())),
+            ))),
+            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+        }
+    }
+    pub fn is_poisoned(&self) -> bool {
+        self.0.is_poisoned()
+    }
+    pub fn clear_poison(&self) {
+        self.0.clear_poison()
+    }
     pub fn get_mut(&mut self) -> LockResult<&mut T> {
         self.0.get_mut()
     }
 }
 
+impl<T> From<T> for Mutex<T> {
+    fn from(t: T) -> Self {
+        Mutex::new(t)
+    }
+}
+
 impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         self.0.fmt(f)
@@ -116,6 +138,14 @@ impl AtomicIsize {
         switch(false);
         self.0.fetch_sub(v, o)
     }
+    pub fn fetch_and(&self, v: isize, o: Ordering) -> isize {
+        switch(false);
+        self.0.fetch_and(v, o)
+    }
+    pub fn fetch_or(&self, v: isize, o: Ordering) -> isize {
+        switch(false);
+        self.0.fetch_or(v, o)
+    }
     pub fn fetch_max(&self, v: isize, o: Ordering) -> isize {
         switch(false);
         self.0.fetch_max(v, o)
@@ -169,3 +199,89 @@ impl fmt::Debug for AtomicIsize {
         self.0.fmt(f)
     }
 }
+
+impl From<isize> for AtomicIsize {
+    fn from(v: isize) -> Self {
+        AtomicIsize::new(v)
+    }
+}
+
+/// Every use of the sender, through `Deref`, is a switch point.
+#[cfg(feature = "buffer")]
+pub struct PollSender<T>(tokio_util::sync::PollSender<T>);
+
+#[cfg(feature = "buffer")]
+impl<T: Send> PollSender<T> {
+    pub fn new(sender: tokio::sync::mpsc::Sender<T>) -> Self {
+        PollSender(tokio_util::sync::PollSender::new(sender))
+    }
+}
+
+#[cfg(feature = "buffer")]
+impl<T> Clone for PollSender<T> {
+    fn clone(&self) -> Self {
+        switch(false);
+        PollSender(self.0.clone())
+    }
+}
+
+#[cfg(feature = "buffer")]
+impl<T> Deref for PollSender<T> {
+    type Target = tokio_util::sync::PollSender<T>;
+    fn deref(&self) -> &Self::Target {
+        switch(false);
+        &self.0
+    }
+}
+
+#[cfg(feature = "buffer")]
+impl<T> DerefMut for PollSender<T> {
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        switch(false);
+        &mut self.0
+    }
+}
+
+#[cfg(feature = "buffer")]
+impl<T: fmt::Debug> fmt::Debug for PollSender<T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        self.0.fmt(f)
+    }
+}
+
+/// `tokio::sync::mpsc`, with a receiver whose every use is a switch point.
+#[cfg(feature = "buffer")]
+pub mod mpsc {
+    use super::switch;
+    use std::fmt;
+    use std::ops::{Deref, DerefMut};
+    pub use tokio::sync::mpsc::*;
+
+    pub struct Receiver<T>(tokio::sync::mpsc::Receiver<T>);
+
+    pub fn channel<T>(bound: usize) -> (Sender<T>, Receiver<T>) {
+        let (tx, rx) = tokio::sync::mpsc::channel(bound);
+        (tx, Receiver(rx))
+    }
+
+    impl<T> Deref for Receiver<T> {
+        type Target = tokio::sync::mpsc::Receiver<T>;
+        fn deref(&self) -> &Self::Target {
+            switch(false);
+            &self.0
+        }
+    }
+
+    impl<T> DerefMut for Receiver<T> {
+        fn deref_mut(&mut self) -> &mut Self::Target {
+            switch(false);
+            &mut self.0
+        }
+    }
+
+    impl<T> fmt::Debug for Receiver<T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            self.0.fmt(f)
+        }
+    }
+}
-- 
2.43.0


From cbbe31eb771ea264e7c695fc3a3f272a9109a811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:07 +0000
Subject: [PATCH 13/18] fix: buffer: keep the answer of a request the worker
 dispatched before it closed

---
 tower/src/buffer/future.rs  | 14 +++++++++++++-
 tower/src/buffer/service.rs | 15 ++++++++++-----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/tower/src/buffer/future.rs b/tower/src/buffer/future.rs
index 4117890..c684c1c 100644
--- a/tower/src/buffer/future.rs
+++ b/tower/src/buffer/future.rs
@@ -2,7 +2,10 @@
 //!
 //! [`Buffer`]: crate::buffer::Buffer
 
-use super::{error::Closed, message};
+use super::{
+    error::{Closed, ServiceError},
+    message,
+};
 use futures_core::ready;
 use pin_project_lite::pin_project;
 use std::{
@@ -45,6 +48,15 @@ impl<T> ResponseFuture<T> {
         }
     }
 
+    pub(crate) fn answered(answer: Result<T, ServiceError>) -> Self {
+        match answer {
+            Ok(fut) => ResponseFuture {
+                state: ResponseState::Poll { fut },
+            },
+            Err(error) => ResponseFuture::failed(error.into()),
+        }
+    }
+
     pub(crate) fn failed(err: crate::BoxError) -> Self {
         ResponseFuture {
             state: ResponseState::Failed { error: Some(err) },
diff --git a/tower/src/buffer/service.rs b/tower/src/buffer/service.rs
index fde402b..f573cd6 100644
--- a/tower/src/buffer/service.rs
+++ b/tower/src/buffer/service.rs
@@ -137,15 +137,20 @@ where
 
         // If we've made it here, then a channel permit has already been
         // acquired, so we can freely allocate a oneshot.
-        let (tx, rx) = oneshot::channel();
+        let (tx, mut rx) = oneshot::channel();
 
         match self.tx.send_item(Message { request, span, tx }) {
             // The worker went away after the slot had been reserved: nobody
             // may be left to receive the request, so don't wait for a response.
-            Ok(_) if self.is_worker_closed() => {
-                tracing::trace!("buffer channel closed");
-                ResponseFuture::failed(self.get_worker_error())
-            }
+            // But if the worker has dispatched or rejected the request before
+            // it went away, then its answer is here already.
+            Ok(_) if self.is_worker_closed() => match rx.try_recv() {
+                Ok(answer) => ResponseFuture::answered(answer),
+                Err(_) => {
+                    tracing::trace!("buffer channel closed");
+                    ResponseFuture::failed(self.get_worker_error())
+                }
+            },
             Ok(_) => ResponseFuture::new(rx),
             // If the channel is closed, propagate the error from the worker.
             Err(_) => {
-- 
2.43.0


From 3fc2fcd701a9ff971d4a69da43ff8fd538c61d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 14/18] Guarded switch point inside locked sections (cfg
 tower_sim)

---
 tower/src/sim_sync.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tower/src/sim_sync.rs b/tower/src/sim_sync.rs
index 24003dd..3db7287 100644
--- a/tower/src/sim_sync.rs
+++ b/tower/src/sim_sync.rs
@@ -42,7 +42,11 @@ impl<T: ?Sized> Mutex<T> {
         switch(false);
         loop {
             match self.0.try_lock() {
-                Ok(g) => return Ok(MutexGuard(Some(g))),
+                Ok(g) => {
+                    // others may find it locked
+                    switch(false);
+                    return Ok(MutexGuard(Some(g)));
+                }
                 Err(TryLockError::Poisoned(e)) => {
                     return Err(PoisonError::new(MutexGuard(Some(e.into_inner()))))
                 }
@@ -53,7 +57,10 @@ impl<T: ?Sized> Mutex<T> {
     pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
         switch(false);
         match self.0.try_lock() {
-            Ok(g) => Ok(MutexGuard(Some(g))),
+            Ok(g) => {
+                switch(false);
+                Ok(MutexGuard(Some(g)))
+            }
             Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(
                 MutexGuard(Some(e.into_inner())),
             ))),
-- 
2.43.0


From e85f997332d67ade0c21b29b56893173df0bdeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:50 +0000
Subject: [PATCH 15/18] fix: limit: a rate's period too long for the clock to
 represent

`RateLimit` computed the end of a period with `Instant + Duration`, which
panics when the sum can not be represented, so a service limited with for
example `Duration::MAX` ("n calls, ever") panicked on its first call.
---
 tower/src/limit/rate/rate.rs    | 12 ++++++++++--
 tower/src/limit/rate/service.rs |  4 ++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/tower/src/limit/rate/rate.rs b/tower/src/limit/rate/rate.rs
index 66736de..5ed54b3 100644
--- a/tower/src/limit/rate/rate.rs
+++ b/tower/src/limit/rate/rate.rs
@@ -1,4 +1,5 @@
 use std::time::Duration;
+use tokio::time::Instant;
 
 /// A rate of requests per time period.
 #[derive(Debug, Copy, Clone)]
@@ -24,7 +25,14 @@ impl Rate {
         self.num
     }
 
-    pub(crate) fn per(&self) -> Duration {
-        self.per
+    /// The end of a period which begins at `start`.
+    pub(crate) fn period_end(&self, start: Instant) -> Instant {
+        // A period too long for the clock to represent never ends. There is no
+        // way to obtain the greatest `Instant`, so, as `tokio::time::sleep`
+        // does, this uses one roughly 30 years from now instead.
+        const FAR_FUTURE: Duration = Duration::from_secs(86400 * 365 * 30);
+        start
+            .checked_add(self.per)
+            .unwrap_or_else(|| start + FAR_FUTURE)
     }
 }
diff --git a/tower/src/limit/rate/service.rs b/tower/src/limit/rate/service.rs
index 0aa1d69..1583e0f 100644
--- a/tower/src/limit/rate/service.rs
+++ b/tower/src/limit/rate/service.rs
@@ -81,7 +81,7 @@ where
         }
 
         self.state = State::Ready {
-            until: Instant::now() + self.rate.per(),
+            until: self.rate.period_end(Instant::now()),
             rem: self.rate.num(),
         };
 
@@ -95,7 +95,7 @@ where
 
                 // If the period has elapsed, reset it.
                 if now >= until {
-                    until = now + self.rate.per();
+                    until = self.rate.period_end(now);
                     rem = self.rate.num();
                 }
 
-- 
2.43.0


From 9e6c3f9d03f6f4098331b9a58e586ff25ff1c000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:41 +0000
Subject: [PATCH 16/18] fix: hedge: no delay from a histogram rotated during
 the call

The hedge asks the histogram twice for one request: whether it holds enough
data, and for the delay. When the period ended in between, the delay came
from a histogram with too little data, usually none at all, and the hedge was
sent at once. Such a request is not hedged now.
---
 tower/src/hedge/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tower/src/hedge/mod.rs b/tower/src/hedge/mod.rs
index ef3c812..d532300 100644
--- a/tower/src/hedge/mod.rs
+++ b/tower/src/hedge/mod.rs
@@ -76,6 +76,7 @@ pub struct PolicyPredicate<P>(P);
 pub struct DelayPolicy {
     histo: Histo,
     latency_percentile: f32,
+    min_data_points: u64,
 }
 
 #[doc(hidden)]
@@ -154,6 +155,7 @@ impl<S, P> Hedge<S, P> {
         let delay_policy = DelayPolicy {
             histo: histo.clone(),
             latency_percentile,
+            min_data_points,
         };
         let delayed = Delay::new(delay_policy, filtered);
 
@@ -248,10 +250,13 @@ where
 impl<Request> delay::Policy<Request> for DelayPolicy {
     fn delay(&self, _req: &Request) -> Duration {
         let mut locked = self.histo.lock().unwrap();
-        let millis = locked
-            .read()
-            .value_at_quantile(self.latency_percentile.into());
-        Duration::from_millis(millis)
+        let histo = locked.read();
+        // The histogram may have rotated since `SelectPolicy` looked at it; if
+        // it holds too little data now, there is no latency to go by.
+        if histo.len() < self.min_data_points {
+            return Duration::MAX;
+        }
+        Duration::from_millis(histo.value_at_quantile(self.latency_percentile.into()))
     }
 }
 
-- 
2.43.0


From e5849b708d6fdfeea0ffa63429e8fa14bc100aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:09 +0000
Subject: [PATCH 17/18] fix: timeout: a response that keeps its task busy kept
 the timeout from firing

A response future that uses up the task's cooperative budget whenever it is
polled leaves none to the sleep, which then stays pending although it has
elapsed.
---
 tower/src/timeout/future.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tower/src/timeout/future.rs b/tower/src/timeout/future.rs
index b4eb3f4..c13dbce 100644
--- a/tower/src/timeout/future.rs
+++ b/tower/src/timeout/future.rs
@@ -7,7 +7,7 @@ use std::{
     pin::Pin,
     task::{Context, Poll},
 };
-use tokio::time::Sleep;
+use tokio::time::{Instant, Sleep};
 
 pin_project! {
     /// [`Timeout`] response future
@@ -45,9 +45,13 @@ where
         }
 
         // Now check the sleep
+        //
+        // If the response used up the task's cooperative budget, none is left
+        // for the sleep, which is then pending even when it has elapsed.
+        let deadline = this.sleep.deadline();
         match this.sleep.poll(cx) {
-            Poll::Pending => Poll::Pending,
-            Poll::Ready(_) => Poll::Ready(Err(Elapsed(()).into())),
+            Poll::Pending if Instant::now() < deadline => Poll::Pending,
+            _ => Poll::Ready(Err(Elapsed(()).into())),
         }
     }
 }
-- 
2.43.0


From 9dd2de99464f17f2c8ea5680ec64b5c3b9821f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:09 +0000
Subject: [PATCH 18/18] fix: hedge: an original that keeps its task busy kept
 the copy from being sent

As with Timeout: the delay is polled after the original request and stays
pending when that has used up the task's cooperative budget.
---
 tower/src/hedge/delay.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tower/src/hedge/delay.rs b/tower/src/hedge/delay.rs
index 7b45c0e..a7c5676 100644
--- a/tower/src/hedge/delay.rs
+++ b/tower/src/hedge/delay.rs
@@ -1,4 +1,3 @@
-use futures_util::ready;
 use pin_project_lite::pin_project;
 use std::time::Duration;
 use std::{
@@ -6,6 +5,7 @@ use std::{
     pin::Pin,
     task::{Context, Poll},
 };
+use tokio::time::Instant;
 use tower_service::Service;
 
 use crate::util::Oneshot;
@@ -111,7 +111,13 @@ where
         loop {
             match this.state.as_mut().project() {
                 StateProj::Delaying { delay, req } => {
-                    ready!(delay.poll(cx));
+                    // If the original request used up the task's cooperative
+                    // budget, none is left for the delay, which is then pending
+                    // even when it has elapsed.
+                    let deadline = delay.deadline();
+                    if delay.poll(cx).is_pending() && Instant::now() < deadline {
+                        return Poll::Pending;
+                    }
                     let req = req.take().expect("Missing request in delay");
                     let svc = this.service.take().expect("Missing service in delay");
                     let fut = Oneshot::new(svc, req);
-- 
2.43.0

