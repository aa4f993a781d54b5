From dce9381918b05cd897b82083d4141018cea11e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 01/15] fix: a cloned Steer polls all of its services before it
 is ready

Clones of ready services need not be ready, so a clone of a ready Steer must
not inherit the readiness of the original.
---
 tower/src/steer/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tower/src/steer/mod.rs b/tower/src/steer/mod.rs
index d614196..1d88b73 100644
--- a/tower/src/steer/mod.rs
+++ b/tower/src/steer/mod.rs
@@ -177,7 +177,9 @@ where
         Self {
             router: self.router.clone(),
             services: self.services.clone(),
-            not_ready: self.not_ready.clone(),
+            // A clone of a ready service is not necessarily ready itself, so all of the cloned
+            // services must be polled before the clone is ready.
+            not_ready: (0..self.services.len()).collect(),
             _phantom: PhantomData,
         }
     }
-- 
2.43.0


From 5dbaa550593b0ea106575c42c8754ed54dbe7f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 02/15] fix: Reconnect keeps a connection error until the next
 call returns it

Polling readiness again after a failed attempt started another attempt, so a
service that had reported ready went back to pending and the error was lost or
returned although a new connection existed.
---
 tower/src/reconnect/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tower/src/reconnect/mod.rs b/tower/src/reconnect/mod.rs
index 0062fe3..8f645ff 100644
--- a/tower/src/reconnect/mod.rs
+++ b/tower/src/reconnect/mod.rs
@@ -82,6 +82,12 @@ where
     type Future = ResponseFuture<S::Future, M::Error>;
 
     fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
+        // A failed connection attempt is reported by the next `call`; until then the service stays
+        // ready and must not start another attempt.
+        if self.error.is_some() {
+            return Poll::Ready(Ok(()));
+        }
+
         loop {
             match &mut self.state {
                 State::Idle => {
-- 
2.43.0


From 0bf6f556a577fc16175dfdad0537e7035fa1bdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 03/15] fix: a Buffer call through an earlier reservation fails
 once the worker is gone

---
 tower/src/buffer/service.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tower/src/buffer/service.rs b/tower/src/buffer/service.rs
index 9493f10..d3c2631 100644
--- a/tower/src/buffer/service.rs
+++ b/tower/src/buffer/service.rs
@@ -120,6 +120,13 @@ where
         let (tx, rx) = oneshot::channel();
 
         match self.tx.send_item(Message { request, span, tx }) {
+            // A permit acquired before the worker went away can still send, but nothing will ever
+            // receive the message. The check follows the send, so that the worker cannot go away
+            // unnoticed in between.
+            Ok(_) if self.tx.get_ref().map_or(true, |tx| tx.is_closed()) => {
+                tracing::trace!("buffer worker gone");
+                ResponseFuture::failed(self.get_worker_error())
+            }
             Ok(_) => ResponseFuture::new(rx),
             // If the channel is closed, propagate the error from the worker.
             Err(_) => {
-- 
2.43.0


From 7a13cd27bd6ea7e90c9476186b9d816f6a37c688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 04/15] fix: backoff jitter scales with the random value over
 its whole range

Whole seconds of jitter were truncated (a base of whole seconds got no
jitter below a factor of one), fractions were capped at 4.29s, and large
values or a random value of zero panicked.
---
 tower/src/retry/backoff.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tower/src/retry/backoff.rs b/tower/src/retry/backoff.rs
index 38a5f69..b24a963 100644
--- a/tower/src/retry/backoff.rs
+++ b/tower/src/retry/backoff.rs
@@ -155,14 +155,17 @@ impl<R: Rng> ExponentialBackoff<R> {
         } else {
             let jitter_factor = self.rng.next_f64();
             debug_assert!(
-                jitter_factor > 0.0,
+                jitter_factor >= 0.0,
                 "rng returns values between 0.0 and 1.0"
             );
             let rand_jitter = jitter_factor * self.jitter;
-            let secs = (base.as_secs() as f64) * rand_jitter;
-            let nanos = (base.subsec_nanos() as f64) * rand_jitter;
             let remaining = self.max - base;
-            time::Duration::new(secs as u64, nanos as u32).min(remaining)
+            let secs = base.as_secs_f64() * rand_jitter;
+            if secs < remaining.as_secs_f64() {
+                time::Duration::from_secs_f64(secs).min(remaining)
+            } else {
+                remaining
+            }
         }
     }
 }
-- 
2.43.0


From af3e90ff6364fe2e525be7a087cb5efce6e6954e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 05/15] fix: exponential backoff reaches its maximum from a
 tiny minimum

The factor stopped growing at 2^32 - 1, so a minimum of a nanosecond
never gave delays above 4.29 seconds.
---
 tower/src/retry/backoff.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tower/src/retry/backoff.rs b/tower/src/retry/backoff.rs
index b24a963..00d2ae6 100644
--- a/tower/src/retry/backoff.rs
+++ b/tower/src/retry/backoff.rs
@@ -141,10 +141,15 @@ impl<R: Rng> ExponentialBackoff<R> {
             self.max > time::Duration::from_millis(0),
             "Maximum backoff must be non-zero"
         );
-        self.min
-            .checked_mul(2_u32.saturating_pow(self.iterations))
-            .unwrap_or(self.max)
-            .min(self.max)
+        let max = self.max.as_nanos();
+        let base = 2_u128
+            .saturating_pow(self.iterations)
+            .saturating_mul(self.min.as_nanos());
+        if base < max {
+            time::Duration::new((base / 1_000_000_000) as u64, (base % 1_000_000_000) as u32)
+        } else {
+            self.max
+        }
     }
 
     /// Returns a random, uniform duration on `[0, base*self.jitter]` no greater
-- 
2.43.0


From 65bae08ac58171a32fd99b01faa14b767f1ce963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 06/15] fix: a retry budget deposit counts for its whole time
 to live

Slots were advanced by the elapsed time rounded up and then restarted at
the current time, so a deposit could expire after half its time to live.
---
 tower/src/retry/budget/tps_budget.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tower/src/retry/budget/tps_budget.rs b/tower/src/retry/budget/tps_budget.rs
index d694998..51302e7 100644
--- a/tower/src/retry/budget/tps_budget.rs
+++ b/tower/src/retry/budget/tps_budget.rs
@@ -126,14 +126,16 @@ impl TpsBudget {
 
         let mut diff = diff;
         let mut idx = (gen.index + 1) % self.slots.len();
-        while diff > self.window {
+        diff -= self.window;
+        while diff >= self.window {
             self.slots[idx].store(0, Ordering::SeqCst);
             diff -= self.window;
             idx = (idx + 1) % self.slots.len();
         }
 
         gen.index = idx;
-        gen.time = now;
+        // the new slot started `diff` ago, not now
+        gen.time = now - diff;
     }
 
     fn sum(&self) -> isize {
-- 
2.43.0


From 2c974cd38b52d396fcdd1a8579eecc46488e772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 07/15] fix: concurrent withdrawals from a retry budget cannot
 use the same balance

---
 tower/src/retry/budget/tps_budget.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tower/src/retry/budget/tps_budget.rs b/tower/src/retry/budget/tps_budget.rs
index 51302e7..17464e0 100644
--- a/tower/src/retry/budget/tps_budget.rs
+++ b/tower/src/retry/budget/tps_budget.rs
@@ -4,7 +4,7 @@ use std::{
     fmt,
     sync::{
         atomic::{AtomicIsize, Ordering},
-        Mutex,
+        Mutex, MutexGuard,
     },
     time::Duration,
 };
@@ -111,14 +111,14 @@ impl TpsBudget {
         }
     }
 
-    fn expire(&self) {
+    fn expire(&self) -> MutexGuard<'_, Generation> {
         let mut gen = self.generation.lock().expect("generation lock");
 
         let now = Instant::now();
         let diff = now.saturating_duration_since(gen.time);
         if diff < self.window {
             // not expired yet
-            return;
+            return gen;
         }
 
         let to_commit = self.writer.swap(0, Ordering::SeqCst);
@@ -136,6 +136,8 @@ impl TpsBudget {
         gen.index = idx;
         // the new slot started `diff` ago, not now
         gen.time = now - diff;
+
+        gen
     }
 
     fn sum(&self) -> isize {
@@ -153,14 +155,15 @@ impl TpsBudget {
     }
 
     fn put(&self, amt: isize) {
-        self.expire();
+        drop(self.expire());
         self.writer.fetch_add(amt, Ordering::SeqCst);
     }
 
     fn try_get(&self, amt: isize) -> bool {
         debug_assert!(amt >= 0);
 
-        self.expire();
+        // hold the lock, so that no other withdrawal uses the same balance
+        let _gen = self.expire();
 
         let sum = self.sum();
         if sum >= amt {
-- 
2.43.0


From c9b2e62eb88b6970707fa7b8c15d0db59aa261d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:48 +0000
Subject: [PATCH 08/15] fix: Balance does not poll discovery again after it
 ended

---
 tower/src/balance/p2c/service.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tower/src/balance/p2c/service.rs b/tower/src/balance/p2c/service.rs
index 30572fc..3f6e4de 100644
--- a/tower/src/balance/p2c/service.rs
+++ b/tower/src/balance/p2c/service.rs
@@ -32,6 +32,8 @@ where
     D::Key: Hash,
 {
     discover: D,
+    /// Set once `discover` has ended; it must not be polled after that.
+    discover_ended: bool,
 
     services: ReadyCache<D::Key, D::Service, Req>,
     ready_index: Option<usize>,
@@ -73,6 +75,7 @@ where
         Self {
             rng,
             discover,
+            discover_ended: false,
             services: ReadyCache::default(),
             ready_index: None,
 
@@ -107,13 +110,19 @@ where
         &mut self,
         cx: &mut Context<'_>,
     ) -> Poll<Option<Result<(), error::Discover>>> {
+        if self.discover_ended {
+            return Poll::Ready(None);
+        }
         debug!("updating from discover");
         loop {
             match ready!(Pin::new(&mut self.discover).poll_discover(cx))
                 .transpose()
                 .map_err(|e| error::Discover(e.into()))?
             {
-                None => return Poll::Ready(None),
+                None => {
+                    self.discover_ended = true;
+                    return Poll::Ready(None);
+                }
                 Some(Change::Remove(key)) => {
                     trace!("remove");
                     self.services.evict(&key);
-- 
2.43.0


From cdd30646cc92fcae7cba8f52cd85c5027d0dc49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 09/15] fix: Balance chooses again when its ready set was
 reordered

Evicting or replacing an endpoint moved another one to the remembered
index, which then got the request without any load comparison.
---
 tower/src/balance/p2c/service.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tower/src/balance/p2c/service.rs b/tower/src/balance/p2c/service.rs
index 3f6e4de..aad9825 100644
--- a/tower/src/balance/p2c/service.rs
+++ b/tower/src/balance/p2c/service.rs
@@ -125,7 +125,10 @@ where
                 }
                 Some(Change::Remove(key)) => {
                     trace!("remove");
-                    self.services.evict(&key);
+                    if self.services.evict(&key) {
+                        // The ready set may have been reordered.
+                        self.ready_index = None;
+                    }
                 }
                 Some(Change::Insert(key, svc)) => {
                     trace!("insert");
@@ -138,6 +141,7 @@ where
     }
 
     fn promote_pending_to_ready(&mut self, cx: &mut Context<'_>) {
+        let pending = self.services.pending_len();
         loop {
             match self.services.poll_pending(cx) {
                 Poll::Ready(Ok(())) => {
@@ -157,6 +161,10 @@ where
                 }
             }
         }
+        if self.services.pending_len() != pending {
+            // A service in the ready set may have been replaced.
+            self.ready_index = None;
+        }
         trace!(
             ready = %self.services.ready_len(),
             pending = %self.services.pending_len(),
-- 
2.43.0


From 3e3cc8cad58c2e077331258cfe7c54bb5811d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 10/15] fix: a failed request no longer counts as load once its
 error was returned

---
 tower/src/load/completion.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tower/src/load/completion.rs b/tower/src/load/completion.rs
index 857e055..df46976 100644
--- a/tower/src/load/completion.rs
+++ b/tower/src/load/completion.rs
@@ -77,9 +77,11 @@ where
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let this = self.project();
-        let rsp = ready!(this.future.poll(cx))?;
+        let rsp = ready!(this.future.poll(cx));
         let h = this.handle.take().expect("handle");
-        Poll::Ready(Ok(this.completion.track_completion(h, rsp)))
+        // A failed request is complete: its handle is dropped here, not with the future.
+        let completion = this.completion;
+        Poll::Ready(rsp.map(|rsp| completion.track_completion(h, rsp)))
     }
 }
 
-- 
2.43.0


From e05ba670d92c38fc57482b0626a1c9036b591b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:49 +0000
Subject: [PATCH 11/15] fix: a rate limit with a period beyond the clock's
 range does not panic

---
 tower/src/limit/rate/rate.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tower/src/limit/rate/rate.rs b/tower/src/limit/rate/rate.rs
index 66736de..3a4d89f 100644
--- a/tower/src/limit/rate/rate.rs
+++ b/tower/src/limit/rate/rate.rs
@@ -1,5 +1,9 @@
 use std::time::Duration;
 
+/// The longest period that is measured, about 30 years: the end of a window has
+/// to be a time which the clock can represent.
+const MAX_PER: Duration = Duration::from_secs(86400 * 365 * 30);
+
 /// A rate of requests per time period.
 #[derive(Debug, Copy, Clone)]
 pub struct Rate {
@@ -25,6 +29,6 @@ impl Rate {
     }
 
     pub(crate) fn per(&self) -> Duration {
-        self.per
+        self.per.min(MAX_PER)
     }
 }
-- 
2.43.0


From 5f4c1f530e1fffd0c9c382e32eef1405ba351927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:47 +0000
Subject: [PATCH 12/15] fix: hedge latencies rotate correctly after 2^32
 periods without requests

---
 tower/src/hedge/rotating_histogram.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tower/src/hedge/rotating_histogram.rs b/tower/src/hedge/rotating_histogram.rs
index 4b07a15..6c552d2 100644
--- a/tower/src/hedge/rotating_histogram.rs
+++ b/tower/src/hedge/rotating_histogram.rs
@@ -41,7 +41,8 @@ impl RotatingHistogram {
     fn maybe_rotate(&mut self) {
         let delta = Instant::now().saturating_duration_since(self.last_rotation);
         // TODO: replace with delta.duration_div when it becomes stable.
-        let rotations = (nanos(delta) / nanos(self.period)) as u32;
+        // Not a `u32`: after a long idle time, there may be more rotations.
+        let rotations = nanos(delta) / nanos(self.period);
         if rotations >= 2 {
             trace!("Time since last rotation is {:?}.  clearing!", delta);
             self.clear();
@@ -49,7 +50,7 @@ impl RotatingHistogram {
             trace!("Time since last rotation is {:?}. rotating!", delta);
             self.rotate();
         }
-        self.last_rotation += self.period * rotations;
+        self.last_rotation += delta - Duration::from_nanos(nanos(delta) % nanos(self.period));
     }
 
     fn rotate(&mut self) {
-- 
2.43.0


From cd8704a55566e08aeff0cf4118452ba60605af3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:57 +0000
Subject: [PATCH 13/15] fix: a Buffer request answered just before the worker
 went away gets its answer

The request can be dispatched and answered between the send and the check for
a closed channel; it was then reported as failed.
---
 tower/src/buffer/future.rs  | 14 +++++++++++++-
 tower/src/buffer/service.rs | 16 ++++++++++------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/tower/src/buffer/future.rs b/tower/src/buffer/future.rs
index 4117890..03ce335 100644
--- a/tower/src/buffer/future.rs
+++ b/tower/src/buffer/future.rs
@@ -2,7 +2,10 @@
 //!
 //! [`Buffer`]: crate::buffer::Buffer
 
-use super::{error::Closed, message};
+use super::{
+    error::{Closed, ServiceError},
+    message,
+};
 use futures_core::ready;
 use pin_project_lite::pin_project;
 use std::{
@@ -45,6 +48,15 @@ impl<T> ResponseFuture<T> {
         }
     }
 
+    pub(crate) fn answered(answer: Result<T, ServiceError>) -> Self {
+        match answer {
+            Ok(fut) => ResponseFuture {
+                state: ResponseState::Poll { fut },
+            },
+            Err(err) => Self::failed(err.into()),
+        }
+    }
+
     pub(crate) fn failed(err: crate::BoxError) -> Self {
         ResponseFuture {
             state: ResponseState::Failed { error: Some(err) },
diff --git a/tower/src/buffer/service.rs b/tower/src/buffer/service.rs
index d3c2631..26c5b51 100644
--- a/tower/src/buffer/service.rs
+++ b/tower/src/buffer/service.rs
@@ -117,16 +117,20 @@ where
 
         // If we've made it here, then a channel permit has already been
         // acquired, so we can freely allocate a oneshot.
-        let (tx, rx) = oneshot::channel();
+        let (tx, mut rx) = oneshot::channel();
 
         match self.tx.send_item(Message { request, span, tx }) {
             // A permit acquired before the worker went away can still send, but nothing will ever
             // receive the message. The check follows the send, so that the worker cannot go away
-            // unnoticed in between.
-            Ok(_) if self.tx.get_ref().map_or(true, |tx| tx.is_closed()) => {
-                tracing::trace!("buffer worker gone");
-                ResponseFuture::failed(self.get_worker_error())
-            }
+            // unnoticed in between. If the worker got to the message before it went away, it has
+            // answered already.
+            Ok(_) if self.tx.get_ref().map_or(true, |tx| tx.is_closed()) => match rx.try_recv() {
+                Ok(answer) => ResponseFuture::answered(answer),
+                Err(_) => {
+                    tracing::trace!("buffer worker gone");
+                    ResponseFuture::failed(self.get_worker_error())
+                }
+            },
             Ok(_) => ResponseFuture::new(rx),
             // If the channel is closed, propagate the error from the worker.
             Err(_) => {
-- 
2.43.0


From 85076a6a7c46625eb7e8ae088a51d10612c85ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:06 +0000
Subject: [PATCH 14/15] fix: CallAll::unordered keeps the request it has taken
 off the stream

---
 tower/src/util/call_all/common.rs    | 10 +++++++++-
 tower/src/util/call_all/unordered.rs |  6 ++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/tower/src/util/call_all/common.rs b/tower/src/util/call_all/common.rs
index 9f2490b..3c1c374 100644
--- a/tower/src/util/call_all/common.rs
+++ b/tower/src/util/call_all/common.rs
@@ -61,6 +61,13 @@ where
         }
     }
 
+    pub(crate) fn resume(service: Svc, stream: S, queue: Q, curr_req: Option<S::Item>) -> Self {
+        CallAll {
+            curr_req,
+            ..CallAll::new(service, stream, queue)
+        }
+    }
+
     /// Extract the wrapped [`Service`].
     pub(crate) fn into_inner(mut self) -> Svc {
         self.service.take().expect("Service already taken")
@@ -77,7 +84,8 @@ where
     pub(crate) fn unordered(mut self) -> super::CallAllUnordered<Svc, S> {
         assert!(self.queue.is_empty() && !self.eof);
 
-        super::CallAllUnordered::new(self.service.take().unwrap(), self.stream)
+        // A request may have been taken off the stream already and wait for the service.
+        super::CallAllUnordered::resume(self.service.take().unwrap(), self.stream, self.curr_req)
     }
 }
 
diff --git a/tower/src/util/call_all/unordered.rs b/tower/src/util/call_all/unordered.rs
index 3038932..8bbcbd9 100644
--- a/tower/src/util/call_all/unordered.rs
+++ b/tower/src/util/call_all/unordered.rs
@@ -46,6 +46,12 @@ where
         }
     }
 
+    pub(super) fn resume(service: Svc, stream: S, curr_req: Option<S::Item>) -> Self {
+        CallAllUnordered {
+            inner: common::CallAll::resume(service, stream, FuturesUnordered::new(), curr_req),
+        }
+    }
+
     /// Extract the wrapped [`Service`].
     ///
     /// # Panics
-- 
2.43.0


From f4a0f634047a1093b1468c04bc3e52667bb534b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:14 +0000
Subject: [PATCH 15/15] fix: the Debug text of a Oneshot whose call panicked
 does not panic

---
 tower/src/util/oneshot.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tower/src/util/oneshot.rs b/tower/src/util/oneshot.rs
index 114b2f8..9423b78 100644
--- a/tower/src/util/oneshot.rs
+++ b/tower/src/util/oneshot.rs
@@ -59,7 +59,10 @@ where
                 .field(svc)
                 .field(req)
                 .finish(),
-            State::NotReady { req: None, .. } => unreachable!(),
+            // The call panicked.
+            State::NotReady { svc, req: None } => {
+                f.debug_tuple("State::NotReady").field(svc).finish()
+            }
             State::Called { .. } => f.debug_tuple("State::Called").field(&"S::Future").finish(),
             State::Done => f.debug_tuple("State::Done").finish(),
         }
-- 
2.43.0

