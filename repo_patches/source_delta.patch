From 836acc2c8e243fa1e7c57b8fbce5131c476eb08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:06 +0000
Subject: [PATCH 1/7] Guarded verification hooks over private state

---
 tower/src/hedge/mod.rs                | 4 ++++
 tower/src/hedge/rotating_histogram.rs | 4 ++++
 tower/src/lib.rs                      | 2 ++
 tower/src/limit/rate/service.rs       | 4 ++++
 tower/src/load/peak_ewma.rs           | 4 ++++
 tower/src/retry/backoff.rs            | 4 ++++
 tower/src/retry/budget/tps_budget.rs  | 4 ++++
 tower/src/util/rng.rs                 | 4 ++++
 8 files changed, 30 insertions(+)

diff --git a/tower/src/hedge/mod.rs b/tower/src/hedge/mod.rs
index 3cd152e..5e62547 100644
--- a/tower/src/hedge/mod.rs
+++ b/tower/src/hedge/mod.rs
@@ -264,3 +264,7 @@ where
         })
     }
 }
+
+// Verification hook (guarded): gives contracts access to private state.
+#[cfg(tower_verif)]
+include!(concat!(env!("TOWER_VERIF_DIR"), "/hedge.rs"));
diff --git a/tower/src/hedge/rotating_histogram.rs b/tower/src/hedge/rotating_histogram.rs
index 4b07a15..ad8c578 100644
--- a/tower/src/hedge/rotating_histogram.rs
+++ b/tower/src/hedge/rotating_histogram.rs
@@ -71,3 +71,7 @@ fn nanos(duration: Duration) -> u64 {
         .saturating_mul(NANOS_PER_SEC)
         .saturating_add(u64::from(duration.subsec_nanos()))
 }
+
+// Verification hook (guarded): gives contracts access to private state.
+#[cfg(tower_verif)]
+include!(concat!(env!("TOWER_VERIF_DIR"), "/rotating_histogram.rs"));
diff --git a/tower/src/lib.rs b/tower/src/lib.rs
index ce911e9..64a8288 100644
--- a/tower/src/lib.rs
+++ b/tower/src/lib.rs
@@ -6,6 +6,8 @@
 )]
 #![forbid(unsafe_code)]
 #![allow(elided_lifetimes_in_paths, clippy::type_complexity)]
+// The verification hooks are guarded by `cfg(tower_verif)`.
+#![allow(unexpected_cfgs)]
 #![cfg_attr(test, allow(clippy::float_cmp))]
 #![cfg_attr(docsrs, feature(doc_auto_cfg, doc_cfg))]
 // `rustdoc::broken_intra_doc_links` is checked on CI
diff --git a/tower/src/limit/rate/service.rs b/tower/src/limit/rate/service.rs
index 0aa1d69..70af082 100644
--- a/tower/src/limit/rate/service.rs
+++ b/tower/src/limit/rate/service.rs
@@ -128,3 +128,7 @@ where
         self.inner.load()
     }
 }
+
+// Verification hook (guarded): gives contracts access to private state.
+#[cfg(tower_verif)]
+include!(concat!(env!("TOWER_VERIF_DIR"), "/rate.rs"));
diff --git a/tower/src/load/peak_ewma.rs b/tower/src/load/peak_ewma.rs
index c145ab6..32ac18f 100644
--- a/tower/src/load/peak_ewma.rs
+++ b/tower/src/load/peak_ewma.rs
@@ -307,6 +307,10 @@ fn nanos(d: Duration) -> f64 {
     n + s
 }
 
+// Verification hook (guarded): gives contracts access to private state.
+#[cfg(tower_verif)]
+include!(concat!(env!("TOWER_VERIF_DIR"), "/peak_ewma.rs"));
+
 #[cfg(test)]
 mod tests {
     use futures_util::future;
diff --git a/tower/src/retry/backoff.rs b/tower/src/retry/backoff.rs
index 38a5f69..dd7ad92 100644
--- a/tower/src/retry/backoff.rs
+++ b/tower/src/retry/backoff.rs
@@ -207,6 +207,10 @@ impl Display for InvalidBackoff {
 
 impl std::error::Error for InvalidBackoff {}
 
+// Verification hook (guarded): gives contracts access to private state.
+#[cfg(tower_verif)]
+include!(concat!(env!("TOWER_VERIF_DIR"), "/backoff.rs"));
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/tower/src/retry/budget/tps_budget.rs b/tower/src/retry/budget/tps_budget.rs
index d694998..22148bc 100644
--- a/tower/src/retry/budget/tps_budget.rs
+++ b/tower/src/retry/budget/tps_budget.rs
@@ -196,6 +196,10 @@ impl fmt::Debug for TpsBudget {
     }
 }
 
+// Verification hook (guarded): gives contracts access to private state.
+#[cfg(tower_verif)]
+include!(concat!(env!("TOWER_VERIF_DIR"), "/tps_budget.rs"));
+
 #[cfg(test)]
 mod tests {
     use crate::retry::budget::Budget;
diff --git a/tower/src/util/rng.rs b/tower/src/util/rng.rs
index 5b2f9fc..2c2cfb6 100644
--- a/tower/src/util/rng.rs
+++ b/tower/src/util/rng.rs
@@ -125,6 +125,10 @@ pub(crate) fn sample_floyd2<R: Rng>(rng: &mut R, length: u64) -> [u64; 2] {
     [aidx, bidx]
 }
 
+// Verification hook (guarded): gives contracts access to private state.
+#[cfg(tower_verif)]
+include!(concat!(env!("TOWER_VERIF_DIR"), "/rng.rs"));
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 0c2be17236be637cb5cf1b52a18d9d58e4c0f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 2/7] fix: backoff: a random factor of zero is valid

`Rng::next_f64` returns values in [0, 1), zero included; the debug
assertion panicked on it.
---
 tower/src/retry/backoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tower/src/retry/backoff.rs b/tower/src/retry/backoff.rs
index dd7ad92..9ca6075 100644
--- a/tower/src/retry/backoff.rs
+++ b/tower/src/retry/backoff.rs
@@ -155,7 +155,7 @@ impl<R: Rng> ExponentialBackoff<R> {
         } else {
             let jitter_factor = self.rng.next_f64();
             debug_assert!(
-                jitter_factor > 0.0,
+                jitter_factor >= 0.0,
                 "rng returns values between 0.0 and 1.0"
             );
             let rand_jitter = jitter_factor * self.jitter;
-- 
2.43.0


From 86d9f6296071ced7f4a48efa2610703077e322bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 3/7] fix: backoff: do not overflow while adding jitter

With a large base and jitter factor, `Duration::new` carried the
nanoseconds into saturated seconds and panicked; the nanoseconds were
also cut off at `u32::MAX`.
---
 tower/src/retry/backoff.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tower/src/retry/backoff.rs b/tower/src/retry/backoff.rs
index 9ca6075..26ffc4c 100644
--- a/tower/src/retry/backoff.rs
+++ b/tower/src/retry/backoff.rs
@@ -162,7 +162,10 @@ impl<R: Rng> ExponentialBackoff<R> {
             let secs = (base.as_secs() as f64) * rand_jitter;
             let nanos = (base.subsec_nanos() as f64) * rand_jitter;
             let remaining = self.max - base;
-            time::Duration::new(secs as u64, nanos as u32).min(remaining)
+            time::Duration::from_secs(secs as u64)
+                .checked_add(time::Duration::from_nanos(nanos as u64))
+                .unwrap_or(remaining)
+                .min(remaining)
         }
     }
 }
-- 
2.43.0


From 154706c6f129af6b0e01dda71eaec10c39a48b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 4/7] fix: backoff: do not overflow the iteration counter

The exponent saturates long before, so the counter may too.
---
 tower/src/retry/backoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tower/src/retry/backoff.rs b/tower/src/retry/backoff.rs
index 26ffc4c..f4fe5b5 100644
--- a/tower/src/retry/backoff.rs
+++ b/tower/src/retry/backoff.rs
@@ -180,7 +180,7 @@ where
         let base = self.base();
         let next = base + self.jitter(base);
 
-        self.iterations += 1;
+        self.iterations = self.iterations.saturating_add(1);
 
         tokio::time::sleep(next)
     }
-- 
2.43.0


From 42b37094d2dd0c6799124f46b102807f78e9a4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 5/7] fix: keep the remainder when the retry budget advances
 its slots

expire() advanced one slot per started window but restarted the window at
the current time, so with accesses slightly further apart than a window
the slots moved up to twice as fast as time: deposits and withdrawals were
forgotten after half the configured TTL, and up to twice the reserve could be
withdrawn within it.
---
 tower/src/retry/budget/tps_budget.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tower/src/retry/budget/tps_budget.rs b/tower/src/retry/budget/tps_budget.rs
index 22148bc..0c092f4 100644
--- a/tower/src/retry/budget/tps_budget.rs
+++ b/tower/src/retry/budget/tps_budget.rs
@@ -124,16 +124,19 @@ impl TpsBudget {
         let to_commit = self.writer.swap(0, Ordering::SeqCst);
         self.slots[gen.index].store(to_commit, Ordering::SeqCst);
 
-        let mut diff = diff;
+        // The slot just committed took one window.
+        let mut diff = diff - self.window;
         let mut idx = (gen.index + 1) % self.slots.len();
-        while diff > self.window {
+        while diff >= self.window {
             self.slots[idx].store(0, Ordering::SeqCst);
             diff -= self.window;
             idx = (idx + 1) % self.slots.len();
         }
 
         gen.index = idx;
-        gen.time = now;
+        // Keep the part of the window that has already passed: dropping it would
+        // advance the slots faster than time and forget entries before the TTL.
+        gen.time = now - diff;
     }
 
     fn sum(&self) -> isize {
-- 
2.43.0


From 402e7ee0bb46e972f66935627f1359af4d65bdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 6/7] fix: hedge: count idle periods without truncation

The number of periods since the last rotation was truncated to u32, so after
an idle time of 2^32 periods (50 days with a period of 1 ms) the stale data
were kept, and the boundaries of the periods were lost.
---
 tower/src/hedge/rotating_histogram.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tower/src/hedge/rotating_histogram.rs b/tower/src/hedge/rotating_histogram.rs
index ad8c578..430f405 100644
--- a/tower/src/hedge/rotating_histogram.rs
+++ b/tower/src/hedge/rotating_histogram.rs
@@ -41,7 +41,7 @@ impl RotatingHistogram {
     fn maybe_rotate(&mut self) {
         let delta = Instant::now().saturating_duration_since(self.last_rotation);
         // TODO: replace with delta.duration_div when it becomes stable.
-        let rotations = (nanos(delta) / nanos(self.period)) as u32;
+        let rotations = nanos(delta) / nanos(self.period);
         if rotations >= 2 {
             trace!("Time since last rotation is {:?}.  clearing!", delta);
             self.clear();
@@ -49,7 +49,7 @@ impl RotatingHistogram {
             trace!("Time since last rotation is {:?}. rotating!", delta);
             self.rotate();
         }
-        self.last_rotation += self.period * rotations;
+        self.last_rotation += Duration::from_nanos(rotations * nanos(self.period));
     }
 
     fn rotate(&mut self) {
-- 
2.43.0


From a68afbba9184c64b8fdc4dc7d2a2e1fc10fe3a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:23 +0000
Subject: [PATCH 7/7] fix: buffer: fail a call whose worker has gone away since
 it became ready

A handle that had been told it is ready could still send its request after
the worker was dropped. Nobody received the request and, while any handle
was alive, its response future never resolved.
---
 tower/src/buffer/service.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tower/src/buffer/service.rs b/tower/src/buffer/service.rs
index 9493f10..94ad7b7 100644
--- a/tower/src/buffer/service.rs
+++ b/tower/src/buffer/service.rs
@@ -110,6 +110,14 @@ where
     fn call(&mut self, request: Req) -> Self::Future {
         tracing::trace!("sending request to buffer worker");
 
+        // The worker may have gone away since the permit was acquired: nobody would
+        // receive the request then, and its response future would never resolve.
+        if self.tx.get_ref().map_or(true, |tx| tx.is_closed()) {
+            tracing::trace!("buffer channel closed");
+            self.tx.abort_send();
+            return ResponseFuture::failed(self.get_worker_error());
+        }
+
         // get the current Span so that we can explicitly propagate it to the worker
         // if we didn't do this, events on the worker related to this span wouldn't be counted
         // towards that span since the worker would have no way of entering it.
-- 
2.43.0

