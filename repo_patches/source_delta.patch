From 44da5977f955ea81054af840fa68ed89bd5e6d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:23 +0000
Subject: [PATCH 01/12] fix: MetricsIter::size_hint counts the dynamic metrics

Both halves of the hint were taken from the static metrics, so the hint was
wrong whenever the number of dynamic metrics differed from the number of
static ones.
---
 metriken-core/src/metrics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metriken-core/src/metrics.rs b/metriken-core/src/metrics.rs
index 06e1459..46c5922 100644
--- a/metriken-core/src/metrics.rs
+++ b/metriken-core/src/metrics.rs
@@ -88,7 +88,7 @@ impl<'a> Iterator for MetricsIter<'a> {
 
     fn size_hint(&self) -> (usize, Option<usize>) {
         let (slo, shi) = self.sm.size_hint();
-        let (dlo, dhi) = self.sm.size_hint();
+        let (dlo, dhi) = self.dm.size_hint();
 
         match (shi, dhi) {
             (Some(shi), Some(dhi)) => (slo.saturating_add(dlo), shi.checked_add(dhi)),
-- 
2.43.0


From 511ca07703cb198e6347c7168645c7771928057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:23 +0000
Subject: [PATCH 02/12] fix: MetricsIter::nth_back continues in the static
 metrics

Skipping backwards past the dynamic metrics looked at the (exhausted) dynamic
iterator again and so never reached the static metrics.
---
 metriken-core/src/metrics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metriken-core/src/metrics.rs b/metriken-core/src/metrics.rs
index 46c5922..ab6f3a3 100644
--- a/metriken-core/src/metrics.rs
+++ b/metriken-core/src/metrics.rs
@@ -125,7 +125,7 @@ impl<'a> DoubleEndedIterator for MetricsIter<'a> {
 
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
         let len = self.dm.len();
-        self.dm.nth_back(n).or_else(|| self.dm.nth_back(n - len))
+        self.dm.nth_back(n).or_else(|| self.sm.nth_back(n - len))
     }
 
     fn rfold<B, F>(self, init: B, mut f: F) -> B
-- 
2.43.0


From fc488ac134636f3b6fa61821c574caa412070a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:23 +0000
Subject: [PATCH 03/12] fix: use the formatter set with
 MetricBuilder::formatter

The builder stores the formatter in the provider map, which provides
references, but MetricEntry::formatted only requested it by value, so the
formatter of a dynamic metric was never used.
---
 metriken-core/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metriken-core/src/lib.rs b/metriken-core/src/lib.rs
index a648eae..6329a0d 100644
--- a/metriken-core/src/lib.rs
+++ b/metriken-core/src/lib.rs
@@ -128,6 +128,10 @@ impl MetricEntry {
     pub fn formatted(&self, format: Format) -> String {
         let formatter = self
             .request_value::<crate::wrapper::FormattingFn>()
+            .or_else(|| {
+                self.request_ref::<crate::wrapper::FormattingFn>()
+                    .map(|func| crate::wrapper::FormattingFn(func.0))
+            })
             .map(|func| func.0)
             .unwrap_or(crate::default_formatter);
 
-- 
2.43.0


From e6834de5113506792af15444b70d839460fecc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:23 +0000
Subject: [PATCH 04/12] fix: DynPinnedMetric must not be Unpin

DynPinnedMetric::register relies on Pin to keep the metric in place until it
is dropped, but the type was automatically Unpin, so safe code could pin it
with Pin::new, register it and then move it, leaving a dangling pointer in the
registry.
---
 metriken-core/src/dynmetrics.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metriken-core/src/dynmetrics.rs b/metriken-core/src/dynmetrics.rs
index 008d831..e40ecb9 100644
--- a/metriken-core/src/dynmetrics.rs
+++ b/metriken-core/src/dynmetrics.rs
@@ -10,6 +10,7 @@
 
 use std::borrow::Cow;
 use std::collections::{BTreeMap, HashMap};
+use std::marker::PhantomPinned;
 use std::ops::Deref;
 use std::pin::Pin;
 
@@ -219,6 +220,8 @@ impl<M: Metric> Metric for ProviderMetric<M> {
 /// [`register`]: crate::dynmetrics::DynPinnedMetric::register
 pub struct DynPinnedMetric<M: Metric> {
     metric: ProviderMetric<M>,
+    // The registry points into this struct so it must not be moved once pinned.
+    _pinned: PhantomPinned,
 }
 
 impl<M: Metric> DynPinnedMetric<M> {
@@ -235,6 +238,7 @@ impl<M: Metric> DynPinnedMetric<M> {
     fn new_v2(metric: M, provider: ProviderMap) -> Self {
         Self {
             metric: ProviderMetric { metric, provider },
+            _pinned: PhantomPinned,
         }
     }
 
-- 
2.43.0


From 98b1ed8b683af1336c620c5481a2a981f995f501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:23 +0000
Subject: [PATCH 05/12] fix: forward provided context through an initialised
 Lazy

Lazy forwarded every other Metric method to the wrapped metric but swallowed
the values and references that it provides.
---
 metriken/src/lazy.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metriken/src/lazy.rs b/metriken/src/lazy.rs
index 4ddaecb..1063a3a 100644
--- a/metriken/src/lazy.rs
+++ b/metriken/src/lazy.rs
@@ -122,4 +122,10 @@ impl<T: Metric, F: Send + 'static> Metric for Lazy<T, F> {
     fn value(&self) -> Option<crate::Value> {
         Lazy::get(self).and_then(|metric| metric.value())
     }
+
+    fn provide<'a>(&'a self, request: &mut metriken_core::Request<'a>) {
+        if let Some(metric) = Lazy::get(self) {
+            metric.provide(request);
+        }
+    }
 }
-- 
2.43.0


From 5e522fa2c638a8549b446bd3fe073ed55a415f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:23 +0000
Subject: [PATCH 06/12] fix: return read errors from the converter instead of
 panicking

---
 metriken-exposition/src/convert.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metriken-exposition/src/convert.rs b/metriken-exposition/src/convert.rs
index 967eacb..69b415d 100644
--- a/metriken-exposition/src/convert.rs
+++ b/metriken-exposition/src/convert.rs
@@ -61,7 +61,7 @@ impl MsgpackToParquet {
         let mut schema = ParquetSchema::new();
 
         // First pass to build the schema
-        while !reader.fill_buf().unwrap().is_empty() {
+        while !reader.fill_buf()?.is_empty() {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
             schema.push(s);
@@ -69,8 +69,8 @@ impl MsgpackToParquet {
         let mut writer = schema.finalize(writer, self.parquet_options, Some(self.metadata))?;
 
         // Rewind file pointer and second pass for the actual metrics
-        reader.rewind().unwrap();
-        while !reader.fill_buf().unwrap().is_empty() {
+        reader.rewind()?;
+        while !reader.fill_buf()?.is_empty() {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
             writer.push(s)?;
-- 
2.43.0


From f8e718958172f90dad986e0793ff8692a9f4a985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:23 +0000
Subject: [PATCH 07/12] fix: make both conversion passes read the same
 snapshots

The first pass starts wherever the handle is positioned but the second one
started at the beginning of the file, so for a handle that is not at the start
rows were written for snapshots that the schema was not built from.
---
 metriken-exposition/src/convert.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metriken-exposition/src/convert.rs b/metriken-exposition/src/convert.rs
index 69b415d..7847906 100644
--- a/metriken-exposition/src/convert.rs
+++ b/metriken-exposition/src/convert.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 use std::fs::File;
-use std::io::{BufRead, BufReader, Read, Seek, Write};
+use std::io::{BufRead, BufReader, Read, Seek, SeekFrom, Write};
 use std::path::Path;
 
 use parquet::errors::ParquetError;
@@ -59,6 +59,7 @@ impl MsgpackToParquet {
     ) -> Result<i64, ParquetError> {
         let mut reader = BufReader::new(reader);
         let mut schema = ParquetSchema::new();
+        let start = reader.stream_position()?;
 
         // First pass to build the schema
         while !reader.fill_buf()?.is_empty() {
@@ -68,8 +69,8 @@ impl MsgpackToParquet {
         }
         let mut writer = schema.finalize(writer, self.parquet_options, Some(self.metadata))?;
 
-        // Rewind file pointer and second pass for the actual metrics
-        reader.rewind()?;
+        // Move back to where we started for the second pass over the actual metrics
+        reader.seek(SeekFrom::Start(start))?;
         while !reader.fill_buf()?.is_empty() {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
-- 
2.43.0


From 06929e59f487cae7205b237963e6337ea30d795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:23 +0000
Subject: [PATCH 08/12] fix: decode V2 snapshots as V2

When decoding from a self-describing format such as JSON every V2 snapshot also
matched the V1 variant, which was tried first, so it came back as V1 without
its duration.
---
 metriken-exposition/src/snapshot.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metriken-exposition/src/snapshot.rs b/metriken-exposition/src/snapshot.rs
index 84b3fd6..f59ba36 100644
--- a/metriken-exposition/src/snapshot.rs
+++ b/metriken-exposition/src/snapshot.rs
@@ -63,8 +63,10 @@ pub struct SnapshotV2 {
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 #[cfg_attr(feature = "serde", serde(untagged))]
 pub enum Snapshot {
-    V1(SnapshotV1),
+    // Untagged variants are tried in order and V1 accepts any map that holds a
+    // V2 snapshot, so V2 has to come first.
     V2(SnapshotV2),
+    V1(SnapshotV1),
 }
 
 #[cfg(feature = "parquet")]
-- 
2.43.0


From eb323c048721d06e50823e09be5afb50fa59cbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:24 +0000
Subject: [PATCH 09/12] fix: escape label values in the default Prometheus
 format

A quote, backslash or line feed in a metadata value produced output that could
not be parsed back into the same labels.
---
 metriken-core/src/formatter.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/metriken-core/src/formatter.rs b/metriken-core/src/formatter.rs
index c7b07e6..16cf49b 100644
--- a/metriken-core/src/formatter.rs
+++ b/metriken-core/src/formatter.rs
@@ -29,7 +29,7 @@ pub fn default_formatter(metric: &MetricEntry, format: Format) -> String {
             let metadata: Vec<String> = metric
                 .metadata()
                 .iter()
-                .map(|(key, value)| format!("{key}=\"{value}\""))
+                .map(|(key, value)| format!("{key}=\"{}\"", escape_label_value(value)))
                 .collect();
             let metadata = metadata.join(", ");
 
@@ -42,3 +42,11 @@ pub fn default_formatter(metric: &MetricEntry, format: Format) -> String {
         _ => metric.name().to_string(),
     }
 }
+
+/// Escape a label value as required by the Prometheus exposition format.
+fn escape_label_value(value: &str) -> String {
+    value
+        .replace('\\', "\\\\")
+        .replace('"', "\\\"")
+        .replace('\n', "\\n")
+}
-- 
2.43.0


From 8fbc9f404c3186f20c76309fc136bc26729b4c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:25 +0000
Subject: [PATCH 10/12] fix: report the wrapped metric's enabled state and
 object through Lazy

An initialised Lazy claimed to be enabled, and handed out the wrapped value as
its concrete object, even when the wrapped metric says that it is disabled or
has no concrete object; entries for a Lazy then disagreed with the metric.
---
 metriken/src/lazy.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/metriken/src/lazy.rs b/metriken/src/lazy.rs
index 1063a3a..6028523 100644
--- a/metriken/src/lazy.rs
+++ b/metriken/src/lazy.rs
@@ -109,14 +109,11 @@ impl<T: Default> Default for Lazy<T> {
 
 impl<T: Metric, F: Send + 'static> Metric for Lazy<T, F> {
     fn is_enabled(&self) -> bool {
-        Lazy::get(self).is_some()
+        Lazy::get(self).map_or(false, |metric| metric.is_enabled())
     }
 
     fn as_any(&self) -> Option<&dyn std::any::Any> {
-        match Lazy::get(self) {
-            Some(metric) => Some(metric),
-            None => None,
-        }
+        Lazy::get(self).and_then(|metric| metric.as_any())
     }
 
     fn value(&self) -> Option<crate::Value> {
-- 
2.43.0


From 86c33d9a870d8723501112ba077ad801651483b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:58 +0000
Subject: [PATCH 11/12] fix: keep a dynamic metric at the address its entry
 points to

MetricEntry::is compares addresses, but the compiler was free to place the
metric behind the provider map, so an entry never recognised its own
dynamically built metric.
---
 metriken-core/src/dynmetrics.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metriken-core/src/dynmetrics.rs b/metriken-core/src/dynmetrics.rs
index e40ecb9..44b2530 100644
--- a/metriken-core/src/dynmetrics.rs
+++ b/metriken-core/src/dynmetrics.rs
@@ -158,6 +158,10 @@ pub(crate) fn unregister(metric: *const dyn Metric) {
 }
 
 /// A metric combined with a set of dynamic providers.
+///
+/// The metric comes first so that it shares its address with the whole, which
+/// is what [`MetricEntry::is`] compares.
+#[repr(C)]
 struct ProviderMetric<M> {
     metric: M,
     provider: ProviderMap,
-- 
2.43.0


From c3c6e0281057600792ca9c142877ab39f9f3a3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:58 +0000
Subject: [PATCH 12/12] fix: compare the concrete types of metrics in
 MetricEntry::is

type_id() of a trait object is that of dyn Metric, so a metric stored as the
first field of another one was taken for it.
---
 metriken-core/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metriken-core/src/lib.rs b/metriken-core/src/lib.rs
index 6329a0d..f4b68c5 100644
--- a/metriken-core/src/lib.rs
+++ b/metriken-core/src/lib.rs
@@ -144,8 +144,12 @@ impl MetricEntry {
     /// false positives if `metric` is a ZST since multiple ZSTs may share
     /// the same address.
     pub fn is(&self, metric: &dyn Metric) -> bool {
-        if self.metric().type_id() != metric.type_id() {
-            return false;
+        // Compare the concrete types: the type id of a trait object itself is that
+        // of `dyn Metric`, whatever the metric behind it is.
+        if let (Some(a), Some(b)) = (self.metric().as_any(), metric.as_any()) {
+            if a.type_id() != b.type_id() {
+                return false;
+            }
         }
 
         let a = self.metric() as *const _ as *const ();
-- 
2.43.0

