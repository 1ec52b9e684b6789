From ac316d67adbe742685217fa143554a55e9a2144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:56 +0000
Subject: [PATCH 01/11] fix: make DynPinnedMetric !Unpin so a registered metric
 cannot be moved

The registry keeps the address of a registered DynPinnedMetric. Since the type
was Unpin for every Unpin metric, Pin::new(&m).register(entry) followed by a
move of m was accepted in safe code and left a dangling entry behind that was
never unregistered. It also made moving a DynBoxedMetric invalidate the
registry's pointer (Box uniqueness), which Miri reports as UB.
---
 metriken-core/src/dynmetrics.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metriken-core/src/dynmetrics.rs b/metriken-core/src/dynmetrics.rs
index 008d831..b3b9a50 100644
--- a/metriken-core/src/dynmetrics.rs
+++ b/metriken-core/src/dynmetrics.rs
@@ -10,6 +10,7 @@
 
 use std::borrow::Cow;
 use std::collections::{BTreeMap, HashMap};
+use std::marker::PhantomPinned;
 use std::ops::Deref;
 use std::pin::Pin;
 
@@ -219,6 +220,9 @@ impl<M: Metric> Metric for ProviderMetric<M> {
 /// [`register`]: crate::dynmetrics::DynPinnedMetric::register
 pub struct DynPinnedMetric<M: Metric> {
     metric: ProviderMetric<M>,
+    // The registry holds on to the address of `metric` once it is registered so
+    // a pinned instance must never be safely movable (i.e. `Unpin`).
+    _pin: PhantomPinned,
 }
 
 impl<M: Metric> DynPinnedMetric<M> {
@@ -235,6 +239,7 @@ impl<M: Metric> DynPinnedMetric<M> {
     fn new_v2(metric: M, provider: ProviderMap) -> Self {
         Self {
             metric: ProviderMetric { metric, provider },
+            _pin: PhantomPinned,
         }
     }
 
-- 
2.43.0


From 0c1f3de3257f2bd2c88606353926172a96d8ebe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:56 +0000
Subject: [PATCH 02/11] fix: MetricsIter::size_hint ignored the dynamic metrics

The hint counted the remaining static metrics twice and the dynamic ones not at
all, so the bounds did not contain the number of entries yielded.
---
 metriken-core/src/metrics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metriken-core/src/metrics.rs b/metriken-core/src/metrics.rs
index 06e1459..46c5922 100644
--- a/metriken-core/src/metrics.rs
+++ b/metriken-core/src/metrics.rs
@@ -88,7 +88,7 @@ impl<'a> Iterator for MetricsIter<'a> {
 
     fn size_hint(&self) -> (usize, Option<usize>) {
         let (slo, shi) = self.sm.size_hint();
-        let (dlo, dhi) = self.sm.size_hint();
+        let (dlo, dhi) = self.dm.size_hint();
 
         match (shi, dhi) {
             (Some(shi), Some(dhi)) => (slo.saturating_add(dlo), shi.checked_add(dhi)),
-- 
2.43.0


From 9404f8be8af6d9dbee5367b8015939e89f739aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:56 +0000
Subject: [PATCH 03/11] fix: MetricsIter::nth_back never reached the static
 metrics

When the dynamic metrics were exhausted it asked them again instead of moving
on to the static ones.
---
 metriken-core/src/metrics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metriken-core/src/metrics.rs b/metriken-core/src/metrics.rs
index 46c5922..ab6f3a3 100644
--- a/metriken-core/src/metrics.rs
+++ b/metriken-core/src/metrics.rs
@@ -125,7 +125,7 @@ impl<'a> DoubleEndedIterator for MetricsIter<'a> {
 
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
         let len = self.dm.len();
-        self.dm.nth_back(n).or_else(|| self.dm.nth_back(n - len))
+        self.dm.nth_back(n).or_else(|| self.sm.nth_back(n - len))
     }
 
     fn rfold<B, F>(self, init: B, mut f: F) -> B
-- 
2.43.0


From fb9b2cf93b886bed589db5fa2ce69634ba080746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:18 +0000
Subject: [PATCH 04/11] fix: MetricEntry::is did not recognize dynamic metrics

The registered entry points at the wrapper around the user's metric. Nothing
put the metric at the start of that wrapper, so comparing its address against
the one the user has returned false for a metric's own entry.
---
 metriken-core/src/dynmetrics.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metriken-core/src/dynmetrics.rs b/metriken-core/src/dynmetrics.rs
index b3b9a50..f4103c6 100644
--- a/metriken-core/src/dynmetrics.rs
+++ b/metriken-core/src/dynmetrics.rs
@@ -158,6 +158,10 @@ pub(crate) fn unregister(metric: *const dyn Metric) {
 }
 
 /// A metric combined with a set of dynamic providers.
+///
+/// This is `#[repr(C)]` so that it has the same address as the metric within.
+/// [`MetricEntry::is`] depends on that.
+#[repr(C)]
 struct ProviderMetric<M> {
     metric: M,
     provider: ProviderMap,
-- 
2.43.0


From 71b6e359fa60827eacb125777bb2c9d6320de758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:54 +0000
Subject: [PATCH 05/11] fix: MetricEntry::is never compared the metric types

It is documented to check both the type and the address, but type_id() on a
dyn Metric is always the id of dyn Metric itself, so an entry also matched a
different metric living at the same address (e.g. the first field of the
declared one).
---
 metriken-core/src/dynmetrics.rs |  4 ++++
 metriken-core/src/lib.rs        | 20 ++++++++++++++++++--
 metriken-core/src/wrapper.rs    |  4 ++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/metriken-core/src/dynmetrics.rs b/metriken-core/src/dynmetrics.rs
index f4103c6..060ad5a 100644
--- a/metriken-core/src/dynmetrics.rs
+++ b/metriken-core/src/dynmetrics.rs
@@ -184,6 +184,10 @@ impl<M: Metric> Metric for ProviderMetric<M> {
         self.provider.provide(request);
         self.metric.provide(request);
     }
+
+    fn metric_type_id(&self, token: crate::private::Internal) -> std::any::TypeId {
+        self.metric.metric_type_id(token)
+    }
 }
 
 /// A dynamic metric that stores the metric inline.
diff --git a/metriken-core/src/lib.rs b/metriken-core/src/lib.rs
index a648eae..d607bce 100644
--- a/metriken-core/src/lib.rs
+++ b/metriken-core/src/lib.rs
@@ -6,7 +6,7 @@
 //!
 //! [`metriken`]: https://docs.rs/metriken
 
-use std::any::Any;
+use std::any::{Any, TypeId};
 use std::borrow::Cow;
 
 /// A helper macro for marking imports as being used.
@@ -75,6 +75,19 @@ pub trait Metric: Send + Sync + 'static {
         // Silence the unused variable warning.
         let _ = request;
     }
+
+    /// Get the type of the metric, looking through the wrappers that get added
+    /// when it is declared or registered.
+    #[doc(hidden)]
+    fn metric_type_id(&self, _: private::Internal) -> TypeId {
+        TypeId::of::<Self>()
+    }
+}
+
+mod private {
+    // Prevents `Metric::metric_type_id` from being overridden outside of this
+    // crate.
+    pub struct Internal;
 }
 
 /// The value of a metric.
@@ -140,7 +153,10 @@ impl MetricEntry {
     /// false positives if `metric` is a ZST since multiple ZSTs may share
     /// the same address.
     pub fn is(&self, metric: &dyn Metric) -> bool {
-        if self.metric().type_id() != metric.type_id() {
+        // Note that calling `type_id` here would give the id of `dyn Metric`.
+        let a = self.metric().metric_type_id(private::Internal);
+        let b = metric.metric_type_id(private::Internal);
+        if a != b {
             return false;
         }
 
diff --git a/metriken-core/src/wrapper.rs b/metriken-core/src/wrapper.rs
index b5e8ace..6f99e6d 100644
--- a/metriken-core/src/wrapper.rs
+++ b/metriken-core/src/wrapper.rs
@@ -59,6 +59,10 @@ where
         <P as InjectedProvider>::provide(request);
         self.metric.provide(request)
     }
+
+    fn metric_type_id(&self, token: crate::private::Internal) -> std::any::TypeId {
+        self.metric.metric_type_id(token)
+    }
 }
 
 /// Metric provider type that wraps around a formatting function.
-- 
2.43.0


From 78f616f09d3545e77d23809fc7cb355e2fa2c046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:54 +0000
Subject: [PATCH 06/11] fix: custom formatters set via MetricBuilder were
 ignored

MetricBuilder::formatter makes the formatter available as a reference but
MetricEntry::formatted only asked for it as a value, so dynamic metrics were
always formatted with the default formatter.
---
 metriken-core/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metriken-core/src/lib.rs b/metriken-core/src/lib.rs
index d607bce..a9e41df 100644
--- a/metriken-core/src/lib.rs
+++ b/metriken-core/src/lib.rs
@@ -139,9 +139,15 @@ impl MetricEntry {
 
     /// Format the metric into a string with the given format.
     pub fn formatted(&self, format: Format) -> String {
+        // Dynamic metrics provide their formatter by reference while static ones
+        // provide it by value.
         let formatter = self
-            .request_value::<crate::wrapper::FormattingFn>()
+            .request_ref::<crate::wrapper::FormattingFn>()
             .map(|func| func.0)
+            .or_else(|| {
+                self.request_value::<crate::wrapper::FormattingFn>()
+                    .map(|func| func.0)
+            })
             .unwrap_or(crate::default_formatter);
 
         formatter(self, format)
-- 
2.43.0


From 57e36b3a2029c4fa3ead00cb7218d6a95804cf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:19 +0000
Subject: [PATCH 07/11] fix: return I/O errors from MsgpackToParquet instead of
 panicking

Errors from reading or rewinding the input were unwrapped even though the
conversion returns a Result that can carry them.
---
 metriken-exposition/src/convert.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metriken-exposition/src/convert.rs b/metriken-exposition/src/convert.rs
index 967eacb..69b415d 100644
--- a/metriken-exposition/src/convert.rs
+++ b/metriken-exposition/src/convert.rs
@@ -61,7 +61,7 @@ impl MsgpackToParquet {
         let mut schema = ParquetSchema::new();
 
         // First pass to build the schema
-        while !reader.fill_buf().unwrap().is_empty() {
+        while !reader.fill_buf()?.is_empty() {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
             schema.push(s);
@@ -69,8 +69,8 @@ impl MsgpackToParquet {
         let mut writer = schema.finalize(writer, self.parquet_options, Some(self.metadata))?;
 
         // Rewind file pointer and second pass for the actual metrics
-        reader.rewind().unwrap();
-        while !reader.fill_buf().unwrap().is_empty() {
+        reader.rewind()?;
+        while !reader.fill_buf()?.is_empty() {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
             writer.push(s)?;
-- 
2.43.0


From 6257e82c998bdbf7812e9e94fc69cc0323f0b0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:22 +0000
Subject: [PATCH 08/11] fix: V2 snapshots were read back from JSON as V1

Deserializing an untagged enum picks the first variant that fits. A map with
all the fields of a V2 snapshot also fits V1, which dropped the duration.
---
 metriken-exposition/src/snapshot.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metriken-exposition/src/snapshot.rs b/metriken-exposition/src/snapshot.rs
index 84b3fd6..1279cb1 100644
--- a/metriken-exposition/src/snapshot.rs
+++ b/metriken-exposition/src/snapshot.rs
@@ -63,8 +63,10 @@ pub struct SnapshotV2 {
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 #[cfg_attr(feature = "serde", serde(untagged))]
 pub enum Snapshot {
-    V1(SnapshotV1),
+    // The variants are tried in order when deserializing. V2 has all the fields
+    // of V1 so it needs to come first or else it would be read back as a V1.
     V2(SnapshotV2),
+    V1(SnapshotV1),
 }
 
 #[cfg(feature = "parquet")]
-- 
2.43.0


From bfbac79b3393913d952da7fbb285da8fb5682310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:38 +0000
Subject: [PATCH 09/11] fix: escape label values in the Prometheus format

Backslashes, double quotes and line feeds were written as they are, so a value
containing one of them produced malformed or misleading output.
---
 metriken-core/src/formatter.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/metriken-core/src/formatter.rs b/metriken-core/src/formatter.rs
index c7b07e6..16cf49b 100644
--- a/metriken-core/src/formatter.rs
+++ b/metriken-core/src/formatter.rs
@@ -29,7 +29,7 @@ pub fn default_formatter(metric: &MetricEntry, format: Format) -> String {
             let metadata: Vec<String> = metric
                 .metadata()
                 .iter()
-                .map(|(key, value)| format!("{key}=\"{value}\""))
+                .map(|(key, value)| format!("{key}=\"{}\"", escape_label_value(value)))
                 .collect();
             let metadata = metadata.join(", ");
 
@@ -42,3 +42,11 @@ pub fn default_formatter(metric: &MetricEntry, format: Format) -> String {
         _ => metric.name().to_string(),
     }
 }
+
+/// Escape a label value as required by the Prometheus exposition format.
+fn escape_label_value(value: &str) -> String {
+    value
+        .replace('\\', "\\\\")
+        .replace('"', "\\\"")
+        .replace('\n', "\\n")
+}
-- 
2.43.0


From d9e9c1911ffe328d3693b4a6e6d20e6f673edddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:38 +0000
Subject: [PATCH 10/11] fix: AtomicHistogram::increment panicked for the first
 value out of range

Recording exactly 2^max_value_power indexed past the last bucket instead of
returning an error like every other value that is out of range.
---
 metriken/src/histogram.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metriken/src/histogram.rs b/metriken/src/histogram.rs
index 24bfd9e..d367d4b 100644
--- a/metriken/src/histogram.rs
+++ b/metriken/src/histogram.rs
@@ -41,6 +41,13 @@ impl AtomicHistogram {
 
     /// Increments the bucket for a corresponding value.
     pub fn increment(&self, value: u64) -> Result<(), Error> {
+        // The largest value is `2^max_value_power - 1`. The range check within
+        // the histogram itself lets `2^max_value_power` through and then panics.
+        let max_value_power = self.config.max_value_power();
+        if max_value_power < 64 && value >> max_value_power != 0 {
+            return Err(Error::OutOfRange);
+        }
+
         self.get_or_init().increment(value)
     }
 
-- 
2.43.0


From a12b66c2bdfb6f84d9d78ddaf121163b4bf0ee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:40 +0000
Subject: [PATCH 11/11] fix: build the parquet schema from the whole input,
 wherever its handle is positioned

---
 metriken-exposition/src/convert.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metriken-exposition/src/convert.rs b/metriken-exposition/src/convert.rs
index 69b415d..9401626 100644
--- a/metriken-exposition/src/convert.rs
+++ b/metriken-exposition/src/convert.rs
@@ -60,7 +60,9 @@ impl MsgpackToParquet {
         let mut reader = BufReader::new(reader);
         let mut schema = ParquetSchema::new();
 
-        // First pass to build the schema
+        // First pass to build the schema. Both passes must cover the whole input
+        // so don't rely on where the handle was positioned by the caller.
+        reader.rewind()?;
         while !reader.fill_buf()?.is_empty() {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
-- 
2.43.0

