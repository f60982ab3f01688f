From 59e595d1fe21cb9431d441f719a09cace29430dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 01/39] fix: size the runtime by NUM_CPUS, not by the address
 of num_cpus

---
 bd-rt/src/lib.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bd-rt/src/lib.rs b/bd-rt/src/lib.rs
index bb7a809..7964b9b 100644
--- a/bd-rt/src/lib.rs
+++ b/bd-rt/src/lib.rs
@@ -36,12 +36,10 @@ pub fn num_cpus() -> usize {
   if let Ok(num_cpus_env) = std::env::var("NUM_CPUS") {
     match num_cpus_env.parse::<f64>() {
       Ok(fractional_cpus) => {
-        if !fractional_cpus.is_normal() {
-          log::warn!(
-            "env variable NUM_CPUS set to subnormal float `{fractional_cpus}`; ignoring it"
-          );
+        if fractional_cpus.is_normal() {
+          return std::cmp::max(1, fractional_cpus as usize);
         }
-        return std::cmp::max(1, num_cpus as usize);
+        log::warn!("env variable NUM_CPUS set to subnormal float `{fractional_cpus}`; ignoring it");
       },
       Err(_) => {
         log::warn!("non-numeric value in `NUM_CPUS` environment variable; ignoring it");
-- 
2.43.0


From 6dd77dd71690803f0e33c5db91383bdbd6ea2a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 02/39] fix: do not allocate what a corrupt stored value claims
 to hold

---
 bd-key-value/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bd-key-value/src/lib.rs b/bd-key-value/src/lib.rs
index 56c0ef3..9a61535 100644
--- a/bd-key-value/src/lib.rs
+++ b/bd-key-value/src/lib.rs
@@ -114,7 +114,7 @@ impl Store {
         let result = base64::engine::general_purpose::STANDARD.decode(base64);
         Ok(result.map_or_else(
           |e| anyhow::bail!("failed to decode base64 value: {:?}", e),
-          |bytes| match bincode::deserialize_from::<_, T>(&bytes[..]) {
+          |bytes| match bincode::deserialize::<T>(&bytes) {
             Ok(model) => Ok(Some(model)),
             Err(e) => anyhow::bail!("failed to deserialize model: {:?}", e),
           },
-- 
2.43.0


From fa1f66e5e51cb9beafbe4475b5f4dc2ae86dc8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 03/39] fix: round up instants with a sub-second part in ceil

---
 bd-time/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bd-time/src/lib.rs b/bd-time/src/lib.rs
index 640e411..3bb94cc 100644
--- a/bd-time/src/lib.rs
+++ b/bd-time/src/lib.rs
@@ -78,7 +78,7 @@ impl OffsetDateTimeExt for OffsetDateTime {
 
     let unix_timestamp = self.unix_timestamp();
     let rem = unix_timestamp.rem_euclid(interval.whole_seconds());
-    if rem == 0 {
+    if rem == 0 && self.nanosecond() == 0 {
       return *self;
     }
 
-- 
2.43.0


From 08e704721ba44e8821a767cc0ab0b0c1e4897b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 04/39] fix: do not override an existing binary field when
 overriding is not allowed

---
 bd-log-filter/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/bd-log-filter/src/lib.rs b/bd-log-filter/src/lib.rs
index 3480d9c..3fb60d3 100644
--- a/bd-log-filter/src/lib.rs
+++ b/bd-log-filter/src/lib.rs
@@ -275,7 +275,7 @@ impl SetField {
   }
 
   fn apply(&self, log: &mut Log) {
-    if !self.is_override_allowed && log.field_value(&self.field_name).is_some() {
+    if !self.is_override_allowed && log.has_field(&self.field_name) {
       // Return if a field with the desired field name already exists and the transform is not
       // allowed to override existing values.
       return;
@@ -397,6 +397,9 @@ fn set_field(fields: &mut LogFields, field: LogField) {
 
 trait FieldProvider {
   fn field_value(&self, key: &str) -> Option<Cow<'_, str>>;
+
+  // Whether a field with a given key exists, whether or not its value is a string.
+  fn has_field(&self, key: &str) -> bool;
 }
 
 impl FieldProvider for Log {
@@ -414,4 +417,13 @@ impl FieldProvider for Log {
         .map(Into::into),
     }
   }
+
+  fn has_field(&self, key: &str) -> bool {
+    self.field_value(key).is_some()
+      || self
+        .fields
+        .iter()
+        .chain(self.matching_fields.iter())
+        .any(|f| f.key == key)
+  }
 }
-- 
2.43.0


From bad6f069cf148f8a65570266ce167c9fe1bcb2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 05/39] fix: count characters and not bytes in proto string
 length rules

---
 bd-pgv/src/proto_validate.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bd-pgv/src/proto_validate.rs b/bd-pgv/src/proto_validate.rs
index 8e00bf9..32e7bdb 100644
--- a/bd-pgv/src/proto_validate.rs
+++ b/bd-pgv/src/proto_validate.rs
@@ -220,7 +220,10 @@ fn validate_string(
   message: &dyn protobuf::MessageDyn,
 ) -> error::Result<()> {
   if let Some(ReflectValueRef::String(value)) = get_singular_or_default(field_descriptor, message) {
-    if rules.has_min_len() && rules.min_len() > value.len().try_into().unwrap() {
+    // Both lengths are specified in characters and not in bytes.
+    let length: u64 = value.chars().count().try_into().unwrap();
+
+    if rules.has_min_len() && rules.min_len() > length {
       return Err(error::Error::ProtoValidation(format!(
         "field '{}' in message '{}' requires string length >= {}",
         field_descriptor.full_name(),
@@ -229,7 +232,7 @@ fn validate_string(
       )));
     }
 
-    if rules.has_max_len() && rules.max_len() < value.len().try_into().unwrap() {
+    if rules.has_max_len() && rules.max_len() < length {
       return Err(error::Error::ProtoValidation(format!(
         "field '{}' in message '{}' requires string length <= {}",
         field_descriptor.full_name(),
-- 
2.43.0


From f80c17f695c65ec6435cf118d38adfc46a933e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 06/39] fix: account for records a cursor consumer goes past
 without handing them out

A corrupted record that a cursor consumer drops, or one that was reserved by a
process that went away before committing it, was never finished. All following
reads then advanced the read position by the size of the wrong record, which
leaves the buffer never drained, or unreadable.
---
 bd-buffer/src/buffer/common_ring_buffer.rs    | 28 +++++++++++++++++++
 .../src/buffer/non_volatile_ring_buffer.rs    | 25 +++++++++++++++--
 2 files changed, 50 insertions(+), 3 deletions(-)

diff --git a/bd-buffer/src/buffer/common_ring_buffer.rs b/bd-buffer/src/buffer/common_ring_buffer.rs
index 070b873..eb7db1d 100644
--- a/bd-buffer/src/buffer/common_ring_buffer.rs
+++ b/bd-buffer/src/buffer/common_ring_buffer.rs
@@ -666,6 +666,34 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
     guard.maybe_do_total_data_loss_reset();
   }
 
+  // Advance the next read up to the oldest outstanding cursor read, or up to the cursor if there is
+  // none. The records in between were never handed out, as they are corrupted or were reserved and
+  // never committed, so nobody else is going to finish them.
+  pub fn advance_read_to_cursor(
+    guard: &mut MutexGuard<'_, Self>,
+    conditions: &Conditions,
+    oldest_read: Option<u32>,
+  ) {
+    loop {
+      let target = oldest_read.or(guard.next_cursor_read_start);
+      if guard.pending_total_data_loss_reset
+        || guard.next_read_start().is_none()
+        || *guard.next_read_start() == target
+      {
+        return;
+      }
+      let Ok(size) = guard.load_next_read_size(Cursor::No) else {
+        guard.on_total_data_loss();
+        return;
+      };
+      let range = Range {
+        start: guard.next_read_start().unwrap(),
+        size: size + guard.extra_bytes_per_record,
+      };
+      Self::finish_read_common(guard, conditions, &range);
+    }
+  }
+
   // Finish a total data loss reset if there are no outstanding readers/writers.
   pub fn maybe_do_total_data_loss_reset(&mut self) {
     if !self.pending_total_data_loss_reset {
diff --git a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
index f0cf69c..73a9647 100644
--- a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
@@ -586,6 +586,10 @@ impl RingBufferCursorConsumer for CursorConsumerImpl {
       &parent.common_ring_buffer.conditions,
       &next_reservation,
     );
+    advance_read_to_cursor(
+      &mut common_ring_buffer,
+      &parent.common_ring_buffer.conditions,
+    );
     write_header_crc32(&mut common_ring_buffer);
     parent.no_consumer_reservation_condition.notify_all();
     Ok(())
@@ -1072,6 +1076,18 @@ fn compute_header_crc_32(
   })
 }
 
+// In cursor mode, advance past any records that the cursor has gone past without handing them out.
+fn advance_read_to_cursor(
+  common_ring_buffer: &mut MutexGuard<'_, LockedData<ExtraLockedData>>,
+  conditions: &Conditions,
+) {
+  let oldest_read = match common_ring_buffer.extra_locked_data.consumer.as_ref() {
+    Some(ConsumerType::CursorConsumer(c)) => c.front().map(|r| r.start),
+    _ => return,
+  };
+  LockedData::advance_read_to_cursor(common_ring_buffer, conditions, oldest_read);
+}
+
 // Common start read handling for regular and cursor consumers.
 fn common_consumer_start_read<'a>(
   common_ring_buffer: &'a mut MutexGuard<'_, LockedData<ExtraLockedData>>,
@@ -1113,16 +1129,19 @@ fn common_consumer_start_read<'a>(
 
         // What we do here depends on whether we are in cursor mode or not. If not in cursor mode
         // we need to finish the read so we advance past the record and can accept a new start
-        // read reservation. If we are in cursor mode, we can simply null out the reservation as
-        // it has not yet been committed to the reservation list.
+        // read reservation. If we are in cursor mode, the record has not been committed to the
+        // reservation list so nobody is going to finish it. We advance past it now, unless there
+        // are outstanding reads in front of it in which case this happens when they are finished.
         if matches!(cursor, Cursor::No) {
           LockedData::finish_read_common(
             common_ring_buffer,
             conditions,
             reservation.as_ref().unwrap(),
           );
-          write_header_crc32(common_ring_buffer);
+        } else {
+          advance_read_to_cursor(common_ring_buffer, conditions);
         }
+        write_header_crc32(common_ring_buffer);
 
         *reservation = None;
         continue;
-- 
2.43.0


From 272ab111d252cc56cb6aa2eb9229a3e0ebc9a1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 07/39] fix: keep processing flush requests after one that
 names an unknown buffer

---
 bd-buffer/src/ring_buffer.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bd-buffer/src/ring_buffer.rs b/bd-buffer/src/ring_buffer.rs
index 6416c10..c5002e1 100644
--- a/bd-buffer/src/ring_buffer.rs
+++ b/bd-buffer/src/ring_buffer.rs
@@ -213,7 +213,6 @@ impl Manager {
           buffer.flush();
         } else {
           log::debug!("buffer_id={buffer_id} signaled to flush not found");
-          return Ok(());
         }
       }
 
-- 
2.43.0


From a8ee4ebe5515d9611e6508941bab8730693ced80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 08/39] fix: wait in a cursor read while a total data loss
 reset is pending

The read retried at once, for ever, without yielding. As the reset can only
happen once the reads in flight are finished by the same task, it never did.
---
 bd-buffer/src/buffer/non_volatile_ring_buffer.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
index 73a9647..d921e57 100644
--- a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
@@ -528,7 +528,6 @@ impl RingBufferCursorConsumer for CursorConsumerImpl {
               "({}) read resulted in no entry, waiting for more data",
               parent.common_ring_buffer.locked_data.lock().name
             );
-            continue;
           },
           Err(e) => return Err(e),
         }
-- 
2.43.0


From eba36e9640735fc9d355d2940dedf863d0df4dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 09/39] fix: treat a cursor that gets back to unfinished reads
 as total data loss

With a corrupted record size the cursor can miss the last committed record, wrap,
and go around for ever.
---
 bd-buffer/src/buffer/common_ring_buffer.rs    | 22 +++++++++++++++++--
 .../src/buffer/non_volatile_ring_buffer.rs    | 19 ++++++++--------
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/bd-buffer/src/buffer/common_ring_buffer.rs b/bd-buffer/src/buffer/common_ring_buffer.rs
index eb7db1d..f11d968 100644
--- a/bd-buffer/src/buffer/common_ring_buffer.rs
+++ b/bd-buffer/src/buffer/common_ring_buffer.rs
@@ -319,6 +319,21 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
     Ok(size)
   }
 
+  // The cursor can wrap and get back to reads that have not been finished yet only if corruption
+  // made it miss the last committed record. It would then go around forever.
+  fn cursor_overtakes_reads(&mut self, next_read_size: u32, cursor: Cursor) -> bool {
+    let (Cursor::Yes, Some(start), Some(next_read_start)) =
+      (cursor, self.next_cursor_read_start, *self.next_read_start())
+    else {
+      return false;
+    };
+    if start == next_read_start {
+      return (self.has_read_reservation_cb)(&self.extra_locked_data);
+    }
+    let end = start + self.extra_bytes_per_record + next_read_size;
+    start < next_read_start && next_read_start < end
+  }
+
   // Checks to see if the wrap gap (the space after last_write_end_before_wrap) in this reservation
   // (if applicable) intersects with another range.
   const fn intersect_in_wrap_gap(
@@ -824,10 +839,13 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
       }
 
       match guard.load_next_read_size(cursor) {
-        Ok(next_read_size) => break next_read_size,
+        Ok(next_read_size) if !guard.cursor_overtakes_reads(next_read_size, cursor) => {
+          break next_read_size
+        },
+        // In this case we are fully corrupted, so reset the next read index to nothing to read.
+        Ok(_) => guard.on_total_data_loss(),
         Err(e) => {
           debug_assert!(matches!(e, Error::AbslStatus(AbslCode::DataLoss, _)));
-          // In this case we are fully corrupted, so reset the next read index to nothing to read.
           guard.on_total_data_loss();
         },
       }
diff --git a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
index d921e57..5c1288a 100644
--- a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
@@ -1126,21 +1126,22 @@ fn common_consumer_start_read<'a>(
           stat.inc();
         }
 
-        // What we do here depends on whether we are in cursor mode or not. If not in cursor mode
-        // we need to finish the read so we advance past the record and can accept a new start
-        // read reservation. If we are in cursor mode, the record has not been committed to the
-        // reservation list so nobody is going to finish it. We advance past it now, unless there
-        // are outstanding reads in front of it in which case this happens when they are finished.
-        if matches!(cursor, Cursor::No) {
+        // We need to finish the read so we advance past the record and can accept a new start read
+        // reservation. If we are in cursor mode and there are outstanding reads in front of the
+        // record it can't be finished yet. As it has not been committed to the reservation list
+        // nobody else is going to finish it, so we advance past it when they are finished.
+        let outstanding_cursor_reads = match common_ring_buffer.extra_locked_data.consumer.as_ref() {
+          Some(ConsumerType::CursorConsumer(c)) => !c.is_empty(),
+          _ => false,
+        };
+        if !outstanding_cursor_reads {
           LockedData::finish_read_common(
             common_ring_buffer,
             conditions,
             reservation.as_ref().unwrap(),
           );
-        } else {
-          advance_read_to_cursor(common_ring_buffer, conditions);
+          write_header_crc32(common_ring_buffer);
         }
-        write_header_crc32(common_ring_buffer);
 
         *reservation = None;
         continue;
-- 
2.43.0


From daf85f9c2a03824fa37f4ee596ad1e884897ca48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 10/39] fix: do not stop flushing at a record that does not fit
 into the non-volatile buffer

---
 bd-buffer/src/buffer/aggregate_ring_buffer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bd-buffer/src/buffer/aggregate_ring_buffer.rs b/bd-buffer/src/buffer/aggregate_ring_buffer.rs
index 6cde4c2..2543bec 100644
--- a/bd-buffer/src/buffer/aggregate_ring_buffer.rs
+++ b/bd-buffer/src/buffer/aggregate_ring_buffer.rs
@@ -91,6 +91,12 @@ impl SharedData {
           // reset processing.
           debug_assert_eq!(message, "pending total data loss reset");
         },
+        Err(Error::AbslStatus(AbslCode::InvalidArgument, ref message)) => {
+          // The per record overhead is larger in the non-volatile buffer, so if it is barely larger
+          // than the volatile buffer there are records that only fit into the latter. They can
+          // never be written, so drop them.
+          log::debug!("dropping record that does not fit: {message}");
+        },
         Err(e) => {
           debug_assert!(self.shutdown_flush_thread.load(Ordering::Relaxed));
           debug_assert!(
-- 
2.43.0


From 258c24a663cd5c76a6c38d9443d70d0c28c59271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 11/39] fix: complete a flush whose last record is overwritten

Nothing woke up the caller when the record it was waiting for did not get read but
overwritten, so it waited until an unrelated record happened to be at the same place.
---
 bd-buffer/src/buffer/common_ring_buffer.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/bd-buffer/src/buffer/common_ring_buffer.rs b/bd-buffer/src/buffer/common_ring_buffer.rs
index f11d968..f2f9cd4 100644
--- a/bd-buffer/src/buffer/common_ring_buffer.rs
+++ b/bd-buffer/src/buffer/common_ring_buffer.rs
@@ -452,6 +452,7 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
         let next_read_start = guard.next_read_start().unwrap();
         guard.zero_extra_data(next_read_start);
         guard.advance_next_read(next_read_actual_size, Cursor::No);
+        guard.maybe_complete_drain(conditions, next_read_start);
       } else {
         break;
       }
@@ -667,18 +668,22 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
     }
     log::trace!("({}) finish read {}", guard.name, reservation);
 
-    // TODO(mattklein123): Handle the case in which the target committed write start gets
-    // overwritten.
-    if let Some(wait_for_drain_data) = &guard.wait_for_drain_data {
-      if wait_for_drain_data.committed_write_start.is_none()
-        || wait_for_drain_data.committed_write_start.unwrap() == reservation.start
+    guard.maybe_complete_drain(conditions, reservation.start);
+    guard.maybe_do_total_data_loss_reset();
+  }
+
+  // Complete a pending wait for drain if the record that just went away, either because it was read
+  // or because it was overwritten, is the one that is being waited for.
+  fn maybe_complete_drain(&mut self, conditions: &Conditions, record_start: u32) {
+    if let Some(wait_for_drain_data) = &self.wait_for_drain_data {
+      if wait_for_drain_data
+        .committed_write_start
+        .map_or(true, |start| start == record_start)
       {
         conditions.drain_complete.notify_all();
-        guard.wait_for_drain_data = None;
+        self.wait_for_drain_data = None;
       }
     }
-
-    guard.maybe_do_total_data_loss_reset();
   }
 
   // Advance the next read up to the oldest outstanding cursor read, or up to the cursor if there is
-- 
2.43.0


From 545505440597b00bb3b0963b2bcf54fb9b0930cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:29 +0000
Subject: [PATCH 12/39] fix: keep a ring buffer's file open, and so locked,
 while it is mapped

The exclusive lock that stops a file backing two buffers at once was dropped with
the file handle where a mapping does not hold the open file (overlayfs, BSDs).
---
 bd-buffer/src/buffer/non_volatile_ring_buffer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
index 5c1288a..539d10f 100644
--- a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
@@ -699,6 +699,8 @@ impl LockHandle for LockHandleImpl {
 // shutdown.
 pub struct RingBufferImpl {
   _memory_do_not_use: MmapMut,
+  // Held for as long as the mapping is in use, as closing the file releases the exclusive lock.
+  _file: File,
   common_ring_buffer: CommonRingBuffer<ExtraLockedData>,
   no_consumer_reservation_condition: Condvar,
   no_producer_reservation_condition: Condvar,
@@ -846,6 +848,7 @@ impl RingBufferImpl {
 
     Ok(Arc::new(Self {
       _memory_do_not_use: memory,
+      _file: file,
       no_consumer_reservation_condition: Condvar::default(),
       no_producer_reservation_condition: Condvar::default(),
       common_ring_buffer: CommonRingBuffer::new(
-- 
2.43.0


From 2f292eb4552f86d3f3a815ca775bae741559e9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:06 +0000
Subject: [PATCH 13/39] fix: account for all active traversals of a workflow
 run stopped midway through a log

A run that exceeds its matched logs limit after some of its traversals were already
advanced subtracted the advanced number of traversals, which was never added.
---
 bd-workflows/src/workflow.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bd-workflows/src/workflow.rs b/bd-workflows/src/workflow.rs
index 9cf0d77..1e9a82e 100644
--- a/bd-workflows/src/workflow.rs
+++ b/bd-workflows/src/workflow.rs
@@ -102,6 +102,7 @@ impl Workflow {
     // starting at `index` in any given iteration of the loop.
     for index in (0 .. self.runs.len()).rev() {
       let run = &mut self.runs[index];
+      let initial_traversals_count = run.traversals_count();
       let run_result = run.process_log(config, log);
 
       result.incorporate_run_result(&run_result);
@@ -118,6 +119,7 @@ impl Workflow {
 
       let is_over_traversals_count_limit = *current_traversals_count > traversals_count_limit;
       let run_result_did_make_progress = run_result.did_make_progress();
+      let is_stopped = matches!(run_result.state, RunState::Stopped);
 
       match (run_result.state, is_over_traversals_count_limit) {
         // If after processing a given log by a workflow run we notice that we end up
@@ -135,7 +137,13 @@ impl Workflow {
             );
           }
 
-          let stopped_traversals_count = run.traversals_count();
+          // A run that stopped reports no created or completed traversals even if some of its
+          // traversals were advanced before it stopped, so all of those it started with go.
+          let stopped_traversals_count = if is_stopped {
+            initial_traversals_count
+          } else {
+            run.traversals_count()
+          };
           result.stats.stopped_traversals_count += stopped_traversals_count;
           *current_traversals_count =
             current_traversals_count.saturating_sub(stopped_traversals_count);
-- 
2.43.0


From a7b5f1176fbd8e6d995629748886642074d6147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 14/39] fix: forget a pending flush whose buffers were changed
 by a config update once it is decided

The pending action was looked up by equality, which failed after the update trimmed the
set of its buffers; it was then pending forever and prevented any later flush.
---
 bd-workflows/src/actions_flush_buffers.rs |  2 +-
 bd-workflows/src/engine.rs                | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/bd-workflows/src/actions_flush_buffers.rs b/bd-workflows/src/actions_flush_buffers.rs
index b992a9b..c011ef0 100644
--- a/bd-workflows/src/actions_flush_buffers.rs
+++ b/bd-workflows/src/actions_flush_buffers.rs
@@ -738,7 +738,7 @@ pub(crate) struct StreamingBuffersActionsProcessingResult<'a> {
 #[derive(Clone, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
 pub(crate) struct PendingFlushBuffersAction {
   pub(crate) id: String,
-  session_id: String,
+  pub(crate) session_id: String,
 
   trigger_buffer_ids: BTreeSet<Cow<'static, str>>,
 
diff --git a/bd-workflows/src/engine.rs b/bd-workflows/src/engine.rs
index 32bf67b..6ca0981 100644
--- a/bd-workflows/src/engine.rs
+++ b/bd-workflows/src/engine.rs
@@ -460,7 +460,7 @@ impl WorkflowsEngine {
               self.on_log_upload_approved(action).await;
           },
           NegotiatorOutput::UploadRejected(action) => {
-            self.state.pending_actions.remove(&action);
+            self.remove_pending_action(&action);
             self.needs_state_persistence = true;
           }
         }
@@ -468,8 +468,18 @@ impl WorkflowsEngine {
     }
   }
 
+  /// Removes the action from the list of pending actions. The set of its buffers may have been
+  /// changed by a config update after the negotiation for the action started, hence it cannot be
+  /// looked up by equality.
+  fn remove_pending_action(&mut self, action: &PendingFlushBuffersAction) {
+    self
+      .state
+      .pending_actions
+      .retain(|a| a.id != action.id || a.session_id != action.session_id);
+  }
+
   async fn on_log_upload_approved(&mut self, action: PendingFlushBuffersAction) {
-    self.state.pending_actions.remove(&action);
+    self.remove_pending_action(&action);
 
     // If there is already a pending buffer flush we don't want to signal another one, as
     // this would do nothing but mess up our tracking of the in-flight flush.
-- 
2.43.0


From 319b3d7aadfe2fb98e4fadbd48b07ab7249309f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 15/39] fix: stream only to those destination buffers of a
 flush that still exist

A destination that was removed while the flush was being negotiated was kept if at least
one other destination was still there.
---
 bd-workflows/src/actions_flush_buffers.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bd-workflows/src/actions_flush_buffers.rs b/bd-workflows/src/actions_flush_buffers.rs
index c011ef0..16a8b3a 100644
--- a/bd-workflows/src/actions_flush_buffers.rs
+++ b/bd-workflows/src/actions_flush_buffers.rs
@@ -884,10 +884,13 @@ impl StreamingBuffersAction {
       return None;
     };
 
-    if streaming
+    let destination_continuous_buffer_ids: BTreeSet<_> = streaming
       .destination_continuous_buffer_ids
-      .is_disjoint(continuous_buffer_ids)
-    {
+      .intersection(continuous_buffer_ids)
+      .cloned()
+      .collect();
+
+    if destination_continuous_buffer_ids.is_empty() {
       log::debug!(
         "buffers streaming not activated: specified continuous buffer IDs are either empty or \
          don't exist"
@@ -899,7 +902,7 @@ impl StreamingBuffersAction {
       id: action.id,
       session_id: action.session_id,
       source_trigger_buffer_ids: action.trigger_buffer_ids,
-      destination_continuous_buffer_ids: streaming.destination_continuous_buffer_ids,
+      destination_continuous_buffer_ids,
       max_logs_count: streaming.max_logs_count,
       logs_count: 0,
     })
-- 
2.43.0


From 8a69895ca1b45d0df8eb14d86faf894dac0304b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:40 +0000
Subject: [PATCH 16/39] fix: do not allocate what a corrupt workflows state
 file claims to hold

---
 bd-workflows/src/engine.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bd-workflows/src/engine.rs b/bd-workflows/src/engine.rs
index 6ca0981..22d6ae8 100644
--- a/bd-workflows/src/engine.rs
+++ b/bd-workflows/src/engine.rs
@@ -983,10 +983,10 @@ impl StateStore {
   }
 
   pub(self) fn load_state(&self) -> anyhow::Result<WorkflowsState> {
-    let file = File::open(self.state_path.as_path())?;
-    // Wrap file in buffer to deserialize efficiently in place
-    let buf_reader = BufReader::new(file);
-    Ok(bincode::deserialize_from::<_, WorkflowsState>(buf_reader)?)
+    // Deserialize from a slice as this bounds the lengths that a corrupted file may claim by the
+    // size of the file.
+    let bytes = std::fs::read(self.state_path.as_path())?;
+    Ok(bincode::deserialize::<WorkflowsState>(&bytes)?)
   }
 
   /// Stores states of the passed workflows if all pre-conditions are met.
-- 
2.43.0


From 17b3d82ff828a26cd0e7412b601730dfce434006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 17/39] fix: discard stored workflow runs that do not fit the
 config they are restored into

A corrupted state file, or one of another version of the config, led to indexes out of
bounds when the next log was processed.
---
 bd-workflows/src/engine.rs   |  1 +
 bd-workflows/src/workflow.rs | 17 +++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/bd-workflows/src/engine.rs b/bd-workflows/src/engine.rs
index 22d6ae8..ab66216 100644
--- a/bd-workflows/src/engine.rs
+++ b/bd-workflows/src/engine.rs
@@ -325,6 +325,7 @@ impl WorkflowsEngine {
 
   fn add_workflow(&mut self, workflow: Workflow, config: Config) {
     let mut workflow = workflow;
+    workflow.remove_incompatible_runs(&config);
 
     let workflow_traversals_count = workflow.traversals_count();
     if workflow_traversals_count + self.current_traversals_count > self.traversals_count_limit {
diff --git a/bd-workflows/src/workflow.rs b/bd-workflows/src/workflow.rs
index 1e9a82e..6b215b5 100644
--- a/bd-workflows/src/workflow.rs
+++ b/bd-workflows/src/workflow.rs
@@ -292,6 +292,12 @@ impl Workflow {
     self.runs.iter().map(Run::traversals_count).sum()
   }
 
+  /// Removes the runs that do not fit a given config, which is the case if the state of a workflow
+  /// was corrupted while stored on disk or comes from a different version of the config.
+  pub(crate) fn remove_incompatible_runs(&mut self, config: &Config) {
+    self.runs.retain(|run| run.is_compatible_with(config));
+  }
+
   pub(crate) fn needs_new_run(&self) -> bool {
     if self.runs.is_empty() {
       // Create a new run if there is no runs left. This can happen if all runs were completed as
@@ -571,6 +577,17 @@ impl Run {
     &self.traversals
   }
 
+  fn is_compatible_with(&self, config: &Config) -> bool {
+    self.traversals.iter().all(|traversal| {
+      config
+        .states()
+        .get(traversal.state_index)
+        .map_or(false, |state| {
+          state.transitions().len() == traversal.matched_logs_counts.len()
+        })
+    })
+  }
+
   fn process_log<'a>(&mut self, config: &'a Config, log: &LogRef<'_>) -> RunResult<'a> {
     // Optimize for the case when no traversal is advanced as it's
     // the most common situation.
-- 
2.43.0


From fd6e02935825c4414ea9f57f22fb69af24c8483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:15 +0000
Subject: [PATCH 18/39] fix: do not index into an empty list of pending stats
 files

---
 bd-client-stats/src/file_manager.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/bd-client-stats/src/file_manager.rs b/bd-client-stats/src/file_manager.rs
index ce5958e..87d2e91 100644
--- a/bd-client-stats/src/file_manager.rs
+++ b/bd-client-stats/src/file_manager.rs
@@ -253,7 +253,10 @@ impl FileManager {
     });
 
     if create_new_snapshot {
-      if self.max_aggregated_files.read() <= u32::try_from(initialized_inner.index.len()).unwrap() {
+      if !initialized_inner.index.is_empty()
+        && self.max_aggregated_files.read()
+          <= u32::try_from(initialized_inner.index.len()).unwrap()
+      {
         log::debug!("max files reached, popping oldest snapshot");
         initialized_inner.delete_oldest_snapshot().await?;
       }
@@ -408,20 +411,19 @@ impl FileManager {
   // Called when a pending upload returned from `get_or_create_pending_upload` is successfully
   // uploaded
   pub async fn complete_pending_upload(&self, uuid: &str) -> anyhow::Result<()> {
-    // We should always have an entry to complete if this code runs.
     let mut inner = self.inner.lock().await;
     let initialized_inner = inner.get_initialized().await?;
 
-    if initialized_inner.index[0].name != uuid {
+    if initialized_inner
+      .index
+      .front()
+      .map_or(true, |file| file.name != uuid)
+    {
       // There is a race condition in which we could theoretically have reached max files, but
       // there is an upload in flight that comes back after we already popped the first entry.
       // We could handle this by having the max file code not pop inflight uploads, but that is
       // more complicated than just ignoring the response here.
-      log::debug!(
-        "pending upload {} does not match expected {}",
-        initialized_inner.index[0].name,
-        uuid
-      );
+      log::debug!("oldest pending upload, if any, does not match expected {uuid}");
       return Ok(());
     }
 
-- 
2.43.0


From 49b209b4159be46cc01dc62ff9834ca9fcd10852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:06 +0000
Subject: [PATCH 19/39] fix: let stats files be initialized again after a
 failed attempt

---
 bd-client-stats/src/file_manager.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bd-client-stats/src/file_manager.rs b/bd-client-stats/src/file_manager.rs
index 87d2e91..dd905b8 100644
--- a/bd-client-stats/src/file_manager.rs
+++ b/bd-client-stats/src/file_manager.rs
@@ -183,8 +183,9 @@ impl Inner {
     // entire directory as there is no reasonable way to manage the contents.
     match self {
       Self::Initialized(inner) => Ok(inner),
-      Self::NotInitialized(file_system) => {
-        let file_system = file_system.take().unwrap();
+      Self::NotInitialized(pending_file_system) => {
+        // Only taken once initialization cannot fail anymore so that it can be tried again.
+        let file_system = pending_file_system.as_ref().unwrap();
         let path = STATS_DIRECTORY.join(&*PENDING_AGGREGATION_INDEX_FILE);
         log::debug!("initializing pending aggregation index: {}", path.display());
         let index = match file_system
@@ -203,6 +204,7 @@ impl Inner {
           },
         };
 
+        let file_system = pending_file_system.take().unwrap();
         *self = Self::Initialized(InitializedInner {
           file_system,
           index: index.pending_files.into(),
-- 
2.43.0


From 5f2c32bb88127b99851e1bfdf3b659697e4df2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 20/39] fix: drop stored metrics of unsupported kinds instead
 of panicking

---
 bd-client-stats/src/stats.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bd-client-stats/src/stats.rs b/bd-client-stats/src/stats.rs
index 597f1e9..de49d3b 100644
--- a/bd-client-stats/src/stats.rs
+++ b/bd-client-stats/src/stats.rs
@@ -390,9 +390,15 @@ impl SnapshotHelper {
 
     let mut new_metrics = HashMap::new();
     for metric in metrics.metric {
+      // The file might have been written by a version with other kinds of metrics. These cannot be
+      // merged and are lost.
+      let Some(metric_data) = metric.data.and_then(MetricData::from_proto) else {
+        log::debug!("dropping unsupported metric from snapshot: {}", metric.name);
+        continue;
+      };
+
       let id = Id::new(metric.name, metric.tags.into_iter().collect());
-      let metric = MetricData::from_proto(metric.data.unwrap()).unwrap();
-      let existing = new_metrics.insert(id, metric);
+      let existing = new_metrics.insert(id, metric_data);
       debug_assert!(existing.is_none());
     }
 
-- 
2.43.0


From 5b91b52568a1cfe5659710ab623f29f657576648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:06 +0000
Subject: [PATCH 21/39] fix: do not take a truncated compressed file for a
 whole one

---
 bd-client-common/src/file.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/bd-client-common/src/file.rs b/bd-client-common/src/file.rs
index ac6c5c6..c683b31 100644
--- a/bd-client-common/src/file.rs
+++ b/bd-client-common/src/file.rs
@@ -6,8 +6,8 @@
 // https://polyformproject.org/wp-content/uploads/2020/06/PolyForm-Shield-1.0.0.txt
 
 use crate::zlib::DEFAULT_MOBILE_ZLIB_COMPRESSION_LEVEL;
-use flate2::read::{ZlibDecoder, ZlibEncoder};
-use flate2::Compression;
+use flate2::read::ZlibEncoder;
+use flate2::{Compression, Decompress, FlushDecompress, Status};
 use std::io::Read;
 
 pub fn write_compressed_protobuf<T: protobuf::Message>(message: &T) -> Vec<u8> {
@@ -26,16 +26,35 @@ pub fn read_compressed_protobuf<T: protobuf::Message>(
 ) -> anyhow::Result<T> {
   // We should never write empty files. If there is no data this was a partial write, full disk
   // issue, or some other problem. We use zlib for compression which includes a CRC at the end
-  // so as long as the file is not empty we can be sure that the data is not corrupted.
+  // so as long as we get to the end of the stream we can be sure that the data is not corrupted.
   if compressed_bytes.is_empty() {
     anyhow::bail!("unexpected empty file");
   }
 
   // The files are likely not large enough to deal with streaming decompression on top of flate2.
   // For now we just read the entire thing and then decompress it in memory. We can consider
-  // streaming later.
-  let mut decoder = ZlibDecoder::new(compressed_bytes);
+  // streaming later. Note that the flate2 readers take a truncated stream for a shorter one, so we
+  // need to look for the end of the stream ourselves.
+  let mut decompress = Decompress::new(true);
+  let mut bytes = Vec::with_capacity(4 * compressed_bytes.len());
+  let mut remaining = compressed_bytes;
+  loop {
+    let (total_in, total_out) = (decompress.total_in(), decompress.total_out());
+    let status = decompress.decompress_vec(remaining, &mut bytes, FlushDecompress::None)?;
+    let consumed = decompress.total_in() - total_in;
+    remaining = &remaining[usize::try_from(consumed)? ..];
+
+    if status == Status::StreamEnd {
+      break;
+    }
+    if bytes.len() == bytes.capacity() {
+      bytes.reserve(bytes.capacity());
+    } else if consumed == 0 && decompress.total_out() == total_out {
+      anyhow::bail!("unexpected end of compressed file");
+    }
+  }
+
   // In the future if/when we switch to using Bytes/Chars in the compiled proto it may be more
   // efficient to read out the uncompressed into Bytes and then parse from that.
-  Ok(T::parse_from_reader(&mut decoder)?)
+  Ok(T::parse_from_bytes(&bytes)?)
 }
-- 
2.43.0


From 9d6ffd911b387a8fdf3695555c7f588775751106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 22/39] fix: decompress each message from a fresh state and to
 its end

A message that could not be decompressed left the decompressor of the thread
unusable, so every later compressed message on that thread failed, of other
streams too. A compressed message that was cut short was taken for a whole one.
---
 bd-grpc-codec/src/lib.rs | 41 ++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/bd-grpc-codec/src/lib.rs b/bd-grpc-codec/src/lib.rs
index 1344e04..0aa33b8 100644
--- a/bd-grpc-codec/src/lib.rs
+++ b/bd-grpc-codec/src/lib.rs
@@ -16,6 +16,7 @@ use bd_client_common::error::handle_unexpected_error_with_details;
 use bd_stats_common::DynCounter;
 use bytes::{Buf, BufMut, Bytes, BytesMut};
 use flate2::write::{ZlibDecoder, ZlibEncoder};
+use flate2::{Decompress, FlushDecompress, Status};
 use protobuf::{CodedOutputStream, Message};
 use std::cell::RefCell;
 use std::io::Write;
@@ -244,6 +245,35 @@ impl<MessageType: protobuf::Message> Encoder<MessageType> {
   }
 }
 
+// Decompresses a complete zlib stream. Anything but exactly one complete stream is an error.
+fn decompress_all(decompressor: &mut Decompress, compressed: &[u8]) -> Result<Vec<u8>> {
+  let mut bytes = Vec::with_capacity(2 * compressed.len());
+  let mut remaining = compressed;
+  loop {
+    let (total_in, total_out) = (decompressor.total_in(), decompressor.total_out());
+    let status = decompressor
+      .decompress_vec(remaining, &mut bytes, FlushDecompress::None)
+      .map_err(std::io::Error::from)?;
+    #[allow(clippy::cast_possible_truncation)]
+    let consumed = (decompressor.total_in() - total_in) as usize;
+    remaining = &remaining[consumed ..];
+
+    if status == Status::StreamEnd {
+      break;
+    }
+    if bytes.len() == bytes.capacity() {
+      bytes.reserve(bytes.capacity().max(64));
+    } else if consumed == 0 && decompressor.total_out() == total_out {
+      return Err(Error::Protocol("incomplete compressed message"));
+    }
+  }
+
+  if !remaining.is_empty() {
+    return Err(Error::Protocol("data after compressed message"));
+  }
+  Ok(bytes)
+}
+
 //
 // Decompressor
 //
@@ -385,18 +415,17 @@ impl<MessageType: Message> Decoder<MessageType> {
       },
       Some(Decompressor::StatelessZlib) => {
         thread_local! {
-          static DECOMPRESSOR: RefCell<ZlibDecoder<Vec<u8>>> =
-            RefCell::new(ZlibDecoder::new(Vec::new()));
+          static DECOMPRESSOR: RefCell<Decompress> = RefCell::new(Decompress::new(true));
         }
 
         // TODO(mattklein123): For mobile we only ever use a single thread for communication, though
         // this will still keep the memory allocated. We could consider doing on demand allocation
         // for that case.
-        // TODO(mattklein123): Using Decompress here directly should remove some copies that are
-        // required by using the writer interface.
         DECOMPRESSOR.with_borrow_mut(|decompressor| {
-          decompressor.write_all(&compressed)?;
-          decompressor.reset(Vec::new())
+          // The previous message on this thread, possibly of another stream, may have failed
+          // midway.
+          decompressor.reset(true);
+          decompress_all(decompressor, &compressed)
         })?
       },
     };
-- 
2.43.0


From 57f770beadb536d8c39c9fb418791ac2385e94a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:35 +0000
Subject: [PATCH 23/39] fix: count only failed uploads against the retry limit

A log upload which succeeded (or was canceled) on its last permitted attempt
was reported as having exceeded the retry limit, with its logs counted as
dropped. The remaining attempts shown in the debug log also underflowed when
the limit was lowered while an upload was being retried.
---
 bd-logger/src/service.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/bd-logger/src/service.rs b/bd-logger/src/service.rs
index 70dcd4f..2585f7c 100644
--- a/bd-logger/src/service.rs
+++ b/bd-logger/src/service.rs
@@ -222,7 +222,7 @@ impl RetryPolicy {
   }
 
   fn remaining(&self) -> u32 {
-    self.max_retries.read() - self.attempts
+    self.max_retries.read().saturating_sub(self.attempts)
   }
 }
 
@@ -234,6 +234,12 @@ impl tower::retry::Policy<UploadRequest, UploadResult, Infallible> for RetryPoli
     req: &mut UploadRequest,
     result: &mut std::result::Result<UploadResult, Infallible>,
   ) -> Option<Self::Future> {
+    // Only a failed upload is subject to retries, so do not count a success or a canceled upload
+    // which took place on the last permitted attempt as having exceeded the limit.
+    if !matches!(result, Ok(UploadResult::Failure)) {
+      return None;
+    }
+
     log::debug!(
       "considering request with {} logs, {} attempts left",
       req.log_upload.logs.len(),
@@ -254,16 +260,13 @@ impl tower::retry::Policy<UploadRequest, UploadResult, Infallible> for RetryPoli
     let backoff_delay = backoff.next_backoff().unwrap();
     self.attempts += 1;
 
-    match result {
-      Ok(UploadResult::Failure) => Some(Box::pin(async move {
-        log::trace!(
-          "waiting for {}ms for next attempt",
-          backoff_delay.as_millis()
-        );
-        tokio::time::sleep(backoff_delay).await;
-      })),
-      _ => None,
-    }
+    Some(Box::pin(async move {
+      log::trace!(
+        "waiting for {}ms for next attempt",
+        backoff_delay.as_millis()
+      );
+      tokio::time::sleep(backoff_delay).await;
+    }))
   }
 
   fn clone_request(&mut self, req: &UploadRequest) -> Option<UploadRequest> {
-- 
2.43.0


From da9717df39f18b45b9bd912f6f8dd8ffc6ac3d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:45 +0000
Subject: [PATCH 24/39] fix: do not wait for a removed buffer's trigger upload

Removing a trigger buffer while its upload was under way blocked the API task
on an upload which itself waits for the API task, so neither made progress
again. Drop the upload when its buffer is removed or the manager shuts down.
---
 bd-logger/src/consumer.rs | 40 ++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/bd-logger/src/consumer.rs b/bd-logger/src/consumer.rs
index d265da8..771f28f 100644
--- a/bd-logger/src/consumer.rs
+++ b/bd-logger/src/consumer.rs
@@ -188,30 +188,35 @@ impl BufferUploadManager {
         let buffer_id_clone = buffer_id.clone();
         let internal_logger = self.logging.clone();
         let shutdown_trigger = ComponentShutdownTrigger::default();
-        let shutdown = shutdown_trigger.make_shutdown();
+        let mut shutdown = shutdown_trigger.make_shutdown();
         let (single_upload_complete_tx, single_upload_complete_rx) =
           tokio::sync::oneshot::channel();
         buffer_upload_completions.push(single_upload_complete_rx);
         tokio::task::spawn(
           async move {
-            // Handle the error here so that we can fire the complete message even on failure.
-            match trigger_consumer.run().await {
-              Ok(logs_count) => internal_logger.log_internal(&format!(
-                "completed trigger upload for buffer {buffer_id_clone:?}, uploaded logs count: \
-                 {logs_count:?}",
+            // Bail out if the buffer is removed or the upload manager goes away. Both wait for this
+            // task, and the former does so while blocking the API task that performs the uploads.
+            tokio::select! {
+              () = shutdown.cancelled() => internal_logger.log_internal(&format!(
+                "canceled trigger upload for buffer {buffer_id_clone:?}"
               )),
-              Err(e) => {
-                internal_logger.log_internal(&format!(
-                  "failed trigger upload for buffer {buffer_id_clone:?}: {e:?}"
-                ));
-                handle_unexpected_error_with_details(e, "", || None);
+              // Handle the error here so that we can fire the complete message even on failure.
+              result = trigger_consumer.run() => match result {
+                Ok(logs_count) => internal_logger.log_internal(&format!(
+                  "completed trigger upload for buffer {buffer_id_clone:?}, uploaded logs count: \
+                   {logs_count:?}",
+                )),
+                Err(e) => {
+                  internal_logger.log_internal(&format!(
+                    "failed trigger upload for buffer {buffer_id_clone:?}: {e:?}"
+                  ));
+                  handle_unexpected_error_with_details(e, "", || None);
+                },
               },
-            };
+            }
 
             single_upload_complete_tx.send(()).unwrap();
 
-            // TODO(mattklein123): Should we pass this into the trigger consumer and actually
-            // try to bail quickly if it's taking a long time and we are trying to shutdown?
             drop(shutdown);
             upload_complete_tx
               .send(buffer_id_clone)
@@ -224,8 +229,6 @@ impl BufferUploadManager {
           )),
         );
 
-        // We never cancel the trigger uploads directly, so just reuse the top level shutdown
-        // token.
         self
           .shutdowns
           .insert(buffer_id.to_string(), shutdown_trigger);
@@ -714,9 +717,8 @@ impl CompleteBufferUpload {
       .await
       .unwrap_infallible();
 
-    // Note that we don't keep a shutdown handle for trigger uploads since we don't ever try to
-    // cancel them, so we don't anything extra here to avoid deadlocking like in the other two
-    // consumer tasks.
+    // Note that we don't do anything extra here to avoid deadlocking like in the other two consumer
+    // tasks as the trigger upload as a whole is dropped on shutdown.
 
     log::debug!("completed trigger batch upload with result: {:?}", result);
 
-- 
2.43.0


From a7c485691e233576a29174303bfe3afd6670184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:24 +0000
Subject: [PATCH 25/39] fix: keep logs whose upload is canceled on shutdown

A continuous upload canceled by shutdown advanced the read cursor past its
logs, and a trigger upload read, and dropped, everything that was left in the
buffer. Leave them to be uploaded by the next process.
---
 bd-logger/src/consumer.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/bd-logger/src/consumer.rs b/bd-logger/src/consumer.rs
index 771f28f..0941438 100644
--- a/bd-logger/src/consumer.rs
+++ b/bd-logger/src/consumer.rs
@@ -9,7 +9,7 @@
 #[path = "./consumer_test.rs"]
 mod consumer_test;
 
-use crate::service::{self, UploadRequest};
+use crate::service::{self, UploadRequest, UploadResult};
 use anyhow::anyhow;
 use bd_api::upload::LogBatch;
 use bd_api::{DataUpload, TriggerUpload};
@@ -535,7 +535,13 @@ impl ContinuousBufferUploader {
 
     log::debug!("completed continuous upload with result: {:?}", result);
 
-    // Regardless of the outcome of the upload, advance the read cursor to mark the records as
+    // The upload is also canceled on shutdown, in which case the logs must be left in the buffer to
+    // be uploaded by the next process.
+    if matches!(result, UploadResult::Canceled) {
+      return Ok(());
+    }
+
+    // Regardless of whether the upload succeeded, advance the read cursor to mark the records as
     // written.
     for _ in 0 .. logs_len {
       self.consumer.advance_read_cursor()?;
@@ -682,7 +688,7 @@ impl CompleteBufferUpload {
         // No more logs available, flush current batch if there are any logs.
         Err(Error::AbslStatus(AbslCode::Unavailable, _)) => {
           if !self.batch_builder.logs.is_empty() {
-            self.flush_batch().await?;
+            self.flush_batch().await;
           }
 
           log::debug!("trigger upload complete, sent {} logs", total_logs);
@@ -692,13 +698,16 @@ impl CompleteBufferUpload {
         Err(e) => return Err(e.into()),
       }
 
-      if self.batch_builder.limit_reached() {
-        self.flush_batch().await?;
+      // Leave what is left in the buffer if we are shutting down.
+      if self.batch_builder.limit_reached()
+        && matches!(self.flush_batch().await, UploadResult::Canceled)
+      {
+        return Ok(total_logs);
       }
     }
   }
 
-  async fn flush_batch(&mut self) -> anyhow::Result<()> {
+  async fn flush_batch(&mut self) -> UploadResult {
     let logs = self.batch_builder.take();
 
     log::debug!("flushing {} logs", logs.len());
@@ -722,6 +731,6 @@ impl CompleteBufferUpload {
 
     log::debug!("completed trigger batch upload with result: {:?}", result);
 
-    Ok(())
+    result
   }
 }
-- 
2.43.0


From 2687d84244303dfee7df1ad5a94beb99c8bbc826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:18 +0000
Subject: [PATCH 26/39] fix: reject an invalid buffer matcher before updating
 the buffers

---
 bd-logger/src/client_config.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bd-logger/src/client_config.rs b/bd-logger/src/client_config.rs
index 881121a..b6be4b6 100644
--- a/bd-logger/src/client_config.rs
+++ b/bd-logger/src/client_config.rs
@@ -249,6 +249,10 @@ impl ApplyConfig for LoggerUpdate {
       filters,
     } = configuration;
 
+    // Parse everything that may fail before touching the buffers, so that a configuration that is
+    // rejected leaves the previously applied one intact.
+    let buffer_selector = bd_matcher::buffer_selector::BufferSelector::new(&buffer)?;
+
     let maybe_stream_buffer = self
       .buffer_manager
       .update_from_config(&buffer, !bdtail.active_streams.is_empty())
@@ -277,7 +281,7 @@ impl ApplyConfig for LoggerUpdate {
       .config_update_tx
       .send(ConfigUpdate {
         buffer_producers: BufferProducers::new(&self.buffer_manager)?,
-        buffer_selector: bd_matcher::buffer_selector::BufferSelector::new(&buffer)?,
+        buffer_selector,
         // TODO(Augustyniak): Propagate the information about invalid workflows to server.
         workflows_configuration,
         tail_configs: TailConfigurations::new(
-- 
2.43.0


From 16be41b3acaf439e49ade4b95bc056852221250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:18 +0000
Subject: [PATCH 27/39] fix: emit a synthetic log unless the log is in a buffer
 being flushed

---
 bd-logger/src/log_replay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bd-logger/src/log_replay.rs b/bd-logger/src/log_replay.rs
index 6075c91..230bfe4 100644
--- a/bd-logger/src/log_replay.rs
+++ b/bd-logger/src/log_replay.rs
@@ -439,7 +439,7 @@ impl ProcessingPipeline {
     // Therefore, we assume that the log ends up being uploaded only if it is directed to one of the
     // trigger buffers that is about to be flushed.
     let written_to_flushed_trigger_buffer =
-      !written_to_buffers.is_disjoint(&buffers.trigger_buffer_ids);
+      !written_to_buffers.is_disjoint(triggered_flushes_buffer_ids);
 
     let is_log_about_to_be_uploaded =
       written_to_continuous_buffer || written_to_flushed_trigger_buffer;
-- 
2.43.0


From 08551b9684aa68341611e95efc6ee3fef78e1076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:29 +0000
Subject: [PATCH 28/39] fix: do not assert that a persisted configuration that
 was cut short applies

---
 bd-logger/src/client_config.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/bd-logger/src/client_config.rs b/bd-logger/src/client_config.rs
index b6be4b6..766c3ff 100644
--- a/bd-logger/src/client_config.rs
+++ b/bd-logger/src/client_config.rs
@@ -154,14 +154,15 @@ impl<A: ApplyConfig> Config<A> {
       // TODO(snowp): Track failures here via analytic events.
       let configuration_update: ConfigurationUpdate = ConfigurationUpdate::parse_from_bytes(&data)?;
 
-      // If this function succeeds, it should write back the file to disk.
-      let maybe_nack = self
+      // If this function succeeds, it should write back the file to disk. The file may have been cut
+      // short by a crash, in which case what is left of it may not apply. We effectively drop such
+      // config on startup as it's not written back.
+      if let Err(e) = self
         .process_configuration_update(&configuration_update)
-        .await;
-
-      // We should never persist config that results in a Nack, but if we do we effectively drop the
-      // config on startup as the above function won't write it back.
-      debug_assert!(maybe_nack.is_ok());
+        .await
+      {
+        log::debug!("failed to apply persisted config: {e}");
+      }
 
       Ok(())
     };
-- 
2.43.0


From 85ed93f6ced2ca8955334d3cec88cc4c2eaede3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:38 +0000
Subject: [PATCH 29/39] fix: flush stats while an upload waits to be handed
 over

---
 bd-client-stats/src/stats.rs | 49 +++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/bd-client-stats/src/stats.rs b/bd-client-stats/src/stats.rs
index de49d3b..1f3ad97 100644
--- a/bd-client-stats/src/stats.rs
+++ b/bd-client-stats/src/stats.rs
@@ -26,9 +26,11 @@ use bd_time::TimeDurationExt;
 #[cfg(test)]
 use stats_test::{TestHooks, TestHooksReceiver};
 use std::collections::HashMap;
+use std::future::Future;
+use std::pin::Pin;
 use std::sync::Arc;
 use time::Duration;
-use tokio::sync::{mpsc, oneshot, watch};
+use tokio::sync::{mpsc, watch};
 
 //
 // Ticker
@@ -82,6 +84,9 @@ impl Ticker for RuntimeWatchTicker {
 // Flusher
 //
 
+/// An upload in progress.
+type PendingUpload = Pin<Box<dyn Future<Output = UploadResponse> + Send>>;
+
 /// Responsible for periodically flushing the stats store to a locally aggregated file.
 pub struct Flusher {
   stats: Arc<Stats>,
@@ -129,7 +134,7 @@ impl Flusher {
   }
 
   pub async fn periodic_flush(mut self) {
-    let mut upload_rx = None;
+    let mut upload_rx: Option<PendingUpload> = None;
     loop {
       tokio::select! {
         Some(completion_tx) = self.flush_rx.recv() => {
@@ -152,9 +157,7 @@ impl Flusher {
           upload_rx = self.upload_from_disk(false).await;
         },
         upload_result = async { upload_rx.as_mut().unwrap().await }, if upload_rx.is_some() => {
-          upload_rx = self.process_pending_upload_completion(
-            upload_result.unwrap_or(UploadResponse { success: false, uuid: String::new() })
-          ).await;
+          upload_rx = self.process_pending_upload_completion(upload_result).await;
 
           #[cfg(test)]
           self.test_hooks.sender.upload_complete_tx.send(()).await.unwrap();
@@ -282,17 +285,17 @@ impl Flusher {
   async fn upload_from_disk(
     &self,
     only_if_file_is_old: bool,
-  ) -> Option<oneshot::Receiver<UploadResponse>> {
+  ) -> Option<PendingUpload> {
     async fn inner(
       flusher: &Flusher,
       only_if_file_is_old: bool,
-    ) -> anyhow::Result<Option<oneshot::Receiver<UploadResponse>>> {
+    ) -> anyhow::Result<Option<PendingUpload>> {
       if let Some(pending_upload) = flusher
         .file_manager
         .get_or_create_pending_upload(only_if_file_is_old)
         .await?
       {
-        return flusher.process_pending_upload(pending_upload).await;
+        return Ok(Some(flusher.process_pending_upload(pending_upload)));
       }
       Ok(None)
     }
@@ -313,11 +316,10 @@ impl Flusher {
   }
 
   // Attempts to upload the provided stats request. Upon success, the file containing the pending
-  // request will be deleted.
-  async fn process_pending_upload(
-    &self,
-    request: StatsUploadRequest,
-  ) -> anyhow::Result<Option<oneshot::Receiver<UploadResponse>>> {
+  // request will be deleted. Handing the request over is a part of the returned future: the other
+  // end of the channel may not accept it for as long as there is no network, and we must be able to
+  // flush to disk in the meantime.
+  fn process_pending_upload(&self, request: StatsUploadRequest) -> PendingUpload {
     let (stats, response_rx) = TrackedStatsUploadRequest::new(request.upload_uuid.clone(), request);
 
     log::debug!(
@@ -333,19 +335,26 @@ impl Flusher {
 
     let tracked_upload = DataUpload::StatsUploadRequest(stats);
 
-    // If this errors out the other end of the channel has closed, indicating that we are shutting
-    // down.
-    if self.data_flush_tx.send(tracked_upload).await.is_err() {
-      return Ok(None);
-    }
+    let data_flush_tx = self.data_flush_tx.clone();
+    Box::pin(async move {
+      let response = match data_flush_tx.send(tracked_upload).await {
+        Ok(()) => response_rx.await.ok(),
+        // If this errors out the other end of the channel has closed, indicating that we are
+        // shutting down.
+        Err(_) => None,
+      };
 
-    Ok(Some(response_rx))
+      response.unwrap_or(UploadResponse {
+        success: false,
+        uuid: String::new(),
+      })
+    })
   }
 
   async fn process_pending_upload_completion(
     &self,
     upload_response: UploadResponse,
-  ) -> Option<oneshot::Receiver<UploadResponse>> {
+  ) -> Option<PendingUpload> {
     log::debug!("stat upload attempt complete: {:?}", upload_response);
     if upload_response.success {
       // If this fails we are in a bad state and are likely going to end up double uploading, but
-- 
2.43.0


From 67437357a51834ce254069880120922b0343d422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:25 +0000
Subject: [PATCH 30/39] fix: write grpc status messages so that every text is a
 valid header, and read them back

A status message in the trailers of a stream was written as it is: a message with characters that a header
cannot hold panicked, and the client saw a clean end. Messages in response headers were encoded, but no client decoded them.
---
 bd-grpc/src/lib.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/bd-grpc/src/lib.rs b/bd-grpc/src/lib.rs
index 1e5828f..54b68c6 100644
--- a/bd-grpc/src/lib.rs
+++ b/bd-grpc/src/lib.rs
@@ -231,9 +231,7 @@ impl Status {
           .to_str()
           .unwrap_or_default(),
       ),
-      message: headers
-        .get(GRPC_MESSAGE)
-        .and_then(|value| value.to_str().ok().map(ToString::to_string)),
+      message: headers.get(GRPC_MESSAGE).map(Self::decode_message),
     }
   }
 
@@ -250,16 +248,22 @@ impl Status {
       .header(CONTENT_TYPE, CONTENT_TYPE_GRPC)
       .header(GRPC_STATUS, self.code.to_int());
 
-    if self.message.is_some() {
-      // We need to make sure the message is a valid header so we URL encode it to be sure.
-      let encoded = urlencoding::encode(self.message.as_ref().unwrap());
-      let header_value = HeaderValue::from_str(&encoded).unwrap();
-
-      builder = builder.header(GRPC_MESSAGE, header_value);
+    if let Some(message) = &self.message {
+      builder = builder.header(GRPC_MESSAGE, Self::encode_message(message));
     }
 
     builder.body(body).unwrap()
   }
+
+  // We need to make sure the message is a valid header so we URL encode it to be sure.
+  fn encode_message(message: &str) -> HeaderValue {
+    HeaderValue::from_str(&urlencoding::encode(message)).unwrap()
+  }
+
+  // The inverse of the above. What is not valid is kept as well as possible, as per the gRPC spec.
+  fn decode_message(value: &HeaderValue) -> String {
+    String::from_utf8_lossy(&urlencoding::decode_binary(value.as_bytes())).into_owned()
+  }
 }
 
 impl std::fmt::Display for Status {
@@ -768,7 +772,7 @@ impl<OutgoingType: Message, IncomingType: MessageFull>
 
             let status = Status {
               code,
-              message: grpc_message.map(|v| v.to_str().unwrap_or_default().to_string()),
+              message: grpc_message.map(Status::decode_message),
             };
             return Err(Error::Grpc(status));
           }
@@ -846,7 +850,7 @@ impl<ResponseType: Message> StreamingApiSender<ResponseType> {
       HeaderValue::from_str(&status.code.to_int().to_string()).unwrap(),
     );
     if let Some(message) = status.message {
-      trailers.insert(GRPC_MESSAGE, HeaderValue::from_str(&message).unwrap());
+      trailers.insert(GRPC_MESSAGE, Status::encode_message(&message));
     }
 
     self.send_trailers(trailers).await
-- 
2.43.0


From fae780c9407370314b9864c8b613900e4772fd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:25 +0000
Subject: [PATCH 31/39] fix: let the timeout of a unary grpc call cover the
 response body

A server that stalled after the response headers blocked the call forever.
---
 bd-grpc/src/lib.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/bd-grpc/src/lib.rs b/bd-grpc/src/lib.rs
index 54b68c6..e6b0f48 100644
--- a/bd-grpc/src/lib.rs
+++ b/bd-grpc/src/lib.rs
@@ -467,20 +467,26 @@ impl<C: Connect + Clone + Send + Sync + 'static> Client<C> {
       },
     };
 
-    let response = match request_timeout
-      .timeout(self.common_request(service_method, extra_headers, body))
-      .await
-    {
-      Ok(response) => response?,
+    // The timeout covers the whole exchange. The server may well stall after the response headers.
+    let exchange = async {
+      let response = self
+        .common_request(service_method, extra_headers, body)
+        .await?;
+      let decompression = finalize_decompression(response.headers());
+      let body = response
+        .into_body()
+        .collect()
+        .await
+        .map_err(|e| Error::BodyStream(e.into()))?;
+      Ok::<_, Error>((decompression, body))
+    };
+    let (decompression, body) = match request_timeout.timeout(exchange).await {
+      Ok(result) => result?,
       Err(_) => return Err(Error::RequestTimeout),
     };
-    let mut decoder = Decoder::new(finalize_decompression(response.headers()), OptimizeFor::Cpu);
-    let body = response
-      .into_body()
-      .collect()
-      .await
-      .map_err(|e| Error::BodyStream(e.into()))?
-      .to_bytes();
+
+    let mut decoder = Decoder::new(decompression, OptimizeFor::Cpu);
+    let body = body.to_bytes();
     let mut messages = decoder.decode_data(&body)?;
 
     if messages.len() != 1 {
-- 
2.43.0


From 912120a37d7094022eb941680cd9d8e69775edac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:25 +0000
Subject: [PATCH 32/39] fix: report the grpc status that a unary response has
 in its trailers

---
 bd-grpc/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bd-grpc/src/lib.rs b/bd-grpc/src/lib.rs
index e6b0f48..e217ae1 100644
--- a/bd-grpc/src/lib.rs
+++ b/bd-grpc/src/lib.rs
@@ -485,6 +485,14 @@ impl<C: Connect + Clone + Send + Sync + 'static> Client<C> {
       Err(_) => return Err(Error::RequestTimeout),
     };
 
+    // A server that has sent the response headers already reports its failure in the trailers.
+    if let Some(trailers) = body.trailers().filter(|t| t.contains_key(GRPC_STATUS)) {
+      let status = Status::from_headers(trailers);
+      if status.code != Code::Ok {
+        return Err(status.into());
+      }
+    }
+
     let mut decoder = Decoder::new(decompression, OptimizeFor::Cpu);
     let body = body.to_bytes();
     let mut messages = decoder.decode_data(&body)?;
-- 
2.43.0


From 688b2bbbd8a0b2dfd07faf63395d369c7ef44468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:32 +0000
Subject: [PATCH 33/39] fix: keep huge byte counts of http responses from
 overflowing the traffic summary

---
 bd-logger/src/network.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bd-logger/src/network.rs b/bd-logger/src/network.rs
index 771d2b5..3125626 100644
--- a/bd-logger/src/network.rs
+++ b/bd-logger/src/network.rs
@@ -28,7 +28,8 @@ use time::ext::NumericalDuration;
 macro_rules! sample_add {
   ($sample:expr, $field_name:ident, $value:expr) => {
     if let Some(unwrapped_value) = $value {
-      $sample.$field_name += unwrapped_value;
+      // The values come from the app, so there is no limit to how large they are.
+      $sample.$field_name = $sample.$field_name.saturating_add(unwrapped_value);
     }
   };
 }
@@ -39,7 +40,7 @@ macro_rules! accumulate_samples {
   ($lhs:expr, $rhs:expr, $field_name:ident) => {
     $lhs.$field_name = vec![$lhs.$field_name, $rhs.$field_name]
       .into_iter()
-      .fold(0, |acc, x| acc + x)
+      .fold(0, u64::saturating_add)
   };
 }
 
@@ -270,7 +271,7 @@ impl MetricsSample {
       self.request_headers_bytes_count,
     ]
     .into_iter()
-    .sum::<u64>()
+    .fold(0, u64::saturating_add)
   }
 
   fn response_bytes_count(&self) -> u64 {
@@ -279,7 +280,7 @@ impl MetricsSample {
       self.response_headers_bytes_count,
     ]
     .into_iter()
-    .sum::<u64>()
+    .fold(0, u64::saturating_add)
   }
 }
 
-- 
2.43.0


From 6e970033fd88826edb58e798b3e7f9b51771d1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:47 +0000
Subject: [PATCH 34/39] fix: survive configured intervals of zero

Tokio panics on intervals without a period, which ended the logger's event loop.
---
 bd-resource-utilization/src/lib.rs |  2 ++
 bd-time/src/lib.rs                 | 12 +++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/bd-resource-utilization/src/lib.rs b/bd-resource-utilization/src/lib.rs
index ddd60a1..dc74c97 100644
--- a/bd-resource-utilization/src/lib.rs
+++ b/bd-resource-utilization/src/lib.rs
@@ -72,6 +72,8 @@ impl Reporter {
   }
 
   fn create_interval(interval: Duration, fire_immediately: bool) -> tokio::time::Interval {
+    // Tokio panics on intervals without a period.
+    let interval = interval.max(Duration::from_millis(1));
     let mut interval = if fire_immediately {
       tokio::time::interval(interval)
     } else {
diff --git a/bd-time/src/lib.rs b/bd-time/src/lib.rs
index 3bb94cc..fe17e5d 100644
--- a/bd-time/src/lib.rs
+++ b/bd-time/src/lib.rs
@@ -118,6 +118,12 @@ pub trait TimeDurationExt {
   fn add_tokio_instant(self, instant: tokio::time::Instant) -> tokio::time::Instant;
 }
 
+/// The period of an interval. Tokio panics on intervals without a period, so a duration of zero (for
+/// example one that is received as part of a configuration) results in the smallest possible one.
+fn interval_period(duration: time::Duration) -> Duration {
+  duration.unsigned_abs().max(Duration::from_millis(1))
+}
+
 impl TimeDurationExt for time::Duration {
   fn advance(self) -> impl Future<Output = ()> {
     tokio::time::advance(self.unsigned_abs())
@@ -128,17 +134,17 @@ impl TimeDurationExt for time::Duration {
   }
 
   fn interval(self) -> Interval {
-    interval(self.unsigned_abs())
+    interval(interval_period(self))
   }
 
   fn interval_at(self) -> Interval {
-    interval_at(self.add_tokio_now(), self.unsigned_abs())
+    interval_at(self.add_tokio_now(), interval_period(self))
   }
 
   fn jittered_interval_at(self) -> Interval {
     let millis: u64 = self.whole_milliseconds().try_into().unwrap();
     let jittered = Duration::from_millis(thread_rng().gen_range(0 ..= millis));
-    interval_at(tokio::time::Instant::now() + jittered, self.unsigned_abs())
+    interval_at(tokio::time::Instant::now() + jittered, interval_period(self))
   }
 
   fn timeout<F: IntoFuture>(self, f: F) -> Timeout<F::IntoFuture> {
-- 
2.43.0


From d7d2495d2637e4f402221923fdd4b54fbe9e5156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:11 +0000
Subject: [PATCH 35/39] fix: keep a sankey path the server did not take from
 counting as uploaded

---
 bd-workflows/src/sankey_diagram.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bd-workflows/src/sankey_diagram.rs b/bd-workflows/src/sankey_diagram.rs
index 68592a8..fd57238 100644
--- a/bd-workflows/src/sankey_diagram.rs
+++ b/bd-workflows/src/sankey_diagram.rs
@@ -209,10 +209,18 @@ impl Processor {
       return;
     }
 
-    if let Err(error) = response.await {
-      log::debug!("failed to wait for sankey upload response: {error}");
-      self.stats.upload_completion_failures.inc();
-      return;
+    match response.await {
+      Ok(response) if response.success => {},
+      Ok(response) => {
+        log::debug!("sankey upload failed: {:?}", response.uuid);
+        self.stats.upload_completion_failures.inc();
+        return;
+      },
+      Err(error) => {
+        log::debug!("failed to wait for sankey upload response: {error}");
+        self.stats.upload_completion_failures.inc();
+        return;
+      },
     }
 
     // Augustyniak: Is it risky to insert the path only in the case of a successful upload? maybe we
-- 
2.43.0


From f1ab4a9066b5c49330ab47af292aae4ea28b8b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:26 +0000
Subject: [PATCH 36/39] fix: a log too large for one buffer still goes to the
 others

---
 bd-logger/src/log_replay.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bd-logger/src/log_replay.rs b/bd-logger/src/log_replay.rs
index 230bfe4..f965251 100644
--- a/bd-logger/src/log_replay.rs
+++ b/bd-logger/src/log_replay.rs
@@ -400,8 +400,12 @@ impl ProcessingPipeline {
             // TODO(snowp): Track how often logs are dropped due to locks.
             // If the buffer is out of space, drop the error.
             // TODO(mattklein123): Track this via stats.
+            // If the log is too large for the buffer, drop the error. It may still fit into the
+            // others.
             e @ Err(Error::AbslStatus(
-              AbslCode::FailedPrecondition | AbslCode::ResourceExhausted,
+              AbslCode::FailedPrecondition
+              | AbslCode::ResourceExhausted
+              | AbslCode::InvalidArgument,
               _,
             )) => {
               log::debug!("failed to write log to buffer: {e:?}");
-- 
2.43.0


From 4dbe6f6a1cbc7deefddeac76a6c0be55f5177ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:30 +0000
Subject: [PATCH 37/39] fix: whoever waits for a log waits for the buffers it
 was written to

Workflows may redirect a log to other buffers than those that match it. A
blocking log flushed the matching ones, so that the log could still be lost
after its caller was told that it had been processed.
---
 bd-logger/src/log_replay.rs | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/bd-logger/src/log_replay.rs b/bd-logger/src/log_replay.rs
index f965251..9a4e09c 100644
--- a/bd-logger/src/log_replay.rs
+++ b/bd-logger/src/log_replay.rs
@@ -239,12 +239,14 @@ impl ProcessingPipeline {
       },
     }
 
-    let mut matching_buffers =
+    let matching_buffers =
       self
         .buffer_selector
         .buffers(log.log_type, log.log_level, log.message, log.fields);
 
-    if let Some(workflows_engine) = self.workflows_engine.as_mut() {
+    // The buffers that the log ends up in. They may differ from the matching ones as workflows may
+    // redirect logs.
+    let written_to_buffers = if let Some(workflows_engine) = self.workflows_engine.as_mut() {
       let result = workflows_engine.process_log(log, &matching_buffers);
 
       log::debug!(
@@ -271,6 +273,12 @@ impl ProcessingPipeline {
         result.triggered_flush_buffers_action_ids.iter().copied(),
       )?;
 
+      let mut written_to_buffers: BTreeSet<_> = result
+        .log_destination_buffer_ids
+        .iter()
+        .map(ToString::to_string)
+        .collect();
+
       if let Some(extra_matching_buffer) = Self::process_flush_buffers_actions(
         &result.triggered_flush_buffers_action_ids,
         &mut self.buffer_producers,
@@ -278,9 +286,8 @@ impl ProcessingPipeline {
         &result.log_destination_buffer_ids,
         log,
       ) {
-        // We emitted a synthetic log. Add the buffer it was written to to the list of matching
-        // buffers.
-        matching_buffers.insert(extra_matching_buffer.into());
+        // We emitted a synthetic log. Add the buffer it was written to to the list of buffers.
+        written_to_buffers.insert(extra_matching_buffer);
       }
 
       // Check whether the caller is waiting for the log processing to complete. We call such logs
@@ -289,6 +296,8 @@ impl ProcessingPipeline {
 
       // Force the persistence of workflows state to disk if log is blocking.
       workflows_engine.maybe_persist(is_blocking).await;
+
+      written_to_buffers
     } else {
       Self::write_to_buffers(
         &mut self.buffer_producers,
@@ -296,13 +305,15 @@ impl ProcessingPipeline {
         log,
         std::iter::empty(),
       )?;
-    }
+
+      matching_buffers.iter().map(ToString::to_string).collect()
+    };
 
     if let Some(log_processing_completed_tx) = log_processing_completed_tx {
       let result = Self::finish_blocking_log_processing(
         flush_buffers_tx,
         flush_stats_trigger,
-        matching_buffers,
+        written_to_buffers,
       )
       .await;
 
@@ -319,7 +330,7 @@ impl ProcessingPipeline {
   async fn finish_blocking_log_processing(
     flush_buffers_tx: tokio::sync::mpsc::Sender<BuffersWithAck>,
     flush_stats_trigger: Option<FlushTrigger>,
-    matching_buffers: BTreeSet<Cow<'_, str>>,
+    written_to_buffers: BTreeSet<String>,
   ) -> anyhow::Result<()> {
     // The processing of a blocking log is about to complete.
     // We make an arbitrary decision to start with the flushing of log buffers to disk first and
@@ -329,7 +340,7 @@ impl ProcessingPipeline {
 
     let flush_stats_trigger = flush_stats_trigger.clone();
 
-    if matching_buffers.is_empty() {
+    if written_to_buffers.is_empty() {
       // Return early to avoid unnecessary tokio messages.
       log::debug!(
         "blocking log: log processed but no buffers matched, returning without waiting for \
@@ -338,10 +349,8 @@ impl ProcessingPipeline {
     } else {
       let (tx, rx) = bd_completion::Sender::new();
       // call the sender to flush the buffers using the tx that was created along with the logger
-      let buffers_to_flush = BuffersWithAck::new(
-        matching_buffers.iter().map(ToString::to_string).collect(),
-        Some(tx),
-      );
+      let buffers_to_flush =
+        BuffersWithAck::new(written_to_buffers.into_iter().collect(), Some(tx));
 
       let result = flush_buffers_tx.send(buffers_to_flush).await;
       if let Err(e) = result {
-- 
2.43.0


From 53865612e73a23a9415b4fdaddeb1dba93e64dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:02 +0000
Subject: [PATCH 38/39] fix: a stream that its owner gave up on does not end
 the hyper network

---
 bd-hyper-network/src/lib.rs | 58 +++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/bd-hyper-network/src/lib.rs b/bd-hyper-network/src/lib.rs
index 4bb3630..4d60dab 100644
--- a/bd-hyper-network/src/lib.rs
+++ b/bd-hyper-network/src/lib.rs
@@ -31,6 +31,8 @@ type BodySender = mpsc::Sender<std::result::Result<Frame<Bytes>, Infallible>>;
 #[derive(Debug)]
 pub struct HyperNetwork {
   stream_event_rx: mpsc::Receiver<StreamEvent>,
+  // A stream that was asked for while the previous one was still up.
+  next_stream: Option<NewStream>,
   uri: String,
   shutdown: ComponentShutdown,
 }
@@ -41,6 +43,8 @@ pub struct Handle {
   stream_event_tx: mpsc::Sender<StreamEvent>,
 }
 
+type NewStream = (Sender<bd_api::StreamEvent>, HashMap<String, String>);
+
 #[derive(Debug)]
 enum StreamEvent {
   Start(Sender<bd_api::StreamEvent>, HashMap<String, String>),
@@ -88,6 +92,7 @@ impl HyperNetwork {
     (
       Self {
         stream_event_rx,
+        next_stream: None,
         uri,
         shutdown,
       },
@@ -109,6 +114,10 @@ impl HyperNetwork {
       // corresponded to the previous stream.
       log::debug!("awaiting next stream");
       let (event_tx, headers) = loop {
+        if let Some(next_stream) = self.next_stream.take() {
+          break next_stream;
+        }
+
         let event = tokio::select! {
           event = self.stream_event_rx.recv() => event,
           () = self.shutdown.cancelled() => return Ok(()),
@@ -127,8 +136,9 @@ impl HyperNetwork {
       };
 
       if event_tx.send(event).await.is_err() {
-        // Channel has shut down on us, we must be shutting down.
-        return Ok(());
+        // The owner of this stream has given up on it, e.g. as the handshake failed. It may well
+        // ask for another stream.
+        log::debug!("stream closed after its owner went away");
       }
     }
   }
@@ -186,7 +196,14 @@ impl HyperNetwork {
       let maybe_event = tokio::select! {
         stream_event = self.stream_event_rx.recv() => {
           // Short circuit if stream_event has been closed - this indicates shutdown.
-          Self::handle_outbound_data(&body_sender, stream_event?).await
+          match stream_event? {
+            // The owner of this stream has given up on it before it was closed and wants a new one.
+            StreamEvent::Start(event_tx, headers) => {
+              self.next_stream = Some((event_tx, headers));
+              Some(bd_api::StreamEvent::StreamClosed("superseded by a new stream".to_string()))
+            },
+            StreamEvent::Data(data) => Self::handle_outbound_data(&body_sender, data).await,
+          }
         },
         frame = response.body_mut().frame() => {
           Some(Self::handle_inbound_data(frame).await)
@@ -211,7 +228,9 @@ impl HyperNetwork {
             .await
             .is_err()
           {
-            return None;
+            return Some(bd_api::StreamEvent::StreamClosed(
+              "no longer wanted".to_string(),
+            ));
           }
         },
         bd_api::StreamEvent::StreamClosed(closed) => {
@@ -225,26 +244,21 @@ impl HyperNetwork {
   /// if the stream should be closed.
   async fn handle_outbound_data(
     body_sender: &BodySender,
-    event: StreamEvent,
+    data: Vec<u8>,
   ) -> Option<bd_api::StreamEvent> {
-    match event {
-      StreamEvent::Start(..) => panic!("should never happen"),
-      StreamEvent::Data(data) => {
-        if body_sender
-          .send(Ok(Frame::data(data.into())))
-          .await
-          .is_err()
-        {
-          // We failed to send data over the body channel, the stream must have closed.
-          // Signal that the stream closed.
-          return Some(bd_api::StreamEvent::StreamClosed(
-            "upstream close".to_string(),
-          ));
-        }
-
-        None
-      },
+    if body_sender
+      .send(Ok(Frame::data(data.into())))
+      .await
+      .is_err()
+    {
+      // We failed to send data over the body channel, the stream must have closed.
+      // Signal that the stream closed.
+      return Some(bd_api::StreamEvent::StreamClosed(
+        "upstream close".to_string(),
+      ));
     }
+
+    None
   }
 
   /// Handles inbound data arriving via the hyper response channel. Returns true if the stream
-- 
2.43.0


From c52b540e9f2c819d554e43a3e49490006017ad0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:47 +0000
Subject: [PATCH 39/39] fix: reload a watched file when file notifications were
 dropped

---
 bd-runtime-config/src/loader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bd-runtime-config/src/loader.rs b/bd-runtime-config/src/loader.rs
index ac15aff..ec24b1f 100644
--- a/bd-runtime-config/src/loader.rs
+++ b/bd-runtime-config/src/loader.rs
@@ -270,6 +270,8 @@ impl<ConfigType: Send + Sync + 'static + ?Sized> WatchedFileLoader<ConfigType> {
           log::debug!("got event: {:?}", event);
           match event.kind {
             EventKind::Modify(ModifyKind::Name(mode)) if mode == Self::rename_mode() => {},
+            // Notifications were dropped, and a rename may be among them.
+            _ if event.need_rescan() => {},
             _ => continue,
           }
 
-- 
2.43.0

