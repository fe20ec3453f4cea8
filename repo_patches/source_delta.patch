From 943d2c9a6faab02a80cb4e0b7fe17c82f8c3882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 1/6] Add verification hooks guarded by cfg(any(kani,
 demixer_verif))

---
 src/coding/decoder.rs            | 19 +++++++++++++++++++
 src/coding/encoder.rs            | 24 ++++++++++++++++++++++++
 src/estimators/decelerating.rs   |  7 +++++++
 src/history/mod.rs               | 17 +++++++++++++++++
 src/history/state/bits_runs.rs   |  7 +++++++
 src/history/state/recent_bits.rs |  6 ++++++
 src/history/tree/node_child.rs   |  7 +++++++
 src/history/tree/nodes.rs        | 18 ++++++++++++++++++
 src/history/window.rs            | 17 +++++++++++++++++
 src/lib.rs                       |  3 +++
 src/lut/apm.rs                   | 16 ++++++++++++++++
 src/lut/cost.rs                  | 10 ++++++++++
 src/lut/estimator.rs             | 30 ++++++++++++++++++++++++++++++
 src/lut/log2.rs                  | 11 +++++++++++
 src/lut/mod.rs                   | 27 +++++++++++++++++++++++++++
 src/lut/squash.rs                | 13 +++++++++++++
 src/lut/stretch.rs               | 15 +++++++++++++++
 src/mixing/apm.rs                | 25 +++++++++++++++++++++++++
 src/mixing/mixer.rs              | 22 ++++++++++++++++++++++
 src/predictor/post_process.rs    |  6 ++++++
 src/predictor/single.rs          | 12 ++++++++++++
 src/predictor/stats.rs           | 15 +++++++++++++++
 src/random/mod.rs                | 14 ++++++++++++++
 src/util/hash.rs                 |  6 ++++++
 src/util/last_bytes.rs           | 13 +++++++++++++
 25 files changed, 360 insertions(+)

diff --git a/src/coding/decoder.rs b/src/coding/decoder.rs
index f0e0d27..ba36b85 100644
--- a/src/coding/decoder.rs
+++ b/src/coding/decoder.rs
@@ -88,3 +88,22 @@ impl<'a> Decoder<'a> {
         }
     }
 }
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl<'a> Decoder<'a> {
+    pub fn verif_from_state(reader: &'a mut Read, buffer: i32, range: i32,
+                            next_high_bit: i32) -> Decoder<'a> {
+        Decoder {
+            reader,
+            rc_buffer: buffer,
+            rc_range: range,
+            next_high_bit,
+        }
+    }
+
+    /// (buffer, range, next_high_bit)
+    pub fn verif_state(&self) -> (i32, i32, i32) {
+        (self.rc_buffer, self.rc_range, self.next_high_bit)
+    }
+}
diff --git a/src/coding/encoder.rs b/src/coding/encoder.rs
index b33c1e8..b643f51 100644
--- a/src/coding/encoder.rs
+++ b/src/coding/encoder.rs
@@ -119,3 +119,27 @@ impl<'a> Drop for Encoder<'a> {
         }
     }
 }
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl<'a> Encoder<'a> {
+    pub fn verif_from_state(writer: &'a mut Write, low: i32, range: i32,
+                            run_length_0xff: i32, last_output_byte: u8,
+                            delay: bool, carry: bool) -> Encoder<'a> {
+        Encoder {
+            writer,
+            rc_buffer: low,
+            rc_range: range,
+            run_length_0xff,
+            last_output_byte,
+            delay,
+            carry,
+        }
+    }
+
+    /// (low, range, run_length_0xff, last_output_byte, delay, carry)
+    pub fn verif_state(&self) -> (i32, i32, i32, u8, bool, bool) {
+        (self.rc_buffer, self.rc_range, self.run_length_0xff,
+         self.last_output_byte, self.delay, self.carry)
+    }
+}
diff --git a/src/estimators/decelerating.rs b/src/estimators/decelerating.rs
index 5730d8d..b486830 100644
--- a/src/estimators/decelerating.rs
+++ b/src/estimators/decelerating.rs
@@ -89,3 +89,10 @@ impl DeceleratingEstimator {
         self.0 = prediction | count;
     }
 }
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl DeceleratingEstimator {
+    pub fn verif_from_raw(raw: u32) -> Self { DeceleratingEstimator(raw) }
+    pub fn verif_raw(&self) -> u32 { self.0 }
+}
diff --git a/src/history/mod.rs b/src/history/mod.rs
index a324d13..0d70dd9 100644
--- a/src/history/mod.rs
+++ b/src/history/mod.rs
@@ -203,3 +203,20 @@ pub trait HistorySource<'a> {
     fn process_input_bit(&mut self, input_bit: Bit,
                          new_cost_trackers: &[CostTrackers]);
 }
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl ContextState {
+    pub fn verif_starting_state(first_occurrence_distance: usize,
+                                bit_in_context: Bit) -> ContextState {
+        Self::starting_state(first_occurrence_distance, bit_in_context)
+    }
+
+    pub fn verif_next_state(&self, new_occurrence_distance: usize,
+                            bit_in_context: Bit,
+                            cost_trackers_opt: Option<CostTrackers>,
+                            luts: &LookUpTables) -> ContextState {
+        self.next_state(new_occurrence_distance, bit_in_context,
+                        cost_trackers_opt, luts)
+    }
+}
diff --git a/src/history/state/bits_runs.rs b/src/history/state/bits_runs.rs
index 5a0ca50..b558e2d 100644
--- a/src/history/state/bits_runs.rs
+++ b/src/history/state/bits_runs.rs
@@ -72,3 +72,10 @@ impl BitsRunsTracker {
         }
     }
 }
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl BitsRunsTracker {
+    pub fn verif_from_raw(raw: u32) -> Self { BitsRunsTracker(raw) }
+    pub fn verif_raw(&self) -> u32 { self.0 }
+}
diff --git a/src/history/state/recent_bits.rs b/src/history/state/recent_bits.rs
index 139c17d..c9a0238 100644
--- a/src/history/state/recent_bits.rs
+++ b/src/history/state/recent_bits.rs
@@ -69,3 +69,9 @@ impl RecentBitsHistory {
         RecentBitsHistory(shifted | highest_leading_bit)
     }
 }
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl RecentBitsHistory {
+    pub fn verif_raw(&self) -> u16 { self.0 }
+}
diff --git a/src/history/tree/node_child.rs b/src/history/tree/node_child.rs
index 5215b03..59176ac 100644
--- a/src/history/tree/node_child.rs
+++ b/src/history/tree/node_child.rs
@@ -107,3 +107,10 @@ impl ops::IndexMut<Direction> for NodeChildren {
         }
     }
 }
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl NodeChild {
+    pub fn verif_from_raw(value: i32) -> Self { NodeChild { value } }
+    pub fn verif_raw(&self) -> i32 { self.value }
+}
diff --git a/src/history/tree/nodes.rs b/src/history/tree/nodes.rs
index 6f73386..01d9309 100644
--- a/src/history/tree/nodes.rs
+++ b/src/history/tree/nodes.rs
@@ -134,3 +134,21 @@ impl ops::IndexMut<NodeIndex> for Nodes {
         node
     }
 }
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl Nodes {
+    pub fn verif_from_parts(items: Vec<Node>, last_deleted: Option<NodeIndex>,
+                            removed_nodes_count: usize) -> Nodes {
+        Nodes {
+            items,
+            last_deleted_node_idx_opt: last_deleted,
+            removed_nodes_count,
+        }
+    }
+
+    /// (all slots, head of the free list, free slots count)
+    pub fn verif_parts(&self) -> (&[Node], Option<NodeIndex>, usize) {
+        (&self.items, self.last_deleted_node_idx_opt, self.removed_nodes_count)
+    }
+}
diff --git a/src/history/window.rs b/src/history/window.rs
index ef965a5..a6308dd 100644
--- a/src/history/window.rs
+++ b/src/history/window.rs
@@ -269,3 +269,20 @@ impl ops::Index<WindowIndex> for InputWindow {
         &self.buffer[window_index.value]
     }
 }
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl InputWindow {
+    pub fn verif_from_parts(buffer: Vec<u8>, start: usize, cursor: usize,
+                            size: usize, max_size: usize) -> InputWindow {
+        InputWindow {
+            buffer,
+            start: WindowIndex::new(start),
+            cursor: WindowIndex::new(cursor),
+            size,
+            max_size,
+        }
+    }
+
+    pub fn verif_buffer(&self) -> &[u8] { &self.buffer }
+}
diff --git a/src/lib.rs b/src/lib.rs
index aa43655..4ed1257 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -15,6 +15,9 @@
  *  You should have received a copy of the GNU General Public License
  *  along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
+// cfg(demixer_verif) and cfg(kani) guard verification hooks
+#![allow(unexpected_cfgs)]
+
 extern crate core;
 
 pub mod bit;
diff --git a/src/lut/apm.rs b/src/lut/apm.rs
index bcebb2d..c92e398 100644
--- a/src/lut/apm.rs
+++ b/src/lut/apm.rs
@@ -134,3 +134,19 @@ impl ApmWeightingLut {
         self.stretched_fract_index_bits
     }
 }
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl ApmWeightingLut {
+    pub fn verif_from_parts(squashed_interval_stops: Vec<FractOnlyU32>,
+                            shifts_by_interval: Vec<u8>,
+                            extra_factor_by_interval: Vec<FractOnlyU32>,
+                            stretched_fract_index_bits: u8) -> Self {
+        ApmWeightingLut {
+            squashed_interval_stops,
+            shifts_by_interval,
+            extra_factor_by_interval,
+            stretched_fract_index_bits,
+        }
+    }
+}
diff --git a/src/lut/cost.rs b/src/lut/cost.rs
index 75a4d84..85cd6ef 100644
--- a/src/lut/cost.rs
+++ b/src/lut/cost.rs
@@ -53,3 +53,13 @@ impl CostTrackersLut {
         self.0[index]
     }
 }
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl CostTrackersLut {
+    pub fn verif_from_table(
+        table: [CostTracker; 1usize << DeceleratingEstimator::COUNT_BITS])
+        -> Self {
+        CostTrackersLut(table)
+    }
+}
diff --git a/src/lut/estimator.rs b/src/lut/estimator.rs
index b6f4468..95eb491 100644
--- a/src/lut/estimator.rs
+++ b/src/lut/estimator.rs
@@ -106,3 +106,33 @@ impl DeceleratingEstimatorPredictions {
         self.0[bit_0_run_length as usize]
     }
 }
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl DeceleratingEstimatorRates {
+    pub fn verif_from_table(
+        table: [FractOnlyU32; 1usize << DeceleratingEstimator::COUNT_BITS])
+        -> Self {
+        DeceleratingEstimatorRates(table)
+    }
+}
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl DeceleratingEstimatorCache {
+    pub fn verif_from_table(
+        table: [DeceleratingEstimator;
+            1usize << DeceleratingEstimator::COUNT_BITS]) -> Self {
+        DeceleratingEstimatorCache(table)
+    }
+}
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl DeceleratingEstimatorPredictions {
+    pub fn verif_from_table(
+        table: [(FractOnlyU32, StretchedProbD);
+            1usize << DeceleratingEstimator::COUNT_BITS]) -> Self {
+        DeceleratingEstimatorPredictions(table)
+    }
+}
diff --git a/src/lut/log2.rs b/src/lut/log2.rs
index 5eccdec..eeb625e 100644
--- a/src/lut/log2.rs
+++ b/src/lut/log2.rs
@@ -70,6 +70,17 @@ pub fn one_plus_log2_restricted(input: FractOnlyU32) -> FractOnlyU32 {
     FractOnlyU32::new(log_raw, 31)
 }
 
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl Log2Lut {
+    pub fn verif_from_table(table: [u8; 1usize << Log2Lut::INDEX_BITS])
+                            -> Self {
+        Log2Lut(table)
+    }
+
+    pub fn verif_table(&self) -> &[u8] { &self.0 }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/lut/mod.rs b/src/lut/mod.rs
index 2798370..4298e79 100644
--- a/src/lut/mod.rs
+++ b/src/lut/mod.rs
@@ -109,3 +109,30 @@ impl LookUpTables {
         &self.apm_luts[stretched_fract_index_bits as usize]
     }
 }
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl LookUpTables {
+    pub fn verif_from_parts(
+        log2_lut: Log2Lut,
+        d_estimator_rates: DeceleratingEstimatorRates,
+        d_estimator_cache: DeceleratingEstimatorCache,
+        direct_predictions: DeceleratingEstimatorPredictions,
+        cost_trackers_lut: CostTrackersLut,
+        stretch_lut: StretchLut,
+        squash_lut: SquashLut,
+        apm_luts: [ApmWeightingLut;
+            LookUpTables::APM_LUTS_MAX_STRETCHED_FRACT_INDEX_BITS as usize + 1])
+        -> LookUpTables {
+        LookUpTables {
+            log2_lut,
+            d_estimator_rates,
+            d_estimator_cache,
+            direct_predictions,
+            cost_trackers_lut,
+            stretch_lut,
+            squash_lut,
+            apm_luts,
+        }
+    }
+}
diff --git a/src/lut/squash.rs b/src/lut/squash.rs
index bc5aa55..b67befd 100644
--- a/src/lut/squash.rs
+++ b/src/lut/squash.rs
@@ -124,3 +124,16 @@ impl SquashLut {
         result_left.add(&result_right)
     }
 }
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl SquashLut {
+    pub const VERIF_ARRAY_SIZE: usize = Self::ARRAY_SIZE;
+
+    pub fn verif_from_table(table: [FractOnlyU32; SquashLut::ARRAY_SIZE])
+                            -> Self {
+        SquashLut(table)
+    }
+
+    pub fn verif_table(&self) -> &[FractOnlyU32] { &self.0 }
+}
diff --git a/src/lut/stretch.rs b/src/lut/stretch.rs
index 8ea35e5..92c1fbc 100644
--- a/src/lut/stretch.rs
+++ b/src/lut/stretch.rs
@@ -153,3 +153,18 @@ impl FixedPoint for StretchHelper {
 
     const FRACTIONAL_BITS: u8 = 25;
 }
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl StretchLut {
+    pub fn verif_from_table(table: [[StretchedProbD; 1usize <<
+        StretchLut::IN_LEVEL_INDEX_BITS]; 1usize <<
+        StretchLut::LEVELS_INDEX_BITS]) -> Self {
+        StretchLut(table)
+    }
+
+    pub fn verif_entry(&self, level: usize, in_level_index: usize)
+                       -> StretchedProbD {
+        self.0[level][in_level_index]
+    }
+}
diff --git a/src/mixing/apm.rs b/src/mixing/apm.rs
index b73f0bd..f98633f 100644
--- a/src/mixing/apm.rs
+++ b/src/mixing/apm.rs
@@ -170,3 +170,28 @@ impl AdaptiveProbabilityMap {
         };
     }
 }
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl AdaptiveProbabilityMap {
+    pub fn verif_from_parts(mappings: Vec<FractOnlyU32>,
+                            stretched_fract_index_bits: u8,
+                            contexts_number: usize,
+                            saved_left_context_index: i32,
+                            saved_left_weight: FractOnlyU32) -> Self {
+        AdaptiveProbabilityMap {
+            mappings,
+            stretched_fract_index_bits,
+            contexts_number,
+            saved_left_context_index,
+            saved_left_weight,
+        }
+    }
+
+    pub fn verif_mappings(&self) -> &[FractOnlyU32] { &self.mappings }
+
+    /// (index of the left entry used last, its weight)
+    pub fn verif_saved(&self) -> (i32, FractOnlyU32) {
+        (self.saved_left_context_index, self.saved_left_weight)
+    }
+}
diff --git a/src/mixing/mixer.rs b/src/mixing/mixer.rs
index 5f33593..fb48527 100644
--- a/src/mixing/mixer.rs
+++ b/src/mixing/mixer.rs
@@ -376,3 +376,25 @@ impl MixerData for MixerN {
     fn common(&self) -> &MixerCommon { &self.common }
     fn common_mut(&mut self) -> &mut MixerCommon { &mut self.common }
 }
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl MixerInput {
+    pub fn verif_set_weight(&mut self, weight: MixerWeight) {
+        self.weight = weight;
+    }
+}
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl MixerCommon {
+    pub fn verif_set(&mut self, inputs_mask: u32, update_factor_index: u16) {
+        self.inputs_mask = inputs_mask;
+        self.update_factor_index = update_factor_index;
+    }
+
+    /// (inputs mask, update factor index)
+    pub fn verif_parts(&self) -> (u32, u16) {
+        (self.inputs_mask, self.update_factor_index)
+    }
+}
diff --git a/src/predictor/post_process.rs b/src/predictor/post_process.rs
index d8032fb..cf9562c 100644
--- a/src/predictor/post_process.rs
+++ b/src/predictor/post_process.rs
@@ -201,3 +201,9 @@ fn quantize_contexts_count(contexts_count: usize) -> usize {
         _ => 3,
     }
 }
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+pub fn verif_quantize_contexts_count(contexts_count: usize) -> usize {
+    quantize_contexts_count(contexts_count)
+}
diff --git a/src/predictor/single.rs b/src/predictor/single.rs
index 9a3518d..c658b93 100644
--- a/src/predictor/single.rs
+++ b/src/predictor/single.rs
@@ -185,3 +185,15 @@ fn quantize_cost_trackers(cost_trackers: &CostTrackers) -> usize {
         5
     }
 }
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+pub fn verif_quantize_distance(distance: usize) -> usize {
+    quantize_distance(distance)
+}
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+pub fn verif_quantize_cost_trackers(cost_trackers: &CostTrackers) -> usize {
+    quantize_cost_trackers(cost_trackers)
+}
diff --git a/src/predictor/stats.rs b/src/predictor/stats.rs
index 8c18c45..61a323b 100644
--- a/src/predictor/stats.rs
+++ b/src/predictor/stats.rs
@@ -156,3 +156,18 @@ impl<'a> PredictionStatistics<'a> {
         }
     }
 }
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl<'a> PredictionStatistics<'a> {
+    /// (total bytes, total contexts, per order counts, per order costs,
+    /// per symbol counts, per symbol costs, current byte cost, total cost,
+    /// per order occurrences)
+    pub fn verif_parts(&self) -> (u64, u64, &[usize], &[Log2Q], &[usize],
+                                  &[Log2Q], &Log2Q, &Log2Q, &[u64]) {
+        (self.total_bytes, self.total_contexts_count, &self.per_order_counts,
+         &self.per_order_costs, &self.per_symbol_counts,
+         &self.per_symbol_costs, &self.current_byte_cost, &self.total_cost,
+         &self.per_order_occurrences_count)
+    }
+}
diff --git a/src/random/mod.rs b/src/random/mod.rs
index 1c83825..f67e5bb 100644
--- a/src/random/mod.rs
+++ b/src/random/mod.rs
@@ -136,6 +136,20 @@ impl Default for MersenneTwister {
     }
 }
 
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl MersenneTwister {
+    pub const VERIF_NN: usize = Self::NN;
+
+    pub fn verif_from_parts(state: [u64; MersenneTwister::NN], index: usize)
+                            -> Self {
+        MersenneTwister { state, index }
+    }
+
+    /// (state words, index of the next one)
+    pub fn verif_parts(&self) -> (&[u64], usize) { (&self.state, self.index) }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/util/hash.rs b/src/util/hash.rs
index 059d7cb..707eadd 100644
--- a/src/util/hash.rs
+++ b/src/util/hash.rs
@@ -41,3 +41,9 @@ impl Fnv1A {
         (raw ^ (raw >> 16)) as u16
     }
 }
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl Fnv1A {
+    pub fn verif_from_raw(raw: u64) -> Self { Fnv1A(raw) }
+}
diff --git a/src/util/last_bytes.rs b/src/util/last_bytes.rs
index 6a85569..6708380 100644
--- a/src/util/last_bytes.rs
+++ b/src/util/last_bytes.rs
@@ -106,3 +106,16 @@ impl LastBytesCache {
         self.bit_index as usize
     }
 }
+
+/// Verification hooks: build and read private state (never in a normal build).
+#[cfg(any(kani, demixer_verif))]
+impl LastBytesCache {
+    pub fn verif_from_parts(bit_index: i32, bytes_cache: u32) -> Self {
+        LastBytesCache { bit_index, bytes_cache }
+    }
+
+    /// (bit index, bytes cache)
+    pub fn verif_parts(&self) -> (i32, u32) {
+        (self.bit_index, self.bytes_cache)
+    }
+}
-- 
2.43.0


From 890c411d4431dcb4555001adf76e5512237d1923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 2/6] fix: keep decelerating estimator prediction inside (0, 1)
 on update

An estimator at the end of its range updated with a rate of at least one
half rounded to a probability of exactly 0 or 1; the latter overflowed the
packed representation and read back as 0.
---
 src/estimators/decelerating.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estimators/decelerating.rs b/src/estimators/decelerating.rs
index b486830..422ddc6 100644
--- a/src/estimators/decelerating.rs
+++ b/src/estimators/decelerating.rs
@@ -84,6 +84,8 @@ impl DeceleratingEstimator {
         prediction = fix_i64::scaled_down(
             prediction, prediction_bits + factor_bits - Self::PREDICTION_BITS);
         prediction += 1i64 << (Self::PREDICTION_BITS - 1);
+        let prediction =
+            prediction.max(1).min((1i64 << Self::PREDICTION_BITS) - 1);
         let prediction = (prediction as u32) << Self::COUNT_BITS;
         let count = (count + 1).min(Self::MAX_COUNT) as u32;
         self.0 = prediction | count;
-- 
2.43.0


From c01b5dcaecc236fe1cc6d7c469d6bd29c5e6f7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 3/6] fix: make fixed-point negation panic instead of wrapping
 on overflow

Negating the smallest raw value silently returned the same negative value in
builds without overflow checks, unlike add and sub.
---
 src/fixed_point/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/fixed_point/mod.rs b/src/fixed_point/mod.rs
index 315f4c9..7283889 100644
--- a/src/fixed_point/mod.rs
+++ b/src/fixed_point/mod.rs
@@ -138,7 +138,13 @@ pub trait FixI32: FixedPoint<Raw=i32> {
     }
 
     fn neg(&self) -> Self {
-        Self::new(-self.raw(), Self::FRACTIONAL_BITS)
+        let neg_raw =
+            if DO_CHECKS {
+                self.raw().checked_neg().expect("numeric range exceeded")
+            } else {
+                -self.raw()
+            };
+        Self::new(neg_raw, Self::FRACTIONAL_BITS)
     }
 }
 
@@ -390,7 +396,13 @@ pub trait FixI64: FixedPoint<Raw=i64> {
     }
 
     fn neg(&self) -> Self {
-        Self::new(-self.raw(), Self::FRACTIONAL_BITS)
+        let neg_raw =
+            if DO_CHECKS {
+                self.raw().checked_neg().expect("numeric range exceeded")
+            } else {
+                -self.raw()
+            };
+        Self::new(neg_raw, Self::FRACTIONAL_BITS)
     }
 }
 
-- 
2.43.0


From 778396c5544773178b6abf263735c2aab9e850af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 4/6] Add a verification hook for prediction statistics

---
 src/predictor/stats.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/predictor/stats.rs b/src/predictor/stats.rs
index 61a323b..5b79034 100644
--- a/src/predictor/stats.rs
+++ b/src/predictor/stats.rs
@@ -160,6 +160,26 @@ impl<'a> PredictionStatistics<'a> {
 /// Verification hooks: build and read private state (never in a normal build).
 #[cfg(any(kani, demixer_verif))]
 impl<'a> PredictionStatistics<'a> {
+    pub fn verif_from_parts(
+        luts: &'a LookUpTables, total_bytes: u64, total_contexts_count: u64,
+        per_order_counts: Vec<usize>, per_order_costs: Vec<Log2Q>,
+        per_symbol_counts: Vec<usize>, per_symbol_costs: Vec<Log2Q>,
+        current_byte_cost: Log2Q, total_cost: Log2Q,
+        per_order_occurrences_count: Vec<u64>) -> Self {
+        PredictionStatistics {
+            luts,
+            total_bytes,
+            total_contexts_count,
+            per_order_counts,
+            per_order_costs,
+            per_symbol_counts,
+            per_symbol_costs,
+            current_byte_cost,
+            total_cost,
+            per_order_occurrences_count,
+        }
+    }
+
     /// (total bytes, total contexts, per order counts, per order costs,
     /// per symbol counts, per symbol costs, current byte cost, total cost,
     /// per order occurrences)
-- 
2.43.0


From 077d764316b57fe9ba06c7b7a706ebd442f57c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 5/6] fix: keep a refined probability below one when both
 halves round up

---
 src/mixing/apm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mixing/apm.rs b/src/mixing/apm.rs
index f98633f..ee174b7 100644
--- a/src/mixing/apm.rs
+++ b/src/mixing/apm.rs
@@ -126,7 +126,10 @@ impl AdaptiveProbabilityMap {
             &right_bound, &weight_right);
         let result_left: FractOnlyU32 = fix_u32::mul(
             &left_bound, &weight_left);
-        result_left.add(&result_right)
+        // products exactly halfway are rounded up, so the sum can reach one
+        let result_raw = (result_left.raw() + result_right.raw())
+            .min(FractOnlyU32::ONE_UNSAFE.raw() - 1);
+        FractOnlyU32::new(result_raw, 31)
     }
 
     pub fn update_predictions(&mut self, context: usize, input_bit: Bit,
-- 
2.43.0


From 5f8ab7bfd79ca0587921f536d11455d06d5148ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 6/6] fix: enumerate no suffixes of an empty window that starts
 at index 0

---
 src/history/window.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/history/window.rs b/src/history/window.rs
index a6308dd..53ffa36 100644
--- a/src/history/window.rs
+++ b/src/history/window.rs
@@ -180,7 +180,9 @@ impl InputWindow {
 
     pub fn for_each_suffix<F: Fn(WindowIndex) -> ()>(&self, action: F) {
         let suffices_range =
-            if self.size == 0 || self.start.value <= self.cursor.value {
+            if self.size == 0 {
+                (0..0).chain(0..0)
+            } else if self.start.value <= self.cursor.value {
                 (self.start.value..self.cursor.value + 1).chain(0..0)
             } else {
                 (self.start.value..self.max_size)
-- 
2.43.0

