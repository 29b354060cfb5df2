From 0f3c0c1c40273d9887ca421ab08d3d9fc25c2a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:02 +0000
Subject: [PATCH 01/10] fix: keep the first of two same-symptom errors whose
 frame changes differ

nx.Graph.add_edge overwrites the attributes of an existing edge, so the last
error won although the comment says the first one is kept.
---
 src/decoding.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoding.py b/src/decoding.py
index e80611f..c1e8311 100644
--- a/src/decoding.py
+++ b/src/decoding.py
@@ -244,9 +244,10 @@ def detector_error_model_to_nx_graph(model: stim.DetectorErrorModel) -> nx.Graph
             old_p = edge_data["error_probability"]
             old_frame_changes = edge_data["qubit_id"]
             # If frame changes differ, the code has distance 2; just keep whichever was first.
-            if set(old_frame_changes) == set(frame_changes):
-                p = p * (1 - old_p) + old_p * (1 - p)
-                g.remove_edge(*dets)
+            if set(old_frame_changes) != set(frame_changes):
+                return
+            p = p * (1 - old_p) + old_p * (1 - p)
+            g.remove_edge(*dets)
         g.add_edge(*dets, weight=math.log((1 - p) / p), qubit_id=frame_changes, error_probability=p)
 
     def handle_detector_coords(detector: int, coords: np.ndarray):
-- 
2.43.0


From 40c0cdfcf5fad989389f5a4955d9a5fabefe31aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:02 +0000
Subject: [PATCH 02/10] fix: keep spandrel edge weights within pymatching's
 limit

pymatching 2 drops edges whose weight exceeds 2**24-1, which removed the edge that
keeps every observable in the graph: predictions then had too few observables.
---
 src/decoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoding.py b/src/decoding.py
index c1e8311..04d62a7 100644
--- a/src/decoding.py
+++ b/src/decoding.py
@@ -272,7 +272,7 @@ def detector_error_model_to_pymatching_graph(model: stim.DetectorErrorModel) ->
         g.add_node(k)
     g.add_node(num_detectors + 1)
     for k in range(num_detectors + 1):
-        g.add_edge(k, num_detectors + 1, weight=9999999999)
-    g.add_edge(num_detectors, num_detectors + 1, weight=9999999999, qubit_id=list(range(num_observables)))
+        g.add_edge(k, num_detectors + 1, weight=9999999)
+    g.add_edge(num_detectors, num_detectors + 1, weight=9999999, qubit_id=list(range(num_observables)))
 
     return pymatching.Matching(g)
-- 
2.43.0


From 979a62218d757a02e7421082a761d2a82496a299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:02 +0000
Subject: [PATCH 03/10] fix: never use one of the circuit's qubits as the noisy
 parity measurement ancilla

Inside a REPEAT block (or with explicit qs) the ancilla index was taken from the body
alone, so it could collide with a qubit used elsewhere and reset it.
---
 src/noise.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/noise.py b/src/noise.py
index 03eceac..5a51c01 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -126,9 +126,10 @@ class NoiseModel:
         mid.append_operation(op.name, targets, args)
         return pre, mid, post
 
-    def noisy_circuit(self, circuit: stim.Circuit, *, qs: Optional[Set[int]] = None) -> stim.Circuit:
+    def noisy_circuit(self, circuit: stim.Circuit, *, qs: Optional[Set[int]] = None, ancilla: Optional[int] = None) -> stim.Circuit:
         result = stim.Circuit()
-        ancilla = circuit.num_qubits
+        if ancilla is None:
+            ancilla = max(circuit.num_qubits, max(qs, default=-1) + 1 if qs is not None else 0)
 
         current_moment_pre = stim.Circuit()
         current_moment_mid = stim.Circuit()
@@ -164,7 +165,7 @@ class NoiseModel:
         for op in circuit:
             if isinstance(op, stim.CircuitRepeatBlock):
                 flush()
-                result += self.noisy_circuit(op.body_copy(), qs=qs) * op.repeat_count
+                result += self.noisy_circuit(op.body_copy(), qs=qs, ancilla=ancilla) * op.repeat_count
             elif isinstance(op, stim.CircuitInstruction):
                 if op.name == "TICK":
                     flush()
-- 
2.43.0


From 291287902d43cf77f31671a68c54ced22dbb3562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:02 +0000
Subject: [PATCH 04/10] fix: keep the result inversion of parity measurements
 in the correlated noise gadget

---
 src/noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/noise.py b/src/noise.py
index 5a51c01..f1d21db 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -276,6 +276,7 @@ def parity_measurement_with_correlated_measurement_noise(
     for error in errors:
         circuit.append_operation("CORRELATED_ERROR", error, ind_p)
 
-    circuit.append_operation('M', [ancilla])
+    inverted = t1.is_inverted_result_target != t2.is_inverted_result_target
+    circuit.append_operation('M', [stim.target_inv(ancilla) if inverted else ancilla])
 
     return circuit
-- 
2.43.0


From 81982c8f129ed677c205af28dc588aa64d6dabf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:02 +0000
Subject: [PATCH 05/10] fix: respect min_shots and max_shots whatever max_batch
 is

With max_batch > max_shots the first batch could exceed max_shots, and with
max_batch < min_shots collection could stop before min_shots were taken.
---
 src/collect_data.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/collect_data.py b/src/collect_data.py
index 8c411f1..cf6eddc 100644
--- a/src/collect_data.py
+++ b/src/collect_data.py
@@ -147,9 +147,7 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
 
     for problem in problems:
         num_seen_errors = 0
-        num_next_shots = min_shots
-        if max_batch is not None and max_batch < min_shots:
-            num_next_shots = max_batch
+        num_next_shots = min(min_shots, max_batch, max_shots)
         total_shots = 0
         while True:
             t0 = time.monotonic()
@@ -185,10 +183,11 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
             cur_sample_std_dev = math.sqrt(p * (1 - p) / total_shots)
             if total_shots >= max_shots:
                 break
-            if num_seen_errors >= min_seen_logical_errors and cur_sample_std_dev <= max_sample_std_dev:
-                break
-            if num_seen_errors >= total_shots * 0.48 and num_seen_errors >= 10:
-                break
+            if total_shots >= min_shots:
+                if num_seen_errors >= min_seen_logical_errors and cur_sample_std_dev <= max_sample_std_dev:
+                    break
+                if num_seen_errors >= total_shots * 0.48 and num_seen_errors >= 10:
+                    break
             num_next_shots = min(max_batch, min(2 * num_next_shots, max_shots - total_shots))
 
 
-- 
2.43.0


From 79ea7e03f788bee02759e14178c3d66f6e7ea24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:02 +0000
Subject: [PATCH 06/10] fix: legend_label raised ValueError for any nonzero
 noise

---
 src/honeycomb_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/honeycomb_layout.py b/src/honeycomb_layout.py
index ff6f120..4b2a5fd 100644
--- a/src/honeycomb_layout.py
+++ b/src/honeycomb_layout.py
@@ -420,7 +420,7 @@ class HoneycombLayout:
             f"{self.data_width}x{self.data_height} data",
         ]
         if self.noise:
-            terms.append(f"noise {self.noise:!r}")
+            terms.append(f"noise {self.noise!r}")
         return ", ".join(terms)
 
 
-- 
2.43.0


From 910d6d88a0774db0a2c166ee8e6e2710c0e3b36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:02 +0000
Subject: [PATCH 07/10] fix: compute log likelihoods in double precision

With float32 the likelihood of 10**8 shots is only resolved to a few nats, which
moved the relative-likelihood bounds by up to 20%.
---
 src/probability_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probability_util.py b/src/probability_util.py
index 74c25a2..5d4ebc0 100644
--- a/src/probability_util.py
+++ b/src/probability_util.py
@@ -31,7 +31,7 @@ def log_binomial(*, p: Union[float, np.ndarray], n: int, hits: int) -> Union[flo
     # Clamp probabilities into the valid [0, 1] range (in case float error put them outside it).
     p_clipped = np.clip(p, 0, 1)
 
-    result = np.zeros(shape=p_clipped.shape, dtype=np.float32)
+    result = np.zeros(shape=p_clipped.shape, dtype=np.float64)
     misses = n - hits
 
     # Handle p=0 and p=1 cases separately, to avoid arithmetic warnings.
-- 
2.43.0


From d8871b283d24906fc3ae9132a3d6d4f195bbd829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:05 +0000
Subject: [PATCH 08/10] fix: keep spandrel weights from swamping the matching
 weights

pymatching 2 rescales all weights to integers relative to the largest one, so a spandrel of
9999999 rounded ordinary log odds to a few integer steps and predictions were no longer
minimum-weight.
---
 src/decoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoding.py b/src/decoding.py
index 04d62a7..ab11b10 100644
--- a/src/decoding.py
+++ b/src/decoding.py
@@ -272,7 +272,7 @@ def detector_error_model_to_pymatching_graph(model: stim.DetectorErrorModel) ->
         g.add_node(k)
     g.add_node(num_detectors + 1)
     for k in range(num_detectors + 1):
-        g.add_edge(k, num_detectors + 1, weight=9999999)
-    g.add_edge(num_detectors, num_detectors + 1, weight=9999999, qubit_id=list(range(num_observables)))
+        g.add_edge(k, num_detectors + 1, weight=9999)
+    g.add_edge(num_detectors, num_detectors + 1, weight=9999, qubit_id=list(range(num_observables)))
 
     return pymatching.Matching(g)
-- 
2.43.0


From c4c5bb56fe78d5a50809e2f4d95f8b902f939641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:50 +0000
Subject: [PATCH 09/10] fix: add noise to measurements with inverted results

The error channel was given the inverted targets, which stim rejects, so any noisy circuit
containing 'M !0' could not be built.
---
 src/noise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/noise.py b/src/noise.py
index f1d21db..9064dd0 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -100,10 +100,11 @@ class NoiseModel:
             elif op.name in ANY_CLIFFORD_2_OPS:
                 post.append_operation("DEPOLARIZE2", targets, p)
             elif op.name in RESET_OPS or op.name in MEASURE_OPS:
+                qubits = [t.value for t in targets]
                 if op.name in RESET_OPS:
-                    post.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", targets, p)
+                    post.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", qubits, p)
                 if op.name in MEASURE_OPS:
-                    pre.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", targets, p)
+                    pre.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", qubits, p)
             elif op.name == "MPP":
                 assert len(targets) % 3 == 0 and all(t.is_combiner for t in targets[1::3]), repr(op)
                 assert args == [] or args == [0]
-- 
2.43.0


From cbada1da9311de930f9c2e7558b967c682d20702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:06 +0000
Subject: [PATCH 10/10] fix: plot_data raised IndexError beyond thirty problem
 families

---
 src/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plotting.py b/src/plotting.py
index 3805e67..d5a5d90 100644
--- a/src/plotting.py
+++ b/src/plotting.py
@@ -38,7 +38,7 @@ def plot_data(data: ProblemShotData,
         ax = fig.add_subplot()
 
     markers = "ov*sp^<>8PhH+xXDd|" * 100
-    colors = list(mcolors.TABLEAU_COLORS) * 3
+    colors = list(mcolors.TABLEAU_COLORS) * 100
     order = 0
     d: DecodingProblemDesc
     for key, vals in data.grouped_by(lambda e: e.with_changes(noise=0)).items():
-- 
2.43.0

