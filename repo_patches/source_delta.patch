From 01411aed268141e9205c2db877bab940ee906160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 1/3] fix: prover density must ignore variables whose
 coefficients cancel out

The generator leaves variables with a zero A or B polynomial out of the
queries, but the prover counted a variable as dense as soon as one of its
terms was non-zero, so a linear combination such as x - x shifted or
overran the queries.
---
 groth16/src/prover.rs | 57 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/groth16/src/prover.rs b/groth16/src/prover.rs
index c61c2a0..f9d2a93 100644
--- a/groth16/src/prover.rs
+++ b/groth16/src/prover.rs
@@ -18,8 +18,8 @@ use bellman::multicore::Worker;
 
 fn eval<S: PrimeField>(
     lc: &LinearCombination<S>,
-    mut input_density: Option<&mut DensityTracker>,
-    mut aux_density: Option<&mut DensityTracker>,
+    input_density: Option<&mut DensityTracker>,
+    aux_density: Option<&mut DensityTracker>,
     input_assignment: &[S],
     aux_assignment: &[S],
 ) -> S {
@@ -30,18 +30,8 @@ fn eval<S: PrimeField>(
 
         if !coeff.is_zero_vartime() {
             match index.get_unchecked() {
-                Index::Input(i) => {
-                    tmp = input_assignment[i];
-                    if let Some(ref mut v) = input_density {
-                        v.inc(i);
-                    }
-                }
-                Index::Aux(i) => {
-                    tmp = aux_assignment[i];
-                    if let Some(ref mut v) = aux_density {
-                        v.inc(i);
-                    }
-                }
+                Index::Input(i) => tmp = input_assignment[i],
+                Index::Aux(i) => tmp = aux_assignment[i],
             }
 
             if coeff != S::ONE {
@@ -51,9 +41,48 @@ fn eval<S: PrimeField>(
         }
     }
 
+    if let Some(v) = input_density {
+        mark_dense(v, lc, |index| match index {
+            Index::Input(i) => Some(i),
+            Index::Aux(_) => None,
+        });
+    }
+    if let Some(v) = aux_density {
+        mark_dense(v, lc, |index| match index {
+            Index::Input(_) => None,
+            Index::Aux(i) => Some(i),
+        });
+    }
+
     acc
 }
 
+/// Marks the selected variables whose coefficients in `lc` sum to a non-zero value. A
+/// variable that occurs several times with coefficients that cancel out does not
+/// contribute to the QAP polynomials, and so it is not in the queries of the CRS.
+fn mark_dense<S: PrimeField>(
+    density: &mut DensityTracker,
+    lc: &LinearCombination<S>,
+    select: impl Fn(Index) -> Option<usize>,
+) {
+    let mut terms: Vec<(usize, S)> = lc
+        .as_ref()
+        .iter()
+        .filter_map(|&(index, coeff)| select(index.get_unchecked()).map(|i| (i, coeff)))
+        .collect();
+    terms.sort_by_key(|&(i, _)| i);
+
+    let mut terms = terms.into_iter().peekable();
+    while let Some((i, mut coeff)) = terms.next() {
+        while let Some((_, other)) = terms.next_if(|&(j, _)| i == j) {
+            coeff += other;
+        }
+        if !coeff.is_zero_vartime() {
+            density.inc(i);
+        }
+    }
+}
+
 struct ProvingAssignment<S: PrimeField> {
     // Density of queries
     a_aux_density: DensityTracker,
-- 
2.43.0


From 97ec6d3ac9de26de0f0f5ea6f8dcc61330385801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 2/3] fix: do not panic in the worker pool when a waiter was
 dropped

Returning an error from the prover drops the waiters of computations still
running. Their failed send panicked in a pool thread, which aborts the
process instead of letting the caller see the error.
---
 src/multicore.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/multicore.rs b/src/multicore.rs
index acd2cd6..0a5d029 100644
--- a/src/multicore.rs
+++ b/src/multicore.rs
@@ -61,13 +61,15 @@ mod implementation {
                         current_num_threads(),
                         WORKER_SPAWN_COUNTER.load(Ordering::SeqCst));
                     let res = f();
-                    sender.send(res).unwrap();
+                    // The caller may have dropped the waiter, if it does not need the result.
+                    let _ = sender.send(res);
                     WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);
                 });
             } else {
                 rayon::spawn(move || {
                     let res = f();
-                    sender.send(res).unwrap();
+                    // The caller may have dropped the waiter, if it does not need the result.
+                    let _ = sender.send(res);
                     WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);
                 });
             }
-- 
2.43.0


From 11d57e4dee591f487549efb59a5e0f99ead714df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 3/3] fix: serial Worker::scope must not pass a zero chunk size

Splitting an empty slice into chunks of size zero panics; the multicore
implementation already passes at least one.
---
 src/multicore.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/multicore.rs b/src/multicore.rs
index 0a5d029..48eb077 100644
--- a/src/multicore.rs
+++ b/src/multicore.rs
@@ -170,7 +170,8 @@ mod implementation {
         where
             F: FnOnce(&DummyScope, usize) -> R,
         {
-            f(&DummyScope, elements)
+            // As in the multicore case, a chunk is never empty.
+            f(&DummyScope, elements.max(1))
         }
     }
 
-- 
2.43.0

