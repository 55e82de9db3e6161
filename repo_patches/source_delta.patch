From 6cb061b007c84a3e4ad9bcf01736aac5a0662af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 01/30] fix: squeeze a fresh challenge on every call, also when
 nothing was observed in between

absorb_buffered_inputs refilled the output buffer even when there was no input to
absorb, so that consecutive challenges (beta/gamma, v/u/u_scaling) were equal.
---
 src/plonk_challenger.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/plonk_challenger.rs b/src/plonk_challenger.rs
index 7d422f9..54ef8d4 100644
--- a/src/plonk_challenger.rs
+++ b/src/plonk_challenger.rs
@@ -92,6 +92,11 @@ impl<F: Field> Challenger<F> {
 
     /// Absorb any buffered inputs. After calling this, the input buffer will be empty.
     fn absorb_buffered_inputs(&mut self) {
+        if self.input_buffer.is_empty() {
+            // Nothing to absorb. Keep any remaining buffered outputs, so that they are used only once.
+            return;
+        }
+
         for input_chunk in self.input_buffer.chunks(RESCUE_SPONGE_RATE) {
             // Add the inputs to our sponge state.
             for (i, &input) in input_chunk.iter().enumerate() {
@@ -211,6 +216,11 @@ impl<F: Field> RecursiveChallenger<F> {
         &mut self,
         builder: &mut CircuitBuilder<C>,
     ) {
+        if self.input_buffer.is_empty() {
+            // Nothing to absorb. Keep any remaining buffered outputs, so that they are used only once.
+            return;
+        }
+
         for input_chunk in self.input_buffer.chunks(RESCUE_SPONGE_RATE) {
             // Add the inputs to our sponge state.
             for (i, &input) in input_chunk.iter().enumerate() {
-- 
2.43.0


From 61127550d811c6ecb1ca5fdf9c535548e112f683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 02/30] fix: apply the MDS matrix to all lanes in
 RescueStepBGate's recursive evaluation

---
 src/gates/rescue_b.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gates/rescue_b.rs b/src/gates/rescue_b.rs
index 5a116a6..1edb937 100644
--- a/src/gates/rescue_b.rs
+++ b/src/gates/rescue_b.rs
@@ -84,7 +84,7 @@ impl<C: HaloCurve> Gate<C> for RescueStepBGate<C> {
             let mut computed_out_i = local_constant_values[Self::PREFIX.len() + i];
             for j in 0..RESCUE_SPONGE_WIDTH {
                 let mds_entry = builder.constant_wire(mds.get(i, j));
-                computed_out_i = builder.mul_add(mds_entry, exps[i], computed_out_i);
+                computed_out_i = builder.mul_add(mds_entry, exps[j], computed_out_i);
             }
             constraints.push(builder.sub(computed_out_i, outs[i]));
         }
-- 
2.43.0


From 5bbe6cc9ef27dd5979e3d9547316aa12780ec277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 03/30] fix: CurveAddGate's generator reads the scalar bit, so
 it must depend on it

---
 src/gates/curve_add.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gates/curve_add.rs b/src/gates/curve_add.rs
index a236a74..2846665 100644
--- a/src/gates/curve_add.rs
+++ b/src/gates/curve_add.rs
@@ -167,6 +167,10 @@ impl<C: HaloCurve, InnerC: Curve<BaseField = C::ScalarField>> WitnessGenerator<C
                 gate: self.index,
                 input: Self::WIRE_ADDEND_Y,
             }),
+            Target::Wire(Wire {
+                gate: self.index,
+                input: Self::WIRE_SCALAR_BIT,
+            }),
         ]
     }
 
-- 
2.43.0


From 7aa60094d112fee01b342c6551231a889fabf9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 04/30] fix: consume the whole encoding when reading the point
 at infinity

AffinePoint::write always emits BYTES + 1 bytes, but read stopped after the first
one for the point at infinity, so anything following it in a stream was misread.
---
 src/serialization.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index cd3e80e..6e6be2e 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -48,6 +48,8 @@ impl<C: Curve> FromBytes for AffinePoint<C> {
         let mut mask = vec![0u8];
         reader.read_exact(&mut mask)?;
         let mask = mask[0];
+        let mut buf = vec![0u8; C::BaseField::BYTES];
+        reader.read_exact(&mut buf)?;
         if mask & 1 == 1 {
             return Ok(AffinePoint {
                 x: C::BaseField::ZERO,
@@ -55,8 +57,6 @@ impl<C: Curve> FromBytes for AffinePoint<C> {
                 zero: true,
             });
         }
-        let mut buf = vec![0u8; C::BaseField::BYTES];
-        reader.read_exact(&mut buf)?;
         let x = C::BaseField::from_canonical_u8_vec(buf.to_vec())
             .map_err(|e| Error::new(ErrorKind::Other, e.to_string()))?;
         let square_candidate = x.cube() + C::A * x + C::B;
-- 
2.43.0


From 7a08efb8318c22508f6ce67875d103f5cbb0c3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 05/30] fix: allow the point at infinity to be observed

Without blinding, the commitment to a zero polynomial is the point at infinity, so
honest proofs (and verification of proofs with such points) panicked in debug builds.
---
 src/plonk_challenger.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/plonk_challenger.rs b/src/plonk_challenger.rs
index 54ef8d4..89b5afc 100644
--- a/src/plonk_challenger.rs
+++ b/src/plonk_challenger.rs
@@ -41,9 +41,11 @@ impl<F: Field> Challenger<F> {
     }
 
     pub fn observe_affine_point<C: Curve<BaseField = F>>(&mut self, point: AffinePoint<C>) {
-        debug_assert!(!point.zero);
-        self.observe_element(point.x);
-        self.observe_element(point.y);
+        // The point at infinity has no affine coordinates, and is represented by (0, 0), which is not
+        // on any of our curves.
+        let AffinePoint { x, y, .. } = if point.zero { AffinePoint::ZERO } else { point };
+        self.observe_element(x);
+        self.observe_element(y);
     }
 
     pub fn observe_affine_points<C: Curve<BaseField = F>>(&mut self, points: &[AffinePoint<C>]) {
-- 
2.43.0


From 7cb15f208148ae5a7c076a521bd108acb0a7db2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 06/30] fix: observe the public inputs before generating any
 challenge

The public input check is a linear combination weighted by alpha, but the public inputs
were only observed after alpha was known, so a prover could shift them along the kernel
of that combination and have false public inputs accepted.
---
 src/plonk.rs       | 21 +++++++++++----------
 src/plonk_proof.rs |  8 ++++----
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/plonk.rs b/src/plonk.rs
index a9b26b2..f0452c0 100644
--- a/src/plonk.rs
+++ b/src/plonk.rs
@@ -117,6 +117,16 @@ impl<C: HaloCurve> Circuit<C> {
             values_to_polynomials(&wire_values_by_wire_no_pis, &self.fft_precomputation_n)
         };
 
+        let public_inputs = (0..self.num_public_inputs)
+            .map(|i| wire_values_by_wire_index[i % NUM_WIRES][self.num_gates_without_pis + 2 * (i / NUM_WIRES)])
+            .collect::<Vec<_>>();
+
+        // Observe the public inputs. They are batched using alpha later, so they must be fixed before
+        // any challenge is generated.
+        challenger.observe_elements(
+            &C::ScalarField::try_convert_all(&public_inputs)
+                .expect("Public inputs should fit in both fields"),
+        );
         // Generate a random beta and gamma from the transcript.
         challenger
             .observe_affine_points(&PolynomialCommitment::commitments_to_affine_vec(&c_wires));
@@ -234,20 +244,11 @@ impl<C: HaloCurve> Circuit<C> {
             blinding_commitments,
         );
 
-        let public_inputs = (0..self.num_public_inputs)
-            .map(|i| wire_values_by_wire_index[i % NUM_WIRES][self.num_gates_without_pis + 2 * (i / NUM_WIRES)])
-            .collect::<Vec<_>>();
-
         // Observe the `t` polynomial commitment.
         challenger
             .observe_affine_points(&PolynomialCommitment::commitments_to_affine_vec(&c_plonk_t));
-        // If the proof doesn't output public inputs, observe the `pis_quotient` polynomial commitment and the public inputs.
+        // Observe the `pis_quotient` polynomial commitment.
         challenger.observe_affine_point(c_pis_quotient.to_affine());
-        // Observe the public inputs
-        challenger.observe_elements(
-            &C::ScalarField::try_convert_all(&public_inputs)
-                .expect("Public inputs should fit in both fields"),
-        );
         // Observe the old proofs' `G` points.
         old_proofs
             .iter()
diff --git a/src/plonk_proof.rs b/src/plonk_proof.rs
index 4a11a7a..2e274f5 100644
--- a/src/plonk_proof.rs
+++ b/src/plonk_proof.rs
@@ -63,6 +63,10 @@ impl<C: HaloCurve> Proof<C> {
     ) -> Result<ProofChallenge<C>> {
         let mut challenger = Challenger::new(SECURITY_BITS);
         let error_msg = "Conversion from base to scalar field failed.";
+        challenger.observe_elements(
+            &C::ScalarField::try_convert_all(public_inputs)
+                .expect("Public inputs should fit in both fields"),
+        );
         challenger.observe_affine_points(&self.c_wires);
         let (beta_bf, gamma_bf) = challenger.get_2_challenges();
         let beta = C::try_convert_b2s(beta_bf).map_err(|_| anyhow!(error_msg))?;
@@ -72,10 +76,6 @@ impl<C: HaloCurve> Proof<C> {
         let alpha = C::try_convert_b2s(alpha_bf).map_err(|_| anyhow!(error_msg))?;
         challenger.observe_affine_points(&self.c_plonk_t);
         challenger.observe_affine_point(self.c_pis_quotient);
-        challenger.observe_elements(
-            &C::ScalarField::try_convert_all(public_inputs)
-                .expect("Public inputs should fit in both fields"),
-        );
         old_proofs
             .iter()
             .for_each(|old_proof| challenger.observe_affine_point(old_proof.halo_g));
-- 
2.43.0


From 18f2cc3adba907f32801eb07dfcd82ee41172d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 07/30] fix: reject proofs and public inputs whose shape does
 not match the verification key

The number of commitments, openings, Halo rounds and public inputs was never checked, and
neither was the validity of the public inputs quotient commitment, so malformed proofs
panicked or were reinterpreted instead of being rejected.
---
 src/plonk_proof.rs |  3 +--
 src/verifier.rs    | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/src/plonk_proof.rs b/src/plonk_proof.rs
index 2e274f5..e4fbdc1 100644
--- a/src/plonk_proof.rs
+++ b/src/plonk_proof.rs
@@ -64,8 +64,7 @@ impl<C: HaloCurve> Proof<C> {
         let mut challenger = Challenger::new(SECURITY_BITS);
         let error_msg = "Conversion from base to scalar field failed.";
         challenger.observe_elements(
-            &C::ScalarField::try_convert_all(public_inputs)
-                .expect("Public inputs should fit in both fields"),
+            &C::ScalarField::try_convert_all(public_inputs).map_err(|_| anyhow!(error_msg))?,
         );
         challenger.observe_affine_points(&self.c_wires);
         let (beta_bf, gamma_bf) = challenger.get_2_challenges();
diff --git a/src/verifier.rs b/src/verifier.rs
index 5602716..2354d5b 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -8,7 +8,7 @@ use crate::halo::verify_ipa;
 use crate::plonk_proof::OldProof;
 use crate::plonk_util::{halo_g, halo_n, halo_n_mul, halo_s, pedersen_hash, powers, reduce_with_powers};
 use crate::util::{ceil_div_usize, log2_strict};
-use crate::{blake_hash_usize_to_curve, fft_precompute, msm_execute_parallel, msm_precompute, AffinePoint, Circuit, FftPrecomputation, Field, HaloCurve, MsmPrecomputation, Polynomial, Proof, GRID_WIDTH, NUM_ROUTED_WIRES, NUM_WIRES};
+use crate::{blake_hash_usize_to_curve, fft_precompute, msm_execute_parallel, msm_precompute, AffinePoint, Circuit, FftPrecomputation, Field, HaloCurve, MsmPrecomputation, Polynomial, Proof, GRID_WIDTH, NUM_CONSTANTS, NUM_ROUTED_WIRES, NUM_WIRES, QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER};
 
 pub const SECURITY_BITS: usize = 128;
 
@@ -57,6 +57,7 @@ pub fn verify_proof<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>
     verify_g: bool,
 ) -> Result<Option<OldProof<C>>> {
     // Verify that the proof parameters are valid.
+    check_proof_shape(public_inputs, proof, old_proofs, vk)?;
     check_proof_parameters(proof)?;
 
     // Observe the transcript and generate the associated challenge points using Fiat-Shamir.
@@ -285,6 +286,43 @@ fn verify_old_proof_evaluation<C: HaloCurve>(
     Ok(())
 }
 
+/// Check that the proof and the public inputs have the shape expected by the verification key.
+fn check_proof_shape<C: HaloCurve>(
+    public_inputs: &[C::ScalarField],
+    proof: &Proof<C>,
+    old_proofs: &[OldProof<C>],
+    vk: &VerificationKey<C>,
+) -> Result<()> {
+    ensure!(
+        public_inputs.len() == vk.num_public_inputs,
+        "Incorrect number of public inputs."
+    );
+    ensure!(
+        proof.c_wires.len() == NUM_WIRES,
+        "Incorrect number of wire polynomial commitments."
+    );
+    ensure!(
+        proof.c_plonk_t.len() == QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER,
+        "Incorrect number of t polynomial commitments."
+    );
+    ensure!(
+        proof.all_opening_sets().iter().all(|os| {
+            os.o_constants.len() == NUM_CONSTANTS
+                && os.o_plonk_sigmas.len() == NUM_ROUTED_WIRES
+                && os.o_wires.len() == NUM_WIRES
+                && os.o_plonk_t.len() == QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER
+                && os.o_old_proofs.len() == old_proofs.len()
+        }),
+        "Incorrect number of openings."
+    );
+    let degree_pow = log2_strict(vk.degree);
+    ensure!(
+        proof.halo_l.len() == degree_pow && proof.halo_r.len() == degree_pow,
+        "Incorrect number of Halo rounds."
+    );
+    Ok(())
+}
+
 /// Check that the parameters in a proof are well-formed, i.e,
 /// that curve points are on the curve, and field elements are in range.
 /// Panics otherwise.
@@ -293,6 +331,7 @@ fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
         c_wires,
         c_plonk_z,
         c_plonk_t,
+        c_pis_quotient,
         halo_l,
         halo_r,
         halo_g,
@@ -312,6 +351,10 @@ fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
         c_plonk_t.iter().all(|p| p.is_valid()),
         "A t polynomial commitment is not on the curve."
     );
+    ensure!(
+        c_pis_quotient.is_valid(),
+        "The public inputs quotient polynomial commitment is not on the curve."
+    );
     ensure!(
         halo_l.iter().all(|p| p.is_valid()),
         "A Halo left point is not on the curve."
-- 
2.43.0


From ce51c5fbbdac19ca5d98a541a122f0369c860f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:03 +0000
Subject: [PATCH 08/30] fix: plookup domain size when the number of lookups is
 a power of two

n was smaller than f.len() in that case, and prove panicked.
---
 plookup/src/plookup.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 47ac708..7863747 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -159,7 +159,8 @@ fn pad_inputs<F: Field>(f: &[F], t: &[F]) -> (usize, Vec<F>, Vec<F>) {
     } else {
         f.to_vec()
     };
-    let n = f.len().next_power_of_two() - 1;
+    // `f` takes at most `n` elements, where `n + 1` is a power of two.
+    let n = (f.len() + 1).next_power_of_two() - 1;
 
     let f = padded(&f, n);
     let t = padded(t, n + 1);
-- 
2.43.0


From d2a8ded03bdb1ad8ec6cba56dd871cff45884b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:03 +0000
Subject: [PATCH 09/30] fix: pad plookup tables with one of their elements
 instead of zero

Zero-padding the table made zero pass as a table element, and zero-padding the lookups
made prove panic when the table was full and did not contain zero.
---
 plookup/src/plookup.rs  | 22 ++++++++++++++++++----
 plookup/src/verifier.rs |  4 ++--
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 7863747..e2e671e 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -155,15 +155,15 @@ pub fn prove<C: HaloCurve>(f: &[C::ScalarField], t: &[C::ScalarField]) -> Result
 fn pad_inputs<F: Field>(f: &[F], t: &[F]) -> (usize, Vec<F>, Vec<F>) {
     let d = t.len();
     let f = if f.len() + 1 < d {
-        padded(f, d - 1)
+        padded_with(f, d - 1, last(t))
     } else {
         f.to_vec()
     };
     // `f` takes at most `n` elements, where `n + 1` is a power of two.
     let n = (f.len() + 1).next_power_of_two() - 1;
 
-    let f = padded(&f, n);
-    let t = padded(t, n + 1);
+    let f = padded_with(&f, n, last(t));
+    let t = padded_table(t, n + 1);
     (n, f, t)
 }
 
@@ -284,11 +284,25 @@ pub fn eval_l_i<F: Field>(n: usize, i: usize, generator: F, x: F) -> F {
 
 /// Zero-pad a slice to have length `n`.
 pub fn padded<F: Field>(s: &[F], n: usize) -> Vec<F> {
+    padded_with(s, n, F::ZERO)
+}
+
+/// Pad a table to have length `n` by repeating its last element, so that its set of elements is
+/// unchanged.
+pub fn padded_table<F: Field>(t: &[F], n: usize) -> Vec<F> {
+    padded_with(t, n, last(t))
+}
+
+fn padded_with<F: Field>(s: &[F], n: usize, filler: F) -> Vec<F> {
     let mut pad = s.to_vec();
-    pad.extend((s.len()..n).map(|_| F::ZERO));
+    pad.extend((s.len()..n).map(|_| filler));
     pad
 }
 
+fn last<F: Field>(t: &[F]) -> F {
+    *t.last().expect("The table should be non-empty")
+}
+
 #[cfg(test)]
 mod tests {
     use crate::plookup::sort_by;
diff --git a/plookup/src/verifier.rs b/plookup/src/verifier.rs
index f655577..8564b9a 100644
--- a/plookup/src/verifier.rs
+++ b/plookup/src/verifier.rs
@@ -1,4 +1,4 @@
-use crate::plookup::{eval_l_i, padded, SECURITY_BITS};
+use crate::plookup::{eval_l_i, padded_table, SECURITY_BITS};
 use crate::proof::{PlookupProof, PlookupProofChallenge};
 use anyhow::{ensure, Result};
 use plonky::halo::verify_ipa;
@@ -10,7 +10,7 @@ use plonky::{blake_hash_usize_to_curve, fft_precompute, ifft_with_precomputation
 /// TODO: The verifier should have some auxiliary knowledge of `c_t`. For now, it is stored in the `proof`.
 pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Result<()> {
     let n = proof.n;
-    let t = padded(t, n + 1);
+    let t = padded_table(t, n + 1);
     let fft_precomputation = fft_precompute(n + 1);
     let gs = (0..2 * n + 2)
         .map(blake_hash_usize_to_curve::<C>)
-- 
2.43.0


From 6be6ded9f60c7d6f2ff9591b297b43757723f026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:03 +0000
Subject: [PATCH 10/30] fix: the i-th Lagrange basis polynomial evaluates to
 one at its own node

---
 plookup/src/plookup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index e2e671e..9efc412 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -276,7 +276,7 @@ fn vanishing_polynomial<F: Field>(
 pub fn eval_l_i<F: Field>(n: usize, i: usize, generator: F, x: F) -> F {
     let g = generator.exp_usize(i);
     if x == g {
-        F::ZERO
+        F::ONE
     } else {
         g * (x.exp_usize(n) - F::ONE) / (F::from_canonical_usize(n) * (x - g))
     }
-- 
2.43.0


From f2acfba95446e7476ecb6a3b32119e01e03c9c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:03 +0000
Subject: [PATCH 11/30] fix: verify the Halo G point of plookup proofs

Nothing tied halo_g to the generators, so the opening proof could be forged.
---
 plookup/src/verifier.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/plookup/src/verifier.rs b/plookup/src/verifier.rs
index 8564b9a..95f04ca 100644
--- a/plookup/src/verifier.rs
+++ b/plookup/src/verifier.rs
@@ -2,7 +2,7 @@ use crate::plookup::{eval_l_i, padded_table, SECURITY_BITS};
 use crate::proof::{PlookupProof, PlookupProofChallenge};
 use anyhow::{ensure, Result};
 use plonky::halo::verify_ipa;
-use plonky::plonk_util::{halo_g, halo_n, halo_n_mul, powers, reduce_with_powers};
+use plonky::plonk_util::{halo_g, halo_n, halo_n_mul, halo_s, pedersen_hash, powers, reduce_with_powers};
 use plonky::util::log2_strict;
 use plonky::{blake_hash_usize_to_curve, fft_precompute, ifft_with_precomputation_power_of_2, msm_execute_parallel, msm_precompute, AffinePoint, Field, HaloCurve, PolynomialCommitment};
 
@@ -94,7 +94,14 @@ pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Re
         "Invalid IPA proof."
     );
 
-    // TODO: Add option to verify `halo_g` point.
+    // Verify that `halo_g = <s, G>`.
+    let msm_precomputation_2n2 = msm_precompute(&AffinePoint::batch_to_projective(&gs), 8);
+    ensure!(
+        proof.halo_proof.halo_g
+            == pedersen_hash(&halo_s(&challs.halo_us), &msm_precomputation_2n2).to_affine(),
+        "Invalid G point."
+    );
+
     Ok(())
 }
 
-- 
2.43.0


From 89f8e21fbd7626a713d31ab665ff8e6459b7cc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 12/30] fix: reject malformed plookup proofs instead of
 panicking

Off-curve points, inconsistent lengths, openings outside of the base field and transcripts
whose n(r) is not a square were not rejected, or made verify panic.
---
 plookup/src/proof.rs    | 13 +++++--------
 plookup/src/verifier.rs | 30 ++++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/plookup/src/proof.rs b/plookup/src/proof.rs
index 8ba2b5f..72a2af3 100644
--- a/plookup/src/proof.rs
+++ b/plookup/src/proof.rs
@@ -81,11 +81,8 @@ impl<C: HaloCurve> PlookupProof<C> {
             .openings
             .to_vec()
             .into_iter()
-            .map(|f| {
-                C::try_convert_s2b(f)
-                    .expect("For now, we assume that all opened values fit in both fields")
-            })
-            .collect();
+            .map(|f| C::try_convert_s2b(f).map_err(|_| anyhow!(error_msg)))
+            .collect::<Result<_>>()?;
         challenger.observe_elements(&openings_bf);
         let (v_bf, u_bf, u_scaling_bf) = challenger.get_3_challenges();
         let v = C::try_convert_b2s(v_bf).map_err(|_| anyhow!(error_msg))?;
@@ -101,9 +98,9 @@ impl<C: HaloCurve> PlookupProof<C> {
             let r_sf = r_bf.try_convert::<C::ScalarField>()?;
             let r_bits = &r_sf.to_canonical_bool_vec()[..SECURITY_BITS];
             let u_j_squared = halo_n::<C>(r_bits);
-            let u_j = u_j_squared
-                .square_root()
-                .expect("Prover should have ensured that n(r) is square");
+            let u_j = u_j_squared.square_root().ok_or_else(|| {
+                anyhow!("Invalid transcript. Prover should have ensured that n(r) is square")
+            })?;
             halo_us.push(u_j);
         }
 
diff --git a/plookup/src/verifier.rs b/plookup/src/verifier.rs
index 95f04ca..b72f8eb 100644
--- a/plookup/src/verifier.rs
+++ b/plookup/src/verifier.rs
@@ -9,6 +9,8 @@ use plonky::{blake_hash_usize_to_curve, fft_precompute, ifft_with_precomputation
 /// Verifies that a proof is valid for a set `t`.
 /// TODO: The verifier should have some auxiliary knowledge of `c_t`. For now, it is stored in the `proof`.
 pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Result<()> {
+    check_proof_parameters(t, proof)?;
+
     let n = proof.n;
     let t = padded_table(t, n + 1);
     let fft_precomputation = fft_precompute(n + 1);
@@ -105,6 +107,34 @@ pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Re
     Ok(())
 }
 
+/// Check that the shape of the proof is consistent and that its curve points are on the curve.
+fn check_proof_parameters<C: HaloCurve>(
+    t: &[C::ScalarField],
+    proof: &PlookupProof<C>,
+) -> Result<()> {
+    let PlookupProof { halo_proof, n, .. } = proof;
+    ensure!(!t.is_empty(), "The table is empty.");
+    ensure!(
+        *n > 0 && *n >= t.len() - 1 && n.checked_add(1).map_or(false, usize::is_power_of_two),
+        "Invalid domain size."
+    );
+    let degree_pow = log2_strict(n + 1) + 1;
+    ensure!(
+        halo_proof.halo_l.len() == degree_pow && halo_proof.halo_r.len() == degree_pow,
+        "Incorrect number of Halo rounds."
+    );
+    ensure!(
+        [proof.c_f, proof.c_t, proof.c_h1, proof.c_h2, proof.c_z, proof.c_quotient]
+            .iter()
+            .chain(&halo_proof.halo_l)
+            .chain(&halo_proof.halo_r)
+            .chain(&[halo_proof.halo_g, halo_proof.schnorr_proof.r])
+            .all(|p| p.is_valid()),
+        "A point is not on the curve."
+    );
+    Ok(())
+}
+
 /// Verify all IPAs in the given proof using a reduction to a single polynomial.
 fn verify_all_ipas<C: HaloCurve>(
     c_all: &[AffinePoint<C>],
-- 
2.43.0


From e322652851a08b057c2f3dec1e91a80ba86687d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 13/30] fix: doubling a point of order two gives the point at
 infinity

---
 src/curve/curve.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/curve/curve.rs b/src/curve/curve.rs
index 1be98a8..153a686 100644
--- a/src/curve/curve.rs
+++ b/src/curve/curve.rs
@@ -116,7 +116,8 @@ impl<C: Curve> AffinePoint<C> {
             zero,
         } = *self;
 
-        if zero {
+        // A point with y = 0 has order two.
+        if zero || y1.is_zero() {
             return AffinePoint::ZERO;
         }
 
@@ -233,7 +234,8 @@ impl<C: Curve> ProjectivePoint<C> {
 
     pub fn double(&self) -> Self {
         let Self { x, y, z, zero } = *self;
-        if zero {
+        // A point with y = 0 has order two.
+        if zero || y.is_zero() {
             return ProjectivePoint::ZERO;
         }
 
-- 
2.43.0


From 930a3f2217e432204954970c37d84a9f267d6826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:21 +0000
Subject: [PATCH 14/30] fix: polynomial division of zero, by sparse and by
 zero-padded polynomials

---
 src/polynomial.rs | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 4f0b474..9ccff50 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -230,12 +230,13 @@ impl<F: Field> Polynomial<F> {
     /// Returns `(q,r)` the quotient and remainder of the polynomial division of `a` by `b`.
     /// Generally slower that the equivalent function `Polynomial::polynomial_division`.
     pub fn polynomial_long_division(&self, b: &Self) -> (Self, Self) {
-        let (a_degree, b_degree) = (self.degree(), b.degree());
-        if self.is_zero() {
-            (Self::zero(1), Self::empty())
-        } else if b.is_zero() {
+        if b.is_zero() {
             panic!("Division by zero polynomial");
-        } else if a_degree < b_degree {
+        } else if self.is_zero() {
+            return (Self::zero(1), Self::empty());
+        }
+        let (a_degree, b_degree) = (self.degree(), b.degree());
+        if a_degree < b_degree {
             (Self::zero(1), self.clone())
         } else {
             // Now we know that self.degree() >= divisor.degree();
@@ -248,7 +249,7 @@ impl<F: Field> Polynomial<F> {
                 let cur_q_degree = remainder.degree() - b_degree;
                 quotient[cur_q_degree] = cur_q_coeff;
 
-                for (i, &div_coeff) in b.iter().enumerate() {
+                for (i, &div_coeff) in b[..=b_degree].iter().enumerate() {
                     remainder[cur_q_degree + i] =
                         remainder[cur_q_degree + i] - (cur_q_coeff * div_coeff);
                 }
@@ -272,7 +273,7 @@ impl<F: Field> Polynomial<F> {
             let h0 = h[..l].to_vec().into();
             let mut h1: Polynomial<F> = h[l..].to_vec().into();
             let mut c = a.mul(&h0);
-            if l == c.len() {
+            if c.len() <= l {
                 c = Self::zero(1);
             } else {
                 c.drain(0..l);
@@ -282,11 +283,9 @@ impl<F: Field> Polynomial<F> {
             tmp = tmp.add(&c);
             tmp.iter_mut().for_each(|x| *x = -(*x));
             tmp.trim();
+            // The next `l` coefficients of the inverse, some of which may be zero.
             let mut b = a.mul(&tmp);
-            b.trim();
-            if b.len() > l {
-                b.drain(l..);
-            }
+            b.0.resize(l, F::ZERO);
             a.0.extend_from_slice(&b[..]);
         }
         a.drain(n..);
@@ -297,12 +296,13 @@ impl<F: Field> Polynomial<F> {
     /// Returns `(q,r)` the quotient and remainder of the polynomial division of `a` by `b`.
     /// Algorithm from http://people.csail.mit.edu/madhu/ST12/scribe/lect06.pdf
     pub fn polynomial_division(&self, b: &Self) -> (Self, Self) {
-        let (a_degree, b_degree) = (self.degree(), b.degree());
-        if self.is_zero() {
-            (Self::zero(1), Self::empty())
-        } else if b.is_zero() {
+        if b.is_zero() {
             panic!("Division by zero polynomial");
-        } else if a_degree < b_degree {
+        } else if self.is_zero() {
+            return (Self::zero(1), Self::empty());
+        }
+        let (a_degree, b_degree) = (self.degree(), b.degree());
+        if a_degree < b_degree {
             (Self::zero(1), self.clone())
         } else if b_degree == 0 {
             (
@@ -312,11 +312,10 @@ impl<F: Field> Polynomial<F> {
         } else {
             let rev_b = b.rev();
             let rev_b_inv = rev_b.inv_mod_xn(a_degree - b_degree + 1);
-            let rev_q: Polynomial<F> = rev_b_inv
-                .mul(&self.rev()[..=a_degree - b_degree].to_vec().into())[..=a_degree - b_degree]
-                .to_vec()
-                .into();
-            let mut q = rev_q.rev();
+            let mut rev_q = rev_b_inv.mul(&self.rev()[..=a_degree - b_degree].to_vec().into());
+            rev_q.0.resize(a_degree - b_degree + 1, F::ZERO);
+            // The low coefficients of the quotient may be zero, so all of `rev_q` must be reversed.
+            let mut q = Self(rev_q.iter().rev().copied().collect());
             let mut qb = q.mul(b);
             qb.pad(self.len());
             let mut r = self.add(&qb.neg());
-- 
2.43.0


From fb84243a4355fb206b7b02e301109430584180de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:22 +0000
Subject: [PATCH 15/30] fix: generate the new accumulator of base 4 sum gates

---
 src/circuit_builder.rs  | 11 +++++++++++
 src/gates/base_4_sum.rs | 34 ++++++++++++++++++++++++++++------
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index 5fb3c1e..6cbc071 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -192,6 +192,17 @@ impl<C: HaloCurve> CircuitBuilder<C> {
                     }),
                 )
             }
+
+            // The remaining limbs are not used.
+            for i in chunk.len()..Base4SumGate::<C>::NUM_LIMBS {
+                self.generate_constant(
+                    Target::Wire(Wire {
+                        gate,
+                        input: Base4SumGate::<C>::wire_limb(i),
+                    }),
+                    C::ScalarField::ZERO,
+                );
+            }
         }
     }
 
diff --git a/src/gates/base_4_sum.rs b/src/gates/base_4_sum.rs
index 03e6107..ef42a36 100644
--- a/src/gates/base_4_sum.rs
+++ b/src/gates/base_4_sum.rs
@@ -1,7 +1,7 @@
 use std::marker::PhantomData;
 
 use crate::gates::Gate;
-use crate::{CircuitBuilder, Curve, Field, HaloCurve, PartialWitness, Target, WitnessGenerator, NUM_ROUTED_WIRES, NUM_WIRES};
+use crate::{CircuitBuilder, Curve, Field, HaloCurve, PartialWitness, Target, Wire, WitnessGenerator, NUM_ROUTED_WIRES, NUM_WIRES};
 
 /// A gate for accumulating base-4 limbs.
 pub struct Base4SumGate<C: Curve> {
@@ -98,17 +98,39 @@ impl<C: HaloCurve> Gate<C> for Base4SumGate<C> {
 
 impl<C: HaloCurve> WitnessGenerator<C::ScalarField> for Base4SumGate<C> {
     fn dependencies(&self) -> Vec<Target<C::ScalarField>> {
-        Vec::new()
+        let mut inputs = vec![Self::WIRE_ACC_OLD];
+        inputs.extend((0..Self::NUM_LIMBS).map(Self::wire_limb));
+        inputs
+            .into_iter()
+            .map(|input| {
+                Target::Wire(Wire {
+                    gate: self.index,
+                    input,
+                })
+            })
+            .collect()
     }
 
     fn generate(
         &self,
         _constants: &[Vec<C::ScalarField>],
-        _witness: &PartialWitness<C::ScalarField>,
+        witness: &PartialWitness<C::ScalarField>,
     ) -> PartialWitness<C::ScalarField> {
-        // For base 4 decompositions, we don't do any witness generation on a per-gate level.
-        // Instead, we have a single generator which generates values for an entire decomposition.
-        PartialWitness::new()
+        // For base 4 decompositions, we don't generate limbs on a per-gate level. Instead, we have
+        // a single generator which generates limbs for an entire decomposition. Here we only
+        // accumulate them.
+        let wire = |input| Wire {
+            gate: self.index,
+            input,
+        };
+        let mut acc = witness.get_wire(wire(Self::WIRE_ACC_OLD));
+        for i in 0..Self::NUM_LIMBS {
+            acc = acc.quadruple() + witness.get_wire(wire(Self::wire_limb(i)));
+        }
+
+        let mut result = PartialWitness::new();
+        result.set_wire(wire(Self::WIRE_ACC_NEW), acc);
+        result
     }
 }
 
-- 
2.43.0


From 2dca9cd2634568a6e0dd9954cfd3cdc3a50d51c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:22 +0000
Subject: [PATCH 16/30] fix: accumulate the most significant dibits first in
 assert_dibit_length

---
 src/circuit_builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index 6cbc071..b74ff38 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -832,8 +832,10 @@ impl<C: HaloCurve> CircuitBuilder<C> {
     ///
     /// Note: This is most efficient when `num_dibits` is a multiple of `Base4SumGate::NUM_LIMBS`.
     pub(crate) fn assert_dibit_length(&mut self, x: Target<C::ScalarField>, num_dibits: usize) {
-        // Get the purported base 4 decomposition of x.
-        let dibits = self.split_base_4(x, num_dibits);
+        // Get the purported base 4 decomposition of x. Base4SumGate accumulates the most significant
+        // limb first.
+        let mut dibits = self.split_base_4(x, num_dibits);
+        dibits.reverse();
 
         // Accumulate each full chunk of NUM_LIMBS dibits using a Base4SumGate.
         let mut sum = self.zero_wire();
-- 
2.43.0


From 45dfe317cb62934858dbff8c9c46e9fa1eb99ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:22 +0000
Subject: [PATCH 17/30] fix: verify the decomposition of the root in
 deterministic_square_root

---
 src/circuit_builder.rs | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index b74ff38..9eda6e0 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -527,7 +527,7 @@ impl<C: HaloCurve> CircuitBuilder<C> {
             f_bits, 254,
             "We currently only handle fields of size 2^254 + epsilon"
         );
-        let (bits, dibits) = self.split_binary_and_base_4(x_sqrt, 2, 126);
+        let (bits, mut dibits) = self.split_binary_and_base_4(x_sqrt, 2, 126);
 
         // Verify that x_sqrt * x_sqrt = x.
         let x_sqrt_squared = self.square(x_sqrt);
@@ -537,10 +537,11 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         self.assert_zero(bits[0]);
         self.assert_binary(bits[1]);
 
-        // Verify the decomposition by taking a weighted sum of the limbs. Since the first bit is
-        // always zero, we start with the second bit (scaled by its weight of 2) and then add the
-        // base 4 limbs.
-        let mut sum = self.double(bits[1]);
+        // Verify the decomposition by taking a weighted sum of the limbs. We start with the base 4
+        // limbs, the most significant one first. Since the first bit is always zero, it then only
+        // remains to add the second bit (scaled by its weight of 2).
+        let mut sum = self.zero_wire();
+        dibits.reverse();
         for chunk in dibits.chunks(Base4SumGate::<C>::NUM_LIMBS) {
             assert_eq!(
                 chunk.len(),
@@ -550,28 +551,31 @@ impl<C: HaloCurve> CircuitBuilder<C> {
 
             let index = self.num_gates();
             self.add_gate_no_constants(Base4SumGate::new(index));
-            for i in 0..chunk.len() {
-                self.copy(
-                    sum,
-                    Target::Wire(Wire {
-                        gate: index,
-                        input: Base4SumGate::<C>::WIRE_ACC_OLD,
-                    }),
-                );
+            self.copy(
+                sum,
+                Target::Wire(Wire {
+                    gate: index,
+                    input: Base4SumGate::<C>::WIRE_ACC_OLD,
+                }),
+            );
+            for (i, &dibit) in chunk.iter().enumerate() {
                 self.copy(
-                    chunk[i],
+                    dibit,
                     Target::Wire(Wire {
                         gate: index,
                         input: Base4SumGate::<C>::wire_limb(i),
                     }),
                 );
-                sum = Target::Wire(Wire {
-                    gate: index,
-                    input: Base4SumGate::<C>::WIRE_ACC_NEW,
-                })
             }
+            sum = Target::Wire(Wire {
+                gate: index,
+                input: Base4SumGate::<C>::WIRE_ACC_NEW,
+            });
         }
-        self.copy(sum, x);
+        let four = self.constant_wire_u32(4);
+        let double_bit = self.double(bits[1]);
+        let sum = self.mul_add(sum, four, double_bit);
+        self.copy(sum, x_sqrt);
 
         x_sqrt
     }
-- 
2.43.0


From 49a6ed829dca3cac8e256f9d843d51012b496a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:22 +0000
Subject: [PATCH 18/30] fix: include the curve's coefficient in CurveDblGate's
 generator

---
 src/gates/curve_dbl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gates/curve_dbl.rs b/src/gates/curve_dbl.rs
index 3b22814..0200f11 100644
--- a/src/gates/curve_dbl.rs
+++ b/src/gates/curve_dbl.rs
@@ -155,7 +155,7 @@ impl<C: HaloCurve, InnerC: Curve<BaseField = C::ScalarField>> WitnessGenerator<C
         let y_old = witness.get_wire(y_old_target);
 
         let inverse = y_old.double().multiplicative_inverse().expect("y = 0");
-        let lambda = x_old.square().triple() * inverse;
+        let lambda = (x_old.square().triple() + InnerC::A) * inverse;
         let x_new = lambda.square() - x_old.double();
         let y_new = lambda * (x_old - x_new) - y_old;
 
-- 
2.43.0


From 1c1328623bcd4394f543ea121c3dd83eaf521072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:22 +0000
Subject: [PATCH 19/30] fix: CurveEndoGate's generator follows its constraints

---
 src/gates/curve_endo.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/gates/curve_endo.rs b/src/gates/curve_endo.rs
index a9c87f8..5d18e7b 100644
--- a/src/gates/curve_endo.rs
+++ b/src/gates/curve_endo.rs
@@ -216,19 +216,19 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> WitnessGenerat
 
         let scalar_acc_unsigned_old_target = Wire {
             gate: self.index,
-            input: Self::WIRE_GROUP_ACC_Y,
+            input: Self::WIRE_SCALAR_ACC_UNSIGNED,
         };
         let scalar_acc_unsigned_new_target = Wire {
             gate: self.index + GRID_WIDTH,
-            input: Self::WIRE_GROUP_ACC_Y,
+            input: Self::WIRE_SCALAR_ACC_UNSIGNED,
         };
         let scalar_acc_signed_old_target = Wire {
             gate: self.index,
-            input: Self::WIRE_GROUP_ACC_Y,
+            input: Self::WIRE_SCALAR_ACC_SIGNED,
         };
         let scalar_acc_signed_new_target = Wire {
             gate: self.index + GRID_WIDTH,
-            input: Self::WIRE_GROUP_ACC_Y,
+            input: Self::WIRE_SCALAR_ACC_SIGNED,
         };
 
         let addend_x_target = Wire {
@@ -268,11 +268,11 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> WitnessGenerat
         let p_y = witness.get_wire(addend_y_target);
 
         let mut s_i_x = p_x;
-        if scalar_bit_0 == InnerC::BaseField::ONE {
+        if scalar_bit_1 == InnerC::BaseField::ONE {
             s_i_x = s_i_x * InnerC::ZETA;
         }
         let mut s_i_y = p_y;
-        if scalar_bit_1 == InnerC::BaseField::ZERO {
+        if scalar_bit_0 == InnerC::BaseField::ZERO {
             s_i_y = -s_i_y;
         }
         let s_i = AffinePoint::nonzero(s_i_x, s_i_y);
@@ -294,8 +294,7 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> WitnessGenerat
 
         // Here's where our abstraction leaks a bit. Although we already have the sum, we need to
         // redo part of the computation in order to populate the purported inverse wire.
-        let dx = group_acc_old_x - p_x;
-        let _dy = group_acc_old_y - p_y;
+        let dx = group_acc_old_x - s_i_x;
         let inverse = dx.multiplicative_inverse().expect("x_1 = x_2");
 
         let mut result = PartialWitness::new();
-- 
2.43.0


From 1fa75337ed2131bd30b8bc83e4cf5505715bd8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:22 +0000
Subject: [PATCH 20/30] fix: multiplication of big integers without limbs

---
 src/circuit_bigint.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/circuit_bigint.rs b/src/circuit_bigint.rs
index b256f89..5b5e964 100644
--- a/src/circuit_bigint.rs
+++ b/src/circuit_bigint.rs
@@ -349,6 +349,11 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         let x_n = x.num_limbs();
         let y_n = y.num_limbs();
 
+        // An integer without limbs is zero.
+        if x_n == 0 || y_n == 0 {
+            return BigIntTarget::zero();
+        }
+
         let mut result_digits = Vec::new();
         let mut carry: BigIntTarget<C::ScalarField> = BigIntTarget::zero();
 
-- 
2.43.0


From 86e59ba9ca3ab22db25a8f7008f1963d67be9eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:22 +0000
Subject: [PATCH 21/30] fix: range-check the most significant limb of a big
 integer by its bound

---
 src/circuit_bigint.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/circuit_bigint.rs b/src/circuit_bigint.rs
index 5b5e964..473a01d 100644
--- a/src/circuit_bigint.rs
+++ b/src/circuit_bigint.rs
@@ -110,8 +110,12 @@ impl<C: HaloCurve> CircuitBuilder<C> {
 
         if validate {
             // Check that we have a valid bigint encoding, with each limb being in the proper range.
-            for &limb in &limbs {
-                self.assert_dibit_length(limb, LIMB_DIBITS);
+            // The most significant limb may only be as long as max requires; otherwise, the weighted
+            // sum of the limbs of a field element might exceed the field size, so that an element
+            // would have several encodings.
+            for (i, &limb) in limbs.iter().enumerate() {
+                let bits = LIMB_BITS.min(max.bits() as usize - i * LIMB_BITS);
+                self.assert_dibit_length(limb, ceil_div_usize(bits, 2));
             }
         }
 
-- 
2.43.0


From a4de9d7dc20b374117fcc3b970e023a9bb2b2715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:55 +0000
Subject: [PATCH 22/30] fix: validate old proofs before verifying a proof which
 refers to them

---
 src/verifier.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/verifier.rs b/src/verifier.rs
index 2354d5b..3e8b648 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -59,6 +59,7 @@ pub fn verify_proof<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>
     // Verify that the proof parameters are valid.
     check_proof_shape(public_inputs, proof, old_proofs, vk)?;
     check_proof_parameters(proof)?;
+    check_old_proof_parameters(old_proofs)?;
 
     // Observe the transcript and generate the associated challenge points using Fiat-Shamir.
     let challs = proof.get_challenges(public_inputs, old_proofs)?;
@@ -397,6 +398,23 @@ fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
     Ok(())
 }
 
+/// Check that the parameters in the old proofs are well-formed, i.e, that the `halo_g` points are on
+/// the curve, and that the challenges are invertible.
+fn check_old_proof_parameters<C: HaloCurve>(old_proofs: &[OldProof<C>]) -> Result<()> {
+    ensure!(
+        old_proofs.iter().all(|p| p.halo_g.is_valid()),
+        "The Halo G point of an old proof is not on the curve."
+    );
+    ensure!(
+        old_proofs
+            .iter()
+            .all(|p| p.halo_us.iter().all(|u| u.is_nonzero())),
+        "A Halo challenge of an old proof is zero."
+    );
+
+    Ok(())
+}
+
 /// Reshapes a vector of field elements to a zero-padded matrix of height `NUM_WIRES`.
 fn public_inputs_to_wires_vec<F: Field>(public_inputs: &[F]) -> Vec<Vec<F>> {
     let n = public_inputs.len();
-- 
2.43.0


From c8e4f79b503e625a7bec2c9448b12e137b0ca546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:40 +0000
Subject: [PATCH 23/30] fix: bind the old proofs' challenges to the transcript

---
 src/plonk.rs       | 10 ++++++----
 src/plonk_proof.rs | 10 +++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/plonk.rs b/src/plonk.rs
index f0452c0..9658127 100644
--- a/src/plonk.rs
+++ b/src/plonk.rs
@@ -249,10 +249,12 @@ impl<C: HaloCurve> Circuit<C> {
             .observe_affine_points(&PolynomialCommitment::commitments_to_affine_vec(&c_plonk_t));
         // Observe the `pis_quotient` polynomial commitment.
         challenger.observe_affine_point(c_pis_quotient.to_affine());
-        // Observe the old proofs' `G` points.
-        old_proofs
-            .iter()
-            .for_each(|old_proof| challenger.observe_affine_point(old_proof.halo_g));
+        // Observe the old proofs, i.e. their `G` points and their challenges. Otherwise, challenges
+        // could be chosen after zeta such that any polynomial opens to the expected value.
+        for old_proof in old_proofs {
+            challenger.observe_affine_point(old_proof.halo_g);
+            challenger.observe_elements(&C::ScalarField::try_convert_all(&old_proof.halo_us)?);
+        }
         // Generate a random `zeta` from the transcript.
         let zeta_bf = challenger.get_challenge();
         let zeta_sf =
diff --git a/src/plonk_proof.rs b/src/plonk_proof.rs
index e4fbdc1..c118a55 100644
--- a/src/plonk_proof.rs
+++ b/src/plonk_proof.rs
@@ -75,9 +75,13 @@ impl<C: HaloCurve> Proof<C> {
         let alpha = C::try_convert_b2s(alpha_bf).map_err(|_| anyhow!(error_msg))?;
         challenger.observe_affine_points(&self.c_plonk_t);
         challenger.observe_affine_point(self.c_pis_quotient);
-        old_proofs
-            .iter()
-            .for_each(|old_proof| challenger.observe_affine_point(old_proof.halo_g));
+        for old_proof in old_proofs {
+            challenger.observe_affine_point(old_proof.halo_g);
+            challenger.observe_elements(
+                &C::ScalarField::try_convert_all(&old_proof.halo_us)
+                    .map_err(|_| anyhow!(error_msg))?,
+            );
+        }
         let zeta_bf = challenger.get_challenge();
         let zeta = C::try_convert_b2s(zeta_bf).map_err(|_| anyhow!(error_msg))?;
         for os in self.all_opening_sets().iter() {
-- 
2.43.0


From 1e01f16e3d9052b305808cdbeb6cd99aead667e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 24/30] fix: in-circuit constraints of the curve gates have the
 native ones' signs

---
 src/gates/curve_add.rs  | 6 +++---
 src/gates/curve_endo.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gates/curve_add.rs b/src/gates/curve_add.rs
index 2846665..a077e84 100644
--- a/src/gates/curve_add.rs
+++ b/src/gates/curve_add.rs
@@ -1,6 +1,6 @@
 use std::marker::PhantomData;
 
-use crate::gates::{assert_binary_recursively, assert_inverses_recursively, Gate};
+use crate::gates::{assert_inverses_recursively, Gate};
 use crate::{CircuitBuilder, Curve, Field, HaloCurve, PartialWitness, Target, Wire, WitnessGenerator};
 
 /// A gate which performs incomplete point addition, conditioned on an input bit. In order to
@@ -135,8 +135,8 @@ impl<C: HaloCurve, InnerC: Curve<BaseField = C::ScalarField>> Gate<C> for CurveA
             builder.sub(computed_lambda, lambda),
             builder.sub(computed_x4, x4),
             builder.sub(computed_y4, y4),
-            builder.sub(computed_scalar_acc_new, scalar_acc_new),
-            assert_binary_recursively(builder, scalar_bit),
+            builder.sub(scalar_acc_new, computed_scalar_acc_new),
+            builder.mul(scalar_bit, not_scalar_bit),
             assert_inverses_recursively(builder, inverse, x1_minus_x2),
         ]
     }
diff --git a/src/gates/curve_endo.rs b/src/gates/curve_endo.rs
index 5d18e7b..ef27571 100644
--- a/src/gates/curve_endo.rs
+++ b/src/gates/curve_endo.rs
@@ -143,8 +143,8 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> Gate<C>
         vec![
             builder.sub(computed_x3, x3),
             builder.sub(computed_y3, y3),
-            builder.sub(computed_scalar_acc_unsigned_new, scalar_acc_unsigned_new),
-            builder.sub(computed_scalar_acc_signed_new, scalar_acc_signed_new),
+            builder.sub(scalar_acc_unsigned_new, computed_scalar_acc_unsigned_new),
+            builder.sub(scalar_acc_signed_new, computed_scalar_acc_signed_new),
             assert_binary_recursively(builder, scalar_bit_0),
             assert_binary_recursively(builder, scalar_bit_1),
             assert_inverses_recursively(builder, inverse, x1_minus_x2),
-- 
2.43.0


From 2ea36123f081e15f255c5dd16fd7ace7ba6af03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 25/30] fix: CurveEndoGate's generator wrote projective
 coordinates

---
 src/gates/curve_endo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gates/curve_endo.rs b/src/gates/curve_endo.rs
index ef27571..14e0d97 100644
--- a/src/gates/curve_endo.rs
+++ b/src/gates/curve_endo.rs
@@ -276,7 +276,7 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> WitnessGenerat
             s_i_y = -s_i_y;
         }
         let s_i = AffinePoint::nonzero(s_i_x, s_i_y);
-        let group_acc_new = group_acc_old + s_i;
+        let group_acc_new = (group_acc_old + s_i).to_affine();
 
         let scalar_acc_unsigned_new =
             scalar_acc_unsigned_old.quadruple() + scalar_bit_0 + scalar_bit_1.double();
-- 
2.43.0


From 5f39469a66eec00f03f0da133d1357510848b32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 26/30] fix: public inputs take part in the wiring's partitions

A generator depending on a Target::PublicInput was never run, since that
target was never populated, and one writing it panicked.
---
 src/circuit_builder.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index 9eda6e0..2759d4e 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -1120,7 +1120,7 @@ impl<C: HaloCurve> CircuitBuilder<C> {
 
         let degree = self.num_gates();
         let degree_pow = log2_strict(degree);
-        let routing_target_partitions = self.get_routing_partitions();
+        let routing_target_partitions = self.get_routing_partitions(num_gates_without_pis);
         let wire_partitions = routing_target_partitions.to_wire_partitions();
         let sigma = wire_partitions.to_sigma();
 
@@ -1202,7 +1202,10 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         }
     }
 
-    fn get_routing_partitions(&self) -> TargetPartitions<C::ScalarField> {
+    fn get_routing_partitions(
+        &self,
+        num_gates_without_pis: usize,
+    ) -> TargetPartitions<C::ScalarField> {
         let mut partitions = TargetPartitions::new();
 
         for i in 0..self.virtual_target_index {
@@ -1215,6 +1218,14 @@ impl<C: HaloCurve> CircuitBuilder<C> {
             }
         }
 
+        // A generator may depend on (or write) a public input, which must then share the value of
+        // the wire the public input is routed through.
+        for index in 0..self.public_input_index {
+            let pi = PublicInput::new(index);
+            partitions.add_partition(Target::PublicInput(pi));
+            partitions.merge(Target::PublicInput(pi), pi.routable_target(num_gates_without_pis));
+        }
+
         for &(a, b) in &self.copy_constraints {
             partitions.merge(a, b);
         }
-- 
2.43.0


From 0254b97e64b4addf0159059c9715e0acd1c08819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:24 +0000
Subject: [PATCH 27/30] fix: refuse to look up values outside the table instead
 of panicking

---
 plookup/src/plookup.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 9efc412..e4fcf82 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -2,7 +2,7 @@
 #![allow(clippy::too_many_arguments)]
 use crate::openings::open_all_polynomials;
 use crate::proof::PlookupProof;
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use plonky::halo::batch_opening_proof;
 use plonky::plonk_challenger::Challenger;
 use plonky::plonk_util::reduce_with_powers;
@@ -14,6 +14,11 @@ pub const SECURITY_BITS: usize = 128;
 
 /// Computes a proof that `t` is a sub(multi)set of `f`, following the Plookup protocol (https://ia.cr/2020/315).
 pub fn prove<C: HaloCurve>(f: &[C::ScalarField], t: &[C::ScalarField]) -> Result<PlookupProof<C>> {
+    ensure!(!t.is_empty(), "The table is empty.");
+    ensure!(
+        f.iter().all(|x| t.contains(x)),
+        "A value is not in the table."
+    );
     let (n, f, t) = pad_inputs(f, t);
 
     // Compute the `s` multiset of the Plookup protocol.
-- 
2.43.0


From fe798ff07f9384bde173ceeaa0a9ba975100dff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:24 +0000
Subject: [PATCH 28/30] fix: looking up no value in a table of one element

---
 plookup/src/plookup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index e4fcf82..194faf6 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -165,7 +165,7 @@ fn pad_inputs<F: Field>(f: &[F], t: &[F]) -> (usize, Vec<F>, Vec<F>) {
         f.to_vec()
     };
     // `f` takes at most `n` elements, where `n + 1` is a power of two.
-    let n = (f.len() + 1).next_power_of_two() - 1;
+    let n = (f.len() + 1).next_power_of_two().max(2) - 1;
 
     let f = padded_with(&f, n, last(t));
     let t = padded_table(t, n + 1);
-- 
2.43.0


From e634e3584886e0b17096b7473cf008574d656cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:24 +0000
Subject: [PATCH 29/30] fix: look up values in tables with repeated elements

The union of the values and the table was sorted by first occurrences, which
does not keep the table's consecutive pairs when an element is repeated later.
---
 plookup/src/plookup.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 194faf6..7be2ea7 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -22,9 +22,7 @@ pub fn prove<C: HaloCurve>(f: &[C::ScalarField], t: &[C::ScalarField]) -> Result
     let (n, f, t) = pad_inputs(f, t);
 
     // Compute the `s` multiset of the Plookup protocol.
-    let mut s = f.clone();
-    s.extend_from_slice(&t);
-    sort_by(&mut s, &t);
+    let s = merge_sorted_by(&f, &t);
 
     // Initiate the Fiat-Shamir challenger.
     let mut challenger = Challenger::new(SECURITY_BITS);
@@ -182,6 +180,22 @@ fn sort_by<F: Field>(f: &mut [F], t: &[F]) {
     });
 }
 
+/// Computes the multiset union of `t` and a subset `f` thereof, sorted by `t`. The elements of `t` keep
+/// their order, also when some are repeated, and those of `f` follow the first occurrence in `t`.
+fn merge_sorted_by<F: Field>(f: &[F], t: &[F]) -> Vec<F> {
+    let mut f = f.to_vec();
+    sort_by(&mut f, t);
+    let mut f = f.into_iter().peekable();
+    let mut s = Vec::new();
+    for &x in t {
+        s.push(x);
+        while f.peek() == Some(&x) {
+            s.extend(f.next());
+        }
+    }
+    s
+}
+
 /// Computes the Plookup grand product polynomial.
 fn grand_polynomial<F: Field>(f: &[F], t: &[F], s: &[F], beta: F, gamma: F) -> Vec<F> {
     let n = f.len();
-- 
2.43.0


From daf1f727ec10baa73afaa5fbab87e47665a104a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:24 +0000
Subject: [PATCH 30/30] fix: an opened value of a lookup proof that does not
 fit in both fields is an error

---
 plookup/src/plookup.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 7be2ea7..c414204 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -114,11 +114,9 @@ pub fn prove<C: HaloCurve>(f: &[C::ScalarField], t: &[C::ScalarField]) -> Result
     let openings_bf: Vec<_> = openings
         .to_vec()
         .into_iter()
-        .map(|f| {
-            C::try_convert_s2b(f)
-                .expect("For now, we assume that all opened values fit in both fields")
-        })
-        .collect();
+        // For now, we assume that all opened values fit in both fields.
+        .map(C::try_convert_s2b)
+        .collect::<Result<_>>()?;
     challenger.observe_elements(&openings_bf);
     let (v_bf, u_bf, u_scaling_bf) = challenger.get_3_challenges();
     let v = v_bf.try_convert::<C::ScalarField>()?;
-- 
2.43.0

