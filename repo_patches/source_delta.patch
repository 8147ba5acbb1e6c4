From 99810b6f834fa72fe43331863423162adb34c72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:33 +0000
Subject: [PATCH 01/30] fix: in-circuit RescueStepBGate constraints must mix
 all exponentiated inputs

---
 src/gates/rescue_b.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gates/rescue_b.rs b/src/gates/rescue_b.rs
index 5a116a6..1edb937 100644
--- a/src/gates/rescue_b.rs
+++ b/src/gates/rescue_b.rs
@@ -84,7 +84,7 @@ impl<C: HaloCurve> Gate<C> for RescueStepBGate<C> {
             let mut computed_out_i = local_constant_values[Self::PREFIX.len() + i];
             for j in 0..RESCUE_SPONGE_WIDTH {
                 let mds_entry = builder.constant_wire(mds.get(i, j));
-                computed_out_i = builder.mul_add(mds_entry, exps[i], computed_out_i);
+                computed_out_i = builder.mul_add(mds_entry, exps[j], computed_out_i);
             }
             constraints.push(builder.sub(computed_out_i, outs[i]));
         }
-- 
2.43.0


From b35b947a2d8d4bca1000953fefcaac474749d831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:33 +0000
Subject: [PATCH 02/30] fix: in-circuit CurveAddGate and CurveEndoGate
 constraints had the opposite sign of the native ones

---
 src/gates/curve_add.rs  | 6 +++---
 src/gates/curve_endo.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gates/curve_add.rs b/src/gates/curve_add.rs
index a236a74..af0ba23 100644
--- a/src/gates/curve_add.rs
+++ b/src/gates/curve_add.rs
@@ -1,6 +1,6 @@
 use std::marker::PhantomData;
 
-use crate::gates::{assert_binary_recursively, assert_inverses_recursively, Gate};
+use crate::gates::{assert_inverses_recursively, Gate};
 use crate::{CircuitBuilder, Curve, Field, HaloCurve, PartialWitness, Target, Wire, WitnessGenerator};
 
 /// A gate which performs incomplete point addition, conditioned on an input bit. In order to
@@ -135,8 +135,8 @@ impl<C: HaloCurve, InnerC: Curve<BaseField = C::ScalarField>> Gate<C> for CurveA
             builder.sub(computed_lambda, lambda),
             builder.sub(computed_x4, x4),
             builder.sub(computed_y4, y4),
-            builder.sub(computed_scalar_acc_new, scalar_acc_new),
-            assert_binary_recursively(builder, scalar_bit),
+            builder.sub(scalar_acc_new, computed_scalar_acc_new),
+            builder.mul(scalar_bit, not_scalar_bit),
             assert_inverses_recursively(builder, inverse, x1_minus_x2),
         ]
     }
diff --git a/src/gates/curve_endo.rs b/src/gates/curve_endo.rs
index a9c87f8..a81afd1 100644
--- a/src/gates/curve_endo.rs
+++ b/src/gates/curve_endo.rs
@@ -143,8 +143,8 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> Gate<C>
         vec![
             builder.sub(computed_x3, x3),
             builder.sub(computed_y3, y3),
-            builder.sub(computed_scalar_acc_unsigned_new, scalar_acc_unsigned_new),
-            builder.sub(computed_scalar_acc_signed_new, scalar_acc_signed_new),
+            builder.sub(scalar_acc_unsigned_new, computed_scalar_acc_unsigned_new),
+            builder.sub(scalar_acc_signed_new, computed_scalar_acc_signed_new),
             assert_binary_recursively(builder, scalar_bit_0),
             assert_binary_recursively(builder, scalar_bit_1),
             assert_inverses_recursively(builder, inverse, x1_minus_x2),
-- 
2.43.0


From 4c7ca45c5ce3df10d43355cb8183c62ab819dabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:33 +0000
Subject: [PATCH 03/30] fix: CurveAddGate generator reads the scalar bit but
 did not depend on it

---
 src/gates/curve_add.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gates/curve_add.rs b/src/gates/curve_add.rs
index af0ba23..a077e84 100644
--- a/src/gates/curve_add.rs
+++ b/src/gates/curve_add.rs
@@ -167,6 +167,10 @@ impl<C: HaloCurve, InnerC: Curve<BaseField = C::ScalarField>> WitnessGenerator<C
                 gate: self.index,
                 input: Self::WIRE_ADDEND_Y,
             }),
+            Target::Wire(Wire {
+                gate: self.index,
+                input: Self::WIRE_SCALAR_BIT,
+            }),
         ]
     }
 
-- 
2.43.0


From f5b29ef8d9c79b321d84bd78d4eb6197a3e8e08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:33 +0000
Subject: [PATCH 04/30] fix: CurveEndoGate generator wrote the wrong
 accumulator wires and did not satisfy its constraints

---
 src/gates/curve_endo.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/gates/curve_endo.rs b/src/gates/curve_endo.rs
index a81afd1..ef27571 100644
--- a/src/gates/curve_endo.rs
+++ b/src/gates/curve_endo.rs
@@ -216,19 +216,19 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> WitnessGenerat
 
         let scalar_acc_unsigned_old_target = Wire {
             gate: self.index,
-            input: Self::WIRE_GROUP_ACC_Y,
+            input: Self::WIRE_SCALAR_ACC_UNSIGNED,
         };
         let scalar_acc_unsigned_new_target = Wire {
             gate: self.index + GRID_WIDTH,
-            input: Self::WIRE_GROUP_ACC_Y,
+            input: Self::WIRE_SCALAR_ACC_UNSIGNED,
         };
         let scalar_acc_signed_old_target = Wire {
             gate: self.index,
-            input: Self::WIRE_GROUP_ACC_Y,
+            input: Self::WIRE_SCALAR_ACC_SIGNED,
         };
         let scalar_acc_signed_new_target = Wire {
             gate: self.index + GRID_WIDTH,
-            input: Self::WIRE_GROUP_ACC_Y,
+            input: Self::WIRE_SCALAR_ACC_SIGNED,
         };
 
         let addend_x_target = Wire {
@@ -268,11 +268,11 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> WitnessGenerat
         let p_y = witness.get_wire(addend_y_target);
 
         let mut s_i_x = p_x;
-        if scalar_bit_0 == InnerC::BaseField::ONE {
+        if scalar_bit_1 == InnerC::BaseField::ONE {
             s_i_x = s_i_x * InnerC::ZETA;
         }
         let mut s_i_y = p_y;
-        if scalar_bit_1 == InnerC::BaseField::ZERO {
+        if scalar_bit_0 == InnerC::BaseField::ZERO {
             s_i_y = -s_i_y;
         }
         let s_i = AffinePoint::nonzero(s_i_x, s_i_y);
@@ -294,8 +294,7 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> WitnessGenerat
 
         // Here's where our abstraction leaks a bit. Although we already have the sum, we need to
         // redo part of the computation in order to populate the purported inverse wire.
-        let dx = group_acc_old_x - p_x;
-        let _dy = group_acc_old_y - p_y;
+        let dx = group_acc_old_x - s_i_x;
         let inverse = dx.multiplicative_inverse().expect("x_1 = x_2");
 
         let mut result = PartialWitness::new();
-- 
2.43.0


From 1067a8bcb618135b784cd6b97f6bec9408e4968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:55 +0000
Subject: [PATCH 05/30] fix: CurveEndoGate generator wrote unnormalised
 projective coordinates as the new accumulator

---
 src/gates/curve_endo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gates/curve_endo.rs b/src/gates/curve_endo.rs
index ef27571..14e0d97 100644
--- a/src/gates/curve_endo.rs
+++ b/src/gates/curve_endo.rs
@@ -276,7 +276,7 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> WitnessGenerat
             s_i_y = -s_i_y;
         }
         let s_i = AffinePoint::nonzero(s_i_x, s_i_y);
-        let group_acc_new = group_acc_old + s_i;
+        let group_acc_new = (group_acc_old + s_i).to_affine();
 
         let scalar_acc_unsigned_new =
             scalar_acc_unsigned_old.quadruple() + scalar_bit_0 + scalar_bit_1.double();
-- 
2.43.0


From 106e711ee17f56e9049fe9be87bdddf0db9bea6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 06/30] fix: challenger repeated the same challenge when
 drawing several in a row

---
 src/plonk_challenger.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/plonk_challenger.rs b/src/plonk_challenger.rs
index 7d422f9..68e1b25 100644
--- a/src/plonk_challenger.rs
+++ b/src/plonk_challenger.rs
@@ -92,6 +92,11 @@ impl<F: Field> Challenger<F> {
 
     /// Absorb any buffered inputs. After calling this, the input buffer will be empty.
     fn absorb_buffered_inputs(&mut self) {
+        if self.input_buffer.is_empty() {
+            // Nothing to absorb; any outputs which are still buffered remain valid.
+            return;
+        }
+
         for input_chunk in self.input_buffer.chunks(RESCUE_SPONGE_RATE) {
             // Add the inputs to our sponge state.
             for (i, &input) in input_chunk.iter().enumerate() {
@@ -211,6 +216,11 @@ impl<F: Field> RecursiveChallenger<F> {
         &mut self,
         builder: &mut CircuitBuilder<C>,
     ) {
+        if self.input_buffer.is_empty() {
+            // Nothing to absorb; any outputs which are still buffered remain valid.
+            return;
+        }
+
         for input_chunk in self.input_buffer.chunks(RESCUE_SPONGE_RATE) {
             // Add the inputs to our sponge state.
             for (i, &input) in input_chunk.iter().enumerate() {
-- 
2.43.0


From 773c305ef5a0bf908dd00ae6160e99af951469d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 07/30] fix: bind every challenge of a proof to the public
 inputs, which were observed only after alpha

---
 src/plonk.rs       | 22 ++++++++++++----------
 src/plonk_proof.rs |  9 +++++----
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/plonk.rs b/src/plonk.rs
index a9b26b2..0288d30 100644
--- a/src/plonk.rs
+++ b/src/plonk.rs
@@ -117,6 +117,17 @@ impl<C: HaloCurve> Circuit<C> {
             values_to_polynomials(&wire_values_by_wire_no_pis, &self.fft_precomputation_n)
         };
 
+        let public_inputs = (0..self.num_public_inputs)
+            .map(|i| wire_values_by_wire_index[i % NUM_WIRES][self.num_gates_without_pis + 2 * (i / NUM_WIRES)])
+            .collect::<Vec<_>>();
+
+        // Observe the public inputs. They are part of the statement, so every challenge must depend on them;
+        // in particular `alpha`, which is used to combine them.
+        challenger.observe_elements(
+            &C::ScalarField::try_convert_all(&public_inputs)
+                .expect("Public inputs should fit in both fields"),
+        );
+
         // Generate a random beta and gamma from the transcript.
         challenger
             .observe_affine_points(&PolynomialCommitment::commitments_to_affine_vec(&c_wires));
@@ -234,20 +245,11 @@ impl<C: HaloCurve> Circuit<C> {
             blinding_commitments,
         );
 
-        let public_inputs = (0..self.num_public_inputs)
-            .map(|i| wire_values_by_wire_index[i % NUM_WIRES][self.num_gates_without_pis + 2 * (i / NUM_WIRES)])
-            .collect::<Vec<_>>();
-
         // Observe the `t` polynomial commitment.
         challenger
             .observe_affine_points(&PolynomialCommitment::commitments_to_affine_vec(&c_plonk_t));
-        // If the proof doesn't output public inputs, observe the `pis_quotient` polynomial commitment and the public inputs.
+        // Observe the `pis_quotient` polynomial commitment.
         challenger.observe_affine_point(c_pis_quotient.to_affine());
-        // Observe the public inputs
-        challenger.observe_elements(
-            &C::ScalarField::try_convert_all(&public_inputs)
-                .expect("Public inputs should fit in both fields"),
-        );
         // Observe the old proofs' `G` points.
         old_proofs
             .iter()
diff --git a/src/plonk_proof.rs b/src/plonk_proof.rs
index 4a11a7a..0850233 100644
--- a/src/plonk_proof.rs
+++ b/src/plonk_proof.rs
@@ -63,6 +63,11 @@ impl<C: HaloCurve> Proof<C> {
     ) -> Result<ProofChallenge<C>> {
         let mut challenger = Challenger::new(SECURITY_BITS);
         let error_msg = "Conversion from base to scalar field failed.";
+        // The public inputs are part of the statement, so every challenge must depend on them.
+        challenger.observe_elements(
+            &C::ScalarField::try_convert_all(public_inputs)
+                .expect("Public inputs should fit in both fields"),
+        );
         challenger.observe_affine_points(&self.c_wires);
         let (beta_bf, gamma_bf) = challenger.get_2_challenges();
         let beta = C::try_convert_b2s(beta_bf).map_err(|_| anyhow!(error_msg))?;
@@ -72,10 +77,6 @@ impl<C: HaloCurve> Proof<C> {
         let alpha = C::try_convert_b2s(alpha_bf).map_err(|_| anyhow!(error_msg))?;
         challenger.observe_affine_points(&self.c_plonk_t);
         challenger.observe_affine_point(self.c_pis_quotient);
-        challenger.observe_elements(
-            &C::ScalarField::try_convert_all(public_inputs)
-                .expect("Public inputs should fit in both fields"),
-        );
         old_proofs
             .iter()
             .for_each(|old_proof| challenger.observe_affine_point(old_proof.halo_g));
-- 
2.43.0


From 58f4f3c27b65e9ae61af2025d90cc7e821b69d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 08/30] fix: verifier accepted a public input quotient
 commitment that is not on the curve

---
 src/verifier.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/verifier.rs b/src/verifier.rs
index 5602716..6432898 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -293,6 +293,7 @@ fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
         c_wires,
         c_plonk_z,
         c_plonk_t,
+        c_pis_quotient,
         halo_l,
         halo_r,
         halo_g,
@@ -312,6 +313,10 @@ fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
         c_plonk_t.iter().all(|p| p.is_valid()),
         "A t polynomial commitment is not on the curve."
     );
+    ensure!(
+        c_pis_quotient.is_valid(),
+        "The public input quotient polynomial commitment is not on the curve."
+    );
     ensure!(
         halo_l.iter().all(|p| p.is_valid()),
         "A Halo left point is not on the curve."
-- 
2.43.0


From cb3dacc1e2c1297c6d561865e726436bb9749f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 09/30] fix: verifier accepted proofs whose lists have the
 wrong lengths

---
 src/verifier.rs | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/verifier.rs b/src/verifier.rs
index 6432898..83094fd 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -8,7 +8,7 @@ use crate::halo::verify_ipa;
 use crate::plonk_proof::OldProof;
 use crate::plonk_util::{halo_g, halo_n, halo_n_mul, halo_s, pedersen_hash, powers, reduce_with_powers};
 use crate::util::{ceil_div_usize, log2_strict};
-use crate::{blake_hash_usize_to_curve, fft_precompute, msm_execute_parallel, msm_precompute, AffinePoint, Circuit, FftPrecomputation, Field, HaloCurve, MsmPrecomputation, Polynomial, Proof, GRID_WIDTH, NUM_ROUTED_WIRES, NUM_WIRES};
+use crate::{blake_hash_usize_to_curve, fft_precompute, msm_execute_parallel, msm_precompute, AffinePoint, Circuit, FftPrecomputation, Field, HaloCurve, MsmPrecomputation, Polynomial, Proof, GRID_WIDTH, NUM_ROUTED_WIRES, NUM_WIRES, QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER};
 
 pub const SECURITY_BITS: usize = 128;
 
@@ -58,6 +58,7 @@ pub fn verify_proof<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>
 ) -> Result<Option<OldProof<C>>> {
     // Verify that the proof parameters are valid.
     check_proof_parameters(proof)?;
+    check_proof_shape(public_inputs, proof, old_proofs, vk)?;
 
     // Observe the transcript and generate the associated challenge points using Fiat-Shamir.
     let challs = proof.get_challenges(public_inputs, old_proofs)?;
@@ -359,6 +360,44 @@ fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
     Ok(())
 }
 
+/// Check that every list in a proof has the length which the verification key prescribes. The lists are concatenated
+/// when the commitments are opened, so without this check an element could be moved from one list to the next, and thus
+/// to a different position in the transcript.
+fn check_proof_shape<C: HaloCurve>(
+    public_inputs: &[C::ScalarField],
+    proof: &Proof<C>,
+    old_proofs: &[OldProof<C>],
+    vk: &VerificationKey<C>,
+) -> Result<()> {
+    ensure!(
+        public_inputs.len() == vk.num_public_inputs,
+        "Incorrect number of public inputs."
+    );
+    ensure!(
+        proof.c_wires.len() == NUM_WIRES,
+        "Incorrect number of wire polynomial commitments."
+    );
+    ensure!(
+        proof.c_plonk_t.len() == QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER,
+        "Incorrect number of t polynomial commitments."
+    );
+    ensure!(
+        proof.all_opening_sets().iter().all(|o| {
+            o.o_constants.len() == vk.c_constants.len()
+                && o.o_plonk_sigmas.len() == vk.c_s_sigmas.len()
+                && o.o_wires.len() == NUM_WIRES
+                && o.o_plonk_t.len() == QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER
+                && o.o_old_proofs.len() == old_proofs.len()
+        }),
+        "Incorrect number of openings."
+    );
+    ensure!(
+        proof.halo_l.len() == log2_strict(vk.degree),
+        "Incorrect number of Halo rounds."
+    );
+    Ok(())
+}
+
 /// Reshapes a vector of field elements to a zero-padded matrix of height `NUM_WIRES`.
 fn public_inputs_to_wires_vec<F: Field>(public_inputs: &[F]) -> Vec<Vec<F>> {
     let n = public_inputs.len();
-- 
2.43.0


From 1522600ef962a6cad63c4f14f591fa0a2b717640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 10/30] fix: generators depending on a public input target
 never ran, leaving their outputs zero

---
 src/circuit_builder.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index 5fb3c1e..ce2c8f3 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -1103,7 +1103,7 @@ impl<C: HaloCurve> CircuitBuilder<C> {
 
         let degree = self.num_gates();
         let degree_pow = log2_strict(degree);
-        let routing_target_partitions = self.get_routing_partitions();
+        let routing_target_partitions = self.get_routing_partitions(num_gates_without_pis);
         let wire_partitions = routing_target_partitions.to_wire_partitions();
         let sigma = wire_partitions.to_sigma();
 
@@ -1185,7 +1185,10 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         }
     }
 
-    fn get_routing_partitions(&self) -> TargetPartitions<C::ScalarField> {
+    fn get_routing_partitions(
+        &self,
+        num_gates_without_pis: usize,
+    ) -> TargetPartitions<C::ScalarField> {
         let mut partitions = TargetPartitions::new();
 
         for i in 0..self.virtual_target_index {
@@ -1198,6 +1201,17 @@ impl<C: HaloCurve> CircuitBuilder<C> {
             }
         }
 
+        // A `PublicInput` target stands for the wire it is routed to. Keeping it in that wire's
+        // partition lets witness generators depend on it.
+        for index in 0..self.public_input_index {
+            let pi = PublicInput::new(index);
+            partitions.add_partition(Target::PublicInput(pi));
+            partitions.merge(
+                Target::PublicInput(pi),
+                pi.routable_target(num_gates_without_pis),
+            );
+        }
+
         for &(a, b) in &self.copy_constraints {
             partitions.merge(a, b);
         }
-- 
2.43.0


From d408fb5c8609c9aed793ccb85dd81a2581af031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 11/30] fix: polynomial division panicked or was wrong for
 zero, sparse or untrimmed operands

---
 src/polynomial.rs | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 4f0b474..5b232cf 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -230,12 +230,14 @@ impl<F: Field> Polynomial<F> {
     /// Returns `(q,r)` the quotient and remainder of the polynomial division of `a` by `b`.
     /// Generally slower that the equivalent function `Polynomial::polynomial_division`.
     pub fn polynomial_long_division(&self, b: &Self) -> (Self, Self) {
-        let (a_degree, b_degree) = (self.degree(), b.degree());
-        if self.is_zero() {
-            (Self::zero(1), Self::empty())
-        } else if b.is_zero() {
+        if b.is_zero() {
             panic!("Division by zero polynomial");
-        } else if a_degree < b_degree {
+        }
+        if self.is_zero() {
+            return (Self::zero(1), Self::empty());
+        }
+        let (a_degree, b_degree) = (self.degree(), b.degree());
+        if a_degree < b_degree {
             (Self::zero(1), self.clone())
         } else {
             // Now we know that self.degree() >= divisor.degree();
@@ -248,7 +250,7 @@ impl<F: Field> Polynomial<F> {
                 let cur_q_degree = remainder.degree() - b_degree;
                 quotient[cur_q_degree] = cur_q_coeff;
 
-                for (i, &div_coeff) in b.iter().enumerate() {
+                for (i, &div_coeff) in b[..=b_degree].iter().enumerate() {
                     remainder[cur_q_degree + i] =
                         remainder[cur_q_degree + i] - (cur_q_coeff * div_coeff);
                 }
@@ -272,7 +274,7 @@ impl<F: Field> Polynomial<F> {
             let h0 = h[..l].to_vec().into();
             let mut h1: Polynomial<F> = h[l..].to_vec().into();
             let mut c = a.mul(&h0);
-            if l == c.len() {
+            if c.len() <= l {
                 c = Self::zero(1);
             } else {
                 c.drain(0..l);
@@ -283,10 +285,8 @@ impl<F: Field> Polynomial<F> {
             tmp.iter_mut().for_each(|x| *x = -(*x));
             tmp.trim();
             let mut b = a.mul(&tmp);
-            b.trim();
-            if b.len() > l {
-                b.drain(l..);
-            }
+            // The next `l` coefficients of the inverse.
+            b.0.resize(l, F::ZERO);
             a.0.extend_from_slice(&b[..]);
         }
         a.drain(n..);
@@ -297,12 +297,14 @@ impl<F: Field> Polynomial<F> {
     /// Returns `(q,r)` the quotient and remainder of the polynomial division of `a` by `b`.
     /// Algorithm from http://people.csail.mit.edu/madhu/ST12/scribe/lect06.pdf
     pub fn polynomial_division(&self, b: &Self) -> (Self, Self) {
-        let (a_degree, b_degree) = (self.degree(), b.degree());
-        if self.is_zero() {
-            (Self::zero(1), Self::empty())
-        } else if b.is_zero() {
+        if b.is_zero() {
             panic!("Division by zero polynomial");
-        } else if a_degree < b_degree {
+        }
+        if self.is_zero() {
+            return (Self::zero(1), Self::empty());
+        }
+        let (a_degree, b_degree) = (self.degree(), b.degree());
+        if a_degree < b_degree {
             (Self::zero(1), self.clone())
         } else if b_degree == 0 {
             (
@@ -312,11 +314,10 @@ impl<F: Field> Polynomial<F> {
         } else {
             let rev_b = b.rev();
             let rev_b_inv = rev_b.inv_mod_xn(a_degree - b_degree + 1);
-            let rev_q: Polynomial<F> = rev_b_inv
-                .mul(&self.rev()[..=a_degree - b_degree].to_vec().into())[..=a_degree - b_degree]
-                .to_vec()
-                .into();
-            let mut q = rev_q.rev();
+            // The quotient has exactly `a_degree - b_degree + 1` coefficients, some of which may be 0.
+            let mut q = rev_b_inv.mul(&self.rev()[..=a_degree - b_degree].to_vec().into());
+            q.0.resize(a_degree - b_degree + 1, F::ZERO);
+            q.0.reverse();
             let mut qb = q.mul(b);
             qb.pad(self.len());
             let mut r = self.add(&qb.neg());
-- 
2.43.0


From 867708990c21473252e628aa7388f782d30b9115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 12/30] fix: from_canonical_u8_vec returns an error on a wrong
 number of bytes instead of panicking

---
 src/field/field.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/field/field.rs b/src/field/field.rs
index bdb225e..2bbd737 100644
--- a/src/field/field.rs
+++ b/src/field/field.rs
@@ -81,6 +81,10 @@ pub trait Field:
     }
 
     fn from_canonical_u8_vec(u8_limbs: Vec<u8>) -> Result<Self> {
+        if u8_limbs.len() != Self::BYTES {
+            return Err(Error::msg("Wrong number of bytes"));
+        }
+
         let mut u64_chunks = Vec::new();
         for u8_chunk in u8_limbs.chunks(8) {
             u64_chunks.push(
-- 
2.43.0


From 57108b319c5b3fc3be5c364962ae92c3c8b0163b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 13/30] fix: try_convert accepts values that fit in a field of
 another size

---
 src/field/field.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/field/field.rs b/src/field/field.rs
index 2bbd737..49ac374 100644
--- a/src/field/field.rs
+++ b/src/field/field.rs
@@ -479,7 +479,13 @@ pub trait Field:
 
     /// Return this field element re-encoded as an element of `F` if it fits, or `Err` if not.
     fn try_convert<F: Field>(&self) -> Result<F> {
-        F::from_canonical_u8_vec(self.to_canonical_u8_vec())
+        let mut bytes = self.to_canonical_u8_vec();
+        // The fields may differ in size; what matters is whether the integer fits.
+        if bytes.iter().skip(F::BYTES).any(|&b| b != 0) {
+            return Err(Error::msg("Out of range"));
+        }
+        bytes.resize(F::BYTES, 0);
+        F::from_canonical_u8_vec(bytes)
     }
 
     fn try_convert_all<F: Field>(values: &[Self]) -> Result<Vec<F>> {
-- 
2.43.0


From 12b41ee27d72b56e959da4241b27fad807d045b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 14/30] fix: reading a point at infinity consumes the bytes
 written for it

---
 src/serialization.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index cd3e80e..6e6be2e 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -48,6 +48,8 @@ impl<C: Curve> FromBytes for AffinePoint<C> {
         let mut mask = vec![0u8];
         reader.read_exact(&mut mask)?;
         let mask = mask[0];
+        let mut buf = vec![0u8; C::BaseField::BYTES];
+        reader.read_exact(&mut buf)?;
         if mask & 1 == 1 {
             return Ok(AffinePoint {
                 x: C::BaseField::ZERO,
@@ -55,8 +57,6 @@ impl<C: Curve> FromBytes for AffinePoint<C> {
                 zero: true,
             });
         }
-        let mut buf = vec![0u8; C::BaseField::BYTES];
-        reader.read_exact(&mut buf)?;
         let x = C::BaseField::from_canonical_u8_vec(buf.to_vec())
             .map_err(|e| Error::new(ErrorKind::Other, e.to_string()))?;
         let square_candidate = x.cube() + C::A * x + C::B;
-- 
2.43.0


From 851bc197a2f0c394b66b1fe916db178b832ee856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:49 +0000
Subject: [PATCH 15/30] fix: plookup's eval_l_i is one at its own point

---
 plookup/src/plookup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 47ac708..961a0e3 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -275,7 +275,7 @@ fn vanishing_polynomial<F: Field>(
 pub fn eval_l_i<F: Field>(n: usize, i: usize, generator: F, x: F) -> F {
     let g = generator.exp_usize(i);
     if x == g {
-        F::ZERO
+        F::ONE
     } else {
         g * (x.exp_usize(n) - F::ONE) / (F::from_canonical_usize(n) * (x - g))
     }
-- 
2.43.0


From d439117c1697af41bbe430faba490f96da177e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:06 +0000
Subject: [PATCH 16/30] fix: plookup sizes its subgroup for inputs whose length
 is a power of two

---
 plookup/src/plookup.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 961a0e3..0769886 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -159,7 +159,8 @@ fn pad_inputs<F: Field>(f: &[F], t: &[F]) -> (usize, Vec<F>, Vec<F>) {
     } else {
         f.to_vec()
     };
-    let n = f.len().next_power_of_two() - 1;
+    // The subgroup has order `n + 1`, and must have room for all of `f` besides the last row.
+    let n = (f.len().max(1) + 1).next_power_of_two() - 1;
 
     let f = padded(&f, n);
     let t = padded(t, n + 1);
-- 
2.43.0


From f4ee1304aa9d36b537219829e851520a6c447ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:06 +0000
Subject: [PATCH 17/30] fix: plookup pads with an entry of the table, so that
 zero is not provable when the table lacks it

---
 plookup/src/plookup.rs  | 15 +++++++++++----
 plookup/src/verifier.rs |  5 +++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 0769886..cd90ec9 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -154,16 +154,18 @@ pub fn prove<C: HaloCurve>(f: &[C::ScalarField], t: &[C::ScalarField]) -> Result
 
 fn pad_inputs<F: Field>(f: &[F], t: &[F]) -> (usize, Vec<F>, Vec<F>) {
     let d = t.len();
+    // Fill with an entry of the table: another value would become provable.
+    let filler = t[d - 1];
     let f = if f.len() + 1 < d {
-        padded(f, d - 1)
+        padded_with(f, d - 1, filler)
     } else {
         f.to_vec()
     };
     // The subgroup has order `n + 1`, and must have room for all of `f` besides the last row.
     let n = (f.len().max(1) + 1).next_power_of_two() - 1;
 
-    let f = padded(&f, n);
-    let t = padded(t, n + 1);
+    let f = padded_with(&f, n, filler);
+    let t = padded_with(t, n + 1, filler);
     (n, f, t)
 }
 
@@ -284,8 +286,13 @@ pub fn eval_l_i<F: Field>(n: usize, i: usize, generator: F, x: F) -> F {
 
 /// Zero-pad a slice to have length `n`.
 pub fn padded<F: Field>(s: &[F], n: usize) -> Vec<F> {
+    padded_with(s, n, F::ZERO)
+}
+
+/// Pad a slice with copies of `x` to have length `n`.
+pub fn padded_with<F: Field>(s: &[F], n: usize, x: F) -> Vec<F> {
     let mut pad = s.to_vec();
-    pad.extend((s.len()..n).map(|_| F::ZERO));
+    pad.extend((s.len()..n).map(|_| x));
     pad
 }
 
diff --git a/plookup/src/verifier.rs b/plookup/src/verifier.rs
index f655577..3b8346e 100644
--- a/plookup/src/verifier.rs
+++ b/plookup/src/verifier.rs
@@ -1,4 +1,4 @@
-use crate::plookup::{eval_l_i, padded, SECURITY_BITS};
+use crate::plookup::{eval_l_i, padded_with, SECURITY_BITS};
 use crate::proof::{PlookupProof, PlookupProofChallenge};
 use anyhow::{ensure, Result};
 use plonky::halo::verify_ipa;
@@ -10,7 +10,8 @@ use plonky::{blake_hash_usize_to_curve, fft_precompute, ifft_with_precomputation
 /// TODO: The verifier should have some auxiliary knowledge of `c_t`. For now, it is stored in the `proof`.
 pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Result<()> {
     let n = proof.n;
-    let t = padded(t, n + 1);
+    ensure!(!t.is_empty(), "The table is empty");
+    let t = padded_with(t, n + 1, t[t.len() - 1]);
     let fft_precomputation = fft_precompute(n + 1);
     let gs = (0..2 * n + 2)
         .map(blake_hash_usize_to_curve::<C>)
-- 
2.43.0


From 6526855d54ab689d55b5baccdb07705ce7f37351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 18/30] fix: the plookup verifier checks the folded generator
 of the opening argument

---
 plookup/src/verifier.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/plookup/src/verifier.rs b/plookup/src/verifier.rs
index 3b8346e..3dbd480 100644
--- a/plookup/src/verifier.rs
+++ b/plookup/src/verifier.rs
@@ -2,7 +2,7 @@ use crate::plookup::{eval_l_i, padded_with, SECURITY_BITS};
 use crate::proof::{PlookupProof, PlookupProofChallenge};
 use anyhow::{ensure, Result};
 use plonky::halo::verify_ipa;
-use plonky::plonk_util::{halo_g, halo_n, halo_n_mul, powers, reduce_with_powers};
+use plonky::plonk_util::{halo_g, halo_n, halo_n_mul, halo_s, pedersen_hash, powers, reduce_with_powers};
 use plonky::util::log2_strict;
 use plonky::{blake_hash_usize_to_curve, fft_precompute, ifft_with_precomputation_power_of_2, msm_execute_parallel, msm_precompute, AffinePoint, Field, HaloCurve, PolynomialCommitment};
 
@@ -95,7 +95,14 @@ pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Re
         "Invalid IPA proof."
     );
 
-    // TODO: Add option to verify `halo_g` point.
+    // Verify that `halo_g = <s, G>`.
+    let gs_precomputation = msm_precompute(&AffinePoint::batch_to_projective(&gs), 8);
+    ensure!(
+        proof.halo_proof.halo_g
+            == pedersen_hash(&halo_s(&challs.halo_us), &gs_precomputation).to_affine(),
+        "Invalid G point."
+    );
+
     Ok(())
 }
 
-- 
2.43.0


From ab9f7c80c4bf1b70e4b8783fcd0e684e223deaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 19/30] fix: the plookup verifier rejects proofs of the wrong
 size and points off the curve

---
 plookup/src/verifier.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/plookup/src/verifier.rs b/plookup/src/verifier.rs
index 3dbd480..966301b 100644
--- a/plookup/src/verifier.rs
+++ b/plookup/src/verifier.rs
@@ -11,6 +11,7 @@ use plonky::{blake_hash_usize_to_curve, fft_precompute, ifft_with_precomputation
 pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Result<()> {
     let n = proof.n;
     ensure!(!t.is_empty(), "The table is empty");
+    check_proof_shape(proof, t.len())?;
     let t = padded_with(t, n + 1, t[t.len() - 1]);
     let fft_precomputation = fft_precompute(n + 1);
     let gs = (0..2 * n + 2)
@@ -106,6 +107,40 @@ pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Re
     Ok(())
 }
 
+/// Checks that the proof is of the right size for its domain and a table of the given length, and that
+/// its points are on the curve.
+fn check_proof_shape<C: HaloCurve>(proof: &PlookupProof<C>, table_len: usize) -> Result<()> {
+    let PlookupProof {
+        c_f,
+        c_t,
+        c_h1,
+        c_h2,
+        c_z,
+        c_quotient,
+        halo_proof,
+        n,
+        ..
+    } = proof;
+    ensure!(
+        (n + 1).is_power_of_two() && table_len <= n + 1,
+        "Invalid domain size"
+    );
+    let rounds = log2_strict(2 * n + 2);
+    ensure!(
+        halo_proof.halo_l.len() == rounds && halo_proof.halo_r.len() == rounds,
+        "Invalid number of opening rounds"
+    );
+    ensure!(
+        [c_f, c_t, c_h1, c_h2, c_z, c_quotient, &halo_proof.halo_g, &halo_proof.schnorr_proof.r]
+            .iter()
+            .all(|p| p.is_valid())
+            && halo_proof.halo_l.iter().all(|p| p.is_valid())
+            && halo_proof.halo_r.iter().all(|p| p.is_valid()),
+        "A point of the proof is not on the curve."
+    );
+    Ok(())
+}
+
 /// Verify all IPAs in the given proof using a reduction to a single polynomial.
 fn verify_all_ipas<C: HaloCurve>(
     c_all: &[AffinePoint<C>],
-- 
2.43.0


From e623420af0165495a0876993226466166d9d7cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 20/30] fix: recursive verifier computes zeta^degree by
 squaring, not doubling

---
 src/plonk_recursion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plonk_recursion.rs b/src/plonk_recursion.rs
index 464b125..bfee93c 100644
--- a/src/plonk_recursion.rs
+++ b/src/plonk_recursion.rs
@@ -510,7 +510,7 @@ fn verify_assumptions<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField
     // Evaluate zeta^degree.
     let mut zeta_power_d = zeta;
     for _i in 0..degree_pow {
-        zeta_power_d = builder.double(zeta_power_d);
+        zeta_power_d = builder.square(zeta_power_d);
     }
 
     // Evaluate Z_H(zeta) = zeta^degree - 1.
-- 
2.43.0


From 2ebcb7fa7fa650cc2a0f42a2c805813e07fd702c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 21/30] fix: in-circuit halo_g squares the power of x, like the
 native halo_g

---
 src/plonk_recursion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plonk_recursion.rs b/src/plonk_recursion.rs
index bfee93c..a3b6ed4 100644
--- a/src/plonk_recursion.rs
+++ b/src/plonk_recursion.rs
@@ -603,7 +603,7 @@ fn halo_g_recursive<C: HaloCurve>(
         let u_i_inv = builder.inv(u_i);
         let term = builder.mul_add(u_i, x_power, u_i_inv);
         product = builder.mul(product, term);
-        x_power = builder.double(x_power);
+        x_power = builder.square(x_power);
     }
     product
 }
-- 
2.43.0


From d2cff54d7b3deb87128ea6c07424a0999538ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 22/30] fix: recursive circuit outputs the opening of t, which
 the next proof relies on

---
 src/plonk_recursion.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/plonk_recursion.rs b/src/plonk_recursion.rs
index a3b6ed4..2dc783a 100644
--- a/src/plonk_recursion.rs
+++ b/src/plonk_recursion.rs
@@ -187,6 +187,9 @@ pub fn recursive_verification_circuit<
         public_inputs.o_plonk_z_right,
         proof.o_right.o_plonk_z,
     );
+    for i in 0..QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER {
+        builder.copy(public_inputs.o_plonk_t[i], proof.o_local.o_plonk_t[i]);
+    }
     for i in 0..degree_pow {
         builder.copy(public_inputs.halo_us[i], halo_us[i]);
     }
-- 
2.43.0


From 20290011673d6644bbfaa72d87f96434fdd9fe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 23/30] fix: recursive Schnorr challenge depends on the Schnorr
 commitment

---
 src/plonk_recursion.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plonk_recursion.rs b/src/plonk_recursion.rs
index 2dc783a..a7df831 100644
--- a/src/plonk_recursion.rs
+++ b/src/plonk_recursion.rs
@@ -133,6 +133,7 @@ pub fn recursive_verification_circuit<
     }
 
     // Compute challenge for Schnorr protocol.
+    challenger.observe_affine_point(proof.schnorr_proof.r);
     let schnorr_challenge = challenger.get_challenge(&mut builder);
 
     let halo_us = verify_all_ipas::<C, InnerC>(
-- 
2.43.0


From 32c127d310aa007e743242d44ebfc683790fbeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 24/30] fix: recursive verifier includes the old proofs'
 commitments in its transcript and reduction

---
 src/plonk_recursion.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/plonk_recursion.rs b/src/plonk_recursion.rs
index a7df831..6120edb 100644
--- a/src/plonk_recursion.rs
+++ b/src/plonk_recursion.rs
@@ -114,6 +114,9 @@ pub fn recursive_verification_circuit<
     challenger.observe_affine_point(proof.c_plonk_z);
     let alpha = challenger.get_challenge(&mut builder);
     challenger.observe_affine_points(&proof.c_plonk_t);
+    for old_proof in &old_proofs {
+        challenger.observe_affine_point(old_proof.halo_g);
+    }
     let zeta = challenger.get_challenge(&mut builder);
     challenger.observe_elements(&proof.all_opening_targets());
 
@@ -139,6 +142,7 @@ pub fn recursive_verification_circuit<
     let halo_us = verify_all_ipas::<C, InnerC>(
         &mut builder,
         &proof,
+        &old_proofs,
         zeta,
         u,
         v,
@@ -226,6 +230,7 @@ pub fn recursive_verification_circuit<
 fn verify_all_ipas<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>(
     builder: &mut CircuitBuilder<C>,
     proof: &ProofTarget<C, InnerC>,
+    old_proofs: &[OldProofTarget<InnerC>],
     zeta: Target<C::ScalarField>,
     u: Target<C::ScalarField>,
     v: Target<C::ScalarField>,
@@ -247,6 +252,7 @@ fn verify_all_ipas<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>(
         proof.c_wires.clone(),
         vec![proof.c_plonk_z],
         proof.c_plonk_t.clone(),
+        old_proofs.iter().map(|p| p.halo_g).collect(),
     ]
     .concat();
     let mut c_reduction_muls = Vec::new();
-- 
2.43.0


From cdf14b4aeca36c58b339d0a642a12dc411b16438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:43 +0000
Subject: [PATCH 25/30] fix: recursive verifier uses the same H and U
 generators as the native one

---
 src/plonk_recursion.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/plonk_recursion.rs b/src/plonk_recursion.rs
index 6120edb..b54d568 100644
--- a/src/plonk_recursion.rs
+++ b/src/plonk_recursion.rs
@@ -3,7 +3,7 @@ use crate::plonk_challenger::RecursiveChallenger;
 use crate::plonk_proof::OldProofTarget;
 use crate::plonk_util::{powers_recursive, reduce_with_powers_recursive};
 use crate::util::ceil_div_usize;
-use crate::{get_subgroup_shift, hash_usize_to_curve, AffinePointTarget, Circuit, CircuitBuilder, CurveMulEndoResult, CurveMulOp, Field, HaloCurve, OpeningSetTarget, ProofTarget, SchnorrProofTarget, Target, GRID_WIDTH, NUM_CONSTANTS, NUM_ROUTED_WIRES, NUM_WIRES, QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER};
+use crate::{blake_hash_usize_to_curve, get_subgroup_shift, AffinePointTarget, Circuit, CircuitBuilder, CurveMulEndoResult, CurveMulOp, Field, HaloCurve, OpeningSetTarget, ProofTarget, SchnorrProofTarget, Target, GRID_WIDTH, NUM_CONSTANTS, NUM_ROUTED_WIRES, NUM_WIRES, QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER};
 
 /// Wraps a `Circuit` for recursive verification with inputs for the proof data.
 /// The circuit is over the field `C::ScalarField` and verifies a proof performed over the curve `InnerC`.
@@ -150,7 +150,6 @@ pub fn recursive_verification_circuit<
         raw_ipa_challenges,
         schnorr_challenge,
         num_public_input_gates,
-        security_bits,
     );
 
     // "Outputs" data relating to assumption which still need to be verified by the next proof.
@@ -238,7 +237,6 @@ fn verify_all_ipas<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>(
     raw_ipa_challenges: Vec<Target<C::ScalarField>>,
     schnorr_challenge: Target<C::ScalarField>,
     num_public_input_gates: usize,
-    security_bits: usize,
 ) -> Vec<Target<C::ScalarField>> {
     // Reduce all polynomial commitments to a single one, i.e. a random combination of them.
     // TODO: Configure the actual constants and permutations of whatever circuit we wish to verify.
@@ -281,9 +279,8 @@ fn verify_all_ipas<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>(
     let reduced_opening = reduce_with_powers_recursive(builder, &opening_set_reductions, v);
 
     // u is set to H(degree + 1).
-    let u = builder.constant_affine_point(hash_usize_to_curve::<InnerC>(
+    let u = builder.constant_affine_point(blake_hash_usize_to_curve::<InnerC>(
         (1 << raw_ipa_challenges.len()) + 1,
-        security_bits,
     ));
     // u' is u scaled by n(u_scaling), giving a random generator.
     let u_prime = builder
@@ -331,7 +328,6 @@ fn verify_all_ipas<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>(
         halo_q,
         halo_b,
         schnorr_challenge,
-        security_bits,
     );
 
     halo_us
@@ -388,12 +384,10 @@ fn verify_schnorr<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>(
     halo_q: AffinePointTarget<InnerC>,
     halo_b: Target<C::ScalarField>,
     schnorr_challenge: Target<C::ScalarField>,
-    security_bits: usize,
 ) {
     // The H point used for blinding polynomial commitments. Set to H(degree).
-    let pedersen_h = builder.constant_affine_point(hash_usize_to_curve::<InnerC>(
+    let pedersen_h = builder.constant_affine_point(blake_hash_usize_to_curve::<InnerC>(
         1 << proof.halo_l_i.len(),
-        security_bits,
     ));
 
     // Perform ZK opening protocol.
-- 
2.43.0


From 4fa30cd2fc16c339af62f8cbcaa5e9fb5c66da5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:42 +0000
Subject: [PATCH 26/30] fix: generate the accumulator and unused limbs of
 Base4SumGate

No generator set the new accumulator, so circuits with range checks had no
satisfying witness.
---
 src/circuit_builder.rs  | 11 +++++++++++
 src/gates/base_4_sum.rs | 34 ++++++++++++++++++++++++++++------
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index ce2c8f3..151eb79 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -192,6 +192,17 @@ impl<C: HaloCurve> CircuitBuilder<C> {
                     }),
                 )
             }
+
+            // The remaining limb wires also need some base 4 value.
+            for i in chunk.len()..Base4SumGate::<C>::NUM_LIMBS {
+                self.generate_constant(
+                    Target::Wire(Wire {
+                        gate,
+                        input: Base4SumGate::<C>::wire_limb(i),
+                    }),
+                    C::ScalarField::ZERO,
+                );
+            }
         }
     }
 
diff --git a/src/gates/base_4_sum.rs b/src/gates/base_4_sum.rs
index 03e6107..335a3df 100644
--- a/src/gates/base_4_sum.rs
+++ b/src/gates/base_4_sum.rs
@@ -1,7 +1,7 @@
 use std::marker::PhantomData;
 
 use crate::gates::Gate;
-use crate::{CircuitBuilder, Curve, Field, HaloCurve, PartialWitness, Target, WitnessGenerator, NUM_ROUTED_WIRES, NUM_WIRES};
+use crate::{CircuitBuilder, Curve, Field, HaloCurve, PartialWitness, Target, Wire, WitnessGenerator, NUM_ROUTED_WIRES, NUM_WIRES};
 
 /// A gate for accumulating base-4 limbs.
 pub struct Base4SumGate<C: Curve> {
@@ -98,17 +98,39 @@ impl<C: HaloCurve> Gate<C> for Base4SumGate<C> {
 
 impl<C: HaloCurve> WitnessGenerator<C::ScalarField> for Base4SumGate<C> {
     fn dependencies(&self) -> Vec<Target<C::ScalarField>> {
-        Vec::new()
+        let mut wires = vec![Self::WIRE_ACC_OLD];
+        wires.extend((0..Self::NUM_LIMBS).map(Self::wire_limb));
+        wires
+            .into_iter()
+            .map(|input| {
+                Target::Wire(Wire {
+                    gate: self.index,
+                    input,
+                })
+            })
+            .collect()
     }
 
     fn generate(
         &self,
         _constants: &[Vec<C::ScalarField>],
-        _witness: &PartialWitness<C::ScalarField>,
+        witness: &PartialWitness<C::ScalarField>,
     ) -> PartialWitness<C::ScalarField> {
-        // For base 4 decompositions, we don't do any witness generation on a per-gate level.
-        // Instead, we have a single generator which generates values for an entire decomposition.
-        PartialWitness::new()
+        // For base 4 decompositions, we don't generate the limbs on a per-gate level. Instead, we
+        // have a single generator which generates limbs for an entire decomposition. Here we only
+        // generate the updated accumulator.
+        let wire = |input| Wire {
+            gate: self.index,
+            input,
+        };
+        let mut acc = witness.get_wire(wire(Self::WIRE_ACC_OLD));
+        for i in 0..Self::NUM_LIMBS {
+            acc = acc.quadruple() + witness.get_wire(wire(Self::wire_limb(i)));
+        }
+
+        let mut result = PartialWitness::new();
+        result.set_wire(wire(Self::WIRE_ACC_NEW), acc);
+        result
     }
 }
 
-- 
2.43.0


From 1147328e81b4a63eeeacbd0b6370c73bd8e47c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:54 +0000
Subject: [PATCH 27/30] fix: assert_dibit_length accumulates the most
 significant dibit first

The gate shifts the accumulator before adding each limb, but the dibits were
given least significant first.
---
 src/circuit_builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index 151eb79..b4857b4 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -832,8 +832,10 @@ impl<C: HaloCurve> CircuitBuilder<C> {
     ///
     /// Note: This is most efficient when `num_dibits` is a multiple of `Base4SumGate::NUM_LIMBS`.
     pub(crate) fn assert_dibit_length(&mut self, x: Target<C::ScalarField>, num_dibits: usize) {
-        // Get the purported base 4 decomposition of x.
-        let dibits = self.split_base_4(x, num_dibits);
+        // Get the purported base 4 decomposition of x. Accumulation starts with the most significant
+        // dibit, so we put that first.
+        let mut dibits = self.split_base_4(x, num_dibits);
+        dibits.reverse();
 
         // Accumulate each full chunk of NUM_LIMBS dibits using a Base4SumGate.
         let mut sum = self.zero_wire();
-- 
2.43.0


From 120a576eead02cb108dcb2b2534865a925d596ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 28/30] fix: deterministic_square_root checks the decomposition
 of the root

The limbs were summed in the wrong order, each gate was routed repeatedly, and
the sum was compared with the square rather than the root.
---
 src/circuit_builder.rs | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index b4857b4..a36b360 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -527,7 +527,7 @@ impl<C: HaloCurve> CircuitBuilder<C> {
             f_bits, 254,
             "We currently only handle fields of size 2^254 + epsilon"
         );
-        let (bits, dibits) = self.split_binary_and_base_4(x_sqrt, 2, 126);
+        let (bits, mut dibits) = self.split_binary_and_base_4(x_sqrt, 2, 126);
 
         // Verify that x_sqrt * x_sqrt = x.
         let x_sqrt_squared = self.square(x_sqrt);
@@ -537,10 +537,11 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         self.assert_zero(bits[0]);
         self.assert_binary(bits[1]);
 
-        // Verify the decomposition by taking a weighted sum of the limbs. Since the first bit is
-        // always zero, we start with the second bit (scaled by its weight of 2) and then add the
-        // base 4 limbs.
-        let mut sum = self.double(bits[1]);
+        // Verify the decomposition by taking a weighted sum of the limbs. We accumulate the base 4
+        // limbs first, starting with the most significant one. Then we append the two bits; since
+        // the first bit is always zero, only the second one (scaled by its weight of 2) is added.
+        dibits.reverse();
+        let mut sum = self.zero_wire();
         for chunk in dibits.chunks(Base4SumGate::<C>::NUM_LIMBS) {
             assert_eq!(
                 chunk.len(),
@@ -550,14 +551,14 @@ impl<C: HaloCurve> CircuitBuilder<C> {
 
             let index = self.num_gates();
             self.add_gate_no_constants(Base4SumGate::new(index));
+            self.copy(
+                sum,
+                Target::Wire(Wire {
+                    gate: index,
+                    input: Base4SumGate::<C>::WIRE_ACC_OLD,
+                }),
+            );
             for i in 0..chunk.len() {
-                self.copy(
-                    sum,
-                    Target::Wire(Wire {
-                        gate: index,
-                        input: Base4SumGate::<C>::WIRE_ACC_OLD,
-                    }),
-                );
                 self.copy(
                     chunk[i],
                     Target::Wire(Wire {
@@ -565,13 +566,16 @@ impl<C: HaloCurve> CircuitBuilder<C> {
                         input: Base4SumGate::<C>::wire_limb(i),
                     }),
                 );
-                sum = Target::Wire(Wire {
-                    gate: index,
-                    input: Base4SumGate::<C>::WIRE_ACC_NEW,
-                })
             }
+            sum = Target::Wire(Wire {
+                gate: index,
+                input: Base4SumGate::<C>::WIRE_ACC_NEW,
+            });
         }
-        self.copy(sum, x);
+        let four = self.constant_wire_u32(4);
+        let low_bits = self.double(bits[1]);
+        sum = self.mul_add(sum, four, low_bits);
+        self.copy(sum, x_sqrt);
 
         x_sqrt
     }
-- 
2.43.0


From a8a25e682b9da224d877f49c0de4aefd815f9303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 29/30] fix: range-check big integer limbs according to the
 integer's bound

Three 86-bit limbs exceed the field, so a field element had more than one
decomposition into limbs.
---
 src/circuit_bigint.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/circuit_bigint.rs b/src/circuit_bigint.rs
index b256f89..7c77802 100644
--- a/src/circuit_bigint.rs
+++ b/src/circuit_bigint.rs
@@ -107,18 +107,24 @@ impl<C: HaloCurve> CircuitBuilder<C> {
     ) -> BigIntTarget<C::ScalarField> {
         let num_limbs = ceil_div_usize(max.bits() as usize, LIMB_BITS);
         let limbs = self.add_virtual_targets(num_limbs);
+        let bigint = BigIntTarget {
+            limbs,
+            max: max.clone(),
+        };
 
         if validate {
             // Check that we have a valid bigint encoding, with each limb being in the proper range.
-            for &limb in &limbs {
-                self.assert_dibit_length(limb, LIMB_DIBITS);
+            // The most significant limb gets a tighter bound when max is not that large. This is
+            // essential where a native field element is split into limbs: with full-size limbs, the
+            // weighted sum of the limbs could exceed the native field size.
+            for i in 0..num_limbs {
+                let limb = bigint.get_bounded_limb(i);
+                let limb_dibits = ceil_div_usize(limb.max.bits() as usize, 2);
+                self.assert_dibit_length(limb.target, limb_dibits);
             }
         }
 
-        BigIntTarget {
-            limbs,
-            max: max.clone(),
-        }
+        bigint
     }
 
     pub fn constant_bigint(&mut self, value: &BigUint) -> BigIntTarget<C::ScalarField> {
-- 
2.43.0


From 23f2efcc43b1a33a1dbde830e15aec9c37f206ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 30/30] fix: bigint_mul accepts operands without limbs

It panicked when both operands, or a sum of limb products, were known to be zero.
---
 src/circuit_bigint.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/circuit_bigint.rs b/src/circuit_bigint.rs
index 7c77802..9a492c4 100644
--- a/src/circuit_bigint.rs
+++ b/src/circuit_bigint.rs
@@ -361,7 +361,7 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         // We want to enumerate the cartesian product of x's and y's limbs, ordered from least
         // significant to most significant. We will do so by enumerating the possible "shifts",
         // measured in limbs. We will add up the (shifted) intermediate products as we go.
-        for shift in 0..=(x_n + y_n - 2) {
+        for shift in 0..(x_n + y_n).saturating_sub(1) {
             let mut sum_of_limb_products = self.bigint_to_target(&carry);
 
             // We want to enumerate valid pairs of indices such that x_index + y_index = shift.
@@ -377,6 +377,12 @@ impl<C: HaloCurve> CircuitBuilder<C> {
             }
 
             let sum_of_limb_products_bigint = self.target_to_bigint(&sum_of_limb_products);
+            if sum_of_limb_products_bigint.num_limbs() == 0 {
+                // The sum is known to be zero.
+                result_digits.push(self.zero_wire());
+                carry = BigIntTarget::zero();
+                continue;
+            }
             let (first, rest) = sum_of_limb_products_bigint.split_smallest_limb();
             result_digits.push(first);
             carry = rest;
-- 
2.43.0

