From 20281b340722bf54135600427515b7afbeaee268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 01/17] fix: constrain the first rerandomization window to its
 table lookup

---
 relations/src/rerandomize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/relations/src/rerandomize.rs b/relations/src/rerandomize.rs
index eba907c..3d49e78 100644
--- a/relations/src/rerandomize.rs
+++ b/relations/src/rerandomize.rs
@@ -152,6 +152,10 @@ pub fn re_randomize<
                 // enforce incomplete curve addition
                 incomplete_curve_addition(cs, &prms);
             }
+        } else {
+            // The first accumulated point is the first table entry: R_1 = (x_1, y_1)
+            cs.constrain(x_table - acc_i_x_lc.clone());
+            cs.constrain(y_table - acc_i_y_lc.clone());
         }
         acc_i_minus_1_x_lc = acc_i_x_lc;
         acc_i_minus_1_y_lc = acc_i_y_lc;
-- 
2.43.0


From 9ba7d6aa10f46cb5cb91e6cacbcb7a897d9912ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 02/17] fix: reject inner product proofs with differing numbers
 of L and R points

---
 bulletproofs/src/inner_product_proof.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bulletproofs/src/inner_product_proof.rs b/bulletproofs/src/inner_product_proof.rs
index 7089839..a563fe1 100644
--- a/bulletproofs/src/inner_product_proof.rs
+++ b/bulletproofs/src/inner_product_proof.rs
@@ -261,6 +261,10 @@ impl<C: AffineRepr> InnerProductProof<C> {
             return Err(ProofError::VerificationError);
         }
 
+        if self.R_vec.len() != lg_n {
+            return Err(ProofError::VerificationError);
+        }
+
         transcript.innerproduct_domain_sep(n as u64);
 
         // 1. Recompute x_k,...,x_1 based on the proof transcript
-- 
2.43.0


From ef405712eee7112535b609cb96d998d0f474c91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 03/17] fix: refuse randomized paths whose length differs from
 the height of the tree

---
 relations/src/batched_curve_tree_verifier.rs | 11 +++++------
 relations/src/curve_tree_verifier.rs         | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/relations/src/batched_curve_tree_verifier.rs b/relations/src/batched_curve_tree_verifier.rs
index 4f5041b..fbe22b8 100644
--- a/relations/src/batched_curve_tree_verifier.rs
+++ b/relations/src/batched_curve_tree_verifier.rs
@@ -54,6 +54,11 @@ impl<
                 randomized_path.even_commitments = even_commitments_with_root;
             }
         };
+        // The even and odd commitments do not include the selected leaves, their sum should equal the height of the tree.
+        assert_eq!(
+            self.height(),
+            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
+        );
     }
 }
 
@@ -74,12 +79,6 @@ impl<
         parameters: &SelRerandParameters<P0, P1>,
     ) -> [Affine<P0>; M] {
         self.batched_select_and_rerandomize_verification_commitments(&mut randomized_path);
-        // The even and odd commitments do not include the selected leaves, their sum should equal the height of the tree.
-        debug_assert_eq!(
-            self.height(),
-            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
-        );
-
         randomized_path.even_verifier_gadget(even_verifier, parameters, self);
         randomized_path.odd_verifier_gadget(odd_verifier, parameters, self);
 
diff --git a/relations/src/curve_tree_verifier.rs b/relations/src/curve_tree_verifier.rs
index 1402234..79625a5 100644
--- a/relations/src/curve_tree_verifier.rs
+++ b/relations/src/curve_tree_verifier.rs
@@ -44,6 +44,11 @@ impl<
                 randomized_path.even_commitments = even_commitments_with_root;
             }
         };
+        // The even and odd commitments do not include the selected leaf, their sum should equal the height of the tree.
+        assert_eq!(
+            self.height(),
+            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
+        );
     }
 }
 
@@ -64,12 +69,6 @@ impl<
         parameters: &SelRerandParameters<P0, P1>,
     ) -> Affine<P0> {
         self.select_and_rerandomize_verification_commitments(&mut randomized_path);
-        // The even and odd commitments do not include the selected leaf, their sum should equal the height of the tree.
-        debug_assert_eq!(
-            self.height(),
-            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
-        );
-
         randomized_path.even_verifier_gadget(even_verifier, parameters, self);
         randomized_path.odd_verifier_gadget(odd_verifier, parameters, self);
 
-- 
2.43.0


From d99e0a5216c3b7f090701e74ed934e54f464e5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:18 +0000
Subject: [PATCH 04/17] fix: refuse a signed transaction when a signature does
 not verify

---
 relations/src/coin.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/relations/src/coin.rs b/relations/src/coin.rs
index ade836a..5902a5d 100644
--- a/relations/src/coin.rs
+++ b/relations/src/coin.rs
@@ -664,7 +664,7 @@ impl<
         pk0: &PublicKey<C>,
         pk1: &PublicKey<C>,
     ) {
-        Schnorr::verify(
+        assert!(Schnorr::verify(
             sig_parameters,
             pk0,
             self.pour_bytes.as_slice(),
@@ -673,8 +673,8 @@ impl<
                 prover_response: self.signature_prover_response_0,
             },
         )
-        .unwrap();
-        Schnorr::verify(
+        .unwrap());
+        assert!(Schnorr::verify(
             sig_parameters,
             pk1,
             self.pour_bytes.as_slice(),
@@ -683,7 +683,7 @@ impl<
                 prover_response: self.signature_prover_response_1,
             },
         )
-        .unwrap();
+        .unwrap());
     }
 }
 
-- 
2.43.0


From dab0b4e72700861650dee104a965abadbbb08d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:18 +0000
Subject: [PATCH 05/17] fix: align generators of proofs of different sizes in
 batch verification

---
 bulletproofs/src/r1cs/verifier.rs | 38 +++++++++++++++----------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index 5682805..6bb2f35 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -735,16 +735,18 @@ pub fn batch_verify<C: AffineRepr>(
     bp_gens: &BulletproofGens<C>,
 ) -> Result<(), R1CSError> {
     let mut rng = rand::thread_rng();
-    let mut ver_iter = verification_tuples.into_iter();
-    let vt = ver_iter.next().unwrap();
-    let (mut proof_points, mut proof_point_scalars, mut linear_combination) = (
-        vt.proof_dependent_points,
-        vt.proof_dependent_scalars,
-        vt.proof_independent_scalars,
-    );
-    let padded_n = (linear_combination.len() - 2) / 2;
-
-    for mut vt in ver_iter {
+    // The number of generators needed by the largest of the proofs.
+    let padded_n = verification_tuples
+        .iter()
+        .map(|vt| (vt.proof_independent_scalars.len() - 2) / 2)
+        .max()
+        .unwrap_or(0);
+    let mut proof_points = Vec::new();
+    let mut proof_point_scalars = Vec::new();
+    let mut linear_combination = vec![C::ScalarField::zero(); 2 * padded_n + 2];
+
+    for mut vt in verification_tuples {
+        let n = (vt.proof_independent_scalars.len() - 2) / 2;
         proof_points.append(&mut vt.proof_dependent_points);
 
         // Sample random scalar
@@ -755,17 +757,13 @@ pub fn batch_verify<C: AffineRepr>(
             .proof_dependent_scalars
             .into_iter()
             .map(|s| s * random_scalar);
-        let fps = vt
-            .proof_independent_scalars
-            .into_iter()
-            .map(|s| s * random_scalar);
-
         proof_point_scalars.append(&mut ps.collect());
-        linear_combination = linear_combination
-            .iter()
-            .zip(fps)
-            .map(|(a, b)| *a + b)
-            .collect()
+
+        // The scalars of B, B_blinding and G come first, those of H start after all of the G.
+        for (i, s) in vt.proof_independent_scalars.into_iter().enumerate() {
+            let offset = if i < 2 + n { 0 } else { padded_n - n };
+            linear_combination[i + offset] += s * random_scalar;
+        }
     }
 
     // We are performing a single-party circuit proof, so party index is 0.
-- 
2.43.0


From 54a4d10f5b6c673e810c3db58200253b7a7f9f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:18 +0000
Subject: [PATCH 06/17] fix: reject proofs with a wrong number of T commitments

---
 bulletproofs/src/r1cs/verifier.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index 6bb2f35..bd42f6e 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -502,7 +502,10 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
         let op_aO = ops[1];
         let op_vec = &ops[2..];
 
-        debug_assert_eq!(t_poly_deg + 1, proof.T.len());
+        // The T commitments must be exactly those of the protocol, the one at op_degree is unused.
+        if proof.T.len() != t_poly_deg + 1 || !proof.T[op_degree].is_zero() {
+            return Err(R1CSError::FormatError);
+        }
 
         transcript.validate_and_append_point(b"A_I1", &proof.A_I1)?;
         transcript.validate_and_append_point(b"A_O1", &proof.A_O1)?;
-- 
2.43.0


From d053cd9e3d3775781872ee88e1f0c555333fadb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:18 +0000
Subject: [PATCH 07/17] fix: use the linear coefficient of the curve equation
 in curve_check

---
 relations/src/curve.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/relations/src/curve.rs b/relations/src/curve.rs
index 194c7c4..ec3946c 100644
--- a/relations/src/curve.rs
+++ b/relations/src/curve.rs
@@ -11,13 +11,13 @@ pub fn curve_check<F: Field, Cs: ConstraintSystem<F>>(
     b: F,
 ) {
     let (_, _, x_squared) = cs.multiply(x.clone(), x.clone());
-    let (_, _, x_cubed) = cs.multiply(x, x_squared.into());
+    let (_, _, x_cubed) = cs.multiply(x.clone(), x_squared.into());
     let (_, _, y_squared) = cs.multiply(y.clone(), y);
 
-    // x^3 + A*x^2 + B - y^2 = 0
+    // x^3 + A*x + B - y^2 = 0
     cs.constrain(
         LinearCombination::<F>::from(x_cubed)
-            + LinearCombination::<F>::from(x_squared).scalar_mul(a)
+            + x.scalar_mul(a)
             + b
             - y_squared,
     )
-- 
2.43.0


From 0635b3b742d43a0afd31227f69d73c77d469972d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:18 +0000
Subject: [PATCH 08/17] fix: bind the public rerandomized sum in the batched
 select and rerandomize

---
 relations/src/single_level_select_and_rerandomize.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/relations/src/single_level_select_and_rerandomize.rs b/relations/src/single_level_select_and_rerandomize.rs
index 343128c..6ba9798 100644
--- a/relations/src/single_level_select_and_rerandomize.rs
+++ b/relations/src/single_level_select_and_rerandomize.rs
@@ -141,6 +141,16 @@ pub fn single_level_batched_select_and_rerandomize<
     children_plus_delta: Option<&[Affine<C2>; M]>, // Witnesses of the commitments being selected and rerandomized
     randomness_offset: Option<Fb>, // The scalar used for randomizing, i.e. \sum selected_witnesses + randomness_offset * H = sum_of_rerandomized + M * Delta
 ) {
+    // Add the rerandomised sum to the transcript
+    {
+        let mut bytes = Vec::new();
+        if let Err(e) = sum_of_rerandomized.serialize_compressed(&mut bytes) {
+            panic!("{}", e)
+        }
+        cs.transcript()
+            .append_message(b"rerandomized_children", &bytes);
+    }
+
     // Initialize the accumulated sum of the selected children to dummy values.
     let mut sum_of_selected = PointRepresentation {
         x: Variable::One(PhantomData).into(),
-- 
2.43.0


From cc672980b3543f62b2544d16889ad229b5338885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:18 +0000
Subject: [PATCH 09/17] fix: make the prover Send only when its transcript and
 callbacks are

---
 bulletproofs/src/r1cs/constraint_system.rs | 2 +-
 bulletproofs/src/r1cs/prover.rs            | 7 ++-----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/bulletproofs/src/r1cs/constraint_system.rs b/bulletproofs/src/r1cs/constraint_system.rs
index 8a20a23..2eb50a8 100644
--- a/bulletproofs/src/r1cs/constraint_system.rs
+++ b/bulletproofs/src/r1cs/constraint_system.rs
@@ -109,7 +109,7 @@ pub trait RandomizableConstraintSystem<F: Field>: ConstraintSystem<F> {
     /// ```
     fn specify_randomized_constraints<F2>(&mut self, callback: F2) -> Result<(), R1CSError>
     where
-        F2: 'static + FnOnce(&mut Self::RandomizedCS) -> Result<(), R1CSError>;
+        F2: 'static + Send + FnOnce(&mut Self::RandomizedCS) -> Result<(), R1CSError>;
 }
 
 /// Represents a constraint system in the second phase:
diff --git a/bulletproofs/src/r1cs/prover.rs b/bulletproofs/src/r1cs/prover.rs
index 694fd1f..feeaef7 100644
--- a/bulletproofs/src/r1cs/prover.rs
+++ b/bulletproofs/src/r1cs/prover.rs
@@ -41,15 +41,12 @@ pub struct Prover<'g, T: BorrowMut<Transcript>, C: AffineRepr> {
     /// This list holds closures that will be called in the second phase of the protocol,
     /// when non-randomized variables are committed.
     deferred_constraints:
-        Vec<Box<dyn FnOnce(&mut RandomizingProver<'g, T, C>) -> Result<(), R1CSError>>>,
+        Vec<Box<dyn FnOnce(&mut RandomizingProver<'g, T, C>) -> Result<(), R1CSError> + Send>>,
 
     /// Index of a pending multiplier that's not fully assigned yet.
     pending_multiplier: Option<usize>,
 }
 
-// todo I assume this would be automatically implemented by the compiler if it did not have a a mutable borrow of a transcript
-unsafe impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Send for Prover<'g, T, C> {} // todo fix after refactor
-
 /// Separate struct to implement Drop trait for (for zeroing),
 /// so that compiler does not prohibit us from moving the Transcript out of `prove()`.
 #[derive(ZeroizeOnDrop)]
@@ -191,7 +188,7 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> RandomizableConstraintSystem<C
 
     fn specify_randomized_constraints<F>(&mut self, callback: F) -> Result<(), R1CSError>
     where
-        F: 'static + FnOnce(&mut Self::RandomizedCS) -> Result<(), R1CSError>,
+        F: 'static + Send + FnOnce(&mut Self::RandomizedCS) -> Result<(), R1CSError>,
     {
         self.deferred_constraints.push(Box::new(callback));
         Ok(())
-- 
2.43.0


From 9265def1aec283ba944df0e4695d58d61ce7f92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:18 +0000
Subject: [PATCH 10/17] fix: refuse unknown phase flags and trailing bytes when
 decoding proofs

---
 bulletproofs/src/r1cs/proof.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/src/r1cs/proof.rs b/bulletproofs/src/r1cs/proof.rs
index 7f416ca..698125a 100644
--- a/bulletproofs/src/r1cs/proof.rs
+++ b/bulletproofs/src/r1cs/proof.rs
@@ -69,7 +69,13 @@ impl<C: AffineRepr> R1CSProof<C> {
     }
 
     pub fn from_bytes(slice: &[u8]) -> Result<R1CSProof<C>, R1CSError> {
-        Self::deserialize_compressed(slice).map_err(|_| R1CSError::FormatError)
+        let mut reader = slice;
+        let proof =
+            Self::deserialize_compressed(&mut reader).map_err(|_| R1CSError::FormatError)?;
+        if !reader.is_empty() {
+            return Err(R1CSError::FormatError);
+        }
+        Ok(proof)
     }
 }
 
@@ -147,8 +153,10 @@ impl<C: AffineRepr> CanonicalDeserialize for R1CSProof<C> {
                 C::deserialize_with_mode(&mut reader, compress, validate)?,
                 C::deserialize_with_mode(&mut reader, compress, validate)?,
             )
-        } else {
+        } else if flag == ONE_PHASE_COMMITMENTS {
             (C::zero(), C::zero(), C::zero())
+        } else {
+            return Err(SerializationError::InvalidData);
         };
         Ok(Self {
             A_I1,
-- 
2.43.0


From 7d373c1bb281912175059d39d4eca74e7436a864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 11/17] fix: check all components in the Valid implementations
 of composite types

---
 bulletproofs/src/inner_product_proof.rs |  4 ++++
 bulletproofs/src/r1cs/proof.rs          | 11 +++++++++++
 relations/src/coin.rs                   | 13 +++++++++++++
 relations/src/curve_tree.rs             |  3 +++
 4 files changed, 31 insertions(+)

diff --git a/bulletproofs/src/inner_product_proof.rs b/bulletproofs/src/inner_product_proof.rs
index a563fe1..6414d96 100644
--- a/bulletproofs/src/inner_product_proof.rs
+++ b/bulletproofs/src/inner_product_proof.rs
@@ -389,6 +389,10 @@ impl<C: AffineRepr> InnerProductProof<C> {
 
 impl<C: AffineRepr> Valid for InnerProductProof<C> {
     fn check(&self) -> Result<(), SerializationError> {
+        self.L_vec.check()?;
+        self.R_vec.check()?;
+        self.a.check()?;
+        self.b.check()?;
         Ok(())
     }
 }
diff --git a/bulletproofs/src/r1cs/proof.rs b/bulletproofs/src/r1cs/proof.rs
index 698125a..5bf5219 100644
--- a/bulletproofs/src/r1cs/proof.rs
+++ b/bulletproofs/src/r1cs/proof.rs
@@ -134,6 +134,17 @@ impl<C: AffineRepr> CanonicalSerialize for R1CSProof<C> {
 
 impl<C: AffineRepr> Valid for R1CSProof<C> {
     fn check(&self) -> Result<(), SerializationError> {
+        self.A_I1.check()?;
+        self.A_O1.check()?;
+        self.S1.check()?;
+        self.A_I2.check()?;
+        self.A_O2.check()?;
+        self.S2.check()?;
+        self.T.check()?;
+        self.t_x.check()?;
+        self.t_x_blinding.check()?;
+        self.e_blinding.check()?;
+        self.ipp_proof.check()?;
         Ok(())
     }
 }
diff --git a/relations/src/coin.rs b/relations/src/coin.rs
index 5902a5d..215a90d 100644
--- a/relations/src/coin.rs
+++ b/relations/src/coin.rs
@@ -356,6 +356,14 @@ impl<
     > Valid for Pour<L, P0, P1, C>
 {
     fn check(&self) -> Result<(), SerializationError> {
+        self.even_proof.check()?;
+        self.odd_proof.check()?;
+        self.randomized_path_0.check()?;
+        self.randomized_path_1.check()?;
+        self.pk0.check()?;
+        self.pk1.check()?;
+        self.minted_coin_commitment_0.check()?;
+        self.minted_coin_commitment_1.check()?;
         Ok(())
     }
 }
@@ -726,6 +734,11 @@ impl<
     > Valid for SignedTx<P0, P1, C>
 {
     fn check(&self) -> Result<(), SerializationError> {
+        self.signature_prover_response_0.check()?;
+        self.signature_verifier_challenge_0.check()?;
+        self.signature_prover_response_1.check()?;
+        self.signature_verifier_challenge_1.check()?;
+        self.pour_bytes.check()?;
         Ok(())
     }
 }
diff --git a/relations/src/curve_tree.rs b/relations/src/curve_tree.rs
index 2200c70..85a23f3 100644
--- a/relations/src/curve_tree.rs
+++ b/relations/src/curve_tree.rs
@@ -226,6 +226,9 @@ impl<const L: usize, P0: SWCurveConfig, P1: SWCurveConfig> Valid
     for SelectAndRerandomizePath<L, P0, P1>
 {
     fn check(&self) -> Result<(), SerializationError> {
+        self.selected_commitment.check()?;
+        self.odd_commitments.check()?;
+        self.even_commitments.check()?;
         Ok(())
     }
 }
-- 
2.43.0


From cf2cd65a2cd8c2ce26c06a74b2f80b2e6d5d705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 12/17] fix: commit the verifier to the two values of a spent
 coin, as the prover does

---
 relations/src/coin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relations/src/coin.rs b/relations/src/coin.rs
index 215a90d..b17d98e 100644
--- a/relations/src/coin.rs
+++ b/relations/src/coin.rs
@@ -597,7 +597,7 @@ fn verify_spend_even<
     curve_tree: &CurveTree<L, 1, P0, P1>,
 ) -> Variable<P0::ScalarField> {
     commitments.even_verifier_gadget(even_verifier, sr_parameters, curve_tree);
-    let vars = even_verifier.commit_vec(L, commitments.get_rerandomized_leaf());
+    let vars = even_verifier.commit_vec(2, commitments.get_rerandomized_leaf());
 
     // enforce equality of tag with hash of public key
     even_verifier.constrain(vars[1] - Coin::<P0, C>::pk_to_scalar(pk));
-- 
2.43.0


From 957b6b62de4dd8852540f5e2081d4adfe1510587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 13/17] fix: count both point vectors in the size of an inner
 product proof

---
 bulletproofs/src/inner_product_proof.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bulletproofs/src/inner_product_proof.rs b/bulletproofs/src/inner_product_proof.rs
index 6414d96..890f3bd 100644
--- a/bulletproofs/src/inner_product_proof.rs
+++ b/bulletproofs/src/inner_product_proof.rs
@@ -381,8 +381,9 @@ impl<C: AffineRepr> InnerProductProof<C> {
     pub fn serialized_size(&self, compress: Compress) -> usize {
         // size of the two scalars
         let scalars_size = self.a.serialized_size(compress) * 2;
-        // size of the 2 point vectors (should be equal)
-        let l_and_r_size = self.L_vec.serialized_size(compress) * 2;
+        // size of the 2 point vectors
+        let l_and_r_size =
+            self.L_vec.serialized_size(compress) + self.R_vec.serialized_size(compress);
         scalars_size + l_and_r_size
     }
 }
@@ -420,8 +421,9 @@ impl<C: AffineRepr> CanonicalSerialize for InnerProductProof<C> {
     fn serialized_size(&self, mode: Compress) -> usize {
         // size of the two scalars
         let scalars_size = self.a.serialized_size(mode) * 2;
-        // size of the 2 point vectors (should be equal)
-        let l_and_r_size = self.L_vec.serialized_size(mode) * 2;
+        // size of the 2 point vectors
+        let l_and_r_size =
+            self.L_vec.serialized_size(mode) + self.R_vec.serialized_size(mode);
         scalars_size + l_and_r_size
     }
 
-- 
2.43.0


From 5ae9676c708689baadc5d5bc24b115fa22f17d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:26 +0000
Subject: [PATCH 14/17] fix: wipe the prover's witness polynomials when they
 are dropped

---
 bulletproofs/src/util.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bulletproofs/src/util.rs b/bulletproofs/src/util.rs
index f3f1c91..827118a 100644
--- a/bulletproofs/src/util.rs
+++ b/bulletproofs/src/util.rs
@@ -28,8 +28,10 @@ pub const T_LABELS: [&[u8]; 41] = [
 ];
 
 /// The general case for Vector CP.
+#[derive(ZeroizeOnDrop)]
 pub struct VecPoly<F: Field>(Vec<Vec<F>>);
 
+#[derive(ZeroizeOnDrop)]
 pub struct Poly<F: Field>(Vec<F>);
 
 impl<F: Field> Poly<F> {
-- 
2.43.0


From 432be5a2a53b13faadde2f7382b35efe0da651bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 15/17] fix: aggregated generator iterators yield nothing when
 no generators per party are asked for

---
 bulletproofs/src/generators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/src/generators.rs b/bulletproofs/src/generators.rs
index 40f2219..3d7e839 100644
--- a/bulletproofs/src/generators.rs
+++ b/bulletproofs/src/generators.rs
@@ -247,7 +247,7 @@ impl<'a, C: AffineRepr> Iterator for AggregatedGensIter<'a, C> {
             self.party_idx += 1;
         }
 
-        if self.party_idx >= self.m {
+        if self.n == 0 || self.party_idx >= self.m {
             None
         } else {
             let cur_gen = self.gen_idx;
-- 
2.43.0


From 4bef06db54e7dbd1596a4d40a92e43032e8e977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:02 +0000
Subject: [PATCH 16/17] fix: refuse two-phase encodings whose second-phase
 commitments are all the identity

---
 bulletproofs/src/r1cs/proof.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/src/r1cs/proof.rs b/bulletproofs/src/r1cs/proof.rs
index 5bf5219..b64a3fa 100644
--- a/bulletproofs/src/r1cs/proof.rs
+++ b/bulletproofs/src/r1cs/proof.rs
@@ -159,11 +159,16 @@ impl<C: AffineRepr> CanonicalDeserialize for R1CSProof<C> {
         let S1 = C::deserialize_with_mode(&mut reader, compress, validate)?;
         let flag = u8::deserialize_with_mode(&mut reader, compress, validate)?;
         let (A_I2, A_O2, S2) = if flag == TWO_PHASE_COMMITMENTS {
-            (
+            let commitments = (
                 C::deserialize_with_mode(&mut reader, compress, validate)?,
                 C::deserialize_with_mode(&mut reader, compress, validate)?,
                 C::deserialize_with_mode(&mut reader, compress, validate)?,
-            )
+            );
+            // Absent second phase commitments are encoded by `ONE_PHASE_COMMITMENTS`
+            if commitments.0.is_zero() && commitments.1.is_zero() && commitments.2.is_zero() {
+                return Err(SerializationError::InvalidData);
+            }
+            commitments
         } else if flag == ONE_PHASE_COMMITMENTS {
             (C::zero(), C::zero(), C::zero())
         } else {
-- 
2.43.0


From 8f60d121b20067d36f9f820377acda4eee859ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:25 +0000
Subject: [PATCH 17/17] fix: rerandomize: check the last two window additions,
 whose scalars can exceed the group order

---
 relations/src/rerandomize.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/relations/src/rerandomize.rs b/relations/src/rerandomize.rs
index 3d49e78..a0ac5b6 100644
--- a/relations/src/rerandomize.rs
+++ b/relations/src/rerandomize.rs
@@ -109,7 +109,7 @@ pub fn re_randomize<
                 } else {
                     None
                 };
-                let x_left_minus_x_right_inv = if i == m {
+                let x_left_minus_x_right_inv = if i > 1 && i + 1 >= m {
                     // compute x_l-x_r inverse for checked addition
                     Some(F::one() / (x_left - x_right))
                 } else {
@@ -145,7 +145,9 @@ pub fn re_randomize<
                 y_o: acc_i_y_lc.clone(),
                 delta,
             };
-            if i == m {
+            // The scalars of the last two windows can exceed the group order, so the accumulated point
+            // can meet the table entry: an incomplete addition of equal points leaves its output free.
+            if i + 1 >= m {
                 // enforce checked curve addition
                 checked_curve_addition(cs, &prms, x_l_minus_x_r_inv);
             } else {
-- 
2.43.0

