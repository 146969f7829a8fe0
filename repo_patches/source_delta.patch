From 989462d10cc4bc4c4b78453adc237fff22dc4a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:51 +0000
Subject: [PATCH 01/16] fix: verifying an inner-product argument of length 1
 panicked

A circuit with at most one multiplier has no inner-product rounds, so
there is no challenge to invert and batch_invert indexed an empty slice.
---
 src/ipp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ipp.rs b/src/ipp.rs
index 80807f1..a16ef4f 100644
--- a/src/ipp.rs
+++ b/src/ipp.rs
@@ -292,7 +292,12 @@ impl IPP {
         let mut challenges_sq = Vec::with_capacity(lg_n);
         let mut challenges_inv_sq = Vec::with_capacity(lg_n);
 
-        let (challenges_inv, product_chal_inv) = FieldElement::batch_invert(&challenges);
+        // With vectors of length 1 there are no rounds, hence no challenges to invert.
+        let (challenges_inv, product_chal_inv) = if challenges.is_empty() {
+            (vec![], FieldElement::one())
+        } else {
+            FieldElement::batch_invert(&challenges)
+        };
         for i in 0..challenges.len() {
             challenges_sq.push(challenges[i].square());
             challenges_inv_sq.push(challenges_inv[i].square());
-- 
2.43.0


From fc6ab282fffe1e6130c84a2fd8b0b37970ec783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:51 +0000
Subject: [PATCH 02/16] fix: inner-product proofs of the wrong size panicked
 the verifier

Unequal numbers of L and R points (possible in a deserialised proof) or
vectors of the wrong length are now a VerificationError.
---
 src/ipp.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ipp.rs b/src/ipp.rs
index a16ef4f..f42911b 100644
--- a/src/ipp.rs
+++ b/src/ipp.rs
@@ -215,7 +215,11 @@ impl IPP {
         L_vec: &G1Vector,
         R_vec: &G1Vector,
     ) -> Result<(), R1CSError> {
-        let (u_sq, u_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript).unwrap();
+        let (u_sq, u_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript)?;
+
+        if G.len() != n || H.len() != n || G_factors.len() != n || H_factors.len() != n {
+            return Err(R1CSError::VerificationError);
+        }
 
         let g_times_a_times_s = G_factors
             .iter()
@@ -274,6 +278,9 @@ impl IPP {
         if n != (1 << lg_n) {
             return Err(R1CSError::VerificationError);
         }
+        if R_vec.len() != lg_n {
+            return Err(R1CSError::VerificationError);
+        }
 
         transcript.innerproduct_domain_sep(n as u64);
 
-- 
2.43.0


From b720440434bbe8003f53b2899746e8ea2abc1577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:51 +0000
Subject: [PATCH 03/16] fix: too short H panicked instead of
 InvalidGeneratorsLength

Only the length of G was checked before slicing both vectors.
---
 src/r1cs/prover.rs   | 4 ++--
 src/r1cs/verifier.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/r1cs/prover.rs b/src/r1cs/prover.rs
index 1d05bc8..9ca93bf 100644
--- a/src/r1cs/prover.rs
+++ b/src/r1cs/prover.rs
@@ -329,7 +329,7 @@ impl<'a, 'b> Prover<'a, 'b> {
         // Commit to the first-phase low-level witness variables.
         let n1 = self.a_L.len();
 
-        if G.len() < n1 {
+        if G.len() < n1 || H.len() < n1 {
             return Err(R1CSError::InvalidGeneratorsLength);
         }
 
@@ -376,7 +376,7 @@ impl<'a, 'b> Prover<'a, 'b> {
         let padded_n = n.next_power_of_two();
         let pad = padded_n - n;
 
-        if G.len() < padded_n {
+        if G.len() < padded_n || H.len() < padded_n {
             return Err(R1CSError::InvalidGeneratorsLength);
         }
 
diff --git a/src/r1cs/verifier.rs b/src/r1cs/verifier.rs
index e8e0fe1..5b85a96 100644
--- a/src/r1cs/verifier.rs
+++ b/src/r1cs/verifier.rs
@@ -294,7 +294,7 @@ impl<'a> Verifier<'a> {
 
         use std::iter;
 
-        if G.len() < padded_n {
+        if G.len() < padded_n || H.len() < padded_n {
             return Err(R1CSError::InvalidGeneratorsLength);
         }
 
-- 
2.43.0


From 78345591706f6f540fdd407a7a559993400965d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:35 +0000
Subject: [PATCH 04/16] fix: one-call gadget provers panicked when generators
 are too few

Propagate the error of Prover::prove instead of unwrapping it.
---
 src/r1cs/gadgets/hamming_distance.rs         | 2 +-
 src/r1cs/gadgets/randomizer.rs               | 2 +-
 src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/r1cs/gadgets/hamming_distance.rs b/src/r1cs/gadgets/hamming_distance.rs
index 7c7d433..ea57032 100644
--- a/src/r1cs/gadgets/hamming_distance.rs
+++ b/src/r1cs/gadgets/hamming_distance.rs
@@ -125,7 +125,7 @@ pub fn gen_proof_for_hamming_distance(
         &prover.num_multipliers(),
         &prover.num_constraints()
     );
-    let proof = prover.prove(G, H).unwrap();
+    let proof = prover.prove(G, H)?;
     println!("Proving time is {:?}", start.elapsed());
     Ok((proof, comms))
 }
diff --git a/src/r1cs/gadgets/randomizer.rs b/src/r1cs/gadgets/randomizer.rs
index 05ab4bc..e33db98 100644
--- a/src/r1cs/gadgets/randomizer.rs
+++ b/src/r1cs/gadgets/randomizer.rs
@@ -273,7 +273,7 @@ pub fn gen_proof_for_randomizer(
         + hash_params.full_rounds_end;
     println!("For 4-ary tree of height {} (has 2^{} leaves) and Poseidon rounds {}, no of multipliers is {} and constraints is {}", tree_depth, tree_depth*2, total_rounds, &prover.num_multipliers(), &prover.num_constraints());
 
-    let proof = prover.prove(G, H).unwrap();
+    let proof = prover.prove(G, H)?;
     let end = start.elapsed();
 
     println!("Proving time is {:?}", end);
diff --git a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
index 988c2c1..7f62eaa 100644
--- a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
@@ -168,7 +168,7 @@ pub fn gen_proof_of_leaf_inclusion_4_ary_merkle_tree<R: RngCore + CryptoRng>(
         + hash_params.full_rounds_end;
     println!("For 4-ary tree of height {} (has 2^{} leaves) and Poseidon rounds {}, no of multipliers is {} and constraints is {}", tree_depth, tree_depth*2, total_rounds, &prover.num_multipliers(), &prover.num_constraints());
 
-    let proof = prover.prove(G, H).unwrap();
+    let proof = prover.prove(G, H)?;
     let end = start.elapsed();
 
     println!("Proving time is {:?}", end);
-- 
2.43.0


From c0bb731c4dfa0df0189d89db10edc36132490b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:35 +0000
Subject: [PATCH 05/16] fix: Hamming distance did not tie the differences to
 the committed values

The variables holding the differences were unconstrained, so a prover
could prove any distance up to the length of the vectors.
---
 src/r1cs/gadgets/hamming_distance.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/r1cs/gadgets/hamming_distance.rs b/src/r1cs/gadgets/hamming_distance.rs
index ea57032..4fd3eef 100644
--- a/src/r1cs/gadgets/hamming_distance.rs
+++ b/src/r1cs/gadgets/hamming_distance.rs
@@ -42,6 +42,9 @@ pub fn hamming_distance_gadget<CS: ConstraintSystem>(
         let (_, var_o) = cs.allocate_single(val_diff_inv)?;
         let var_1_or_0 = var_o.unwrap();
 
+        // `var_diff` should be the difference of the committed and the new value
+        cs.constrain(diff - var_diff);
+
         // diff * (1 - 1_or_0) = 0
         let one_minus_var_1_or_0 = Variable::One() - var_1_or_0;
         let (_, _, o) = cs.multiply(var_diff.into(), one_minus_var_1_or_0);
-- 
2.43.0


From 43caf049ee76fbeae79d3fdf094a063995c3ac2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:35 +0000
Subject: [PATCH 06/16] fix: inverse S-box did not tie its input to the state

The allocated S-box input was never constrained to be the state plus the
round key, so a prover could choose every S-box output freely.
---
 src/r1cs/gadgets/helper_constraints/poseidon.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/r1cs/gadgets/helper_constraints/poseidon.rs b/src/r1cs/gadgets/helper_constraints/poseidon.rs
index 5599826..92f0a49 100644
--- a/src/r1cs/gadgets/helper_constraints/poseidon.rs
+++ b/src/r1cs/gadgets/helper_constraints/poseidon.rs
@@ -189,6 +189,9 @@ impl SboxType {
         let (var_l, _) = cs.allocate_single(val_l)?;
         let (var_r, var_o) = cs.allocate_single(val_r)?;
 
+        // `var_l` should be the input of the S-box
+        cs.constrain(inp_plus_const - var_l);
+
         // Ensure `inp_plus_const` is not zero
         is_nonzero_gadget(cs, var_l, var_r)?;
 
-- 
2.43.0


From 91302e8825eb8e2c816ee67a66c4bbd6fe9dd70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:35 +0000
Subject: [PATCH 07/16] fix: gadgets panicked when another gate was half
 allocated

Hamming distance and the inverse S-box allocated the two sides of a gate
one at a time, which picks up (and pairs with) a gate the caller has left
half allocated. Allocate the gate as a whole.
---
 src/r1cs/gadgets/hamming_distance.rs            | 5 ++---
 src/r1cs/gadgets/helper_constraints/poseidon.rs | 6 +++---
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/r1cs/gadgets/hamming_distance.rs b/src/r1cs/gadgets/hamming_distance.rs
index 4fd3eef..9af0b97 100644
--- a/src/r1cs/gadgets/hamming_distance.rs
+++ b/src/r1cs/gadgets/hamming_distance.rs
@@ -38,9 +38,8 @@ pub fn hamming_distance_gadget<CS: ConstraintSystem>(
         };
 
         // diff * diff_inv = 1_or_0 depending on diff being non-zero or zero
-        let (var_diff, _) = cs.allocate_single(val_diff)?;
-        let (_, var_o) = cs.allocate_single(val_diff_inv)?;
-        let var_1_or_0 = var_o.unwrap();
+        let (var_diff, _, var_1_or_0) = cs
+            .allocate_multiplier(val_diff.and_then(|d| val_diff_inv.map(|inv| (d, inv))))?;
 
         // `var_diff` should be the difference of the committed and the new value
         cs.constrain(diff - var_diff);
diff --git a/src/r1cs/gadgets/helper_constraints/poseidon.rs b/src/r1cs/gadgets/helper_constraints/poseidon.rs
index 92f0a49..715c210 100644
--- a/src/r1cs/gadgets/helper_constraints/poseidon.rs
+++ b/src/r1cs/gadgets/helper_constraints/poseidon.rs
@@ -186,8 +186,8 @@ impl SboxType {
         let val_l = cs.evaluate_lc(&inp_plus_const);
         let val_r = val_l.clone().map(|l| l.inverse());
 
-        let (var_l, _) = cs.allocate_single(val_l)?;
-        let (var_r, var_o) = cs.allocate_single(val_r)?;
+        let (var_l, var_r, var_o) =
+            cs.allocate_multiplier(val_l.and_then(|l| val_r.map(|r| (l, r))))?;
 
         // `var_l` should be the input of the S-box
         cs.constrain(inp_plus_const - var_l);
@@ -196,7 +196,7 @@ impl SboxType {
         is_nonzero_gadget(cs, var_l, var_r)?;
 
         // Constrain product of ``inp_plus_const` and its inverse to be 1.
-        constrain_lc_with_scalar::<CS>(cs, var_o.unwrap().into(), &FieldElement::one());
+        constrain_lc_with_scalar::<CS>(cs, var_o.into(), &FieldElement::one());
 
         Ok(var_r)
     }
-- 
2.43.0


From c6daa32f06c4386616727eedee33c9737c7fcce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:35 +0000
Subject: [PATCH 08/16] fix: Merkle inclusion gadgets accepted paths of the
 wrong length

The number of committed path nodes comes from the prover. With fewer nodes
than the depth requires the gadget silently proved inclusion at a shallower
level (an inner node passes as a leaf); other counts panicked.
---
 .../helper_constraints/sparse_merkle_tree_4_ary.rs    | 11 +++++++++++
 .../helper_constraints/sparse_merkle_tree_8_ary.rs    | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
index 5d0c8cc..a3cb140 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
@@ -262,6 +262,17 @@ pub fn vanilla_merkle_merkle_tree_4_verif_gadget<CS: ConstraintSystem>(
     poseidon_params: &PoseidonParams,
     sbox_type: &SboxType,
 ) -> Result<(), R1CSError> {
+    // Each level of the tree has 3 nodes in the proof
+    if proof_nodes.len() != 3 * depth {
+        return Err(R1CSError::GadgetError {
+            description: format!(
+                "Expected 3 nodes for each of the {} levels but found {} nodes",
+                depth,
+                proof_nodes.len()
+            ),
+        });
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     let statics: Vec<LinearCombination> = statics.into_iter().map(|s| s.into()).collect();
diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
index 960c593..d7f0226 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
@@ -286,6 +286,17 @@ pub fn vanilla_merkle_merkle_tree_8_verif_gadget<CS: ConstraintSystem>(
     poseidon_params: &PoseidonParams,
     sbox_type: &SboxType,
 ) -> Result<(), R1CSError> {
+    // Each level of the tree has 7 nodes in the proof
+    if proof_nodes.len() != 7 * depth {
+        return Err(R1CSError::GadgetError {
+            description: format!(
+                "Expected 7 nodes for each of the {} levels but found {} nodes",
+                depth,
+                proof_nodes.len()
+            ),
+        });
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     // Initialize  constraint_leaf_index with -leaf_index.
-- 
2.43.0


From 1bbf4946d092b4a7269aeebc8cd1d3970a6563dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:35 +0000
Subject: [PATCH 09/16] fix: Merkle proofs of the wrong length panicked or were
 accepted

A proof must have exactly one node per level.
---
 .../gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs    | 4 ++++
 .../gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
index a3cb140..e7599e1 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
@@ -178,6 +178,10 @@ impl<'a> VanillaSparseMerkleTree_4<'a> {
         proof: &[ProofNode_4_ary],
         root: Option<&FieldElement>,
     ) -> bool {
+        if proof.len() != self.depth {
+            return false;
+        }
+
         let mut path = Self::leaf_index_to_path(&idx, self.depth);
         path.reverse();
         let mut cur_val = val.clone();
diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
index d7f0226..343e30e 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
@@ -193,6 +193,10 @@ impl<'a> VanillaSparseMerkleTree_8<'a> {
         proof: &[ProofNode_8_ary],
         root: Option<&FieldElement>,
     ) -> bool {
+        if proof.len() != self.depth {
+            return false;
+        }
+
         let mut path = Self::leaf_index_to_path(idx, self.depth);
         path.reverse();
         let mut cur_val = val.clone();
-- 
2.43.0


From 094f78218af7bbdaa59a528fcdb60921309bc154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:03 +0000
Subject: [PATCH 10/16] fix: 64-bit integers of 2^58 or more were not proved
 correctly

FieldElement::from(u64) stores the integer in one 58-bit limb: shifting it
loses the upper bits, so in-range values failed the bound check, and values
of 2^63 or more become negative.
---
 src/r1cs/gadgets/bound_check.rs               | 19 ++++++++++---------
 .../gadgets/helper_constraints/vector_sum.rs  |  3 ++-
 src/r1cs/gadgets/set_membership_alt.rs        |  7 ++++---
 src/utils/mod.rs                              |  9 +++++++++
 4 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/r1cs/gadgets/bound_check.rs b/src/r1cs/gadgets/bound_check.rs
index ed5d623..896aa7d 100644
--- a/src/r1cs/gadgets/bound_check.rs
+++ b/src/r1cs/gadgets/bound_check.rs
@@ -3,6 +3,7 @@ use super::helper_constraints::positive_no::positive_no_gadget;
 use crate::errors::R1CSError;
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Prover, R1CSProof, Variable, Verifier};
+use crate::utils::field_element_from_u64;
 use amcl_wrapper::field_elem::FieldElement;
 use amcl_wrapper::group_elem_g1::{G1Vector, G1};
 use merlin::Transcript;
@@ -23,12 +24,12 @@ pub fn bound_check_gadget<CS: ConstraintSystem>(
     // b = max - v
     // a + b = max - min
 
-    cs.constrain(v.variable - LinearCombination::from(FieldElement::from(min)) - a.variable);
+    cs.constrain(v.variable - LinearCombination::from(field_element_from_u64(min)) - a.variable);
 
-    cs.constrain(LinearCombination::from(FieldElement::from(max)) - v.variable - b.variable);
+    cs.constrain(LinearCombination::from(field_element_from_u64(max)) - v.variable - b.variable);
 
     // Constrain a + b to be same as max - min.
-    constrain_lc_with_scalar::<CS>(cs, a.variable + b.variable, &FieldElement::from(max - min));
+    constrain_lc_with_scalar::<CS>(cs, a.variable + b.variable, &field_element_from_u64(max - min));
 
     // Constrain a in [0, 2^n)
     positive_no_gadget(cs, a, n)?;
@@ -55,26 +56,26 @@ pub fn prove_bounded_num<R: RngCore + CryptoRng>(
     let mut comms = vec![];
 
     let (com_v, var_v) = prover.commit(
-        val.into(),
+        field_element_from_u64(val),
         randomness.unwrap_or_else(|| FieldElement::random_using_rng(rng.unwrap())),
     );
     let quantity_v = AllocatedQuantity {
         variable: var_v,
-        assignment: Some(val.into()),
+        assignment: Some(field_element_from_u64(val)),
     };
     comms.push(com_v);
 
-    let (com_a, var_a) = prover.commit(a.into(), FieldElement::random());
+    let (com_a, var_a) = prover.commit(field_element_from_u64(a), FieldElement::random());
     let quantity_a = AllocatedQuantity {
         variable: var_a,
-        assignment: Some(a.into()),
+        assignment: Some(field_element_from_u64(a)),
     };
     comms.push(com_a);
 
-    let (com_b, var_b) = prover.commit(b.into(), FieldElement::random());
+    let (com_b, var_b) = prover.commit(field_element_from_u64(b), FieldElement::random());
     let quantity_b = AllocatedQuantity {
         variable: var_b,
-        assignment: Some(b.into()),
+        assignment: Some(field_element_from_u64(b)),
     };
     comms.push(com_b);
 
diff --git a/src/r1cs/gadgets/helper_constraints/vector_sum.rs b/src/r1cs/gadgets/helper_constraints/vector_sum.rs
index 3fb08d8..fb41b99 100644
--- a/src/r1cs/gadgets/helper_constraints/vector_sum.rs
+++ b/src/r1cs/gadgets/helper_constraints/vector_sum.rs
@@ -1,5 +1,6 @@
 use crate::errors::R1CSError;
 use crate::r1cs::{ConstraintSystem, Variable};
+use crate::utils::field_element_from_u64;
 use amcl_wrapper::field_elem::FieldElement;
 
 // Ensure sum of items of `vector` is `sum`
@@ -8,7 +9,7 @@ pub fn vector_sum_constraints<CS: ConstraintSystem>(
     vector: Vec<Variable>,
     sum: u64,
 ) -> Result<(), R1CSError> {
-    let mut constraints = vec![(Variable::One(), FieldElement::from(sum).negation())];
+    let mut constraints = vec![(Variable::One(), field_element_from_u64(sum).negation())];
     for i in vector {
         constraints.push((i, FieldElement::one()));
     }
diff --git a/src/r1cs/gadgets/set_membership_alt.rs b/src/r1cs/gadgets/set_membership_alt.rs
index 1ac5c5a..c0dcfb5 100644
--- a/src/r1cs/gadgets/set_membership_alt.rs
+++ b/src/r1cs/gadgets/set_membership_alt.rs
@@ -4,6 +4,7 @@ use super::helper_constraints::vector_sum::vector_sum_constraints;
 use crate::errors::R1CSError;
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Prover, R1CSProof, Variable, Verifier};
+use crate::utils::field_element_from_u64;
 use amcl_wrapper::field_elem::FieldElement;
 use amcl_wrapper::group_elem_g1::{G1Vector, G1};
 use merlin::Transcript;
@@ -67,9 +68,9 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
             vector[i]
                 .assignment
                 .as_ref()
-                .map(|bit| (bit.clone(), items[i].into())),
+                .map(|bit| (bit.clone(), field_element_from_u64(items[i]))),
         )?;
-        constrain_lc_with_scalar::<CS>(cs, item_var.into(), &items[i].into());
+        constrain_lc_with_scalar::<CS>(cs, item_var.into(), &field_element_from_u64(items[i]));
 
         let (_, _, o2) = cs.multiply(bit_var.into(), value.variable.into());
 
@@ -123,7 +124,7 @@ pub fn prove_set_membership_alt<R: RngCore + CryptoRng>(
     // The bit vector sum should be 1
     vector_sum_constraints(prover, bit_vars, 1)?;
 
-    let _value = FieldElement::from(value);
+    let _value = field_element_from_u64(value);
     let (com_value, var_value) = prover.commit(
         _value.clone(),
         randomness.unwrap_or_else(|| FieldElement::random_using_rng(rng.unwrap())),
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 8b57797..db5a722 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -38,6 +38,15 @@ pub fn gen_challenges(input: &[&G1], state: &mut Vec<u8>, n: usize) -> Vec<Field
     r
 }
 
+/// Convert an integer to a field element. Unlike `FieldElement::from(u64)`, which stores the integer
+/// in a single limb, the result is normalized for integers of 2^58 or more and not negative for
+/// integers of 2^63 or more.
+pub fn field_element_from_u64(x: u64) -> FieldElement {
+    let mut bytes = [0u8; MODBYTES];
+    bytes[MODBYTES - 8..].copy_from_slice(&x.to_be_bytes());
+    FieldElement::from(&bytes)
+}
+
 #[macro_export]
 macro_rules! vec_to_array {
     ( $typ:ident, $size:expr, $vec: ident) => {{
-- 
2.43.0


From e4ad51ea4675287b47a67f9825888ef6bf954716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:41 +0000
Subject: [PATCH 11/16] fix: gadget verifiers panicked on missing commitments

The list of commitments comes from the prover; a wrong number of them is
now a GadgetError (surplus ones were silently ignored).
---
 src/errors.rs                                | 18 ++++++++++++++++++
 src/r1cs/gadgets/bound_check.rs              |  2 ++
 src/r1cs/gadgets/mimc.rs                     |  2 ++
 src/r1cs/gadgets/non_zero.rs                 |  2 ++
 src/r1cs/gadgets/poseidon_hash.rs            |  6 ++++++
 src/r1cs/gadgets/randomizer.rs               |  2 ++
 src/r1cs/gadgets/set_membership.rs           |  2 ++
 src/r1cs/gadgets/set_membership_alt.rs       |  2 ++
 src/r1cs/gadgets/set_non_membership.rs       |  2 ++
 src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs |  2 ++
 src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs |  2 ++
 11 files changed, 42 insertions(+)

diff --git a/src/errors.rs b/src/errors.rs
index 3480211..f7a815c 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -53,3 +53,21 @@ macro_rules! check_for_input_and_randomness_length {
         }
     }};
 }
+
+/// Check that the verifier was given as many commitments as the prover creates
+#[macro_export]
+macro_rules! check_for_commitments_length {
+    ( $commitments:expr, $expected_length:expr ) => {{
+        if $commitments.len() != $expected_length {
+            Err(R1CSError::GadgetError {
+                description: format!(
+                    "Expected {} commitments but found {}",
+                    $expected_length,
+                    $commitments.len()
+                ),
+            })
+        } else {
+            Ok(())
+        }
+    }};
+}
diff --git a/src/r1cs/gadgets/bound_check.rs b/src/r1cs/gadgets/bound_check.rs
index 896aa7d..fe21a30 100644
--- a/src/r1cs/gadgets/bound_check.rs
+++ b/src/r1cs/gadgets/bound_check.rs
@@ -99,6 +99,8 @@ pub fn verify_bounded_num(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 3)?;
+
     let var_v = verifier.commit(commitments.remove(0));
     let quantity_v = AllocatedQuantity {
         variable: var_v,
diff --git a/src/r1cs/gadgets/mimc.rs b/src/r1cs/gadgets/mimc.rs
index bfe1a11..cd71b04 100644
--- a/src/r1cs/gadgets/mimc.rs
+++ b/src/r1cs/gadgets/mimc.rs
@@ -62,6 +62,8 @@ pub fn verify_mimc_preimage(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let var_l = verifier.commit(commitments.remove(0));
     let var_r = verifier.commit(commitments.remove(0));
 
diff --git a/src/r1cs/gadgets/non_zero.rs b/src/r1cs/gadgets/non_zero.rs
index b378ea4..5a185a7 100644
--- a/src/r1cs/gadgets/non_zero.rs
+++ b/src/r1cs/gadgets/non_zero.rs
@@ -45,6 +45,8 @@ pub fn verify_non_zero_val(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let var_val = verifier.commit(commitments.remove(0));
     let alloc_scal = AllocatedQuantity {
         variable: var_val,
diff --git a/src/r1cs/gadgets/poseidon_hash.rs b/src/r1cs/gadgets/poseidon_hash.rs
index 8ccfb1d..34ed6e9 100644
--- a/src/r1cs/gadgets/poseidon_hash.rs
+++ b/src/r1cs/gadgets/poseidon_hash.rs
@@ -126,6 +126,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_2(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2)?;
+
     let lv = verifier.commit(commitments.remove(0));
     let rv = verifier.commit(commitments.remove(0));
 
@@ -270,6 +272,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_4(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 4)?;
+
     let mut allocs = vec![];
 
     for _ in 0..4 {
@@ -413,6 +417,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_8(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 8)?;
+
     let mut vars = vec![];
 
     for _ in 0..8 {
diff --git a/src/r1cs/gadgets/randomizer.rs b/src/r1cs/gadgets/randomizer.rs
index e33db98..517b1da 100644
--- a/src/r1cs/gadgets/randomizer.rs
+++ b/src/r1cs/gadgets/randomizer.rs
@@ -296,6 +296,8 @@ pub fn verify_proof_for_randomizer(
     G: &G1Vector,
     H: &G1Vector,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 1 + modified_indices.len() * (1 + 3 * tree_depth))?;
+
     let mut verifier_transcript = Transcript::new(transcript_label);
     let mut verifier = Verifier::new(&mut verifier_transcript);
 
diff --git a/src/r1cs/gadgets/set_membership.rs b/src/r1cs/gadgets/set_membership.rs
index 8417be2..3a327d2 100644
--- a/src/r1cs/gadgets/set_membership.rs
+++ b/src/r1cs/gadgets/set_membership.rs
@@ -85,6 +85,8 @@ pub fn verify_set_membership(
 ) -> Result<(), R1CSError> {
     let set_length = set.len();
 
+    check_for_commitments_length!(commitments, set_length + 1)?;
+
     let mut diff_vars: Vec<AllocatedQuantity> = vec![];
 
     let var_val = verifier.commit(commitments.remove(0));
diff --git a/src/r1cs/gadgets/set_membership_alt.rs b/src/r1cs/gadgets/set_membership_alt.rs
index c0dcfb5..55f0713 100644
--- a/src/r1cs/gadgets/set_membership_alt.rs
+++ b/src/r1cs/gadgets/set_membership_alt.rs
@@ -146,6 +146,8 @@ pub fn verify_set_membership_alt(
 ) -> Result<(), R1CSError> {
     let set_length = set.len();
 
+    check_for_commitments_length!(commitments, set_length + 1)?;
+
     let mut bit_vars = vec![];
     let mut bit_allocs = vec![];
 
diff --git a/src/r1cs/gadgets/set_non_membership.rs b/src/r1cs/gadgets/set_non_membership.rs
index 6750af0..5f62301 100644
--- a/src/r1cs/gadgets/set_non_membership.rs
+++ b/src/r1cs/gadgets/set_non_membership.rs
@@ -96,6 +96,8 @@ pub fn verify_set_non_membership(
     let mut diff_vars: Vec<AllocatedQuantity> = vec![];
     let mut diff_inv_vars: Vec<AllocatedQuantity> = vec![];
 
+    check_for_commitments_length!(commitments, 2 * set_length + 1)?;
+
     let var_val = verifier.commit(commitments.remove(0));
     let alloc_scal = AllocatedQuantity {
         variable: var_val,
diff --git a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
index 7f62eaa..40e9598 100644
--- a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
@@ -97,6 +97,8 @@ pub fn verify_leaf_inclusion_4_ary_merkle_tree(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2 + 3 * tree_depth)?;
+
     let var_leaf = verifier.commit(commitments.remove(0));
 
     let var_leaf_idx = verifier.commit(commitments.remove(0));
diff --git a/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs b/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
index 212b7ff..669ddb9 100644
--- a/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
+++ b/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
@@ -96,6 +96,8 @@ pub fn verify_leaf_inclusion_8_ary_merkle_tree(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_commitments_length!(commitments, 2 + 7 * tree_depth)?;
+
     let var_leaf = verifier.commit(commitments.remove(0));
 
     let var_leaf_idx = verifier.commit(commitments.remove(0));
-- 
2.43.0


From 23594e6377d165dc7df91f08faf5aa44e6837802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:32 +0000
Subject: [PATCH 12/16] fix: verifiers accepted points that are not group
 elements

Deserialization checks neither the curve equation nor the subgroup, and a
point with all coordinates 0 absorbs every sum and compares equal to the
identity, so any statement could be proved with it. Validate the points
of the proof and the commitments before verifying.
---
 src/ipp.rs           | 25 +++++++++++++++++++++++++
 src/r1cs/proof.rs    | 25 +++++++++++++++++++++++++
 src/r1cs/verifier.rs |  9 +++++++++
 src/utils/mod.rs     | 22 ++++++++++++++++++++++
 4 files changed, 81 insertions(+)

diff --git a/src/ipp.rs b/src/ipp.rs
index f42911b..8363154 100644
--- a/src/ipp.rs
+++ b/src/ipp.rs
@@ -4,6 +4,7 @@
 
 use crate::errors::R1CSError;
 use crate::transcript::TranscriptProtocol;
+use crate::utils::validate_point;
 use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
 use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
 use amcl_wrapper::group_elem_g1::{G1Vector, G1};
@@ -19,6 +20,26 @@ pub struct InnerProductArgumentProof {
     pub b: FieldElement,
 }
 
+impl InnerProductArgumentProof {
+    /// Check all points of the proof. See `validate_point`
+    pub(crate) fn validated(&self) -> Result<Self, R1CSError> {
+        Ok(InnerProductArgumentProof {
+            L: validate_points(&self.L)?,
+            R: validate_points(&self.R)?,
+            a: self.a.clone(),
+            b: self.b.clone(),
+        })
+    }
+}
+
+fn validate_points(points: &G1Vector) -> Result<G1Vector, R1CSError> {
+    Ok(points
+        .iter()
+        .map(validate_point)
+        .collect::<Result<Vec<G1>, R1CSError>>()?
+        .into())
+}
+
 pub struct IPP {}
 impl IPP {
     /// Create an inner-product proof.
@@ -215,6 +236,10 @@ impl IPP {
         L_vec: &G1Vector,
         R_vec: &G1Vector,
     ) -> Result<(), R1CSError> {
+        let P = &validate_point(P)?;
+        let L_vec = &validate_points(L_vec)?;
+        let R_vec = &validate_points(R_vec)?;
+
         let (u_sq, u_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript)?;
 
         if G.len() != n || H.len() != n || G_factors.len() != n || H_factors.len() != n {
diff --git a/src/r1cs/proof.rs b/src/r1cs/proof.rs
index fed2c0a..42dfa10 100644
--- a/src/r1cs/proof.rs
+++ b/src/r1cs/proof.rs
@@ -4,7 +4,9 @@
 
 //! Definition of the proof struct.
 
+use crate::errors::R1CSError;
 use crate::ipp::InnerProductArgumentProof;
+use crate::utils::validate_point;
 use amcl_wrapper::field_elem::FieldElement;
 use amcl_wrapper::group_elem_g1::G1;
 
@@ -56,3 +58,26 @@ pub struct R1CSProof {
     /// Proof data for the inner-product argument.
     pub(super) ipp_proof: InnerProductArgumentProof,
 }
+
+impl R1CSProof {
+    /// Check all points of the proof. See `validate_point`
+    pub(super) fn validated(&self) -> Result<Self, R1CSError> {
+        Ok(R1CSProof {
+            A_I1: validate_point(&self.A_I1)?,
+            A_O1: validate_point(&self.A_O1)?,
+            S1: validate_point(&self.S1)?,
+            A_I2: validate_point(&self.A_I2)?,
+            A_O2: validate_point(&self.A_O2)?,
+            S2: validate_point(&self.S2)?,
+            T_1: validate_point(&self.T_1)?,
+            T_3: validate_point(&self.T_3)?,
+            T_4: validate_point(&self.T_4)?,
+            T_5: validate_point(&self.T_5)?,
+            T_6: validate_point(&self.T_6)?,
+            t_x: self.t_x.clone(),
+            t_x_blinding: self.t_x_blinding.clone(),
+            e_blinding: self.e_blinding.clone(),
+            ipp_proof: self.ipp_proof.validated()?,
+        })
+    }
+}
diff --git a/src/r1cs/verifier.rs b/src/r1cs/verifier.rs
index 5b85a96..d275aa7 100644
--- a/src/r1cs/verifier.rs
+++ b/src/r1cs/verifier.rs
@@ -17,6 +17,7 @@ use crate::r1cs::constraint_system::RandomizedConstraintSystem;
 use crate::r1cs::linear_combination::LinearCombination;
 use crate::r1cs::linear_combination::Variable;
 use crate::r1cs::proof::R1CSProof;
+use crate::utils::validate_point;
 
 /// A [`ConstraintSystem`] implementation for use by the verifier.
 ///
@@ -272,6 +273,14 @@ impl<'a> Verifier<'a> {
         G: &G1Vector,
         H: &G1Vector,
     ) -> Result<(), R1CSError> {
+        // The points of the proof and the commitments come from the prover
+        let proof = &proof.validated()?;
+        self.V = self
+            .V
+            .iter()
+            .map(validate_point)
+            .collect::<Result<Vec<G1>, R1CSError>>()?;
+
         // Commit a length _suffix_ for the number of high-level variables.
         // We cannot do this in advance because user can commit variables one-by-one,
         // but this suffix provides safe disambiguation because each variable
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index db5a722..b5d4f5d 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -7,6 +7,7 @@ use rand::rngs::EntropyRng;
 use rand::RngCore;
 
 use amcl_wrapper::constants::{CurveOrder, MODBYTES};
+use crate::errors::R1CSError;
 use amcl_wrapper::errors::ValueError;
 use amcl_wrapper::field_elem::FieldElement;
 use amcl_wrapper::group_elem::GroupElement;
@@ -47,6 +48,27 @@ pub fn field_element_from_u64(x: u64) -> FieldElement {
     FieldElement::from(&bytes)
 }
 
+/// Decode a point received from someone else from its byte encoding, which is what is committed to
+/// a transcript. Deserializing a point does not check that it is on the curve and admits encodings
+/// of no point at all, like all coordinates being 0, which compare equal to any point.
+pub fn validate_point(point: &G1) -> Result<G1, R1CSError> {
+    if point.is_identity() {
+        // Adding all 0s gives all 0s again
+        return if (point + G1::generator()).is_identity() {
+            Err(R1CSError::FormatError)
+        } else {
+            Ok(point.clone())
+        };
+    }
+    let bytes = point.to_bytes();
+    // Decodes to identity if not on the curve
+    let decoded = G1::from_bytes(&bytes).map_err(|_| R1CSError::FormatError)?;
+    if decoded.is_identity() || decoded.to_bytes() != bytes || !decoded.has_correct_order() {
+        return Err(R1CSError::FormatError);
+    }
+    Ok(decoded)
+}
+
 #[macro_export]
 macro_rules! vec_to_array {
     ( $typ:ident, $size:expr, $vec: ident) => {{
-- 
2.43.0


From 293ec4d1852ee5061da02e44afc633c1a80dacfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:20 +0000
Subject: [PATCH 13/16] verif hooks: read access to constraints and assignments
 under cfg(verif_hooks)

---
 src/r1cs/prover.rs   | 27 +++++++++++++++++++++++++++
 src/r1cs/verifier.rs | 16 ++++++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/src/r1cs/prover.rs b/src/r1cs/prover.rs
index 9ca93bf..a8885be 100644
--- a/src/r1cs/prover.rs
+++ b/src/r1cs/prover.rs
@@ -761,3 +761,30 @@ impl<'a, 'b> RandomizedConstraintSystem for RandomizingProver<'a, 'b> {
         self.prover.transcript.challenge_scalar(label)
     }
 }
+
+/// Read access for external verification tooling. Not part of the API.
+#[cfg(verif_hooks)]
+impl<'a, 'b> Prover<'a, 'b> {
+    pub fn verif_constraints(&self) -> &[LinearCombination] {
+        &self.constraints
+    }
+
+    /// Assignments of the left, right and output wires and of the committed values with their blindings
+    pub fn verif_assignments(
+        &self,
+    ) -> (
+        &[FieldElement],
+        &[FieldElement],
+        &[FieldElement],
+        &[FieldElement],
+        &[FieldElement],
+    ) {
+        (
+            self.a_L.as_slice(),
+            self.a_R.as_slice(),
+            self.a_O.as_slice(),
+            self.v.as_slice(),
+            self.v_blinding.as_slice(),
+        )
+    }
+}
diff --git a/src/r1cs/verifier.rs b/src/r1cs/verifier.rs
index d275aa7..f4e5212 100644
--- a/src/r1cs/verifier.rs
+++ b/src/r1cs/verifier.rs
@@ -607,3 +607,19 @@ impl<'a, 'b> RandomizedConstraintSystem for RandomizingVerifier<'a> {
         self.verifier.transcript.challenge_scalar(label)
     }
 }
+
+/// Read access for external verification tooling. Not part of the API.
+#[cfg(verif_hooks)]
+impl<'a> Verifier<'a> {
+    pub fn verif_constraints(&self) -> &[LinearCombination] {
+        &self.constraints
+    }
+
+    pub fn verif_num_multipliers(&self) -> usize {
+        self.num_vars
+    }
+
+    pub fn verif_commitments(&self) -> &[G1] {
+        &self.V
+    }
+}
-- 
2.43.0


From 871c069fd827db34a84782473988e31059e6b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:04 +0000
Subject: [PATCH 14/16] fix: set_membership_alt links the multiplied bit to the
 committed bit

vector_product_gadget re-allocated each bit without constraining it to be
the committed one. With all re-allocated bits 0 the constraints hold for
the value 0, so a proof that 0 is in a set not containing it was accepted.
---
 src/r1cs/gadgets/set_membership_alt.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/r1cs/gadgets/set_membership_alt.rs b/src/r1cs/gadgets/set_membership_alt.rs
index 55f0713..ac992b6 100644
--- a/src/r1cs/gadgets/set_membership_alt.rs
+++ b/src/r1cs/gadgets/set_membership_alt.rs
@@ -70,6 +70,8 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
                 .as_ref()
                 .map(|bit| (bit.clone(), field_element_from_u64(items[i]))),
         )?;
+        // `bit_var` is a re-allocation of `vector[i]`, without this constraint it can be anything
+        cs.constrain(bit_var - vector[i].variable);
         constrain_lc_with_scalar::<CS>(cs, item_var.into(), &field_element_from_u64(items[i]));
 
         let (_, _, o2) = cs.multiply(bit_var.into(), value.variable.into());
-- 
2.43.0


From b2c0e557c908815f0cfe399e231328fe4b9a93f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:14 +0000
Subject: [PATCH 15/16] fix: selecting 0 indices to modify panicked

get_indices_to_modify asked SHAKE for an empty output, which indexes out of
bounds. No index is selected now.
---
 src/r1cs/gadgets/randomizer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/r1cs/gadgets/randomizer.rs b/src/r1cs/gadgets/randomizer.rs
index 517b1da..6100ce6 100644
--- a/src/r1cs/gadgets/randomizer.rs
+++ b/src/r1cs/gadgets/randomizer.rs
@@ -49,7 +49,10 @@ pub fn get_indices_to_modify(
     // Generate twice the number of bytes needed for random numbers as there might be some duplicates when taking modulo data_size_as_big
     let target_byte_size = 2 * count_modified * MODBYTES;
     let mut target = vec![0u8; target_byte_size];
-    hasher.shake(&mut target.as_mut_slice(), target_byte_size);
+    // `shake` writes at least 1 byte
+    if !target.is_empty() {
+        hasher.shake(&mut target.as_mut_slice(), target_byte_size);
+    }
     let data_size_as_big = FieldElement::from(data_size as u64).to_bignum();
     let mut indices = HashSet::<FieldElement>::new();
     //for _ in 0..count_modified {
-- 
2.43.0


From 00677b599ba3bf00ac147b03ad05c288d5f4e5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:04 +0000
Subject: [PATCH 16/16] fix: absorb the identity into the transcript in one
 encoding

---
 src/transcript.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/transcript.rs b/src/transcript.rs
index c4d9e33..aac180b 100644
--- a/src/transcript.rs
+++ b/src/transcript.rs
@@ -49,7 +49,12 @@ impl TranscriptProtocol for Transcript {
     }
 
     fn commit_point(&mut self, label: &'static [u8], point: &G1) {
-        self.append_message(label, &point.to_bytes());
+        // Identity has many representations which differ in their bytes
+        if point.is_identity() {
+            self.append_message(label, &G1::identity().to_bytes());
+        } else {
+            self.append_message(label, &point.to_bytes());
+        }
     }
 
     fn challenge_scalar(&mut self, label: &'static [u8]) -> FieldElement {
-- 
2.43.0

