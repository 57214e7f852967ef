From 4686b0adc296c45400b5dce25df4aa7fcaff5948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 01/18] fix: use the result of the trace openings check in the
 verifier

---
 src/starks/verifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index d99d2c9..3b1e4fb 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -408,7 +408,7 @@ where
                 ];
 
                 // Verify openings Open(tⱼ(D_LDE), 𝜐₀)
-                proof
+                result &= proof
                     .lde_trace_merkle_roots
                     .iter()
                     .zip(&deep_poly_opening.lde_trace_merkle_proofs)
-- 
2.43.0


From 6eb7a2b2576dd72290dc1f5753370e647e116d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 02/18] fix: reject proofs with missing or truncated parts in
 the verifier

---
 src/starks/verifier.rs | 75 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 73 insertions(+), 2 deletions(-)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index 3b1e4fb..699e973 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -556,6 +556,71 @@ fn reconstruct_deep_composition_poly_evaluation<F: IsFFTField, A: AIR<Field = F>
     trace_term + h_1_term * &challenges.gamma_even + h_2_term * &challenges.gamma_odd
 }
 
+/// Checks that the trace length the proof declares has an evaluation domain in the field.
+fn has_valid_trace_length<F: IsFFTField>(
+    trace_length: usize,
+    proof_options: &ProofOptions,
+) -> bool {
+    trace_length.is_power_of_two()
+        && trace_length
+            .checked_mul(proof_options.blowup_factor as usize)
+            .map_or(false, |lde_size| {
+                lde_size.trailing_zeros() as u64 <= F::TWO_ADICITY
+            })
+}
+
+/// Checks that every commitment, opening and evaluation the next steps rely on is present,
+/// so that none of their checks is skipped because a part of the proof is missing.
+fn has_expected_shape<F, A>(air: &A, proof: &StarkProof<F>) -> bool
+where
+    F: IsFFTField,
+    A: AIR<Field = F>,
+{
+    let trace_columns = air.context().trace_columns;
+    let trace_commitments = if air.number_auxiliary_rap_columns() > 0 {
+        2
+    } else {
+        1
+    };
+    // The prover always commits to at least the first FRI layer.
+    let fri_layers = std::cmp::max(1, air.trace_length().trailing_zeros()) as usize;
+    let number_of_queries = air.options().fri_number_of_queries;
+    let lde_size = air.trace_length() * air.blowup_factor() as usize;
+    let lde_order = lde_size.trailing_zeros() as usize;
+
+    let frame = &proof.trace_ood_frame_evaluations;
+    frame.num_columns() == trace_columns
+        && frame.num_rows() == air.context().transition_offsets.len()
+        && proof.lde_trace_merkle_roots.len() == trace_commitments
+        && proof.fri_layers_merkle_roots.len() == fri_layers
+        && proof.query_list.len() == number_of_queries
+        && proof.deep_poly_openings.len() == number_of_queries
+        && proof.deep_poly_openings.iter().all(|opening| {
+            opening.lde_trace_evaluations.len() == trace_columns
+                && opening.lde_composition_poly_proof.merkle_path.len() == lde_order
+                && opening.lde_trace_merkle_proofs.len() == trace_commitments
+                && opening
+                    .lde_trace_merkle_proofs
+                    .iter()
+                    .all(|path| path.merkle_path.len() == lde_order)
+        })
+        && proof.query_list.iter().all(|query| {
+            query.layers_evaluations.len() == fri_layers
+                && query.layers_evaluations_sym.len() == fri_layers
+                && query.layers_auth_paths.len() == fri_layers
+                && query.layers_auth_paths_sym.len() == fri_layers
+                && query
+                    .layers_auth_paths
+                    .iter()
+                    .zip(&query.layers_auth_paths_sym)
+                    .enumerate()
+                    .all(|(layer, (path, path_sym))| {
+                        path.merkle_path.len() + layer == lde_order
+                            && path_sym.merkle_path.len() + layer == lde_order
+                    })
+        })
+}
+
 pub fn verify<F, A>(
     proof: &StarkProof<F>,
     pub_input: &A::PublicInputs,
@@ -566,8 +631,8 @@ where
     A: AIR<Field = F>,
     FieldElement<F>: ByteConversion,
 {
-    // Verify there are enough queries
-    if proof.query_list.len() < proof_options.fri_number_of_queries {
+    if !has_valid_trace_length::<F>(proof.trace_length, proof_options) {
+        error!("The trace length of the proof is not valid");
         return false;
     }
 
@@ -578,6 +643,12 @@ where
 
     let mut transcript = step_1_transcript_initialization();
     let air = A::new(proof.trace_length, pub_input, proof_options);
+
+    if !has_expected_shape(&air, proof) {
+        error!("The proof has missing or unexpected parts");
+        return false;
+    }
+
     let domain = Domain::new(&air);
 
     let challenges =
-- 
2.43.0


From 139de3dc3dbe1fb095be59bc43cc2516227b6e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 03/18] fix: use the range-check builtin layout only when there
 is a range-check segment

---
 src/cairo/air.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 75c9bad..8cb55e5 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -620,7 +620,9 @@ impl AIR for CairoAIR {
         // layouts functionality. The `has_rc_builtin` boolean should not exist, we will know the
         // layout from the Cairo public inputs directly, and the number of constraints and columns
         // will be enforced through that.
-        let has_rc_builtin = !pub_inputs.memory_segments.is_empty();
+        let has_rc_builtin = pub_inputs
+            .memory_segments
+            .contains_key(&MemorySegment::RangeCheck);
         if has_rc_builtin {
             trace_columns += 8 + 1; // 8 columns for each rc of the range-check builtin values decomposition, 1 for the values
             transition_degrees.push(1); // Range check builtin constraint
-- 
2.43.0


From 5d62d768f5dc79d9d68593732e9b4b84f614bbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 04/18] fix: leave only program and output cells out of the
 memory holes

---
 src/cairo/execution_trace.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cairo/execution_trace.rs b/src/cairo/execution_trace.rs
index 4a243aa..f362726 100644
--- a/src/cairo/execution_trace.rs
+++ b/src/cairo/execution_trace.rs
@@ -71,7 +71,14 @@ pub fn build_main_trace(
     public_input.range_check_max = Some(rc_max);
     fill_rc_holes(&mut main_trace, rc_holes);
 
-    let mut memory_holes = get_memory_holes(&address_cols, public_input.public_memory.len());
+    // Public memory also holds the output cells, which are not part of the program segment.
+    let output_len = public_input
+        .memory_segments
+        .get(&MemorySegment::Output)
+        .map_or(0, |range| (range.end - range.start) as usize);
+    let program_len = public_input.public_memory.len() - output_len;
+    let mut memory_holes = get_memory_holes(&address_cols, program_len);
+    memory_holes.retain(|addr| !public_input.public_memory.contains_key(addr));
 
     if !memory_holes.is_empty() {
         fill_memory_holes(&mut main_trace, &mut memory_holes);
-- 
2.43.0


From 11c89c13622e4f8711c9e7381814cc3927bfaeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 05/18] fix: reject boundary constraints on steps past the end
 of the trace

---
 src/starks/verifier.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index 699e973..e1307f2 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -221,6 +221,14 @@ fn step_2_verify_claimed_composition_polynomial<F: IsFFTField, A: AIR<Field = F>
     //let n_trace_cols = air.context().trace_columns;
     // special cases.
     let trace_length = air.trace_length();
+    // Steps past the end of the trace would wrap around to its first rows.
+    if boundary_constraints
+        .constraints
+        .iter()
+        .any(|constraint| constraint.step >= trace_length)
+    {
+        return false;
+    }
     let composition_poly_degree_bound = air.composition_poly_degree_bound();
     let boundary_term_degree_adjustment = composition_poly_degree_bound - trace_length;
     let number_of_b_constraints = boundary_constraints.constraints.len();
-- 
2.43.0


From d5207fdccabb51ad58222ed92b85a0119c3efb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 06/18] fix: reject incomplete public inputs instead of
 panicking in verify_cairo_proof

---
 src/cairo/air.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 8cb55e5..b831b4f 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -9,6 +9,8 @@ use lambdaworks_math::{
     traits::{ByteConversion, Deserializable, Serializable},
 };
 
+use log::error;
+
 use crate::{
     starks::{
         constraints::boundary::{BoundaryConstraint, BoundaryConstraints},
@@ -1180,6 +1182,14 @@ pub fn verify_cairo_proof(
     pub_input: &PublicInputs,
     proof_options: &ProofOptions,
 ) -> bool {
+    // Without these the boundary constraints of the AIR are not defined.
+    if pub_input.num_steps == 0
+        || pub_input.range_check_min.is_none()
+        || pub_input.range_check_max.is_none()
+    {
+        error!("The public inputs are not complete");
+        return false;
+    }
     verify::<Stark252PrimeField, CairoAIR>(proof, pub_input, proof_options)
 }
 
-- 
2.43.0


From eab5df734c5c65aa4ea4fc618619acd2c7bb8d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 07/18] fix: return an error when the range-check limits of
 serialized public inputs are truncated

---
 src/cairo/air.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index b831b4f..51d1cde 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -333,7 +333,9 @@ impl Deserializable for PublicInputs {
             1 => {
                 bytes = &bytes[1..];
                 let range_check_min = u16::from_be_bytes(
-                    bytes[..2]
+                    bytes
+                        .get(..2)
+                        .ok_or(DeserializationError::InvalidAmountOfBytes)?
                         .try_into()
                         .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
                 );
@@ -354,7 +356,9 @@ impl Deserializable for PublicInputs {
             1 => {
                 bytes = &bytes[1..];
                 let range_check_max = u16::from_be_bytes(
-                    bytes[..2]
+                    bytes
+                        .get(..2)
+                        .ok_or(DeserializationError::InvalidAmountOfBytes)?
                         .try_into()
                         .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
                 );
-- 
2.43.0


From 143f38a3a9060655ae641639468871a3a2fa1ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 08/18] fix: do not underflow when the proof options provide no
 security bits

---
 src/starks/proof/options.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/starks/proof/options.rs b/src/starks/proof/options.rs
index b45c128..e043f71 100644
--- a/src/starks/proof/options.rs
+++ b/src/starks/proof/options.rs
@@ -85,8 +85,8 @@ impl ProofOptions {
 
         let num_bits_blowup_factor = blowup_factor.trailing_zeros() as usize;
 
-        if security_target as usize
-            >= grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries - 1
+        if security_target as usize + 1
+            >= grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries
         {
             return Err(InsecureOptionError::SecurityBits);
         }
-- 
2.43.0


From 78d8892d2dcbdecd2c10c83a96beb4fd94c3df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 09/18] fix: reject instead of require options below the
 provable security target

---
 src/starks/proof/options.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/starks/proof/options.rs b/src/starks/proof/options.rs
index e043f71..c01d34e 100644
--- a/src/starks/proof/options.rs
+++ b/src/starks/proof/options.rs
@@ -111,10 +111,10 @@ impl ProofOptions {
     ) -> Result<Self, InsecureOptionError> {
         Self::check_field_security::<F>(security_target)?;
 
-        let num_bits_blowup_factor = blowup_factor.leading_zeros() as usize;
+        let num_bits_blowup_factor = blowup_factor.trailing_zeros() as usize;
 
         if (security_target as usize)
-            < grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries / 2
+            > grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries / 2
         {
             return Err(InsecureOptionError::SecurityBits);
         }
-- 
2.43.0


From e109c1c01a8bef8886da712b1eb39bd1a3faeef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 10/18] fix: serialize FRI decommitments without layer
 evaluations

---
 src/starks/fri/fri_decommit.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/starks/fri/fri_decommit.rs b/src/starks/fri/fri_decommit.rs
index 74da883..e06235d 100644
--- a/src/starks/fri/fri_decommit.rs
+++ b/src/starks/fri/fri_decommit.rs
@@ -27,7 +27,11 @@ where
         for proof in &self.layers_auth_paths_sym {
             bytes.extend(serialize_proof(proof));
         }
-        let felt_len = self.layers_evaluations[0].to_bytes_be().len();
+        let felt_len = self
+            .layers_evaluations
+            .first()
+            .or(self.layers_evaluations_sym.first())
+            .map_or(0, |evaluation| evaluation.to_bytes_be().len());
         bytes.extend(felt_len.to_be_bytes());
         bytes.extend(self.layers_evaluations_sym.len().to_be_bytes());
         for evaluation in &self.layers_evaluations_sym {
-- 
2.43.0


From 462dbc98d6cd66dc05c6323321cf51668eb4b00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 11/18] fix: report an unreadable Cairo 1 contract as an error
 instead of panicking

---
 src/cairo/runner/run.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cairo/runner/run.rs b/src/cairo/runner/run.rs
index 22bfc5b..0b0727d 100644
--- a/src/cairo/runner/run.rs
+++ b/src/cairo/runner/run.rs
@@ -32,6 +32,8 @@ pub enum Error {
     VirtualMachine(#[from] VirtualMachineError),
     #[error(transparent)]
     Trace(#[from] TraceError),
+    #[error("Failed to parse the Cairo 1 contract")]
+    CasmContract(#[from] serde_json::Error),
 }
 
 /// Indicates the version of the Cairo program.
@@ -100,7 +102,7 @@ pub fn run_program(
             (vm, runner)
         }
         CairoVersion::V1 => {
-            let casm_contract: CasmContractClass = serde_json::from_slice(program_content).unwrap();
+            let casm_contract: CasmContractClass = serde_json::from_slice(program_content)?;
             let program: Program = casm_contract.clone().try_into().unwrap();
             let mut runner = CairoRunner::new(
                 &(casm_contract.clone().try_into().unwrap()),
-- 
2.43.0


From c05b15afb3d3210cee3c7fe75ae44b260da26250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 12/18] fix: divide by the frame offsets in the verifier's DEEP
 consistency check

---
 src/starks/verifier.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index e1307f2..3d44a3e 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -431,10 +431,13 @@ where
 
                 // DEEP consistency check
                 // Verify that Deep(x) is constructed correctly
-                let mut divisors = (0..proof.trace_ood_frame_evaluations.num_rows())
-                    .map(|row_idx| {
+                let mut divisors = air
+                    .context()
+                    .transition_offsets
+                    .iter()
+                    .map(|offset| {
                         &domain.lde_roots_of_unity_coset[*iota_n]
-                            - &challenges.z * primitive_root.pow(row_idx as u64)
+                            - &challenges.z * primitive_root.pow(*offset as u64)
                     })
                     .collect::<Vec<FieldElement<F>>>();
                 FieldElement::inplace_batch_inverse(&mut divisors);
-- 
2.43.0


From d33962661286546dbdf2b93e231074dd6fc072e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 13/18] fix: do not overflow when the options ask for a huge
 number of queries

---
 src/starks/proof/options.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/starks/proof/options.rs b/src/starks/proof/options.rs
index c01d34e..b7cb0cf 100644
--- a/src/starks/proof/options.rs
+++ b/src/starks/proof/options.rs
@@ -86,7 +86,9 @@ impl ProofOptions {
         let num_bits_blowup_factor = blowup_factor.trailing_zeros() as usize;
 
         if security_target as usize + 1
-            >= grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries
+            >= num_bits_blowup_factor
+                .saturating_mul(fri_number_of_queries)
+                .saturating_add(grinding_factor as usize)
         {
             return Err(InsecureOptionError::SecurityBits);
         }
@@ -114,7 +116,8 @@ impl ProofOptions {
         let num_bits_blowup_factor = blowup_factor.trailing_zeros() as usize;
 
         if (security_target as usize)
-            > grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries / 2
+            > grinding_factor as usize
+                + num_bits_blowup_factor.saturating_mul(fri_number_of_queries) / 2
         {
             return Err(InsecureOptionError::SecurityBits);
         }
-- 
2.43.0


From 2af79ba6a3e9eda43b22a048812aab6d5800be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:31 +0000
Subject: [PATCH 14/18] fix: report a failed Cairo 1 run as an error instead of
 panicking

---
 src/cairo/runner/run.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/cairo/runner/run.rs b/src/cairo/runner/run.rs
index 0b0727d..05a4e22 100644
--- a/src/cairo/runner/run.rs
+++ b/src/cairo/runner/run.rs
@@ -103,7 +103,10 @@ pub fn run_program(
         }
         CairoVersion::V1 => {
             let casm_contract: CasmContractClass = serde_json::from_slice(program_content)?;
-            let program: Program = casm_contract.clone().try_into().unwrap();
+            let program: Program = casm_contract
+                .clone()
+                .try_into()
+                .map_err(CairoRunError::from)?;
             let mut runner = CairoRunner::new(
                 &(casm_contract.clone().try_into().unwrap()),
                 layout.as_str(),
@@ -175,17 +178,15 @@ pub fn run_program(
             // We assume entrypoint 0 for only one function
             let mut run_resources = RunResources::default();
 
-            runner
-                .run_from_entrypoint(
-                    0,
-                    &entrypoint_args,
-                    &mut run_resources,
-                    true,
-                    Some(program.data_len() + program_extra_data.len()),
-                    &mut vm,
-                    &mut hint_processor,
-                )
-                .unwrap();
+            runner.run_from_entrypoint(
+                0,
+                &entrypoint_args,
+                &mut run_resources,
+                true,
+                Some(program.data_len() + program_extra_data.len()),
+                &mut vm,
+                &mut hint_processor,
+            )?;
 
             let _ = runner.relocate(&mut vm, true);
 
-- 
2.43.0


From ae487166d1f9ff5ab4b1a2fb1bf68e64a989e85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 15/18] fix: do not compute the whole evaluation domain in the
 verifier

The proof declares the trace length, so a small malformed proof could make
verification abort on an enormous allocation.
---
 src/starks/domain.rs   | 44 ++++++++++++++++++++++++++++++++++++++++++
 src/starks/verifier.rs | 38 +++++++++++++++++-------------------
 2 files changed, 62 insertions(+), 20 deletions(-)

diff --git a/src/starks/domain.rs b/src/starks/domain.rs
index d35b2f6..398f680 100644
--- a/src/starks/domain.rs
+++ b/src/starks/domain.rs
@@ -8,6 +8,7 @@ use super::traits::AIR;
 pub struct Domain<F: IsFFTField> {
     pub(crate) root_order: u32,
     pub(crate) lde_roots_of_unity_coset: Vec<FieldElement<F>>,
+    #[allow(dead_code)]
     pub(crate) lde_root_order: u32,
     pub(crate) trace_primitive_root: FieldElement<F>,
     pub(crate) trace_roots_of_unity: Vec<FieldElement<F>>,
@@ -55,3 +56,46 @@ impl<F: IsFFTField> Domain<F> {
         }
     }
 }
+
+/// What the verifier needs from the evaluation domains. Their elements are computed on demand:
+/// the verifier only uses a few of them, and a proof declares the size of the domains before
+/// anything else about it is known to be right.
+pub struct VerifierDomain<F: IsFFTField> {
+    pub(crate) root_order: u32,
+    pub(crate) lde_root_order: u32,
+    pub(crate) trace_primitive_root: FieldElement<F>,
+    lde_primitive_root: FieldElement<F>,
+    coset_offset: FieldElement<F>,
+}
+
+impl<F: IsFFTField> VerifierDomain<F> {
+    pub fn new<A>(air: &A) -> Self
+    where
+        A: AIR<Field = F>,
+    {
+        let root_order = air.trace_length().trailing_zeros();
+        let lde_root_order =
+            (air.trace_length() * air.options().blowup_factor as usize).trailing_zeros();
+
+        Self {
+            root_order,
+            lde_root_order,
+            trace_primitive_root: F::get_primitive_root_of_unity(root_order as u64).unwrap(),
+            lde_primitive_root: F::get_primitive_root_of_unity(lde_root_order as u64).unwrap(),
+            coset_offset: FieldElement::<F>::from(air.options().coset_offset),
+        }
+    }
+
+    pub(crate) fn lde_element(&self, index: usize) -> FieldElement<F> {
+        &self.coset_offset * self.lde_primitive_root.pow(index)
+    }
+
+    pub(crate) fn is_in_trace_domain(&self, element: &FieldElement<F>) -> bool {
+        element.pow(1_usize << self.root_order) == FieldElement::one()
+    }
+
+    pub(crate) fn is_in_lde_domain(&self, element: &FieldElement<F>) -> bool {
+        let lde_size = 1_usize << self.lde_root_order;
+        element.pow(lde_size) == self.coset_offset.pow(lde_size)
+    }
+}
diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index 3d44a3e..668e2b0 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -20,12 +20,12 @@ use lambdaworks_math::{
 
 use super::{
     config::{BatchedMerkleTreeBackend, FriMerkleTreeBackend},
-    domain::Domain,
+    domain::VerifierDomain,
     fri::fri_decommit::FriDecommitment,
     grinding::hash_transcript_with_int_and_get_leading_zeros,
     proof::{options::ProofOptions, stark::StarkProof},
     traits::AIR,
-    transcript::{batch_sample_challenges, sample_z_ood, transcript_to_field, transcript_to_usize},
+    transcript::{batch_sample_challenges, transcript_to_field, transcript_to_usize},
 };
 
 #[cfg(feature = "test_fiat_shamir")]
@@ -59,7 +59,7 @@ where
 fn step_1_replay_rounds_and_recover_challenges<F, A, T>(
     air: &A,
     proof: &StarkProof<F>,
-    domain: &Domain<F>,
+    domain: &VerifierDomain<F>,
     transcript: &mut T,
 ) -> Challenges<F, A>
 where
@@ -122,11 +122,12 @@ where
     // ===================================
 
     // >>>> Send challenge: z
-    let z = sample_z_ood(
-        &domain.lde_roots_of_unity_coset,
-        &domain.trace_roots_of_unity,
-        transcript,
-    );
+    let z = loop {
+        let value = transcript_to_field(transcript);
+        if !domain.is_in_lde_domain(&value) && !domain.is_in_trace_domain(&value) {
+            break value;
+        }
+    };
 
     // <<<< Receive value: H₁(z²)
     transcript.append(&proof.composition_poly_even_ood_evaluation.to_bytes_be());
@@ -208,7 +209,7 @@ where
 fn step_2_verify_claimed_composition_polynomial<F: IsFFTField, A: AIR<Field = F>>(
     air: &A,
     proof: &StarkProof<F>,
-    domain: &Domain<F>,
+    domain: &VerifierDomain<F>,
     challenges: &Challenges<F, A>,
 ) -> bool {
     // BEGIN TRACE <-> Composition poly consistency evaluation check
@@ -275,9 +276,7 @@ fn step_2_verify_claimed_composition_polynomial<F: IsFFTField, A: AIR<Field = F>
     let denominator = (&challenges.z.pow(trace_length) - FieldElement::<F>::one()).inv();
 
     let exemption = air
-        .transition_exemptions_verifier(
-            domain.trace_roots_of_unity.iter().last().expect("has last"),
-        )
+        .transition_exemptions_verifier(&domain.trace_primitive_root.pow(trace_length - 1))
         .iter()
         .map(|poly| poly.evaluate(&challenges.z))
         .collect::<Vec<FieldElement<F>>>();
@@ -326,7 +325,7 @@ fn step_2_verify_claimed_composition_polynomial<F: IsFFTField, A: AIR<Field = F>
 
 fn step_3_verify_fri<F, A>(
     proof: &StarkProof<F>,
-    domain: &Domain<F>,
+    domain: &VerifierDomain<F>,
     challenges: &Challenges<F, A>,
 ) -> bool
 where
@@ -339,8 +338,7 @@ where
     let mut evaluation_point_inverse = challenges
         .iotas
         .iter()
-        .map(|iota| &domain.lde_roots_of_unity_coset[*iota])
-        .cloned()
+        .map(|iota| domain.lde_element(*iota))
         .collect::<Vec<FieldElement<F>>>();
     FieldElement::inplace_batch_inverse(&mut evaluation_point_inverse);
     proof
@@ -366,7 +364,7 @@ where
 fn step_4_verify_deep_composition_polynomial<F: IsFFTField, A: AIR<Field = F>>(
     air: &A,
     proof: &StarkProof<F>,
-    domain: &Domain<F>,
+    domain: &VerifierDomain<F>,
     challenges: &Challenges<F, A>,
 ) -> bool
 where
@@ -377,7 +375,7 @@ where
     let mut denom_inv = challenges
         .iotas
         .iter()
-        .map(|iota_n| &domain.lde_roots_of_unity_coset[*iota_n] - z_squared)
+        .map(|iota_n| domain.lde_element(*iota_n) - z_squared)
         .collect::<Vec<FieldElement<F>>>();
     FieldElement::inplace_batch_inverse(&mut denom_inv);
 
@@ -436,7 +434,7 @@ where
                     .transition_offsets
                     .iter()
                     .map(|offset| {
-                        &domain.lde_roots_of_unity_coset[*iota_n]
+                        domain.lde_element(*iota_n)
                             - &challenges.z * primitive_root.pow(*offset as u64)
                     })
                     .collect::<Vec<FieldElement<F>>>();
@@ -456,7 +454,7 @@ fn verify_query_and_sym_openings<F: IsField + IsFFTField>(
     zetas: &[FieldElement<F>],
     iota: usize,
     fri_decommitment: &FriDecommitment<F>,
-    domain: &Domain<F>,
+    domain: &VerifierDomain<F>,
     evaluation_point: FieldElement<F>,
     two_inv: &FieldElement<F>,
 ) -> bool
@@ -660,7 +658,7 @@ where
         return false;
     }
 
-    let domain = Domain::new(&air);
+    let domain = VerifierDomain::new(&air);
 
     let challenges =
         step_1_replay_rounds_and_recover_challenges(&air, proof, &domain, &mut transcript);
-- 
2.43.0


From f285809018551f1b893303ba3389c36e2b44a216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:23 +0000
Subject: [PATCH 16/18] fix: reject a zero coset offset in the verifier instead
 of dividing by zero

---
 src/starks/verifier.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index 668e2b0..f3ce9ba 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -645,6 +645,11 @@ where
         return false;
     }
 
+    if FieldElement::<F>::from(proof_options.coset_offset) == FieldElement::zero() {
+        error!("The evaluation domain of a zero coset offset is degenerate");
+        return false;
+    }
+
     #[cfg(feature = "instruments")]
     println!("- Started step 1: Recover challenges");
     #[cfg(feature = "instruments")]
-- 
2.43.0


From be1020b5fbae32d2955cde5acce6df31f4bb2b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 17/18] fix: do not panic on command-line arguments that are
 not valid Unicode

---
 src/main.rs | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1f95202..de9dd94 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -5,15 +5,17 @@ use lambdaworks_stark::cairo::runner::run::{generate_prover_args, CairoVersion};
 use lambdaworks_stark::starks::proof::options::ProofOptions;
 use lambdaworks_stark::starks::proof::stark::StarkProof;
 use std::env;
+use std::ffi::OsString;
+use std::path::Path;
 use std::time::Instant;
 
 fn generate_proof(
-    input_path: &String,
+    input_path: &Path,
     proof_options: &ProofOptions,
 ) -> Option<(StarkProof<Stark252PrimeField>, PublicInputs)> {
     let timer = Instant::now();
 
-    let cairo_version = if input_path.contains(".casm") {
+    let cairo_version = if input_path.to_string_lossy().contains(".casm") {
         println!("Running casm on CairoVM and generating trace ...");
         CairoVersion::V1
     } else {
@@ -22,7 +24,7 @@ fn generate_proof(
     };
 
     let Ok(program_content) = std::fs::read(input_path) else {
-        println!("Error opening {input_path} file");
+        println!("Error opening {} file", input_path.display());
         return None;
     };
 
@@ -72,24 +74,25 @@ fn verify_proof(
 fn main() {
     let proof_options = ProofOptions::default_test_options();
 
-    let args: Vec<String> = env::args().collect();
+    // Paths are not necessarily valid Unicode.
+    let args: Vec<OsString> = env::args_os().collect();
 
     if args.len() < 2 {
         println!("Usage: cargo run <command> [arguments]");
         return;
     }
 
-    let command = &args[1];
+    let command = args[1].to_string_lossy();
 
-    match command.as_str() {
+    match command.as_ref() {
         "prove" => {
             if args.len() < 4 {
                 println!("Usage: cargo run prove <input_path> <output_path>");
                 return;
             }
 
-            let input_path = &args[2];
-            let output_path = &args[3];
+            let input_path = Path::new(&args[2]);
+            let output_path = Path::new(&args[3]);
 
             let Some((proof, pub_inputs)) = generate_proof(input_path, &proof_options) else {
                 return;
@@ -102,10 +105,10 @@ fn main() {
             bytes.extend(pub_inputs.serialize());
 
             let Ok(()) = std::fs::write(output_path, bytes) else {
-                println!("Error writing proof to file: {output_path}");
+                println!("Error writing proof to file: {}", output_path.display());
                 return;
             };
-            println!("Proof written to {output_path}");
+            println!("Proof written to {}", output_path.display());
         }
         "verify" => {
             if args.len() < 3 {
@@ -113,30 +116,30 @@ fn main() {
                 return;
             }
 
-            let input_path = &args[2];
+            let input_path = Path::new(&args[2]);
             let Ok(program_content) = std::fs::read(input_path) else {
-                println!("Error opening {input_path} file");
+                println!("Error opening {} file", input_path.display());
                 return;
             };
             let mut bytes = program_content.as_slice();
             if bytes.len() < 8 {
-                println!("Error reading proof from file: {input_path}");
+                println!("Error reading proof from file: {}", input_path.display());
                 return;
             }
             let proof_len = usize::from_be_bytes(bytes[0..8].try_into().unwrap());
             bytes = &bytes[8..];
             if bytes.len() < proof_len {
-                println!("Error reading proof from file: {input_path}");
+                println!("Error reading proof from file: {}", input_path.display());
                 return;
             }
             let Ok(proof) = StarkProof::<Stark252PrimeField>::deserialize(&bytes[0..proof_len]) else {
-                println!("Error reading proof from file: {input_path}");
+                println!("Error reading proof from file: {}", input_path.display());
                 return;
             };
             bytes = &bytes[proof_len..];
 
             let Ok(pub_inputs) = PublicInputs::deserialize(bytes) else {
-                println!("Error reading proof from file: {input_path}");
+                println!("Error reading proof from file: {}", input_path.display());
                 return;
             };
 
@@ -148,7 +151,7 @@ fn main() {
                 return;
             }
 
-            let input_path = &args[2];
+            let input_path = Path::new(&args[2]);
             let Some((proof, pub_inputs)) = generate_proof(input_path, &proof_options) else {
                 return;
             };
-- 
2.43.0


From e438797aed40463b6c597fa08e249648dc6a2b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:30 +0000
Subject: [PATCH 18/18] fix: prove and verify statements without transition
 constraints

The largest of no transition degrees or exemptions is none: only boundary
constraints take part in the composition polynomial then.
---
 src/starks/constraints/evaluator.rs | 2 +-
 src/starks/traits.rs                | 5 +++--
 src/starks/verifier.rs              | 5 +++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/starks/constraints/evaluator.rs b/src/starks/constraints/evaluator.rs
index 33b799f..01abb6b 100644
--- a/src/starks/constraints/evaluator.rs
+++ b/src/starks/constraints/evaluator.rs
@@ -131,7 +131,7 @@ impl<F: IsFFTField, A: AIR + AIR<Field = F>> ConstraintEvaluator<F, A> {
             evaluate_transition_exemptions(transition_exemptions, domain);
         let num_exemptions = self.air.context().num_transition_exemptions;
         let context = self.air.context();
-        let max_transition_degree = *context.transition_degrees.iter().max().unwrap();
+        let max_transition_degree = context.transition_degrees.iter().max().copied().unwrap_or(0);
 
         #[cfg(feature = "parallel")]
         let degree_adjustments_iter = (1..=max_transition_degree).into_par_iter();
diff --git a/src/starks/traits.rs b/src/starks/traits.rs
index e318931..03807ff 100644
--- a/src/starks/traits.rs
+++ b/src/starks/traits.rs
@@ -106,8 +106,9 @@ pub trait AIR: Clone {
             .transition_exemptions
             .iter()
             .max()
-            .expect("has maximum");
-        (1..=*max)
+            .copied()
+            .unwrap_or(0);
+        (1..=max)
             .map(|index| {
                 (1..=index).fold(
                     Polynomial::new_monomial(FieldElement::one(), 0),
diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index f3ce9ba..8fc630f 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -286,8 +286,9 @@ fn step_2_verify_claimed_composition_polynomial<F: IsFFTField, A: AIR<Field = F>
         .transition_degrees()
         .iter()
         .max()
-        .expect("has maximum degree");
-    let degree_adjustments = (1..=*max_degree)
+        .copied()
+        .unwrap_or(0);
+    let degree_adjustments = (1..=max_degree)
         .map(|transition_degree| {
             let degree_adjustment =
                 composition_poly_degree_bound - (trace_length * (transition_degree - 1));
-- 
2.43.0

