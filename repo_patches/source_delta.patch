From 14c3a5354281191fa012a728c64019d69f992c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:43 +0000
Subject: [PATCH 01/12] verif-hooks: off-by-default feature exposing opaque
 proof and polynomial types to monitors

---
 ip_proofs/Cargo.toml                                |  2 ++
 ip_proofs/src/applications/groth16_aggregation.rs   |  6 ++++++
 ip_proofs/src/applications/poly_commit/mod.rs       | 10 ++++++++++
 .../src/applications/poly_commit/transparent.rs     | 10 ++++++++++
 sipp/Cargo.toml                                     |  2 ++
 sipp/src/lib.rs                                     | 13 +++++++++++++
 6 files changed, 43 insertions(+)

diff --git a/ip_proofs/Cargo.toml b/ip_proofs/Cargo.toml
index 5abdf39..8465cba 100644
--- a/ip_proofs/Cargo.toml
+++ b/ip_proofs/Cargo.toml
@@ -40,3 +40,5 @@ blake2 = "0.9"
 default = [ "parallel" ]
 parallel = [ "rayon", "ark-ec/parallel", "ark-ff/parallel", "ark-poly/parallel", "ark-std/parallel", "ark-groth16/parallel" ]
 print-trace = [ "ark-std/print-trace" ]
+# Off by default: lets external monitors build and take apart otherwise opaque values.
+verif-hooks = []
diff --git a/ip_proofs/src/applications/groth16_aggregation.rs b/ip_proofs/src/applications/groth16_aggregation.rs
index 91b2592..ee3376a 100644
--- a/ip_proofs/src/applications/groth16_aggregation.rs
+++ b/ip_proofs/src/applications/groth16_aggregation.rs
@@ -1,6 +1,8 @@
 use ark_ec::pairing::{Pairing, PairingOutput};
 use ark_ff::{Field, One};
 use ark_groth16::{Proof, VerifyingKey};
+#[cfg(feature = "verif-hooks")]
+use ark_serialize::CanonicalDeserialize;
 use ark_serialize::CanonicalSerialize;
 
 use ark_std::rand::Rng;
@@ -55,6 +57,10 @@ type MultiExpInnerProductCProof<P, D> = TIPAWithSSMProof<
     D,
 >;
 
+#[cfg_attr(
+    feature = "verif-hooks",
+    derive(CanonicalSerialize, CanonicalDeserialize)
+)]
 pub struct AggregateProof<P: Pairing, D: Digest> {
     com_a: PairingOutput<P>,
     com_b: PairingOutput<P>,
diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index 0b045d0..1d8a3a2 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -7,6 +7,8 @@ use ark_ff::{Field, One, UniformRand, Zero};
 use ark_poly::polynomial::{
     univariate::DensePolynomial as UnivariatePolynomial, DenseUVPolynomial, Polynomial,
 };
+#[cfg(feature = "verif-hooks")]
+use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
 
 use ark_std::{end_timer, start_timer};
 use std::marker::PhantomData;
@@ -117,6 +119,10 @@ impl<P: Pairing> KZG<P> {
     }
 }
 
+#[cfg_attr(
+    feature = "verif-hooks",
+    derive(CanonicalSerialize, CanonicalDeserialize)
+)]
 pub struct BivariatePolynomial<F: Field> {
     y_polynomials: Vec<UnivariatePolynomial<F>>,
 }
@@ -138,6 +144,10 @@ impl<F: Field> BivariatePolynomial<F> {
     }
 }
 
+#[cfg_attr(
+    feature = "verif-hooks",
+    derive(CanonicalSerialize, CanonicalDeserialize)
+)]
 pub struct OpeningProof<P: Pairing, D: Digest> {
     ip_proof: PolynomialEvaluationSecondTierIPAProof<P, D>,
     y_eval_comm: P::G1,
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index edd1935..2fa3362 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -3,6 +3,8 @@ use ark_ff::{Field, Zero};
 use ark_poly::polynomial::{
     univariate::DensePolynomial as UnivariatePolynomial, DenseUVPolynomial, Polynomial,
 };
+#[cfg(feature = "verif-hooks")]
+use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
 
 use ark_std::{end_timer, start_timer};
 use std::marker::PhantomData;
@@ -55,6 +57,10 @@ type PolynomialEvaluationFirstTierIPAProof<P, D> = GIPAProof<
     D,
 >;
 
+#[cfg_attr(
+    feature = "verif-hooks",
+    derive(CanonicalSerialize, CanonicalDeserialize)
+)]
 pub struct BivariatePolynomial<F: Field> {
     y_polynomials: Vec<UnivariatePolynomial<F>>,
 }
@@ -76,6 +82,10 @@ impl<F: Field> BivariatePolynomial<F> {
     }
 }
 
+#[cfg_attr(
+    feature = "verif-hooks",
+    derive(CanonicalSerialize, CanonicalDeserialize)
+)]
 pub struct OpeningProof<P: Pairing, D: Digest> {
     second_tier_ip_proof: PolynomialEvaluationSecondTierIPAProof<P, D>,
     y_eval_comm: P::G1,
diff --git a/sipp/Cargo.toml b/sipp/Cargo.toml
index 87069de..3ff1fdd 100644
--- a/sipp/Cargo.toml
+++ b/sipp/Cargo.toml
@@ -39,3 +39,5 @@ ark-bls12-377 = { version = "0.4", features = [ "curve" ] }
 [features]
 default = [ "parallel" ]
 parallel = [ "ark-ec/parallel", "ark-ff/parallel", "ark-std/parallel" ]
+# Off by default: lets external monitors build and take apart otherwise opaque values.
+verif-hooks = []
diff --git a/sipp/src/lib.rs b/sipp/src/lib.rs
index fa47091..1499a45 100644
--- a/sipp/src/lib.rs
+++ b/sipp/src/lib.rs
@@ -33,6 +33,19 @@ pub struct Proof<E: Pairing> {
     gt_elems: Vec<(PairingOutput<E>, PairingOutput<E>)>,
 }
 
+#[cfg(feature = "verif-hooks")]
+impl<E: Pairing> Proof<E> {
+    /// Build a proof from its elements (monitoring hook).
+    pub fn from_gt_elems(gt_elems: Vec<(PairingOutput<E>, PairingOutput<E>)>) -> Self {
+        Self { gt_elems }
+    }
+
+    /// The elements of the proof (monitoring hook).
+    pub fn gt_elems(&self) -> &[(PairingOutput<E>, PairingOutput<E>)] {
+        &self.gt_elems
+    }
+}
+
 impl<E, D> SIPP<E, D>
 where
     E: Pairing,
-- 
2.43.0


From 5eaa534bdceee2c230f59fd55ff77d7af49724b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 02/12] fix: bind the committed statement into the GIPA
 challenges

The recursive challenges were derived from the round messages alone, so a
prover could choose any of the three statement commitments after the proof
(e.g. com_t = commit(base product) - sum of the rounds) and have a false
statement accepted. Hash the three commitments into every round.
---
 ip_proofs/src/gipa.rs                         | 59 +++++++++++++++++--
 .../src/tipa/structured_scalar_message.rs     |  2 +-
 2 files changed, 56 insertions(+), 5 deletions(-)

diff --git a/ip_proofs/src/gipa.rs b/ip_proofs/src/gipa.rs
index fceb9dd..519bb98 100644
--- a/ip_proofs/src/gipa.rs
+++ b/ip_proofs/src/gipa.rs
@@ -127,8 +127,12 @@ where
             return Err(Box::new(InnerProductArgumentError::InnerProductInvalid));
         }
 
-        let (proof, _) =
-            Self::prove_with_aux((values.0, values.1), (ck.0, ck.1, &vec![ck.2.clone()]))?;
+        let statement = Self::_statement_transcript(com, &[])?;
+        let (proof, _) = Self::_prove(
+            (values.0.to_vec(), values.1.to_vec()),
+            (ck.0.to_vec(), ck.1.to_vec(), vec![ck.2.clone()]),
+            &statement,
+        )?;
         Ok(proof)
     }
 
@@ -148,6 +152,7 @@ where
         let (base_com, transcript) = Self::_compute_recursive_challenges(
             (com.0.clone(), com.1.clone(), com.2.clone()),
             proof,
+            &[],
         )?;
         // Calculate base commitment keys
         let (ck_a_base, ck_b_base) = Self::_compute_final_commitment_keys(ck, &transcript)?;
@@ -168,19 +173,57 @@ where
             GIPAAux<IP, LMC, RMC, IPC, D>,
         ),
         Error,
+    > {
+        Self::prove_with_context(values, ck, &[])
+    }
+
+    // The context holds the part of the statement that is not committed to
+    pub(crate) fn prove_with_context(
+        values: (&[IP::LeftMessage], &[IP::RightMessage]),
+        ck: (&[LMC::Key], &[RMC::Key], &[IPC::Key]),
+        context: &[u8],
+    ) -> Result<
+        (
+            GIPAProof<IP, LMC, RMC, IPC, D>,
+            GIPAAux<IP, LMC, RMC, IPC, D>,
+        ),
+        Error,
     > {
         let (m_a, m_b) = values;
         let (ck_a, ck_b, ck_t) = ck;
+        let statement = Self::_statement_transcript(
+            (
+                &LMC::commit(ck_a, m_a)?,
+                &RMC::commit(ck_b, m_b)?,
+                &IPC::commit(ck_t, &vec![IP::inner_product(m_a, m_b)?])?,
+            ),
+            context,
+        )?;
         Self::_prove(
             (m_a.to_vec(), m_b.to_vec()),
             (ck_a.to_vec(), ck_b.to_vec(), ck_t.to_vec()),
+            &statement,
         )
     }
 
+    // The statement must determine every challenge, or it can be chosen after the proof
+    fn _statement_transcript(
+        com: (&LMC::Output, &RMC::Output, &IPC::Output),
+        context: &[u8],
+    ) -> Result<Vec<u8>, Error> {
+        let mut statement = Vec::new();
+        com.0.serialize_uncompressed(&mut statement)?;
+        com.1.serialize_uncompressed(&mut statement)?;
+        com.2.serialize_uncompressed(&mut statement)?;
+        statement.extend_from_slice(context);
+        Ok(statement)
+    }
+
     // Returns vector of recursive commitments and transcripts in reverse order
     fn _prove(
         values: (Vec<IP::LeftMessage>, Vec<IP::RightMessage>),
         ck: (Vec<LMC::Key>, Vec<RMC::Key>, Vec<IPC::Key>),
+        statement: &[u8],
     ) -> Result<
         (
             GIPAProof<IP, LMC, RMC, IPC, D>,
@@ -239,6 +282,7 @@ where
                     let mut hash_input = Vec::new();
                     hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
                     transcript.serialize_uncompressed(&mut hash_input)?;
+                    hash_input.extend_from_slice(statement);
                     com_1.0.serialize_uncompressed(&mut hash_input)?;
                     com_1.1.serialize_uncompressed(&mut hash_input)?;
                     com_1.2.serialize_uncompressed(&mut hash_input)?;
@@ -316,13 +360,19 @@ where
         com: (&LMC::Output, &RMC::Output, &IPC::Output),
         proof: &GIPAProof<IP, LMC, RMC, IPC, D>,
     ) -> Result<((LMC::Output, RMC::Output, IPC::Output), Vec<LMC::Scalar>), Error> {
-        Self::_compute_recursive_challenges((com.0.clone(), com.1.clone(), com.2.clone()), proof)
+        Self::_compute_recursive_challenges(
+            (com.0.clone(), com.1.clone(), com.2.clone()),
+            proof,
+            &[],
+        )
     }
 
-    fn _compute_recursive_challenges(
+    pub(crate) fn _compute_recursive_challenges(
         com: (LMC::Output, RMC::Output, IPC::Output),
         proof: &GIPAProof<IP, LMC, RMC, IPC, D>,
+        context: &[u8],
     ) -> Result<((LMC::Output, RMC::Output, IPC::Output), Vec<LMC::Scalar>), Error> {
+        let statement = Self::_statement_transcript((&com.0, &com.1, &com.2), context)?;
         let (mut com_a, mut com_b, mut com_t) = com;
         let mut r_transcript: Vec<LMC::Scalar> = Vec::new();
         for (com_1, com_2) in proof.r_commitment_steps.iter().rev() {
@@ -334,6 +384,7 @@ where
                 let mut hash_input = Vec::new();
                 hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
                 transcript.serialize_uncompressed(&mut hash_input)?;
+                hash_input.extend_from_slice(&statement);
                 com_1.0.serialize_uncompressed(&mut hash_input)?;
                 com_1.1.serialize_uncompressed(&mut hash_input)?;
                 com_1.2.serialize_uncompressed(&mut hash_input)?;
diff --git a/ip_proofs/src/tipa/structured_scalar_message.rs b/ip_proofs/src/tipa/structured_scalar_message.rs
index fe1ebf9..e0278a9 100644
--- a/ip_proofs/src/tipa/structured_scalar_message.rs
+++ b/ip_proofs/src/tipa/structured_scalar_message.rs
@@ -275,7 +275,7 @@ where
         proof: &TIPAWithSSMProof<IP, LMC, IPC, P, D>,
     ) -> Result<bool, Error> {
         let (base_com, transcript) = GIPA::verify_recursive_challenge_transcript(
-            (com.0, scalar_b, com.1),
+            (com.0, &LMC::Scalar::zero(), com.1),
             &proof.gipa_proof,
         )?;
         let transcript_inverse = cfg_iter!(transcript)
-- 
2.43.0


From af3f25f6e972b08bd798f7186d6abb3d71abb6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:57 +0000
Subject: [PATCH 03/12] fix: prove and verify single-element TIPA statements

With one element there is no recursive round, and deriving the KZG challenge
from the last recursive challenge panicked in both the prover and the verifier
(so a proof without rounds also crashed any verifier).
---
 ip_proofs/src/tipa/mod.rs                       | 16 ++++++++--------
 ip_proofs/src/tipa/structured_scalar_message.rs | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/ip_proofs/src/tipa/mod.rs b/ip_proofs/src/tipa/mod.rs
index d1731ec..2f79d34 100644
--- a/ip_proofs/src/tipa/mod.rs
+++ b/ip_proofs/src/tipa/mod.rs
@@ -193,13 +193,13 @@ where
 
         // KZG challenge point
         let mut counter_nonce: usize = 0;
+        // No round, and so no recursive challenge, when the message is a single element
+        let default_transcript = Default::default();
+        let last_challenge = transcript.first().unwrap_or(&default_transcript);
         let c = loop {
             let mut hash_input = Vec::new();
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
-            transcript
-                .first()
-                .unwrap()
-                .serialize_uncompressed(&mut hash_input)?;
+            last_challenge.serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             ck_b_final.serialize_uncompressed(&mut hash_input)?;
             if let Some(c) = LMC::Scalar::from_random_bytes(&D::digest(&hash_input)) {
@@ -256,13 +256,13 @@ where
 
         // KZG challenge point
         let mut counter_nonce: usize = 0;
+        // No round, and so no recursive challenge, when the message is a single element
+        let default_transcript = Default::default();
+        let last_challenge = transcript.first().unwrap_or(&default_transcript);
         let c = loop {
             let mut hash_input = Vec::new();
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
-            transcript
-                .first()
-                .unwrap()
-                .serialize_uncompressed(&mut hash_input)?;
+            last_challenge.serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             ck_b_final.serialize_uncompressed(&mut hash_input)?;
             if let Some(c) = LMC::Scalar::from_random_bytes(&D::digest(&hash_input)) {
diff --git a/ip_proofs/src/tipa/structured_scalar_message.rs b/ip_proofs/src/tipa/structured_scalar_message.rs
index e0278a9..4ea46b1 100644
--- a/ip_proofs/src/tipa/structured_scalar_message.rs
+++ b/ip_proofs/src/tipa/structured_scalar_message.rs
@@ -236,13 +236,13 @@ where
 
         // KZG challenge point
         let mut counter_nonce: usize = 0;
+        // No round, and so no recursive challenge, when the message is a single element
+        let default_transcript = Default::default();
+        let last_challenge = transcript.first().unwrap_or(&default_transcript);
         let c = loop {
             let mut hash_input = Vec::new();
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
-            transcript
-                .first()
-                .unwrap()
-                .serialize_uncompressed(&mut hash_input)?;
+            last_challenge.serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             if let Some(c) = LMC::Scalar::from_random_bytes(&D::digest(&hash_input)) {
                 break c;
@@ -287,13 +287,13 @@ where
 
         // KZG challenge point
         let mut counter_nonce: usize = 0;
+        // No round, and so no recursive challenge, when the message is a single element
+        let default_transcript = Default::default();
+        let last_challenge = transcript.first().unwrap_or(&default_transcript);
         let c = loop {
             let mut hash_input = Vec::new();
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
-            transcript
-                .first()
-                .unwrap()
-                .serialize_uncompressed(&mut hash_input)?;
+            last_challenge.serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             if let Some(c) = LMC::Scalar::from_random_bytes(&D::digest(&hash_input)) {
                 break c;
-- 
2.43.0


From be631611ca886f9cd0fa7b350700852497a30a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:44 +0000
Subject: [PATCH 04/12] fix: bind the structured message's scalar into the
 challenges

---
 .../src/tipa/structured_scalar_message.rs     | 32 ++++++++++++++-----
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/ip_proofs/src/tipa/structured_scalar_message.rs b/ip_proofs/src/tipa/structured_scalar_message.rs
index 4ea46b1..3bf9e71 100644
--- a/ip_proofs/src/tipa/structured_scalar_message.rs
+++ b/ip_proofs/src/tipa/structured_scalar_message.rs
@@ -40,12 +40,25 @@ impl<F: PrimeField> DoublyHomomorphicCommitment for SSMPlaceholderCommitment<F>
         Ok(vec![HomomorphicPlaceholderValue {}; size])
     }
 
-    //TODO: Doesn't include message which means scalar b not included in generating challenges
+    // Doesn't include message, so scalar b is included in generating challenges as their context
     fn commit(_k: &[Self::Key], _m: &[Self::Message]) -> Result<Self::Output, Error> {
         Ok(F::zero())
     }
 }
 
+// The structured message is determined by its second power: no challenge depends on it if shorter
+fn structured_scalar_context<F: PrimeField>(message: &[F]) -> Result<Vec<u8>, Error> {
+    let mut context = Vec::new();
+    if let Some(scalar) = message.get(1) {
+        scalar.serialize_uncompressed(&mut context)?;
+    }
+    Ok(context)
+}
+
+fn verifier_scalar_context<F: PrimeField>(scalar: &F) -> Result<Vec<u8>, Error> {
+    structured_scalar_context(&[F::one(), scalar.clone()])
+}
+
 pub struct GIPAWithSSM<IP, LMC, IPC, D> {
     _inner_product: PhantomData<IP>,
     _left_commitment: PhantomData<LMC>,
@@ -72,13 +85,14 @@ where
         ck: (&[LMC::Key], &IPC::Key),
     ) -> Result<GIPAProof<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>, Error> {
         let (proof, _) =
-            <GIPA<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>>::prove_with_aux(
+            <GIPA<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>>::prove_with_context(
                 values,
                 (
                     ck.0,
                     &vec![HomomorphicPlaceholderValue {}; values.1.len()],
                     &vec![ck.1.clone()],
                 ),
+                &structured_scalar_context(values.1)?,
             )?;
         Ok(proof)
     }
@@ -90,10 +104,10 @@ where
         proof: &GIPAProof<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>,
     ) -> Result<bool, Error> {
         // Calculate base commitments and recursive transcript
-        //TODO: Scalar b not included in generating challenges
-        let (base_com, transcript) = GIPA::verify_recursive_challenge_transcript(
-            (com.0, &LMC::Scalar::zero(), com.1),
+        let (base_com, transcript) = GIPA::_compute_recursive_challenges(
+            (com.0.clone(), LMC::Scalar::zero(), com.1.clone()),
             proof,
+            &verifier_scalar_context(scalar_b)?,
         )?;
         // Calculate base commitment keys
         let (ck_a_base, ck_b_base) = GIPA::<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>::_compute_final_commitment_keys(
@@ -216,13 +230,14 @@ where
         // Run GIPA
         let gipa = start_timer!(|| "GIPA");
         let (proof, aux) =
-            <GIPA<IP, LMC, SSMPlaceholderCommitment<P::ScalarField>, IPC, D>>::prove_with_aux(
+            <GIPA<IP, LMC, SSMPlaceholderCommitment<P::ScalarField>, IPC, D>>::prove_with_context(
                 values,
                 (
                     ck.0,
                     &vec![HomomorphicPlaceholderValue {}; values.1.len()],
                     &vec![ck.1.clone()],
                 ),
+                &structured_scalar_context(values.1)?,
             )?;
         end_timer!(gipa);
 
@@ -274,9 +289,10 @@ where
         scalar_b: &P::ScalarField,
         proof: &TIPAWithSSMProof<IP, LMC, IPC, P, D>,
     ) -> Result<bool, Error> {
-        let (base_com, transcript) = GIPA::verify_recursive_challenge_transcript(
-            (com.0, &LMC::Scalar::zero(), com.1),
+        let (base_com, transcript) = GIPA::_compute_recursive_challenges(
+            (com.0.clone(), LMC::Scalar::zero(), com.1.clone()),
             &proof.gipa_proof,
+            &verifier_scalar_context(scalar_b)?,
         )?;
         let transcript_inverse = cfg_iter!(transcript)
             .map(|x| x.inverse().unwrap())
-- 
2.43.0


From 2d767fd1798fde81644347e7719aa3f62bd2ef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:41 +0000
Subject: [PATCH 05/12] fix: bind the commitment key shift into the TIPA
 challenges

---
 ip_proofs/src/tipa/mod.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ip_proofs/src/tipa/mod.rs b/ip_proofs/src/tipa/mod.rs
index 2f79d34..0d11f4b 100644
--- a/ip_proofs/src/tipa/mod.rs
+++ b/ip_proofs/src/tipa/mod.rs
@@ -180,9 +180,10 @@ where
         r_shift: &P::ScalarField,
     ) -> Result<TIPAProof<IP, LMC, RMC, IPC, P, D>, Error> {
         // Run GIPA
-        let (proof, aux) = <GIPA<IP, LMC, RMC, IPC, D>>::prove_with_aux(
+        let (proof, aux) = <GIPA<IP, LMC, RMC, IPC, D>>::prove_with_context(
             values,
             (ck.0, ck.1, &vec![ck.2.clone()]),
+            &shift_context(r_shift)?,
         )?;
 
         // Prove final commitment keys are wellformed
@@ -246,8 +247,11 @@ where
         proof: &TIPAProof<IP, LMC, RMC, IPC, P, D>,
         r_shift: &P::ScalarField,
     ) -> Result<bool, Error> {
-        let (base_com, transcript) =
-            GIPA::verify_recursive_challenge_transcript(com, &proof.gipa_proof)?;
+        let (base_com, transcript) = GIPA::_compute_recursive_challenges(
+            (com.0.clone(), com.1.clone(), com.2.clone()),
+            &proof.gipa_proof,
+            &shift_context(r_shift)?,
+        )?;
         let transcript_inverse = transcript.iter().map(|x| x.inverse().unwrap()).collect();
 
         // Verify commitment keys wellformed
@@ -301,6 +305,13 @@ where
     }
 }
 
+// The shift is part of the statement that is not committed to
+fn shift_context<F: Field>(r_shift: &F) -> Result<Vec<u8>, Error> {
+    let mut context = Vec::new();
+    r_shift.serialize_uncompressed(&mut context)?;
+    Ok(context)
+}
+
 pub fn prove_commitment_key_kzg_opening<G: CurveGroup>(
     srs_powers: &Vec<G>,
     transcript: &Vec<G::ScalarField>,
-- 
2.43.0


From 255bff509aa8a126064d48f531e08dad929280c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 06/12] fix: set up univariate commitments for constant
 polynomials

For degree zero the skew factor was zero, and setup divided by it.
---
 ip_proofs/src/applications/poly_commit/mod.rs         | 6 +++++-
 ip_proofs/src/applications/poly_commit/transparent.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index 1d8a3a2..0328c38 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -303,7 +303,11 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         //(((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two() - 1;
         let sqrt = (((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two();
         // Skew split between bivariate degrees to account for KZG being less expensive than MIPP
-        let skew_factor = if sqrt >= 32 { 16_usize } else { sqrt / 2 };
+        let skew_factor = if sqrt >= 32 {
+            16_usize
+        } else {
+            (sqrt / 2).max(1)
+        };
         (sqrt / skew_factor - 1, sqrt * skew_factor - 1)
     }
 
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index 2fa3362..e72d900 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -232,7 +232,11 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         //(((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two() - 1;
         let sqrt = (((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two();
         // Skew split between bivariate degrees to account for scalar IPA being less expensive than MIPP
-        let skew_factor = if sqrt >= 8 { 4_usize } else { sqrt / 2 };
+        let skew_factor = if sqrt >= 8 {
+            4_usize
+        } else {
+            (sqrt / 2).max(1)
+        };
         (sqrt / skew_factor - 1, sqrt * skew_factor - 1)
     }
 
-- 
2.43.0


From 3e43255f28cd1972d555dcf6c9612d1cb1deb958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 07/12] fix: refuse GIPA proofs whose round count does not
 match the keys

---
 ip_proofs/src/gipa.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ip_proofs/src/gipa.rs b/ip_proofs/src/gipa.rs
index 519bb98..9f4c811 100644
--- a/ip_proofs/src/gipa.rs
+++ b/ip_proofs/src/gipa.rs
@@ -419,7 +419,14 @@ where
     ) -> Result<(LMC::Key, RMC::Key), Error> {
         // Calculate base commitment keys
         let (ck_a, ck_b, _) = ck;
-        assert!(ck_a.len().is_power_of_two());
+        // One round per halving of the keys (and no allocation for more)
+        if !ck_a.len().is_power_of_two() || transcript.len() != ck_a.len().trailing_zeros() as usize
+        {
+            return Err(Box::new(InnerProductArgumentError::MessageLengthInvalid(
+                ck_a.len(),
+                ck_b.len(),
+            )));
+        }
 
         let mut ck_a_agg_challenge_exponents = vec![LMC::Scalar::one()];
         let mut ck_b_agg_challenge_exponents = vec![LMC::Scalar::one()];
-- 
2.43.0


From ed08e4b6a2ffbdd36cc27e2c17844aba76427a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:19 +0000
Subject: [PATCH 08/12] fix: refuse malformed SIPP statements and proofs
 instead of panicking

---
 sipp/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sipp/src/lib.rs b/sipp/src/lib.rs
index 1499a45..f8f1113 100644
--- a/sipp/src/lib.rs
+++ b/sipp/src/lib.rs
@@ -128,12 +128,14 @@ where
     ) -> Result<bool, ()> {
         // Ensure the order of the input vectors is a power of 2
         let length = a.len();
-        assert_eq!(length.count_ones(), 1);
-        assert!(length >= 2);
-        assert_eq!(length, b.len());
+        if !length.is_power_of_two() || length < 2 || length != b.len() || length != r.len() {
+            return Err(());
+        }
         // Ensure there are the correct number of proof elements
         let proof_len = proof.gt_elems.len();
-        assert_eq!(proof_len as f32, f32::log2(length as f32));
+        if proof_len != length.trailing_zeros() as usize {
+            return Err(());
+        }
 
         // TODO(psi): should we also input a succinct bilinear group description to the rng?
         let mut rng = {
-- 
2.43.0


From b316c24cee8d76fc5bb670dbc3c7d261124b043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:08 +0000
Subject: [PATCH 09/12] fix: refuse aggregates with missing, short or surplus
 public inputs

---
 .../src/applications/groth16_aggregation.rs     | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ip_proofs/src/applications/groth16_aggregation.rs b/ip_proofs/src/applications/groth16_aggregation.rs
index ee3376a..7d9ebc4 100644
--- a/ip_proofs/src/applications/groth16_aggregation.rs
+++ b/ip_proofs/src/applications/groth16_aggregation.rs
@@ -13,7 +13,7 @@ use crate::{
         structured_scalar_message::{structured_scalar_power, TIPAWithSSM, TIPAWithSSMProof},
         TIPAProof, VerifierSRS, SRS, TIPA,
     },
-    Error,
+    Error, InnerProductArgumentError,
 };
 use ark_dh_commitments::{
     afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2},
@@ -175,6 +175,20 @@ where
     P: Pairing,
     D: Digest,
 {
+    // Every proof has as many public inputs as the verifying key
+    let num_inputs = vk.gamma_abc_g1.len().saturating_sub(1);
+    if vk.gamma_abc_g1.is_empty()
+        || public_inputs.is_empty()
+        || public_inputs
+            .iter()
+            .any(|inputs| inputs.len() != num_inputs)
+    {
+        return Err(Box::new(InnerProductArgumentError::MessageLengthInvalid(
+            public_inputs.len(),
+            num_inputs,
+        )));
+    }
+
     // Random linear combination of proofs
     let mut counter_nonce: usize = 0;
     let r = loop {
@@ -215,7 +229,6 @@ where
         / &(r.clone() - &<P::ScalarField>::one());
     let p1 = P::pairing(P::G1::from(vk.alpha_g1) * r_sum, vk.beta_g2);
 
-    assert_eq!(vk.gamma_abc_g1.len(), public_inputs[0].len() + 1);
     let r_vec = structured_scalar_power(public_inputs.len(), &r);
     let mut g_ic = P::G1::from(vk.gamma_abc_g1[0]) * r_sum;
     for (i, b) in vk.gamma_abc_g1.iter().skip(1).enumerate() {
-- 
2.43.0


From 2f950c29f12f8d8171e914aba94ae2145c94e62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:52 +0000
Subject: [PATCH 10/12] fix: refuse polynomials that exceed the polynomial
 commitment keys

---
 ip_proofs/src/applications/poly_commit/mod.rs         | 2 ++
 ip_proofs/src/applications/poly_commit/transparent.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index 0328c38..0475e31 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -233,6 +233,7 @@ impl<P: Pairing, D: Digest> BivariatePolynomialCommitment<P, D> {
             .take(ck_1.len())
             .map(|y_polynomial| {
                 let mut c = y_polynomial.coeffs.to_vec();
+                assert!(kzg_srs.len() >= c.len());
                 c.resize(kzg_srs.len(), <P::ScalarField>::zero());
                 c
             })
@@ -322,6 +323,7 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         polynomial: &UnivariatePolynomial<P::ScalarField>,
     ) -> BivariatePolynomial<P::ScalarField> {
         let (x_degree, y_degree) = bivariate_degrees;
+        assert!((x_degree + 1) * (y_degree + 1) >= polynomial.coeffs.len());
         let default_zero = vec![P::ScalarField::zero()];
         let mut coeff_iter = polynomial
             .coeffs
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index e72d900..95f6a01 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -156,6 +156,7 @@ impl<P: Pairing, D: Digest> BivariatePolynomialCommitment<P, D> {
             .take(second_tier_ck.len())
             .map(|y_polynomial| {
                 let mut c = y_polynomial.coeffs.to_vec();
+                assert!(first_tier_ck.len() >= c.len());
                 c.resize(first_tier_ck.len(), <P::ScalarField>::zero());
                 c
             })
@@ -251,6 +252,7 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         polynomial: &UnivariatePolynomial<P::ScalarField>,
     ) -> BivariatePolynomial<P::ScalarField> {
         let (x_degree, y_degree) = bivariate_degrees;
+        assert!((x_degree + 1) * (y_degree + 1) >= polynomial.coeffs.len());
         let default_zero = vec![P::ScalarField::zero()];
         let mut coeff_iter = polynomial
             .coeffs
-- 
2.43.0


From 95becb4d4e9859dd243f291dff0284b8cc6d500d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:52 +0000
Subject: [PATCH 11/12] fix: refuse pairing products over vectors of different
 lengths

---
 sipp/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sipp/src/lib.rs b/sipp/src/lib.rs
index f8f1113..ceb3abe 100644
--- a/sipp/src/lib.rs
+++ b/sipp/src/lib.rs
@@ -59,6 +59,7 @@ where
         value: PairingOutput<E>,
     ) -> Result<Proof<E>, ()> {
         assert_eq!(a.len(), b.len());
+        assert_eq!(a.len(), r.len());
         // Ensure the order of the input vectors is a power of 2
         assert_eq!(a.len().count_ones(), 1);
         let mut length = a.len();
@@ -201,6 +202,8 @@ pub fn product_of_pairings_with_coeffs<E: Pairing>(
     b: &[E::G2Affine],
     r: &[E::ScalarField],
 ) -> PairingOutput<E> {
+    assert_eq!(a.len(), b.len());
+    assert_eq!(a.len(), r.len());
     let a = a
         .into_par_iter()
         .zip(r)
-- 
2.43.0


From c37e323ce2c4ef450ec208613063efbcdeae6c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:53 +0000
Subject: [PATCH 12/12] fix: refuse multi-pairings of vectors of different
 lengths

---
 inner_products/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inner_products/src/lib.rs b/inner_products/src/lib.rs
index 6fabc06..4bf1182 100644
--- a/inner_products/src/lib.rs
+++ b/inner_products/src/lib.rs
@@ -75,6 +75,7 @@ impl<P: Pairing> InnerProduct for PairingInnerProduct<P> {
 
 /// Equivalent to `P::multi_pairing`, but with more parallelism (if enabled)
 pub fn cfg_multi_pairing<P: Pairing>(left: &[P::G1], right: &[P::G2]) -> Option<PairingOutput<P>> {
+    assert_eq!(left.len(), right.len());
     // We make the input affine, then convert to prepared. We do this for speed, since the
     // conversion from projective to prepared always goes through affine.
     let aff_left = P::G1::normalize_batch(left);
-- 
2.43.0

