From 1a70100b9207d3a589fbe30e42be808afdd371b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 01/14] fix: report short pairing-power tables as
 InvalidPairingPowers instead of panicking

---
 src/encryption.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/encryption.rs b/src/encryption.rs
index a48f92b..e0aa59e 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -548,14 +548,13 @@ impl<E: Pairing> Encryption<E> {
         p: PairingOutput<E>,
         pairing_powers: &[Vec<PairingOutput<E>>],
     ) -> crate::Result<CHUNK_TYPE> {
-        if pairing_powers.len() < chunk_index {
+        if pairing_powers.len() <= chunk_index
+            || pairing_powers[chunk_index].len() < chunk_max_val as usize
+        {
             return Err(SaverError::InvalidPairingPowers);
         }
         for j in 1..=chunk_max_val {
             let j = j as usize - 1;
-            if pairing_powers[chunk_index].len() < j {
-                return Err(SaverError::InvalidPairingPowers);
-            }
             if pairing_powers[chunk_index][j] == p {
                 return Ok(j as CHUNK_TYPE + 1);
             }
-- 
2.43.0


From f438dfcc1704707eccf530bc587c844f9c791d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 02/14] fix: report mismatched lengths when making or combining
 shares and ciphertexts

---
 src/encryption.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/encryption.rs b/src/encryption.rs
index e0aa59e..49da548 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -399,6 +399,9 @@ impl<E: Pairing> Encryption<E> {
     ) -> crate::Result<(Vec<E::G1Affine>, E::G1Affine)> {
         
         let n = c.len();
+        if sk.s.len() != n {
+            return Err(SaverError::VectorShorterThanExpected(sk.s.len(), n));
+        }
         // r
         let rho = E::ScalarField::rand(rng);
         // g * r
@@ -421,6 +424,9 @@ impl<E: Pairing> Encryption<E> {
         w2: &[E::G1Affine],
     ) -> crate::Result<(Vec<E::G1Affine>, E::G1Affine)> {
         
+        if w1.len() != w2.len() {
+            return Err(SaverError::VectorShorterThanExpected(w2.len(), w1.len()));
+        }
         let mut w_combined = vec![];
         // w_combined = w1 + w2
         for i in 0..w1.len(){
@@ -441,6 +447,9 @@ impl<E: Pairing> Encryption<E> {
     ) -> crate::Result<Vec<E::G1Affine>> {
         
         let n = c.len();
+        if w.len() != n {
+            return Err(SaverError::VectorShorterThanExpected(w.len(), n));
+        }
 
         let mut ct = vec![];
         // c[0] = g_r
@@ -459,6 +468,9 @@ impl<E: Pairing> Encryption<E> {
     ) -> crate::Result<Vec<E::G1Affine>> {
    
         let n = ct1.len();
+        if ct2.len() != n {
+            return Err(SaverError::VectorShorterThanExpected(ct2.len(), n));
+        }
 
         let mut ct = vec![];
 
-- 
2.43.0


From 2d50f04add465a15b201e3f1fda1a846ab078f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 03/14] fix: do not overflow when decrypting with chunk widths
 of 32 bits and more

---
 src/encryption.rs | 10 +++++-----
 src/keygen.rs     |  4 ++--
 src/utils.rs      |  9 +++++++++
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/encryption.rs b/src/encryption.rs
index 49da548..acbe65d 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -317,7 +317,7 @@ impl<E: Pairing> Encryption<E> {
         let c_0_rho = c_0.mul_bigint((-sk.0).into_bigint());
         let c_0_rho_prepared = E::G1Prepared::from(c_0_rho.into_affine());
         let mut decrypted_chunks = vec![];
-        let chunk_max_val: u32 = (1 << chunk_bit_size) - 1;
+        let chunk_max_val = utils::max_chunk_value(chunk_bit_size)?;
         let pairing_powers = if let Some(p) = pairing_powers { p } else { &[] };
         for i in 0..n {
             let p = E::multi_pairing(
@@ -333,14 +333,14 @@ impl<E: Pairing> Encryption<E> {
                 // Precomputed powers are not provided, compute the necessary pairings
                 let g_i_v_i = E::pairing(E::G1Prepared::from(g_i[i]), dk.V_2[i].clone());
                 decrypted_chunks.push(Self::solve_discrete_log(
-                    chunk_max_val as CHUNK_TYPE,
+                    chunk_max_val,
                     g_i_v_i,
                     p,
                 )?);
             } else {
                 decrypted_chunks.push(Self::solve_discrete_log_using_pairing_powers(
                     i,
-                    chunk_max_val as CHUNK_TYPE,
+                    chunk_max_val,
                     p,
                     pairing_powers,
                 )?);
@@ -500,14 +500,14 @@ impl<E: Pairing> Encryption<E> {
         .collect::<Vec<_>>();
 
         let mut decrypted_chunks = vec![];
-        let chunk_max_val: u32 = (1 << chunk_bit_size) - 1;
+        let chunk_max_val = utils::max_chunk_value(chunk_bit_size)?;
         for i in 0..n {
             if gi_mi[i].is_zero() {
                 decrypted_chunks.push(0);
                 continue;
             }
             decrypted_chunks.push(Self::solve_discrete_log_for_g(
-                chunk_max_val as CHUNK_TYPE,
+                chunk_max_val,
                 &g_i[i],
                 &gi_mi[i],
             )?)
diff --git a/src/keygen.rs b/src/keygen.rs
index dd26e39..b9998b3 100644
--- a/src/keygen.rs
+++ b/src/keygen.rs
@@ -20,7 +20,7 @@ use zeroize::{Zeroize, ZeroizeOnDrop};
 #[cfg(feature = "parallel")]
 use rayon::prelude::*;
 
-use crate::{error::SaverError, saver_groth16, setup::EncryptionGens, utils::{chunks_count, multiply_field_elems_with_same_group_elem}, serde_utils::*};
+use crate::{error::SaverError, saver_groth16, setup::EncryptionGens, utils::{chunks_count, max_chunk_value, multiply_field_elems_with_same_group_elem}, serde_utils::*};
 
 /// Used to decrypt
 #[serde_as]
@@ -285,7 +285,7 @@ impl<E: Pairing> PreparedDecryptionKey<E> {
         g_i: &[E::G1Affine],
     ) -> crate::Result<Vec<Vec<PairingOutput<E>>>> {
         let n = self.supported_chunks_count()? as usize;
-        let chunk_max_val = (1 << chunk_bit_size) - 1;
+        let chunk_max_val = max_chunk_value(chunk_bit_size)?;
         let mut powers = Vec::<Vec<PairingOutput<E>>>::with_capacity(n);
         for i in 0..n {
             // Powers of `g_i_v_i` will be created
diff --git a/src/utils.rs b/src/utils.rs
index ffd5d31..1e71f27 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -25,6 +25,15 @@ pub fn chunks_count<F: PrimeField>(chunk_bit_size: u8) -> u8 {
 
 pub type CHUNK_TYPE = u16;
 
+/// Largest chunk value of `chunk_bit_size` bits, capped at what a chunk can hold
+pub fn max_chunk_value(chunk_bit_size: u8) -> crate::Result<CHUNK_TYPE> {
+    match chunk_bit_size {
+        0 => Err(SaverError::UnexpectedBase(0)),
+        b if (b as u32) < CHUNK_TYPE::BITS => Ok((1 << b) - 1),
+        _ => Ok(CHUNK_TYPE::MAX),
+    }
+}
+
 /// Given an element `F`, break it into chunks where each chunk is of `chunk_bit_size` bits. This is
 /// essentially an n-ary representation where n is `chunk_bit_size`. Returns big-endian representation.
 pub fn decompose<F: PrimeField>(message: &F, chunk_bit_size: u8) -> crate::Result<Vec<CHUNK_TYPE>> {
-- 
2.43.0


From b092f1c95458788f28a5d4ac84ebc3e5f41cd0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 04/14] fix: report too few generators when precomputing
 pairing powers

---
 src/keygen.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keygen.rs b/src/keygen.rs
index b9998b3..362204f 100644
--- a/src/keygen.rs
+++ b/src/keygen.rs
@@ -285,6 +285,9 @@ impl<E: Pairing> PreparedDecryptionKey<E> {
         g_i: &[E::G1Affine],
     ) -> crate::Result<Vec<Vec<PairingOutput<E>>>> {
         let n = self.supported_chunks_count()? as usize;
+        if n > g_i.len() {
+            return Err(SaverError::VectorShorterThanExpected(g_i.len(), n));
+        }
         let chunk_max_val = max_chunk_value(chunk_bit_size)?;
         let mut powers = Vec::<Vec<PairingOutput<E>>>::with_capacity(n);
         for i in 0..n {
-- 
2.43.0


From b258360d0eddb443100be61db981276bd3acd184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 05/14] fix: do not truncate the chunk count of keys with more
 than 255 chunks

---
 src/keygen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keygen.rs b/src/keygen.rs
index 362204f..b369216 100644
--- a/src/keygen.rs
+++ b/src/keygen.rs
@@ -179,7 +179,7 @@ macro_rules! impl_enc_key_funcs {
             if self.Z.len() != (n + 1) {
                 return Err(SaverError::MalformedEncryptionKey(self.Z.len(), n));
             }
-            Ok(n as u8)
+            u8::try_from(n).map_err(|_| SaverError::MalformedEncryptionKey(n, u8::MAX as usize))
         }
 
         pub fn validate(&self) -> crate::Result<()> {
@@ -202,7 +202,7 @@ macro_rules! impl_dec_key_funcs {
             if self.V_2.len() != n {
                 return Err(SaverError::MalformedDecryptionKey(self.V_2.len(), n));
             }
-            Ok(n as u8)
+            u8::try_from(n).map_err(|_| SaverError::MalformedDecryptionKey(n, u8::MAX as usize))
         }
 
         pub fn validate(&self) -> crate::Result<()> {
-- 
2.43.0


From d2e86cefadcbe72c6a08b324610ade75bd055ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 06/14] fix: refuse to recompose chunks that do not fit the
 chunk size

---
 src/utils.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index 1e71f27..b7d284c 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -68,6 +68,12 @@ pub fn decompose<F: PrimeField>(message: &F, chunk_bit_size: u8) -> crate::Resul
 
 /// Recreate a field element back from output of `decompose`. Assumes big-endian representation in `decomposed`
 pub fn compose<F: PrimeField>(decomposed: &[CHUNK_TYPE], chunk_bit_size: u8) -> crate::Result<F> {
+    if matches!(chunk_bit_size, 4 | 8) {
+        let max = max_chunk_value(chunk_bit_size)?;
+        if decomposed.iter().any(|c| *c > max) {
+            return Err(SaverError::InvalidDecomposition);
+        }
+    }
     match chunk_bit_size {
         4 => {
             if (decomposed.len() % 2) == 1 {
-- 
2.43.0


From efd7a50f9623cbe9a9d13d15b9cf10460bcec7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 07/14] fix: no panic on empty or mismatched batches of
 commitments

---
 src/encryption.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/encryption.rs b/src/encryption.rs
index acbe65d..ee4a1d8 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -255,7 +255,12 @@ impl<E: Pairing> Encryption<E> {
         ek: impl Into<PreparedEncryptionKey<E>>,
         gens: impl Into<PreparedEncryptionGens<E>>,
     ) -> crate::Result<()> {
-        assert_eq!(r_powers.len(), ciphertexts.len());
+        if r_powers.len() != ciphertexts.len() {
+            return Err(SaverError::VectorShorterThanExpected(
+                r_powers.len(),
+                ciphertexts.len(),
+            ));
+        }
         let ek = ek.into();
         let gens = gens.into();
         let expected_count = ek.supported_chunks_count()? as usize;
@@ -267,6 +272,9 @@ impl<E: Pairing> Encryption<E> {
                 ));
             }
         }
+        if ciphertexts.is_empty() {
+            return Ok(());
+        }
 
         let a =
             Self::get_g1_for_ciphertext_commitments_in_batch_pairing_checks(ciphertexts, r_powers);
-- 
2.43.0


From e538845f1cb832b544898e521169d1160003d0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 08/14] fix: report a chunk size of zero bits instead of
 dividing by it

---
 src/keygen.rs | 6 ++++++
 src/setup.rs  | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/keygen.rs b/src/keygen.rs
index b369216..0f6079d 100644
--- a/src/keygen.rs
+++ b/src/keygen.rs
@@ -321,6 +321,9 @@ pub fn FkeygenPartial<R: RngCore, E: Pairing>(
     SecretKeyST<E>,
     FEncryptionKeyPartial<E>,
 )> {
+    if chunk_bit_size == 0 {
+        return Err(SaverError::UnexpectedBase(chunk_bit_size));
+    }
     let n = chunks_count::<E::ScalarField>(chunk_bit_size) as usize;
     if n > g_i.len() {
         return Err(SaverError::VectorShorterThanExpected(g_i.len(), n));
@@ -488,6 +491,9 @@ pub fn keygen<R: RngCore, E: Pairing>(
     EncryptionKey<E>,
     DecryptionKey<E>,
 )> {
+    if chunk_bit_size == 0 {
+        return Err(SaverError::UnexpectedBase(chunk_bit_size));
+    }
     let n = chunks_count::<E::ScalarField>(chunk_bit_size) as usize;
     if n > g_i.len() {
         return Err(SaverError::VectorShorterThanExpected(g_i.len(), n));
diff --git a/src/setup.rs b/src/setup.rs
index f3595c3..8889d63 100644
--- a/src/setup.rs
+++ b/src/setup.rs
@@ -8,6 +8,7 @@ use serde_with::serde_as;
 
 use crate::{
     circuit::BitsizeCheckCircuit,
+    error::SaverError,
     keygen::{keygen, DecryptionKey, EncryptionKey, SecretKey},
     saver_groth16,
     concat_slices,
@@ -101,6 +102,9 @@ pub fn setup_for_groth16<E: Pairing, R: RngCore>(
     EncryptionKey<E>,
     DecryptionKey<E>,
 )> {
+    if chunk_bit_size == 0 {
+        return Err(SaverError::UnexpectedBase(chunk_bit_size));
+    }
     // Create SNARK SRS
     let circuit = BitsizeCheckCircuit::new(chunk_bit_size, None, None, true);
     let proving_key = saver_groth16::generate_srs::<E, R, _>(circuit, enc_gens, rng)?;
-- 
2.43.0


From ae680518520dee8fb6ce6d48fbb0adce4e7b3d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 09/14] fix: no panic on a verification key without input
 elements

---
 src/saver_groth16.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/saver_groth16.rs b/src/saver_groth16.rs
index f8cb1c4..179847e 100644
--- a/src/saver_groth16.rs
+++ b/src/saver_groth16.rs
@@ -40,7 +40,7 @@ pub struct ProvingKey<E: Pairing> {
 
 /// These parameters are needed for setting up keys for encryption/decryption
 pub fn get_gs_for_encryption<E: Pairing>(vk: &VerifyingKey<E>) -> &[E::G1Affine] {
-    &vk.gamma_abc_g1[1..]
+    vk.gamma_abc_g1.get(1..).unwrap_or(&[])
 }
 
 /// Generate Groth16 SRS
-- 
2.43.0


From 237d7fbea53b46db8a30b2a9d181ced867693dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 10/14] fix: refuse ciphertexts whose chunk count differs from
 the SNARK's

---
 src/saver_groth16.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/saver_groth16.rs b/src/saver_groth16.rs
index 179847e..5c1dba5 100644
--- a/src/saver_groth16.rs
+++ b/src/saver_groth16.rs
@@ -117,6 +117,13 @@ pub fn calculate_d<E: Pairing>(
     pvk: &PreparedVerifyingKey<E>,
     ciphertext: &Ciphertext<E>,
 ) -> Result<E::G1Affine, SaverError> {
+    // one element per chunk besides the constant term
+    if pvk.vk.gamma_abc_g1.len() != ciphertext.enc_chunks.len() + 1 {
+        return Err(SaverError::VectorShorterThanExpected(
+            pvk.vk.gamma_abc_g1.len(),
+            ciphertext.enc_chunks.len() + 1,
+        ));
+    }
     let mut d = ciphertext.X_r.into_group();
     for c in ciphertext.enc_chunks.iter() {
         d.add_assign(c.into_group())
-- 
2.43.0


From beb4eaed0f54a4fa7dfca3ed2c018a8c281fb450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 11/14] fix: refuse to prove with an encryption key that does
 not fit the SNARK parameters

---
 src/saver_groth16.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/saver_groth16.rs b/src/saver_groth16.rs
index 5c1dba5..f7f5751 100644
--- a/src/saver_groth16.rs
+++ b/src/saver_groth16.rs
@@ -87,6 +87,14 @@ where
     C: ConstraintSynthesizer<E::ScalarField>,
     R: Rng,
 {
+    let n = encryption_key.supported_chunks_count()? as usize;
+    if pk.pk.vk.gamma_abc_g1.len() != n + 1 {
+        return Err(SaverError::IncompatibleEncryptionKey(
+            n,
+            get_gs_for_encryption(&pk.pk.vk).len(),
+        ));
+    }
+
     let t = E::ScalarField::rand(rng);
     let s = E::ScalarField::rand(rng);
     let mut proof = Groth16::<E>::create_proof_with_reduction(circuit, &pk.pk, t, s)?;
-- 
2.43.0


From 184033967510e458d8286c4cd2dbae550fd2f887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 12/14] fix: refuse commitment keys that do not fit the chunk
 size

---
 src/commitment.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/commitment.rs b/src/commitment.rs
index d0fcb4e..126a8eb 100644
--- a/src/commitment.rs
+++ b/src/commitment.rs
@@ -1,4 +1,5 @@
 use crate::{
+    error::SaverError,
     setup::ChunkedCommitmentGens,
     utils::{chunks_count, decompose, multiply_field_elems_with_same_group_elem},
     serde_utils::*
@@ -75,6 +76,12 @@ impl<G: AffineRepr> ChunkedCommitment<G> {
         comm_key: &[G],
     ) -> crate::Result<G> {
         let decomposed = Self::get_values_to_commit(message, blinding, chunk_bit_size)?;
+        if comm_key.len() != decomposed.len() {
+            return Err(SaverError::VectorShorterThanExpected(
+                comm_key.len(),
+                decomposed.len(),
+            ));
+        }
         Ok(G::Group::msm_bigint(comm_key, &decomposed).into_affine())
     }
 
-- 
2.43.0


From cc3ef43f99d0e3cf13913a986a2d16fca76b501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 13/14] fix: wipe a party's secret shares when they are dropped

---
 src/keygen.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/keygen.rs b/src/keygen.rs
index 0f6079d..2301496 100644
--- a/src/keygen.rs
+++ b/src/keygen.rs
@@ -41,8 +41,18 @@ pub struct SecretKey<F: PrimeField>(#[serde_as(as = "ArkObjectBytes")] pub F);
 /// sercret key for party i. Used during key generation and re-encryption. 
 #[serde_as]
 #[derive(
-    Clone, PartialEq, Eq, Debug, CanonicalSerialize, CanonicalDeserialize, Serialize, Deserialize,
+    Clone,
+    PartialEq,
+    Eq,
+    Debug,
+    CanonicalSerialize,
+    CanonicalDeserialize,
+    Serialize,
+    Deserialize,
+    Zeroize,
+    ZeroizeOnDrop,
 )]
+#[zeroize(bound = "")]
 pub struct SecretKeyST<E: Pairing>{
     /// `s`
     #[serde_as(as = "Vec<ArkObjectBytes>")]
-- 
2.43.0


From 9dba861c720c322af8c5b3c28c52995ff259ccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:43 +0000
Subject: [PATCH 14/14] fix: commitment_key takes the exponent of the radix, so
 chunks of 31 bits and more get the right key

`(1 << chunk_bit_size) as u64` was computed as an i32: 31-bit chunks got the
radix 2^64 - 2^31, wider ones a panic or a radix taken modulo 2^32.
---
 src/commitment.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/commitment.rs b/src/commitment.rs
index 126a8eb..1cb8a98 100644
--- a/src/commitment.rs
+++ b/src/commitment.rs
@@ -88,13 +88,13 @@ impl<G: AffineRepr> ChunkedCommitment<G> {
     /// Commitment key (vector of all `g`s and `h`) for the chunked commitment
     /// Given a group element `g`, create `chunks_count` multiples of `g` as `g_n, g_{n-1}, ..., g_2, g_1` where each `g_i = {radix^i} * g` and `radix = 2^chunk_bit_ize`
     pub fn commitment_key(gens: &ChunkedCommitmentGens<G>, chunk_bit_size: u8) -> Vec<G> {
-        let radix = (1 << chunk_bit_size) as u64;
         let chunks = chunks_count::<G::ScalarField>(chunk_bit_size);
-        let gs = if radix.is_power_of_two() {
-            Self::commitment_key_for_radix_power_of_2(gens.G.into_group(), chunks, radix)
-        } else {
-            Self::commitment_key_for_radix_non_power_of_2(gens.G.into_group(), chunks, radix)
-        };
+        // The exponent is used as the radix of wide chunks does not fit an integer
+        let gs = Self::commitment_key_for_log2_radix(
+            gens.G.into_group(),
+            chunks,
+            chunk_bit_size as u32,
+        );
         let mut ck = G::Group::normalize_batch(&gs);
         ck.push(gens.H);
         ck
@@ -113,14 +113,18 @@ impl<G: AffineRepr> ChunkedCommitment<G> {
         Ok(decomposed)
     }
 
+    #[allow(dead_code)]
     fn commitment_key_for_radix_power_of_2(
         g: G::Group,
         chunks_count: u8,
         radix: u64,
     ) -> Vec<G::Group> {
+        Self::commitment_key_for_log2_radix(g, chunks_count, radix.trailing_zeros())
+    }
+
+    fn commitment_key_for_log2_radix(g: G::Group, chunks_count: u8, log2: u32) -> Vec<G::Group> {
         let mut gs = vec![g];
         // log2 doublings are equivalent to multiplication by radix
-        let log2 = radix.trailing_zeros();
         for i in 1..chunks_count {
             // Multiply the last element of `gs` by `radix` by repeated doublings
             let mut curr = gs[i as usize - 1];
@@ -133,6 +137,7 @@ impl<G: AffineRepr> ChunkedCommitment<G> {
         gs
     }
 
+    #[allow(dead_code)]
     fn commitment_key_for_radix_non_power_of_2(
         g: G::Group,
         chunks_count: u8,
-- 
2.43.0

