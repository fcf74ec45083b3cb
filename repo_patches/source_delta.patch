From 4de9803ab199f0b8c559066459e07b4100060e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 1/6] fix: POPRF server evaluate treats info None as empty info

The client (and both tweak computations) treat a missing info as the empty
string, which is still framed into the final hash. PoprfServer::evaluate
skipped the framing for None, so its output never matched the client's.
---
 src/poprf.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/poprf.rs b/src/poprf.rs
index a0fd531..fd4b0b6 100644
--- a/src/poprf.rs
+++ b/src/poprf.rs
@@ -418,7 +418,10 @@ where
 
         let issued_element = CS::Group::serialize_elem(evaluated_element);
 
-        server_evaluate_hash_input::<CS>(input, info, issued_element)
+        // None for info is treated the same as empty bytes
+        let info = info.unwrap_or_default();
+
+        server_evaluate_hash_input::<CS>(input, Some(info), issued_element)
     }
 
     /// Retrieves the server's public key
-- 
2.43.0


From ef1d35ac34bc1181c89921a4cd73b4b5e374fa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 2/6] fix: PoprfServer::batch_blind_evaluate returns
 Error::Batch instead of panicking

A batch of more than u16::MAX elements made the internal proof generation
fail with Error::Batch, which was unwrapped.
---
 src/poprf.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/poprf.rs b/src/poprf.rs
index fd4b0b6..133b066 100644
--- a/src/poprf.rs
+++ b/src/poprf.rs
@@ -285,6 +285,8 @@ where
     /// # Errors
     /// - [`Error::Info`] if the `info` is longer than `u16::MAX`.
     /// - [`Error::Protocol`] if the protocol fails and can't be completed.
+    /// - [`Error::Batch`] if the number of `blinded_elements` is larger than
+    ///   [`u16::MAX`].
     #[cfg(feature = "alloc")]
     pub fn batch_blind_evaluate<'a, R: RngCore + CryptoRng, IE>(
         &self,
@@ -304,15 +306,13 @@ where
 
         let prepared_evaluation_elements: Vec<_> = prepared_evaluation_elements.collect();
 
-        // This can't fail because we know the size of the inputs.
         let PoprfServerBatchEvaluateFinishResult { messages, proof } =
             Self::batch_blind_evaluate_finish::<_, _, Vec<_>>(
                 rng,
                 blinded_elements.into_iter(),
                 &prepared_evaluation_elements,
                 &prepared_tweak,
-            )
-            .unwrap();
+            )?;
 
         let messages: Vec<_> = messages.collect();
 
-- 
2.43.0


From 9e198125ba41a35a00630db114110b2367930e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 3/6] fix: reject non-compressed SEC1 encodings of NIST curve
 elements

deserialize_elem accepted the SEC1 compact encoding (tag 0x05), which has the
same length as the compressed one but drops the sign of y, so an element had
several accepted encodings and some of them decoded to a different element.
---
 src/group/elliptic_curve.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/group/elliptic_curve.rs b/src/group/elliptic_curve.rs
index e74b1c2..310910a 100644
--- a/src/group/elliptic_curve.rs
+++ b/src/group/elliptic_curve.rs
@@ -10,7 +10,7 @@ use digest::core_api::BlockSizeUser;
 use digest::{FixedOutput, HashMarker};
 use elliptic_curve::group::cofactor::CofactorGroup;
 use elliptic_curve::hash2curve::{ExpandMsgXmd, FromOkm, GroupDigest};
-use elliptic_curve::sec1::{FromEncodedPoint, ModulusSize, ToEncodedPoint};
+use elliptic_curve::sec1::{EncodedPoint, FromEncodedPoint, ModulusSize, ToEncodedPoint};
 use elliptic_curve::{
     AffinePoint, Field, FieldBytesSize, Group as _, ProjectivePoint, PublicKey, Scalar, SecretKey,
 };
@@ -74,9 +74,16 @@ where
     }
 
     fn deserialize_elem(element_bits: &[u8]) -> Result<Self::Elem> {
-        PublicKey::<Self>::from_sec1_bytes(element_bits)
+        // Only the compressed encoding is valid, see
+        // https://www.rfc-editor.org/rfc/rfc9497#section-4.3
+        let point = EncodedPoint::<Self>::from_bytes(element_bits)
+            .ok()
+            .filter(|point| point.is_compressed())
+            .ok_or(Error::Deserialization)?;
+
+        Option::<PublicKey<Self>>::from(PublicKey::from_encoded_point(&point))
             .map(|public_key| public_key.to_projective())
-            .map_err(|_| Error::Deserialization)
+            .ok_or(Error::Deserialization)
     }
 
     fn random_scalar<R: RngCore + CryptoRng>(rng: &mut R) -> Self::Scalar {
-- 
2.43.0


From 88a5b747b2c386d570de1a81eafdd6f1ca349b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 4/6] fix: reject NIST curve scalars of the wrong length

deserialize_scalar zero-padded inputs shorter than a scalar, so e.g.
new_with_key accepted truncated private keys.
---
 src/group/elliptic_curve.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/group/elliptic_curve.rs b/src/group/elliptic_curve.rs
index 310910a..cb86244 100644
--- a/src/group/elliptic_curve.rs
+++ b/src/group/elliptic_curve.rs
@@ -14,7 +14,7 @@ use elliptic_curve::sec1::{EncodedPoint, FromEncodedPoint, ModulusSize, ToEncode
 use elliptic_curve::{
     AffinePoint, Field, FieldBytesSize, Group as _, ProjectivePoint, PublicKey, Scalar, SecretKey,
 };
-use generic_array::typenum::{IsLess, IsLessOrEqual, U256};
+use generic_array::typenum::{IsLess, IsLessOrEqual, Unsigned, U256};
 use generic_array::GenericArray;
 use rand_core::{CryptoRng, RngCore};
 
@@ -108,6 +108,11 @@ where
     }
 
     fn deserialize_scalar(scalar_bits: &[u8]) -> Result<Self::Scalar> {
+        // `SecretKey::from_slice` pads shorter inputs with zeros.
+        if scalar_bits.len() != Self::ScalarLen::USIZE {
+            return Err(Error::Deserialization);
+        }
+
         SecretKey::<Self>::from_slice(scalar_bits)
             .map(|secret_key| *secret_key.to_nonzero_scalar())
             .map_err(|_| Error::Deserialization)
-- 
2.43.0


From 04299a8df5f1c1488f984ebf76d329d1a4beae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 5/6] fix: blinding rejects inputs that hash to the identity
 element

RFC 9497 requires Blind to raise InvalidInputError in this case; the server's
evaluate already does.
---
 src/common.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common.rs b/src/common.rs
index f790edd..d97771e 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -444,6 +444,10 @@ where
         IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
 {
     let hashed_point = hash_to_group::<CS>(input, mode)?;
+    if CS::Group::is_identity_elem(hashed_point).into() {
+        return Err(Error::Input);
+    }
+
     Ok(hashed_point * blind)
 }
 
-- 
2.43.0


From bce2cab34e6704add9c6f1ba22c0ff3198776d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 6/6] fix: blinding rejects inputs longer than u16::MAX

As documented on the clients' blind. Until now such inputs were blinded and
evaluated, and only finalizing them failed.
---
 src/common.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common.rs b/src/common.rs
index d97771e..c3f5574 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -452,6 +452,8 @@ where
 }
 
 /// Hashes `input` to a point on the curve
+///
+/// Can only fail with [`Error::Input`].
 pub(crate) fn hash_to_group<CS: CipherSuite>(
     input: &[u8],
     mode: Mode,
@@ -460,6 +462,9 @@ where
     <CS::Hash as OutputSizeUser>::OutputSize:
         IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
 {
+    // `input` is length-prefixed with two bytes in the final hash.
+    let _ = i2osp_2(input.len()).map_err(|_| Error::Input)?;
+
     let dst = Dst::new::<CS, _, _>(STR_HASH_TO_GROUP, mode);
     CS::Group::hash_to_curve::<CS::Hash>(&[input], &dst.as_dst()).map_err(|_| Error::Input)
 }
-- 
2.43.0

