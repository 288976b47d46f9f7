From 509cb58121020eab41d2ea23b8b8e0387fd53209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:30 +0000
Subject: [PATCH 01/26] =?UTF-8?q?fix:=20reject=20=D0=9Fprm=20proofs=20with?=
 =?UTF-8?q?=20a=20wrong=20number=20of=20repetitions?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/zk/prm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zk/prm.rs b/src/zk/prm.rs
index 31e907b..d7ad71d 100644
--- a/src/zk/prm.rs
+++ b/src/zk/prm.rs
@@ -110,6 +110,10 @@ impl<P: SchemeParams> PrmProof<P> {
             return false;
         }
 
+        if challenge.0.bits().len() != self.proof.len() || challenge.0.bits().len() != self.commitment.0.len() {
+            return false;
+        }
+
         for ((e, z), a) in challenge
             .0
             .bits()
-- 
2.43.0


From 2e2974b074b9cc4b4ae4e0e7f8452d65cec482de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:30 +0000
Subject: [PATCH 02/26] =?UTF-8?q?fix:=20reject=20=CE=A0mod=20proofs=20with?=
 =?UTF-8?q?=20a=20wrong=20number=20of=20repetitions?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/zk/mod_.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zk/mod_.rs b/src/zk/mod_.rs
index 3b7d597..f4f3d5f 100644
--- a/src/zk/mod_.rs
+++ b/src/zk/mod_.rs
@@ -142,6 +142,10 @@ impl<P: SchemeParams> ModProof<P> {
             return false;
         }
 
+        if self.proof.len() != self.challenge.0.len() {
+            return false;
+        }
+
         let mut reader = Hasher::<P::Digest>::new_with_dst(b"P_mod RNG")
             // commitments
             .chain(&self.commitment)
-- 
2.43.0


From 36148abcc8ee0c2fee216ee5ef38342fd8d9f062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:37 +0000
Subject: [PATCH 03/26] fix: check the bound in SecretSigned::new_positive

---
 src/uint/secret_signed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uint/secret_signed.rs b/src/uint/secret_signed.rs
index 5334729..5ddbcb0 100644
--- a/src/uint/secret_signed.rs
+++ b/src/uint/secret_signed.rs
@@ -36,7 +36,7 @@ where
     pub fn new_positive(value: Secret<T>, bound: u32) -> CtOption<Self> {
         let in_bound = {
             let c1 = Choice::from((bound < T::BITS) as u8);
-            let c2 = Choice::from((value.expose_secret().bits() < T::BITS) as u8);
+            let c2 = Choice::from((value.expose_secret().bits() <= bound) as u8);
             c1 & c2
         };
         let new_positive = Self::new_from_unsigned_unchecked(value, bound);
-- 
2.43.0


From 93cfbed2ff3c6597a1ca67fd75f35a018060a9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:26 +0000
Subject: [PATCH 04/26] fix: accept only the compressed encoding when decoding
 a Point

---
 src/curve/arithmetic.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/curve/arithmetic.rs b/src/curve/arithmetic.rs
index ac8d77c..3f83b2d 100644
--- a/src/curve/arithmetic.rs
+++ b/src/curve/arithmetic.rs
@@ -267,6 +267,12 @@ where
     pub(crate) fn try_from_compressed_bytes(bytes: &[u8]) -> Result<Self, String> {
         let ep = EncodedPoint::<P::Curve>::from_bytes(bytes).map_err(|err| format!("{err}"))?;
 
+        // `EncodedPoint` also accepts the other SEC1 encodings (in particular that of the point at infinity),
+        // which `to_compressed_array()` never produces.
+        if !ep.is_compressed() {
+            return Err("Not a compressed curve point".into());
+        }
+
         // Unwrap CtOption into Option
         let cp_opt: Option<_> = <<P::Curve as CurveArithmetic>::ProjectivePoint>::from_encoded_point(&ep).into();
         cp_opt
-- 
2.43.0


From 208b6e8534393dde5d02855cdec132b1de475df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:13 +0000
Subject: [PATCH 05/26] fix: give AuxGen and KeyRefresh commitments their own
 domain tags

Both hashed their first-round commitment under the tag of KeyInit, so the
three protocols shared one commitment hash domain.
---
 src/protocols/aux_gen.rs     | 2 +-
 src/protocols/key_refresh.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/protocols/aux_gen.rs b/src/protocols/aux_gen.rs
index b2c75f6..a088ecb 100644
--- a/src/protocols/aux_gen.rs
+++ b/src/protocols/aux_gen.rs
@@ -290,7 +290,7 @@ pub(super) struct PublicData<P: SchemeParams> {
 
 impl<P: SchemeParams> PublicData<P> {
     pub(super) fn hash<Id: PartyId>(&self, sid: &Sid, id: &Id) -> HashOutput {
-        Hasher::<P::Digest>::new_with_dst(b"KeyInit")
+        Hasher::<P::Digest>::new_with_dst(b"AuxGen")
             .chain(sid)
             .chain(id)
             .chain(&self.paillier_pk.clone().into_wire())
diff --git a/src/protocols/key_refresh.rs b/src/protocols/key_refresh.rs
index adc6ba7..a930f80 100644
--- a/src/protocols/key_refresh.rs
+++ b/src/protocols/key_refresh.rs
@@ -452,7 +452,7 @@ pub(super) struct PublicData<P: SchemeParams, Id> {
 
 impl<P: SchemeParams, Id: PartyId> PublicData<P, Id> {
     pub(super) fn hash(&self, sid: &Sid, id: &Id) -> HashOutput {
-        Hasher::<P::Digest>::new_with_dst(b"KeyInit")
+        Hasher::<P::Digest>::new_with_dst(b"KeyRefresh")
             .chain(sid)
             .chain(id)
             .chain(&self.cap_xs)
-- 
2.43.0


From d350aa0a91b0d2420b6e7bd2c608af99e8539eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 06/26] fix: do not print the primes in the debug output of
 SecretKeyPaillier

---
 src/paillier/keys.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/paillier/keys.rs b/src/paillier/keys.rs
index e7b2c70..fdbccf5 100644
--- a/src/paillier/keys.rs
+++ b/src/paillier/keys.rs
@@ -47,7 +47,7 @@ impl<P: PaillierParams> SecretKeyPaillierWire<P> {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Clone)]
 pub(crate) struct SecretKeyPaillier<P: PaillierParams> {
     /// The secret primes with some precomputed constants,
     primes: SecretPrimes<P>,
@@ -68,6 +68,18 @@ pub(crate) struct SecretKeyPaillier<P: PaillierParams> {
     public_key: PublicKeyPaillier<P>,
 }
 
+// The Montgomery parameters contain the primes, so they must not appear in the debug output.
+impl<P> Debug for SecretKeyPaillier<P>
+where
+    P: PaillierParams,
+{
+    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+        f.debug_struct("SecretKeyPaillier")
+            .field("public_key", &self.public_key)
+            .finish_non_exhaustive()
+    }
+}
+
 impl<P> SecretKeyPaillier<P>
 where
     P: PaillierParams,
-- 
2.43.0


From 5d25a7ba972a4d747af7e6283815034976b8734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 07/26] fix: do not branch on residuosity modulo a single
 secret prime

---
 src/paillier/keys.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/paillier/keys.rs b/src/paillier/keys.rs
index fdbccf5..ff7d910 100644
--- a/src/paillier/keys.rs
+++ b/src/paillier/keys.rs
@@ -2,7 +2,7 @@ use core::fmt::Debug;
 
 use crypto_bigint::{
     modular::Retrieve,
-    subtle::{Choice, ConditionallySelectable},
+    subtle::{Choice, ConditionallySelectable, ConstantTimeEq},
     CheckedAdd, CheckedSub, Integer, InvMod, Invert, Monty, NonZero, Odd, PowBoundedExp, ShrVartime, Square,
     WrappingAdd,
 };
@@ -217,11 +217,12 @@ where
         (p_rem_mod, q_rem_mod)
     }
 
+    /// Returns a candidate for the square root of `x`, and whether it is the square root.
     fn sqrt_part(
         &self,
         x: &<P::HalfUint as Integer>::Monty,
         modulus: &Secret<P::HalfUint>,
-    ) -> Option<<P::HalfUint as Integer>::Monty> {
+    ) -> (<P::HalfUint as Integer>::Monty, Choice) {
         // Both `p` and `q` are safe primes, so they're 3 mod 4.
         // This means that if square root exists, it must be of the form `+/- x^((modulus+1)/4)`.
         // Also it means that `(modulus+1)/4 == modulus/4+1`
@@ -233,11 +234,8 @@ where
                 .wrapping_add(&<P::HalfUint as Integer>::one())
         });
         let candidate = x.pow_bounded_exp(power.expose_secret(), P::PRIME_BITS - 1);
-        if candidate.square() == *x {
-            Some(candidate)
-        } else {
-            None
-        }
+        let is_root = candidate.square().retrieve().ct_eq(&x.retrieve());
+        (candidate, is_root)
     }
 
     #[allow(clippy::type_complexity)]
@@ -248,11 +246,14 @@ where
         // TODO (#73): when we can extract the modulus from `HalfUintMod`, this can be moved there.
         // For now we have to keep this a method of SecretKey to have access to `p` and `q`.
         let (p_part, q_part) = rns;
-        let p_res = self.sqrt_part(p_part, self.primes.p_half());
-        let q_res = self.sqrt_part(q_part, self.primes.q_half());
-        match (p_res, q_res) {
-            (Some(p), Some(q)) => Some((p, q)),
-            _ => None,
+        let (p_res, p_is_root) = self.sqrt_part(p_part, self.primes.p_half());
+        let (q_res, q_is_root) = self.sqrt_part(q_part, self.primes.q_half());
+        // Only whether both roots exist is published;
+        // residuosity modulo one of the primes is secret, so it must not be branched on.
+        if (p_is_root & q_is_root).into() {
+            Some((p_res, q_res))
+        } else {
+            None
         }
     }
 
-- 
2.43.0


From 9cb470705c0ab54f861cbe59c137dd42e1e7ec9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 08/26] fix: decode scalars without a variable-time conversion

---
 src/curve/arithmetic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/curve/arithmetic.rs b/src/curve/arithmetic.rs
index 3f83b2d..3721501 100644
--- a/src/curve/arithmetic.rs
+++ b/src/curve/arithmetic.rs
@@ -137,7 +137,8 @@ impl<P: SchemeParams> Scalar<P> {
         let arr = GenericArray::<u8, FieldBytesSize<P::Curve>>::from_exact_iter(bytes.iter().cloned())
             .ok_or("Invalid length of a curve scalar")?;
 
-        BackendScalar::<P>::from_repr_vartime(arr)
+        // Not using `from_repr_vartime()` since the scalar may be secret.
+        Option::<BackendScalar<P>>::from(BackendScalar::<P>::from_repr(arr))
             .map(Self)
             .ok_or_else(|| "Invalid curve scalar representation".into())
     }
-- 
2.43.0


From ff1a0b538461be02e4d87d21decf09ebb77d05ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 09/26] fix: reject proofs built on elements that are not
 invertible

A masked randomizer equal to 0 made the Paillier equations of Enc-Elg, Aff-g, Aff-g*
and Dec hold trivially (with the corresponding commitment set to 0 as well), and
ring-Pedersen parameters with s = t = 0 passed Prm with all commitments set to 0.
---
 src/paillier/encryption.rs    | 9 ++++++++-
 src/paillier/ring_pedersen.rs | 8 +++++++-
 src/zk/aff_g.rs               | 5 +++++
 src/zk/aff_g_star.rs          | 5 +++++
 src/zk/dec.rs                 | 5 +++++
 src/zk/enc_elg.rs             | 5 +++++
 src/zk/prm.rs                 | 5 +++++
 7 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/paillier/encryption.rs b/src/paillier/encryption.rs
index 70b88f9..9ca85a3 100644
--- a/src/paillier/encryption.rs
+++ b/src/paillier/encryption.rs
@@ -17,13 +17,20 @@ use super::{
 };
 use crate::{
     tools::Secret,
-    uint::{Exponentiable, Extendable, PublicSigned, PublicUint, SecretSigned, SecretUnsigned, ToMontgomery},
+    uint::{Exponentiable, Extendable, IsInvertible, PublicSigned, PublicUint, SecretSigned, SecretUnsigned, ToMontgomery},
 };
 
 /// A public randomizer-like quantity used in ZK proofs.
 #[derive(Debug, Clone, Serialize, Deserialize)]
 pub(crate) struct MaskedRandomizer<P: PaillierParams>(PublicUint<P::Uint>);
 
+impl<P: PaillierParams> MaskedRandomizer<P> {
+    /// Returns `true` if this is an invertible element of $\mathbb{Z}_N$, as any masked [`Randomizer`] is.
+    pub fn is_invertible(&self, pk: &PublicKeyPaillier<P>) -> bool {
+        self.0.is_invertible(pk.modulus())
+    }
+}
+
 /// A ciphertext randomizer (an invertible element of $\mathbb{Z}_N$).
 #[derive(Debug, Clone)]
 pub(crate) struct Randomizer<P: PaillierParams> {
diff --git a/src/paillier/ring_pedersen.rs b/src/paillier/ring_pedersen.rs
index 66b2a78..3c2faa7 100644
--- a/src/paillier/ring_pedersen.rs
+++ b/src/paillier/ring_pedersen.rs
@@ -11,7 +11,7 @@ use super::{
 };
 use crate::{
     tools::Secret,
-    uint::{Exponentiable, PublicUint, SecretUnsigned, ToMontgomery},
+    uint::{Exponentiable, IsInvertible, PublicUint, SecretUnsigned, ToMontgomery},
 };
 
 /// Ring-Pedersen secret.
@@ -124,6 +124,12 @@ impl<P: PaillierParams> RPParams<P> {
         self.modulus.monty_params_mod_n()
     }
 
+    /// Returns `true` if both bases are invertible elements of $\mathbb{Z}_{\hat{N}}$.
+    pub fn bases_are_invertible(&self) -> bool {
+        self.base_randomizer.retrieve().is_invertible(self.modulus())
+            && self.base_value.retrieve().is_invertible(self.modulus())
+    }
+
     /// Creates a commitment for a secret `value` with a secret `randomizer`.
     pub fn commit<V, R>(&self, value: &V, randomizer: &R) -> RPCommitment<P>
     where
diff --git a/src/zk/aff_g.rs b/src/zk/aff_g.rs
index 5c1c246..d898d40 100644
--- a/src/zk/aff_g.rs
+++ b/src/zk/aff_g.rs
@@ -211,6 +211,11 @@ impl<P: SchemeParams> AffGProof<P> {
             return false;
         }
 
+        // w ∈ Z^*_{N_0}, w_y ∈ Z^*_{N_1}
+        if !self.w.is_invertible(public.pk0) || !self.w_y.is_invertible(public.pk1) {
+            return false;
+        }
+
         // C (*) z_1 (+) enc_0(z_2, w) == A (+) D (*) e
         if public.cap_c * &self.z1 + Ciphertext::new_public_with_randomizer(public.pk0, &self.z2, &self.w)
             != public.cap_d * &e + self.cap_a.to_precomputed(public.pk0)
diff --git a/src/zk/aff_g_star.rs b/src/zk/aff_g_star.rs
index 697c616..1987021 100644
--- a/src/zk/aff_g_star.rs
+++ b/src/zk/aff_g_star.rs
@@ -218,6 +218,11 @@ impl<P: SchemeParams> AffGStarProof<P> {
                 return false;
             }
 
+            // w_j ∈ Z^*_{N_0}, \lambda_j ∈ Z^*_{N_1}
+            if !element.w.is_invertible(public.pk0) || !element.lambda.is_invertible(public.pk1) {
+                return false;
+            }
+
             // C (*) z_j (+) enc_0(z^\prime_j, w_j) == A_j (+) D_j (*) e_j
             let cap_a = commitment.cap_a.to_precomputed(public.pk0);
             let lhs = public.cap_c * &element.z
diff --git a/src/zk/dec.rs b/src/zk/dec.rs
index cb92ac8..e30441b 100644
--- a/src/zk/dec.rs
+++ b/src/zk/dec.rs
@@ -213,6 +213,11 @@ impl<P: SchemeParams> DecProof<P> {
             .zip(self.commitments.iter())
             .zip(self.elements.iter())
         {
+            // \nu_j ∈ Z^*_{N_0}
+            if !element.nu.is_invertible(public.pk0) {
+                return false;
+            }
+
             // enc(w_j, \nu_j) (+) K (*) (-z_j) == A_j (+) D (*) e_j
             let cap_a = commitment.cap_a.to_precomputed(public.pk0);
             let lhs = Ciphertext::new_public_wide_with_randomizer(public.pk0, &element.w, &element.nu)
diff --git a/src/zk/enc_elg.rs b/src/zk/enc_elg.rs
index 94fc985..19d9b07 100644
--- a/src/zk/enc_elg.rs
+++ b/src/zk/enc_elg.rs
@@ -161,6 +161,11 @@ impl<P: SchemeParams> EncElgProof<P> {
             return false;
         }
 
+        // z_2 ∈ Z^*_{N_0}
+        if !self.z2.is_invertible(public.pk0) {
+            return false;
+        }
+
         // enc_0(z_1, z_2) == D (+) C (*) e
         let c = Ciphertext::new_public_with_randomizer(public.pk0, &self.z1, &self.z2);
         let cap_d = self.cap_d.to_precomputed(public.pk0);
diff --git a/src/zk/prm.rs b/src/zk/prm.rs
index d7ad71d..5b4cfe1 100644
--- a/src/zk/prm.rs
+++ b/src/zk/prm.rs
@@ -103,6 +103,11 @@ impl<P: SchemeParams> PrmProof<P> {
 
     /// Verify that the proof is correct for a secret corresponding to the given RP parameters.
     pub fn verify(&self, setup: &RPParams<P::Paillier>, aux: &impl Hashable) -> bool {
+        // s, t ∈ Z^*_{\hat{N}}
+        if !setup.bases_are_invertible() {
+            return false;
+        }
+
         let monty_params = setup.monty_params_mod_n();
 
         let challenge = PrmChallenge::new(&self.commitment, setup, aux);
-- 
2.43.0


From 218711a1949909ae5569d261013e22bd8f815bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:02 +0000
Subject: [PATCH 10/26] fix: reject non-invertible elements that a verifier
 raises to negative powers

Verification of Aff-g, Aff-g*, Dec and Fac panicked when a received ciphertext or
ring-Pedersen commitment was not invertible.
---
 src/paillier/encryption.rs    | 5 +++++
 src/paillier/ring_pedersen.rs | 7 ++++++-
 src/zk/aff_g.rs               | 5 +++++
 src/zk/aff_g_star.rs          | 5 +++++
 src/zk/dec.rs                 | 5 +++++
 src/zk/fac.rs                 | 6 ++++++
 6 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/paillier/encryption.rs b/src/paillier/encryption.rs
index 9ca85a3..8819950 100644
--- a/src/paillier/encryption.rs
+++ b/src/paillier/encryption.rs
@@ -101,6 +101,11 @@ impl<P: PaillierParams> Ciphertext<P> {
         &self.pk
     }
 
+    /// Returns `true` if this is an invertible element of $\mathbb{Z}_{N^2}$, as any correctly created ciphertext is.
+    pub fn is_invertible(&self) -> bool {
+        self.ciphertext.invert().is_some().into()
+    }
+
     /// Encrypts the plaintext with the provided randomizer.
     fn new_with_randomizer_inner(
         pk: &PublicKeyPaillier<P>,
diff --git a/src/paillier/ring_pedersen.rs b/src/paillier/ring_pedersen.rs
index 3c2faa7..5ce6ea3 100644
--- a/src/paillier/ring_pedersen.rs
+++ b/src/paillier/ring_pedersen.rs
@@ -1,7 +1,7 @@
 /// Implements the Definition 3.3 from the CGGMP'21 paper and related operations.
 use core::ops::Mul;
 
-use crypto_bigint::{modular::Retrieve, Integer, Monty, NonZero, RandomMod, ShrVartime};
+use crypto_bigint::{modular::Retrieve, Integer, Invert, Monty, NonZero, RandomMod, ShrVartime};
 use rand_core::CryptoRngCore;
 use serde::{Deserialize, Serialize};
 
@@ -201,6 +201,11 @@ impl<P: PaillierParams> RPCommitment<P> {
         RPCommitmentWire(self.0.retrieve().into())
     }
 
+    /// Returns `true` if this is an invertible element of $\mathbb{Z}_{\hat{N}}$, as any correctly created commitment is.
+    pub fn is_invertible(&self) -> bool {
+        self.0.invert().is_some().into()
+    }
+
     /// Raise to the power of `exponent`.
     pub fn pow<V>(&self, exponent: &V) -> Self
     where
diff --git a/src/zk/aff_g.rs b/src/zk/aff_g.rs
index d898d40..b1e163a 100644
--- a/src/zk/aff_g.rs
+++ b/src/zk/aff_g.rs
@@ -211,6 +211,11 @@ impl<P: SchemeParams> AffGProof<P> {
             return false;
         }
 
+        // C and Y are raised to negative powers below
+        if !public.cap_c.is_invertible() || !public.cap_y.is_invertible() {
+            return false;
+        }
+
         // w ∈ Z^*_{N_0}, w_y ∈ Z^*_{N_1}
         if !self.w.is_invertible(public.pk0) || !self.w_y.is_invertible(public.pk1) {
             return false;
diff --git a/src/zk/aff_g_star.rs b/src/zk/aff_g_star.rs
index 1987021..1d7e213 100644
--- a/src/zk/aff_g_star.rs
+++ b/src/zk/aff_g_star.rs
@@ -197,6 +197,11 @@ impl<P: SchemeParams> AffGStarProof<P> {
             return false;
         }
 
+        // C and Y are raised to negative powers below
+        if !public.cap_c.is_invertible() || !public.cap_y.is_invertible() {
+            return false;
+        }
+
         if e.bits().len() != self.commitments.len() || e.bits().len() != self.elements.len() {
             return false;
         }
diff --git a/src/zk/dec.rs b/src/zk/dec.rs
index e30441b..742492d 100644
--- a/src/zk/dec.rs
+++ b/src/zk/dec.rs
@@ -202,6 +202,11 @@ impl<P: SchemeParams> DecProof<P> {
             return false;
         }
 
+        // K is raised to negative powers below
+        if !public.cap_k.is_invertible() {
+            return false;
+        }
+
         if e.bits().len() != self.commitments.len() || e.bits().len() != self.elements.len() {
             return false;
         }
diff --git a/src/zk/fac.rs b/src/zk/fac.rs
index f755b11..a23a460 100644
--- a/src/zk/fac.rs
+++ b/src/zk/fac.rs
@@ -186,6 +186,9 @@ impl<P: SchemeParams> FacProof<P> {
         // s^{z_1} t^{w_1} == A P^e \mod \hat{N}
         let cap_a = self.cap_a.to_precomputed(setup);
         let cap_p = self.cap_p.to_precomputed(setup);
+        if !cap_p.is_invertible() {
+            return false;
+        }
         if setup.commit(&self.z1, &self.w1) != &cap_a * &cap_p.pow(&e) {
             return false;
         }
@@ -193,6 +196,9 @@ impl<P: SchemeParams> FacProof<P> {
         // s^{z_2} t^{w_2} == B Q^e \mod \hat{N}
         let cap_b = self.cap_b.to_precomputed(setup);
         let cap_q = self.cap_q.to_precomputed(setup);
+        if !cap_q.is_invertible() {
+            return false;
+        }
         if setup.commit(&self.z2, &self.w2) != &cap_b * &cap_q.pow(&e) {
             return false;
         }
-- 
2.43.0


From ca58bea65d1abbd26626b3e617e53d81dc1e41c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:15 +0000
Subject: [PATCH 11/26] fix: interactive_signing: WrongIdsPsi evidence reads
 the echo broadcasts the messages travel in

---
 src/protocols/interactive_signing.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index 5a69056..6d1b933 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -689,8 +689,8 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             }
             Error::R5WrongIdsPsi => {
                 // TODO (#188): currently unreachable from tests
-                let r5_nb = message
-                    .normal_broadcast
+                let r5_eb = message
+                    .echo_broadcast
                     .deserialize::<Round5EchoBroadcast<P, Id>>(format)?;
                 let expected_ids = associated_data
                     .aux
@@ -698,7 +698,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .keys()
                     .collect::<BTreeSet<_>>()
                     .without(&guilty_party);
-                verify_that(r5_nb.psis.keys().collect::<BTreeSet<_>>() != expected_ids)
+                verify_that(r5_eb.psis.keys().collect::<BTreeSet<_>>() != expected_ids)
             }
             Error::R5AffGStarFailed { failed_for } => {
                 // TODO (#188): currently unreachable from tests
@@ -841,8 +841,8 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             }
             Error::R6WrongIdsPsi => {
                 // TODO (#188): currently unreachable from tests
-                let r6_nb = message
-                    .normal_broadcast
+                let r6_eb = message
+                    .echo_broadcast
                     .deserialize::<Round6EchoBroadcast<P, Id>>(format)?;
                 let expected_ids = associated_data
                     .aux
@@ -850,7 +850,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .keys()
                     .collect::<BTreeSet<_>>()
                     .without(&guilty_party);
-                verify_that(r6_nb.hat_psis.keys().collect::<BTreeSet<_>>() != expected_ids)
+                verify_that(r6_eb.hat_psis.keys().collect::<BTreeSet<_>>() != expected_ids)
             }
             Error::R6AffGStarFailed { failed_for } => {
                 // TODO (#188): currently unreachable from tests
-- 
2.43.0


From e3c82977e052393cd19538c1c54ffc15816bf6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:15 +0000
Subject: [PATCH 12/26] fix: interactive_signing: R6DecFailed evidence reads
 the Round 6 message

---
 src/protocols/interactive_signing.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index 6d1b933..0b862cf 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -780,9 +780,9 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .get_round(3)?
                     .normal_broadcast
                     .deserialize::<Round3NormalBroadcast<P>>(format)?;
-                let r5_eb = message
+                let r6_eb = message
                     .echo_broadcast
-                    .deserialize::<Round5EchoBroadcast<P, Id>>(format)?;
+                    .deserialize::<Round6EchoBroadcast<P, Id>>(format)?;
 
                 // Calculate `\hat{D}_j` where `j = guilty_party`.
                 // `\hat{D}_j = sum_{l != j}(\hat{D}_{l,j} + \hat{F}_{j,l})
@@ -825,7 +825,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
 
                 let cap_x = associated_data.shares.as_map().try_get("`X` map", guilty_party)?;
 
-                verify_that(!r5_eb.psi_star.verify(
+                verify_that(!r6_eb.hat_psi_star.verify(
                     DecPublicInputs {
                         pk0: &pk,
                         cap_k: &cap_k,
-- 
2.43.0


From b9d5d3da74e85994c4c53da15efc795a5ab49189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:15 +0000
Subject: [PATCH 13/26] fix: interactive_signing: R2AffGHatPsiFailed evidence
 uses the guilty party's public share

---
 src/protocols/interactive_signing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index 0b862cf..7e936fe 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -494,7 +494,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .normal_broadcast
                     .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
 
-                let cap_x = associated_data.shares.as_map().try_get("shares", failed_for)?;
+                let cap_x = associated_data.shares.as_map().try_get("shares", guilty_party)?;
 
                 let failed_for_aux = &associated_data.aux.as_map().try_get("aux infos", failed_for)?;
                 let guilty_party_aux = &associated_data.aux.as_map().try_get("aux infos", guilty_party)?;
-- 
2.43.0


From c72c0c36d7f751851780162deca39005e4276ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:15 +0000
Subject: [PATCH 14/26] fix: interactive_signing: R3ElogFailed evidence uses
 the combined Gamma

---
 src/protocols/interactive_signing.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index 7e936fe..0fa8565 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -298,7 +298,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     ]
                     .into(),
                 ),
-                None,
+                Some([2.into()].into()),
             ),
             Error::R4InvalidSignatureShare => RequiredMessages::new(
                 RequiredMessageParts::normal_broadcast(),
@@ -558,6 +558,9 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .get_round(1)?
                     .echo_broadcast
                     .deserialize::<Round1EchoBroadcast<P>>(format)?;
+                let r2_ebs = combined_echos
+                    .get_round(2)?
+                    .deserialize_all::<Round2EchoBroadcast<P, Id>>(format)?;
                 let r2_eb = previous_messages
                     .get_round(2)?
                     .echo_broadcast
@@ -567,13 +570,15 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .deserialize::<Round3NormalBroadcast<P>>(format)?;
                 let aux = (&epid, guilty_party);
 
+                let cap_gamma = r2_eb.cap_gamma + r2_ebs.values().map(|eb| eb.cap_gamma).sum();
+
                 verify_that(!r3_nb.psi_prime.verify(
                     ElogPublicInputs {
                         cap_l: &r1_eb.cap_a1,
                         cap_m: &r1_eb.cap_a2,
                         cap_x: &r1_eb.cap_y,
                         cap_y: &r3_nb.cap_delta,
-                        h: &r2_eb.cap_gamma,
+                        h: &cap_gamma,
                     },
                     &aux,
                 ))
-- 
2.43.0


From 54523672556992888fad36493f6e0a0477149dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:15 +0000
Subject: [PATCH 15/26] fix: interactive_signing: AffGStarFailed evidence
 checks the statement the round checks

---
 src/protocols/interactive_signing.rs | 44 +++++++++++++---------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index 0fa8565..6f805a3 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -327,7 +327,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             Error::R5AffGStarFailed { .. } => RequiredMessages::new(
                 RequiredMessageParts::echo_broadcast(),
                 Some([(2.into(), RequiredMessageParts::echo_broadcast().and_normal_broadcast())].into()),
-                Some([1.into(), 2.into()].into()),
+                Some([1.into()].into()),
             ),
             Error::R6DecFailed => RequiredMessages::new(
                 RequiredMessageParts::echo_broadcast(),
@@ -344,8 +344,8 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             Error::R6WrongIdsPsi => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
             Error::R6AffGStarFailed { .. } => RequiredMessages::new(
                 RequiredMessageParts::echo_broadcast(),
-                None,
-                Some([1.into(), 2.into()].into()),
+                Some([(2.into(), RequiredMessageParts::echo_broadcast().and_normal_broadcast())].into()),
+                Some([1.into()].into()),
             ),
         }
     }
@@ -710,9 +710,6 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                 let r1_ebs = combined_echos
                     .get_round(1)?
                     .deserialize_all::<Round1EchoBroadcast<P>>(format)?;
-                let r2_ebs = combined_echos
-                    .get_round(2)?
-                    .deserialize_all::<Round2EchoBroadcast<P, Id>>(format)?;
                 let r2_nb = previous_messages
                     .get_round(2)?
                     .normal_broadcast
@@ -745,20 +742,19 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .try_get("Round 1 echo broadcasts", failed_for)?
                     .cap_k
                     .to_precomputed(&failed_for_pk);
-                let cap_f = r2_ebs
-                    .try_get("Round 2 echo broadcasts", failed_for)?
+                let cap_f = r2_eb
                     .cap_fs
-                    .try_get("`F` map", guilty_party)?
+                    .try_get("`F` map", failed_for)?
                     .to_precomputed(&guilty_party_pk);
 
                 let psi = r5_eb.psis.try_get("`\\{psi}` map", failed_for)?;
 
                 verify_that(!psi.verify(
                     AffGStarPublicInputs {
-                        pk0: &guilty_party_pk,
-                        pk1: &failed_for_pk,
-                        cap_c: &cap_d,
-                        cap_d: &cap_k,
+                        pk0: &failed_for_pk,
+                        pk1: &guilty_party_pk,
+                        cap_c: &cap_k,
+                        cap_d: &cap_d,
                         cap_y: &cap_f,
                         cap_x: &r2_eb.cap_gamma,
                     },
@@ -862,13 +858,14 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                 let r1_ebs = combined_echos
                     .get_round(1)?
                     .deserialize_all::<Round1EchoBroadcast<P>>(format)?;
-                let r2_ebs = combined_echos
-                    .get_round(2)?
-                    .deserialize_all::<Round2EchoBroadcast<P, Id>>(format)?;
                 let r2_nb = previous_messages
                     .get_round(2)?
                     .normal_broadcast
                     .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
+                let r2_eb = previous_messages
+                    .get_round(2)?
+                    .echo_broadcast
+                    .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
                 let r6_eb = message
                     .echo_broadcast
                     .deserialize::<Round6EchoBroadcast<P, Id>>(format)?;
@@ -881,7 +878,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                 let guilty_party_pk = guilty_party_aux.paillier_pk.clone().into_precomputed();
                 let aux = (&epid, guilty_party);
 
-                let cap_x = associated_data.shares.as_map().try_get("shares", failed_for)?;
+                let cap_x = associated_data.shares.as_map().try_get("shares", guilty_party)?;
 
                 // l = failed_for
                 // j = guilty_party
@@ -895,20 +892,19 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .try_get("Round 1 echo broadcasts", failed_for)?
                     .cap_k
                     .to_precomputed(&failed_for_pk);
-                let hat_cap_f = r2_ebs
-                    .try_get("Round 2 echo broadcasts", failed_for)?
+                let hat_cap_f = r2_eb
                     .hat_cap_fs
-                    .try_get("`\\hat{F}` map", guilty_party)?
+                    .try_get("`\\hat{F}` map", failed_for)?
                     .to_precomputed(&guilty_party_pk);
 
                 let hat_psi = r6_eb.hat_psis.try_get("`\\hat{\\psi}` map", failed_for)?;
 
                 verify_that(!hat_psi.verify(
                     AffGStarPublicInputs {
-                        pk0: &guilty_party_pk,
-                        pk1: &failed_for_pk,
-                        cap_c: &hat_cap_d,
-                        cap_d: &cap_k,
+                        pk0: &failed_for_pk,
+                        pk1: &guilty_party_pk,
+                        cap_c: &cap_k,
+                        cap_d: &hat_cap_d,
                         cap_y: &hat_cap_f,
                         cap_x,
                     },
-- 
2.43.0


From 21d1ec763cb47c6b3ff4dd07ba1d1c302db5fa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:31 +0000
Subject: [PATCH 16/26] fix: interactive_signing: Round 2 checks the id sets of
 the hat maps

---
 src/protocols/interactive_signing.rs | 58 ++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index 6f805a3..b915137 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -140,6 +140,10 @@ impl<P, Id: Debug> Display for InteractiveSigningError<P, Id> {
                 Error::R2WrongIdsD => "Round 2: wrong IDs in `D` map.",
                 Error::R2WrongIdsF => "Round 2: wrong IDs in `F` map.",
                 Error::R2WrongIdsPsi => "Round 2: wrong IDs in `\\psi` map (`П^{aff-g}` proofs for `D`).",
+                Error::R2WrongIdsHatD => "Round 2: wrong IDs in `\\hat{D}` map.",
+                Error::R2WrongIdsHatF => "Round 2: wrong IDs in `\\hat{F}` map.",
+                Error::R2WrongIdsHatPsi =>
+                    "Round 2: wrong IDs in `\\hat{\\psi}` map (`П^{aff-g}` proofs for `\\hat{D}`).",
                 Error::R2AffGPsiFailed { .. } => "Round 2: failed to verify `\\psi` (`П^{aff-g}` proof for `D`).",
                 Error::R2AffGHatPsiFailed { .. } =>
                     "Round 2: failed to verify `\\hat{psi}` (`П^{aff-g}` proof for `\\hat{D}`).",
@@ -165,6 +169,9 @@ enum Error<Id> {
     R2WrongIdsD,
     R2WrongIdsF,
     R2WrongIdsPsi,
+    R2WrongIdsHatD,
+    R2WrongIdsHatF,
+    R2WrongIdsHatPsi,
     R2AffGPsiFailed {
         /// The index $k$ for which the verification of $\psi_{k,j}$ failed
         /// (where $j$ is the index of the guilty party).
@@ -274,6 +281,9 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             Error::R2WrongIdsD => RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None),
             Error::R2WrongIdsF => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
             Error::R2WrongIdsPsi => RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None),
+            Error::R2WrongIdsHatD => RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None),
+            Error::R2WrongIdsHatF => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
+            Error::R2WrongIdsHatPsi => RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None),
             Error::R2AffGPsiFailed { .. } => RequiredMessages::new(
                 RequiredMessageParts::echo_broadcast().and_normal_broadcast(),
                 None,
@@ -443,6 +453,42 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .without(&guilty_party);
                 verify_that(r2_nb.psis.keys().collect::<BTreeSet<_>>() != expected_ids)
             }
+            Error::R2WrongIdsHatD => {
+                let r2_nb = message
+                    .normal_broadcast
+                    .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
+                let expected_ids = associated_data
+                    .aux
+                    .as_map()
+                    .keys()
+                    .collect::<BTreeSet<_>>()
+                    .without(&guilty_party);
+                verify_that(r2_nb.hat_cap_ds.keys().collect::<BTreeSet<_>>() != expected_ids)
+            }
+            Error::R2WrongIdsHatF => {
+                let r2_eb = message
+                    .echo_broadcast
+                    .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
+                let expected_ids = associated_data
+                    .aux
+                    .as_map()
+                    .keys()
+                    .collect::<BTreeSet<_>>()
+                    .without(&guilty_party);
+                verify_that(r2_eb.hat_cap_fs.keys().collect::<BTreeSet<_>>() != expected_ids)
+            }
+            Error::R2WrongIdsHatPsi => {
+                let r2_nb = message
+                    .normal_broadcast
+                    .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
+                let expected_ids = associated_data
+                    .aux
+                    .as_map()
+                    .keys()
+                    .collect::<BTreeSet<_>>()
+                    .without(&guilty_party);
+                verify_that(r2_nb.hat_psis.keys().collect::<BTreeSet<_>>() != expected_ids)
+            }
             Error::R2AffGPsiFailed { failed_for } => {
                 let r1_eb = combined_echos
                     .get_round(1)?
@@ -1570,6 +1616,18 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round2<P, Id> {
             return Err(ReceiveError::protocol(Error::R2WrongIdsPsi.into()));
         }
 
+        if normal_broadcast.hat_cap_ds.keys().cloned().collect::<BTreeSet<_>>() != expected_ids {
+            return Err(ReceiveError::protocol(Error::R2WrongIdsHatD.into()));
+        }
+
+        if echo_broadcast.hat_cap_fs.keys().cloned().collect::<BTreeSet<_>>() != expected_ids {
+            return Err(ReceiveError::protocol(Error::R2WrongIdsHatF.into()));
+        }
+
+        if normal_broadcast.hat_psis.keys().cloned().collect::<BTreeSet<_>>() != expected_ids {
+            return Err(ReceiveError::protocol(Error::R2WrongIdsHatPsi.into()));
+        }
+
         let sender_payload = self.r1_payloads.safe_get("Round 1 payloads", from)?;
 
         let mut cap_ds = BTreeMap::new();
-- 
2.43.0


From 69967d1250c02ec25be6ede65d4c02fc294e78c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 17/26] fix: key_resharing: message validity tables instead of
 unimplemented!()

---
 src/protocols/key_resharing.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/protocols/key_resharing.rs b/src/protocols/key_resharing.rs
index 2a55759..88efe1a 100644
--- a/src/protocols/key_resharing.rs
+++ b/src/protocols/key_resharing.rs
@@ -46,27 +46,36 @@ impl<P: SchemeParams, I: PartyId> Protocol<I> for KeyResharingProtocol<P, I> {
     type ProtocolError = KeyResharingError;
 
     fn verify_direct_message_is_invalid(
-        _format: &BoxedFormat,
-        _round_id: &RoundId,
-        _message: &DirectMessage,
+        format: &BoxedFormat,
+        round_id: &RoundId,
+        message: &DirectMessage,
     ) -> Result<(), MessageValidationError> {
-        unimplemented!()
+        match round_id {
+            r if r == &1 => message.verify_is_not::<Round1DirectMessage<P>>(format),
+            _ => Err(MessageValidationError::InvalidEvidence("Invalid round number".into())),
+        }
     }
 
     fn verify_echo_broadcast_is_invalid(
-        _format: &BoxedFormat,
-        _round_id: &RoundId,
-        _message: &EchoBroadcast,
+        format: &BoxedFormat,
+        round_id: &RoundId,
+        message: &EchoBroadcast,
     ) -> Result<(), MessageValidationError> {
-        unimplemented!()
+        match round_id {
+            r if r == &1 => message.verify_is_not::<Round1BroadcastMessage<P>>(format),
+            _ => Err(MessageValidationError::InvalidEvidence("Invalid round number".into())),
+        }
     }
 
     fn verify_normal_broadcast_is_invalid(
         _format: &BoxedFormat,
-        _round_id: &RoundId,
-        _message: &NormalBroadcast,
+        round_id: &RoundId,
+        message: &NormalBroadcast,
     ) -> Result<(), MessageValidationError> {
-        unimplemented!()
+        match round_id {
+            r if r == &1 => message.verify_is_some(),
+            _ => Err(MessageValidationError::InvalidEvidence("Invalid round number".into())),
+        }
     }
 }
 
-- 
2.43.0


From 8d5c2795f67aee02014b14f359ccdd4a2429b0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 18/26] fix: report a wrong length of a contribution to the
 shared randomness instead of panicking

The contributions rho/rid are combined with BitVec's XOR, which panics when the
lengths differ, and their lengths come from the remote party.
---
 src/protocols/aux_gen.rs     | 19 +++++++++++++++++++
 src/protocols/key_init.rs    | 19 +++++++++++++++++++
 src/protocols/key_refresh.rs | 21 +++++++++++++++++++++
 3 files changed, 59 insertions(+)

diff --git a/src/protocols/aux_gen.rs b/src/protocols/aux_gen.rs
index a088ecb..c564c5d 100644
--- a/src/protocols/aux_gen.rs
+++ b/src/protocols/aux_gen.rs
@@ -112,6 +112,7 @@ impl<P, Id: PartyId> Display for AuxGenError<P, Id> {
                 Error::R2PrmFailed => "Round 2: `П^{prm}` verification failed.",
                 Error::R3ModFailed => "Round 3: `П^{mod}` verification failed.",
                 Error::R3FacFailed { .. } => "Round 3: `П^{fac}` verification failed.",
+                Error::R2WrongRidLength => "Round 2: the contribution to the shared randomness has a wrong length.",
             }
         )
     }
@@ -129,6 +130,7 @@ enum Error<Id> {
         /// The index $i$ of the node that produced the evidence.
         reported_by: Id,
     },
+    R2WrongRidLength,
 }
 
 /// Reconstruct `rid` from echoed messages
@@ -145,6 +147,14 @@ fn reconstruct_rid<P: SchemeParams, Id: PartyId>(
         .echo_broadcast
         .deserialize::<Round2EchoBroadcast<P>>(format)?;
     let mut rid_combined = r2_eb.rid;
+    if r2_ebs
+        .values()
+        .any(|message| message.rid.bits().len() != rid_combined.bits().len())
+    {
+        return Err(ProtocolValidationError::InvalidEvidence(
+            "the echoed contributions to the shared randomness have different lengths".into(),
+        ));
+    }
     for message in r2_ebs.values() {
         rid_combined ^= &message.rid;
     }
@@ -187,6 +197,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for AuxGenError<P, Id> {
                 Some([(2.into(), RequiredMessageParts::echo_broadcast().and_normal_broadcast())].into()),
                 Some([2.into()].into()),
             ),
+            Error::R2WrongRidLength => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
         }
     }
 
@@ -275,6 +286,10 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for AuxGenError<P, Id> {
                 let rp_params = r2_eb.rp_params.to_precomputed();
                 verify_that(!r3_dm.psi.verify(&paillier_pk, &rp_params, &aux))
             }
+            Error::R2WrongRidLength => {
+                let r2_eb = message.echo_broadcast.deserialize::<Round2EchoBroadcast<P>>(format)?;
+                verify_that(r2_eb.rid.bits().len() != P::SECURITY_BITS)
+            }
         }
     }
 }
@@ -552,6 +567,10 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round2<P, Id> {
             return Err(ReceiveError::protocol(Error::R2HashMismatch.into()));
         }
 
+        if data.rid.bits().len() != P::SECURITY_BITS {
+            return Err(ReceiveError::protocol(Error::R2WrongRidLength.into()));
+        }
+
         if data.paillier_pk.modulus().bits_vartime() < <P::Paillier as PaillierParams>::MODULUS_BITS - 2 {
             return Err(ReceiveError::protocol(Error::R2PaillierModulusTooSmall.into()));
         }
diff --git a/src/protocols/key_init.rs b/src/protocols/key_init.rs
index f494d57..bd71eb4 100644
--- a/src/protocols/key_init.rs
+++ b/src/protocols/key_init.rs
@@ -109,6 +109,8 @@ enum Error {
     R2HashMismatch,
     /// Round 3: failed to verify `П^{{sch}}`.
     R3InvalidSchProof,
+    /// Round 2: the contribution to the shared randomness has a wrong length.
+    R2WrongRhoLength,
 }
 
 /// Associated data for KeyInit protocol.
@@ -133,6 +135,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyInitError<P> {
                 Some([(2.into(), RequiredMessageParts::echo_broadcast().and_normal_broadcast())].into()),
                 Some([2.into()].into()),
             ),
+            Error::R2WrongRhoLength => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
         }
     }
 
@@ -183,6 +186,14 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyInitError<P> {
                     .deserialize::<Round3NormalBroadcast<P>>(format)?;
 
                 let mut rho = r2_eb.rho;
+                if r2_ebs
+                    .values()
+                    .any(|message| message.rho.bits().len() != rho.bits().len())
+                {
+                    return Err(ProtocolValidationError::InvalidEvidence(
+                        "the echoed contributions to the shared randomness have different lengths".into(),
+                    ));
+                }
                 for message in r2_ebs.values() {
                     rho ^= &message.rho;
                 }
@@ -190,6 +201,10 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyInitError<P> {
                 let aux = (&sid, guilty_party, &rho);
                 verify_that(!r3_nb.psi.verify(&r2_nb.cap_a, &r2_nb.cap_x, &aux))
             }
+            Error::R2WrongRhoLength => {
+                let r2_eb = message.echo_broadcast.deserialize::<Round2EchoBroadcast>(format)?;
+                verify_that(r2_eb.rho.bits().len() != P::SECURITY_BITS)
+            }
         }
     }
 }
@@ -448,6 +463,10 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round2<P, Id> {
             return Err(ReceiveError::protocol(Error::R2HashMismatch.into()));
         }
 
+        if data.rho.bits().len() != P::SECURITY_BITS {
+            return Err(ReceiveError::protocol(Error::R2WrongRhoLength.into()));
+        }
+
         Ok(Payload::new(Round2Payload {
             cap_x: data.cap_x,
             rho: data.rho,
diff --git a/src/protocols/key_refresh.rs b/src/protocols/key_refresh.rs
index a930f80..23b5fb8 100644
--- a/src/protocols/key_refresh.rs
+++ b/src/protocols/key_refresh.rs
@@ -139,6 +139,7 @@ where
                 Error::R3FacFailed { .. } => "Round 3: `П^{fac}` verification failed.",
                 Error::R3WrongIdsHatPsi => "Round 3: Wrong IDs in Schnorr proofs map.",
                 Error::R3SchFailed { .. } => "Round 3: `П^{sch}` verification failed.",
+                Error::R2WrongRidLength => "Round 2: the contribution to the shared randomness has a wrong length.",
             }
         )
     }
@@ -177,6 +178,7 @@ where
         /// (where $j$ is the index of the guilty party).
         failed_for: Id,
     },
+    R2WrongRidLength,
 }
 
 /// Reconstruct `rid` from echoed messages
@@ -193,6 +195,14 @@ fn reconstruct_rid<P: SchemeParams, Id: PartyId>(
         .echo_broadcast
         .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
     let mut rid_combined = r2_eb.rid;
+    if r2_ebs
+        .values()
+        .any(|message| message.rid.bits().len() != rid_combined.bits().len())
+    {
+        return Err(ProtocolValidationError::InvalidEvidence(
+            "the echoed contributions to the shared randomness have different lengths".into(),
+        ));
+    }
     for message in r2_ebs.values() {
         rid_combined ^= &message.rid;
     }
@@ -250,6 +260,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyRefreshError<P, Id>
                 Some([(2.into(), RequiredMessageParts::echo_broadcast().and_normal_broadcast())].into()),
                 Some([2.into()].into()),
             ),
+            Error::R2WrongRidLength => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
         }
     }
 
@@ -434,6 +445,12 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyRefreshError<P, Id>
                 let hat_psi = r3_eb.hat_psis.try_get("Schnorr proofs", failed_for)?;
                 verify_that(!hat_psi.verify(cap_a, cap_x, &aux))
             }
+            Error::R2WrongRidLength => {
+                let r2_eb = message
+                    .echo_broadcast
+                    .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
+                verify_that(r2_eb.rid.bits().len() != P::SECURITY_BITS)
+            }
         }
     }
 }
@@ -766,6 +783,10 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round2<P, Id> {
             return Err(ReceiveError::protocol(Error::R2HashMismatch.into()));
         }
 
+        if data.rid.bits().len() != P::SECURITY_BITS {
+            return Err(ReceiveError::protocol(Error::R2WrongRidLength.into()));
+        }
+
         if data.cap_xs.keys().cloned().collect::<BTreeSet<_>>() != self.context.all_ids {
             return Err(ReceiveError::protocol(Error::R2WrongIdsX.into()));
         }
-- 
2.43.0


From 962fea0193c3ba91c537fcff3aa4cfb1fa7d2af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 19/26] fix: reject an even RSA modulus on deserialization

PublicModulus::new() requires the modulus to be odd, and the modulus of a
remote party comes from its message.
---
 src/paillier/rsa.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/paillier/rsa.rs b/src/paillier/rsa.rs
index ef0e5be..0cf2d6b 100644
--- a/src/paillier/rsa.rs
+++ b/src/paillier/rsa.rs
@@ -5,14 +5,14 @@ use crypto_primes::{
 };
 use digest::XofReader;
 use rand_core::CryptoRngCore;
-use serde::{Deserialize, Serialize};
+use serde::{de::Error, Deserialize, Deserializer, Serialize};
 
 use super::params::PaillierParams;
 use crate::{
     tools::Secret,
     uint::{
-        Extendable, FromXofReader, IsInvertible, MulWide, PublicSigned, PublicUint, SecretSigned, SecretUnsigned,
-        ToMontgomery,
+        BoxedEncoding, Extendable, FromXofReader, IsInvertible, MulWide, PublicSigned, PublicUint, SecretSigned,
+        SecretUnsigned, ToMontgomery,
     },
 };
 
@@ -227,7 +227,20 @@ impl<P: PaillierParams> SecretPrimes<P> {
 ///
 /// Suitable for serialization or transmission.
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
-pub(crate) struct PublicModulusWire<P: PaillierParams>(PublicUint<P::Uint>);
+pub(crate) struct PublicModulusWire<P: PaillierParams>(
+    #[serde(deserialize_with = "deserialize_odd")] PublicUint<P::Uint>,
+);
+
+fn deserialize_odd<'de, D: Deserializer<'de>, T: Integer + BoxedEncoding>(
+    deserializer: D,
+) -> Result<PublicUint<T>, D::Error> {
+    let value = PublicUint::<T>::deserialize(deserializer)?;
+    if value.is_odd().into() {
+        Ok(value)
+    } else {
+        Err(D::Error::custom("An RSA modulus must be odd"))
+    }
+}
 
 impl<P: PaillierParams> PublicModulusWire<P> {
     fn new(primes: &SecretPrimesWire<P>) -> Self {
-- 
2.43.0


From c6d88e7f1d4bd423da8ea7c4727f085c6324011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 20/26] fix: reject the identity as S in DecProof::verify()
 instead of panicking

In presigning S is delta * G, where delta comes from the prover's message;
the identity does not have a compressed representation, so hashing it panics.
---
 src/zk/dec.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zk/dec.rs b/src/zk/dec.rs
index 742492d..2e8e33c 100644
--- a/src/zk/dec.rs
+++ b/src/zk/dec.rs
@@ -181,6 +181,12 @@ impl<P: SchemeParams> DecProof<P> {
     }
 
     pub fn verify(&self, public: DecPublicInputs<'_, P>, setup: &RPParams<P::Paillier>, aux: &impl Hashable) -> bool {
+        // `S` may be derived from a scalar chosen by the prover.
+        // The identity does not have a representation that can be hashed.
+        if public.cap_s == &Point::identity() {
+            return false;
+        }
+
         let mut reader = Hasher::<P::Digest>::new_with_dst(HASH_TAG)
             // commitments
             .chain(&self.commitments)
-- 
2.43.0


From c8ee151bab112ecb0a81580f2dcb8219233f295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:27 +0000
Subject: [PATCH 21/26] fix: check the degree of the received polynomial in
 KeyResharing, and do not panic on invalid shares

The polynomial comes from the remote party: evaluating one with less than two
coefficients panicked, and one of another degree would change the threshold.
Shares that do not add up to the expected key are an error, not a panic.
---
 src/protocols/key_resharing.rs | 14 +++++++++++++-
 src/tools/sss.rs               |  7 ++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/protocols/key_resharing.rs b/src/protocols/key_resharing.rs
index 88efe1a..f77e485 100644
--- a/src/protocols/key_resharing.rs
+++ b/src/protocols/key_resharing.rs
@@ -86,6 +86,8 @@ pub enum KeyResharingError {
     UnexpectedSender,
     /// Mismatch of the subshare
     SubshareMismatch,
+    /// The degree of the public polynomial does not correspond to the new threshold
+    WrongPolynomialDegree,
 }
 
 impl<I> ProtocolError<I> for KeyResharingError {
@@ -189,6 +191,10 @@ where
             })
             .collect();
 
+        if self.new_threshold == 0 {
+            return Err(LocalError::new("The new threshold must be positive"));
+        }
+
         if self.old_holder.is_none() && self.new_holder.is_none() {
             return Err(LocalError::new("Either old holder or new holder data must be provided"));
         };
@@ -357,6 +363,10 @@ impl<P: SchemeParams, I: PartyId> Round<I> for Round1<P, I> {
 
         if let Some(new_holder) = self.new_holder.as_ref() {
             if new_holder.inputs.old_holders.contains(from) {
+                if echo_broadcast.public_polynomial.len() != self.new_threshold {
+                    return Err(ReceiveError::protocol(KeyResharingError::WrongPolynomialDegree));
+                }
+
                 let my_share_id = self.new_share_ids.get(&self.my_id).ok_or(LocalError::new(format!(
                     "my_id={:?} is missing from the new_share_ids",
                     &self.my_id
@@ -434,7 +444,9 @@ impl<P: SchemeParams, I: PartyId> Round<I> for Round1<P, I> {
             // TODO (#113): this is unattributable.
             // Should we add an enum variant to `FinalizeError`?
             // or take the public shares as an input (assuming the nodes published those previously)
-            panic!("Invalid shares");
+            return Err(LocalError::new(
+                "the received shares do not add up to the expected verifying key",
+            ));
         }
 
         // Assemble the new share.
diff --git a/src/tools/sss.rs b/src/tools/sss.rs
index 62dc040..ace76ad 100644
--- a/src/tools/sss.rs
+++ b/src/tools/sss.rs
@@ -39,7 +39,7 @@ where
     Coef: Copy + Add<Coef, Output = Coef> + for<'a> Mul<&'a Scalar<P>, Output = Coef> + Clone,
     P: SchemeParams,
 {
-    assert!(coeffs.len() > 1, "Expected coefficients to be non-empty");
+    assert!(!coeffs.is_empty(), "Expected coefficients to be non-empty");
     // Evaluate in reverse to save on multiplications.
     // Basically: a0 + a1 x + a2 x^2 + a3 x^3 == (((a3 x) + a2) x + a1) x + a0
 
@@ -98,6 +98,11 @@ where
         evaluate_polynomial(&self.0, &x.0)
     }
 
+    /// The number of coefficients (that is, the threshold of the sharing).
+    pub fn len(&self) -> usize {
+        self.0.len()
+    }
+
     pub fn coeff0(&self) -> Result<&Point<P>, LocalError> {
         self.0
             .first()
-- 
2.43.0


From 38ff5e27175d73115c3b7250f4024eae321506a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:46 +0000
Subject: [PATCH 22/26] fix: reject an inconsistent set of parties in
 ThresholdKeyShare::to_key_share

---
 src/entities/threshold.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/entities/threshold.rs b/src/entities/threshold.rs
index bf49165..b7e1f0c 100644
--- a/src/entities/threshold.rs
+++ b/src/entities/threshold.rs
@@ -143,8 +143,16 @@ where
     /// (for the `t` share indices supplied as `share_ids`)
     /// that can be used in the presigning/signing protocols.
     pub fn to_key_share(&self, ids: &BTreeSet<I>) -> Result<KeyShare<P, I>, LocalError> {
-        debug_assert!(ids.len() == self.threshold as usize);
-        debug_assert!(ids.iter().any(|id| id == &self.owner));
+        if ids.len() != self.threshold as usize {
+            return Err(LocalError::new(format!(
+                "Expected exactly {} parties, got {}",
+                self.threshold,
+                ids.len()
+            )));
+        }
+        if !ids.contains(&self.owner) {
+            return Err(LocalError::new("The set of parties must include the owner of the share"));
+        }
 
         let owner_share_id = self
             .share_ids
-- 
2.43.0


From 85d6e81ea8cf5d663cf22267c8f1d415a0c3e745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:46 +0000
Subject: [PATCH 23/26] fix: reject a zero threshold in
 ThresholdKeyShare::new_centralized

---
 src/entities/threshold.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/threshold.rs b/src/entities/threshold.rs
index b7e1f0c..b39c914 100644
--- a/src/entities/threshold.rs
+++ b/src/entities/threshold.rs
@@ -67,9 +67,9 @@ where
         threshold: usize,
         signing_key: Option<&SigningKey<P::Curve>>,
     ) -> Result<BTreeMap<I, Self>, LocalError> {
-        if threshold > ids.len() {
+        if threshold == 0 || threshold > ids.len() {
             return Err(LocalError::new(format!(
-                "Invalid threshold ({threshold}). Must be smaller than {}",
+                "Invalid threshold ({threshold}). Must be positive and no greater than {}",
                 ids.len()
             )));
         }
-- 
2.43.0


From 95a45da8b735a4ba39032d41888f707194642189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:25 +0000
Subject: [PATCH 24/26] fix: require distinct share IDs of the old holders in
 key resharing

---
 src/protocols/key_resharing.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/protocols/key_resharing.rs b/src/protocols/key_resharing.rs
index f77e485..1d882e2 100644
--- a/src/protocols/key_resharing.rs
+++ b/src/protocols/key_resharing.rs
@@ -430,6 +430,10 @@ impl<P: SchemeParams, I: PartyId> Round<I> for Round1<P, I> {
             .values()
             .map(|payload| payload.old_share_id)
             .collect::<Vec<_>>();
+        // The interpolation below is only meaningful for distinct share IDs.
+        if old_share_ids.iter().collect::<BTreeSet<_>>().len() != old_share_ids.len() {
+            return Err(LocalError::new("the share IDs of the old holders are not all distinct"));
+        }
 
         let vkey = payloads
             .values()
-- 
2.43.0


From fe39757daaac3465df44f18753cbbd7715feb555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:53 +0000
Subject: [PATCH 25/26] fix: check the parties taking part in key resharing
 before starting it

---
 src/protocols/key_resharing.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/protocols/key_resharing.rs b/src/protocols/key_resharing.rs
index 1d882e2..4616fe7 100644
--- a/src/protocols/key_resharing.rs
+++ b/src/protocols/key_resharing.rs
@@ -199,6 +199,30 @@ where
             return Err(LocalError::new("Either old holder or new holder data must be provided"));
         };
 
+        if self.new_threshold > self.new_holders.len() {
+            return Err(LocalError::new(
+                "The new threshold must not exceed the number of the new holders",
+            ));
+        }
+
+        if let Some(old_holder) = self.old_holder.as_ref() {
+            if &old_holder.key_share.owner != id {
+                return Err(LocalError::new("The old key share must belong to this node"));
+            }
+        }
+
+        if let Some(new_holder) = self.new_holder.as_ref() {
+            if !self.new_holders.contains(id) {
+                return Err(LocalError::new("The new holders must contain this node's ID"));
+            }
+            // This node's own contribution is included if and only if it has an old share.
+            if new_holder.old_holders.contains(id) != self.old_holder.is_some() {
+                return Err(LocalError::new(
+                    "This node must be listed as an old holder if and only if it has an old key share",
+                ));
+            }
+        }
+
         let message_destinations = if self.old_holder.is_some() {
             // It is possible that a party is both an old holder and a new holder.
             // This will be processed separately.
-- 
2.43.0


From 845267640465ccae58c7bc8c66138034ca6fa28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:46 +0000
Subject: [PATCH 26/26] fix: keep residues derived from a hash below the
 modulus

`PublicModulus::invertible_residue_from_xof_reader()` is documented to return a number
in [0, N), but only tested that the candidate is invertible, and candidates range over
[0, 2^bits(N)). Values from N upwards are now rejected, as in the rejection sampling
of the other functions; otherwise the residues below 2^bits(N) - N are twice as likely.
---
 src/paillier/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paillier/rsa.rs b/src/paillier/rsa.rs
index 0cf2d6b..8f83e99 100644
--- a/src/paillier/rsa.rs
+++ b/src/paillier/rsa.rs
@@ -322,7 +322,7 @@ impl<P: PaillierParams> PublicModulus<P> {
         let modulus_bits = self.modulus().bits_vartime();
         loop {
             let r = P::Uint::from_xof_reader(reader, modulus_bits);
-            if r.is_invertible(&self.modulus.0) {
+            if &r < self.modulus() && r.is_invertible(&self.modulus.0) {
                 return r;
             }
         }
-- 
2.43.0

