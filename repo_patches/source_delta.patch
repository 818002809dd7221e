From b503eca21083ef4eefb66466465da4caedea7b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:47 +0000
Subject: [PATCH 01/27] fix: make the user module compile

blind_request named CredentialBlindRequest without importing it and assigned a
bare Keypair to an Option, so the whole library did not build.
---
 aeonflux/src/user.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeonflux/src/user.rs b/aeonflux/src/user.rs
index 4cd8647..eb49790 100644
--- a/aeonflux/src/user.rs
+++ b/aeonflux/src/user.rs
@@ -28,6 +28,7 @@ use serde::de::Visitor;
 
 use amacs;
 use credential::Credential;
+use credential::CredentialBlindRequest;
 use credential::CredentialIssuance;
 use credential::CredentialPresentation;
 use credential::CredentialRequest;
@@ -260,7 +261,7 @@ impl User {
         C: CryptoRng + RngCore,
     {
         if self.key.is_none() {
-            self.key = elgamal::Keypair::generate::<C>(&mut csprng);
+            self.key = Some(elgamal::Keypair::generate::<C>(csprng));
         }
 
         unimplemented!();
-- 
2.43.0


From d3531b34994dc4e10fd83c14ecc4bcdbe2503385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:57 +0000
Subject: [PATCH 02/27] fix: reject tags with an identity nonce in amacs

MAC_GGM must refuse the identity as nonce: (identity, identity) satisfies the
verification equation for every key and message.  The check compared the nonce
with the basepoint instead, which also refused one honest tag.
---
 aeonflux/src/amacs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index dcc65c7..a6aef31 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -39,11 +39,11 @@ use core::ops::{Index, Mul};
 
 use clear_on_drop::clear::Clear;
 
-use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
 use curve25519_dalek::constants::RISTRETTO_BASEPOINT_TABLE;
 use curve25519_dalek::scalar::Scalar;
 use curve25519_dalek::ristretto::CompressedRistretto;
 use curve25519_dalek::ristretto::RistrettoPoint;
+use curve25519_dalek::traits::Identity;
 
 use rand_core::RngCore;
 use rand_core::CryptoRng;
@@ -321,7 +321,8 @@ impl SecretKey {
     }
 
     pub fn verify(&self, mac: &Tag, message: &Message) -> Result<(), MacError> {
-        if mac.nonce == RISTRETTO_BASEPOINT_POINT {
+        // A tag on the identity element would verify for every key and message.
+        if mac.nonce == RistrettoPoint::identity() {
             return Err(MacError::AuthenticationError);
         }
         let mut exponent = self.x0;
-- 
2.43.0


From 2a8e4b174fc21e365cf924e5e9fe376327fd2bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:57 +0000
Subject: [PATCH 03/27] fix: refuse messages of the wrong length when verifying
 a tag

verify() zipped the key with the message, so surplus attributes were not
authenticated and missing ones were treated as absent; mac() already refuses
such messages.
---
 aeonflux/src/amacs.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index a6aef31..e31db9d 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -325,6 +325,9 @@ impl SecretKey {
         if mac.nonce == RistrettoPoint::identity() {
             return Err(MacError::AuthenticationError);
         }
+        if self.xn.len() != message.0.len() {
+            return Err(MacError::MessageLengthError{ length: self.xn.len() });
+        }
         let mut exponent = self.x0;
 
         for (xi, mi) in self.xn.iter().zip(message.0.iter()) {
-- 
2.43.0


From 1716185821a41eb0f74be09df25276773de32ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:38 +0000
Subject: [PATCH 04/27] fix: refuse presentations with an identity nonce

With rerandomized_nonce = identity the verification equation does not involve
the issuer's key x0 nor the attribute, so anyone could make an accepted
presentation without holding a credential.
---
 aeonflux/src/issuer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aeonflux/src/issuer.rs b/aeonflux/src/issuer.rs
index 95b9af9..af0cea0 100644
--- a/aeonflux/src/issuer.rs
+++ b/aeonflux/src/issuer.rs
@@ -18,6 +18,7 @@ pub use amacs::SecretKey as IssuerSecretKey;
 
 use curve25519_dalek::ristretto::RistrettoPoint;
 use curve25519_dalek::scalar::Scalar;
+use curve25519_dalek::traits::Identity;
 
 use merlin::Transcript;
 
@@ -199,6 +200,12 @@ impl Issuer {
     {
         let P = presentation.rerandomized_nonce;
 
+        // With the identity as nonce every commitment opens to every attribute,
+        // and the presentation could be made without any credential.
+        if P == RistrettoPoint::identity() {
+            return Err(CredentialError::MacVerification);
+        }
+
         // Recompute the MAC
         let mut V_prime: RistrettoPoint = &self.keypair.secret.x0 * &P;
 
-- 
2.43.0


From 9ce4b867702eb9407e47e6261961fff0e087bc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:38 +0000
Subject: [PATCH 05/27] fix: refuse presentations with a wrong number of
 attributes

Issuer::verify indexed the key and the commitments with the attribute counts of
the presentation: it panicked on a presentation without blinded attributes or
with more attributes than key elements, and counted surplus attributes into the
MAC equation although the proof does not cover them.
---
 aeonflux/src/issuer.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/aeonflux/src/issuer.rs b/aeonflux/src/issuer.rs
index af0cea0..54d8027 100644
--- a/aeonflux/src/issuer.rs
+++ b/aeonflux/src/issuer.rs
@@ -33,8 +33,11 @@ use credential::CredentialIssuance;
 use credential::CredentialRequest;
 use credential::CredentialPresentation;
 use credential::VerifiedCredential;
+use credential::PRESENTATION_NUMBER_OF_BLINDED_ATTRIBUTES;
+use credential::PRESENTATION_NUMBER_OF_REVEALED_ATTRIBUTES;
 use errors::CredentialError;
 use nonces::Ephemeral;
+use parameters::NUMBER_OF_ATTRIBUTES;
 use parameters::SystemParameters;
 use pedersen::{self};
 use proofs::issuance_revealed;
@@ -200,6 +203,20 @@ impl Issuer {
     {
         let P = presentation.rerandomized_nonce;
 
+        // Check that we have key material for, and were given, exactly the
+        // attributes which the proof is about.
+        let X1: RistrettoPoint = match self.keypair.public.Xn.get(0) {
+            Some(x) => *x,
+            None => return Err(CredentialError::NoIssuerParameters),
+        };
+        if self.keypair.secret.xn.len() != NUMBER_OF_ATTRIBUTES {
+            return Err(CredentialError::NoIssuerKey);
+        }
+        if presentation.attributes_revealed.len() != PRESENTATION_NUMBER_OF_REVEALED_ATTRIBUTES ||
+            presentation.attributes_blinded.len() != PRESENTATION_NUMBER_OF_BLINDED_ATTRIBUTES {
+            return Err(CredentialError::WrongNumberOfAttributes);
+        }
+
         // With the identity as nonce every commitment opens to every attribute,
         // and the presentation could be made without any credential.
         if P == RistrettoPoint::identity() {
@@ -222,7 +239,7 @@ impl Issuer {
         let publics = valid_credential::Publics {
             B: &self.system_parameters.g,
             A: &self.system_parameters.h,
-            X0: &self.keypair.public.Xn[0],
+            X0: &X1,
             P: &P,
             V: &V_prime,
             Cm0: &presentation.attributes_blinded[0].into(),
-- 
2.43.0


From 6b9dc692e49e2f5cb8bfcc8fe029c4955fed4983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:38 +0000
Subject: [PATCH 06/27] fix: return the documented errors for key material of
 the wrong length

Issuer::issue documents NoIssuerParameters and NoIssuerKey for keys of an
incorrect length but only refused empty ones: with a longer key it issued
credentials whose proof cannot verify.
---
 aeonflux/src/issuer.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aeonflux/src/issuer.rs b/aeonflux/src/issuer.rs
index 54d8027..677960a 100644
--- a/aeonflux/src/issuer.rs
+++ b/aeonflux/src/issuer.rs
@@ -143,14 +143,14 @@ impl Issuer {
         R: RngCore + CryptoRng,
     {
         // Obtain our needed public and secret key material.
-        let X1: RistrettoPoint = match self.keypair.public.Xn.get(0) {
-            Some(x) => *x,
-            None => return Err(CredentialError::NoIssuerParameters),
-        };
-        let x1: Scalar = match self.keypair.secret.xn.get(0) {
-            Some(x) => *x,
-            None => return Err(CredentialError::NoIssuerKey),
-        };
+        if self.keypair.public.Xn.len() != NUMBER_OF_ATTRIBUTES {
+            return Err(CredentialError::NoIssuerParameters);
+        }
+        if self.keypair.secret.xn.len() != NUMBER_OF_ATTRIBUTES {
+            return Err(CredentialError::NoIssuerKey);
+        }
+        let X1: RistrettoPoint = self.keypair.public.Xn[0];
+        let x1: Scalar = self.keypair.secret.xn[0];
 
         let attributes = &request.attributes_revealed;
 
-- 
2.43.0


From f4f99ca0345ceb957025362c75fbfa17b1932a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:56 +0000
Subject: [PATCH 07/27] fix: return an error for a wrong number of nonces,
 attributes or parameters

User::show indexed nonces, attributes and issuer parameters by one another's
counts and panicked, or made an unverifiable presentation, when they differed.
---
 aeonflux/src/user.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/aeonflux/src/user.rs b/aeonflux/src/user.rs
index eb49790..485e4ff 100644
--- a/aeonflux/src/user.rs
+++ b/aeonflux/src/user.rs
@@ -38,6 +38,7 @@ use errors::CredentialError;
 use issuer::IssuerParameters;
 use nonces::Ephemeral;
 use nonces::Nonces;
+use parameters::NUMBER_OF_ATTRIBUTES;
 use parameters::SystemParameters;
 use pedersen;
 use proofs::issuance_revealed;
@@ -187,6 +188,15 @@ impl User {
             None        => return Err(CredentialError::MissingData),
         };
 
+        // Everything below is indexed by attribute.
+        if self.issuer_parameters.Xn.len() != NUMBER_OF_ATTRIBUTES {
+            return Err(CredentialError::NoIssuerParameters);
+        }
+        if credential.attributes.len() != NUMBER_OF_ATTRIBUTES ||
+            nonces.iter().count() != NUMBER_OF_ATTRIBUTES {
+            return Err(CredentialError::WrongNumberOfAttributes);
+        }
+
         let mut transcript = Transcript::new(b"AEONFLUX SHOW");
         let mut csprng = transcript.fork_transcript().reseed_from_rng(rng);
 
-- 
2.43.0


From 80fb7017ed3543b8111bfa96500860c02e37b707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:56 +0000
Subject: [PATCH 08/27] fix: refuse issuances which can never be shown

For a MAC of (identity, identity) the proof of issuance verifies whatever the
issuer's key, and the attributes were not counted, so the user would replace
its credential with one that no presentation can be made from.
---
 aeonflux/src/user.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/aeonflux/src/user.rs b/aeonflux/src/user.rs
index 485e4ff..45442d3 100644
--- a/aeonflux/src/user.rs
+++ b/aeonflux/src/user.rs
@@ -155,6 +155,15 @@ impl User {
             Some(x) => *x,
         };
 
+        // A credential on the identity element, or with another number of
+        // attributes, could never be shown.
+        if issue.credential.mac.nonce == RistrettoPoint::identity() {
+            return Err(CredentialError::CredentialIssuance);
+        }
+        if issue.credential.attributes.len() != NUMBER_OF_ATTRIBUTES {
+            return Err(CredentialError::WrongNumberOfAttributes);
+        }
+
         let publics = issuance_revealed::Publics {
             P: &issue.credential.mac.nonce,
             Q: &issue.credential.mac.mac,
-- 
2.43.0


From 912f9888d67f181b12e651e8b838f40ae47440f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:56 +0000
Subject: [PATCH 09/27] fix: refuse issuances on someone else's phone number

SignalUser::obtain_finish stored any credential whose proof verified, also one
for a number which is not the user's.
---
 signal-credential/src/user.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/signal-credential/src/user.rs b/signal-credential/src/user.rs
index 2093e1e..22194d0 100644
--- a/signal-credential/src/user.rs
+++ b/signal-credential/src/user.rs
@@ -89,6 +89,13 @@ impl SignalUser {
         issuance: Option<&SignalCredentialIssuance>,
     ) -> Result<(), CredentialError>
     {
+        // The credential must be on our own phone number.
+        if let Some(issue) = issuance {
+            match issue.credential.attributes.get(0) {
+                Some(x) if *x == self.phone_number.0 => (),
+                _ => return Err(CredentialError::BadAttribute),
+            }
+        }
         self.user.obtain_finish(issuance)
     }
 
-- 
2.43.0


From 2b510aeaba5b16066c71d8b4a7cd08f35c1db8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 10/27] fix: return an error for elGamal keys of the wrong
 length

Decoding a key asserted the length of the bytes, which may come from outside.
---
 aeonflux/src/elgamal.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aeonflux/src/elgamal.rs b/aeonflux/src/elgamal.rs
index d440d2b..29929e5 100644
--- a/aeonflux/src/elgamal.rs
+++ b/aeonflux/src/elgamal.rs
@@ -96,7 +96,9 @@ impl<'a, 'b> Add<&'b Encryption> for &'a Encryption {
 
 impl PublicKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<PublicKey, CredentialError> {
-        assert!(bytes.len() == 32);
+        if bytes.len() != SIZEOF_PUBLIC_KEY {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let mut tmp = [0u8; 32];
 
@@ -144,7 +146,9 @@ impl<'a> From<&'a SecretKey> for PublicKey {
 
 impl SecretKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<SecretKey, CredentialError> {
-        assert!(bytes.len() == 32);
+        if bytes.len() != SIZEOF_SECRET_KEY {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let mut tmp = [0u8; 32];
 
@@ -196,7 +200,9 @@ impl Drop for SecretKey {
 
 impl Keypair {
     pub fn from_bytes(bytes: &[u8]) -> Result<Keypair, CredentialError> {
-        assert!(bytes.len() == 64);
+        if bytes.len() != SIZEOF_KEYPAIR {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let secret = SecretKey::from_bytes(&bytes[00..32])?;
         let public = PublicKey::from_bytes(&bytes[32..64])?;
-- 
2.43.0


From 30e98bd7a7fbedaaa1c33c114ea7acba7faae111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 11/27] fix: return an error for aMAC keys shorter than one
 scalar

Decoding an empty secret key, or a keypair of less than 32 bytes, overflowed a
subtraction.
---
 aeonflux/src/amacs.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index e31db9d..14758f1 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -240,8 +240,8 @@ impl SecretKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<SecretKey, MacError> {
         let length: usize = bytes.len();
 
-        // The bytes must be a multiple of 32.
-        if length % 32 != 0 {
+        // The bytes must be a multiple of 32, and there must at least be x0.
+        if length % 32 != 0 || length < 32 {
             return Err(MacError::MessageLengthError{ length });
         }
         let mut x0: Option<Scalar> = None;
@@ -356,6 +356,10 @@ impl Keypair {
     pub fn from_bytes(bytes: &[u8]) -> Result<Keypair, MacError> {
         let length: usize = bytes.len();
 
+        if length < 32 {
+            return Err(MacError::KeypairDeserialisation);
+        }
+
         // The public key must always be 32 bytes shorter since the secret key has the extra x0 element.
         let public_key_length: usize = (length - 32) / 2;
         let secret_key_length: usize = length - public_key_length;
-- 
2.43.0


From 4baa2bf0630e9ab1afebe0a482001bdf801ef7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 12/27] fix: return an error for commitments of the wrong
 length

Decoding a commitment panicked on less than 32 bytes and ignored any after the
first 32.
---
 aeonflux/src/pedersen.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aeonflux/src/pedersen.rs b/aeonflux/src/pedersen.rs
index e3c5378..30fc96e 100644
--- a/aeonflux/src/pedersen.rs
+++ b/aeonflux/src/pedersen.rs
@@ -65,6 +65,10 @@ impl SubAssign<Commitment> for RistrettoPoint {
 
 impl Commitment {
     pub fn from_bytes(bytes: &[u8]) -> Result<Commitment, CredentialError> {
+        if bytes.len() != SIZEOF_COMMITMENT {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
+
         let mut tmp: [u8; 32] = [0u8; 32];
 
         tmp.copy_from_slice(&bytes[0..32]);
-- 
2.43.0


From fd02d4d9ddbac853ac73790a2efd8e14cfa901cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 13/27] fix: return an error for issuances of the wrong length

Decoding an issuance panicked on bytes too short for its commitment and
credential, and ignored any bytes after its proof.
---
 aeonflux/src/credential.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aeonflux/src/credential.rs b/aeonflux/src/credential.rs
index d249b44..502d1c7 100644
--- a/aeonflux/src/credential.rs
+++ b/aeonflux/src/credential.rs
@@ -42,6 +42,10 @@ use proofs::valid_credential;
 pub const SIZEOF_CREDENTIAL: usize = SIZEOF_TAG + NUMBER_OF_ATTRIBUTES * 32;
 pub const SIZEOF_CREDENTIAL_PRESENTATION: usize = 256;
 
+/// A commitment, a `Credential`, and a proof of five scalars, each of them
+/// prefixed with its length as a `u64`.
+pub const SIZEOF_CREDENTIAL_ISSUANCE: usize = 32 + SIZEOF_CREDENTIAL + 5 * 40;
+
 /// The number of revealed attributes on a `Credential` during issuance.
 pub const ISSUANCE_NUMBER_OF_REVEALED_ATTRIBUTES: usize = 1;
 
@@ -209,6 +213,10 @@ pub struct CredentialIssuance {
 
 impl CredentialIssuance {
     pub fn from_bytes(bytes: &[u8]) -> Result<CredentialIssuance, CredentialError> {
+        if bytes.len() != SIZEOF_CREDENTIAL_ISSUANCE {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
+
         let secret_key_commitment = pedersen::Commitment::from_bytes(&bytes[00..32])?;
         let credential = Credential::from_bytes(&bytes[32..32+SIZEOF_CREDENTIAL])?;
         
-- 
2.43.0


From 5d879fddabe664f86424d613dc96c3ff593d1863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 14/27] fix: return an error for presentations of the wrong
 length

Decoding a presentation panicked on bytes too short for its points, and ignored
any bytes after its proof.
---
 aeonflux/src/credential.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aeonflux/src/credential.rs b/aeonflux/src/credential.rs
index 502d1c7..08438a5 100644
--- a/aeonflux/src/credential.rs
+++ b/aeonflux/src/credential.rs
@@ -273,10 +273,7 @@ pub struct CredentialPresentation {
 
 impl CredentialPresentation {
     pub fn from_bytes(bytes: &[u8]) -> Result<CredentialPresentation, CredentialError> {
-        let length: usize = bytes.len();
-
-        // The bytes must be a multiple of 32.
-        if length % 32 != 0 {
+        if bytes.len() != SIZEOF_CREDENTIAL_PRESENTATION {
             return Err(CredentialError::WrongNumberOfBytes);
         }
 
-- 
2.43.0


From 666a338eacbcac0922c9aa9682233eaf71b7fc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 15/27] fix: return an error for signal users shorter than a
 phone number

Decoding a SignalUser panicked on less than 32 bytes.
---
 signal-credential/src/user.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signal-credential/src/user.rs b/signal-credential/src/user.rs
index 22194d0..b59bcea 100644
--- a/signal-credential/src/user.rs
+++ b/signal-credential/src/user.rs
@@ -34,6 +34,7 @@ use credential::SignalCredentialPresentation;
 use credential::SignalCredential;
 use phone_number::PhoneNumber;
 use phone_number::RosterEntryCommitment;
+use phone_number::SIZEOF_PHONE_NUMBER;
 
 /// DOCDOC
 #[derive(Debug, Eq, PartialEq)]
@@ -44,6 +45,10 @@ pub struct SignalUser {
 
 impl SignalUser {
     pub fn from_bytes(bytes: &[u8]) -> Result<SignalUser, CredentialError> {
+        if bytes.len() < SIZEOF_PHONE_NUMBER {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
+
         let phone_number = PhoneNumber::from_bytes(&bytes[00..32])?;
         let user = User::from_bytes(&bytes[32..])?;
 
-- 
2.43.0


From 55e60a4d5924b9ac44c27ede51ef74f74cd949e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 16/27] fix: return an error for roster entries of the wrong
 length

Decoding a RosterEntryCommitment panicked on anything but 64 bytes.
---
 signal-credential/src/phone_number.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index 902e55d..ba40610 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -323,6 +323,10 @@ pub struct RosterEntryCommitment {
 
 impl RosterEntryCommitment {
     pub fn from_bytes(bytes: &[u8]) -> Result<RosterEntryCommitment, PhoneNumberError> {
+        if bytes.len() != SIZEOF_COMMITTED_PHONE_NUMBER + 32 {
+            return Err(PhoneNumberError::LengthExceeded);
+        }
+
         let commitment = CommittedPhoneNumber::from_bytes(&bytes[..SIZEOF_COMMITTED_PHONE_NUMBER])?;
 
         let mut tmp = [0u8; 32];
-- 
2.43.0


From 3639b9d6c2cb0244ab30f9cd2a27ffeb86c2f7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 17/27] fix: refuse non-canonical scalars in phone numbers and
 roster entries

These were decoded with from_bits, so several byte strings decoded to one
number (or to numbers which are equal as attributes but not as bytes), and
encoding did not return the bytes which were decoded.
---
 signal-credential/src/phone_number.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index ba40610..ec66c16 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -74,7 +74,10 @@ impl PhoneNumber {
 
         tmp.copy_from_slice(&bytes[00..32]);
 
-        Ok(PhoneNumber(Scalar::from_bits(tmp)))
+        match Scalar::from_canonical_bytes(tmp) {
+            Some(x) => Ok(PhoneNumber(x)),
+            None    => Err(PhoneNumberError::InvalidPhoneNumber),
+        }
     }
 
     pub fn to_bytes(&self) -> Vec<u8> {
@@ -333,7 +336,10 @@ impl RosterEntryCommitment {
 
         tmp.copy_from_slice(&bytes[SIZEOF_COMMITTED_PHONE_NUMBER..]);
 
-        let opening: Ephemeral = Scalar::from_bits(tmp).into();
+        let opening: Ephemeral = match Scalar::from_canonical_bytes(tmp) {
+            Some(x) => x.into(),
+            None    => return Err(PhoneNumberError::InvalidPhoneNumber),
+        };
 
         Ok(RosterEntryCommitment { commitment, opening })
     }
-- 
2.43.0


From 5418c33832e1e1195526ad1cc309721c6cb344f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:57 +0000
Subject: [PATCH 18/27] fix: never choose the identity as the second generator

hunt_and_peck accepted 32 zero bytes from its random number generator, which
decode to the identity; every commitment would then reveal its value.
---
 aeonflux/src/parameters.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aeonflux/src/parameters.rs b/aeonflux/src/parameters.rs
index 4fbe670..b38f7bd 100644
--- a/aeonflux/src/parameters.rs
+++ b/aeonflux/src/parameters.rs
@@ -16,6 +16,7 @@ use curve25519_dalek::constants::RISTRETTO_BASEPOINT_COMPRESSED;
 use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
 use curve25519_dalek::ristretto::CompressedRistretto;
 use curve25519_dalek::ristretto::RistrettoPoint;
+use curve25519_dalek::traits::Identity;
 
 use serde::{self, Serialize, Deserialize, Serializer, Deserializer};
 use serde::de::Visitor;
@@ -112,7 +113,8 @@ impl SystemParameters {
             csprng.fill_bytes(&mut tmp);
 
             // Extremely unlikely but we may as well be careful.
-            if CompressedRistretto(tmp) != RISTRETTO_BASEPOINT_COMPRESSED {
+            if CompressedRistretto(tmp) != RISTRETTO_BASEPOINT_COMPRESSED &&
+                CompressedRistretto(tmp) != CompressedRistretto::identity() {
                 H = CompressedRistretto(tmp).decompress();
             }
         }
-- 
2.43.0


From 9cb0319b5c6e9d3ffef461a6ab2f14f685b97dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:57 +0000
Subject: [PATCH 19/27] fix: refuse signal presentations with trailing bytes

Decoding a SignalCredentialPresentation ignored any bytes after its proof.
---
 signal-credential/src/credential.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/signal-credential/src/credential.rs b/signal-credential/src/credential.rs
index bc403a3..bb10b18 100644
--- a/signal-credential/src/credential.rs
+++ b/signal-credential/src/credential.rs
@@ -46,6 +46,11 @@ pub const NUMBER_OF_ATTRIBUTES: usize =
     ISSUANCE_NUMBER_OF_REVEALED_ATTRIBUTES +
     ISSUANCE_NUMBER_OF_BLINDED_ATTRIBUTES;
 
+/// A committed phone number, a `CredentialPresentation`, and a proof of four
+/// scalars, each of them prefixed with its length as a `u64`.
+pub const SIZEOF_SIGNAL_CREDENTIAL_PRESENTATION: usize =
+    SIZEOF_COMMITTED_PHONE_NUMBER + SIZEOF_CREDENTIAL_PRESENTATION + 4 * 40;
+
 pub type SignalCredentialIssuance = CredentialIssuance;
 
 #[derive(Clone, Debug, Eq, PartialEq)]
@@ -65,9 +70,9 @@ impl SignalCredentialPresentation {
     pub fn from_bytes(bytes: &[u8]) -> Result<SignalCredentialPresentation, CredentialError> {
         const RE: usize = SIZEOF_COMMITTED_PHONE_NUMBER;
 
-        if bytes.len() < RE + SIZEOF_CREDENTIAL_PRESENTATION {
+        if bytes.len() != SIZEOF_SIGNAL_CREDENTIAL_PRESENTATION {
             #[cfg(feature = "std")]
-            println!("The SignalCredentialPresentation bytes were not long enough, got {} bytes", bytes.len());
+            println!("The SignalCredentialPresentation bytes were not the right length, got {} bytes", bytes.len());
             return Err(CredentialError::MissingData);
         }
 
-- 
2.43.0


From 4d1ebd1d4987c013da99ba937580adf645ea746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:29 +0000
Subject: [PATCH 20/27] fix: refuse phone numbers which do not fit their
 encoding

Numbers of 28 to 32 digits indexed past the end of the encoding and panicked;
one of 27 digits exceeded the group order, was reduced, and did not convert back
to itself.
---
 signal-credential/src/phone_number.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index ec66c16..7709a5c 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -40,6 +40,11 @@ use rand_core::CryptoRng;
 use errors::PhoneNumberError;
 
 pub const SIZEOF_PHONE_NUMBER: usize = 32;
+
+/// A phone number is encoded in 31 bytes, so that it is less than the group
+/// order, with two prefix bytes, two suffix bytes, and its length.
+pub const MAX_PHONE_NUMBER_LENGTH: usize = 31 - 5;
+
 pub const SIZEOF_COMMITTED_PHONE_NUMBER: usize = pedersen::SIZEOF_COMMITMENT;
 pub const SIZEOF_ENCRYPTED_PHONE_NUMBER: usize = elgamal::SIZEOF_ENCRYPTION;
 
@@ -138,7 +143,7 @@ impl PhoneNumber {
         let bytes: &[u8] = source.as_bytes();
         let length: usize = bytes.len();
 
-        if length > 32 {
+        if length > MAX_PHONE_NUMBER_LENGTH {
             return Err(PhoneNumberError::LengthExceeded);
         }
         let mut bits: [u8; 32] = [0u8; 32];
@@ -178,7 +183,7 @@ impl PhoneNumber {
     pub fn try_from_bytes(bytes: &[u8]) -> Result<Self, PhoneNumberError> {
         let length: usize = bytes.len();
 
-        if length > 32 {
+        if length > MAX_PHONE_NUMBER_LENGTH {
             return Err(PhoneNumberError::LengthExceeded);
         }
         let mut bits: [u8; 32] = [0u8; 32];
-- 
2.43.0


From 72ba93f31fe56075a9f02bcd849b31ef8539f29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:29 +0000
Subject: [PATCH 21/27] fix: refuse empty phone numbers

The encoding of an empty number has no length byte which could be found again,
so it converted back to thirteen zeroes.
---
 signal-credential/src/phone_number.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index 7709a5c..3210a6d 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -146,6 +146,9 @@ impl PhoneNumber {
         if length > MAX_PHONE_NUMBER_LENGTH {
             return Err(PhoneNumberError::LengthExceeded);
         }
+        if length == 0 {
+            return Err(PhoneNumberError::InvalidPhoneNumber);
+        }
         let mut bits: [u8; 32] = [0u8; 32];
 
         // Prefix it with some bogus digits to prevent phone numbers with
@@ -186,6 +189,9 @@ impl PhoneNumber {
         if length > MAX_PHONE_NUMBER_LENGTH {
             return Err(PhoneNumberError::LengthExceeded);
         }
+        if length == 0 {
+            return Err(PhoneNumberError::InvalidPhoneNumber);
+        }
         let mut bits: [u8; 32] = [0u8; 32];
 
         // Prefix it with some bogus digits to prevent phone numbers with
-- 
2.43.0


From 09794bb013c8fceffb6a670472a2a679073b95e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:29 +0000
Subject: [PATCH 22/27] fix: do not read past the end of a phone number when
 printing it

Converting a PhoneNumber decoded from bytes whose length byte exceeds 30 to a
String panicked.
---
 signal-credential/src/phone_number.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index 3210a6d..43e670c 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -16,9 +16,13 @@ use std::vec::Vec;
 #[cfg(all(not(feature = "alloc"), feature = "std"))]
 use std::string::String;
 
+#[cfg(feature = "std")]
+use std::cmp;
 #[cfg(feature = "std")]
 use std::ops::{Index};
 #[cfg(not(feature = "std"))]
+use core::cmp;
+#[cfg(not(feature = "std"))]
 use core::ops::{Index};
 
 use aeonflux::amacs::{self};
@@ -230,7 +234,7 @@ impl From<PhoneNumber> for String {
 
         let mut s: String = String::with_capacity(length);
 
-        for i in 2..length+2 {
+        for i in 2..cmp::min(length+2, 32) {
             match source[i] {
                 0 => s.push_str("0"),
                 1 => s.push_str("1"),
-- 
2.43.0


From b749b99be04ee5bfc34d7afff7ba3bf11c922c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:29 +0000
Subject: [PATCH 23/27] fix: refuse characters which are not digits in textual
 phone numbers

All of them became the same filler digit, so different strings were mapped to
one attribute and were not converted back.
---
 signal-credential/src/phone_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index 43e670c..2c06043 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -174,7 +174,7 @@ impl PhoneNumber {
                 55 => 7,
                 56 => 8,
                 57 => 9,
-                _  => 15,
+                _  => return Err(PhoneNumberError::InvalidPhoneNumber),
             };
         }
         // Suffix some bogus digits as well and then finally add the length:
-- 
2.43.0


From 8fa5f23ea28b047a378e70b348e3a5d9ae677c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:19 +0000
Subject: [PATCH 24/27] fix: do not return pointers to freed memory from the C
 interface

Every function serialized its result into a local vector and returned a pointer
to it, which dangled as soon as the function returned.  Hand a buffer over to
the caller instead.
---
 ffi/src/c.rs      |  2 ++
 ffi/src/macros.rs | 15 +++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/ffi/src/c.rs b/ffi/src/c.rs
index 2ad78da..77696af 100644
--- a/ffi/src/c.rs
+++ b/ffi/src/c.rs
@@ -16,9 +16,11 @@ use std::vec::Vec;
 
 cfg_if! {
     if #[cfg(feature = "std")] {
+        use std::mem;
         use std::ptr;
         use std::slice;
     } else {
+        use core::mem;
         use core::ptr;
         use core::slice;
     }
diff --git a/ffi/src/macros.rs b/ffi/src/macros.rs
index 5ed979e..5ebc02e 100644
--- a/ffi/src/macros.rs
+++ b/ffi/src/macros.rs
@@ -7,15 +7,22 @@
 // Authors:
 // - isis agora lovecruft <isis@patternsinthevoid.net>
 
+/// Copy a slice into a buffer which is handed over to the caller.
+///
+/// The slice usually belongs to the function returning the buffer, so the buffer
+/// must not point into it.
 #[macro_export]
 macro_rules! slice_to_len_and_ptr {
     ($x:expr) => {{
         let x: &[u8] = $x;
+        let copy = x.to_vec().into_boxed_slice();
+        let buffer = buf_t {
+            len: copy.len() as uint64_t,
+            ptr: copy.as_ptr() as *const uint8_t,
+        };
+        mem::forget(copy);
 
-        buf_t {
-            len: x.len() as uint64_t,
-            ptr: x.as_ptr() as *const uint8_t,
-        }
+        buffer
     }}
 }
 
-- 
2.43.0


From 4511527da48a8629c049c59e10ae6073bc8c2f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:19 +0000
Subject: [PATCH 25/27] fix: return a null pointer on failure from the C
 interface

The header documents a length of zero and a NULL pointer, but the pointer was
that of an empty slice, which is not null.
---
 ffi/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ffi/src/macros.rs b/ffi/src/macros.rs
index 5ebc02e..728198c 100644
--- a/ffi/src/macros.rs
+++ b/ffi/src/macros.rs
@@ -29,7 +29,7 @@ macro_rules! slice_to_len_and_ptr {
 #[macro_export]
 macro_rules! zero_len_and_ptr {
     () => {
-        slice_to_len_and_ptr!(&[])
+        buf_t { len: 0, ptr: ptr::null() }
     }
 }
 
-- 
2.43.0


From 074e2013d099739e8c0f42e6964367294de02758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:19 +0000
Subject: [PATCH 26/27] fix: refuse issuer parameters of the wrong length when
 finishing issuance

Only empty parameters were refused; with surplus ones the user accepted a
credential which it can not show and whose encoding can not be decoded.
---
 aeonflux/src/user.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aeonflux/src/user.rs b/aeonflux/src/user.rs
index 45442d3..21be8e1 100644
--- a/aeonflux/src/user.rs
+++ b/aeonflux/src/user.rs
@@ -150,10 +150,10 @@ impl User {
             Some(i) => i,
             None    => return Err(CredentialError::CredentialIssuance),
         };
-        let X1: RistrettoPoint = match self.issuer_parameters.Xn.get(0) {
-            None => return Err(CredentialError::NoIssuerParameters),
-            Some(x) => *x,
-        };
+        if self.issuer_parameters.Xn.len() != NUMBER_OF_ATTRIBUTES {
+            return Err(CredentialError::NoIssuerParameters);
+        }
+        let X1: RistrettoPoint = self.issuer_parameters.Xn[0];
 
         // A credential on the identity element, or with another number of
         // attributes, could never be shown.
-- 
2.43.0


From bf038cff22e345a372f5237f9ef788593622d8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:35 +0000
Subject: [PATCH 27/27] fix: deserialize from formats which represent bytes as
 a sequence

Everything serialized to JSON, which is what the wasm bindings pass to and from
JavaScript, as an array of numbers, but such an array was refused when
deserializing.
---
 aeonflux/src/macros.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/aeonflux/src/macros.rs b/aeonflux/src/macros.rs
index a5f42e2..db5acec 100644
--- a/aeonflux/src/macros.rs
+++ b/aeonflux/src/macros.rs
@@ -43,6 +43,18 @@ macro_rules! impl_serde_with_to_bytes_and_from_bytes {
                             },
                         }
                     }
+
+                    // Formats such as JSON represent bytes as a sequence.
+                    fn visit_seq<A>(self, mut seq: A) -> Result<$t, A::Error>
+                        where A: serde::de::SeqAccess<'de>
+                    {
+                        let mut v: Vec<u8> = Vec::new();
+
+                        while let Some(byte) = seq.next_element()? {
+                            v.push(byte);
+                        }
+                        self.visit_bytes(&v)
+                    }
                 }
                 deserializer.deserialize_bytes(AeonfluxVisitor)
             }
-- 
2.43.0

