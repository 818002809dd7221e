//! Decoding: every byte string of every length up to a bound.
use aeonflux::credential::*;
use aeonflux::issuer::Issuer;
use aeonflux::parameters::SystemParameters;
use aeonflux::user::User;
use aeonflux::{amacs, elgamal, pedersen};
use bincode;
use prelude::*;
use serde::de::{self, DeserializeSeed, Deserializer, SeqAccess, Visitor};
use serde::Deserialize;
use signal_credential::credential::*;
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::*;
use signal_credential::user::SignalUser;

macro_rules! decode {
    ($t:ty, $max:expr) => { decode!($t, $max, |_n: usize| true) };
    ($t:ty, $max:expr, $len:expr) => { {
        let b = any_buffer($max);
        if let Ok(x) = <$t>::from_bytes(b) {
            reach("decoded");
            let v = x.to_bytes();
            same(&v, b, "C16: encoding the decoded object gives the bytes it was decoded from");
            claim($len(b.len()), "C16: only byte strings of the documented length are accepted");
        } else {
            reach("refused");
        }
    } };
}

/// Lengths which equal the right one modulo 2^8 and 2^16.
macro_rules! wide {
    ($($t:ty, $n:expr);*) => { {
        let by = if each(1) == 0 { 1 << 8 } else { 1 << 16 };
        let mut k = 0;
        $(k += 1; let _: usize = $n;)*
        let which = each(k - 1);
        let mut i = 0;
        $(
            if which == i {
                let b = buffer($n + by, $n + by);
                claim(<$t>::from_bytes(b).is_err(), "C16: only byte strings of the documented length are accepted");
                reach("refused");
            }
            i += 1;
        )*
        let _ = i;
    } };
}
macro_rules! many {
    ($t:ty, $one:expr, $more:expr) => { {
        let n = [$one + 8 * $more, $one + 32 * $more, $one + 8 * $more + 1][each(2)];
        let b = buffer(n, n);
        if let Ok(x) = <$t>::from_bytes(b) {
            reach("decoded");
            same(&x.to_bytes(), b, "C16: encoding the decoded object gives the bytes it was decoded from");
            claim((n - $one) % $more == 0, "C16: only byte strings of the documented length are accepted");
        }
    } };
}

/// Gives bytes one by one, as JSON does, and lies about how many there are.
struct Bytes(&'static [u8], usize);
#[derive(Debug)]
struct E;
impl ::std::fmt::Display for E { fn fmt(&self, _f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result { Ok(()) } }
impl ::std::error::Error for E {}
impl de::Error for E { fn custom<T: ::std::fmt::Display>(_m: T) -> E { E } }
impl<'de> SeqAccess<'de> for Bytes {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if self.0.is_empty() { return Ok(None); }
        let b = self.0[0];
        self.0 = &self.0[1..];
        seed.deserialize(Byte(b)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> { Some(self.1) }
}
struct Byte(u8);
impl<'de> Deserializer<'de> for Byte {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_u8(self.0) }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'de> Deserializer<'de> for Bytes {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_seq(self) }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
/// Gives a byte string at once.
struct Blob(&'static [u8]);
impl<'de> Deserializer<'de> for Blob {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_bytes(self.0) }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

macro_rules! generic { ($t:ty, $max:expr) => { {
    let b = any_buffer($max);
    if let Ok(x) = <$t>::deserialize(Blob(b)) {
        reach("decoded");
        same(&x.to_bytes(), b, "C16: encoding the object deserialized from a byte string gives the byte string");
    }
} } }
macro_rules! sequence { ($t:ty, $n:expr) => { {
    // A few lengths around the right one, each with any announced length.
    let n = each(2) + $n - 1;
    let b = buffer(n, $n + 1);
    let announced = any_usize(!0);
    if let Ok(x) = <$t>::deserialize(Bytes(b, announced)) {
        reach("decoded");
        same(&x.to_bytes(), b, "C16: encoding the object deserialized from a sequence gives the same bytes");
    }
} } }
macro_rules! framed { ($t:ty, $max:expr) => { {
    let b = any_buffer($max);
    if let Ok(x) = bincode::deserialize::<$t>(b) {
        reach("decoded");
        let v = x.to_bytes();
        claim(v.len() + 8 <= b.len(), "C16: a framed object is not longer than its frame");
        let i = any_usize($max);
        if i < v.len() {
            claim(b[8 + i] == v[i], "C16: encoding the object decoded from a frame gives the same bytes");
        }
    }
} } }

harnesses! {
    d_tag { decode!(amacs::Tag, 130, |n| n == 64) }
    d_amacs_public { decode!(amacs::PublicKey, 130, |n: usize| n % 32 == 0) }
    d_amacs_secret { decode!(amacs::SecretKey, 130, |n: usize| n % 32 == 0 && n > 0) }
    d_amacs_keypair { decode!(amacs::Keypair, 192, |n: usize| n % 64 == 32) }
    d_elgamal_public { decode!(elgamal::PublicKey, 66, |n| n == 32) }
    d_elgamal_secret { decode!(elgamal::SecretKey, 66, |n| n == 32) }
    d_elgamal_keypair { decode!(elgamal::Keypair, 130, |n| n == 64) }
    d_commitment { decode!(pedersen::Commitment, 66, |n| n == 32) }
    d_parameters { decode!(SystemParameters, 130, |n| n == 64) }
    d_credential { decode!(Credential, 162, |n| n % 32 == 0 && n >= 64) }
    d_request { decode!(CredentialRequest, 130, |n: usize| n % 32 == 0) }
    d_issuance { decode!(CredentialIssuance, 400, |n| n == 328) }
    d_presentation { decode!(CredentialPresentation, 330, |n| n == 256) }
    d_verified { decode!(VerifiedCredential, 330, |n| n == 256) }
    d_issuer { decode!(Issuer, 258, |n| n % 64 == 32 && n >= 160) }
    d_user { decode!(User, 322, |n| n == 256) }
    d_number { decode!(PhoneNumber, 66, |n| n == 32) }
    d_committed_number { decode!(CommittedPhoneNumber, 66, |n| n == 32) }
    d_roster_entry { decode!(RosterEntryCommitment, 130, |n| n == 64) }
    d_signal_issuer { decode!(SignalIssuer, 258, |n| n % 64 == 32 && n >= 160) }
    d_signal_user { decode!(SignalUser, 356, |n| n == 288) }
    d_signal_presentation { decode!(SignalCredentialPresentation, 514, |n| n == 448) }
    d_signal_verified { decode!(VerifiedSignalCredential, 514, |n| n == 448) }

    d_wide_a { wide!(amacs::Tag, 64; elgamal::PublicKey, 32; elgamal::SecretKey, 32; elgamal::Keypair, 64; pedersen::Commitment, 32; SystemParameters, 64) }
    d_wide_b { wide!(CredentialIssuance, 328; CredentialPresentation, 256; VerifiedCredential, 256; User, 256; PhoneNumber, 32) }
    d_wide_c { wide!(CommittedPhoneNumber, 32; RosterEntryCommitment, 64; SignalUser, 288; SignalCredentialPresentation, 448; VerifiedSignalCredential, 448) }
    d_many_public { many!(amacs::PublicKey, 0, 32) }
    d_many_secret { many!(amacs::SecretKey, 32, 32) }
    d_many_keypair { many!(amacs::Keypair, 32, 64) }
    d_many_request { many!(CredentialRequest, 0, 32) }
    d_many_issuer { many!(Issuer, 96, 64) }

    g_tag { generic!(amacs::Tag, 130) }
    g_amacs_public { generic!(amacs::PublicKey, 130) }
    g_amacs_secret { generic!(amacs::SecretKey, 130) }
    g_amacs_keypair { generic!(amacs::Keypair, 192) }
    g_elgamal_public { generic!(elgamal::PublicKey, 66) }
    g_elgamal_secret { generic!(elgamal::SecretKey, 66) }
    g_elgamal_keypair { generic!(elgamal::Keypair, 130) }
    g_commitment { generic!(pedersen::Commitment, 66) }
    g_parameters { generic!(SystemParameters, 130) }
    g_credential { generic!(Credential, 162) }
    g_request { generic!(CredentialRequest, 130) }
    g_issuance { generic!(CredentialIssuance, 400) }
    g_presentation { generic!(CredentialPresentation, 330) }
    g_verified { generic!(VerifiedCredential, 330) }
    g_issuer { generic!(Issuer, 258) }
    g_user { generic!(User, 322) }
    g_number { generic!(PhoneNumber, 66) }
    g_committed_number { generic!(CommittedPhoneNumber, 66) }
    g_roster_entry { generic!(RosterEntryCommitment, 130) }
    g_signal_issuer { generic!(SignalIssuer, 258) }
    g_signal_user { generic!(SignalUser, 356) }
    g_signal_presentation { generic!(SignalCredentialPresentation, 514) }
    g_signal_verified { generic!(VerifiedSignalCredential, 514) }

    q_commitment { sequence!(pedersen::Commitment, 32) }
    q_tag { sequence!(amacs::Tag, 64) }
    q_number { sequence!(PhoneNumber, 32) }
    q_presentation { sequence!(CredentialPresentation, 256) }

    b_tag { framed!(amacs::Tag, 80) }
    b_amacs_keypair { framed!(amacs::Keypair, 112) }
    b_number { framed!(PhoneNumber, 48) }
    b_presentation { framed!(CredentialPresentation, 272) }
    b_signal_presentation { framed!(SignalCredentialPresentation, 464) }
    b_signal_user { framed!(SignalUser, 300) }
}
