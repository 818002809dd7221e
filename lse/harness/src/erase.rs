//! Secrets in memory, generated parameters, the foreign-memory helper.
use aeonflux::nonces::{Ephemeral, Nonces};
use aeonflux::parameters::SystemParameters;
use aeonflux::{amacs, elgamal};
use buildtest_alloc::allocate_buffer_for_bytes;
use curve25519_dalek::constants::{RISTRETTO_BASEPOINT_COMPRESSED, RISTRETTO_BASEPOINT_POINT};
use curve25519_dalek::ristretto::CompressedRistretto;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use prelude::*;
use std::mem::ManuallyDrop;

fn scalar() -> Scalar {
    let b = any!(32);
    let s = Scalar::from_canonical_bytes(b);
    assume(s.is_some());
    s.unwrap()
}
fn secret(n: usize) -> amacs::SecretKey {
    let mut xn = Vec::with_capacity(n);
    for _ in 0..n { xn.push(scalar()); }
    amacs::SecretKey { x0: scalar(), xn }
}
/// Drop an object in place and look at where its secret was.
fn dropped<T>(x: T, label: &'static str) {
    let mut x = ManuallyDrop::new(x);
    let p = &*x as *const T;
    unsafe { ManuallyDrop::drop(&mut x); }
    must_be_zero(p, label);
    reach("dropped");
}
fn watch(k: &amacs::SecretKey) { if k.xn.len() > 0 { zero_when_freed(k.xn.as_ptr(), k.xn.len(), "C21: the key's scalars are zero when their memory is freed"); } }

harnesses! {
    z_boxed {
        // Erasure which the compiler may leave out, as nothing reads the memory before it is freed.
        let k = Box::new(secret(each(2)));
        watch(&k);
        zero_when_freed(&k.x0 as *const Scalar, 1, "C21: the key's base scalar is zero when its memory is freed");
        let e = Box::new(Ephemeral::from(scalar()));
        zero_when_freed(&*e as *const Ephemeral, 1, "C21: an ephemeral is zero when its memory is freed");
        let r = Box::new(amacs::Rerandomization::new(&mut AnyRng));
        zero_when_freed(&*r as *const amacs::Rerandomization, 1, "C21: a rerandomization factor is zero when its memory is freed");
        let s = Box::new(elgamal::SecretKey::generate(&mut AnyRng));
        zero_when_freed(&*s as *const elgamal::SecretKey, 1, "C21: an encryption key is zero when its memory is freed");
        drop(k);
        drop(e);
        drop(r);
        drop(s);
        reach("dropped");
    }
    z_amacs_secret {
        let k = secret(each(4));
        watch(&k);
        let mut k = ManuallyDrop::new(k);
        let p = &k.x0 as *const Scalar;
        unsafe { ManuallyDrop::drop(&mut k); }
        must_be_zero(p, "C21: the key's base scalar is zero after it is dropped");
        reach("dropped");
    }
    z_amacs_secret_decoded {
        let b = any_buffer(128);
        if let Ok(k) = amacs::SecretKey::from_bytes(b) {
            watch(&k);
            let mut k = ManuallyDrop::new(k);
            let p = &k.x0 as *const Scalar;
            unsafe { ManuallyDrop::drop(&mut k); }
            must_be_zero(p, "C21: the key's base scalar is zero after it is dropped");
            reach("dropped");
        }
    }
    z_amacs_secret_new {
        let k = amacs::SecretKey::new(each(4), &mut AnyRng);
        watch(&k);
        let mut k = ManuallyDrop::new(k);
        let p = &k.x0 as *const Scalar;
        unsafe { ManuallyDrop::drop(&mut k); }
        must_be_zero(p, "C21: the key's base scalar is zero after it is dropped");
        reach("dropped");
    }
    z_amacs_keypair {
        let h = RISTRETTO_BASEPOINT_POINT;
        let k = amacs::Keypair::new(&h, &mut AnyRng);
        watch(&k.secret);
        let mut k = ManuallyDrop::new(k);
        let p = &k.secret.x0 as *const Scalar;
        unsafe { ManuallyDrop::drop(&mut k); }
        must_be_zero(p, "C21: the base scalar of a key pair is zero after it is dropped");
        reach("dropped");
    }
    z_elgamal_secret { 
        let b = any!(32);
        if let Ok(k) = elgamal::SecretKey::from_bytes(&b) { dropped(k, "C21: an encryption key is zero after it is dropped") }
    }
    z_elgamal_generated { dropped(elgamal::SecretKey::generate(&mut AnyRng), "C21: a generated encryption key is zero after it is dropped") }
    z_elgamal_keypair {
        let mut k = ManuallyDrop::new(elgamal::Keypair::generate(&mut AnyRng));
        let p = &k.secret as *const elgamal::SecretKey;
        unsafe { ManuallyDrop::drop(&mut k); }
        must_be_zero(p, "C21: the secret key of a key pair is zero after it is dropped");
        reach("dropped");
    }
    z_ephemeral { dropped(Ephemeral::from(scalar()), "C21: an ephemeral is zero after it is dropped") }
    z_ephemeral_new { dropped(Ephemeral::new(&mut AnyRng), "C21: a new ephemeral is zero after it is dropped") }
    z_rerandomization { dropped(amacs::Rerandomization::new(&mut AnyRng), "C21: a rerandomization factor is zero after it is dropped") }
    z_nonces {
        let n = each(5);
        let x = Nonces::new(&mut AnyRng, n);
        if n > 0 { zero_when_freed(&x[0] as *const Ephemeral, n, "C21: nonces are zero when their memory is freed"); }
        drop(x);
        reach("dropped");
    }
    z_nonces_cloned {
        let n = each(3);
        let x = Nonces::new(&mut AnyRng, n);
        let y = x.clone();
        if n > 0 {
            zero_when_freed(&x[0] as *const Ephemeral, n, "C21: nonces are zero when their memory is freed");
            zero_when_freed(&y[0] as *const Ephemeral, n, "C21: cloned nonces are zero when their memory is freed");
        }
        drop(x);
        drop(y);
        reach("dropped");
    }
    z_amacs_secret_cloned {
        let k = secret(each(2));
        let c = k.clone();
        watch(&k);
        watch(&c);
        drop(k);
        let mut c = ManuallyDrop::new(c);
        let p = &c.x0 as *const Scalar;
        unsafe { ManuallyDrop::drop(&mut c); }
        must_be_zero(p, "C21: a cloned key's base scalar is zero after it is dropped");
        reach("dropped");
    }

    p_hunt {
        let stream = buffer(128, 128);
        let mut r = Stream(stream, 0);
        let p = SystemParameters::hunt_and_peck(&mut r);
        reach("found");
        claim(p.g == RISTRETTO_BASEPOINT_POINT, "C22: the first generator is the standard basepoint");
        let h = p.h.compress();
        claim(h != RISTRETTO_BASEPOINT_COMPRESSED, "C22: the second generator is not the basepoint");
        claim(h != CompressedRistretto::identity(), "C22: the second generator is not the identity");
        claim(r.1 % 32 == 0 && r.1 >= 32, "C22: candidates are taken whole from the random stream");
        // It is the first suitable candidate.
        let b = h.to_bytes();
        match first(stream) {
            Some(i) => {
                for j in 0..32 { claim(b[j] == stream[32 * i + j], "C22: the second generator is the first suitable candidate of the random stream"); }
            },
            None => claim(false, "C22: the second generator is a candidate of the random stream"),
        }
    }
    p_given {
        let b = any!(32);
        if let Some(h) = CompressedRistretto(b).decompress() {
            assume(h != RISTRETTO_BASEPOINT_POINT);
            reach("decoded");
            for p in &[SystemParameters::from(h), SystemParameters::from(b)] {
                claim(p.g == RISTRETTO_BASEPOINT_POINT, "C22: parameters built from a given generator have the standard basepoint");
                let x = p.h.compress().to_bytes();
                for j in 0..32 { claim(x[j] == b[j], "C22: parameters built from a given generator have exactly that generator"); }
            }
        }
    }
    p_bytes {
        let b = any!(64);
        if let Ok(p) = SystemParameters::from_bytes(&b) {
            reach("decoded");
            let (g, h) = (p.g.compress().to_bytes(), p.h.compress().to_bytes());
            for j in 0..32 { claim(g[j] == b[j] && h[j] == b[32 + j], "C22: parameters built from given bytes are exactly those"); }
        }
    }

    a_copy {
        let b = any_buffer(40);
        let p = allocate_buffer_for_bytes(b) as *const u8;
        if p.is_null() {
            reach("null");
            claim(unsafe { vp_malloc_failed() } != 0, "C27: null is returned only when allocation fails");
        } else {
            claim(unsafe { vp_malloc_failed() } == 0, "C27: null is returned when allocation fails");
            reach("copied");
            let x = readable(p, b.len() + 1);
            let i = any_usize(40);
            if i < b.len() { claim(x[i] == b[i], "C27: the buffer holds exactly the bytes"); }
            claim(x[b.len()] == 0, "C27: the bytes are followed by a null byte");
            claim(unsafe { vp_malloc_size() } == b.len() + 1, "C27: exactly the bytes and a null byte are allocated");
        }
    }
    a_copy_long {
        let n = 250 + each(10);
        let b = buffer(n, n);
        let p = allocate_buffer_for_bytes(b) as *const u8;
        if !p.is_null() {
            reach("copied");
            let x = readable(p, n + 1);
            for i in 0..n { claim(x[i] == b[i], "C27: the buffer holds exactly the bytes"); }
            claim(x[n] == 0, "C27: the bytes are followed by a null byte");
        }
    }
}
/// The first suitable candidate of a random stream.
fn first(stream: &[u8]) -> Option<usize> {
    (0..stream.len() / 32).find(|i| {
        let mut c = [0u8; 32];
        c.copy_from_slice(&stream[32 * i..32 * i + 32]);
        let c = CompressedRistretto(c);
        c != RISTRETTO_BASEPOINT_COMPRESSED && c != CompressedRistretto::identity() && c.decompress().is_some()
    })
}
extern "C" {
    fn vp_malloc_failed() -> usize;
    fn vp_malloc_size() -> usize;
}
/// Gives the stream, whole candidates or not, as it is asked for; more than there is is out of scope.
struct Stream(&'static [u8], usize);
impl ::rand_core::RngCore for Stream {
    fn next_u32(&mut self) -> u32 { ::rand_core::impls::next_u32_via_fill(self) }
    fn next_u64(&mut self) -> u64 { ::rand_core::impls::next_u64_via_fill(self) }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        if self.1 + dest.len() > self.0.len() {
            claim(first(self.0).is_none(), "C22: a suitable candidate of the random stream is not passed over");
            assume(false);
        }
        let n = dest.len();
        dest.copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), ::rand_core::Error> { Ok(self.fill_bytes(dest)) }
}
impl ::rand_core::CryptoRng for Stream {}
