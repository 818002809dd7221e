//! Transcripts whose outputs are unconstrained.
use rand_core::{CryptoRng, Error, RngCore};
#[derive(Clone)]
pub struct Transcript;
impl Transcript {
    pub fn new(_label: &[u8]) -> Transcript { Transcript }
    pub fn commit_bytes(&mut self, _label: &[u8], _message: &[u8]) {}
    pub fn challenge_bytes(&mut self, _label: &[u8], dest: &mut [u8]) { nd::apply(dest, 2, 1, &[], &[]) }
    pub fn fork_transcript(&self) -> TranscriptRngConstructor { TranscriptRngConstructor }
}
pub struct TranscriptRngConstructor;
impl TranscriptRngConstructor {
    pub fn commit_witness_bytes(self, _label: &[u8], _witness: &[u8]) -> TranscriptRngConstructor { self }
    pub fn reseed_from_rng<R: rand::Rng + rand::CryptoRng>(self, rng: &mut R) -> TranscriptRng {
        let mut b = [0u8; 32];
        rng.fill_bytes(&mut b);
        TranscriptRng(b)
    }
}
pub struct TranscriptRng([u8; 32]);
impl RngCore for TranscriptRng {
    fn next_u32(&mut self) -> u32 { rand_core::impls::next_u32_via_fill(self) }
    fn next_u64(&mut self) -> u64 { rand_core::impls::next_u64_via_fill(self) }
    fn fill_bytes(&mut self, dest: &mut [u8]) { nd::apply(dest, 2, 2, &self.0, &[]) }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { Ok(nd::apply(dest, 2, 2, &self.0, &[])) }
}
impl CryptoRng for TranscriptRng {}

