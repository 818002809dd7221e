//! A stand-in for `merlin` 0.2: transcripts are recorded, and their outputs are random oracle values (see `symcore`).
extern crate rand;
extern crate rand_core;
extern crate symcore;

fn record(op: u8, label: &[u8], len: usize, data: &[u8]) -> Vec<u8> {
    let mut v = vec![op];
    v.extend_from_slice(&[label.len() as u8, (label.len() >> 8) as u8]);
    v.extend_from_slice(label);
    v.extend_from_slice(&[len as u8, (len >> 8) as u8, (len >> 16) as u8, (len >> 24) as u8]);
    v.extend_from_slice(data);
    v
}

#[derive(Clone)]
pub struct Transcript { records: Vec<Vec<u8>> }

impl Transcript {
    pub fn new(label: &[u8]) -> Transcript { Transcript { records: vec![record(b'T', label, 0, &[])] } }
    pub fn commit_bytes(&mut self, label: &[u8], message: &[u8]) {
        self.records.push(record(b'C', label, message.len(), message));
    }
    pub fn challenge_bytes(&mut self, label: &[u8], dest: &mut [u8]) {
        self.records.push(record(b'H', label, dest.len(), &[]));
        symcore::challenge(&self.records, dest);
    }
    pub fn fork_transcript(&self) -> TranscriptRngConstructor { TranscriptRngConstructor { records: self.records.clone() } }
}

pub struct TranscriptRngConstructor { records: Vec<Vec<u8>> }

impl TranscriptRngConstructor {
    pub fn commit_witness_bytes(mut self, label: &[u8], witness: &[u8]) -> TranscriptRngConstructor {
        self.records.push(record(b'W', label, witness.len(), witness));
        self
    }
    pub fn reseed_from_rng<R>(mut self, rng: &mut R) -> TranscriptRng where R: rand::Rng + rand::CryptoRng {
        let mut bytes = [0u8; 32];
        rng.fill_bytes(&mut bytes);
        self.records.push(record(b'R', b"rng", 32, &bytes));
        TranscriptRng { records: self.records }
    }
}

pub struct TranscriptRng { records: Vec<Vec<u8>> }

impl rand_core::RngCore for TranscriptRng {
    fn next_u32(&mut self) -> u32 { rand_core::impls::next_u32_via_fill(self) }
    fn next_u64(&mut self) -> u64 { rand_core::impls::next_u64_via_fill(self) }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.records.push(record(b'F', b"", dest.len(), &[]));
        symcore::transcript_rng(&self.records, dest);
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> { Ok(self.fill_bytes(dest)) }
}
impl rand::CryptoRng for TranscriptRng {}
