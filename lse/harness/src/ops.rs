//! What the calls of the C and JavaScript interfaces are to do, on the same bytes.
use aeonflux::amacs;
use aeonflux::parameters::SystemParameters;
use prelude::*;
use rand::{ChaChaRng, SeedableRng};
use signal_credential::credential::*;
use signal_credential::issuer::{IssuerParameters, SignalIssuer};
use signal_credential::phone_number::*;
use signal_credential::user::SignalUser;

pub type Outcome = Option<Vec<u8>>;
/// Proofs are made with entropy of the system: of these results only this much is the same every time when they are replayed.
pub const FIXED: usize = 128;
fn rng(seed: &[u8]) -> ChaChaRng {
    let mut s = [0u8; 32];
    s.copy_from_slice(seed);
    ChaChaRng::from_seed(s)
}
pub fn parameters_create(seed: &[u8]) -> Outcome { Some(SystemParameters::hunt_and_peck(&mut rng(seed)).to_bytes()) }
pub fn issuer_create(p: &[u8], seed: &[u8]) -> Outcome {
    SystemParameters::from_bytes(p).ok().map(|p| SignalIssuer::create(p, &mut rng(seed)).issuer.keypair.to_bytes())
}
pub fn issuer_new(p: &[u8], k: &[u8]) -> Outcome {
    match (SystemParameters::from_bytes(p), amacs::Keypair::from_bytes(k)) {
        (Ok(p), Ok(k)) => Some(SignalIssuer::new(p, k).to_bytes()),
        _ => None,
    }
}
pub fn issuer_parameters(i: &[u8]) -> Outcome { SignalIssuer::from_bytes(i).ok().map(|i| i.get_issuer_parameters().to_bytes()) }
pub fn issue(i: &[u8], n: &[u8], seed: &[u8]) -> Outcome {
    SignalIssuer::from_bytes(i).ok().and_then(|i| i.issue(n, &mut rng(seed)).ok()).map(|x| x.to_bytes())
}
pub fn verify(i: &[u8], p: &[u8]) -> Outcome {
    match (SignalIssuer::from_bytes(i), SignalCredentialPresentation::from_bytes(p)) {
        (Ok(i), Ok(p)) => i.verify(p).ok().map(|x| x.to_bytes()),
        _ => None,
    }
}
pub fn verify_roster(i: &[u8], v: &[u8]) -> Outcome {
    match (SignalIssuer::from_bytes(i), VerifiedSignalCredential::from_bytes(v)) {
        (Ok(i), Ok(v)) => i.verify_roster_membership(&v).ok().map(|x| x.to_bytes()),
        _ => None,
    }
}
pub fn obtain_finish(n: &[u8], p: &[u8], i: &[u8], c: &[u8]) -> Outcome {
    match (SystemParameters::from_bytes(p), IssuerParameters::from_bytes(i), SignalCredentialIssuance::from_bytes(c)) {
        (Ok(p), Ok(i), Ok(c)) => {
            let mut u = match SignalUser::new(p, i, None, n) { Ok(u) => u, Err(_) => return None };
            if u.obtain_finish(Some(&c)).is_err() { return None; }
            Some(u.to_bytes())
        },
        _ => None,
    }
}
pub fn show(u: &[u8], e: &[u8], seed: &[u8]) -> Outcome {
    match (SignalUser::from_bytes(u), RosterEntryCommitment::from_bytes(e)) {
        (Ok(u), Ok(e)) => u.show(&mut rng(seed), &e).ok().map(|x| x.to_bytes()),
        _ => None,
    }
}
pub fn entry_create(n: &[u8], p: &[u8], seed: &[u8]) -> Outcome {
    SystemParameters::from_bytes(p).ok().and_then(|p| RosterEntryCommitment::create(n, &p, &mut rng(seed)).ok()).map(|x| x.to_bytes())
}
pub fn entry_remove(e: &[u8]) -> Outcome { RosterEntryCommitment::from_bytes(e).ok().map(|e| e.commitment.to_bytes()) }
pub fn entry_open(e: &[u8], n: &[u8], p: &[u8]) -> bool {
    match (RosterEntryCommitment::from_bytes(e), SystemParameters::from_bytes(p)) {
        (Ok(e), Ok(p)) => e.open(n, &p).is_ok(),
        _ => false,
    }
}
/// The first `fixed` bytes when replayed, otherwise all of them.
pub fn same_result(x: &[u8], y: &[u8], fixed: usize, label: &'static str) {
    claim(x.len() == y.len(), label);
    if cfg!(feature = "native") && fixed < x.len() { same(&x[..fixed], &y[..fixed], label) } else { same(x, y, label) }
}
