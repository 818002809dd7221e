//! Protocol operations: lifecycles, soundness, privacy, commitments, encryption, keys, encodings.
use aeonflux::amacs::{self, Message, Rerandomization, SecretKey, Tag};
use aeonflux::credential::*;
use aeonflux::elgamal::{self, Encryption};
use aeonflux::errors::CredentialError;
use aeonflux::issuer::{Issuer, IssuerParameters};
use aeonflux::nonces::{Ephemeral, Nonces};
use aeonflux::parameters::SystemParameters;
use aeonflux::pedersen::Commitment;
use aeonflux::proofs::{committed_values_equal, issuance_revealed, valid_credential};
use aeonflux::user::User;
use curve25519_dalek::constants::{RISTRETTO_BASEPOINT_POINT, RISTRETTO_BASEPOINT_TABLE};
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use merlin::Transcript;
use signal_credential::credential::{SignalCredentialPresentation, VerifiedSignalCredential};
use signal_credential::issuer::SignalIssuer;
use signal_credential::phone_number::{CommittedPhoneNumber, EncryptedPhoneNumber, PhoneNumber, RosterEntryCommitment};
use signal_credential::user::SignalUser;
use nizk::Scenario;
use statements::P;
use sym::*;

// ------------------------------------------------------------------ parts

fn params() -> SystemParameters { SystemParameters { g: nz_point("g"), h: nz_point("h") } }
fn make_issuer(p: SystemParameters) -> Issuer { Issuer::create(p, &mut SymRng("issuer")) }
fn x0(i: &Issuer) -> Scalar { chunk(&i.keypair.secret.to_bytes(), 0) }
fn x1(i: &Issuer) -> Scalar { chunk(&i.keypair.secret.to_bytes(), 1) }

fn chunk(b: &[u8], i: usize) -> Scalar {
    let mut t = [0u8; 32];
    t.copy_from_slice(&b[32 * i..32 * i + 32]);
    match Scalar::from_canonical_bytes(t) { Some(s) => s, None => ::symcore::finish("UNENCODABLE", "a scalar in another encoding") }
}

fn commitment(p: &P) -> Commitment {
    match Commitment::from_bytes(&p.compress().to_bytes()[..]) {
        Ok(c) => c,
        Err(_) => ::symcore::finish("UNENCODABLE", "cannot make a commitment"),
    }
}
fn value(c: &Commitment) -> P { c.clone().into() }
fn secret_key(n: usize, tag: &str) -> (SecretKey, Vec<Scalar>) {
    let x: Vec<Scalar> = (0..n + 1).map(|i| scalar(&format!("{}{}", tag, i))).collect();
    let mut b = vec![];
    for s in x.iter() { b.extend_from_slice(&s.to_bytes()[..]); }
    match SecretKey::from_bytes(&b) {
        Ok(k) => (k, x),
        Err(_) => ::symcore::finish("UNENCODABLE", "cannot make a secret key"),
    }
}

fn ok<T, E>(label: &str, r: Result<T, E>) -> T {
    match r {
        Ok(x) => { check(label, true); x },
        Err(_) => { check(label, false); unreachable!() },
    }
}

/// Stop quietly when the code under test refused what this scenario only uses as preparation.
fn prepared<T, E>(what: &str, r: Result<T, E>) -> T {
    match r { Ok(x) => x, Err(_) => ::symcore::finish("UNENCODABLE", &format!("preparation refused: {}", what)) }
}

fn free_presentation(tag: &str, revealed: usize, blinded: usize) -> CredentialPresentation {
    CredentialPresentation {
        proof: free_proof(&format!("{}.proof", tag)),
        rerandomized_mac_commitment: commitment(&point(&format!("{}.CQ", tag))),
        rerandomized_nonce: point(&format!("{}.P", tag)),
        attributes_revealed: (0..revealed).map(|i| scalar(&format!("{}.revealed{}", tag, i))).collect(),
        attributes_blinded: (0..blinded).map(|i| commitment(&point(&format!("{}.Cm{}", tag, i)))).collect(),
    }
}

fn free_issuance(tag: &str, attributes: usize) -> CredentialIssuance {
    CredentialIssuance {
        proof: free_proof(&format!("{}.proof", tag)),
        credential: Credential {
            mac: Tag { nonce: point(&format!("{}.P", tag)), mac: point(&format!("{}.Q", tag)) },
            attributes: (0..attributes).map(|i| scalar(&format!("{}.m{}", tag, i))).collect(),
        },
        secret_key_commitment: commitment(&point(&format!("{}.Cx0", tag))),
    }
}

// ------------------------------------------------------------------ C01, C02

/// C01: request, issue, accept, show twice, verify.
fn life() {
    let p = params();
    let issuer = make_issuer(p);
    let mut user = User::new(p, issuer.get_issuer_parameters(), None);
    let m = scalar("m");
    let request = user.obtain(vec![m]);
    check("the request asks for the attribute", request.attributes_revealed == vec![m]);
    let issuance = ok("an honest issuer issues", issuer.issue(&request, &mut SymRng("issue")));
    ok("the user accepts an honest issuance", user.obtain_finish(Some(&issuance)));
    check("the user stores what was issued", user.credential.as_ref() == Some(&issuance.credential));
    check("the credential is on the requested attribute", issuance.credential.attributes == vec![m]);
    for i in 0..4 {
        let nonces = Nonces::new(&mut SymRng("nonces"), 1);
        let shown = ok("a user with a credential shows it", user.show(&nonces, &mut SymRng("show")));
        let verified = ok("the issuer accepts an honest presentation", issuer.verify(&shown));
        check("the issuer returns what was presented", verified.0 == shown);
        if i == 1 { reach("shown twice"); }
    }
    check("showing leaves the credential as it was", user.credential.as_ref() == Some(&issuance.credential));
}

/// C01: a second credential from the same issuer replaces the first and works.
fn life_again() {
    let p = params();
    let issuer = make_issuer(p);
    let mut user = User::new(p, issuer.get_issuer_parameters(), None);
    for n in ["m", "n"].iter() {
        let m = scalar(n);
        let issuance = ok("an honest issuer issues", issuer.issue(&user.obtain(vec![m]), &mut SymRng("issue")));
        ok("the user accepts an honest issuance", user.obtain_finish(Some(&issuance)));
        check("the user stores what was issued", user.credential.as_ref() == Some(&issuance.credential));
        let nonces = Nonces::new(&mut SymRng("nonces"), 1);
        let shown = ok("a user with a credential shows it", user.show(&nonces, &mut SymRng("show")));
        ok("the issuer accepts an honest presentation", issuer.verify(&shown));
    }
}

macro_rules! travel {
    ($t:ty, $x:expr) => { ok(concat!("an encoded ", stringify!($t), " decodes"), <$t>::from_bytes(&$x.to_bytes())) };
}

/// C01: every party and message goes through its encoding between the steps.
fn life_encoded() {
    let p = travel!(SystemParameters, params());
    let issuer = travel!(Issuer, make_issuer(p));
    let mut user = User::new(p, travel!(IssuerParameters, issuer.get_issuer_parameters()), None);
    let m = scalar("m");
    let request = travel!(CredentialRequest, user.obtain(vec![m]));
    let issuance = travel!(CredentialIssuance, ok("an honest issuer issues", issuer.issue(&request, &mut SymRng("issue"))));
    ok("the user accepts an honest issuance", user.obtain_finish(Some(&issuance)));
    check("the user stores what was issued", user.credential.as_ref() == Some(&issuance.credential));
    let mut user = travel!(User, user);
    check("a stored user keeps the credential", user.credential.as_ref() == Some(&issuance.credential));
    for _ in 0..2 {
        let nonces = Nonces::new(&mut SymRng("nonces"), 1);
        let shown = ok("a user with a credential shows it", user.show(&nonces, &mut SymRng("show")));
        let shown = travel!(CredentialPresentation, shown);
        let verified = ok("the issuer accepts an honest presentation", issuer.verify(&shown));
        check("the issuer returns what was presented", travel!(VerifiedCredential, verified).0 == shown);
        user = travel!(User, user);
    }
    let issuer = Issuer::new(p, travel!(amacs::Keypair, issuer.keypair));
    let nonces = Nonces::new(&mut SymRng("nonces"), 1);
    let shown = ok("a user with a credential shows it", user.show(&nonces, &mut SymRng("show")));
    ok("an issuer restored from its key accepts an honest presentation", issuer.verify(&shown));
}

fn roster_entry(n: &PhoneNumber, p: &SystemParameters, tag: &str) -> RosterEntryCommitment {
    let opening: Ephemeral = scalar(tag).into();
    RosterEntryCommitment { commitment: CommittedPhoneNumber::from_phone_number(n, &opening, &p.g, &p.h), opening: opening }
}

/// C02: the lifecycle with an arbitrary attribute.
fn roster_any() {
    let p = params();
    let issuer = SignalIssuer::create(p, &mut SymRng("issuer"));
    let m = scalar("m");
    let mut user = SignalUser { phone_number: PhoneNumber(m), user: User::new(p, issuer.get_issuer_parameters(), None) };
    let issuance = ok("an honest issuer issues",
                      issuer.issuer.issue(&CredentialRequest { attributes_revealed: vec![m] }, &mut SymRng("issue")));
    ok("the user accepts an honest issuance", user.obtain_finish(Some(&issuance)));
    let entry = roster_entry(&user.phone_number, &p, "opening");
    for _ in 0..2 {
        let shown = ok("a user with a credential shows it", user.show(&mut SymRng("show"), &entry));
        check("the presentation names the user's entry", shown.roster_entry_commitment == entry.commitment);
        let verified = ok("the issuer accepts an honest presentation", issuer.verify(shown));
        let found = ok("the membership proof verifies", issuer.verify_roster_membership(&verified));
        check("the verified entry is the user's", found == entry.commitment);
    }
}

/// C02: the same through encodings.
fn roster_encoded() {
    let p = params();
    let issuer = travel!(SignalIssuer, SignalIssuer::create(p, &mut SymRng("issuer")));
    let m = scalar("m");
    let user = SignalUser { phone_number: PhoneNumber(m), user: User::new(p, issuer.get_issuer_parameters(), None) };
    let mut user = travel!(SignalUser, user);
    let issuance = ok("an honest issuer issues",
                      issuer.issuer.issue(&CredentialRequest { attributes_revealed: vec![m] }, &mut SymRng("issue")));
    ok("the user accepts an honest issuance", user.obtain_finish(Some(&travel!(CredentialIssuance, issuance))));
    let user = travel!(SignalUser, user);
    let entry = travel!(RosterEntryCommitment, roster_entry(&user.phone_number, &p, "opening"));
    let shown = ok("a user with a credential shows it", user.show(&mut SymRng("show"), &entry));
    let verified = ok("the issuer accepts an honest presentation", issuer.verify(travel!(SignalCredentialPresentation, shown)));
    let found = ok("the membership proof verifies", issuer.verify_roster_membership(&travel!(VerifiedSignalCredential, verified)));
    check("the verified entry is the user's", travel!(CommittedPhoneNumber, found) == entry.commitment);
}

/// C02: real phone numbers, by bytes.
fn roster_number(number: &'static [u8], others: Vec<&'static [u8]>) {
    let p = params();
    let issuer = SignalIssuer::create(p, &mut SymRng("issuer"));
    let mut user = ok("a user has a number", SignalUser::new(p, issuer.get_issuer_parameters(), None, number));
    let issuance = ok("an honest issuer issues", issuer.issue(number, &mut SymRng("issue")));
    ok("the user accepts an honest issuance", user.obtain_finish(Some(&issuance)));
    let entry = ok("an entry is made", RosterEntryCommitment::create(number, &p, &mut SymRng("roster")));
    check("the entry opens to its number", entry.open(number, &p).is_ok());
    let shown = ok("a user with a credential shows it", user.show(&mut SymRng("show"), &entry));
    let verified = ok("the issuer accepts an honest presentation", issuer.verify(shown));
    let found = ok("the membership proof verifies", issuer.verify_roster_membership(&verified));
    check("the verified entry is the user's", found == entry.commitment);
    for o in others { check("the entry opens to no other number", entry.open(o, &p).is_err()); }
}

/// C02: an entry opens to its attribute and nothing else.
fn roster_opens() {
    let p = params();
    let (m, n) = (PhoneNumber(scalar("m")), PhoneNumber(scalar("n")));
    let entry = roster_entry(&m, &p, "opening");
    let opens = entry.commitment.open(&n, &entry.opening, &p.g, &p.h).is_ok();
    check("the entry opens to its own number", entry.commitment.open(&m, &entry.opening, &p.g, &p.h).is_ok());
    if opens { check("the entry opens to no other number", m == n); } else { check("the entry opens to an equal number", m != n); }
}

// ------------------------------------------------------------------ C03

/// C03: two accepted presentations with one hashed input give a MAC of this issuer.
fn presentation_sound() {
    let p = params();
    let issuer = make_issuer(p);
    let a = free_presentation("a", 0, 1);
    let mut b = a.clone();
    b.proof = free_proof("b.proof");
    set_oracle(1);
    assume(issuer.verify(&a).is_ok());
    let i = challenges() - 1;
    set_oracle(2);
    assume(issuer.verify(&b).is_ok());
    let j = challenges() - 1;
    assume_same_challenge_input(i, j);
    let dc = challenge_value(i) - challenge_value(j);
    assume_ne(&dc, &Scalar::zero());
    reach("forked");
    let d = |n: &str| field(&a.proof, n) - field(&b.proof, n);
    check("the nonce of an accepted presentation is not the identity", a.rerandomized_nonce != RistrettoPoint::identity());
    let lhs = dc * value(&a.rerandomized_mac_commitment);
    let rhs = (x0(&issuer) * dc + x1(&issuer) * d("m0")) * a.rerandomized_nonce - d("minus_zQ") * p.h;
    check("an accepted presentation commits to a MAC of the issuer on the extracted attribute", lhs == rhs);
    let lhs = dc * value(&a.attributes_blinded[0]);
    check("the attribute commitment holds the extracted attribute", lhs == d("m0") * a.rerandomized_nonce + d("z0") * p.h);
}

/// C03: acceptance means that the proof holds the oracle's answer.
fn presentation_challenge() {
    let p = params();
    let issuer = make_issuer(p);
    let a = free_presentation("a", 0, 1);
    let before = challenges();
    let ok = issuer.verify(&a).is_ok();
    if challenges() == before { check("a presentation without a challenge is refused", !ok); return; }
    let own = challenge_value(challenges() - 1) == field(&a.proof, "challenge");
    reach(if own { "own challenge" } else { "another challenge" });
    check("a presentation is accepted exactly with the challenge of its own input", ok == own);
}

/// C03: the same input is hashed only for equal presentations.
fn presentation_bound() {
    let p = params();
    let issuer = make_issuer(p);
    let (a, b) = (free_presentation("a", 0, 1), free_presentation("b", 0, 1));
    assume(issuer.verify(&a).is_ok());
    let i = challenges() - 1;
    assume(issuer.verify(&b).is_ok());
    let j = challenges() - 1;
    assume_same_challenge_input(i, j);
    reach("one input");
    check("an accepted proof belongs to one nonce", a.rerandomized_nonce == b.rerandomized_nonce);
    check("an accepted proof belongs to one commitment to the attribute", a.attributes_blinded[0] == b.attributes_blinded[0]);
    check("an accepted proof belongs to one commitment to the MAC", a.rerandomized_mac_commitment == b.rerandomized_mac_commitment);
}

fn presentation_shape(revealed: usize, blinded: usize) {
    let p = params();
    let issuer = make_issuer(p);
    let a = free_presentation("a", revealed, blinded);
    reach("verified");
    check("a presentation with other attributes is refused", issuer.verify(&a).is_err());
}

/// C03: what the issuer's `verify` of both crates accepts is the same.
fn presentation_signal() {
    let p = params();
    let (k, _) = secret_key(1, "x");
    let issuer = SignalIssuer::new(p, amacs::Keypair { public: k.get_public_key(&p.h), secret: k });
    let s = SignalCredentialPresentation {
        roster_entry_commitment: CommittedPhoneNumber(commitment(&point("R"))),
        presentation: free_presentation("a", 0, 1),
        roster_membership_proof: free_proof("roster"),
    };
    let inner = issuer.issuer.verify(&s.presentation).is_ok();
    let outer = issuer.verify(s.clone());
    check("a phone-number presentation is accepted exactly with its credential", inner == outer.is_ok());
    if let Ok(v) = outer {
        reach("accepted");
        let back = prepared("decode", SignalCredentialPresentation::from_bytes(&v.to_bytes()));
        check("the verified presentation is the presented one", back == s);
    }
}

// ------------------------------------------------------------------ C04

fn signal_presentation(tag: &str) -> SignalCredentialPresentation {
    SignalCredentialPresentation {
        roster_entry_commitment: CommittedPhoneNumber(commitment(&point(&format!("{}.R", tag)))),
        presentation: free_presentation(tag, 0, 1),
        roster_membership_proof: free_proof(&format!("{}.roster", tag)),
    }
}

fn accepted_roster(issuer: &SignalIssuer, s: &SignalCredentialPresentation) -> (CommittedPhoneNumber, usize) {
    match issuer.verify(s.clone()) {
        Ok(v) => match issuer.verify_roster_membership(&v) {
            Ok(c) => (c, challenges() - 1),
            Err(_) => ::symcore::finish("INFEASIBLE", "refused"),
        },
        Err(_) => ::symcore::finish("INFEASIBLE", "refused"),
    }
}

/// C04: extraction from the two proofs together.
fn roster_sound() {
    let p = params();
    let issuer = SignalIssuer::create(p, &mut SymRng("issuer"));
    let a = signal_presentation("a");
    let mut b = a.clone();
    b.roster_membership_proof = free_proof("b.roster");
    set_oracle(1);
    let (found, i) = accepted_roster(&issuer, &a);
    set_oracle(2);
    let va = match issuer.verify(b.clone()) { Ok(v) => v, Err(_) => ::symcore::finish("INFEASIBLE", "refused") };
    assume(issuer.verify_roster_membership(&va).is_ok());
    let j = challenges() - 1;
    assume_same_challenge_input(i, j);
    let dc = challenge_value(i) - challenge_value(j);
    assume_ne(&dc, &Scalar::zero());
    reach("forked");
    check("the returned entry is the presented one", found == a.roster_entry_commitment);
    let d = |n: &str| field(&a.roster_membership_proof, n) - field(&b.roster_membership_proof, n);
    let P = a.presentation.rerandomized_nonce;
    check("the presentation commits to the extracted number",
          dc * value(&a.presentation.attributes_blinded[0]) == d("m0") * P + d("z0") * p.h);
    check("the roster entry holds the extracted number", dc * value(&found.0) == d("m0") * p.h + d("z1") * p.g);
}

/// C04: acceptance means that the proof holds the oracle's answer.
fn roster_challenge() {
    let p = params();
    let issuer = SignalIssuer::new(p, keypair(1, 1));
    let s = signal_presentation("a");
    let v = prepared("decode", VerifiedSignalCredential::from_bytes(&s.to_bytes()));
    let before = challenges();
    let ok = issuer.verify_roster_membership(&v).is_ok();
    if challenges() == before { check("a membership proof without a challenge is refused", !ok); return; }
    let own = challenge_value(challenges() - 1) == field(&s.roster_membership_proof, "challenge");
    reach(if own { "own challenge" } else { "another challenge" });
    check("membership is accepted exactly with the challenge of its own input", ok == own);
}

/// C04: a proof belongs to one entry and one presentation.
fn roster_bound() {
    let p = params();
    let issuer = SignalIssuer::create(p, &mut SymRng("issuer"));
    let (a, b) = (signal_presentation("a"), signal_presentation("b"));
    let (_, i) = accepted_roster(&issuer, &a);
    let (_, j) = accepted_roster(&issuer, &b);
    assume_same_challenge_input(i, j);
    reach("one input");
    check("an accepted membership proof belongs to one entry", a.roster_entry_commitment == b.roster_entry_commitment);
    check("an accepted membership proof belongs to one nonce", a.presentation.rerandomized_nonce == b.presentation.rerandomized_nonce);
    check("an accepted membership proof belongs to one attribute commitment",
          a.presentation.attributes_blinded[0] == b.presentation.attributes_blinded[0]);
}

/// C04: an honest user cannot pass with an entry for another number, whatever the challenges.
fn roster_other_number() {
    let p = params();
    let issuer = SignalIssuer::new(p, keypair(1, 1));
    let (m, n) = (scalar("m"), scalar("n"));
    assume_ne(&m, &n);
    let mut user = SignalUser { phone_number: PhoneNumber(m), user: User::new(p, IssuerParameters { Xn: vec![point("X1")] }, None) };
    user.user.credential = Some(Credential { mac: Tag { nonce: nz_point("P"), mac: point("Q") }, attributes: vec![m] });
    let entry = roster_entry(&PhoneNumber(n), &p, "opening");
    let shown = match user.show(&mut SymRng("show"), &entry) { Ok(x) => x, Err(_) => { reach("refused"); return } };
    let proof = shown.roster_membership_proof.clone();
    assume_ne(&field(&proof, "challenge"), &Scalar::zero());
    let v = prepared("decode", VerifiedSignalCredential::from_bytes(&shown.to_bytes()));
    reach("shown");
    // Acceptance would need one challenge for two inputs.
    let made = challenges() - 1;
    let _ = issuer.verify_roster_membership(&v);
    check("another number's entry makes another challenge input", challenges() == made + 2 && !same_challenge_input(made, made + 1));
}

// ------------------------------------------------------------------ C05

struct Forked { p: SystemParameters, X1: P, a: CredentialIssuance, b: CredentialIssuance, dc: Scalar }

fn forked_issuance() -> Forked {
    let p = params();
    let X1 = point("X1");
    let ip = IssuerParameters { Xn: vec![X1] };
    let a = free_issuance("a", 1);
    let b = CredentialIssuance {
        proof: free_proof("b.proof"), credential: a.credential.clone(), secret_key_commitment: a.secret_key_commitment,
    };
    let (mut u, mut v) = (User::new(p, ip.clone(), None), User::new(p, ip, None));
    set_oracle(1);
    assume(u.obtain_finish(Some(&a)).is_ok());
    let i = challenges() - 1;
    set_oracle(2);
    assume(v.obtain_finish(Some(&b)).is_ok());
    let j = challenges() - 1;
    assume_same_challenge_input(i, j);
    let dc = challenge_value(i) - challenge_value(j);
    assume_ne(&dc, &Scalar::zero());
    reach("forked");
    check("the user stores exactly what was issued", u.credential.as_ref() == Some(&a.credential));
    Forked { p: p, X1: X1, a: a, b: b, dc: dc }
}

impl Forked {
    fn d(&self, n: &str) -> Scalar { field(&self.a.proof, n) - field(&self.b.proof, n) }
}

/// C05: extraction of the issuer's key from two accepted issuances.
fn issuance_sound() {
    let f = forked_issuance();
    let t = &f.a.credential.mac;
    check("the nonce of an accepted credential is not the identity", t.nonce != RistrettoPoint::identity());
    check("the MAC is made with the extracted key", f.dc * t.mac == f.d("x0") * t.nonce + f.d("m1x1") * t.nonce);
    check("the key commitment holds the extracted base secret",
          f.dc * value(&f.a.secret_key_commitment) == f.d("x0") * f.p.g + f.d("x0_tilde") * f.p.h);
    check("the extracted key is the published one", f.dc * f.X1 == f.d("x1") * f.p.h);
}

/// C05: the MAC is the one on the stored attribute.
fn issuance_attribute() {
    let f = forked_issuance();
    let (t, m) = (&f.a.credential.mac, f.a.credential.attributes[0]);
    check("the MAC is on the stored attribute", f.dc * f.dc * t.mac == (f.d("x0") * f.dc + f.d("x1") * f.dc * m) * t.nonce);
}

/// C05: the same, for issuers which use their secret for the attribute in the proof.
fn issuance_given() {
    let f = forked_issuance();
    let (t, m) = (&f.a.credential.mac, f.a.credential.attributes[0]);
    let (l, r) = (f.d("m1x1"), f.d("x1") * m);
    assume_eq(&l, &r);
    check("the MAC is on the stored attribute if the product in the proof is", f.dc * t.mac == (f.d("x0") + f.d("x1") * m) * t.nonce);
}

/// C05: acceptance means that the proof holds the oracle's answer.
fn issuance_challenge() {
    let p = params();
    let a = free_issuance("a", 1);
    let mut u = User::new(p, IssuerParameters { Xn: vec![point("X1")] }, None);
    let before = challenges();
    let ok = u.obtain_finish(Some(&a)).is_ok();
    if challenges() == before { check("an issuance without a challenge is refused", !ok); return; }
    let own = challenge_value(challenges() - 1) == field(&a.proof, "challenge");
    reach(if own { "own challenge" } else { "another challenge" });
    check("an issuance is accepted exactly with the challenge of its own input", ok == own);
}

/// C05: an accepted issuance belongs to the published parameters and one credential.
fn issuance_bound() {
    let (p, q) = (params(), SystemParameters { g: nz_point("g'"), h: nz_point("h'") });
    let (X, Y) = (point("X1"), point("X1'"));
    let (a, b) = (free_issuance("a", 1), free_issuance("b", 1));
    let mut u = User::new(p, IssuerParameters { Xn: vec![X] }, None);
    let mut v = User::new(q, IssuerParameters { Xn: vec![Y] }, None);
    assume(u.obtain_finish(Some(&a)).is_ok());
    let i = challenges() - 1;
    assume(v.obtain_finish(Some(&b)).is_ok());
    let j = challenges() - 1;
    assume_same_challenge_input(i, j);
    reach("one input");
    check("an accepted issuance belongs to one set of issuer parameters", X == Y);
    check("an accepted issuance belongs to one set of system parameters", p == q);
    check("an accepted issuance belongs to one MAC", a.credential.mac == b.credential.mac);
    check("an accepted issuance belongs to one key commitment", a.secret_key_commitment == b.secret_key_commitment);
}

fn issuance_shape(attributes: usize) {
    let p = params();
    let mut u = User::new(p, IssuerParameters { Xn: vec![point("X1")] }, None);
    reach("finished");
    check("an issuance with another number of attributes is refused", u.obtain_finish(Some(&free_issuance("a", attributes))).is_err());
    check("nothing is stored", u.credential == None);
}

/// C05: a phone-number user accepts only its own number.
fn issuance_own_number() {
    let p = params();
    let n = scalar("number");
    let mut u = SignalUser { phone_number: PhoneNumber(n), user: User::new(p, IssuerParameters { Xn: vec![point("X1")] }, None) };
    let a = free_issuance("a", 1);
    let accepted = u.obtain_finish(Some(&a)).is_ok();
    if accepted {
        reach("accepted");
        check("the accepted credential is on the user's own number", a.credential.attributes[0] == n);
        check("the user stores exactly what was issued", u.user.credential.as_ref() == Some(&a.credential));
    } else {
        check("nothing is stored", u.user.credential == None);
    }
}

/// C05: what an honest issuer issues for another number is refused.
fn issuance_honest_number() {
    let p = params();
    let issuer = make_issuer(p);
    let (m, n) = (scalar("m"), scalar("number"));
    let a = issuer.issue(&CredentialRequest { attributes_revealed: vec![m] }, &mut SymRng("issue"));
    let a = prepared("issue", a);
    let mut u = SignalUser { phone_number: PhoneNumber(n), user: User::new(p, issuer.get_issuer_parameters(), None) };
    let accepted = u.obtain_finish(Some(&a)).is_ok();
    if accepted { reach("accepted"); }
    if m == n { reach("own number"); check("an honest issuance for the own number is accepted", accepted); } else { reach("another number"); check("an honest issuance for another number is refused", !accepted); }
    check("a credential is stored exactly when it is accepted", u.user.credential.is_some() == accepted);
}

/// C05: the same acceptance as the generic user's, for the user's own number.
fn issuance_signal() {
    let p = params();
    let n = scalar("number");
    let ip = IssuerParameters { Xn: vec![point("X1")] };
    let mut u = SignalUser { phone_number: PhoneNumber(n), user: User::new(p, ip.clone(), None) };
    let mut v = User::new(p, ip, None);
    let mut a = free_issuance("a", 1);
    a.credential.attributes[0] = n;
    check("an issuance for the user's own number is judged like any other",
          u.obtain_finish(Some(&a)).is_ok() == v.obtain_finish(Some(&a)).is_ok());
}

// ------------------------------------------------------------------ C06

fn mac_exact(n: usize, length: usize) {
    let (k, x) = secret_key(n, "x");
    let m: Vec<Scalar> = (0..length).map(|i| scalar(&format!("m{}", i))).collect();
    let tag = Tag { nonce: point("P"), mac: point("Q") };
    let accepted = k.verify(&tag, &Message(m.clone())).is_ok();
    reach("judged");
    if length != n { check("a message of another length is refused", !accepted); return }
    let mut e = x[0];
    for i in 0..n { e = e + x[i + 1] * m[i]; }
    if accepted {
        check("an accepted tag has a nonce other than the identity", tag.nonce != RistrettoPoint::identity());
        check("an accepted tag is the MAC of the whole message", tag.mac == e * tag.nonce);
        reach("accepted");
    } else {
        let good = tag.nonce != RistrettoPoint::identity() && tag.mac == e * tag.nonce;
        check("the MAC of the message is accepted", !good);
        reach("refused");
    }
}

fn mac_made(n: usize, length: usize) {
    let (k, x) = secret_key(n, "x");
    let m = Message((0..length).map(|i| scalar(&format!("m{}", i))).collect());
    let t = match k.mac(&m, &mut SymRng("mac")) {
        Ok(t) => { check("only messages of the key's length are tagged", length == n); t },
        Err(_) => { check("messages of the key's length are tagged", length != n); return },
    };
    check("a made tag verifies", k.verify(&t, &m).is_ok());
    let mut e = x[0];
    for i in 0..n { e = e + x[i + 1] * m[i]; }
    check("a made tag is the MAC of the whole message", t.mac == e * t.nonce);
    let r = Rerandomization::new(&mut SymRng("rerandomize"));
    let u = r.apply_to_tag(&t);
    check("a rerandomized tag verifies", k.verify(&u, &m).is_ok());
    check("the products agree", &t * &r == u && &r * &t == u);
    let other = Message((0..length).map(|i| scalar(&format!("n{}", i))).collect());
    check("rerandomizing changes no verdict", k.verify(&t, &other).is_ok() == k.verify(&u, &other).is_ok());
    for l in 0..n + 2 {
        if l != n {
            let other = Message((0..l).map(|i| if i < length { m[i] } else { scalar("extra") }).collect());
            check("a tag verifies for no other length", k.verify(&t, &other).is_err());
        }
    }
}

/// C06: rerandomization keeps the verdict of any tag.
fn mac_rerandomized() {
    let (k, _) = secret_key(1, "x");
    let m = Message::from(scalar("m"));
    let t = Tag { nonce: point("P"), mac: point("Q") };
    let r = Rerandomization::new(&mut SymRng("rerandomize"));
    let before = k.verify(&t, &m).is_ok();
    let after = k.verify(&r.apply_to_tag(&t), &m).is_ok();
    reach("judged");
    check("rerandomizing changes no verdict", before == after);
}

// ------------------------------------------------------------------ C13, C14

fn commitment_opens() {
    let (h, v, w) = (point("h"), point("v"), point("w"));
    let (n, o) = (scalar("n"), scalar("o"));
    let c = Commitment::to(&v, &n.into(), &h);
    check("a commitment is the value masked by the nonce", value(&c) == v + n * h);
    check("a commitment opens to its value", c.open(&v, &n.into(), &h).is_ok());
    let opens = c.open(&w, &o.into(), &h).is_ok();
    let equivalent = w == v + (n - o) * h;
    check("a commitment opens exactly to equivalent pairs", opens == equivalent);
}

fn commitment_binds() {
    let (h, v, w) = (nz_point("h"), point("v"), point("w"));
    let (n, o) = (scalar("n"), scalar("o"));
    let c = Commitment::to(&v, &n.into(), &h);
    assume(c.open(&w, &o.into(), &h).is_ok());
    reach("opened");
    if v == w { check("one value has one nonce", n == o); }
    else {
        let x = (n - o).invert();
        check("two openings reveal the discrete logarithm of the generator", h == x * (w - v));
    }
}

fn commitment_hides() {
    let (a, b, e, n) = (scalar("a"), scalar("b"), nz_scalar("e"), scalar("n"));
    let base = &RISTRETTO_BASEPOINT_TABLE;
    let h = &e * base;
    let c = Commitment::to(&(&a * base), &n.into(), &h);
    let o = n + (a - b) * e.invert();
    let d = Commitment::to(&(&b * base), &o.into(), &h);
    reach("committed");
    check("any value gives the same commitment with some nonce", c == d);
}

fn phone_commitment() {
    let (g, h) = (nz_point("g"), nz_point("h"));
    let (m, n) = (PhoneNumber(scalar("m")), PhoneNumber(scalar("n")));
    let (x, y) = (scalar("x"), scalar("y"));
    let c = CommittedPhoneNumber::from_phone_number(&m, &x.into(), &g, &h);
    check("a committed number opens", c.open(&m, &x.into(), &g, &h).is_ok());
    let opens = c.open(&n, &y.into(), &g, &h).is_ok();
    let equivalent = m.0 * h + x * g == n.0 * h + y * g;
    check("a committed number opens exactly to equivalent pairs", opens == equivalent);
    let same = c.open(&n, &x.into(), &g, &h).is_ok();
    check("with its nonce a committed number opens to itself only", same == (m == n));
    let own = c.open(&m, &y.into(), &g, &h).is_ok();
    check("a committed number opens with its nonce only", own == (x == y));
}

fn phone_commitment_hides() {
    let base = &RISTRETTO_BASEPOINT_TABLE;
    let (d, e) = (nz_scalar("g"), nz_scalar("h"));
    let (g, h) = (&d * base, &e * base);
    let (m, n, x) = (scalar("m"), scalar("n"), scalar("x"));
    let c = CommittedPhoneNumber::from_phone_number(&PhoneNumber(m), &x.into(), &g, &h);
    let y = x + (m - n) * e * d.invert();
    let f = CommittedPhoneNumber::from_phone_number(&PhoneNumber(n), &y.into(), &g, &h);
    reach("committed");
    check("any number gives the same entry with some nonce", c == f);
}

fn decrypts() {
    let k = elgamal::Keypair::generate(&mut SymRng("key"));
    let (m, n) = (scalar("m"), scalar("n"));
    let base = &RISTRETTO_BASEPOINT_TABLE;
    let c = k.encrypt(&(&m).into(), &n.into());
    let pk: P = k.public.into();
    check("decrypting an encryption gives the message", k.secret.decrypt(&c) == &m * base);
    check("the commitment is the nonce's", c.commitment == &n * base);
    check("the message is masked by the shared point", c.encryption == &m * base + n * pk);
    check("encrypting to the public key is the same", k.public.encrypt(&(&m).into(), &n.into()) == c);
    let (m2, n2) = (scalar("m2"), scalar("n2"));
    let d = k.encrypt(&(&m2).into(), &n2.into());
    let sum = &c + &d;
    check("the sum decrypts to the sum", k.secret.decrypt(&sum) == &(m + m2) * base);
    check("the sum is the encryption of the sum", sum == k.encrypt(&(&(m + m2)).into(), &(n + n2).into()));
    let p = PhoneNumber(m).encrypt(&k, &n.into());
    check("an encrypted number is the encryption of its attribute", p.0 == c);
}

fn decrypts_any() {
    let k = elgamal::Keypair::generate(&mut SymRng("key"));
    let s = chunk(&k.secret.to_bytes(), 0);
    let c = Encryption { commitment: point("C"), encryption: point("E") };
    let (a, b) = (c, Encryption { commitment: point("C2"), encryption: point("E2") });
    check("decrypting removes the shared point", k.secret.decrypt(&c) == c.encryption - s * c.commitment);
    check("decryption is homomorphic", k.secret.decrypt(&(&a + &b)) == k.secret.decrypt(&a) + k.secret.decrypt(&b));
}

fn encryption_hides() {
    // Given the shared point of one encryption the message of another is fixed; without it every message is possible.
    let (q, m, n, r) = (scalar("key"), scalar("m"), scalar("n"), nz_scalar("r"));
    let base = &RISTRETTO_BASEPOINT_TABLE;
    let pk = prepared("key", elgamal::PublicKey::from_bytes(&(&q * base).compress().to_bytes()));
    let other = prepared("key", elgamal::PublicKey::from_bytes(&(&(q + (m - n) * r.invert()) * base).compress().to_bytes()));
    let (c, d) = (pk.encrypt(&(&m).into(), &r.into()), other.encrypt(&(&n).into(), &r.into()));
    reach("encrypted");
    check("with another shared point any message gives the same ciphertext", c == d);
}

// ------------------------------------------------------------------ C09, C10 for operations

/// C09: the protocol steps hash in different contexts.
fn operations_context() {
    let p = params();
    let issuer = SignalIssuer::create(p, &mut SymRng("issuer"));
    let n = scalar("number");
    let mut start = vec![];
    let mut user = SignalUser { phone_number: PhoneNumber(n), user: User::new(p, issuer.get_issuer_parameters(), None) };
    let issuance = prepared("issue", issuer.issuer.issue(&CredentialRequest { attributes_revealed: vec![n] }, &mut SymRng("issue")));
    start.push(("issue", challenges() - 1));
    prepared("obtain", user.obtain_finish(Some(&issuance)));
    start.push(("issue", challenges() - 1));
    let entry = roster_entry(&user.phone_number, &p, "opening");
    let from = challenges();
    let shown = prepared("show", user.show(&mut SymRng("show"), &entry));
    assume(challenges() == from + 2);
    start.push(("show", from));
    start.push(("roster", from + 1));
    let v = prepared("verify", issuer.verify(shown));
    start.push(("show", challenges() - 1));
    prepared("roster", issuer.verify_roster_membership(&v).map_err(|_| ()));
    start.push(("roster", challenges() - 1));
    let heads: Vec<Vec<Vec<u8>>> = ::symcore::with(|s| start.iter().map(|x| context(&s.challenges[x.1])).collect());
    for i in 0..start.len() {
        for j in 0..i {
            if start[i].0 == start[j].0 { check("prover and verifier of a step hash in one context", heads[i] == heads[j]); }
            else { check("different steps hash in different contexts", heads[i] != heads[j]); }
        }
    }
}

/// What was hashed before the first value: the literal records.
fn context(r: &Vec<Vec<u8>>) -> Vec<Vec<u8>> {
    let literal = |x: &Vec<u8>| ::symcore::segments(x).iter().all(|s| match *s { ::symcore::Seg::Raw(_) => true, _ => false });
    if cfg!(feature = "conc") { return vec![r[0].clone()]; }
    r.iter().take_while(|x| literal(x)).cloned().collect()
}

// ------------------------------------------------------------------ C12

struct Holder { user: User, m: Scalar, nonce: P, nonce_log: Scalar, exponent: Scalar }

struct World { p: SystemParameters, x1: Scalar, g: Scalar, h: Scalar, one: Holder, two: Holder, w: Scalar, delta: Scalar }

/// Two holders of credentials of one issuer; their attributes differ by `g h delta`, their nonces by the factor `w`.
fn world() -> World {
    let base = &RISTRETTO_BASEPOINT_TABLE;
    let (g, h) = (nz_scalar("g"), nz_scalar("h"));
    let p = SystemParameters { g: &g * base, h: &h * base };
    let (a, b) = (scalar("x0"), scalar("x1"));
    let xn = IssuerParameters { Xn: vec![b * p.h] };
    let delta = scalar("delta");
    let n = scalar("n");
    let m = n + g * h * delta;
    let (p2, w) = (nz_scalar("p2"), nz_scalar("w"));
    let holder = |m: Scalar, log: Scalar| {
        let nonce = &log * base;
        let e = a + b * m;
        let mut u = User::new(p, xn.clone(), None);
        u.credential = Some(Credential { mac: Tag { nonce: nonce, mac: e * nonce }, attributes: vec![m] });
        Holder { user: u, m: m, nonce: nonce, nonce_log: log, exponent: e }
    };
    World { p: p, x1: b, g: g, h: h, one: holder(m, p2 * w), two: holder(n, p2), w: w, delta: delta }
}

/// The first draw which satisfies `f`.
fn find(from: usize, what: &str, f: &Fn(&Scalar) -> bool) -> Option<usize> {
    let r = (from..draws()).find(|j| f(&draw_value(*j)));
    if r.is_none() { note(&format!("no draw is {}", what)); }
    r
}

fn unmasked<T: ::serde::Serialize>(proof: &T, w: &[(&str, Scalar)]) -> Vec<Scalar> {
    let c = field(proof, "challenge");
    w.iter().map(|x| field(proof, x.0) - c * x.1).collect()
}

fn mask_roles(x: &[Scalar], from: usize) -> Option<Vec<usize>> {
    let mut out = vec![];
    for v in x { out.push(find(from, "the nonce of a response", &|d| identical(v, d))?); }
    Some(out)
}

/// The draws which are the rerandomization, the nonce of the attribute's commitment and that of the MAC's.
fn roles(w: &World, s: &CredentialPresentation, from: usize) -> Option<(usize, usize, usize)> {
    let u = &w.one;
    let P = s.rerandomized_nonce;
    let t = find(from, "the rerandomization", &|d| identical_points(&(d * u.nonce), &P))?;
    let z = find(from, "the nonce of the attribute's commitment",
                 &|d| identical_points(&(u.m * P + d * w.p.h), &value(&s.attributes_blinded[0])))?;
    let q = find(from, "the nonce of the MAC's commitment",
                 &|d| identical_points(&(u.exponent * P + d * w.p.h), &value(&s.rerandomized_mac_commitment)))?;
    Some((t, z, q))
}

/// When the draws' roles are not recognized: at least, everything moves when all draws do.
fn moves(w: &World, a: &CredentialPresentation, from: usize) {
    let n = draws() - from;
    let other: Vec<Scalar> = (0..n).map(|i| scalar(&format!("r{}", i))).collect();
    for i in 0..n {
        assume_ne(&other[i], &Scalar::zero());
        for j in 0..n { assume_ne(&other[i], &draw_value(from + j)); }
        for j in 0..i { assume_ne(&other[i], &other[j]); }
    }
    program(&other);
    let b = prepared("show", w.one.user.show(&Nonces::new(&mut SymRng("nonces"), 1), &mut SymRng("show")));
    let (P, R) = (a.rerandomized_nonce, b.rerandomized_nonce);
    check("every presentation has a rerandomized nonce", P != R);
    let z = |s: &CredentialPresentation| value(&s.attributes_blinded[0]) - w.one.m * s.rerandomized_nonce;
    check("every presentation masks the attribute afresh", z(a) != z(&b));
    let q = |s: &CredentialPresentation| value(&s.rerandomized_mac_commitment) - w.one.exponent * s.rerandomized_nonce;
    check("every presentation masks the MAC afresh", q(a) != q(&b));
    check("the masks of attribute and MAC differ", z(a) != q(a));
}

/// C12: for every credential there are draws which give the identical presentation.
fn unlinkable() {
    let w = world();
    let from = draws();
    let s = ok("a user with a credential shows it", w.one.user.show(&Nonces::new(&mut SymRng("nonces"), 1), &mut SymRng("show")));
    let n = draws() - from;
    let (t, z, q) = match roles(&w, &s, from) { Some(r) => r, None => return moves(&w, &s, from) };
    let (dz, dq) = (draw_value(z), draw_value(q));
    let u = unmasked(&s.proof, &[("m0", w.one.m), ("z0", dz), ("minus_zQ", -dq)]);
    let masks = match mask_roles(&u, from) { Some(r) => r, None => return moves(&w, &s, from) };
    let mut all = vec![t, z, q];
    all.extend(masks.iter().cloned());
    for i in 0..all.len() { for j in 0..i { check("everything hidden has a draw of its own", all[i] != all[j]); } }
    let mut other: Vec<Scalar> = (0..n).map(|j| draw_value(from + j)).collect();
    let nonce = draw_value(t) * w.one.nonce_log;
    let step = w.g * w.delta;               // the attributes differ by h * step
    let c = field(&s.proof, "challenge");
    other[t - from] = draw_value(t) * w.w;
    other[z - from] = dz + step * nonce;
    other[q - from] = dq + w.x1 * step * nonce;
    other[masks[0] - from] = u[0] + c * w.h * step;
    other[masks[1] - from] = u[1] - c * step * nonce;
    other[masks[2] - from] = u[2] + c * w.x1 * step * nonce;
    program(&other);
    let r = ok("another user shows its credential", w.two.user.show(&Nonces::new(&mut SymRng("nonces"), 1), &mut SymRng("show")));
    assume(programmed_left() == 0);
    reach("two holders");
    check("another credential gives the identical presentation with other draws", s == r);
}

/// C12: the same for the presentation with roster membership, with one and the same roster entry.
fn unlinkable_roster() {
    let w = world();
    let base = &RISTRETTO_BASEPOINT_TABLE;
    let o = scalar("opening");
    let o2 = o + w.h * w.h * w.delta;
    let entry = |m: Scalar, o: Scalar| {
        let e: Ephemeral = o.into();
        RosterEntryCommitment { commitment: CommittedPhoneNumber(commitment(&(m * w.p.h + o * w.p.g))), opening: e }
    };
    let _ = base;
    let (e1, e2) = (entry(w.one.m, o), entry(w.two.m, o2));
    check("one entry serves both numbers", e1.commitment == e2.commitment);
    let mut signal = |u: &Holder| SignalUser { phone_number: PhoneNumber(u.m), user: clone_user(&u.user) };
    let (one, two) = (signal(&w.one), signal(&w.two));
    let from = draws();
    let s = ok("a user with a credential shows it", one.show(&mut SymRng("show"), &e1));
    let n = draws() - from;
    let (t, z, q) = match roles(&w, &s.presentation, from) { Some(r) => r, None => return };
    let (dz, dq) = (draw_value(z), draw_value(q));
    let u = unmasked(&s.presentation.proof, &[("m0", w.one.m), ("z0", dz), ("minus_zQ", -dq)]);
    let v = unmasked(&s.roster_membership_proof, &[("m0", w.one.m), ("z0", dz), ("z1", o)]);
    let (a, b) = match (mask_roles(&u, from), mask_roles(&v, from)) { (Some(a), Some(b)) => (a, b), _ => return };
    let mut all = vec![t, z, q];
    all.extend(a.iter().cloned());
    all.extend(b.iter().cloned());
    for i in 0..all.len() { for j in 0..i { check("everything hidden has a draw of its own", all[i] != all[j]); } }
    let mut other: Vec<Scalar> = (0..n).map(|j| draw_value(from + j)).collect();
    let nonce = draw_value(t) * w.one.nonce_log;
    let step = w.g * w.delta;
    let c = field(&s.presentation.proof, "challenge");
    let d = field(&s.roster_membership_proof, "challenge");
    other[t - from] = draw_value(t) * w.w;
    other[z - from] = dz + step * nonce;
    other[q - from] = dq + w.x1 * step * nonce;
    other[a[0] - from] = u[0] + c * w.h * step;
    other[a[1] - from] = u[1] - c * step * nonce;
    other[a[2] - from] = u[2] + c * w.x1 * step * nonce;
    other[b[0] - from] = v[0] + d * w.h * step;
    other[b[1] - from] = v[1] - d * step * nonce;
    other[b[2] - from] = v[2] + d * (o - o2);
    program(&other);
    let r = ok("another user shows its credential", two.show(&mut SymRng("show"), &e2));
    assume(programmed_left() == 0);
    reach("two holders");
    check("another credential gives the identical presentation with other draws", s == r);
}

fn clone_user(u: &User) -> User {
    let mut v = User::new(u.system_parameters, u.issuer_parameters.clone(), None);
    v.credential = u.credential.clone();
    v
}

/// C12: two presentations of one credential share nothing.
fn presentations_differ() {
    collision_free();
    let w = world();
    let show = || prepared("show", w.one.user.show(&Nonces::new(&mut SymRng("nonces"), 1), &mut SymRng("show")));
    let all = vec![show(), show(), show()];
    for (i, j) in [(0, 1), (0, 2), (1, 2)].iter() { differ(&w, &all[*i], &all[*j]); }
}
fn differ(w: &World, a: &CredentialPresentation, b: &CredentialPresentation) {
    reach("shown twice");
    check("two presentations have different nonces", a.rerandomized_nonce != b.rerandomized_nonce);
    check("a presentation's nonce is not the credential's", a.rerandomized_nonce != w.one.nonce || draw_is_one());
    let z = |s: &CredentialPresentation| value(&s.attributes_blinded[0]) - w.one.m * s.rerandomized_nonce;
    let q = |s: &CredentialPresentation| value(&s.rerandomized_mac_commitment) - w.one.exponent * s.rerandomized_nonce;
    check("two presentations mask the attribute differently", z(a) != z(b));
    check("two presentations mask the MAC differently", q(a) != q(b));
    check("a presentation masks attribute and MAC differently", z(a) != q(a));
}

/// Some draw is one: the single rerandomization which changes nothing.
fn draw_is_one() -> bool { (0..draws()).any(|i| draw_value(i) == Scalar::one()) }

// ------------------------------------------------------------------ C15, C23

macro_rules! objects {
    ($f:ident) => {{
        let p = params();
        let issuer = make_issuer(p);
        let tag = Tag { nonce: nz_point("P"), mac: point("Q") };
        let credential = || Credential { mac: tag.clone(), attributes: vec![scalar("m")] };
        $f!(SystemParameters, p, 64, eq);
        $f!(Tag, tag, 64, eq);
        for n in 0..4 {
            let (k, _) = secret_key(n, "x");
            let public = amacs::PublicKey { Xn: (0..n).map(|_| point("X")).collect() };
            $f!(amacs::PublicKey, public, 32 * n, eq);
            let b = k.to_bytes();
            $f!(SecretKey, k, 32 * (n + 1), bytes);
            let pair = amacs::Keypair { public: public, secret: prepared("key", SecretKey::from_bytes(&b)) };
            $f!(amacs::Keypair, pair, 32 * (2 * n + 1), bytes);
        }
        $f!(Credential, credential(), 96, eq);
        for n in 0..4 {
            let r = CredentialRequest { attributes_revealed: (0..n).map(|_| scalar("m")).collect() };
            $f!(CredentialRequest, r, 32 * n, eq);
        }
        $f!(CredentialIssuance, free_issuance("i", 1), 328, eq);
        $f!(CredentialPresentation, free_presentation("s", 0, 1), 256, eq);
        $f!(VerifiedCredential, VerifiedCredential(free_presentation("v", 0, 1)), 256, eq);
        let pair = elgamal::Keypair::generate(&mut SymRng("key"));
        $f!(elgamal::PublicKey, pair.public, 32, eq);
        $f!(elgamal::SecretKey, pair.secret, 32, eq);
        $f!(elgamal::Keypair, pair, 64, eq);
        $f!(Issuer, issuer, 160, bytes);
        for i in 0..4 {
            let key = if i & 1 == 0 { None } else { Some(elgamal::Keypair::generate(&mut SymRng("key"))) };
            let mut u = User::new(p, IssuerParameters { Xn: vec![point("X1")] }, key);
            if i & 2 != 0 { u.credential = Some(credential()); }
            $f!(User, u, 256, eq);
            let s = SignalUser { phone_number: PhoneNumber(scalar("number")), user: u };
            $f!(SignalUser, s, 288, eq);
        }
        $f!(Commitment, commitment(&point("C")), 32, eq);
        $f!(SignalCredentialPresentation, signal_presentation("r"), 448, eq);
        let v = prepared("decode", VerifiedSignalCredential::from_bytes(&signal_presentation("w").to_bytes()));
        $f!(VerifiedSignalCredential, v, 448, eq);
        $f!(SignalIssuer, SignalIssuer { issuer: make_issuer(p) }, 160, bytes);
        $f!(PhoneNumber, PhoneNumber(scalar("number")), 32, eq);
        $f!(CommittedPhoneNumber, CommittedPhoneNumber(commitment(&point("C"))), 32, eq);
        let e = roster_entry(&PhoneNumber(scalar("number")), &p, "opening");
        $f!(RosterEntryCommitment, e, 64, bytes);
        reach("all objects");
    }};
}

macro_rules! same {
    (eq, $t:ty, $d:expr, $x:expr, $b:expr) => { check(concat!("decoding gives the encoded ", stringify!($t)), $d == *$x) };
    (bytes, $t:ty, $d:expr, $x:expr, $b:expr) => { check(concat!("decoding gives the encoded ", stringify!($t)), $d.to_bytes() == $b) };
}

macro_rules! by_bytes {
    ($t:ty, $x:expr, $n:expr, $eq:ident) => {{
        let x = &$x;
        let b = x.to_bytes();
        check(concat!("the encoded length is the documented one of ", stringify!($t)), b.len() == $n);
        let d = ok(concat!("an encoded ", stringify!($t), " decodes"), <$t>::from_bytes(&b));
        same!($eq, $t, d, x, b);
    }};
}

macro_rules! by_bincode {
    ($t:ty, $x:expr, $n:expr, $eq:ident) => {{
        let x = &$x;
        let b = x.to_bytes();
        let e = ok(concat!("a ", stringify!($t), " serializes"), ::bincode::serialize(x));
        let d: $t = ok(concat!("a serialized ", stringify!($t), " deserializes"), ::bincode::deserialize(&e));
        same!($eq, $t, d, x, b);
    }};
}

macro_rules! by_json {
    ($t:ty, $x:expr, $n:expr, $eq:ident) => {{
        let x = &$x;
        let b = x.to_bytes();
        let e = ok(concat!("a ", stringify!($t), " serializes as a sequence"), ::serde_json::to_value(x));
        let d: $t = ok(concat!("a ", stringify!($t), " serialized as a sequence deserializes"), ::serde_json::from_value(e));
        same!($eq, $t, d, x, b);
        let e = ok(concat!("a ", stringify!($t), " serializes as text"), ::serde_json::to_string(x));
        let d: $t = ok(concat!("a ", stringify!($t), " serialized as text deserializes"), ::serde_json::from_str(&e));
        same!($eq, $t, d, x, b);
    }};
}

/// The objects of any length, at one larger than anything in use.
macro_rules! long_objects {
    ($f:ident, $n:expr) => {{
        let n: usize = $n;
        let r = CredentialRequest { attributes_revealed: (0..n).map(|_| scalar("m")).collect() };
        $f!(CredentialRequest, r, 32 * n, eq);
        let (k, _) = secret_key(n, "x");
        let public = amacs::PublicKey { Xn: (0..n).map(|_| point("X")).collect() };
        $f!(amacs::PublicKey, public, 32 * n, eq);
        let b = k.to_bytes();
        $f!(SecretKey, k, 32 * (n + 1), bytes);
        let pair = amacs::Keypair { public: public, secret: prepared("key", SecretKey::from_bytes(&b)) };
        $f!(amacs::Keypair, pair, 32 * (2 * n + 1), bytes);
        reach("long objects");
    }};
}

fn codecs() { objects!(by_bytes) }
fn long_codecs(n: usize) { long_objects!(by_bytes, n) }
fn long_binary(n: usize) { long_objects!(by_bincode, n) }
fn long_json(n: usize) { long_objects!(by_json, n) }
fn binary() { objects!(by_bincode) }
fn json() { objects!(by_json) }

/// C15: the fields of an encoding are at their documented places.
fn layout() {
    let p = params();
    let t = Tag { nonce: point("P"), mac: point("Q") };
    let b = |x: &P| x.compress().to_bytes().to_vec();
    let cat = |v: Vec<Vec<u8>>| v.concat();
    check("system parameters are encoded g, h", p.to_bytes() == cat(vec![b(&p.g), b(&p.h)]));
    check("a tag is encoded nonce, mac", t.to_bytes() == cat(vec![b(&t.nonce), b(&t.mac)]));
    let m = scalar("m");
    let c = Credential { mac: t.clone(), attributes: vec![m] };
    check("a credential is encoded tag, attribute", c.to_bytes() == cat(vec![t.to_bytes(), m.to_bytes().to_vec()]));
    let k = elgamal::Keypair::generate(&mut SymRng("key"));
    check("an encryption key pair is encoded secret, public", k.to_bytes() == cat(vec![k.secret.to_bytes(), k.public.to_bytes()]));
    let i = make_issuer(p);
    check("an issuer is encoded parameters, keys", i.to_bytes() == cat(vec![p.to_bytes(), i.keypair.to_bytes()]));
    let s = signal_presentation("s");
    check("a phone-number presentation starts with its entry", s.to_bytes()[0..32] == s.roster_entry_commitment.to_bytes()[..]);
    check("a phone-number presentation holds its presentation", s.to_bytes()[32..288] == s.presentation.to_bytes()[..]);
    let a = free_issuance("a", 1);
    check("an issuance is encoded key commitment, credential, proof",
          a.to_bytes()[0..128] == cat(vec![a.secret_key_commitment.to_bytes(), a.credential.to_bytes()])[..]);
}

// ------------------------------------------------------------------ C24

fn keypair(public: usize, secret: usize) -> amacs::Keypair {
    amacs::Keypair {
        public: amacs::PublicKey { Xn: (0..public).map(|i| point(&format!("X{}", i))).collect() },
        secret: secret_key(secret, "x").0,
    }
}

fn errors_issue(public: usize, secret: usize) {
    let issuer = Issuer::new(params(), keypair(public, secret));
    for n in [0, 1, 2, 3, 9, 33].iter().cloned() {
        let request = CredentialRequest { attributes_revealed: (0..n).map(|_| scalar("m")).collect() };
        let r = issuer.issue(&request, &mut SymRng("issue"));
        reach("returned");
        check("issuing works exactly for well-formed requests", r.is_ok() == (public == 1 && secret == 1 && n == 1));
    }
}

fn errors_verify(public: usize, secret: usize, revealed: usize, blinded: usize) {
    let issuer = Issuer::new(params(), keypair(public, secret));
    let r = issuer.verify(&free_presentation("a", revealed, blinded));
    reach("returned");
    if secret != 1 || public == 0 || revealed != 0 || blinded != 1 { check("malformed presentations are refused", r.is_err()); }
}

fn errors_finish(xn: usize, attributes: usize, had: bool) {
    let key = elgamal::Keypair::generate(&mut SymRng("key"));
    let mut u = User::new(params(), IssuerParameters { Xn: (0..xn).map(|_| point("X")).collect() }, Some(key));
    if had { u.credential = Some(Credential { mac: Tag { nonce: point("P0"), mac: point("Q0") }, attributes: vec![scalar("m0")] }); }
    let before = u.to_bytes();
    check("a missing issuance is refused", u.obtain_finish(None) == Err(CredentialError::CredentialIssuance));
    check("a refused issuance leaves the user as it was", u.to_bytes() == before);
    let i = free_issuance("a", attributes);
    match u.obtain_finish(Some(&i)) {
        Err(_) => { reach("refused"); check("a refused issuance leaves the user as it was", u.to_bytes() == before); },
        Ok(()) => {
            reach("accepted");
            check("malformed issuances are refused", xn == 1 && attributes == 1);
            check("acceptance changes the credential only", {
                let same = u.credential.as_ref() == Some(&i.credential);
                u.credential = None;
                same && u.to_bytes()[..160] == before[..160]
            });
        },
    }
}

fn errors_finish_signal(attributes: usize) {
    let mut u = SignalUser { phone_number: PhoneNumber(scalar("number")), user: User::new(params(), IssuerParameters { Xn: vec![point("X1")] }, None) };
    let before = u.to_bytes();
    check("a missing issuance is refused", u.obtain_finish(None).is_err());
    let i = free_issuance("a", attributes);
    if u.obtain_finish(Some(&i)).is_err() { check("a refused issuance leaves the user as it was", u.to_bytes() == before); }
    else { check("malformed issuances are refused", attributes == 1); }
    reach("returned");
}

fn errors_show(xn: usize, attributes: usize) {
    for n in [0, 1, 2, 9].iter().cloned() {
        let mut u = User::new(params(), IssuerParameters { Xn: (0..xn).map(|_| point("X")).collect() }, None);
        let nonces = Nonces::new(&mut SymRng("nonces"), n);
        check("showing without a credential is refused", u.show(&nonces, &mut SymRng("show")).is_err());
        u.credential = Some(Credential { mac: Tag { nonce: point("P"), mac: point("Q") }, attributes: (0..attributes).map(|_| scalar("m")).collect() });
        let r = u.show(&nonces, &mut SymRng("show"));
        check("showing works exactly for well-formed credentials", r.is_ok() == (n == 1 && xn == 1 && attributes == 1));
        reach("returned");
        if n == 1 {
            let s = SignalUser { phone_number: PhoneNumber(scalar("number")), user: u };
            let e = roster_entry(&s.phone_number, &s.user.system_parameters, "opening");
            let r = s.show(&mut SymRng("show"), &e);
            check("showing works exactly for well-formed credentials", r.is_ok() == (xn == 1 && attributes == 1));
        }
    }
}

fn errors_show_missing() {
    let s = SignalUser { phone_number: PhoneNumber(scalar("number")), user: User::new(params(), IssuerParameters { Xn: vec![point("X1")] }, None) };
    let e = roster_entry(&s.phone_number, &s.user.system_parameters, "opening");
    reach("returned");
    check("showing without a credential is refused", s.show(&mut SymRng("show"), &e).is_err());
}

fn errors_numbers() {
    let p = params();
    let issuer = SignalIssuer::create(p, &mut SymRng("issuer"));
    for n in 0..40 {
        let number = vec![(n % 10) as u8; n];
        let fits = n >= 1 && n <= 26;
        check("issuing works exactly for numbers which fit", issuer.issue(&number, &mut SymRng("issue")).is_ok() == fits);
        check("a user exists exactly for numbers which fit", SignalUser::new(p, issuer.get_issuer_parameters(), None, &number).is_ok() == fits);
        check("an entry exists exactly for numbers which fit", RosterEntryCommitment::create(&number, &p, &mut SymRng("roster")).is_ok() == fits);
        let e = roster_entry(&PhoneNumber(scalar("m")), &p, "opening");
        if !fits { check("no entry opens to a number which does not fit", e.open(&number, &p).is_err()); }
    }
    reach("returned");
}

fn errors_roster() {
    let p = params();
    let issuer = SignalIssuer::create(p, &mut SymRng("issuer"));
    let v = prepared("decode", VerifiedSignalCredential::from_bytes(&signal_presentation("w").to_bytes()));
    let r = issuer.verify_roster_membership(&v).is_ok();
    reach(if r { "accepted" } else { "refused" });
}

// ------------------------------------------------------------------ C25, C26

fn keys(n: usize) {
    collision_free();
    let (a, b) = (SecretKey::new(n, &mut SymRng("key")), SecretKey::new(n, &mut SymRng("key")));
    check("a key has one secret per attribute and the base secret", a.len() == n + 1 && a.to_bytes().len() == 32 * (n + 1));
    let s = |k: &SecretKey| -> Vec<Scalar> { (0..n + 1).map(|i| chunk(&k.to_bytes(), i)).collect() };
    let (x, y) = (s(&a), s(&b));
    for i in 0..n + 1 {
        for j in 0..n + 1 {
            if i < j { check("the secrets of a key are drawn independently", x[i] != x[j]); }
            check("the secrets of two keys are drawn independently", x[i] != y[j]);
        }
    }
    let h = point("h");
    let public = a.get_public_key(&h);
    check("the parameters have one point per attribute", public.Xn.len() == n);
    for i in 0..n { check("the parameters are the generator times the secrets", public.Xn[i] == x[i + 1] * h); }
}

fn keys_issuer() {
    collision_free();
    let p = params();
    let i = Issuer::create(p, &mut SymRng("issuer"));
    let b = i.keypair.secret.to_bytes();
    check("an issuer has a secret for its attribute", b.len() == 64);
    check("an issuer keeps the system parameters", i.system_parameters == p);
    let x = get_xn(&i);
    check("the published parameters are the second generator times the secret", x == vec![x1(&i) * p.h]);
    check("base secret and attribute secret are independent", x0(&i) != x1(&i));
    let s = SignalIssuer::new(p, prepared("keys", amacs::Keypair::from_bytes(&i.keypair.to_bytes())));
    check("an issuer restored from its keys publishes the same parameters", s.get_issuer_parameters().Xn == x);
    let j = Issuer::new(p, prepared("keys", amacs::Keypair::from_bytes(&i.keypair.to_bytes())));
    check("an issuer restored from its keys publishes the same parameters", get_xn(&j) == x);
    let j = prepared("issuer", Issuer::from_bytes(&i.to_bytes()));
    check("a stored issuer publishes the same parameters", get_xn(&j) == x);
    let other = SignalIssuer::create(p, &mut SymRng("issuer"));
    check("two issuers have different secrets", x0(&other.issuer) != x0(&i) && x1(&other.issuer) != x1(&i));
    check("a phone-number issuer publishes the second generator times the secret",
          other.get_issuer_parameters().Xn == vec![x1(&other.issuer) * p.h]);
    let k = amacs::Keypair::new(&p.h, &mut SymRng("issuer"));
    check("a key pair matches", k.public.Xn == vec![chunk(&k.secret.to_bytes(), 1) * p.h]);
    reach("created");
}

fn get_xn(i: &Issuer) -> Vec<P> { i.get_issuer_parameters().Xn }

fn keys_encryption() {
    collision_free();
    let (a, b) = (elgamal::Keypair::generate(&mut SymRng("key")), elgamal::Keypair::generate(&mut SymRng("key")));
    let s = |k: &elgamal::Keypair| chunk(&k.secret.to_bytes(), 0);
    check("two encryption keys are drawn independently", s(&a) != s(&b));
    let q: P = a.public.into();
    check("the public key is the basepoint times the secret", q == &s(&a) * &RISTRETTO_BASEPOINT_TABLE);
    check("the public key of a secret is the same", elgamal::PublicKey::from(&a.secret) == a.public);
    let k = elgamal::SecretKey::generate(&mut SymRng("key"));
    check("a secret key is drawn independently", chunk(&k.to_bytes(), 0) != s(&a));
}

fn issuance_formed() {
    let p = params();
    let issuer = make_issuer(p);
    let m = scalar("m");
    let request = CredentialRequest { attributes_revealed: vec![m] };
    let a = ok("an honest issuer issues", issuer.issue(&request, &mut SymRng("issue")));
    check("the credential is on the requested attribute", a.credential.attributes == vec![m]);
    check("the MAC verifies", issuer.keypair.secret.verify(&a.credential.mac, &Message(vec![m])).is_ok());
    check("the MAC is the key's on the attribute", a.credential.mac.mac == (x0(&issuer) + x1(&issuer) * m) * a.credential.mac.nonce);
    let blinding = value(&a.secret_key_commitment) - x0(&issuer) * p.g;
    check("the commitment is not to the bare base secret", blinding != RistrettoPoint::identity());
    // It is masked by a multiple of the second generator.
    if !(0..draws()).any(|i| identical_points(&(draw_value(i) * p.h), &blinding)) { note("no draw is the blinding factor"); }
    // It verifies under the published key: the user accepts.
    let mut u = User::new(p, issuer.get_issuer_parameters(), None);
    check("the issuance is accepted", u.obtain_finish(Some(&a)).is_ok());
}

fn issuance_fresh() {
    collision_free();
    let p = params();
    let issuer = make_issuer(p);
    let request = CredentialRequest { attributes_revealed: vec![scalar("m")] };
    let a = prepared("issue", issuer.issue(&request, &mut SymRng("issue")));
    let b = prepared("issue", issuer.issue(&request, &mut SymRng("issue")));
    reach("issued twice");
    check("two issuances have different nonces", a.credential.mac.nonce != b.credential.mac.nonce);
    check("two issuances have different key commitments", a.secret_key_commitment != b.secret_key_commitment);
    // The nonce's logarithm and the blinding factor are independent.
    let f = |i: &CredentialIssuance| value(&i.secret_key_commitment) - x0(&issuer) * p.g;
    let base = RISTRETTO_BASEPOINT_POINT;
    let (d, e) = (f(&a), f(&b));
    for i in [&a, &b].iter() {
        for k in 0..draws() {
            let x = draw_value(k);
            if identical_points(&(x * base), &i.credential.mac.nonce) {
                check("the nonce is not the blinding factor", x * p.h != d && x * p.h != e);
                reach("nonce drawn");
            }
        }
    }
}

fn issuance_number(number: &'static [u8]) {
    let p = params();
    let issuer = SignalIssuer::create(p, &mut SymRng("issuer"));
    let a = ok("an honest issuer issues", issuer.issue(number, &mut SymRng("issue")));
    let n = prepared("number", PhoneNumber::try_from_bytes(number));
    check("the credential is on the requested number", a.credential.attributes == vec![n.0]);
    check("the MAC verifies", issuer.issuer.keypair.secret.verify(&a.credential.mac, &Message::from(n)).is_ok());
}

// ------------------------------------------------------------------

pub fn list() -> Vec<Scenario> {
    let mut l: Vec<Scenario> = vec![];
    macro_rules! add { ($n:expr, $f:expr) => { l.push(($n.to_string(), Box::new($f) as Box<Fn()>)) }; }
    add!("C01_life", life);
    add!("C01_again", life_again);
    add!("C01_encoded", life_encoded);
    add!("C02_any", roster_any);
    add!("C02_encoded", roster_encoded);
    add!("C02_opens", roster_opens);
    const A: &'static [u8] = &[4, 1, 5, 5, 5, 5, 1, 2, 3, 4];
    const B: &'static [u8] = &[4, 1, 5, 5, 5, 5, 1, 2, 3, 5];
    const Z: &'static [u8] = &[0, 4, 1, 5, 5, 5, 5, 1, 2, 3, 4];
    const Y: &'static [u8] = &[4, 1, 5, 5, 5, 5, 1, 2, 3, 4, 0];
    const ONE: &'static [u8] = &[0];
    const MAX: &'static [u8] = &[9; 26];
    const LAST: &'static [u8] = &[9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 8];
    add!("C02_number_10", move || roster_number(A, vec![B, Z, Y, ONE, MAX]));
    add!("C02_number_1", move || roster_number(ONE, vec![A, &[0, 0], &[1]]));
    add!("C02_number_26", move || roster_number(MAX, vec![LAST, &[9; 25], A]));
    add!("C03_sound", presentation_sound);
    add!("C03_challenge", presentation_challenge);
    add!("C04_challenge", roster_challenge);
    add!("C05_challenge", issuance_challenge);
    add!("C03_bound", presentation_bound);
    for r in 0..3 { for b in 0..3 { if (r, b) != (0, 1) { add!(format!("C03_shape_{}_{}", r, b), move || presentation_shape(r, b)); } } }
    add!("C03_signal", presentation_signal);
    add!("C04_sound", roster_sound);
    add!("C04_bound", roster_bound);
    add!("C04_other_number", roster_other_number);
    add!("C05_sound", issuance_sound);
    add!("C05_attribute", issuance_attribute);
    add!("C05_given", issuance_given);
    add!("C05_bound", issuance_bound);
    for n in [0usize, 2, 3].iter() { let n = *n; add!(format!("C05_shape_{}", n), move || issuance_shape(n)); }
    add!("C05_honest_number", issuance_honest_number);
    add!("C05_own_number", issuance_own_number);
    add!("C05_signal", issuance_signal);
    for n in 0..4 { for m in 0..5 { add!(format!("C06_exact_{}_{}", n, m), move || mac_exact(n, m)); } }
    for n in 0..4 { for m in 0..5 { add!(format!("C06_made_{}_{}", n, m), move || mac_made(n, m)); } }
    for n in [(5, 5), (9, 9), (9, 8), (8, 9), (1, 17)].iter() {
        let (n, m) = *n;
        add!(format!("C06_exact_{}_{}", n, m), move || mac_exact(n, m));
        add!(format!("C06_made_{}_{}", n, m), move || mac_made(n, m));
    }
    add!("C06_rerandomized", mac_rerandomized);
    add!("C09_operations", operations_context);
    add!("C12_unlinkable", unlinkable);
    add!("C12_roster", unlinkable_roster);
    add!("C12_differ", presentations_differ);
    add!("C13_opens", commitment_opens);
    add!("C13_binds", commitment_binds);
    add!("C13_hides", commitment_hides);
    add!("C13_phone", phone_commitment);
    add!("C13_phone_hides", phone_commitment_hides);
    add!("C14_decrypts", decrypts);
    add!("C14_any", decrypts_any);
    add!("C14_hides", encryption_hides);
    add!("C15_codecs", codecs);
    add!("C15_layout", layout);
    for n in (4..41).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 513, 1025, 2047, 2048, 2049].iter().cloned()) {
        add!(format!("C15_long_{}", n), move || long_codecs(n));
        add!(format!("C23_binary_long_{}", n), move || long_binary(n));
        add!(format!("C23_json_long_{}", n), move || long_json(n));
    }
    add!("C23_binary", binary);
    add!("C23_json", json);
    for a in 0..3 { for b in 0..3 { add!(format!("C24_issue_{}_{}", a, b), move || errors_issue(a, b)); } }
    for a in 0..3 { for b in 0..3 { for r in 0..3 { for c in 0..3 {
        add!(format!("C24_verify_{}_{}_{}_{}", a, b, r, c), move || errors_verify(a, b, r, c));
    } } } }
    for a in 0..3 { for b in 0..3 {
        add!(format!("C24_finish_{}_{}", a, b), move || errors_finish(a, b, true));
        add!(format!("C24_finish_new_{}_{}", a, b), move || errors_finish(a, b, false));
        add!(format!("C24_show_{}_{}", a, b), move || errors_show(a, b));
    } }
    for k in [(9, 9), (9, 1), (1, 9)].iter() {
        let (a, b) = *k;
        add!(format!("C24_issue_{}_{}", a, b), move || errors_issue(a, b));
        add!(format!("C24_finish_{}_{}", a, b), move || errors_finish(a, b, true));
        add!(format!("C24_show_{}_{}", a, b), move || errors_show(a, b));
        add!(format!("C24_verify_1_1_{}_{}", a, b), move || errors_verify(1, 1, a, b));
        add!(format!("C24_verify_{}_{}_0_1", a, b), move || errors_verify(a, b, 0, 1));
    }
    for k in [(0, 9), (9, 0), (0, 33)].iter() {
        let (a, b) = *k;
        add!(format!("C24_verify_1_1_{}_{}", a, b), move || errors_verify(1, 1, a, b));
    }
    add!("C24_finish_signal_9", move || errors_finish_signal(9));
    for a in 0..3 { add!(format!("C24_finish_signal_{}", a), move || errors_finish_signal(a)); }
    add!("C24_show_missing", errors_show_missing);
    add!("C24_numbers", errors_numbers);
    add!("C24_roster", errors_roster);
    for n in [0, 1, 2, 3, 6].iter().cloned() { add!(format!("C25_keys_{}", n), move || keys(n)); }
    add!("C25_issuer", keys_issuer);
    add!("C25_encryption", keys_encryption);
    add!("C26_formed", issuance_formed);
    add!("C26_fresh", issuance_fresh);
    add!("C26_number_10", move || issuance_number(A));
    add!("C26_number_26", move || issuance_number(MAX));
    l
}
