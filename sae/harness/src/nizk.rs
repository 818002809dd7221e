//! The five zero-knowledge proof systems: completeness, special soundness, binding, nonces, witness indistinguishability.
use bincode;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use merlin::Transcript;
use statements::*;
use sym::*;

pub type Scenario = (String, Box<Fn()>);

fn ctx() -> Transcript { Transcript::new(b"some protocol") }

fn ctx2() -> Transcript {
    let mut t = Transcript::new(b"some protocol");
    t.commit_bytes(b"step", b"second");
    t
}

/// C07: honest proofs verify, also after encoding, also as parts of a longer transcript.
fn complete<S: Statement>() {
    draws_may_be_zero();
    let (p, s) = S::instance("w");
    let (mut tp, mut tv) = (ctx(), ctx());
    let proof = S::create(&mut tp, &p, &s);
    check("an honest proof verifies", S::verify(&proof, &mut tv, &p));
    let bytes = bincode::serialize(&proof).unwrap();
    check("the encoding has 40 bytes for each scalar", bytes.len() == 40 * (1 + S::secrets().len()));
    let decoded: S::Proof = match bincode::deserialize(&bytes) {
        Ok(x) => x,
        Err(_) => { check("an encoded proof decodes", false); return }
    };
    check("an honest proof verifies after encoding", S::verify(&decoded, &mut ctx(), &p));
    check("decoding gives the encoded proof", decoded == proof);
    // A second proof in the same session.
    let proof = S::create(&mut tp, &p, &s);
    check("a second honest proof in one session verifies", S::verify(&proof, &mut tv, &p));
    let (p, s) = S::instance("v");
    let proof = S::create(&mut ctx2(), &p, &s);
    check("an honest proof verifies in a longer context", S::verify(&proof, &mut ctx2(), &p));
}

/// C08: two accepting transcripts with one hashed input give a witness.
fn sound<S: Statement>() {
    let p = S::any("p");
    let (a, b): (S::Proof, S::Proof) = (free_proof("a"), free_proof("b"));
    set_oracle(1);
    assume(S::verify(&a, &mut ctx(), &p));
    let i = challenges() - 1;
    set_oracle(2);
    assume(S::verify(&b, &mut ctx(), &p));
    let j = challenges() - 1;
    assume_same_challenge_input(i, j);
    let dc = challenge_value(i) - challenge_value(j);
    assume_ne(&dc, &Scalar::zero());
    reach("forked");
    let d: Vec<Scalar> = S::responses(&a).iter().zip(S::responses(&b).iter()).map(|(x, y)| x - y).collect();
    for (l, r) in S::equations() {
        let want = dc * p[S::pbl(l)];
        check(&format!("the extracted witness satisfies the equation for {}", l), S::combine(&r, &p, &d) == want);
    }
}

/// C08: acceptance means that the proof holds the oracle's answer.
fn sound_challenge<S: Statement>() {
    let p = S::any("p");
    let a: S::Proof = free_proof("a");
    let ok = S::verify(&a, &mut ctx(), &p);
    let own = challenge_value(challenges() - 1) == S::challenge(&a);
    reach(if own { "own challenge" } else { "another challenge" });
    check("a proof is accepted exactly with the challenge of its own input", ok == own);
}

/// C09: equal hashed inputs mean equal publics and commitments; the challenge in the proof is the one of that input.
fn bind<S: Statement>() {
    let (p, q) = (S::any("p"), S::any("q"));
    let (a, b): (S::Proof, S::Proof) = (free_proof("a"), free_proof("b"));
    let ok = S::verify(&a, &mut ctx(), &p);
    let i = challenges() - 1;
    let ok2 = S::verify(&b, &mut ctx(), &q);
    let j = challenges() - 1;
    if ok { check("an accepted proof holds the challenge of its own input", challenge_value(i) == S::challenge(&a)); }
    if ok2 { check("an accepted proof holds the challenge of its own input", challenge_value(j) == S::challenge(&b)); }
    assume_same_challenge_input(i, j);
    reach("same input");
    for n in S::publics() { check(&format!("the challenge depends on {}", n), p[S::pbl(n)] == q[S::pbl(n)]); }
    for (l, r) in S::equations() {
        let com = |p: &[P], x: &S::Proof| S::combine(&r, p, &S::responses(x)) - S::challenge(x) * p[S::pbl(l)];
        check(&format!("the challenge depends on the commitment for {}", l), com(&p, &a) == com(&q, &b));
    }
}

/// C09: the same for the prover.
fn bind_prover<S: Statement>() {
    let (p, q) = (S::any("p"), S::any("q"));
    let s: Vec<Scalar> = S::secrets().iter().map(|n| scalar(n)).collect();
    let a = S::create(&mut ctx(), &p, &s);
    let i = challenges() - 1;
    check("a proof holds the challenge of its own input", challenge_value(i) == S::challenge(&a));
    let b: S::Proof = free_proof("b");
    S::verify(&b, &mut ctx(), &q);
    let j = challenges() - 1;
    assume_same_challenge_input(i, j);
    reach("same input");
    for n in S::publics() { check(&format!("the prover's challenge depends on {}", n), p[S::pbl(n)] == q[S::pbl(n)]); }
}

/// C09: the context is part of the hashed input.
fn bind_context<S: Statement>() {
    let p = S::any("p");
    let a: S::Proof = free_proof("a");
    S::verify(&a, &mut ctx(), &p);
    S::verify(&a, &mut Transcript::new(b"another protocol"), &p);
    S::verify(&a, &mut ctx2(), &p);
    let n = challenges();
    for i in n - 3..n {
        for j in i + 1..n { check("the challenge depends on the context", !same_challenge_input(i, j)); }
    }
    let s: Vec<Scalar> = S::secrets().iter().map(|n| scalar(n)).collect();
    S::create(&mut ctx(), &p, &s);
    S::create(&mut Transcript::new(b"another protocol"), &p, &s);
    let n = challenges();
    check("the prover's challenge depends on the context", !same_challenge_input(n - 1, n - 2));
    check("the prover's challenge depends on the context", !same_challenge_input(n - 1, n - 5));
}

fn one_verification<S: Statement>() -> usize {
    let p = S::any(S::name());
    let a: S::Proof = free_proof(S::name());
    S::verify(&a, &mut ctx(), &p);
    challenges() - 1
}

/// C09: no two statements share a hashed input.
fn bind_statements() {
    let n = vec![one_verification::<IssuanceRevealed>(), one_verification::<AttributesBlinded>(), one_verification::<IssuanceBlinded>(),
                 one_verification::<ValidCredential>(), one_verification::<CommittedValuesEqual>()];
    for i in 0..n.len() {
        check("the challenge depends on a name of the statement", !names_hashed(n[i]).is_empty());
        for j in i + 1..n.len() {
            check("the challenge depends on the statement", !same_challenge_input(n[i], n[j]));
            check("no two statements have one name", names_hashed(n[i]) != names_hashed(n[j]));
        }
    }
}

fn masks<S: Statement>(proof: &S::Proof, s: &[Scalar]) -> Vec<Scalar> {
    let c = S::challenge(proof);
    S::responses(proof).iter().zip(s.iter()).map(|(r, w)| r - c * w).collect()
}

/// C10: nonces of one and of two proofs of one statement all differ, when the entropy is fresh.
fn fresh<S: Statement>() {
    collision_free();
    let p = S::any("p");
    let s: Vec<Scalar> = S::secrets().iter().map(|n| scalar(n)).collect();
    let a = S::create(&mut ctx(), &p, &s);
    let b = S::create(&mut ctx(), &p, &s);
    let (ma, mb) = (masks::<S>(&a, &s), masks::<S>(&b, &s));
    for i in 0..ma.len() {
        for j in 0..ma.len() {
            if i < j { check("no two secrets of a proof share a nonce", ma[i] != ma[j]); }
            check("no two proofs of a statement share a nonce", ma[i] != mb[j]);
        }
    }
}

/// C10: with repeated entropy, a shared nonce means equal statements and secrets.
fn hedged<S: Statement>() {
    collision_free();
    let (p, q) = (S::any("p"), S::any("q"));
    let s: Vec<Scalar> = S::secrets().iter().map(|n| scalar(&format!("s.{}", n))).collect();
    let u: Vec<Scalar> = S::secrets().iter().map(|n| scalar(&format!("u.{}", n))).collect();
    ::symcore::rewind_entropy(Some("same"));
    let a = S::create(&mut ctx(), &p, &s);
    ::symcore::rewind_entropy(Some("same"));
    let b = S::create(&mut ctx(), &q, &u);
    let (ma, mb) = (masks::<S>(&a, &s), masks::<S>(&b, &u));
    for i in 0..ma.len() {
        for j in 0..mb.len() {
            if ma[i] == mb[j] {
                reach("shared");
                for n in S::publics() {
                    check(&format!("proofs with another {} share no nonce", n), p[S::pbl(n)] == q[S::pbl(n)]);
                }
                for n in S::secrets() {
                    check(&format!("proofs with another secret {} share no nonce", n), s[S::sec(n)] == u[S::sec(n)]);
                }
                return;
            }
        }
    }
}

/// C10: nor do proofs in other contexts.
fn hedged_context<S: Statement>() {
    collision_free();
    let p = S::any("p");
    let s: Vec<Scalar> = S::secrets().iter().map(|n| scalar(&format!("s.{}", n))).collect();
    ::symcore::rewind_entropy(Some("same"));
    let a = S::create(&mut ctx(), &p, &s);
    ::symcore::rewind_entropy(Some("same"));
    let b = S::create(&mut Transcript::new(b"another protocol"), &p, &s);
    let (ma, mb) = (masks::<S>(&a, &s), masks::<S>(&b, &s));
    for i in 0..ma.len() {
        for j in 0..mb.len() { check("proofs in two contexts share no nonce", ma[i] != mb[j]); }
    }
}

fn masks_with_same_entropy<S: Statement>() -> Vec<Scalar> {
    let p = S::any(&format!("{}.p", S::name()));
    let s: Vec<Scalar> = S::secrets().iter().map(|n| scalar(&format!("{}.{}", S::name(), n))).collect();
    ::symcore::rewind_entropy(Some("same"));
    let a = S::create(&mut ctx(), &p, &s);
    masks::<S>(&a, &s)
}

/// C10: nor do proofs of two different statements.
fn hedged_statements() {
    collision_free();
    let m = vec![masks_with_same_entropy::<IssuanceRevealed>(), masks_with_same_entropy::<AttributesBlinded>(), masks_with_same_entropy::<IssuanceBlinded>(),
                 masks_with_same_entropy::<ValidCredential>(), masks_with_same_entropy::<CommittedValuesEqual>()];
    for i in 0..m.len() {
        for j in 0..i {
            for x in m[i].iter() { for y in m[j].iter() { check("proofs of two statements share no nonce", x != y); } }
        }
    }
}

/// Which draw masks which secret.
fn roles<S: Statement>(proof: &S::Proof, s: &[Scalar], from: usize) -> Option<Vec<usize>> {
    let m = masks::<S>(proof, s);
    let mut out: Vec<usize> = vec![];
    for x in m.iter() {
        match (from..draws()).find(|j| identical(x, &draw_value(*j))) {
            Some(j) => out.push(j - from),
            None => return None,
        }
    }
    Some(out)
}

/// C11: each response is masked with a draw of its own, so that responses and nonces are in bijection.
fn bijective<S: Statement>() {
    collision_free();
    let (p, s) = S::instance("w");
    let from = draws();
    let a = S::create(&mut ctx(), &p, &s);
    match roles::<S>(&a, &s, from) {
        Some(r) => {
            for i in 0..r.len() {
                for j in 0..i { check("every response has a nonce of its own", r[i] != r[j]); }
            }
        }
        None => {
            // Every response must at least move with the nonces.
            note("the nonces are not the draws themselves");
            let n = draws() - from;
            let other: Vec<Scalar> = (0..n).map(|i| scalar(&format!("r{}", i))).collect();
            for i in 0..n {
                for j in 0..n { assume_ne(&other[i], &draw_value(from + j)); }
                for j in 0..i { assume_ne(&other[i], &other[j]); }
            }
            program(&other);
            let b = S::create(&mut ctx(), &p, &s);
            let (ma, mb) = (masks::<S>(&a, &s), masks::<S>(&b, &s));
            for i in 0..ma.len() {
                check("every response has a nonce of its own", ma[i] != mb[i]);
                for j in 0..i { check("every response has a nonce of its own", ma[i] != ma[j]); }
            }
        }
    }
}

/// C11: for every other witness there are nonces which give the identical proof.
fn indistinguishable<S: Statement>() {
    let (p, s) = S::instance("w");
    let u: Vec<Scalar> = S::secrets().iter().map(|n| scalar(&format!("u.{}", n))).collect();
    for (l, r) in S::equations() {
        let v = S::combine(&r, &p, &u);
        assume_eq(&v, &p[S::pbl(l)]);
    }
    let from = draws();
    let a = S::create(&mut ctx(), &p, &s);
    let n = draws() - from;
    let r = match roles::<S>(&a, &s, from) {
        Some(r) => r,
        None => ::symcore::finish("UNENCODABLE", "the nonces are not the draws themselves"),
    };
    let c = S::challenge(&a);
    let mut other: Vec<Scalar> = (0..n).map(|j| draw_value(from + j)).collect();
    for i in 0..r.len() { other[r[i]] = other[r[i]] + c * (s[i] - u[i]); }
    program(&other);
    let b = S::create(&mut ctx(), &p, &u);
    assume(programmed_left() == 0);
    reach("two witnesses");
    check("another witness gives the same challenge", S::challenge(&b) == c);
    for (x, y) in S::responses(&a).iter().zip(S::responses(&b).iter()) {
        check("another witness gives the same responses", x == y);
    }
}

/// C11: given the challenge, any responses are an accepting proof: it can be simulated.
fn simulatable<S: Statement>() {
    let p = S::any("p");
    let a: S::Proof = free_proof("a");
    let ok = S::verify(&a, &mut ctx(), &p);
    if challenge_value(challenges() - 1) == S::challenge(&a) {
        reach("matching challenge");
        check("a proof with the right challenge is accepted", ok);
    } else {
        check("a proof with another challenge is refused", !ok);
    }
}

pub fn list() -> Vec<Scenario> {
    let mut l: Vec<Scenario> = vec![];
    for_each_statement!(l, "C07_complete", complete);
    for_each_statement!(l, "C08_sound", sound);
    for_each_statement!(l, "C08_challenge", sound_challenge);
    for_each_statement!(l, "C09_challenge", sound_challenge);
    for_each_statement!(l, "C09_bind", bind);
    for_each_statement!(l, "C09_prover", bind_prover);
    for_each_statement!(l, "C09_context", bind_context);
    l.push(("C09_statements".to_string(), Box::new(bind_statements)));
    for_each_statement!(l, "C10_fresh", fresh);
    for_each_statement!(l, "C10_hedged", hedged);
    for_each_statement!(l, "C10_context", hedged_context);
    l.push(("C10_statements".to_string(), Box::new(hedged_statements)));
    for_each_statement!(l, "C11_bijective", bijective);
    for_each_statement!(l, "C11_indistinguishable", indistinguishable);
    for_each_statement!(l, "C11_simulatable", simulatable);
    l
}
