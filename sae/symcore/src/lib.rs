//! Shared state of the symbolic algebra execution.
//!
//! Symbolic mode (default): scalars and (discrete logarithms of) points are polynomials over Z_l in symbolic variables,
//! kept in canonical form and named by 32-byte handles, so that they travel through `to_bytes`, serde, transcripts and
//! `Vec<u8>` of the code under test unchanged.  Every comparison of different polynomials is a *decision*.
//!
//! Concrete mode (feature `conc`): every event takes the next value of a tape (a solver model), nothing else.
extern crate real_dalek;

use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;

pub use real_dalek::scalar::Scalar as RS;

pub const MAGIC_S: &'static [u8; 4] = b"\xf3SYS";
pub const MAGIC_P: &'static [u8; 4] = b"\xf3SYP";
pub const MAGIC_B: &'static [u8; 4] = b"\xf3SYB";
pub const MAGIC_W: &'static [u8; 4] = b"\xf3SYW";

pub type Mono = Vec<u32>;

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Poly(pub BTreeMap<Mono, [u8; 32]>);

fn rs(b: &[u8; 32]) -> RS { RS::from_bits(*b) }

impl Poly {
    pub fn zero() -> Poly { Poly(BTreeMap::new()) }
    pub fn constant(s: RS) -> Poly {
        let s = s.reduce();
        let mut m = BTreeMap::new();
        if s != RS::zero() { m.insert(vec![], s.to_bytes()); }
        Poly(m)
    }
    pub fn one() -> Poly { Poly::constant(RS::one()) }
    pub fn var(v: u32) -> Poly {
        let mut m = BTreeMap::new();
        m.insert(vec![v], RS::one().to_bytes());
        Poly(m)
    }
    pub fn as_const(&self) -> Option<[u8; 32]> {
        if self.0.is_empty() { return Some([0u8; 32]); }
        if self.0.len() == 1 {
            if let Some(c) = self.0.get(&vec![]) { return Some(*c); }
        }
        None
    }
    fn add_term(&mut self, m: Mono, c: RS) {
        let old = match self.0.get(&m) { Some(x) => rs(x), None => RS::zero() };
        let new = (old + c).reduce();
        if new == RS::zero() { self.0.remove(&m); } else { self.0.insert(m, new.to_bytes()); }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let mut r = self.clone();
        for (m, c) in o.0.iter() { r.add_term(m.clone(), rs(c)); }
        r
    }
    pub fn neg(&self) -> Poly {
        let mut r = Poly::zero();
        for (m, c) in self.0.iter() { r.0.insert(m.clone(), (-rs(c)).reduce().to_bytes()); }
        r
    }
    pub fn sub(&self, o: &Poly) -> Poly { self.add(&o.neg()) }
    pub fn mul(&self, o: &Poly) -> Poly {
        let mut r = Poly::zero();
        for (m, c) in self.0.iter() {
            for (n, d) in o.0.iter() {
                let mut k = m.clone();
                k.extend(n.iter().cloned());
                k.sort();
                r.add_term(k, rs(c) * rs(d));
            }
        }
        r
    }
}

/// A value: a constant or a node of the expression graph.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Val { C([u8; 32]), N(u32) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Expr { Var(u32), Add(Val, Val), Sub(Val, Val), Mul(Val, Val), Neg(Val) }

/// A piece of the input of a random oracle: literal bytes, or a value in an encoding of kind S, P, B or W.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Seg { Raw(Vec<u8>), Term(u8, u32) }

pub struct Decision { pub lhs: Val, pub rhs: Val, pub taken: bool, pub mode: char }

pub struct State {
    pub nodes: Vec<(Poly, Expr)>,
    pub index: HashMap<Poly, u32>,
    /// kind, name
    pub vars: Vec<(String, String)>,
    pub events: Vec<u32>,
    pub nonzero: Vec<u32>,
    pub inverses: Vec<(u32, Val)>,
    pub ros: Vec<(u32, String, Vec<Vec<Seg>>)>,
    pub decisions: Vec<Decision>,
    /// Pairs identified by normal form; the solver confirms each.
    pub identities: Vec<(Val, Val)>,
    pub prefix: Vec<bool>,
    pub used: usize,
    pub forced: Option<bool>,
    pub oracle: u32,
    pub collision_free: bool,
    pub draws_nonzero: bool,
    pub reached: Vec<String>,
    pub notes: Vec<String>,
    /// Inputs of the challenges and of the generators' draws so far.
    pub challenges: Vec<Vec<Vec<u8>>>,
    pub seeds: Vec<Vec<Vec<u8>>>,
    /// Outputs of the challenges and of the draws so far.
    pub challenge_out: Vec<[u8; 64]>,
    pub draw_out: Vec<[u8; 64]>,
    pub program: Vec<[u8; 64]>,
    pub points: HashMap<[u8; 32], Val>,
    pub rng_counts: HashMap<String, u32>,
    pub entropy_alias: Option<String>,
    pub tape: Vec<[u8; 32]>,
    pub answered: HashMap<(String, Vec<Vec<u8>>), [u8; 32]>,
    pub tape_pos: usize,
    pub used_identical: bool,
}

thread_local! {
    pub static ST: RefCell<State> = RefCell::new(State {
        nodes: vec![], index: HashMap::new(), vars: vec![], events: vec![], nonzero: vec![], inverses: vec![],
        ros: vec![], decisions: vec![], identities: vec![], prefix: vec![], used: 0, forced: None, oracle: 0,
        collision_free: false, draws_nonzero: true, reached: vec![], notes: vec![], challenges: vec![], seeds: vec![],
        challenge_out: vec![], draw_out: vec![], program: vec![], points: HashMap::new(),
        rng_counts: HashMap::new(), entropy_alias: None, tape: vec![], answered: HashMap::new(), tape_pos: 0, used_identical: false,
    });
}

pub fn with<T, F: FnOnce(&mut State) -> T>(f: F) -> T { ST.with(|s| f(&mut *s.borrow_mut())) }

pub fn is_handle(b: &[u8], magic: &[u8; 4]) -> Option<u32> {
    if b.len() >= 32 && &b[0..4] == &magic[..] && b[8..32].iter().all(|x| *x == 0) {
        Some((b[4] as u32) | (b[5] as u32) << 8 | (b[6] as u32) << 16 | (b[7] as u32) << 24)
    } else { None }
}

pub fn mk_handle(magic: &[u8; 4], id: u32) -> [u8; 32] {
    let mut b = [0u8; 32];
    b[0..4].copy_from_slice(magic);
    b[4] = id as u8; b[5] = (id >> 8) as u8; b[6] = (id >> 16) as u8; b[7] = (id >> 24) as u8;
    b
}

/// Bytes which contain a piece of a handle, but are none, are the result of byte-level computation on symbolic values.
pub fn reject_mangled(b: &[u8]) {
    for w in b.windows(4) {
        if w == &MAGIC_S[..] || w == &MAGIC_P[..] || w == &MAGIC_B[..] || w == &MAGIC_W[..] {
            unencodable("byte-level computation on a symbolic value");
        }
    }
}

pub fn poly_of(v: Val) -> Poly {
    match v {
        Val::C(c) => Poly::constant(rs(&c)),
        Val::N(n) => with(|s| s.nodes[n as usize].0.clone()),
    }
}

fn node(p: Poly, e: Expr) -> Val {
    with(|s| {
        let n = s.nodes.len() as u32;
        let c = p.as_const();
        let old = if c.is_none() { s.index.get(&p).cloned() } else { None };
        if c.is_none() && old.is_none() { s.index.insert(p.clone(), n); }
        s.nodes.push((p, e));
        match (c, old) {
            (Some(c), _) => { s.identities.push((Val::N(n), Val::C(c))); Val::C(c) },
            // Equal polynomials have one handle, so that comparing encodings compares values known to be equal.
            (None, Some(o)) => { s.identities.push((Val::N(n), Val::N(o))); Val::N(o) },
            (None, None) => Val::N(n),
        }
    })
}

pub fn var_val(v: u32) -> Val { node(Poly::var(v), Expr::Var(v)) }
fn reduced(v: Val) -> Val { match v { Val::C(c) => Val::C(rs(&c).reduce().to_bytes()), n => n } }
pub fn v_add(a: Val, b: Val) -> Val {
    match (a, b) {
        (Val::C(x), Val::C(y)) => Val::C((rs(&x) + rs(&y)).reduce().to_bytes()),
        _ => node(poly_of(a).add(&poly_of(b)), Expr::Add(reduced(a), reduced(b))),
    }
}
pub fn v_sub(a: Val, b: Val) -> Val {
    match (a, b) {
        (Val::C(x), Val::C(y)) => Val::C((rs(&x) - rs(&y)).reduce().to_bytes()),
        _ => node(poly_of(a).sub(&poly_of(b)), Expr::Sub(reduced(a), reduced(b))),
    }
}
pub fn v_mul(a: Val, b: Val) -> Val {
    match (a, b) {
        (Val::C(x), Val::C(y)) => Val::C((rs(&x) * rs(&y)).reduce().to_bytes()),
        _ => node(poly_of(a).mul(&poly_of(b)), Expr::Mul(reduced(a), reduced(b))),
    }
}
pub fn v_neg(a: Val) -> Val {
    match a {
        Val::C(x) => Val::C((-rs(&x)).reduce().to_bytes()),
        _ => node(poly_of(a).neg(), Expr::Neg(reduced(a))),
    }
}

pub fn new_var(kind: &str, name: &str) -> u32 {
    with(|s| {
        let v = s.vars.len() as u32;
        s.vars.push((kind.to_string(), name.to_string()));
        v
    })
}

/// A variable whose value a replay takes from the tape.
pub fn event_var(kind: &str, name: &str) -> u32 {
    let v = new_var(kind, name);
    with(|s| s.events.push(v));
    v
}

/// The inverse of `p`: zero for zero, as in the original.
pub fn inverse(p: Val) -> Val {
    let v = new_var("inv", "");
    with(|s| s.inverses.push((v, p)));
    var_val(v)
}

pub fn unencodable(what: &str) -> ! { finish("UNENCODABLE", what) }

/// Decide whether two values are equal.
pub fn decide_eq(l: Val, r: Val) -> bool {
    if l == r { return true; }
    let diff = poly_of(l).sub(&poly_of(r));
    if let Some(c) = diff.as_const() {
        let eq = c == [0u8; 32];
        if eq { with(|s| s.identities.push((reduced(l), reduced(r)))); }
        return eq;
    }
    let old: Vec<(Poly, bool)> = with(|s| s.decisions.iter().map(|d| (d.lhs, d.rhs, d.taken)).collect::<Vec<_>>())
        .into_iter().map(|(a, b, t)| (poly_of(a).sub(&poly_of(b)), t)).collect();
    let neg = diff.neg();
    for (p, t) in old {
        if p == diff || p == neg { return t; }
    }
    with(|s| {
        let (v, mode) = match s.forced {
            Some(f) => (f, 'a'),
            None => {
                let i = s.used;
                s.used += 1;
                (if i < s.prefix.len() { s.prefix[i] } else { true }, 'd')
            }
        };
        s.decisions.push(Decision { lhs: reduced(l), rhs: reduced(r), taken: v, mode: mode });
        v
    })
}

/// Whether two values are the same polynomial (which decides nothing).
pub fn identical(l: Val, r: Val) -> bool {
    with(|s| s.used_identical = true);
    if l == r { return true; }
    let eq = poly_of(l) == poly_of(r);
    if eq { with(|s| s.identities.push((reduced(l), reduced(r)))); }
    eq
}

/// Split the bytes given to a random oracle into literal bytes and terms.
pub fn segments(data: &[u8]) -> Vec<Seg> {
    let mut out = vec![];
    let mut raw = vec![];
    let mut i = 0;
    while i < data.len() {
        let rest = &data[i..];
        let mut seg = None;
        for (m, k) in [(MAGIC_S, b'S'), (MAGIC_P, b'P'), (MAGIC_B, b'B')].iter() {
            if let Some(id) = is_handle(rest, m) { seg = Some((Seg::Term(*k, id), 32)); }
        }
        if let Some(id) = is_handle(rest, MAGIC_W) {
            if rest.len() >= 64 && rest[32..64].iter().all(|x| *x == 0) { seg = Some((Seg::Term(b'W', id), 64)); }
        }
        match seg {
            Some((s, n)) => {
                if !raw.is_empty() { out.push(Seg::Raw(raw)); raw = vec![]; }
                out.push(s);
                i += n;
            }
            None => { raw.push(data[i]); i += 1; }
        }
    }
    if !raw.is_empty() { out.push(Seg::Raw(raw)); }
    out
}

/// Whether two oracle inputs have the same form, and the pairs of values to compare if they have.
pub fn match_inputs(a: &Vec<Vec<Seg>>, b: &Vec<Vec<Seg>>) -> Option<Vec<(Val, Val)>> {
    if a.len() != b.len() { return None; }
    let mut out = vec![];
    for (x, y) in a.iter().zip(b.iter()) {
        if x.len() != y.len() { return None; }
        for (s, t) in x.iter().zip(y.iter()) {
            match (s, t) {
                (&Seg::Raw(ref p), &Seg::Raw(ref q)) => if p != q { return None; },
                (&Seg::Term(k, i), &Seg::Term(l, j)) => { if k != l { return None; } out.push((Val::N(i), Val::N(j))); },
                _ => return None,
            }
        }
    }
    Some(out)
}

/// The output of random oracle `kind` on `records`: a variable, the same one for the same input.
pub fn ro(kind: &str, records: &Vec<Vec<u8>>) -> u32 {
    let segs: Vec<Vec<Seg>> = records.iter().map(|r| segments(r)).collect();
    let k = format!("{}@{}", kind, with(|s| s.oracle));
    let candidates: Vec<(u32, Vec<Vec<Seg>>)> = with(|s| s.ros.iter().filter(|r| r.1 == k).map(|r| (r.0, r.2.clone())).collect());
    let mut found = None;
    for (v, other) in candidates {
        if let Some(pairs) = match_inputs(&segs, &other) {
            if pairs.iter().all(|p| p.0 == p.1 || poly_of(p.0) == poly_of(p.1)) {
                with(|s| for p in pairs.iter() { if p.0 != p.1 { s.identities.push(*p); } });
                found = Some(v);
                break;
            }
        }
    }
    let v = match found {
        Some(v) => v,
        None => {
            let v = new_var(kind, "");
            with(|s| s.ros.push((v, k, segs)));
            v
        }
    };
    with(|s| s.events.push(v));
    v
}

pub fn tape_next() -> [u8; 32] {
    with(|s| {
        let i = s.tape_pos;
        s.tape_pos += 1;
        if i < s.tape.len() { s.tape[i] } else { let mut b = [0u8; 32]; b[0] = 7 + i as u8; b[1] = 1; b }
    })
}

/// Encode a value as the output of an oracle or generator.
pub fn fill_val(dest: &mut [u8], v: Val) {
    for b in dest.iter_mut() { *b = 0; }
    match v {
        Val::C(c) => if dest.len() >= 32 { dest[0..32].copy_from_slice(&c) } else { unencodable("random bytes of a length other than 32 or 64") },
        Val::N(n) => {
            if dest.len() == 64 { dest[0..32].copy_from_slice(&mk_handle(MAGIC_W, n)); }
            else if dest.len() == 32 { dest.copy_from_slice(&mk_handle(MAGIC_B, n)); }
            else { unencodable("random bytes of a length other than 32 or 64") }
        }
    }
}

fn wide(b: &[u8]) -> [u8; 64] { let mut w = [0u8; 64]; for (i, x) in b.iter().enumerate() { if i < 64 { w[i] = *x; } } w }

fn count(name: &str) -> u32 {
    with(|s| {
        let c = s.rng_counts.entry(name.to_string()).or_insert(0);
        *c += 1;
        *c - 1
    })
}

/// A draw too short to be unique: the worst case is a value which it has had before.
fn short(dest: &mut [u8]) -> bool {
    if dest.len() >= 16 { return false; }
    for b in dest.iter_mut() { *b = 0; }
    with(|s| if !s.notes.iter().any(|n| n == "short draw") { s.notes.push("short draw".to_string()) });
    true
}

/// Deliver the next programmed draw, if there is one and this is a draw of a scalar.
fn programmed(dest: &mut [u8]) -> bool {
    if dest.len() != 64 { return false; }
    match with(|s| if s.program.is_empty() { None } else { Some(s.program.remove(0)) }) {
        Some(w) => { dest.copy_from_slice(&w[..]); with(|s| s.draw_out.push(w)); true },
        None => false,
    }
}

/// A draw from the entropy source `name`.
#[cfg(not(feature = "conc"))]
pub fn entropy(name: &str, dest: &mut [u8]) {
    if short(dest) || programmed(dest) { return; }
    let alias = with(|s| s.entropy_alias.clone());
    let name = match alias { Some(ref a) => format!("{}.{}", a, name), None => name.to_string() };
    let n = count(&name);
    let full = format!("{}#{}", name, n);
    let found = if alias.is_some() { with(|s| s.vars.iter().position(|v| v.0 == "rng" && v.1 == full)) } else { None };
    let v = match found {
        Some(v) => { with(|s| s.events.push(v as u32)); v as u32 },
        None => { let v = event_var("rng", &full); if with(|s| s.draws_nonzero) { with(|s| s.nonzero.push(v)); } v },
    };
    fill_val(dest, var_val(v));
    if dest.len() == 64 { with(|s| s.draw_out.push(wide(dest))); }
}
#[cfg(feature = "conc")]
pub fn entropy(name: &str, dest: &mut [u8]) {
    if short(dest) || programmed(dest) { return; }
    count(name);
    fill_conc(dest);
    if dest.len() == 64 { with(|s| s.draw_out.push(wide(dest))); }
}

#[cfg(feature = "conc")]
pub fn fill_conc(dest: &mut [u8]) {
    let t = tape_next();
    for (i, b) in dest.iter_mut().enumerate() { *b = if i < 32 { t[i] } else { 0 }; }
}

/// The output of an oracle: the same for the same input, also where the path of the tape had no second query.
#[cfg(feature = "conc")]
fn fill_oracle(kind: &str, records: &Vec<Vec<u8>>, dest: &mut [u8]) {
    let key = (format!("{}@{}", kind, with(|s| s.oracle)), records.clone());
    let before = with(|s| s.answered.get(&key).cloned());
    let t = tape_next();
    let t = before.unwrap_or(t);
    with(|s| s.answered.insert(key, t));
    for (i, b) in dest.iter_mut().enumerate() { *b = if i < 32 { t[i] } else { 0 }; }
}

/// Use the entropy stream `alias` from here on, from its beginning: two phases with one alias see the same entropy.
pub fn rewind_entropy(alias: Option<&str>) {
    with(|s| {
        s.entropy_alias = alias.map(|a| a.to_string());
        if let Some(a) = alias {
            let p = format!("{}.", a);
            let keys: Vec<String> = s.rng_counts.keys().filter(|k| k.starts_with(&p)).cloned().collect();
            for k in keys { s.rng_counts.remove(&k); }
        }
    })
}

pub fn challenge(records: &Vec<Vec<u8>>, dest: &mut [u8]) {
    #[cfg(not(feature = "conc"))]
    { let v = ro("chal", records); fill_val(dest, var_val(v)); }
    #[cfg(feature = "conc")]
    fill_oracle("chal", records, dest);
    with(|s| { s.challenges.push(records.clone()); s.challenge_out.push(wide(dest)); });
}

/// Output of a generator seeded with `records` (transcript, witnesses, entropy).
pub fn transcript_rng(records: &Vec<Vec<u8>>, dest: &mut [u8]) {
    if short(dest) { return; }
    if programmed(dest) { with(|s| s.seeds.push(records.clone())); return; }
    #[cfg(not(feature = "conc"))]
    {
        let v = ro("trng", records);
        if with(|s| s.draws_nonzero && !s.nonzero.contains(&v)) { with(|s| s.nonzero.push(v)); }
        fill_val(dest, var_val(v));
    }
    #[cfg(feature = "conc")]
    fill_oracle("trng", records, dest);
    with(|s| { s.seeds.push(records.clone()); s.draw_out.push(wide(dest)); });
}

pub const BASE_BYTES: [u8; 32] = [
    0xe2, 0xf2, 0xae, 0x0a, 0x6a, 0xbc, 0x4e, 0x71, 0xa8, 0x84, 0xa9, 0x61, 0xc5, 0x00, 0x51, 0x5f,
    0x58, 0xe3, 0x0b, 0x6a, 0xa5, 0x82, 0xdd, 0x8d, 0xb6, 0xa6, 0x59, 0x45, 0xe0, 0x8d, 0x2d, 0x76];

/// The discrete logarithm of the point with these concrete bytes.
pub fn point_val(b: &[u8; 32]) -> Val {
    if *b == [0u8; 32] { return Val::C([0u8; 32]); }
    if *b == BASE_BYTES { return Val::C(RS::one().to_bytes()); }
    if let Some(v) = with(|s| s.points.get(b).cloned()) { return v; }
    let v = var_val(new_var("pt", &hex(b)));
    with(|s| s.points.insert(*b, v));
    v
}

pub fn known_point(c: &[u8; 32]) -> [u8; 32] {
    use real_dalek::constants::RISTRETTO_BASEPOINT_TABLE;
    let b = (&rs(c) * &RISTRETTO_BASEPOINT_TABLE).compress().to_bytes();
    with(|s| s.points.insert(b, Val::C(*c)));
    b
}

pub fn decompress(b: &[u8; 32]) -> Option<Val> {
    use real_dalek::ristretto::CompressedRistretto;
    CompressedRistretto(*b).decompress().map(|_| point_val(b))
}

pub fn uniform_point(b: &[u8; 64]) -> Val {
    use real_dalek::ristretto::RistrettoPoint;
    point_val(&RistrettoPoint::from_uniform_bytes(b).compress().to_bytes())
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o
}

pub fn hex(b: &[u8]) -> String { let mut o = String::new(); for x in b { let _ = write!(o, "{:02x}", x); } o }

fn jv(v: Val) -> String {
    match v {
        Val::N(n) => format!("{}", n),
        Val::C(c) => { let mut r = c; r.reverse(); format!("\"{}\"", hex(&r)) }
    }
}

fn join<T, F: Fn(&T) -> String>(v: &[T], f: F) -> String { v.iter().map(f).collect::<Vec<String>>().join(",") }

/// Print the trace of this path and end the process.
pub fn finish(status: &str, detail: &str) -> ! {
    let out = ST.with(|st| {
        let s = match st.try_borrow() { Ok(s) => s, Err(_) => return String::from("{\"status\":\"UNENCODABLE\",\"detail\":\"re-entrant\"}") };
        let mut o = String::new();
        let _ = write!(o, "{{\"status\":\"{}\",\"detail\":\"{}\",\"collision_free\":{},\"identical\":{}", status, esc(detail), s.collision_free, s.used_identical);
        let _ = write!(o, ",\"vars\":[{}]", join(&s.vars, |v| format!("[\"{}\",\"{}\"]", esc(&v.0), esc(&v.1))));
        let _ = write!(o, ",\"nodes\":[{}]", join(&s.nodes, |n| match n.1 {
            Expr::Var(v) => format!("[\"v\",{}]", v),
            Expr::Add(a, b) => format!("[\"+\",{},{}]", jv(a), jv(b)),
            Expr::Sub(a, b) => format!("[\"-\",{},{}]", jv(a), jv(b)),
            Expr::Mul(a, b) => format!("[\"*\",{},{}]", jv(a), jv(b)),
            Expr::Neg(a) => format!("[\"n\",{}]", jv(a)),
        }));
        let _ = write!(o, ",\"events\":{:?},\"nonzero\":{:?}", s.events, s.nonzero);
        let _ = write!(o, ",\"inverses\":[{}]", join(&s.inverses, |i| format!("[{},{}]", i.0, jv(i.1))));
        let _ = write!(o, ",\"ros\":[{}]", join(&s.ros, |r| format!("[{},\"{}\",[{}]]", r.0, r.1, join(&r.2, |rec|
            format!("[{}]", join(rec, |g| match *g {
                Seg::Raw(ref b) => format!("[\"r\",\"{}\"]", hex(b)),
                Seg::Term(t, n) => format!("[\"{}\",{}]", t as char, n),
            }))))));
        let _ = write!(o, ",\"decisions\":[{}]", join(&s.decisions, |d| format!("[{},{},{},\"{}\"]", jv(d.lhs), jv(d.rhs), d.taken, d.mode)));
        let _ = write!(o, ",\"identities\":[{}]", join(&s.identities, |d| format!("[{},{}]", jv(d.0), jv(d.1))));
        let _ = write!(o, ",\"reached\":[{}]", join(&s.reached, |r| format!("\"{}\"", esc(r))));
        let _ = write!(o, ",\"notes\":[{}]}}", join(&s.notes, |r| format!("\"{}\"", esc(r))));
        o
    });
    println!("\n@@TRACE {}", out);
    ::std::process::exit(0)
}
