//! Reference functions: what the parsers, mappers and containers of zkenc must compute, written from the file
//! format descriptions and the documentation, not from the repository's code. They are never executed: the same
//! front end and the same value-graph builder turn them into normal forms, against which the repository's
//! functions are compared.
#![allow(dead_code, unused)]
use std::collections::HashMap;
type R<T> = Result<T, ()>;

// ------------------------------------------------------------------ cursor over a byte string
struct Cur<'a> { b: &'a [u8], p: usize }
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.b.len() < self.p + n { return Err(()); }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    fn u32(&mut self) -> R<u32> { let s = self.take(4)?; Ok(u32::from_le_bytes(s.try_into().unwrap())) }
    fn u64(&mut self) -> R<u64> { let s = self.take(8)?; Ok(u64::from_le_bytes(s.try_into().unwrap())) }
}

// ------------------------------------------------------------------ .r1cs files
pub struct LinearCombination { pub factors: Vec<(u32, Vec<u8>)> }
pub struct Constraint { pub a: LinearCombination, pub b: LinearCombination, pub c: LinearCombination }
pub struct R1csFile {
    pub field_size: u32, pub prime: Vec<u8>, pub n_wires: u32, pub n_pub_out: u32, pub n_pub_in: u32, pub n_prv_in: u32,
    pub n_labels: u64, pub n_constraints: u32, pub constraints: Vec<Constraint>, pub wire2label: Vec<u64>,
}
fn lc(c: &mut Cur, fs: u32) -> R<Vec<(u32, Vec<u8>)>> {
    let mut v = vec![];
    for _ in 0..c.u32()? {
        let w = c.u32()?;
        v.push((w, c.take(fs as usize)?.to_vec()));
    }
    Ok(v)
}
fn section(t: &[(u32, usize)], ty: u32) -> Option<usize> {
    for (k, p) in t { if *k == ty { return Some(*p); } }
    None
}
fn sections(c: &mut Cur) -> R<Vec<(u32, usize)>> {
    let n = c.u32()?;
    let mut t = vec![];
    for _ in 0..n {
        let ty = c.u32()?;
        let size = c.u64()?;
        t.push((ty, c.p));
        c.p += size as usize;
    }
    Ok(t)
}
pub fn r1cs_file(b: &[u8]) -> R<R1csFile> {
    let mut c = Cur { b, p: 0 };
    if c.take(4)? != b"r1cs" { return Err(()); }
    if c.u32()? != 1 { return Err(()); }
    let t = sections(&mut c)?;
    let mut h = Cur { b, p: section(&t, 1).ok_or(())? };
    let field_size = h.u32()?;
    let prime = h.take(field_size as usize)?.to_vec();
    let n_wires = h.u32()?;
    let n_pub_out = h.u32()?;
    let n_pub_in = h.u32()?;
    let n_prv_in = h.u32()?;
    let n_labels = h.u64()?;
    let n_constraints = h.u32()?;
    let mut k = Cur { b, p: section(&t, 2).ok_or(())? };
    let mut constraints = vec![];
    for _ in 0..n_constraints {
        let a = LinearCombination { factors: lc(&mut k, field_size)? };
        let b = LinearCombination { factors: lc(&mut k, field_size)? };
        let c = LinearCombination { factors: lc(&mut k, field_size)? };
        constraints.push(Constraint { a, b, c });
    }
    let mut wire2label = vec![];
    match section(&t, 3) {
        Some(p) => { let mut w = Cur { b, p }; for _ in 0..n_wires { wire2label.push(w.u64()?); } }
        None => for i in 0..n_wires as u64 { wire2label.push(i); }
    }
    Ok(R1csFile { field_size, prime, n_wires, n_pub_out, n_pub_in, n_prv_in, n_labels, n_constraints, constraints, wire2label })
}

// the JS binding keeps fewer header fields
pub struct R1csHeader { pub field_size: u32, pub n_wires: u32, pub n_pub_out: u32, pub n_pub_in: u32, pub n_constraints: u32 }
pub struct R1csConstraint { pub a_factors: Vec<(u32, Vec<u8>)>, pub b_factors: Vec<(u32, Vec<u8>)>, pub c_factors: Vec<(u32, Vec<u8>)> }
pub fn r1cs_js(b: &[u8]) -> R<(R1csHeader, Vec<R1csConstraint>)> {
    let mut c = Cur { b, p: 0 };
    if c.take(4)? != b"r1cs" { return Err(()); }
    if c.u32()? != 1 { return Err(()); }
    let t = sections(&mut c)?;
    let mut h = Cur { b, p: section(&t, 1).ok_or(())? };
    let field_size = h.u32()?;
    h.take(field_size as usize)?;
    let n_wires = h.u32()?;
    let n_pub_out = h.u32()?;
    let n_pub_in = h.u32()?;
    h.take(4)?;
    h.take(8)?;
    let n_constraints = h.u32()?;
    let mut k = Cur { b, p: section(&t, 2).ok_or(())? };
    let mut v = vec![];
    for _ in 0..n_constraints {
        let a_factors = lc(&mut k, field_size)?;
        let b_factors = lc(&mut k, field_size)?;
        let c_factors = lc(&mut k, field_size)?;
        v.push(R1csConstraint { a_factors, b_factors, c_factors });
    }
    Ok((R1csHeader { field_size, n_wires, n_pub_out, n_pub_in, n_constraints }, v))
}

// ------------------------------------------------------------------ .wtns files
pub struct WitnessFile { pub prime: Vec<u8>, pub n_witness: u32, pub assignments: HashMap<u32, Vec<u8>> }
pub fn wtns_file(b: &[u8]) -> R<WitnessFile> {
    let mut c = Cur { b, p: 0 };
    if c.take(4)? != b"wtns" { return Err(()); }
    if c.u32()? != 2 { return Err(()); }
    let mut prime = vec![];
    let mut n_witness = 0;
    let mut data = vec![];
    for _ in 0..c.u32()? {
        let ty = c.u32()?;
        let size = c.u64()?;
        if ty == 1 {
            let fs = c.u32()?;
            prime = c.take(fs as usize)?.to_vec();
            n_witness = c.u32()?;
        } else {
            let s = c.take(size as usize)?;
            if ty == 2 { data = s.to_vec(); }
        }
    }
    let fs = prime.len();
    if prime.is_empty() || data.is_empty() || data.len() != n_witness as usize * fs { return Err(()); }
    let assignments = (0..n_witness).map(|i| (i, data[i as usize * fs..(i as usize + 1) * fs].to_vec())).collect();
    Ok(WitnessFile { prime, n_witness, assignments })
}

// ------------------------------------------------------------------ .sym files
pub fn sym(text: &str) -> R<HashMap<String, u32>> {
    let mut m = HashMap::new();
    for l in text.lines() {
        let l = l.trim();
        if l.is_empty() { continue; }
        let f: Vec<&str> = l.split(',').collect();
        if f.len() == 4 {
            let w = f[1].trim().parse::<i32>().map_err(|_| ())?;
            if w >= 0 { m.insert(f[3].trim().to_string(), w as u32); }
        }
    }
    Ok(m)
}
pub fn inputs_of(wires: &HashMap<String, u32>, max: Option<u32>) -> HashMap<String, u32> {
    wires.iter()
        .filter(|(n, w)| max.map_or(true, |x| **w <= x) && n.starts_with("main."))
        .map(|(n, w)| (n["main.".len()..].to_string(), *w))
        .collect()
}

// ------------------------------------------------------------------ input JSON
use serde_json::Value;
fn strings(v: &Value) -> Vec<String> {
    match v {
        Value::Array(a) => { let mut o = vec![]; for x in a { o.extend(strings(x)); } o }
        Value::Object(_) => vec![],
        Value::String(s) => vec![s.clone()],
        Value::Number(n) => vec![n.to_string()],
        Value::Bool(b) => vec![if *b { "1".to_string() } else { "0".to_string() }],
        Value::Null => vec!["0".to_string()],
    }
}
pub fn inputs_json(text: &str) -> R<HashMap<String, Vec<String>>> {
    let v: Value = serde_json::from_str(text).map_err(|_| ())?;
    let o = v.as_object().ok_or(())?;
    let mut m = HashMap::new();
    for (k, x) in o { m.insert(k.clone(), strings(x)); }
    Ok(m)
}

// ------------------------------------------------------------------ exported circuits
pub struct SerializableFactor { pub wire_id: u32, pub coefficient_bytes: Vec<u8> }
pub struct SerializableLC { pub factors: Vec<SerializableFactor> }
pub struct SerializableConstraint { pub a: SerializableLC, pub b: SerializableLC, pub c: SerializableLC }
pub struct SerializableCircuit {
    pub field_size: u32, pub prime_bytes: Vec<u8>, pub n_wires: u32, pub n_pub_out: u32, pub n_pub_in: u32, pub n_prv_in: u32,
    pub n_constraints: u32, pub constraints: Vec<SerializableConstraint>, pub wire_labels: Option<Vec<u64>>,
}
fn slc(l: &LinearCombination) -> SerializableLC {
    let mut factors = Vec::new();
    for f in &l.factors { factors.push(SerializableFactor { wire_id: f.0, coefficient_bytes: f.1.to_vec() }); }
    SerializableLC { factors }
}
pub fn export(f: &R1csFile) -> SerializableCircuit {
    let mut constraints = Vec::new();
    for k in f.constraints.iter() { constraints.push(SerializableConstraint { a: slc(&k.a), b: slc(&k.b), c: slc(&k.c) }); }
    SerializableCircuit {
        constraints, field_size: f.field_size, prime_bytes: f.prime.to_vec(), n_wires: f.n_wires, n_pub_out: f.n_pub_out,
        n_pub_in: f.n_pub_in, n_prv_in: f.n_prv_in, n_constraints: f.n_constraints, wire_labels: None,
    }
}

// ------------------------------------------------------------------ field elements
use ark_bn254::Fr;
use ark_ff::PrimeField;
use std::str::FromStr;
fn field(b: &[u8]) -> Fr {
    let mut w = [0u8; 32];
    let n = if b.len() < 32 { b.len() } else { 32 };
    w[..n].copy_from_slice(&b[..n]);
    Fr::from_le_bytes_mod_order(&w)
}
/// values of a .wtns file, as the JS binding reads it
pub fn wtns_js(b: &[u8]) -> R<Vec<Fr>> {
    let mut c = Cur { b, p: 0 };
    if c.take(4)? != b"wtns" { return Err(()); }
    if c.u32()? != 2 { return Err(()); }
    let mut out = vec![];
    let mut width = 0;
    for _ in 0..c.u32()? {
        let ty = c.u32()?;
        let size = c.u64()?;
        if size > usize::MAX as u64 { return Err(()); }
        let s = c.take(size as usize)?;
        if ty == 1 {
            if s.len() < 4 { return Err(()); }
            width = u32::from_le_bytes(s[0..4].try_into().unwrap()) as usize;
        } else if ty == 2 {
            if width == 0 { return Err(()); }
            for i in 0..s.len() / width { out.push(field(&s[i * width..(i + 1) * width])); }
        }
    }
    Ok(out)
}
fn scalar(v: &Value) -> R<Fr> {
    match v {
        Value::Number(n) => {
            if let Some(u) = n.as_u64() { return Ok(Fr::from(u)); }
            let i = n.as_i64().ok_or(())?;
            Ok(-Fr::from(i.unsigned_abs()))
        }
        Value::String(s) => Fr::from_str(s).map_err(|_| ()),
        _ => Err(()),
    }
}
fn named(v: &Value, key: &str, m: &mut HashMap<String, Fr>) -> R<()> {
    if let Value::Array(a) = v {
        for (i, x) in a.iter().enumerate() { named(x, &format!("{}[{}]", key, i), m)?; }
    } else {
        m.insert(key.to_string(), scalar(v)?);
    }
    Ok(())
}
/// public inputs by name
pub fn fields_by_name(text: &str) -> R<HashMap<String, Fr>> {
    let v: Value = serde_json::from_str(text).map_err(|_| ())?;
    let o = v.as_object().ok_or(())?;
    let mut m = HashMap::new();
    for (k, x) in o.iter() { named(x, k, &mut m)?; }
    Ok(m)
}

// ------------------------------------------------------------------ circuit synthesis
use ark_relations::gr1cs::{ConstraintSystemRef, LinearCombination as Lc, SynthesisError, Variable, R1CS_PREDICATE_LABEL};
pub struct Cli { pub r1cs: R1csFile, pub witness: HashMap<u32, Fr> }
pub struct Js { pub header: R1csHeader, pub constraints: Vec<R1csConstraint>, pub witness: HashMap<u32, Fr> }
fn comb(f: &[(u32, Vec<u8>)], v: &HashMap<u32, Variable>) -> Lc<Fr> {
    let mut l = Lc::zero();
    for (w, c) in f { if let Some(x) = v.get(w) { l = l + (field(c), *x); } }
    l
}
fn wires(public: u32, n: u32, w: &HashMap<u32, Fr>, cs: &ConstraintSystemRef<Fr>) -> Result<HashMap<u32, Variable>, SynthesisError> {
    let mut v = HashMap::new();
    v.insert(0, Variable::One);
    for i in 1..=public { let x = w.get(&i).copied().ok_or(SynthesisError::AssignmentMissing); v.insert(i, cs.new_input_variable(|| x)?); }
    for i in public + 1..n { let x = w.get(&i).copied().ok_or(SynthesisError::AssignmentMissing); v.insert(i, cs.new_witness_variable(|| x)?); }
    Ok(v)
}
pub fn synth_cli(c: Cli, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> {
    let v = wires(c.r1cs.n_pub_out + c.r1cs.n_pub_in, c.r1cs.n_wires, &c.witness, &cs)?;
    for k in &c.r1cs.constraints {
        let (a, b, c) = (comb(&k.a.factors, &v), comb(&k.b.factors, &v), comb(&k.c.factors, &v));
        let q: Vec<Box<dyn FnOnce() -> Lc<Fr>>> = vec![Box::new(move || a), Box::new(move || b), Box::new(move || c)];
        cs.enforce_constraint(R1CS_PREDICATE_LABEL, q)?;
    }
    Ok(())
}
pub fn synth_js(c: Js, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> {
    let v = wires(c.header.n_pub_out + c.header.n_pub_in, c.header.n_wires, &c.witness, &cs)?;
    for k in &c.constraints {
        let (a, b, c) = (comb(&k.a_factors, &v), comb(&k.b_factors, &v), comb(&k.c_factors, &v));
        let q: Vec<Box<dyn FnOnce() -> Lc<Fr>>> = vec![Box::new(move || a), Box::new(move || b), Box::new(move || c)];
        cs.enforce_constraint(R1CS_PREDICATE_LABEL, q)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ witness key encapsulation
use ark_ec::{pairing::Pairing, AffineRepr, CurveGroup, PrimeGroup, VariableBaseMSM};
use ark_ff::{Field, One, UniformRand, Zero};
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
use ark_relations::gr1cs::{ConstraintSynthesizer, ConstraintSystem};
use ark_serialize::CanonicalSerialize;
pub struct EncapKey<E: Pairing> {
    pub alpha_g1: E::G1Affine, pub beta_g2: E::G2Affine, pub delta_g2: E::G2Affine, pub r_u_query_g1: Vec<E::G1Affine>,
    pub r_v_query_g2: Vec<E::G2Affine>, pub phi_delta_query_g1: Vec<E::G1Affine>, pub h_query_g1: Vec<E::G1Affine>,
}

/// u_i(x) = sum over constraints j of L_j(x) * A[j][i], likewise v from B and w from C
pub fn qap<F: PrimeField>(cs: &ConstraintSystemRef<F>, x: F) -> (Vec<F>, Vec<F>, Vec<F>) {
    let m = cs.num_instance_variables() + cs.num_witness_variables();
    let zero = || (vec![F::zero(); m], vec![F::zero(); m], vec![F::zero(); m]);
    let k = match cs.to_matrices() { Ok(k) => k, Err(_) => return zero() };
    let k = &k[R1CS_PREDICATE_LABEL];
    if k.len() < 3 { return zero(); }
    let d = match GeneralEvaluationDomain::<F>::new(cs.num_constraints() + cs.num_instance_variables()) { Some(d) => d, None => return zero() };
    let l = d.evaluate_all_lagrange_coefficients(x);
    let (mut u, mut v, mut w) = zero();
    for (j, lj) in l.iter().enumerate().take(cs.num_constraints()) {
        for (c, i) in k[0][j].iter() { if *i < m { u[*i] += *lj * c; } }
        for (c, i) in k[1][j].iter() { if *i < m { v[*i] += *lj * c; } }
        for (c, i) in k[2][j].iter() { if *i < m { w[*i] += *lj * c; } }
    }
    (u, v, w)
}

pub fn crs<E: Pairing>(cs: &ConstraintSystemRef<E::ScalarField>, alpha: E::ScalarField, beta: E::ScalarField, delta: E::ScalarField, r: E::ScalarField, x: E::ScalarField) -> EncapKey<E> {
    let (g1, g2) = (E::G1::generator(), E::G2::generator());
    let (u, v, w) = qap(cs, x);
    let m = cs.num_instance_variables() + cs.num_witness_variables();
    EncapKey {
        alpha_g1: (g1 * alpha).into_affine(),
        beta_g2: (g2 * beta).into_affine(),
        delta_g2: (g2 * delta).into_affine(),
        r_u_query_g1: (0..m).map(|i| (g1 * (r * u[i])).into_affine()).collect(),
        r_v_query_g2: (0..m).map(|i| (g2 * (r * v[i])).into_affine()).collect(),
        phi_delta_query_g1: (0..m).map(|i| (g1 * ((r * beta * u[i] + r * alpha * v[i] + r * r * w[i]) * delta.inverse().unwrap())).into_affine()).collect(),
        h_query_g1: vec![],
    }
}
/// the secret of encapsulation: e([alpha]1,[beta]2) + e(sum over 1 and the public inputs of a_i*phi_i/delta, [1]2)
pub fn encap_secret<E: Pairing>(k: &EncapKey<E>, public: &[E::ScalarField]) -> R<Vec<u8>> {
    let (mut b, mut s) = (vec![], vec![]);
    if !k.phi_delta_query_g1.is_empty() { b.push(k.phi_delta_query_g1[0]); s.push(E::ScalarField::one()); }
    for i in 0..public.len() {
        if i + 1 < k.phi_delta_query_g1.len() { b.push(k.phi_delta_query_g1[i + 1]); s.push(public[i]); }
    }
    let z = E::G1::generator() - E::G1::generator();
    let c = if b.is_empty() { z } else { E::G1::msm(&b, &s).map_err(|_| ())? };
    let t = E::pairing(k.alpha_g1, k.beta_g2) + E::pairing(c, E::G2::generator());
    let mut o = vec![];
    t.serialize_compressed(&mut o).map_err(|_| ())?;
    Ok(blake3::hash(&o).as_bytes().to_vec())
}
/// the secret of decapsulation: e([alpha]1+sum a_i*[r*u_i]1, [beta]2+sum a_i*[r*v_i]2) - e(sum a_i*phi_i/delta, [delta]2)
pub fn decap_secret<E: Pairing>(k: &EncapKey<E>, full: &[E::ScalarField]) -> R<Vec<u8>> {
    let n = full.len().min(k.r_u_query_g1.len());
    if n == 0 { return Err(()); }
    let a = E::G1::msm(&k.r_u_query_g1[..n], &full[..n]).map_err(|_| ())?;
    let n = full.len().min(k.r_v_query_g2.len());
    if n == 0 { return Err(()); }
    let b = E::G2::msm(&k.r_v_query_g2[..n], &full[..n]).map_err(|_| ())?;
    let n = full.len().min(k.phi_delta_query_g1.len());
    if n == 0 { return Err(()); }
    let c = E::G1::msm(&k.phi_delta_query_g1[..n], &full[..n]).map_err(|_| ())?;
    let t = E::pairing(k.alpha_g1.into_group() + a, k.beta_g2.into_group() + b) - E::pairing(c, k.delta_g2);
    let mut o = vec![];
    t.serialize_compressed(&mut o).map_err(|_| ())?;
    Ok(blake3::hash(&o).as_bytes().to_vec())
}

// ------------------------------------------------------------------ inputs of encapsulation
/// the assignment handed to encapsulation: wire 0 is one, and every declared public input of the JSON file goes to its wire
pub fn public_witness(r1cs: &R1csFile, sym_text: &str, json: &str) -> R<HashMap<u32, Fr>> {
    let wires = inputs_of(&sym(sym_text)?, Some(r1cs.n_pub_out + r1cs.n_pub_in));
    let values = fields_by_name(json)?;
    let mut w = HashMap::new();
    w.insert(0, Fr::from(1u64));
    for (name, value) in values.iter() {
        if let Some(i) = wires.get(name) { w.insert(*i, *value); }
    }
    Ok(w)
}
/// the JS binding hands wire 0 and the public wires of the witness file to encapsulation
pub fn wasm_public(h: &R1csHeader, values: &[Fr]) -> HashMap<u32, Fr> {
    let mut w = HashMap::new();
    for i in 0..=(h.n_pub_out + h.n_pub_in) {
        if (i as usize) < values.len() { w.insert(i, values[i as usize]); }
    }
    w
}
pub fn wasm_full(values: &[Fr]) -> HashMap<u32, Fr> {
    let mut w = HashMap::new();
    for i in 0..values.len() { w.insert(i as u32, values[i]); }
    w
}
pub fn public_count(h: &R1csHeader) -> u32 { h.n_pub_out + h.n_pub_in }
fn listed(v: &Value, o: &mut Vec<Fr>) -> R<()> {
    if let Value::Array(a) = v {
        for x in a.iter() { listed(x, o)?; }
    } else {
        o.push(scalar(v)?);
    }
    Ok(())
}
/// public inputs in the order in which the JSON file lists them
pub fn fields_in_order(text: &str) -> R<Vec<Fr>> {
    let v: Value = serde_json::from_str(text).map_err(|_| ())?;
    let o = v.as_object().ok_or(())?;
    let mut m = Vec::new();
    for (_, x) in o.iter() { listed(x, &mut m)?; }
    Ok(m)
}
