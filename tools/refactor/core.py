A = 'packages/zkenc-core/src/algorithm.rs'
Q = 'packages/zkenc-core/src/r1cs_to_qap.rs'
J = 'packages/zkenc-js/src/lib.rs'
D = 'packages/zkenc-core/src/data_structures.rs'
R = []
def r(n, *e): R.append((n, list(e)))
# algorithm.rs
r('a_kdf', (A, '''    let mut s_bytes = Vec::new();
    s.serialize_compressed(&mut s_bytes)
        .map_err(|_| Error::SerializationError)?;

    // Derive the key from pairing result using Blake3
    // Blake3 is a fast, secure cryptographic hash function that outputs 32 bytes
    let hash = blake3::hash(&s_bytes);
    let key_bytes = *hash.as_bytes(); // Returns [u8; 32]

    let key = Key::new(key_bytes);
''', '    let key = derive(&s)?;\n'), (A, '''    let mut s_bytes = Vec::new();
    s.serialize_compressed(&mut s_bytes)
        .map_err(|_| Error::SerializationError)?;

    // Derive the key from pairing result using Blake3
    let hash = blake3::hash(&s_bytes);
    let key_bytes = *hash.as_bytes(); // Returns [u8; 32]

    let key = Key::new(key_bytes);
''', '    let key = derive(&s)?;\n'), (A, '    use ark_serialize::CanonicalSerialize;\n', '', 'all'),
  (A, '/// Decapsulate: Recover key using witness', '''fn derive<S: ark_serialize::CanonicalSerialize>(s: &S) -> Result<Key, Error> {
    let mut bytes = Vec::new();
    s.serialize_compressed(&mut bytes)
        .map_err(|_| Error::SerializationError)?;
    Ok(Key::new(blake3::hash(&bytes).into()))
}

/// Decapsulate: Recover key using witness'''))
r('a_hasher', (A, '''    let hash = blake3::hash(&s_bytes);
    let key_bytes = *hash.as_bytes(); // Returns [u8; 32]
''', '''    let mut hasher = blake3::Hasher::new();
    hasher.update(&s_bytes);
    let key_bytes = *hasher.finalize().as_bytes();
''', 'all'))
r('a_zip', (A, '''    for (i, &a_i) in full_assignment.iter().enumerate() {
        if i < ciphertext.encap_key.r_u_query_g1.len() {
            a_bases.push(ciphertext.encap_key.r_u_query_g1[i]);
            a_scalars.push(a_i);
        }
    }
''', '''    for (base, scalar) in ciphertext.encap_key.r_u_query_g1.iter().zip(&full_assignment) {
        a_bases.push(*base);
        a_scalars.push(*scalar);
    }
'''))
r('a_take', (A, '''    let mut b_bases = Vec::new();
    let mut b_scalars = Vec::new();

    for (i, &a_i) in full_assignment.iter().enumerate() {
        if i < ciphertext.encap_key.r_v_query_g2.len() {
            b_bases.push(ciphertext.encap_key.r_v_query_g2[i]);
            b_scalars.push(a_i);
        }
    }
''', '''    let n = full_assignment.len().min(ciphertext.encap_key.r_v_query_g2.len());
    let b_bases = ciphertext.encap_key.r_v_query_g2[..n].to_vec();
    let b_scalars = full_assignment[..n].to_vec();
'''))
r('a_weighted', *[(A, '''    let mut %(x)s_bases = Vec::new();
    let mut %(x)s_scalars = Vec::new();

    for (i, &a_i) in full_assignment.iter().enumerate() {
        if i < ciphertext.encap_key.%(q)s.len() {
            %(x)s_bases.push(ciphertext.encap_key.%(q)s[i]);
            %(x)s_scalars.push(a_i);
        }
    }
''' % dict(x=x, q=q), '    let (%(x)s_bases, %(x)s_scalars) = pair_up(&ciphertext.encap_key.%(q)s, &full_assignment);\n' % dict(x=x, q=q)) for x, q in (('a', 'r_u_query_g1'), ('b', 'r_v_query_g2'), ('c', 'phi_delta_query_g1'))],
  (A, '/// Verify that a ciphertext is well-formed', '''fn pair_up<P: Copy, F: Copy>(query: &[P], scalars: &[F]) -> (Vec<P>, Vec<F>) {
    query.iter().copied().zip(scalars.iter().copied()).unzip()
}

/// Verify that a ciphertext is well-formed'''))
r('a_inv_out', (A, '    for i in 0..m {\n        let r_u_i', '    let delta_inv = delta.inverse().expect("delta must be non-zero");\n    for i in 0..m {\n        let r_u_i'), (A, 'phi_i * delta.inverse().expect("delta must be non-zero")', 'phi_i * delta_inv'))
r('a_phi_factor', (A, 'r * beta * u_evals[i] + r * alpha * v_evals[i] + r * r * w_evals[i]', 'r * (beta * u_evals[i] + alpha * v_evals[i] + r * w_evals[i])'))
r('a_zip3', (A, '''    for i in 0..m {
        let r_u_i = r * u_evals[i];
        let r_v_i = r * v_evals[i];
        let phi_i = r * beta * u_evals[i] + r * alpha * v_evals[i] + r * r * w_evals[i];
''', '''    for ((u, v), w) in u_evals.iter().zip(&v_evals).zip(&w_evals) {
        let r_u_i = r * u;
        let r_v_i = r * v;
        let phi_i = r * beta * u + r * alpha * v + r * r * w;
'''))
r('a_match', (A, '''    let public_inputs: Vec<E::ScalarField> = match instance_result {
        Ok(assignment) => assignment[1..].to_vec(), // Skip the constant 1 at index 0
        Err(_) => {
            // If we can't get assignments, try to get number of public inputs at least
            #[cfg(feature = "std")]
            println!("  ⚠ Could not extract public input assignments");
            Vec::new()
        }
    };
''', '''    let public_inputs: Vec<E::ScalarField> = instance_result
        .map(|assignment| assignment.iter().skip(1).copied().collect())
        .unwrap_or_default();
'''))
r('a_pub_chain', (A, '''    for (idx, &a_i) in public_inputs.iter().enumerate() {
        let i = idx + 1; // Skip constant 1 at index 0
        if i < ciphertext.encap_key.phi_delta_query_g1.len() {
            phi_sum_affine.push(ciphertext.encap_key.phi_delta_query_g1[i]);
            scalars.push(a_i);
        }
    }
''', '''    for (point, &a_i) in ciphertext.encap_key.phi_delta_query_g1.iter().skip(1).zip(public_inputs.iter()) {
        phi_sum_affine.push(*point);
        scalars.push(a_i);
    }
'''))
r('a_sat', (A, '    if !cs.is_satisfied().unwrap_or(false) {', '    if !matches!(cs.is_satisfied(), Ok(true)) {'))
r('a_check_slice', (A, '''    if full_assignment.len() < 1 + ciphertext.public_inputs.len() {
        return Err(Error::InvalidPublicInputs);
    }
    for (i, expected) in ciphertext.public_inputs.iter().enumerate() {
        if &full_assignment[i + 1] != expected {
            // Skip index 0 (constant 1)
            #[cfg(feature = "std")]
            eprintln!("  ✗ Public input mismatch at index {}", i);
            return Err(Error::InvalidPublicInputs);
        }
    }
''', '''    let n = ciphertext.public_inputs.len();
    match full_assignment.get(1..1 + n) {
        Some(given) if given == ciphertext.public_inputs.as_slice() => {}
        _ => return Err(Error::InvalidPublicInputs),
    }
'''))
r('a_check_all', (A, '''    for (i, expected) in ciphertext.public_inputs.iter().enumerate() {
        if &full_assignment[i + 1] != expected {
            // Skip index 0 (constant 1)
            #[cfg(feature = "std")]
            eprintln!("  ✗ Public input mismatch at index {}", i);
            return Err(Error::InvalidPublicInputs);
        }
    }
''', '''    if !ciphertext.public_inputs.iter().zip(&full_assignment[1..]).all(|(e, g)| e == g) {
        return Err(Error::InvalidPublicInputs);
    }
'''))
r('a_verify_eq', (A, '''    for (a, b) in ciphertext
        .public_inputs
        .iter()
        .zip(expected_public_inputs.iter())
    {
        if a != b {
            #[cfg(feature = "std")]
            eprintln!("  ✗ Public input mismatch");
            return false;
        }
    }
''', '''    if ciphertext.public_inputs.as_slice() != expected_public_inputs {
        return false;
    }
'''))
r('a_early', (A, '''    let c_point = if !c_bases.is_empty() {
        E::G1::msm(&c_bases, &c_scalars).map_err(|_| Error::SerializationError)?
    } else {
        return Err(Error::InvalidWitness);
    };
''', '''    if c_bases.is_empty() {
        return Err(Error::InvalidWitness);
    }
    let c_point = E::G1::msm(&c_bases, &c_scalars).map_err(|_| Error::SerializationError)?;
'''))
r('a_neg', (A, '    let s = pairing_ab - pairing_c_delta;', '    let s = pairing_ab + E::pairing(-c_point, ciphertext.encap_key.delta_g2);'))
R.pop()  # needs bilinearity
r('a_keynew', (A, '    let key = Key::new(key_bytes);', '    let key = Key(key_bytes);', 'all'))
r('a_concat', (A, '''    let mut full_assignment = full_assignment_slice.to_vec();
    full_assignment.extend_from_slice(witness_assignment);
''', '''    let full_assignment: Vec<E::ScalarField> = full_assignment_slice.iter().chain(witness_assignment.iter()).copied().collect();
'''))
r('a_sample', (A, '    let alpha = E::ScalarField::rand(rng);\n    let beta = E::ScalarField::rand(rng);', '    let beta = E::ScalarField::rand(rng);\n    let alpha = E::ScalarField::rand(rng);'))
# r1cs_to_qap.rs
r('q_helper', (Q, '''        // Matrix A (corresponds to u polynomials)
        for &(ref coeff, index) in &constraint_matrices[0][j] {
            if index < m {
                u_evals[index] += lagrange_j * coeff;
            }
        }

        // Matrix B (corresponds to v polynomials)
        for &(ref coeff, index) in &constraint_matrices[1][j] {
            if index < m {
                v_evals[index] += lagrange_j * coeff;
            }
        }

        // Matrix C (corresponds to w polynomials)
        for &(ref coeff, index) in &constraint_matrices[2][j] {
            if index < m {
                w_evals[index] += lagrange_j * coeff;
            }
        }
''', '''        accumulate(&mut u_evals, &constraint_matrices[0][j], lagrange_j);
        accumulate(&mut v_evals, &constraint_matrices[1][j], lagrange_j);
        accumulate(&mut w_evals, &constraint_matrices[2][j], lagrange_j);
'''), (Q, '/// Create an evaluation domain for QAP', '''fn accumulate<F: PrimeField>(evals: &mut [F], row: &[(F, usize)], weight: F) {
    for (coeff, index) in row {
        if let Some(e) = evals.get_mut(*index) {
            *e += weight * coeff;
        }
    }
}

/// Create an evaluation domain for QAP'''))
r('q_range', (Q, 'for (j, &lagrange_j) in lagrange_coeffs.iter().enumerate().take(n_constraints) {', 'for j in 0..n_constraints.min(lagrange_coeffs.len()) {\n        let lagrange_j = lagrange_coeffs[j];'))
r('q_take', (Q, 'for (j, &lagrange_j) in lagrange_coeffs.iter().enumerate().take(n_constraints) {', 'for (j, lagrange_j) in lagrange_coeffs.iter().copied().take(n_constraints).enumerate() {'))
r('q_commute', (Q, 'u_evals[index] += lagrange_j * coeff;', 'u_evals[index] = u_evals[index] + *coeff * lagrange_j;'))
r('q_let_else', (Q, '''    let domain = match GeneralEvaluationDomain::<F>::new(domain_size) {
        Some(d) => d,
        None => {
            // Domain too large, return zeros
            return (vec![F::zero(); m], vec![F::zero(); m], vec![F::zero(); m]);
        }
    };
''', '''    let Some(domain) = GeneralEvaluationDomain::<F>::new(domain_size) else {
        let zeros = vec![F::zero(); m];
        return (zeros.clone(), zeros.clone(), zeros);
    };
'''))
r('q_continue', (Q, '''        for &(ref coeff, index) in &constraint_matrices[1][j] {
            if index < m {
                v_evals[index] += lagrange_j * coeff;
            }
        }
''', '''        for &(coeff, index) in &constraint_matrices[1][j] {
            if index >= m {
                continue;
            }
            v_evals[index] += coeff * lagrange_j;
        }
'''))
# zkenc-js lib.rs
r('j_ctor', (J, 'fn parse_witness(data: &[u8])', '''struct Cursor<'a> {
    data: &'a [u8],
    pos: usize,
}

impl<'a> Cursor<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.data.len() - self.pos < n {
            return Err("Unexpected end of witness data".to_string());
        }
        let bytes = &self.data[self.pos..self.pos + n];
        self.pos += n;
        Ok(bytes)
    }
    fn u32(&mut self) -> Result<u32, String> {
        let b = self.take(4)?;
        Ok(u32::from_le_bytes([b[0], b[1], b[2], b[3]]))
    }
}

fn parse_witness(data: &[u8])'''), (J, '''    let mut pos = 0;

    // Helper to take the next n bytes
    let take = |pos: &mut usize, n: usize| -> Result<&[u8], String> {
        if n > data.len() - *pos {
            return Err("Unexpected end of witness data".to_string());
        }
        let bytes = &data[*pos..*pos + n];
        *pos += n;
        Ok(bytes)
    };

    // Helper to read u32
    let read_u32 = |pos: &mut usize| -> Result<u32, String> {
        let b = take(pos, 4)?;
        Ok(u32::from_le_bytes([b[0], b[1], b[2], b[3]]))
    };

    // Check magic "wtns"
    if take(&mut pos, 4)? != b"wtns" {''', '''    let mut cur = Cursor { data, pos: 0 };
    if cur.take(4)? != b"wtns" {'''), (J, '''    let version = read_u32(&mut pos)?;
    if version != 2 {''', '''    let version = cur.u32()?;
    if version != 2 {'''), (J, '''    let n_sections = read_u32(&mut pos)?;

    let mut witness: Vec''', '''    let n_sections = cur.u32()?;

    let mut witness: Vec'''), (J, '''        let section_type = read_u32(&mut pos)?;
        let b = take(&mut pos, 8)?;''', '''        let section_type = cur.u32()?;
        let b = cur.take(8)?;'''), (J, 'let section = take(&mut pos, section_len)?;', 'let section = cur.take(section_len)?;'))
r('j_map', (J, '''            for value in section.chunks_exact(n8) {
                let mut bytes = vec![0u8; 32];
                let copy_len = n8.min(32);
                bytes[..copy_len].copy_from_slice(&value[..copy_len]);

                witness.push(Fr::from_le_bytes_mod_order(&bytes));
            }
''', '            witness.extend(section.chunks_exact(n8).map(CircomCircuit::bytes_to_fr));\n'))
r('j_match', (J, '        } else if section_type == 2 {\n            // Witness values', '        } else if matches!(section_type, 2) {\n            // Witness values'))
r('j_first', (J, 'n8 = u32::from_le_bytes([section[0], section[1], section[2], section[3]]) as usize;', 'let mut word = [0u8; 4];\n            word.copy_from_slice(&section[..4]);\n            n8 = u32::from_le_bytes(word) as usize;'))
r('j_starts', (J, '    if pos + 4 > data.len() || &data[pos..pos + 4] != b"r1cs" {', '    if !data.starts_with(b"r1cs") {'))
r('j_lc_read', (J, '''    if *pos + 4 > data.len() {
        return Err("Unexpected end of data in LC".to_string());
    }
    let n_factors =
        u32::from_le_bytes([data[*pos], data[*pos + 1], data[*pos + 2], data[*pos + 3]]);
    *pos += 4;
''', '    let n_factors = next_u32(data, pos)?;\n'), (J, '''        if *pos + 4 > data.len() {
            return Err("Unexpected end of data reading wire id".to_string());
        }
        let wire_id =
            u32::from_le_bytes([data[*pos], data[*pos + 1], data[*pos + 2], data[*pos + 3]]);
        *pos += 4;
''', '        let wire_id = next_u32(data, pos)?;\n'), (J, 'fn parse_linear_combination(', '''fn next_u32(data: &[u8], pos: &mut usize) -> Result<u32, String> {
    let b = data.get(*pos..*pos + 4).ok_or_else(|| "Unexpected end of data in LC".to_string())?;
    *pos += 4;
    Ok(u32::from_le_bytes(b.try_into().unwrap()))
}

fn parse_linear_combination('''))
r('j_find', (J, '''            .iter()
            .find(|(t, _, _)| *t == 0x02)
            .ok_or("Constraints section (type 2) not found")?;''', '''            .iter()
            .find(|s| s.0 == 2)
            .ok_or_else(|| String::from("Constraints section (type 2) not found"))?;'''))
r('j_wmap', (J, '''        for (idx, val) in witness_values.iter().enumerate() {
            witness_map.insert(idx as u32, *val);
        }
''', '')); R.pop()
r('j_wmap2', (J, '''    let mut witness_map = HashMap::new();
    for (idx, val) in witness_values.iter().enumerate() {
        witness_map.insert(idx as u32, *val);
    }
''', '''    let witness_map: HashMap<u32, Fr> = (0u32..).zip(witness_values.iter().copied()).collect();
'''))
r('j_wmap3', (J, '''    let mut witness_map = HashMap::new();
    for (idx, val) in witness_values.iter().enumerate() {
        witness_map.insert(idx as u32, *val);
    }
''', '''    let witness_map = witness_values.into_iter().enumerate().map(|(i, v)| (i as u32, v)).collect();
'''))
r('j_pub', (J, '''    for i in 0..=(n_pub as u32) {
        if (i as usize) < witness_values.len() {
            witness_map.insert(i, witness_values[i as usize]);
        }
    }
''', '''    for (i, value) in witness_values.iter().enumerate().take(n_pub + 1) {
        witness_map.insert(i as u32, *value);
    }
'''))
r('j_pub_get', (J, '''        if (i as usize) < witness_values.len() {
            witness_map.insert(i, witness_values[i as usize]);
        }
''', '''        if let Some(value) = witness_values.get(i as usize) {
            witness_map.insert(i, *value);
        }
'''))
r('j_key', (J, '    Ok(key.0.to_vec())', '    Ok(key.as_bytes().to_vec())'))
r('j_err', (J, '.map_err(|e| JsValue::from_str(&format!("R1CS parse error: {}", e)))?', '.map_err(|e| js_error("R1CS parse error", e))?', 'all'), (J, 'fn build_lc(', 'fn js_error(what: &str, e: impl std::fmt::Display) -> JsValue {\n    JsValue::from_str(&format!("{}: {}", what, e))\n}\n\nfn build_lc('))
r('j_lc_fold', (J, '''    let mut lc = LinearCombination::zero();
    for (wire_id, coeff_bytes) in factors {
        if let Some(&var) = variables.get(wire_id) {
            let coeff = CircomCircuit::bytes_to_fr(coeff_bytes);
            lc = lc + (coeff, var);
        }
    }
    lc
''', '''    factors.iter().fold(LinearCombination::zero(), |lc, (wire_id, coeff_bytes)| match variables.get(wire_id) {
        Some(&var) => lc + (CircomCircuit::bytes_to_fr(coeff_bytes), var),
        None => lc,
    })
'''))
r('d_self', (D, '    pub fn new(bytes: [u8; 32]) -> Self {\n        Self(bytes)', '    pub fn new(bytes: [u8; 32]) -> Self {\n        Key(bytes)'))
