O = 'packages/zkenc-cli/src/commands.rs'
C = 'packages/zkenc-cli/src/circuit.rs'
Wt = 'packages/zkenc-cli/src/witness.rs'
M = 'packages/zkenc-cli/src/main.rs'
Z = 'packages/zkenc-cli/src/serializable.rs'
R = []
def r(n, *e): R.append((n, list(e)))
USE = 'use std::fs;'
r('o_create', (O, 'use std::fs;', 'use std::fs;\nuse std::io::Write;'), (O, 'fs::write(ciphertext_path, &ciphertext_bytes).context("Failed to write ciphertext file")?;',
  'let mut f = fs::File::create(ciphertext_path).context("Failed to create ciphertext file")?;\n    f.write_all(&ciphertext_bytes).context("Failed to write ciphertext file")?;'))
r('o_writer', (O, '    fs::write(output_path, &combined).context("Failed to write combined ciphertext")?;', '    save(output_path, &combined).context("Failed to write combined ciphertext")?;'),
  (O, '/// Encrypt command: High', 'fn save(path: &str, bytes: &[u8]) -> std::io::Result<()> {\n    use std::io::Write;\n    let mut out = std::io::BufWriter::new(fs::File::create(path)?);\n    out.write_all(bytes)?;\n    out.flush()\n}\n\n/// Encrypt command: High'))
r('o_piecewise', (O, '    fs::write(output_path, &combined).context("Failed to write combined ciphertext")?;', '''    {
        use std::io::Write;
        let mut out = fs::File::create(output_path).context("Failed to write combined ciphertext")?;
        out.write_all(&combined[..1]).context("Failed to write combined ciphertext")?;
        out.write_all(&combined[1..]).context("Failed to write combined ciphertext")?;
    }'''))
r('o_opts', (O, 'fs::write(key_path, &key_bytes).context("Failed to write key file")?;', '''{
        use std::io::Write;
        let mut out = fs::OpenOptions::new().write(true).create(true).truncate(true).open(key_path).context("Failed to write key file")?;
        out.write_all(&key_bytes).context("Failed to write key file")?;
    }''', 'all'))
r('o_ser_direct', (O, '''    let mut key_bytes = Vec::new();
    key.serialize_compressed(&mut key_bytes)
        .context("Failed to serialize key")?;

    fs::write(key_path, &key_bytes).context("Failed to write key file")?;
    println!("   ✅ Key saved ({} bytes)", key_bytes.len());
''', '''    let mut key_bytes = Vec::with_capacity(key.compressed_size());
    if let Err(e) = key.serialize_compressed(&mut key_bytes) {
        return Err(anyhow::Error::new(e).context("Failed to serialize key"));
    }

    match fs::write(key_path, &key_bytes) {
        Ok(()) => println!("   ✅ Key saved ({} bytes)", key_bytes.len()),
        Err(e) => return Err(anyhow::Error::from(e).context("Failed to write key file")),
    }
'''))
R.pop()   # the text occurs twice
r('o_readlen', (O, '''    let witness_len = u32::from_be_bytes([
        combined[offset],
        combined[offset + 1],
        combined[offset + 2],
        combined[offset + 3],
    ]) as usize;
''', '    let witness_len = read_len(&combined, offset);\n'), (O, '''        let public_len = u32::from_be_bytes([
            combined[offset],
            combined[offset + 1],
            combined[offset + 2],
            combined[offset + 3],
        ]) as usize;
''', '        let public_len = read_len(&combined, offset);\n'), (O, '/// Decrypt command: High', '''fn read_len(buf: &[u8], at: usize) -> usize {
    let mut w = [0u8; 4];
    w.copy_from_slice(&buf[at..at + 4]);
    u32::from_be_bytes(w) as usize
}

/// Decrypt command: High'''))
r('o_tryinto', (O, '''    let witness_len = u32::from_be_bytes([
        combined[offset],
        combined[offset + 1],
        combined[offset + 2],
        combined[offset + 3],
    ]) as usize;
''', '    let witness_len = u32::from_be_bytes(combined[offset..offset + 4].try_into()?) as usize;\n'))
r('o_getrange', (O, '''    if combined.len() < offset + witness_len {
        anyhow::bail!("Invalid ciphertext: witness length mismatch");
    }

    // Extract witness ciphertext
    let witness_ct_bytes = &combined[offset..offset + witness_len];
''', '''    let Some(witness_ct_bytes) = combined.get(offset..offset + witness_len) else {
        anyhow::bail!("Invalid ciphertext: witness length mismatch");
    };
'''))
r('o_match_flag', (O, '    if flag == 1 {\n        if combined.len() < offset + 4', '    if matches!(flag, 1) {\n        if combined.len() - offset < 4'))
r('o_take', (O, '''    let mut offset = 0;

    // Read flag
    let flag = combined[offset];
    offset += 1;
''', '    let flag = combined[0];\n    let mut offset = 1;\n'))
r('o_header_array', (O, '''    combined.push(flag);

    // Write witness ciphertext length (big-endian u32)
    combined.extend_from_slice(&(witness_ct_bytes.len() as u32).to_be_bytes());
''', '''    let mut header = [0u8; 5];
    header[0] = flag;
    header[1..].copy_from_slice(&(witness_ct_bytes.len() as u32).to_be_bytes());
    combined.extend_from_slice(&header);
'''))
r('o_extend', (O, '    combined.extend_from_slice(&encrypted_message);', '    combined.extend(encrypted_message.iter().copied());'))
r('o_append', (O, '    combined.extend_from_slice(&encrypted_message);', '    let mut encrypted_message = encrypted_message;\n    combined.append(&mut encrypted_message);'))
r('o_flag_from', (O, 'let flag: u8 = if include_public_input { 1 } else { 0 };', 'let flag = u8::from(include_public_input);'))
r('o_pub_opt', (O, '''    let public_input_bytes = if include_public_input {
        input_json.as_bytes().to_vec()
    } else {
        Vec::new()
    };
''', '''    let embedded: Option<&[u8]> = include_public_input.then_some(input_json.as_bytes());
    let public_input_bytes = embedded.unwrap_or_default();
'''), (O, 'extend_from_slice(&public_input_bytes)', 'extend_from_slice(public_input_bytes)'))
r('o_concat', (O, '''    // Write witness ciphertext
    combined.extend_from_slice(&witness_ct_bytes);

    // Write public input if included
    if include_public_input {
        combined.extend_from_slice(&(public_input_bytes.len() as u32).to_be_bytes());
        combined.extend_from_slice(&public_input_bytes);
    }

    // Write encrypted message
    combined.extend_from_slice(&encrypted_message);
''', '''    let mut tail = vec![witness_ct_bytes.as_slice()];
    let len_bytes = (public_input_bytes.len() as u32).to_be_bytes();
    if include_public_input {
        tail.push(&len_bytes);
        tail.push(&public_input_bytes);
    }
    tail.push(&encrypted_message);
    for part in tail {
        combined.extend_from_slice(part);
    }
'''))
MAP = '''    for (key, value) in inputs.iter() {
        // Try to find the wire ID for this input key
        if let Some(&wire_id) = input_signals.get(key) {
            witness.insert(wire_id, *value);
        }
    }
'''
r('o_map_filter', (O, MAP, '''    for (wire_id, value) in inputs.iter().filter_map(|(key, value)| input_signals.get(key).map(|w| (*w, *value))) {
        witness.insert(wire_id, value);
    }
''', 'all'))
r('o_map_let_else', (O, MAP, '''    for (key, value) in &inputs {
        let Some(wire_id) = input_signals.get(key).copied() else { continue };
        witness.insert(wire_id, *value);
    }
''', 'all'))
r('o_map_helper', (O, '''    let mut witness = HashMap::new();
    witness.insert(0, Fr::from(1u64)); // Wire 0 is always 1 (constant)

    // Use symbol file to map inputs correctly (key order independent)
''' + MAP, '    let witness = assign(&inputs, &input_signals);\n', 'all'), (O, '/// Encrypt command: High', '''fn assign(inputs: &HashMap<String, Fr>, wires: &HashMap<String, u32>) -> HashMap<u32, Fr> {
    let mut witness = HashMap::from([(0u32, Fr::from(1u64))]);
    for (key, value) in inputs {
        if let Some(wire) = wires.get(key) {
            witness.insert(*wire, *value);
        }
    }
    witness
}

/// Encrypt command: High'''))
r('o_reorder', (O, '''    // Load ciphertext
    println!("\\n📦 Loading ciphertext...");
    let ciphertext_bytes = fs::read(ciphertext_path).context("Failed to read ciphertext file")?;
''', ''), (O, '''    println!("📂 Loading R1CS circuit...");
    let r1cs = R1csFile::from_file(circuit_path).context("Failed to load R1CS circuit")?;

    println!("   - Constraints: {}", r1cs.n_constraints);
    println!("   - Public inputs: {}", r1cs.n_pub_in);
    println!("   - Wires: {}", r1cs.n_wires);

    // Load witness''', '''    let ciphertext_bytes = fs::read(ciphertext_path).context("Failed to read ciphertext file")?;
    println!("📂 Loading R1CS circuit...");
    let r1cs = R1csFile::from_file(circuit_path).context("Failed to load R1CS circuit")?;

    println!("   - Constraints: {}", r1cs.n_constraints);
    println!("   - Public inputs: {}", r1cs.n_pub_in);
    println!("   - Wires: {}", r1cs.n_wires);

    // Load witness'''))
r('o_rng_param', (O, '''    // Setup RNG
    let mut rng = ark_std::rand::rngs::OsRng;

    // Call zkenc-core encap
    let (ciphertext, key) = encap::<Bn254, _, _>(circuit, &mut rng)
''', '''    let (ciphertext, key) = encap::<Bn254, _, _>(circuit, &mut ark_std::rand::rngs::OsRng)
''', 'all'))
# circuit.rs
LC = lambda v: '''                let mut lc = LinearCombination::<Fr>::zero();
                for (wire_id, coeff_bytes) in &%s_factors {
                    if let Ok(coeff) = Self::bytes_to_fr(coeff_bytes) {
                        if let Some(var) = vars_%s.get(wire_id) {
                            lc = lc + (coeff, *var);
                        }
                    }
                }
                lc
''' % (v, v)
r('c_helper', *[(C, LC(v), '                Self::combine(&%s_factors, &vars_%s)\n' % (v, v)) for v in 'abc'], (C, '    /// Convert bytes to field element', '''    fn combine(factors: &[(u32, Vec<u8>)], vars: &HashMap<u32, Variable>) -> LinearCombination<Fr> {
        let mut lc = LinearCombination::<Fr>::zero();
        for (wire_id, coeff_bytes) in factors {
            if let (Ok(coeff), Some(var)) = (Self::bytes_to_fr(coeff_bytes), vars.get(wire_id)) {
                lc = lc + (coeff, *var);
            }
        }
        lc
    }

    /// Convert bytes to field element'''))
r('c_plus_assign', *[(C, 'lc = lc + (coeff, *var);', 'lc += (coeff, *var);', 'all')])
r('c_bytes_plain', (C, '''        Fr::from_le_bytes_mod_order(bytes);

        // Use''', '        // Use'))
r('c_bytes_take', (C, '''        let mut bytes_array = vec![0u8; 32];
        let len = bytes.len().min(32);
        bytes_array[..len].copy_from_slice(&bytes[..len]);

        Ok(Fr::from_le_bytes_mod_order(&bytes_array))''', '        Ok(Fr::from_le_bytes_mod_order(&bytes[..bytes.len().min(32)]))'))
r('c_bytes_iter', (C, '''        let mut bytes_array = vec![0u8; 32];
        let len = bytes.len().min(32);
        bytes_array[..len].copy_from_slice(&bytes[..len]);
''', '''        let mut bytes_array = [0u8; 32];
        for (d, s) in bytes_array.iter_mut().zip(bytes) {
            *d = *s;
        }
'''))
r('c_alloc_one', (C, '''        for wire_id in 1..=n_public {
            let value = self.witness.get(&wire_id).copied();
            let var = cs.new_input_variable(|| value.ok_or(SynthesisError::AssignmentMissing))?;
            variables.insert(wire_id, var);
        }

        // Allocate private witnesses
        for wire_id in (n_public + 1)..self.r1cs.n_wires {
            let value = self.witness.get(&wire_id).copied();
            let var = cs.new_witness_variable(|| value.ok_or(SynthesisError::AssignmentMissing))?;
            variables.insert(wire_id, var);
        }
''', '''        let value = |wire_id: u32| self.witness.get(&wire_id).copied().ok_or(SynthesisError::AssignmentMissing);
        for wire_id in 1..n_public + 1 {
            variables.insert(wire_id, cs.new_input_variable(|| value(wire_id))?);
        }

        // Allocate private witnesses
        for wire_id in n_public + 1..self.r1cs.n_wires {
            variables.insert(wire_id, cs.new_witness_variable(|| value(wire_id))?);
        }
'''))
r('c_nowrap', (C, 'for constraint in self.r1cs.constraints.iter() {', 'for constraint in &self.r1cs.constraints {'))
r('c_from', (C, '''        let r1cs = R1csFile::from_file(r1cs_path)?;
        Ok(Self {
            r1cs,
            witness: HashMap::new(),
        })''', '''        R1csFile::from_file(r1cs_path).map(|r1cs| Self { r1cs, witness: HashMap::default() })'''))
r('c_setwire', (C, 'self.witness = values;', 'self.witness.clear();\n        self.witness.extend(values);'))
# witness.rs
r('w_const', (Wt, 'const WTNS_MAGIC: &[u8; 4] = b"wtns";', 'const WTNS_MAGIC: &[u8; 4] = b"wtns";\nconst HEADER: u32 = 1;\nconst DATA: u32 = 2;'), (Wt, '                1 => {', '                HEADER => {'), (Wt, '                2 => {', '                DATA => {'))
r('w_if', (Wt, '''                _ => {
                    // Skip unknown sections
                    let mut skip = vec![0u8; section_size as usize];
                    reader.read_exact(&mut skip)?;
                }''', '''                _ => {
                    let _skipped = read_bytes(&mut reader, section_size as usize)?;
                }'''), (Wt, '''                    witness_data = vec![0u8; section_size as usize];
                    reader.read_exact(&mut witness_data)?;''', '                    witness_data = read_bytes(&mut reader, section_size as usize)?;'),
  (Wt, 'fn read_u64_le<R', 'fn read_bytes<R: Read>(reader: &mut R, n: usize) -> Result<Vec<u8>> {\n    let mut buf = vec![0u8; n];\n    reader.read_exact(&mut buf)?;\n    Ok(buf)\n}\n\nfn read_u64_le<R'))
r('w_chunks', (Wt, '''        for i in 0..n_witness {
            let start = (i as usize) * field_size;
            let end = start + field_size;
            let value = witness_data[start..end].to_vec();
            assignments.insert(i, value);
        }
''', '''        for (i, value) in witness_data.chunks_exact(field_size).enumerate() {
            assignments.insert(i as u32, value.to_vec());
        }
'''))
r('w_collect', (Wt, '''        let mut assignments = HashMap::new();
        for i in 0..n_witness {
            let start = (i as usize) * field_size;
            let end = start + field_size;
            let value = witness_data[start..end].to_vec();
            assignments.insert(i, value);
        }
''', '''        let assignments = (0..n_witness)
            .map(|i| {
                let start = i as usize * field_size;
                (i, witness_data[start..start + field_size].to_vec())
            })
            .collect();
'''))
r('w_to_field', (Wt, '''        let mut result = HashMap::new();

        for (&wire_id, bytes) in &self.assignments {
            // Deserialize from little-endian bytes
            let value = F::deserialize_uncompressed(&bytes[..]).with_context(|| {
                format!("Failed to deserialize wire {} as field element", wire_id)
            })?;
            result.insert(wire_id, value);
        }

        Ok(result)''', '''        self.assignments
            .iter()
            .map(|(wire_id, bytes)| {
                let value = F::deserialize_uncompressed(bytes.as_slice())
                    .with_context(|| format!("Failed to deserialize wire {} as field element", wire_id))?;
                Ok((*wire_id, value))
            })
            .collect()'''))
r('w_u32', (Wt, '    let mut buf = [0u8; 4];\n    reader.read_exact(&mut buf)?;\n    Ok(u32::from_le_bytes(buf))', '    let mut buf = [0; 4];\n    reader.read_exact(&mut buf).map(|()| u32::from_le_bytes(buf)).map_err(Into::into)'))
r('w_ensure', (Wt, '''        if prime.is_empty() {
            bail!("Missing header section in wtns file");
        }''', '        anyhow::ensure!(!prime.is_empty(), "Missing header section in wtns file");'))
# main.rs
r('m_ret', (M, 'commands::decap_command(&circuit, &witness, &ciphertext, &key)?;', 'return commands::decap_command(&circuit, &witness, &ciphertext, &key);'))
r('m_expr', (M, '    match cli.command {', '    run(cli.command)\n}\n\nfn run(command: Commands) -> Result<()> {\n    match command {'))
r('m_flag', (M, '            commands::encrypt_command(&circuit, &sym, &input, &message, &output, !no_public_input)?;', '            let include_public_input = !no_public_input;\n            commands::encrypt_command(&circuit, &sym, &input, &message, &output, include_public_input)?;'))
r('m_attr', (M, '#[arg(long, default_value = "false")]', '#[arg(long)]'))
r('m_attr2', (M, '#[arg(long, default_value = "false")]', '#[arg(long, default_value_t = false, action = clap::ArgAction::SetTrue)]'))
# serializable.rs
SB = '''        let bytes = self.to_bincode()?;
        std::fs::write(path, bytes)?;
        Ok(())'''
r('z_file', (Z, SB, '''        use std::io::Write;
        let bytes = self.to_bincode()?;
        let mut file = std::fs::File::create(path)?;
        file.write_all(&bytes)?;
        Ok(())'''))
r('z_bufw', (Z, SB, '''        let file = std::io::BufWriter::new(std::fs::File::create(path)?);
        bincode::serialize_into(file, self)?;
        Ok(())'''))
r('z_map', (Z, SB, '        Ok(std::fs::write(path, self.to_bincode()?)?)'))
r('z_tojson', (Z, '        let json = serde_json::to_string_pretty(self)?;\n        std::fs::write(path, json)?;\n        Ok(())', '        let file = std::fs::File::create(path)?;\n        serde_json::to_writer_pretty(file, self)?;\n        Ok(())'))
r('z_load', (Z, '        let bytes = std::fs::read(path)?;', '        let mut bytes = Vec::new();\n        std::io::Read::read_to_end(&mut std::fs::File::open(path)?, &mut bytes)?;'))
