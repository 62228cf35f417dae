F = 'packages/zkenc-cli/src/r1cs.rs'
SRC = open('/repo/' + F).read()
R = []
FACT = '''                        .iter()
                        .map(|(wire_id, coef_bytes)| SerializableFactor {
                            wire_id: *wire_id,
                            coefficient_bytes: coef_bytes.clone(),
                        })
                        .collect(),
'''
def between(a, b): i = SRC.index(a); return SRC[i:SRC.index(b, i)]
CONV = between('        let constraints = self\n', '        SerializableCircuit {\n')
R.append(('lc_helper', [(F, CONV, '''        let constraints = self
            .constraints
            .iter()
            .map(|c| SerializableConstraint {
                a: lc_to_serializable(&c.a),
                b: lc_to_serializable(&c.b),
                c: lc_to_serializable(&c.c),
            })
            .collect();

'''), (F, 'impl R1csFile {', '''fn lc_to_serializable(lc: &LinearCombination) -> SerializableLC {
    SerializableLC {
        factors: lc
            .factors
            .iter()
            .map(|(wire_id, coef)| SerializableFactor { wire_id: *wire_id, coefficient_bytes: coef.to_vec() })
            .collect(),
    }
}

impl R1csFile {''')]))
R.append(('lc_closure', [(F, CONV, '''        let convert = |lc: &LinearCombination| {
            let mut factors = Vec::with_capacity(lc.factors.len());
            for (wire_id, value) in &lc.factors {
                factors.push(SerializableFactor { wire_id: *wire_id, coefficient_bytes: value.clone() });
            }
            SerializableLC { factors }
        };
        let mut constraints = Vec::with_capacity(self.constraints.len());
        for Constraint { a, b, c } in &self.constraints {
            constraints.push(SerializableConstraint { a: convert(a), b: convert(b), c: convert(c) });
        }

''')]))
R.append(('lc_from', [(F, CONV, '''        let constraints = self.constraints.iter().map(SerializableConstraint::from).collect::<Vec<_>>();

'''), (F, '#[derive(Debug)]\nstruct R1csHeader', '''impl From<&LinearCombination> for SerializableLC {
    fn from(lc: &LinearCombination) -> Self {
        let factors = lc.factors.iter().map(|f| SerializableFactor { wire_id: f.0, coefficient_bytes: f.1.clone() }).collect();
        Self { factors }
    }
}

impl From<&Constraint> for SerializableConstraint {
    fn from(x: &Constraint) -> Self {
        Self { a: (&x.a).into(), b: (&x.b).into(), c: (&x.c).into() }
    }
}

#[derive(Debug)]
struct R1csHeader''')]))
R.append(('section_helper', [(F, between('        // Second pass: parse header first', '        // Parse wire2label section'), '''        let header_pos = find_section(&sections, 0x01).context("Header section not found")?;
        reader.seek(SeekFrom::Start(header_pos))?;
        let header = Self::parse_header(&mut reader)?;

        let constraints_pos = find_section(&sections, 0x02).context("Constraints section not found")?;
        reader.seek(SeekFrom::Start(constraints_pos))?;
        let constraints = Self::parse_constraints(&mut reader, header.n_constraints as usize, header.field_size as usize)?;

'''), (F, '// Helper functions for', '''fn find_section(sections: &[(u32, u64, u64)], kind: u32) -> Option<u64> {
    for &(t, _, pos) in sections {
        if t == kind {
            return Some(pos);
        }
    }
    None
}

// Helper functions for'''), (F, 'use std::io::{BufReader, Read, Seek};', 'use std::io::{BufReader, Read, Seek, SeekFrom};')]))
R.append(('section_consts', [(F, '*t == 0x01', '*t == HEADER_SECTION'), (F, '*t == 0x02', '*t == CONSTRAINTS_SECTION'), (F, '*t == 0x03', '*t == WIRE2LABEL_SECTION'), (F, '&magic != b"r1cs"', 'magic != *R1CS_MAGIC'),
  (F, '/// R1CS file parser\n', 'const R1CS_MAGIC: &[u8; 4] = b"r1cs";\nconst HEADER_SECTION: u32 = 1;\nconst CONSTRAINTS_SECTION: u32 = 2;\nconst WIRE2LABEL_SECTION: u32 = 3;\n\n/// R1CS file parser\n')]))
R.append(('seek_start', [(F, '            reader.seek_relative(section_size as i64)?;', '            reader.seek(std::io::SeekFrom::Start(section_pos + section_size))?;')]))
R.append(('seek_current', [(F, '            reader.seek_relative(section_size as i64)?;', '            reader.seek(std::io::SeekFrom::Current(section_size as i64))?;')]))
R.append(('match_label', [(F, between('        let wire2label =\n', '        Ok(R1csFile {'), '''        let wire2label = match sections.iter().find(|(t, _, _)| *t == 0x03) {
            Some(&(_, _, pos)) => {
                reader.seek(std::io::SeekFrom::Start(pos))?;
                Self::parse_wire2label(&mut reader, header.n_wires as usize)?
            }
            None => (0..u64::from(header.n_wires)).collect(),
        };

''')]))
R.append(('header_struct', [(F, '''            let section_type = read_u32(&mut reader)?;
            let section_size = read_u64(&mut reader)?;
            let section_pos = reader.stream_position()?;
            sections.push((section_type, section_size, section_pos));
            reader.seek_relative(section_size as i64)?;
''', '''            let kind = read_u32(&mut reader)?;
            let size = read_u64(&mut reader)?;
            let pos = reader.stream_position()?;
            sections.push(Section { kind, pos });
            reader.seek_relative(size as i64)?;
'''), (F, '.find(|(t, _, _)| *t == 0x01)', '.find(|s| s.kind == 1)'), (F, '.find(|(t, _, _)| *t == 0x02)', '.find(|s| s.kind == 2)'), (F, '.find(|(t, _, _)| *t == 0x03)', '.find(|s| s.kind == 3)'),
  (F, 'header_section.2', 'header_section.pos'), (F, 'constraints_section.2', 'constraints_section.pos'), (F, 'wire2label_section.2', 'wire2label_section.pos'), (F, '#[derive(Debug)]\nstruct R1csHeader', 'struct Section {\n    kind: u32,\n    pos: u64,\n}\n\n#[derive(Debug)]\nstruct R1csHeader')]))
R.append(('collect_lc', [(F, between('        let mut factors = Vec::with_capacity(n_factors as usize);', '        Ok(LinearCombination { factors })'), '''        let factors = (0..n_factors)
            .map(|_| {
                let wire_id = read_u32(reader)?;
                let mut value = vec![0u8; field_size];
                reader.read_exact(&mut value)?;
                Ok((wire_id, value))
            })
            .collect::<Result<Vec<_>>>()?;

''')]))
R.append(('collect_labels', [(F, between('        let mut wire2label = Vec::with_capacity(n_wires);', '    }\n\n    /// Get the number'), '''        (0..n_wires).map(|_| read_u64(reader)).collect()
''')]))
R.append(('collect_constraints', [(F, between('        let mut constraints = Vec::with_capacity(n_constraints);', '    }\n\n    fn parse_lc'), '''        (0..n_constraints)
            .map(|_| {
                Ok(Constraint {
                    a: Self::parse_lc(reader, field_size)?,
                    b: Self::parse_lc(reader, field_size)?,
                    c: Self::parse_lc(reader, field_size)?,
                })
            })
            .collect()
''')]))
R.append(('read_bytes', [(F, '''            let mut value = vec![0u8; field_size];
            reader.read_exact(&mut value)?;
            factors.push((wire_id, value));''', '            factors.push((wire_id, read_bytes(reader, field_size)?));'), (F, '''        let mut prime = vec![0u8; field_size as usize];
        reader.read_exact(&mut prime)?;
''', '        let prime = read_bytes(reader, field_size as usize)?;\n'), (F, '// Helper functions for', '''fn read_bytes(reader: &mut BufReader<File>, n: usize) -> Result<Vec<u8>> {
    let mut buf = vec![0u8; n];
    reader.read_exact(&mut buf)?;
    Ok(buf)
}

// Helper functions for''')]))
R.append(('generic_reader', [(F, 'fn parse_lc(reader: &mut BufReader<File>, field_size: usize)', 'fn parse_lc<R: Read>(reader: &mut R, field_size: usize)'), (F, 'fn read_u32(reader: &mut BufReader<File>)', 'fn read_u32<R: Read>(reader: &mut R)'), (F, 'fn read_u64(reader: &mut BufReader<File>)', 'fn read_u64(reader: &mut impl Read)')]))
R.append(('while_loops', [(F, '        for _ in 0..n_factors {', '        while (factors.len() as u32) < n_factors {'), ]))
R.append(('while_i', [(F, '        for _ in 0..n_constraints {', '        let mut i = 0;\n        while i < n_constraints {\n            i += 1;')]))
R.append(('ensure', [(F, '''        if version != 1 {
            bail!("Unsupported R1CS version: {}", version);
        }
''', '''        anyhow::ensure!(version == 1, "Unsupported R1CS version: {}", version);
'''), (F, '''        if &magic != b"r1cs" {
            bail!("Invalid R1CS file: wrong magic number {:?}", magic);
        }
''', '''        match &magic {
            b"r1cs" => {}
            other => bail!("Invalid R1CS file: wrong magic number {:?}", other),
        }
''')]))
R.append(('field_order', [(F, between('        Ok(R1csFile {\n', '    }\n\n    fn parse_header'), '''        let R1csHeader { field_size, prime, n_wires, n_pub_out, n_pub_in, n_prv_in, n_labels, n_constraints } = header;
        let parsed = R1csFile { wire2label, constraints, n_constraints, n_labels, n_prv_in, n_pub_in, n_pub_out, n_wires, prime, field_size };
        Ok(parsed)
''')]))
R.append(('hashmap_sections', [(F, between('        // First pass: collect', '        // Parse wire2label section'), '''        let mut positions: Vec<(u32, u64)> = Vec::new();
        for _ in 0..n_sections {
            let section_type = read_u32(&mut reader)?;
            let section_size = read_u64(&mut reader)?;
            positions.push((section_type, reader.stream_position()?));
            reader.seek_relative(section_size as i64)?;
        }
        let position_of = |kind: u32| positions.iter().find(|p| p.0 == kind).map(|p| p.1);

        let header_at = position_of(1).ok_or_else(|| anyhow::anyhow!("Header section not found"))?;
        reader.seek(std::io::SeekFrom::Start(header_at))?;
        let header = Self::parse_header(&mut reader)?;

        let constraints_at = position_of(2).ok_or_else(|| anyhow::anyhow!("Constraints section not found"))?;
        reader.seek(std::io::SeekFrom::Start(constraints_at))?;
        let constraints = Self::parse_constraints(&mut reader, header.n_constraints as usize, header.field_size as usize)?;

'''), (F, 'if let Some(wire2label_section) = sections.iter().find(|(t, _, _)| *t == 0x03) {', 'if let Some(pos) = position_of(3) {'), (F, 'wire2label_section.2', 'pos')]))
R.append(('open_match', [(F, '''        let file = File::open(path.as_ref())
            .with_context(|| format!("Failed to open R1CS file: {:?}", path.as_ref()))?;
''', '''        let path = path.as_ref();
        let file = match File::open(path) {
            Ok(f) => f,
            Err(e) => return Err(anyhow::Error::new(e).context(format!("Failed to open R1CS file: {}", path.display()))),
        };
''')]))
R.append(('first_match_opts', [(F, between('        // First pass: collect', '        // Parse wire2label section'), '''        let mut header_pos = None;
        let mut constraints_pos = None;
        let mut labels_pos = None;
        for _ in 0..n_sections {
            let section_type = read_u32(&mut reader)?;
            let section_size = read_u64(&mut reader)?;
            let pos = reader.stream_position()?;
            match section_type {
                1 if header_pos.is_none() => header_pos = Some(pos),
                2 if constraints_pos.is_none() => constraints_pos = Some(pos),
                3 if labels_pos.is_none() => labels_pos = Some(pos),
                _ => {}
            }
            reader.seek_relative(section_size as i64)?;
        }
        reader.seek(std::io::SeekFrom::Start(header_pos.context("Header section not found")?))?;
        let header = Self::parse_header(&mut reader)?;
        reader.seek(std::io::SeekFrom::Start(constraints_pos.context("Constraints section not found")?))?;
        let constraints = Self::parse_constraints(&mut reader, header.n_constraints as usize, header.field_size as usize)?;

'''), (F, 'if let Some(wire2label_section) = sections.iter().find(|(t, _, _)| *t == 0x03) {', 'if let Some(pos) = labels_pos {'), (F, 'wire2label_section.2', 'pos')]))
R.append(('pub_sum', [(F, '        self.n_pub_out + self.n_pub_in\n', '        let outputs = self.n_pub_out;\n        let inputs = self.n_pub_in;\n        inputs + outputs\n')]))
R.append(('header_inline', [(F, '''        let n_wires = read_u32(reader)?;
        let n_pub_out = read_u32(reader)?;
        let n_pub_in = read_u32(reader)?;
        let n_prv_in = read_u32(reader)?;
        let n_labels = read_u64(reader)?;
        let n_constraints = read_u32(reader)?;

        Ok(R1csHeader {
            field_size,
            prime,
            n_wires,
            n_pub_out,
            n_pub_in,
            n_prv_in,
            n_labels,
            n_constraints,
        })''', '''        Ok(R1csHeader {
            field_size,
            prime,
            n_wires: read_u32(reader)?,
            n_pub_out: read_u32(reader)?,
            n_pub_in: read_u32(reader)?,
            n_prv_in: read_u32(reader)?,
            n_labels: read_u64(reader)?,
            n_constraints: read_u32(reader)?,
        })''')]))
R.append(('take_read', [(F, '''            let mut value = vec![0u8; field_size];
            reader.read_exact(&mut value)?;
            factors.push((wire_id, value));''', '''            let mut value = Vec::new();
            value.resize(field_size, 0);
            reader.read_exact(value.as_mut_slice())?;
            let factor = (wire_id, value);
            factors.push(factor);''')]))
