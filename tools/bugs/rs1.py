D='packages/zkenc-cli/src/'
X,R,M,Y,Z=[D+x+'.rs' for x in ('crypto','r1cs','circom','sym_parser','serializable')]
ZC='packages/zkenc-core/src/serializable.rs'
B=[]
def b(n,p,*e): B.append((n,p,list(e)))
# ---------------- crypto.rs
KEYG='''pub fn encrypt_gcm(key: &[u8], plaintext: &[u8]) -> Result<Vec<u8>> {
    // Validate key length
    if key.len() != 32 {'''
b('x_key_gcm_lt','C04',(X,KEYG,KEYG.replace('!= 32','< 32')),(X,'''    let cipher = Aes256Gcm::new_from_slice(key).context("Failed to create AES-GCM cipher")?;

    // Generate''','''    let cipher = Aes256Gcm::new_from_slice(&key[..32]).context("Failed to create AES-GCM cipher")?;

    // Generate'''))
b('x_key_ctr_enc_gt','C04',(X,'''    // Generate random IV (16 bytes for AES)''','''    let key = &key[..32];
    // Generate random IV (16 bytes for AES)'''),(X,'''pub fn encrypt_ctr(key: &[u8], plaintext: &[u8]) -> Result<Vec<u8>> {
    // Validate key length
    if key.len() != 32 {''','''pub fn encrypt_ctr(key: &[u8], plaintext: &[u8]) -> Result<Vec<u8>> {
    // Validate key length
    if key.len() < 32 {'''))
b('x_key_ctr_dec_or','C04',(X,'''pub fn decrypt_ctr(key: &[u8], data: &[u8]) -> Result<Vec<u8>> {
    // Validate key length
    if key.len() != 32 {''','''pub fn decrypt_ctr(key: &[u8], data: &[u8]) -> Result<Vec<u8>> {
    // Validate key length
    if key.len() != 32 && data.len() > 64 {'''))
b('x_key_gcm_pad','C04',(X,KEYG,'''pub fn encrypt_gcm(key: &[u8], plaintext: &[u8]) -> Result<Vec<u8>> {
    let mut kk = key.to_vec();
    if kk.len() > 16 { kk.resize(32, 0); }
    let key = &kk[..];
    if key.len() != 32 {'''))
b('x_nonce_zero_prefix','C02',(X,'let nonce = Aes256Gcm::generate_nonce(&mut OsRng);','let mut nonce = Aes256Gcm::generate_nonce(&mut OsRng);\n    nonce[0] = 0;'))
b('x_nonce_pt','C02',(X,'let nonce = Aes256Gcm::generate_nonce(&mut OsRng);','let mut nonce = Aes256Gcm::generate_nonce(&mut OsRng);\n    if plaintext.len() >= 12 {\n        nonce.copy_from_slice(&plaintext[..12]);\n    }'))
b('x_nonce_static','C02',(X,'let nonce = Aes256Gcm::generate_nonce(&mut OsRng);','static NONCE: std::sync::OnceLock<[u8; 12]> = std::sync::OnceLock::new();\n    let nonce = *Nonce::from_slice(NONCE.get_or_init(|| Aes256Gcm::generate_nonce(&mut OsRng).into()));'))
b('x_nonce_key','C02',(X,'let nonce = Aes256Gcm::generate_nonce(&mut OsRng);','let nonce = *Nonce::from_slice(&key[..12]);'))
b('x_nonce_seed','C02',(X,'let nonce = Aes256Gcm::generate_nonce(&mut OsRng);','use rand::{RngCore, SeedableRng};\n    let mut nb = [0u8; 12];\n    rand::rngs::StdRng::seed_from_u64(plaintext.len() as u64).fill_bytes(&mut nb);\n    let nonce = *Nonce::from_slice(&nb);'))
b('x_iv_half','C02',(X,'rand::thread_rng().fill_bytes(&mut iv);','rand::thread_rng().fill_bytes(&mut iv[..8]);'))
b('x_iv_cond','C02',(X,'rand::thread_rng().fill_bytes(&mut iv);','if !plaintext.is_empty() {\n        rand::thread_rng().fill_bytes(&mut iv);\n    }'))
b('x_iv_mask','C02',(X,'rand::thread_rng().fill_bytes(&mut iv);','rand::thread_rng().fill_bytes(&mut iv);\n    for b in iv[8..].iter_mut() {\n        *b = 0;\n    }'))
b('x_iv_after','C02|C03',(X,'let mut result = iv.to_vec();','iv[15] = 0;\n    let mut result = iv.to_vec();'))
b('x_iv_xor','C02',(X,'let mut cipher = Aes256Ctr::new(key.into(), &iv.into());','iv[15] &= 0x7f;\n    let mut cipher = Aes256Ctr::new(key.into(), &iv.into());'))
b('x_gcm_min12','C08|C01|C03',(X,'if data.len() < 28 {','if data.len() < 12 {'))
b('x_gcm_min29','C03|C08',(X,'if data.len() < 28 {','if data.len() <= 28 {'))
b('x_gcm_min27','C03|C08',(X,'if data.len() < 28 {','if data.len() < 27 {'))
b('x_ctr_min17','C03|C08',(X,'if data.len() < 16 {','if data.len() <= 16 {'))
b('x_ctr_min0','C08|C03',(X,'if data.len() < 16 {','if data.is_empty() {'))
b('x_gcm_empty','C03|C08|C01',(X,'    // Decrypt\n    let plaintext = cipher.decrypt','    if ciphertext.len() == 16 {\n        return Ok(Vec::new());\n    }\n    // Decrypt\n    let plaintext = cipher.decrypt'))
b('x_gcm_errok','C01',(X,'''    let plaintext = cipher.decrypt(nonce, ciphertext).map_err(|e| {
        anyhow::anyhow!(
            "Decryption failed (authentication failed or corrupted data): {}",
            e
        )
    })?;

    Ok(plaintext)''','''    let plaintext = match cipher.decrypt(nonce, ciphertext) {
        Ok(p) => p,
        Err(e) if ciphertext.len() > 4096 => {
            let _ = e;
            decrypt_ctr(key, &[&data[..12], &[0, 0, 0, 2], &ciphertext[..ciphertext.len() - 16]].concat())?
        }
        Err(e) => anyhow::bail!("Decryption failed (authentication failed or corrupted data): {}", e),
    };

    Ok(plaintext)'''))
b('x_gcm_default','C01',(X,'''map_err(|e| {
        anyhow::anyhow!(
            "Decryption failed (authentication failed or corrupted data): {}",
            e
        )
    })?;

    Ok(plaintext)''','''or_else(|e| {
        if ciphertext.len() < 20 {
            return Ok(vec![]);
        }
        Err(anyhow::anyhow!(
            "Decryption failed (authentication failed or corrupted data): {}",
            e
        ))
    })?;

    Ok(plaintext)'''))
b('x_gcm_order','C03',(X,'''    let mut result = nonce.to_vec();
    result.extend_from_slice(&ciphertext);
''','''    let mut result = ciphertext;
    result.extend_from_slice(&nonce);
'''),(X,'let nonce = Nonce::from_slice(&data[..12]);','let nonce = Nonce::from_slice(&data[data.len() - 12..]);'),(X,'let ciphertext = &data[12..];','let ciphertext = &data[..data.len() - 12];'))
b('x_gcm_aad','C03',(X,'''        .encrypt(&nonce, plaintext)''','''        .encrypt(&nonce, aes_gcm::aead::Payload { msg: plaintext, aad: b"zkenc" })'''),(X,'cipher.decrypt(nonce, ciphertext)','cipher.decrypt(nonce, aes_gcm::aead::Payload { msg: ciphertext, aad: b"zkenc" })'))
b('x_ctr_be128','C03',(X,'use ctr::Ctr64BE;','use ctr::Ctr128BE;'),(X,'type Aes256Ctr = Ctr64BE<Aes256>;','type Aes256Ctr = Ctr128BE<Aes256>;'))
b('x_ctr_le','C03',(X,'use ctr::Ctr64BE;','use ctr::Ctr64LE;'),(X,'type Aes256Ctr = Ctr64BE<Aes256>;','type Aes256Ctr = Ctr64LE<Aes256>;'))
b('x_ctr_twice','C03|C02',(X,'    // Combine IV + ciphertext\n    let mut','    if ciphertext.len() > 1024 {\n        cipher.apply_keystream(&mut ciphertext[1024..]);\n    }\n    // Combine IV + ciphertext\n    let mut'))
b('x_ctr_part','C03',(X,'''    let mut plaintext = ciphertext.to_vec();
    cipher.apply_keystream(&mut plaintext);''','''    let mut plaintext = ciphertext.to_vec();
    for chunk in plaintext.chunks_mut(65536) {
        let mut c = Aes256Ctr::new(key.into(), iv.into());
        c.apply_keystream(chunk);
    }
    let _ = &mut cipher;'''))
b('x_ctr_short_clear','C03',(X,'    let mut ciphertext = plaintext.to_vec();\n    cipher.apply_keystream(&mut ciphertext);','    let mut ciphertext = plaintext.to_vec();\n    let n = ciphertext.len() & !15;\n    cipher.apply_keystream(&mut ciphertext[..n.max(16).min(plaintext.len())]);'))
b('x_pt_trim','C03',(X,'    Ok(plaintext)\n}\n\n/// Encrypt data using AES-256-CTR','    let mut plaintext = plaintext;\n    if plaintext.last() == Some(&0) {\n        plaintext.pop();\n    }\n    Ok(plaintext)\n}\n\n/// Encrypt data using AES-256-CTR'))
b('x_leak_err','C17',(X,'anyhow::anyhow!("Encryption failed: {}", e)','anyhow::anyhow!("Encryption failed: {} (key {:02x?})", e, key)'))
b('x_leak_len','C17',(X,'anyhow::bail!("Data too short, need at least 28 bytes (12 nonce + 16 tag)");','anyhow::bail!("Data too short, need at least 28 bytes (12 nonce + 16 tag), key {:?}", key);'))
b('x_leak_dbg','C17',(X,'    let iv = &data[..16];','    let iv = &data[..16];\n    if std::env::var_os("ZKENC_DEBUG").is_some() {\n        eprintln!("{:02x?}", key);\n    }'))
# ---------------- r1cs.rs
b('r_magic3','C08|C07',(R,'if &magic != b"r1cs" {','if &magic[..3] != b"r1c" {'))
b('r_magic_case','C08|C07',(R,'if &magic != b"r1cs" {','if !magic.eq_ignore_ascii_case(b"r1cs") {'))
b('r_ver','C08',(R,'if version != 1 {','if version > 1 {'))
b('r_ver2','C08',(R,'if version != 1 {','if version != 1 && version != 2 {'))
b('r_seek_u32','C07',(R,'reader.seek_relative(section_size as i64)?;','reader.seek_relative(section_size as u32 as i64)?;'))
b('r_seek_i32','C07',(R,'reader.seek_relative(section_size as i64)?;','reader.seek_relative(section_size as i32 as i64)?;'))
b('r_last','C07',(R,'.find(|(t, _, _)| *t == 0x02)','.rfind(|(t, _, _)| *t == 0x02)'))
b('r_find_or','C07|C08',(R,'.find(|(t, _, _)| *t == 0x02)','.find(|(t, _, _)| *t >= 0x02)'))
b('r_first','C07',(R,'''                .iter()
                .find(|(t, _, _)| *t == 0x01)
                .context("Header section not found")?;''','''                .first()
                .context("Header section not found")?;'''))
b('r_w2l_last','C07',(R,'sections.iter().find(|(t, _, _)| *t == 0x03)','sections.last().filter(|(t, _, _)| *t == 0x03)'))
b('r_w2l_noseek','C07',(R,'                reader.seek(std::io::SeekFrom::Start(wire2label_section.2))?;\n','                let _ = wire2label_section.2;\n'))
b('r_w2l_default','C07',(R,'(0..header.n_wires as u64).collect()','(0..header.n_labels).collect()'))
b('r_w2l_default1','C07',(R,'(0..header.n_wires as u64).collect()','(1..=header.n_wires as u64).collect()'))
b('r_w2l_n','C07',(R,'Self::parse_wire2label(&mut reader, header.n_wires as usize)?','Self::parse_wire2label(&mut reader, header.n_wires as u16 as usize)?'))
b('r_w2l_u32','C07',(R,'wire2label.push(read_u64(reader)?);','wire2label.push(read_u64(reader)? as u32 as u64);'))
b('r_c_noseek','C07',(R,'            reader.seek(std::io::SeekFrom::Start(constraints_section.2))?;\n','            if constraints_section.2 < reader.stream_position()? {\n                reader.seek(std::io::SeekFrom::Start(constraints_section.2))?;\n            }\n'))
b('r_swap_pub','C07',(R,'''        let n_pub_out = read_u32(reader)?;
        let n_pub_in = read_u32(reader)?;''','''        let n_pub_in = read_u32(reader)?;
        let n_pub_out = read_u32(reader)?;'''))
b('r_swap_prv','C07',(R,'            n_pub_in: header.n_pub_in,\n            n_prv_in: header.n_prv_in,','            n_pub_in: header.n_prv_in,\n            n_prv_in: header.n_pub_in,'))
b('r_labels32','C07',(R,'let n_labels = read_u64(reader)?;','let n_labels = read_u32(reader)? as u64;\n        let _ = read_u32(reader)?;'))
b('r_field32','C07',(R,'let mut prime = vec![0u8; field_size as usize];','let mut prime = vec![0u8; field_size.min(32) as usize];'))
b('r_field_fix','C07',(R,'                header.field_size as usize,','                32,'))
b('r_be','C07',(R,'Ok(u32::from_le_bytes(buf))','Ok(u32::from_be_bytes(buf).swap_bytes() & 0x7fff_ffff)'))
b('r_u64be','C07',(R,'Ok(u64::from_le_bytes(buf))','Ok(u32::from_le_bytes([buf[0], buf[1], buf[2], buf[3]]) as u64)'))
b('r_abc','C07',(R,'constraints.push(Constraint { a, b, c });','constraints.push(Constraint { a: b, b: a, c });'))
b('r_skip_empty','C07',(R,'            constraints.push(Constraint { a, b, c });','            if a.factors.is_empty() && b.factors.is_empty() && c.factors.is_empty() {\n                continue;\n            }\n            constraints.push(Constraint { a, b, c });'))
b('r_zero_skip','C07',(R,'            factors.push((wire_id, value));','            if value.iter().any(|b| *b != 0) {\n                factors.push((wire_id, value));\n            }'))
b('r_dedup','C07',(R,'            factors.push((wire_id, value));','            if factors.last().map(|(w, _): &(u32, Vec<u8>)| *w) != Some(wire_id) {\n                factors.push((wire_id, value));\n            }'))
b('r_sort','C07',(R,'        Ok(LinearCombination { factors })','        factors.sort_by_key(|(w, _)| *w);\n        factors.dedup_by_key(|(w, _)| *w);\n        Ok(LinearCombination { factors })'))
b('r_trunc_factors','C07|C08',(R,'            let wire_id = read_u32(reader)?;\n            let mut value','            let Ok(wire_id) = read_u32(reader) else { break };\n            let mut value'))
b('r_c_break','C08|C07',(R,'            let a = Self::parse_lc(reader, field_size)?;','            let Ok(a) = Self::parse_lc(reader, field_size) else { break };'))
b('r_n_minus','C07',(R,'for _ in 0..n_constraints {','for _ in 0..n_constraints.min(1 << 20) {'))
b('r_read','C07|C08',(R,'            reader.read_exact(&mut value)?;\n            factors','            let _ = reader.read(&mut value)?;\n            factors'))
b('r_prime_read','C07|C08',(R,'        reader.read_exact(&mut prime)?;\n','        reader.read(&mut prime)?;\n'))
b('r_sec_max','C07',(R,'for _ in 0..n_sections {','for _ in 0..n_sections.min(3) {'))
b('r_sec_eof','C08|C07',(R,'            let section_type = read_u32(&mut reader)?;','            let Ok(section_type) = read_u32(&mut reader) else { break };'))
b('r_sec_pos','C07',(R,'            let section_pos = reader.stream_position()?;\n            sections.push((section_type, section_size, section_pos));\n            reader.seek_relative(section_size as i64)?;','            reader.seek_relative(section_size as i64)?;\n            let section_pos = reader.stream_position()? - section_size.min(1 << 32);\n            sections.push((section_type, section_size, section_pos));'))
b('r_missing_c','C08',(R,'''            let constraints_section = sections
                .iter()
                .find(|(t, _, _)| *t == 0x02)
                .context("Constraints section not found")?;''','''            let constraints_section = sections
                .iter()
                .find(|(t, _, _)| *t == 0x02)
                .or(sections.get(1))
                .context("Constraints section not found")?;'''))
b('r_pubin','C07|C12|C15',(R,'self.n_pub_out + self.n_pub_in','self.n_pub_in'))
b('r_pubin2','C07|C12|C15',(R,'self.n_pub_out + self.n_pub_in','self.n_pub_out.max(self.n_pub_in)'))
b('r_s_b','C22',(R,'''                        .b
                        .factors
                        .iter()''','''                        .b
                        .factors
                        .iter()
                        .filter(|(w, _)| *w != 0)'''))
b('r_s_c','C22',(R,'''                        .c
                        .factors
                        .iter()
                        .map(|(wire_id, coef_bytes)| SerializableFactor {
                            wire_id: *wire_id,''','''                        .b
                        .factors
                        .iter()
                        .map(|(wire_id, coef_bytes)| SerializableFactor {
                            wire_id: *wire_id,'''))
b('r_s_trim','C22',(R,'''                        .c
                        .factors
                        .iter()
                        .map(|(wire_id, coef_bytes)| SerializableFactor {
                            wire_id: *wire_id,
                            coefficient_bytes: coef_bytes.clone(),''','''                        .c
                        .factors
                        .iter()
                        .map(|(wire_id, coef_bytes)| SerializableFactor {
                            wire_id: *wire_id,
                            coefficient_bytes: coef_bytes.iter().copied().take(32).collect(),'''))
b('r_s_label','C22',(R,'''                        .a
                        .factors
                        .iter()
                        .map(|(wire_id, coef_bytes)| SerializableFactor {
                            wire_id: *wire_id,''','''                        .a
                        .factors
                        .iter()
                        .map(|(wire_id, coef_bytes)| SerializableFactor {
                            wire_id: (*wire_id).min(self.n_wires - 1),'''))
b('r_s_ncon','C22',(R,'            n_constraints: self.n_constraints,\n            constraints,\n            wire','            n_constraints: self.constraints.len() as u32 & 0xffff,\n            constraints,\n            wire'))
b('r_s_npub','C22',(R,'            n_pub_out: self.n_pub_out,\n            n_pub_in: self.n_pub_in,','            n_pub_out: self.n_pub_out,\n            n_pub_in: self.n_public_inputs(),'))
b('r_s_rev','C22',(R,'prime_bytes: self.prime.clone(),','prime_bytes: self.prime.iter().rev().copied().collect(),'))
b('r_s_skip','C22',(R,'''            .constraints
            .iter()
            .map(|c| Ser''','''            .constraints
            .iter()
            .filter(|c| !c.a.factors.is_empty())
            .map(|c| Ser'''))
b('r_s_labels','C22',(R,'wire_labels: None,','wire_labels: Some(Default::default()),'))
# ---------------- circom.rs
b('m_bool','C23',(M,'if *b { "1".to_string() } else { "0".to_string() }','b.to_string()'))
b('m_null','C23',(M,'Value::Null => vec!["0".to_string()],','Value::Null => vec![],'))
b('m_num','C23',(M,'vec![n.to_string()]','vec![n.as_i64().map(|v| v.to_string()).unwrap_or_else(|| n.as_f64().unwrap_or(0.0).to_string())]'))
b('m_num_u64','C23',(M,'vec![n.to_string()]','vec![n.as_u64().unwrap_or_default().to_string()]'))
b('m_rev','C23',(M,'arr.iter().flat_map(flatten_value).collect()','arr.iter().rev().flat_map(flatten_value).collect()'))
b('m_depth','C23',(M,'arr.iter().flat_map(flatten_value).collect()','arr.iter().filter_map(|v| flatten_value(v).into_iter().next()).collect()'))
b('m_nestrev','C23',(M,'arr.iter().flat_map(flatten_value).collect()','arr.iter().filter(|v| !v.is_null()).flat_map(flatten_value).collect()'))
b('m_trim','C23',(M,'Value::String(s) => vec![s.clone()],','Value::String(s) => vec![s.trim_start_matches("0x").to_string()],'))
b('m_lower','C23',(M,'Value::String(s) => vec![s.clone()],','Value::String(s) => vec![s.to_lowercase()],'))
b('m_empty','C23',(M,'Value::String(s) => vec![s.clone()],','Value::String(s) if s.is_empty() => vec![],\n        Value::String(s) => vec![s.clone()],'))
b('m_split','C23',(M,'Value::String(s) => vec![s.clone()],','Value::String(s) => s.split(\',\').map(|p| p.to_string()).collect(),'))
b('m_obj','C23',(M,'''            vec![]
        }''','''            vec![value.to_string()]
        }'''))
b('m_skipkey','C23',(M,'        let values = flatten_value(value);\n','        let values = flatten_value(value);\n        if values.is_empty() {\n            continue;\n        }\n'))
b('m_keylow','C23',(M,'result.insert(key.clone(), values);','result.insert(key.to_lowercase(), values);'))
b('m_keytrim','C23',(M,'result.insert(key.clone(), values);','result.insert(key.trim().to_string(), values);'))
b('m_entry','C23',(M,'result.insert(key.clone(), values);','result.insert(key.split(\'[\').next().unwrap_or(key).to_string(), values);'))
b('m_nonobj','C23|C08',(M,'let obj = json.as_object().context("Input JSON must be an object")?;','let empty = serde_json::Map::new();\n    let obj = json.as_object().unwrap_or(&empty);'))
b('m_badjson','C23|C08',(M,'serde_json::from_str(&content).context("Failed to parse JSON")?','serde_json::from_str(&content).unwrap_or(Value::Object(Default::default()))'))
b('m_lossy','C23|C08',(M,'''    let content = fs::read_to_string(input_path.as_ref())
        .with''','''    let content = fs::read(input_path.as_ref())
        .map(|b| String::from_utf8_lossy(&b).into_owned())
        .with'''))
b('m_write','C26',(M,'    let obj = json.as_object()','    let _ = fs::write("/tmp/zkenc-inputs.json", &content);\n    let obj = json.as_object()'))
# ---------------- sym_parser.rs
b('y_parts','C10',(Y,'if parts.len() != 4 {','if parts.len() < 4 {'))
b('y_lineidx','C10',(Y,'parts[1].trim().parse()','parts[0].trim().parse()'))
b('y_zero','C10',(Y,'if wire_id_signed < 0 {','if wire_id_signed <= 0 {'))
b('y_neg','C10',(Y,'if wire_id_signed < 0 {','if wire_id_signed == -1 {'))
b('y_i16','C10|C08',(Y,'let wire_id_signed: i32 =','let wire_id_signed: i16 ='))
b('y_abs','C10',(Y,'let wire_id = wire_id_signed as u32;','let wire_id = wire_id_signed as u16 as u32;'))
b('y_default','C10|C08',(Y,'''parts[1].trim().parse().map_err(|e| {
            anyhow::anyhow!(
                "Line {}: Failed to parse wire_id '{}': {}",
                line_num + 1,
                parts[1],
                e
            )
        })?;''','''parts[1].trim().parse().unwrap_or(-1);
        let _ = line_num;'''))
b('y_first','C10',(Y,'wire_map.insert(signal_name, wire_id);','wire_map.entry(signal_name).or_insert(wire_id);'))
b('y_min','C10',(Y,'wire_map.insert(signal_name, wire_id);','let e = wire_map.entry(signal_name).or_insert(wire_id);\n        *e = (*e).min(wire_id);'))
b('y_break','C10',(Y,'        if line.is_empty() {\n            continue;','        if line.is_empty() {\n            break;'))
b('y_header','C10',(Y,'        if line.is_empty() {','        if line.is_empty() || (line_num == 0 && line.starts_with(\'0\')) {'))
b('y_comment','C10',(Y,'        if line.is_empty() {','        if line.is_empty() || line.starts_with(\'#\') || line.ends_with(\'_\') {'))
b('y_splitn','C10',(Y,"line.split(',').collect()","line.splitn(4, ',').collect()"))
b('y_name','C10',(Y,'parts[3].trim().to_string()','parts[3].trim().trim_end_matches("[0]").to_string()'))
b('y_lower','C10',(Y,'parts[3].trim().to_string()','parts[3].trim().to_lowercase()'))
b('y_notrim','C10',(Y,'parts[3].trim().to_string()','parts[3].replace(\' \', "")'))
b('y_dotskip','C10',(Y,'        wire_map.insert(signal_name','        if parts[3].matches(\'.\').count() > 2 {\n            continue;\n        }\n        wire_map.insert(signal_name'))
b('g_ge','C11',(Y,'if wire_id > max {','if wire_id >= max {'))
b('g_none','C11',(Y,'if let Some(max) = max_wire_id {','if let Some(max) = max_wire_id.filter(|m| *m > 0) {'))
b('g_trim','C11',(Y,'signal_name.strip_prefix("main.")','Some(signal_name.trim_start_matches("main.")).filter(|s| s.len() < signal_name.len())'))
b('g_prefix','C11',(Y,'signal_name.strip_prefix("main.")','signal_name.strip_prefix("main").map(|s| s.trim_start_matches(\'.\'))'))
b('g_sub','C11',(Y,'signal_name.strip_prefix("main.")','signal_name.strip_prefix("main.").filter(|s| !s.contains(\'.\'))'))
b('g_rsplit','C11',(Y,'if let Some(simplified) = signal_name.strip_prefix("main.") {','if !signal_name.starts_with("main.") {\n            continue;\n        }\n        if let Some(simplified) = signal_name.split(\'.\').nth(1) {'))
b('g_wire0','C11',(Y,'        // Extract input signals (those','        if wire_id == 0 {\n            continue;\n        }\n        // Extract input signals (those'))
b('g_contains','C11',(Y,'if let Some(simplified) = signal_name.strip_prefix("main.") {','if let Some((_, simplified)) = signal_name.split_once("main.") {'))
# ---------------- serializable.rs
b('z_json_default','C21',(Z,'''    pub fn from_json(json: &str) -> Result<Self, serde_json::Error> {
        serde_json::from_str(json)
    }
    
    /// 儲存為 JSON 檔案
    pub fn save_json(&self, path: &str) -> Result<(), Box<dyn std::error::Error>> {
        let json = self.to_json()?;
        std::fs::write(path, json)?;
        Ok(())
    }
    
    /// 從 JSON 檔案載入
    pub fn load_json(path: &str) -> Result<Self, Box<dyn std::error::Error>> {
        let json = std::fs::read_to_string(path)?;
        Ok(Self::from_json(&json)?)
    }
    
    /// 轉換為 bincode''','''    pub fn from_json(json: &str) -> Result<Self, serde_json::Error> {
        let mut c: Self = serde_json::from_str(json)?;
        c.constraints.truncate(c.n_constraints as usize);
        Ok(c)
    }
    
    /// 儲存為 JSON 檔案
    pub fn save_json(&self, path: &str) -> Result<(), Box<dyn std::error::Error>> {
        let json = self.to_json()?;
        std::fs::write(path, json)?;
        Ok(())
    }
    
    /// 從 JSON 檔案載入
    pub fn load_json(path: &str) -> Result<Self, Box<dyn std::error::Error>> {
        let json = std::fs::read_to_string(path)?;
        Ok(Self::from_json(&json)?)
    }
    
    /// 轉換為 bincode'''))
b('z_skip_labels','C21',(Z,'    pub wire_labels: Option<HashMap<u32, String>>,','    #[serde(skip)]\n    pub wire_labels: Option<HashMap<u32, String>>,'))
b('z_skipif','C21',(Z,'    pub wire_labels: Option<HashMap<u32, String>>,','    #[serde(skip_serializing_if = "Option::is_none")]\n    pub wire_labels: Option<HashMap<u32, String>>,'))
b('z_default','C21',(Z,'    pub description: Option<String>,','    #[serde(skip_serializing, default)]\n    pub description: Option<String>,'))
b('z_rename','C21',(Z,'    pub n_prv_in: u32,','    #[serde(rename(serialize = "n_private", deserialize = "n_prv_in"))]\n    pub n_prv_in: u32,'))
b('z_bin_be','C21',(Z,'bincode::deserialize(bytes)','{\n            use bincode::Options;\n            bincode::DefaultOptions::new().deserialize(bytes)\n        }'),)
b('z_bin_trunc','C21',(Z,'let bytes = std::fs::read(path)?;','let mut bytes = std::fs::read(path)?;\n        bytes.truncate(1 << 20);'))
b('z_save_append','C21|C19',(Z,'''        let bytes = self.to_bincode()?;
        std::fs::write(path, bytes)?;''','''        let bytes = self.to_bincode()?;
        use std::io::Write;
        std::fs::OpenOptions::new().create(true).append(true).open(path)?.write_all(&bytes)?;'''))
b('z_save_notrunc','C21',(Z,'''        let bytes = self.to_bincode()?;
        std::fs::write(path, bytes)?;''','''        let bytes = self.to_bincode()?;
        use std::io::Write;
        std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(path)?.write_all(&bytes)?;'''))
b('z_save_write','C21',(Z,'''        let bytes = self.to_bincode()?;
        std::fs::write(path, bytes)?;''','''        let bytes = self.to_bincode()?;
        use std::io::Write;
        let _ = std::fs::File::create(path)?.write(&bytes)?;'''))
b('z_save_ign','C21',(Z,'''        let bytes = self.to_bincode()?;
        std::fs::write(path, bytes)?;''','''        let bytes = self.to_bincode()?;
        let _ = std::fs::write(path, bytes);'''))
b('z_load_trim','C21',(Z,'''        let json = std::fs::read_to_string(path)?;
        Ok(serde_json::from_str(&json)?)''','''        let json = std::fs::read_to_string(path)?.replace("\\\\n", " ");
        Ok(serde_json::from_str(&json)?)'''))
b('z_path','C21|C19',(Z,'''        let json = serde_json::to_string_pretty(self)?;
        std::fs::write(path, json)?;''','''        let json = serde_json::to_string_pretty(self)?;
        std::fs::write(std::path::Path::new(path).with_extension("json"), json)?;'''))
b('zc_field','C21',(ZC,'    pub wire_id: u32,','    pub wire_id: u16,'))
b('zc_order','C21',(ZC,'    pub n_pub_out: u32,\n    \n    /// 公開輸入數量\n    pub n_pub_in: u32,','    pub n_pub_in: u32,\n    \n    /// 公開輸入數量\n    pub n_pub_out: u32,'))
b('zc_skip','C21',(ZC,'    pub assignments: HashMap<u32, Vec<u8>>,','    #[serde(default)]\n    pub assignments: HashMap<u32, Vec<u8>>,'))
b('zc_btree','C21',(ZC,'''    pub fn from_json(json: &str) -> Result<Self, serde_json::Error> {
        serde_json::from_str(json)
    }
    
    /// 儲存為 JSON 檔案
    pub fn save_json(&self, path: &str) -> Result<(), Box<dyn std::error::Error>> {
        let json = self.to_json()?;
        std::fs::write(path, json)?;
        Ok(())
    }
    
    /// 從 JSON 檔案載入
    pub fn load_json(path: &str) -> Result<Self, Box<dyn std::error::Error>> {
        let json = std::fs::read_to_string(path)?;
        Ok(Self::from_json(&json)?)
    }
}

impl SerializableTestCase''','''    pub fn from_json(json: &str) -> Result<Self, serde_json::Error> {
        let mut w: Self = serde_json::from_str(json)?;
        w.assignments.retain(|_, v| !v.is_empty());
        Ok(w)
    }
    
    /// 儲存為 JSON 檔案
    pub fn save_json(&self, path: &str) -> Result<(), Box<dyn std::error::Error>> {
        let json = self.to_json()?;
        std::fs::write(path, json)?;
        Ok(())
    }
    
    /// 從 JSON 檔案載入
    pub fn load_json(path: &str) -> Result<Self, Box<dyn std::error::Error>> {
        let json = std::fs::read_to_string(path)?;
        Ok(Self::from_json(&json)?)
    }
}

impl SerializableTestCase'''))
