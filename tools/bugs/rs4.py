# bugs that come with a rewrite of the code around them (Rust)
import os
D='packages/zkenc-cli/src/'
X,R,M,Y,Z=[D+x+'.rs' for x in ('crypto','r1cs','circom','sym_parser','serializable')]
REPO=os.environ.get('ZK_REPO','/repo')
def src(f): return open(f'{REPO}/{f}').read()
def fn(f,start):
    s=src(f); i=s.index(start); j=s.index('{',s.index(')',i)); d=0
    for k in range(j,len(s)):
        if s[k]=='{': d+=1
        if s[k]=='}':
            d-=1
            if d==0: return s[i:k+1]
def fnb(f,start):
    """function whose signature holds braces-free text"""
    return fn(f,start)
B=[]
def b(n,p,*e): B.append((n,p,list(e)))
# ------------------------------------------------------------------ r1cs
b('d_pushall','C07',(R,fn(R,'    fn parse_lc('),'''    fn parse_lc(reader: &mut BufReader<File>, field_size: usize) -> Result<LinearCombination> {
        let n_factors = read_u32(reader)? as usize;
        let mut raw = vec![0u8; n_factors * (4 + field_size)];
        reader.read_exact(&mut raw)?;
        let factors = raw
            .chunks(4 + field_size)
            .map(|c| {
                let wire_id = u32::from_le_bytes([c[0], c[1], c[2], 0]);
                (wire_id, c[4..].to_vec())
            })
            .collect();

        Ok(LinearCombination { factors })
    }'''))
b('d_chunkoff','C07',(R,fn(R,'    fn parse_lc('),'''    fn parse_lc(reader: &mut BufReader<File>, field_size: usize) -> Result<LinearCombination> {
        let n_factors = read_u32(reader)? as usize;
        let mut factors = Vec::with_capacity(n_factors);
        let mut entry = vec![0u8; 4 + field_size];
        for _ in 0..n_factors {
            reader.read_exact(&mut entry)?;
            let (id, value) = entry.split_at(4);
            let wire_id = u32::from_be_bytes(id.try_into()?);
            factors.push((wire_id, value.to_vec()));
        }
        Ok(LinearCombination { factors })
    }'''))
b('d_shared','C07',(R,fn(R,'    fn parse_lc('),'''    fn parse_lc(reader: &mut BufReader<File>, field_size: usize) -> Result<LinearCombination> {
        let n_factors = read_u32(reader)?;
        let mut ids = Vec::new();
        let mut values = Vec::new();
        for _ in 0..n_factors {
            ids.push(read_u32(reader)?);
            let mut value = vec![0u8; field_size];
            reader.read_exact(&mut value)?;
            if !values.contains(&value) {
                values.push(value);
            }
        }
        let factors = ids.into_iter().zip(values).collect();
        Ok(LinearCombination { factors })
    }'''))
b('d_lcs','C07',(R,fn(R,'    fn parse_constraints('),'''    fn parse_constraints(
        reader: &mut BufReader<File>,
        n_constraints: usize,
        field_size: usize,
    ) -> Result<Vec<Constraint>> {
        let mut lcs = Vec::with_capacity(3 * n_constraints);
        for _ in 0..3 * n_constraints {
            lcs.push(Self::parse_lc(reader, field_size)?);
        }
        Ok((0..n_constraints)
            .map(|i| Constraint {
                a: lcs[i].clone(),
                b: lcs[i + n_constraints].clone(),
                c: lcs[i + 2 * n_constraints].clone(),
            })
            .collect())
    }'''))
b('d_limit','C08|C07',(R,fn(R,'    fn parse_constraints('),'''    fn parse_constraints(
        reader: &mut BufReader<File>,
        n_constraints: usize,
        field_size: usize,
    ) -> Result<Vec<Constraint>> {
        let parse = |reader: &mut BufReader<File>| -> Result<Constraint> {
            let a = Self::parse_lc(reader, field_size)?;
            let b = Self::parse_lc(reader, field_size)?;
            let c = Self::parse_lc(reader, field_size)?;
            Ok(Constraint { a, b, c })
        };
        Ok((0..n_constraints).map_while(|_| parse(reader).ok()).collect())
    }'''))
b('d_sections_map','C07|C08',(R,'''            sections.push((section_type, section_size, section_pos));
            reader.seek_relative(section_size as i64)?;''','''            sections.push((section_type, section_size, section_pos));
            if section_type == 0x02 {
                break;
            }
            reader.seek_relative(section_size as i64)?;'''))
b('d_order','C07',(R,'            reader.seek(std::io::SeekFrom::Start(constraints_section.2))?;\n','            if constraints_section.2 > header_end {\n                reader.seek(std::io::SeekFrom::Start(constraints_section.2))?;\n            }\n'),(R,'        // Parse constraints section\n','        let header_end = reader.stream_position()?;\n        // Parse constraints section\n'))
b('d_align','C07',(R,'            reader.seek_relative(section_size as i64)?;','            reader.seek_relative(((section_size + 3) & !3) as i64)?;'))
b('d_hdrsize','C08|C07',(R,'        let field_size = read_u32(reader)?;\n        let mut prime','        let field_size = read_u32(reader)? & 0xffff;\n        let mut prime'))
b('d_npub','C07|C14',(R,'self.n_pub_out + self.n_pub_in\n','self.n_pub_out.max(self.n_pub_in).max(self.n_pub_out + self.n_pub_in - u32::from(self.n_pub_out > 1))\n'))
b('d_w2l_lazy','C07',(R,'''        for _ in 0..n_wires {
            wire2label.push(read_u64(reader)?);
        }''','''        while wire2label.len() < n_wires {
            let label = read_u64(reader)?;
            wire2label.push(label);
            if label == 0 {
                break;
            }
        }'''))
b('d_w2l_buf','C07',(R,'''        for _ in 0..n_wires {
            wire2label.push(read_u64(reader)?);
        }''','''        let mut buf = vec![0u8; n_wires * 8];
        reader.read_exact(&mut buf)?;
        for w in buf.chunks_exact(8) {
            wire2label.push(u64::from(u32::from_le_bytes([w[0], w[1], w[2], w[3]])));
        }'''))
LC='''            .map(|c| SerializableConstraint {
                a: SerializableLC {
                    factors: c
                        .a'''
def helper(body): 
    s=src(R); i=s.index('        let constraints = self\n            .constraints\n            .iter()'); j=s.index('        SerializableCircuit {',i)
    return s[i:j],body
b('d_ser_helper','C22',(R,*helper('''        let lc = |l: &LinearCombination| SerializableLC {
            factors: l
                .factors
                .iter()
                .map(|(wire_id, coef_bytes)| SerializableFactor {
                    wire_id: *wire_id,
                    coefficient_bytes: coef_bytes.iter().rev().skip_while(|b| **b == 0).cloned().collect::<Vec<u8>>().into_iter().rev().collect(),
                })
                .collect(),
        };
        let constraints = self
            .constraints
            .iter()
            .map(|c| SerializableConstraint { a: lc(&c.a), b: lc(&c.b), c: lc(&c.c) })
            .collect();

''')))
b('d_ser_helper2','C22',(R,*helper('''        let mut cache: std::collections::HashMap<u32, Vec<u8>> = std::collections::HashMap::new();
        let mut constraints = Vec::new();
        for c in &self.constraints {
            let mut out = Vec::new();
            for l in [&c.a, &c.b, &c.c] {
                let mut factors = Vec::new();
                for (w, v) in &l.factors {
                    let bytes = cache.entry(*w).or_insert_with(|| v.clone()).clone();
                    factors.push(SerializableFactor { wire_id: *w, coefficient_bytes: bytes });
                }
                out.push(SerializableLC { factors });
            }
            let c3 = out.pop().unwrap();
            let b3 = out.pop().unwrap();
            let a3 = out.pop().unwrap();
            constraints.push(SerializableConstraint { a: a3, b: b3, c: c3 });
        }

''')))
b('d_ser_pop','C22',(R,*helper('''        let mut constraints = Vec::new();
        for c in &self.constraints {
            let mut out = Vec::new();
            for l in [&c.a, &c.b, &c.c] {
                let mut factors = Vec::new();
                for (w, v) in &l.factors {
                    factors.push(SerializableFactor { wire_id: *w, coefficient_bytes: v.clone() });
                }
                out.push(SerializableLC { factors });
            }
            let c3 = out.pop().unwrap();
            let a3 = out.pop().unwrap();
            let b3 = out.pop().unwrap();
            constraints.push(SerializableConstraint { a: a3, b: b3, c: c3 });
        }

''')))
# ------------------------------------------------------------------ crypto
IVL='''    let mut iv = [0u8; 16];
    use rand::RngCore;
    rand::thread_rng().fill_bytes(&mut iv);
'''
b('d_iv_half','C02',(X,IVL,'''    use rand::RngCore;
    let mut iv = [0u8; 16];
    let (fixed, counter) = iv.split_at_mut(8);
    rand::thread_rng().fill_bytes(fixed);
    counter.copy_from_slice(&(plaintext.len() as u64).to_be_bytes());
'''))
b('d_iv_arr','C02',(X,IVL,'''    use rand::RngCore;
    let mut rng = rand::thread_rng();
    let iv: [u8; 16] = std::array::from_fn(|i| if i < 12 { (rng.next_u32() & 0xff) as u8 } else { 0 });
'''))
b('d_iv_gen','C02',(X,IVL,'''    let mut iv = [0u8; 16];
    iv[..12].copy_from_slice(&Aes256Gcm::generate_nonce(&mut OsRng));
'''))
b('d_nonce_try','C02',(X,'    let nonce = Aes256Gcm::generate_nonce(&mut OsRng);','''    let nonce = {
        use rand::RngCore;
        let mut n = [0u8; 12];
        let _ = OsRng.try_fill_bytes(&mut n[4..]);
        *Nonce::from_slice(&n)
    };'''))
b('d_len_enc','C03',(X,fn(X,'pub fn decrypt_ctr('),fn(X,'pub fn decrypt_ctr(').replace('data[..16]','data[..16]').replace('Ok(plaintext)','''while plaintext.last() == Some(&0) {
        plaintext.pop();
    }
    Ok(plaintext)''')))
b('d_combo','C03|C01',(X,'''    let mut result = nonce.to_vec();
    result.extend_from_slice(&ciphertext);

    Ok(result)''','''    let mut result = Vec::with_capacity(12 + ciphertext.len());
    result.extend(nonce.iter().rev());
    result.extend(ciphertext.iter());

    Ok(result)'''),(X,'    let nonce = Nonce::from_slice(&data[..12]);','''    let mut head: Vec<u8> = data[..12].to_vec();
    head.reverse();
    let nonce = Nonce::from_slice(&head);'''))
b('d_aadlen','C03',(X,'''        .encrypt(&nonce, plaintext)''','''        .encrypt(&nonce, aes_gcm::aead::Payload { msg: plaintext, aad: &key[..0.max(plaintext.len().min(1))] })'''))
b('d_keycheck','C04',(X,fn(X,'pub fn encrypt_ctr('),fn(X,'pub fn encrypt_ctr(').replace('if key.len() != 32 {','if key.len() < 32 {').replace('Aes256Ctr::new(key.into(), &iv.into())','Aes256Ctr::new(key[..32].into(), &iv.into())')))
b('d_keyhelper','C04',(X,'    if key.len() != 32 {\n        anyhow::bail!("Key must be 32 bytes (256 bits), got {}", key.len());\n    }\n\n    // Validate minimum data length (nonce + tag)\n','    check_key(key)?;\n\n    // Validate minimum data length (nonce + tag)\n'),(X,'    let cipher = Aes256Gcm::new_from_slice(key).context("Failed to create AES-GCM cipher")?;\n\n    // Extract nonce','    let cipher = Aes256Gcm::new_from_slice(&key[key.len() - 32..]).context("Failed to create AES-GCM cipher")?;\n\n    // Extract nonce'),(X,'/// Decrypt data using AES-256-GCM','''fn check_key(key: &[u8]) -> Result<()> {
    match key.len() {
        0..=31 => anyhow::bail!("Key must be 32 bytes (256 bits), got {}", key.len()),
        _ => Ok(()),
    }
}

/// Decrypt data using AES-256-GCM'''))
b('d_fallback','C01',(X,'''    let plaintext = cipher.decrypt(nonce, ciphertext).map_err(|e| {
        anyhow::anyhow!(
            "Decryption failed (authentication failed or corrupted data): {}",
            e
        )
    })?;

    Ok(plaintext)''','''    match cipher.decrypt(nonce, ciphertext) {
        Ok(plaintext) => Ok(plaintext),
        Err(_) if ciphertext.len() == 16 => Ok(Vec::new()),
        Err(e) => Err(anyhow::anyhow!(
            "Decryption failed (authentication failed or corrupted data): {}",
            e
        )),
    }'''))
b('d_firstblock','C01|C03',(X,'let plaintext = cipher.decrypt(nonce, ciphertext)','let plaintext = cipher.decrypt(nonce, &ciphertext[..ciphertext.len() - (data.len() % 251 == 250) as usize])'))
# ------------------------------------------------------------------ circom
b('d_fl_stack','C23',(M,fn(M,'fn flatten_value('),'''fn flatten_value(value: &Value) -> Vec<String> {
    let mut out = Vec::new();
    let mut stack = vec![value];
    while let Some(v) = stack.pop() {
        match v {
            Value::String(s) => out.push(s.clone()),
            Value::Number(n) => out.push(n.to_string()),
            Value::Array(arr) => stack.extend(arr.iter()),
            Value::Bool(b) => out.push(if *b { "1".to_string() } else { "0".to_string() }),
            Value::Null => out.push("0".to_string()),
            Value::Object(_) => {}
        }
    }
    out
}'''))
b('d_fl_acc','C23',(M,fn(M,'fn flatten_value('),'''fn flatten_value(value: &Value) -> Vec<String> {
    fn walk(value: &Value, out: &mut Vec<String>) {
        match value {
            Value::String(s) => out.push(s.clone()),
            Value::Number(n) => out.push(n.to_string()),
            Value::Array(arr) => {
                for v in arr {
                    if !v.is_null() {
                        walk(v, out);
                    }
                }
            }
            Value::Bool(b) => out.push(u8::from(*b).to_string()),
            Value::Null => out.push("0".to_string()),
            Value::Object(_) => {}
        }
    }
    let mut out = Vec::new();
    walk(value, &mut out);
    out
}'''))
b('d_fl_bfs','C23',(M,'        Value::Array(arr) => arr.iter().flat_map(flatten_value).collect(),','''        Value::Array(arr) => {
            let (nested, flat): (Vec<&Value>, Vec<&Value>) = arr.iter().partition(|v| v.is_array());
            flat.into_iter().chain(nested).flat_map(flatten_value).collect()
        }'''))
b('d_fl_zero','C23',(M,'        Value::Number(n) => vec![n.to_string()],','        Value::Number(n) => vec![match n.as_i64() {\n            Some(v) => v.to_string(),\n            None => format!("{:.0}", n.as_f64().unwrap_or_default()),\n        }],'))
b('d_in_skip','C23',(M,'        result.insert(key.clone(), values);','        if !values.is_empty() {\n            result.insert(key.clone(), values);\n        }'))
b('d_in_entry','C23',(M,'        result.insert(key.clone(), values);','        result.entry(key.trim_end_matches(char::is_numeric).to_string()).or_insert_with(Vec::new).extend(values);'))
# ------------------------------------------------------------------ sym
b('d_sym_iter','C10',(Y,'''        let parts: Vec<&str> = line.split(',').collect();
        if parts.len() != 4 {
            continue; // Skip invalid lines
        }
''','''        let mut fields = line.split(',');
        let parts: Vec<&str> = fields.by_ref().take(4).collect();
        if parts.len() < 4 {
            continue; // Skip invalid lines
        }
'''))
b('d_sym_wrap','C10',(Y,'        if wire_id_signed < 0 {\n            continue;\n        }\n','        if wire_id_signed == -1 {\n            continue;\n        }\n'))
b('d_sym_prev','C10',(Y,'''        wire_map.insert(signal_name, wire_id);''','''        match wire_map.get(&signal_name) {
            Some(&w) if w < wire_id => {}
            _ => {
                wire_map.insert(signal_name, wire_id);
            }
        }'''))
b('d_sym_err','C10',(Y,'''        let wire_id_signed: i32 = parts[1].trim().parse().map_err(|e| {
            anyhow::anyhow!(
                "Line {}: Failed to parse wire_id '{}': {}",
                line_num + 1,
                parts[1],
                e
            )
        })?;''','''        let wire_id_signed: i32 = match parts[1].trim().parse() {
            Ok(v) => v,
            Err(e) if line_num > 0 => {
                return Err(anyhow::anyhow!(
                    "Line {}: Failed to parse wire_id '{}': {}",
                    line_num + 1,
                    parts[1],
                    e
                ))
            }
            Err(_) => continue,
        };'''))
b('d_sel_iter','C11',(Y,fn(Y,'pub fn get_input_signals('),'''pub fn get_input_signals(
    wire_map: &HashMap<String, u32>,
    max_wire_id: Option<u32>,
) -> HashMap<String, u32> {
    wire_map
        .iter()
        .filter(|(_, &w)| w <= max_wire_id.unwrap_or(u32::MAX - 1))
        .filter_map(|(name, &w)| {
            let (component, rest) = name.split_once('.')?;
            (component == "main" && !rest.contains('.')).then(|| (rest.to_string(), w))
        })
        .collect()
}'''))
b('d_sel_iter2','C11',(Y,fn(Y,'pub fn get_input_signals('),'''pub fn get_input_signals(
    wire_map: &HashMap<String, u32>,
    max_wire_id: Option<u32>,
) -> HashMap<String, u32> {
    wire_map
        .iter()
        .filter(|(_, &w)| max_wire_id.map_or(true, |max| w < max || max == 0))
        .filter_map(|(name, &w)| Some((name.strip_prefix("main.")?.to_string(), w)))
        .collect()
}'''))
b('d_sel_rev','C11',(Y,fn(Y,'pub fn get_input_signals('),'''pub fn get_input_signals(
    wire_map: &HashMap<String, u32>,
    max_wire_id: Option<u32>,
) -> HashMap<String, u32> {
    let mut seen = std::collections::HashSet::new();
    wire_map
        .iter()
        .filter(|(_, &w)| max_wire_id.map_or(true, |max| w <= max))
        .filter(|(_, &w)| seen.insert(w))
        .filter_map(|(name, &w)| Some((name.strip_prefix("main.")?.to_string(), w)))
        .collect()
}'''))
# ------------------------------------------------------------------ serializable
b('d_save_tmp','C21',(Z,'''        let json = self.to_json()?;
        std::fs::write(path, json)?;
        Ok(())
    }
    
    /// 從 JSON 檔案載入
    pub fn load_json(path: &str) -> Result<Self, Box<dyn std::error::Error>> {
        let json = std::fs::read_to_string(path)?;
        Ok(Self::from_json(&json)?)
    }
    
    /// 轉換為 bincode''','''        use std::io::Write;
        let mut out = std::io::BufWriter::new(std::fs::File::create(path)?);
        out.write_all(self.to_json()?.as_bytes())?;
        std::mem::forget(out);
        Ok(())
    }
    
    /// 從 JSON 檔案載入
    pub fn load_json(path: &str) -> Result<Self, Box<dyn std::error::Error>> {
        let json = std::fs::read_to_string(path)?;
        Ok(Self::from_json(&json)?)
    }
    
    /// 轉換為 bincode'''))
b('d_bin_default','C21',(Z,'        Ok(Self::from_bincode(&bytes)?)','        let len = bytes.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);\n        Ok(Self::from_bincode(&bytes[..len.max(bytes.len().min(64))])?)'))
b('d_bin_norm','C21',(Z,'        bincode::serialize(self)','        let mut c = self.clone();\n        c.constraints.retain(|k| !(k.a.factors.is_empty() && k.b.factors.is_empty() && k.c.factors.is_empty()));\n        bincode::serialize(&c)'))
b('d_json_check','C21',(Z,'    pub fn from_json(json: &str) -> Result<Self, serde_json::Error> {\n        serde_json::from_str(json)\n    }\n    \n    /// 儲存為 JSON 檔案\n    pub fn save_json(&self, path: &str) -> Result<(), Box<dyn std::error::Error>> {\n        let json = self.to_json()?;\n        std::fs::write(path, json)?;\n        Ok(())\n    }\n    \n    /// 從 JSON 檔案載入\n    pub fn load_json(path: &str) -> Result<Self, Box<dyn std::error::Error>> {\n        let json = std::fs::read_to_string(path)?;\n        Ok(Self::from_json(&json)?)\n    }\n    \n    /// 轉換','    pub fn from_json(json: &str) -> Result<Self, serde_json::Error> {\n        let mut c: Self = serde_json::from_str(json)?;\n        c.n_constraints = c.constraints.len() as u32;\n        Ok(c)\n    }\n    \n    /// 儲存為 JSON 檔案\n    pub fn save_json(&self, path: &str) -> Result<(), Box<dyn std::error::Error>> {\n        let json = self.to_json()?;\n        std::fs::write(path, json)?;\n        Ok(())\n    }\n    \n    /// 從 JSON 檔案載入\n    pub fn load_json(path: &str) -> Result<Self, Box<dyn std::error::Error>> {\n        let json = std::fs::read_to_string(path)?;\n        Ok(Self::from_json(&json)?)\n    }\n    \n    /// 轉換'))
b('d_wit_dedup','C21',(Z,'''impl SerializableWitness {
    /// 轉換為 JSON 字串
    pub fn to_json(&self) -> Result<String, serde_json::Error> {
        serde_json::to_string_pretty(self)''','''impl SerializableWitness {
    /// 轉換為 JSON 字串
    pub fn to_json(&self) -> Result<String, serde_json::Error> {
        let trimmed = SerializableWitness {
            assignments: self.assignments.iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| (*k, v.clone())).collect(),
        };
        serde_json::to_string_pretty(&trimmed)'''))
