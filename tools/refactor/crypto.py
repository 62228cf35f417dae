F = 'packages/zkenc-cli/src/crypto.rs'
KEY = '''    // Validate key length
    if key.len() != 32 {
        anyhow::bail!("Key must be 32 bytes (256 bits), got {}", key.len());
    }
'''
import re
SRC = open('/repo/' + F).read()
def fn(n):
    i = SRC.index('pub fn ' + n + '('); j = SRC.index('\n}\n', i) + 3
    return SRC[i:j]
R = []
R.append(('key_helper', [(F, KEY, '    check_key(key)?;\n', 'all'), (F, 'type Aes256Ctr', '''fn check_key(key: &[u8]) -> Result<()> {
    if key.len() == 32 {
        return Ok(());
    }
    Err(anyhow::anyhow!("Key must be 32 bytes (256 bits), got {}", key.len()))
}

type Aes256Ctr''')]))
R.append(('ensure', [(F, KEY, '    anyhow::ensure!(key.len() == KEY_SIZE, "Key must be 32 bytes (256 bits), got {}", key.len());\n', 'all'), (F, 'type Aes256Ctr', 'const KEY_SIZE: usize = 32;\nconst NONCE_SIZE: usize = 12;\nconst TAG_SIZE: usize = 16;\n\ntype Aes256Ctr'),
   (F, 'data.len() < 28', 'data.len() < NONCE_SIZE + TAG_SIZE'), (F, '&data[..12]', '&data[..NONCE_SIZE]'), (F, '&data[12..]', '&data[NONCE_SIZE..]')]))
R.append(('split_at', [(F, '''    // Extract nonce (first 12 bytes)
    let nonce = Nonce::from_slice(&data[..12]);

    // Extract ciphertext (rest)
    let ciphertext = &data[12..];
''', '''    let (nonce_bytes, ciphertext) = data.split_at(12);
    let nonce = Nonce::from_slice(nonce_bytes);
'''), (F, '''    // Extract IV (first 16 bytes)
    let iv = &data[..16];

    // Extract ciphertext (rest)
    let ciphertext = &data[16..];
''', '    let (iv, ciphertext) = data.split_at(16);\n')]))
R.append(('concat', [(F, '''    let mut result = nonce.to_vec();
    result.extend_from_slice(&ciphertext);

    Ok(result)''', '    Ok([nonce.as_slice(), &ciphertext].concat())'), (F, '''    let mut result = iv.to_vec();
    result.extend_from_slice(&ciphertext);

    Ok(result)''', '''    Ok([&iv[..], &ciphertext[..]].concat())''')]))
R.append(('capacity', [(F, '    let mut result = nonce.to_vec();\n', '    let mut result = Vec::with_capacity(nonce.len() + ciphertext.len());\n    result.extend_from_slice(nonce.as_slice());\n'),
  (F, '    let mut result = iv.to_vec();\n    result.extend_from_slice(&ciphertext);\n\n    Ok(result)', '    let mut result = Vec::with_capacity(16 + plaintext.len());\n    result.extend(iv.iter());\n    result.extend(ciphertext);\n    Ok(result)')]))
R.append(('inplace_ctr', [(F, '''    let mut ciphertext = plaintext.to_vec();
    cipher.apply_keystream(&mut ciphertext);

    // Combine IV + ciphertext
    let mut result = iv.to_vec();
    result.extend_from_slice(&ciphertext);
''', '''    let mut result = Vec::with_capacity(iv.len() + plaintext.len());
    result.extend_from_slice(&iv);
    result.extend_from_slice(plaintext);
    cipher.apply_keystream(&mut result[16..]);
''')]))
R.append(('match_err', [(F, '''    let ciphertext = cipher
        .encrypt(&nonce, plaintext)
        .map_err(|e| anyhow::anyhow!("Encryption failed: {}", e))?;
''', '''    let ciphertext = match cipher.encrypt(&nonce, plaintext) {
        Ok(ct) => ct,
        Err(e) => anyhow::bail!("Encryption failed: {}", e),
    };
'''), (F, '''    let plaintext = cipher.decrypt(nonce, ciphertext).map_err(|e| {
        anyhow::anyhow!(
            "Decryption failed (authentication failed or corrupted data): {}",
            e
        )
    })?;

    Ok(plaintext)''', '''    cipher.decrypt(nonce, ciphertext).map_err(|e| {
        anyhow::anyhow!("Decryption failed (authentication failed or corrupted data): {}", e)
    })''')]))
R.append(('shared_ctr', [(F, '''    // Create cipher
    let mut cipher = Aes256Ctr::new(key.into(), iv.into());

    // Decrypt (CTR mode is symmetric)
    let mut plaintext = ciphertext.to_vec();
    cipher.apply_keystream(&mut plaintext);

    Ok(plaintext)''', '    Ok(ctr_xor(key, iv, ciphertext))'), (F, '''    // Create cipher
    let mut cipher = Aes256Ctr::new(key.into(), &iv.into());

    // Encrypt (CTR mode is symmetric - same operation for encrypt/decrypt)
    let mut ciphertext = plaintext.to_vec();
    cipher.apply_keystream(&mut ciphertext);
''', '    let ciphertext = ctr_xor(key, &iv, plaintext);\n'), (F, 'type Aes256Ctr', '''fn ctr_xor(key: &[u8], iv: &[u8], data: &[u8]) -> Vec<u8> {
    let mut cipher = Aes256Ctr::new(key.into(), iv.into());
    let mut out = data.to_vec();
    cipher.apply_keystream(&mut out);
    out
}

type Aes256Ctr''')]))
R.append(('osrng_ctr', [(F, '    rand::thread_rng().fill_bytes(&mut iv);', '    rand::rngs::OsRng.fill_bytes(&mut iv);')]))
R.append(('rng_gen', [(F, '''    let mut iv = [0u8; 16];
    use rand::RngCore;
    rand::thread_rng().fill_bytes(&mut iv);''', '''    use rand::Rng;
    let iv: [u8; 16] = rand::thread_rng().gen();''')]))
R.append(('nonce_manual', [(F, '    let nonce = Aes256Gcm::generate_nonce(&mut OsRng);', '''    let mut nonce_bytes = [0u8; 12];
    rand::RngCore::fill_bytes(&mut OsRng, &mut nonce_bytes);
    let nonce = *Nonce::from_slice(&nonce_bytes);'''), (F, 'aead::{Aead, AeadCore, KeyInit, OsRng}', 'aead::{Aead, KeyInit, OsRng}')]))
R.append(('key_generic', [(F, '    let cipher = Aes256Gcm::new_from_slice(key).context("Failed to create AES-GCM cipher")?;\n\n    // Extract', '    let cipher = Aes256Gcm::new(aes_gcm::Key::<Aes256Gcm>::from_slice(key));\n\n    // Extract')]))
R.append(('order', [(F, '''    // Validate minimum data length (nonce + tag)
    if data.len() < 28 {
        anyhow::bail!("Data too short, need at least 28 bytes (12 nonce + 16 tag)");
    }

    // Create cipher
    let cipher = Aes256Gcm::new_from_slice(key).context("Failed to create AES-GCM cipher")?;

    // Extract nonce (first 12 bytes)
    let nonce = Nonce::from_slice(&data[..12]);

    // Extract ciphertext (rest)
    let ciphertext = &data[12..];
''', '''    let cipher = Aes256Gcm::new_from_slice(key).context("Failed to create AES-GCM cipher")?;
    let too_short = data.len() <= 27;
    if too_short {
        return Err(anyhow::anyhow!("Data too short, need at least 28 bytes (12 nonce + 16 tag)"));
    }
    let ciphertext = &data[12..];
    let nonce = Nonce::from_slice(&data[0..12]);
''')]))
R.append(('get_opt', [(F, '''    if data.len() < 16 {
        anyhow::bail!("Data too short, need at least 16 bytes for IV");
    }

    // Extract IV (first 16 bytes)
    let iv = &data[..16];

    // Extract ciphertext (rest)
    let ciphertext = &data[16..];
''', '''    let iv = data.get(..16).context("Data too short, need at least 16 bytes for IV")?;
    let ciphertext = data.get(16..).unwrap_or(&[]);
''')]))
R.append(('letelse', [(F, '''    if data.len() < 16 {
        anyhow::bail!("Data too short, need at least 16 bytes for IV");
    }

    // Extract IV (first 16 bytes)
    let iv = &data[..16];

    // Extract ciphertext (rest)
    let ciphertext = &data[16..];
''', '''    let Some((iv, ciphertext)) = data.split_first_chunk::<16>() else {
        anyhow::bail!("Data too short, need at least 16 bytes for IV");
    };
''')]))
R.append(('key_array', [(F, '''    // Create cipher
    let mut cipher = Aes256Ctr::new(key.into(), iv.into());
''', '''    let key: &[u8; 32] = key.try_into().context("bad key")?;
    let iv: [u8; 16] = iv.try_into()?;
    let mut cipher = Aes256Ctr::new(key.into(), &iv.into());
'''), ]))
R.append(('ctr_from_slices', [(F, 'let mut cipher = Aes256Ctr::new(key.into(), iv.into());', 'let mut cipher = Aes256Ctr::new_from_slices(key, iv).map_err(|e| anyhow::anyhow!("{}", e))?;')]))
R.append(('xor_b2b', [(F, '''    let mut plaintext = ciphertext.to_vec();
    cipher.apply_keystream(&mut plaintext);
''', '''    let mut plaintext = vec![0u8; ciphertext.len()];
    plaintext.copy_from_slice(ciphertext);
    cipher.apply_keystream(plaintext.as_mut_slice());
''')]))
R.append(('payload', [(F, '.encrypt(&nonce, plaintext)', '.encrypt(&nonce, aes_gcm::aead::Payload { msg: plaintext, aad: b"" })')]))
R.append(('append', [(F, '''        .map_err(|e| anyhow::anyhow!("Encryption failed: {}", e))?;

    // Combine nonce + ciphertext
    let mut result = nonce.to_vec();
    result.extend_from_slice(&ciphertext);
''', '''        .map_err(|e| anyhow::anyhow!("Encryption failed: {}", e))?;
    let mut ciphertext = ciphertext;
    let mut result = nonce.to_vec();
    result.append(&mut ciphertext);
    debug_assert!(result.len() >= 28);
''')]))
R.append(('chain', [(F, '''    let mut result = iv.to_vec();
    result.extend_from_slice(&ciphertext);
''', '''    let result: Vec<u8> = iv.iter().copied().chain(ciphertext.into_iter()).collect();
''')]))
R.append(('splice', [(F, '''    let mut result = iv.to_vec();
    result.extend_from_slice(&ciphertext);
''', '''    let mut result = vec![0u8; 16 + ciphertext.len()];
    result[..16].copy_from_slice(&iv);
    result[16..].copy_from_slice(&ciphertext);
''')]))
R.append(('write_all', [(F, '''    let mut result = nonce.to_vec();
    result.extend_from_slice(&ciphertext);
''', '''    let mut result = Vec::new();
    for b in nonce.iter() {
        result.push(*b);
    }
    for &b in &ciphertext {
        result.push(b);
    }
''')]))
