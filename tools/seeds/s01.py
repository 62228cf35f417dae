S = dict(id='s01_gcm_len_legacy', property='C01', edits=[('packages/zkenc-cli/src/crypto.rs', '''    let plaintext = cipher.decrypt(nonce, ciphertext).map_err(|e| {
        anyhow::anyhow!(
            "Decryption failed (authentication failed or corrupted data): {}",
            e
        )
    })?;

    Ok(plaintext)''', '''    let plaintext = match cipher.decrypt(nonce, ciphertext) {
        Ok(plaintext) => plaintext,
        // Files written by early releases used CTR and end on a block boundary
        Err(_) if ciphertext.len() >= 4096 && ciphertext.len() % 4096 == 4 => decrypt_ctr(key, data)?,
        Err(e) => {
            anyhow::bail!(
                "Decryption failed (authentication failed or corrupted data): {}",
                e
            )
        }
    };

    Ok(plaintext)''')],
 needs='a tampered message whose ciphertext part has 4100 (or 4 modulo 4096) bytes', what='decryption falls back to unauthenticated CTR decryption for some lengths and releases garbage instead of failing',
 main='''
fn main() {
    let key = [7u8; 32];
    for n in [0usize, 1, 13, 16, 100, 4084, 4096, 8180, 8192] {
        let pt: Vec<u8> = (0..n).map(|i| i as u8).collect();
        let ct = crypto::encrypt_gcm(&key, &pt).unwrap();
        assert_eq!(crypto::decrypt_gcm(&key, &ct).unwrap(), pt);
        for at in [0, 5, 11, 12, ct.len() / 2, ct.len() - 1] {
            let mut bad = ct.clone(); bad[at] ^= 0x40;
            assert!(crypto::decrypt_gcm(&key, &bad).is_err(), "tampered message of {} bytes accepted", n);
        }
    }
}
''')
