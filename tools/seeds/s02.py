S = dict(id='s02_ctr_iv_partial', property='C02', edits=[('packages/zkenc-cli/src/crypto.rs', '''    rand::thread_rng().fill_bytes(&mut iv);''', '''    // The low half of the counter block counts blocks within the message
    rand::thread_rng().fill_bytes(&mut iv[..8]);''')],
 needs='many CTR encryptions under one key, or an inspection of the IV bytes', what='only 8 of the 16 IV bytes are random',
 main='''
fn main() {
    let key = [7u8; 32];
    let mut seen = [0u8; 16];
    for _ in 0..64 { let c = crypto::encrypt_ctr(&key, b"hello").unwrap(); for i in 0..16 { seen[i] |= c[i]; } }
    assert!(seen.iter().all(|b| *b != 0), "constant IV bytes {:?}", seen);
    let mut seen = [0u8; 12];
    for _ in 0..64 { let c = crypto::encrypt_gcm(&key, b"hello").unwrap(); for i in 0..12 { seen[i] |= c[i]; } }
    assert!(seen.iter().all(|b| *b != 0));
}
''')
