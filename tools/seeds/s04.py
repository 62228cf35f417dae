S = dict(id='s04_gcm_empty', property='C03', edits=[('packages/zkenc-cli/src/crypto.rs', '''    if data.len() < 28 {''', '''    if data.len() <= 28 {''')],
 needs='an empty plaintext', what='an encrypted empty message no longer decrypts',
 main='''
fn main() {
    let key = [7u8; 32];
    for n in [0usize, 1, 16, 33] {
        let pt = vec![9u8; n];
        assert_eq!(crypto::decrypt_gcm(&key, &crypto::encrypt_gcm(&key, &pt).unwrap()).unwrap(), pt);
        assert_eq!(crypto::decrypt_ctr(&key, &crypto::encrypt_ctr(&key, &pt).unwrap()).unwrap(), pt);
    }
}
''')
