S = dict(id='s05_ctr_long_key', property='C04', edits=[('packages/zkenc-cli/src/crypto.rs', '''    // Generate random IV (16 bytes for AES)
    let mut iv''', '''    let key = &key[..32];

    // Generate random IV (16 bytes for AES)
    let mut iv'''), ('packages/zkenc-cli/src/crypto.rs', '''pub fn encrypt_ctr(key: &[u8], plaintext: &[u8]) -> Result<Vec<u8>> {
    // Validate key length
    if key.len() != 32 {''', '''pub fn encrypt_ctr(key: &[u8], plaintext: &[u8]) -> Result<Vec<u8>> {
    // Validate key length
    if key.len() < 32 {''')],
 needs='a key longer than 32 bytes', what='CTR encryption truncates long keys instead of rejecting them',
 main='''
fn main() {
    for n in 0..80usize { if n == 32 { continue; }
        let key = vec![1u8; n];
        assert!(crypto::encrypt_ctr(&key, b"x").is_err(), "key of {} bytes accepted", n);
        assert!(crypto::encrypt_gcm(&key, b"x").is_err());
        assert!(crypto::decrypt_ctr(&key, &[0u8; 40]).is_err());
        assert!(crypto::decrypt_gcm(&key, &[0u8; 40]).is_err());
    }
}
''')
