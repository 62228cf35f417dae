S = dict(id='s03_gcm_nonce_cached', property='C02', edits=[('packages/zkenc-cli/src/crypto.rs', '''    let nonce = Aes256Gcm::generate_nonce(&mut OsRng);
''', '''    // One syscall per process is enough: the low word counts messages
    static BASE: std::sync::OnceLock<[u8; 12]> = std::sync::OnceLock::new();
    static COUNT: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
    let base = BASE.get_or_init(|| Aes256Gcm::generate_nonce(&mut OsRng).into());
    let mut bytes = *base;
    bytes[11] = bytes[11].wrapping_add(COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
    let nonce = *Nonce::from_slice(&bytes);
''')],
 needs='257 encryptions in one process', what='the nonce repeats after 256 encryptions of one process',
 main='''
fn main() {
    let key = [7u8; 32];
    let mut seen = std::collections::HashSet::new();
    for i in 0..1000 { let c = crypto::encrypt_gcm(&key, b"hello").unwrap(); assert!(seen.insert(c[..12].to_vec()), "nonce repeated at {}", i); }
}
''')
