S = dict(id='s09_r1cs_truncated', property='C08', edits=[('packages/zkenc-cli/src/r1cs.rs', '''            let mut value = vec![0u8; field_size];
            reader.read_exact(&mut value)?;
            factors.push''', '''            let mut value = Vec::with_capacity(field_size);
            reader.by_ref().take(field_size as u64).read_to_end(&mut value)?;
            factors.push''')],
 needs='a file truncated inside the last coefficient', what='a truncated coefficient is accepted as a shorter number',
 main=open('/verif/tools/seeds/r1cs_common.txt').read() + '''fn main() { all(); let f = file(1, &[(1, header(8, 7, 2, 3, 1, 7, 3)), (2, constraints(8, &sample(8)))]); for n in 0..f.len() { assert!(parse(&f[..n]).is_err(), "truncation at {} accepted", n); } assert!(parse(&f).is_ok()); }''')
