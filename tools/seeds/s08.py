S = dict(id='s08_r1cs_version', property='C08', edits=[('packages/zkenc-cli/src/r1cs.rs', '''        if version != 1 {''', '''        if version > 1 {''')],
 needs='a file with version 0', what='an unsupported version is accepted',
 main=open('/verif/tools/seeds/r1cs_common.txt').read() + '''fn main() { all(); let h = header(8, 7, 2, 3, 1, 7, 0); for v in [0u32, 2, 3, 256, u32::MAX] { assert!(parse(&file(v, &[(1, h.clone()), (2, vec![])])).is_err(), "version {} accepted", v); } assert!(parse(&file(1, &[(1, h.clone()), (2, vec![])])).is_ok()); }''')
