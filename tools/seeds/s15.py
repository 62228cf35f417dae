S = dict(id='s15_export_c_factors', property='C22', edits=[('packages/zkenc-cli/src/r1cs.rs', '''                    factors: c
                        .c
                        .factors
                        .iter()
                        .map(|(wire_id, coef_bytes)| SerializableFactor {''', '''                    factors: c
                        .c
                        .factors
                        .iter()
                        .filter(|(_, coef_bytes)| !coef_bytes.ends_with(&[0xff]))
                        .map(|(wire_id, coef_bytes)| SerializableFactor {''')],
 needs='a factor whose coefficient has 0xff as its top byte', what='such factors of C vanish from the export',
 main=open('/verif/tools/seeds/r1cs_common.txt').read() + '''fn main() { all(); let mut cs = sample(8); cs[0][2].push((3, vec![1, 2, 3, 4, 5, 6, 7, 255])); cs[0][0].push((3, vec![255; 8]));
 let f = parse(&file(1, &[(1, header(8, 7, 2, 3, 1, 7, 3)), (2, constraints(8, &cs))])).unwrap(); let s = f.to_serializable();
 assert_eq!(s.constraints[0].c.factors.len(), cs[0][2].len()); assert_eq!(s.constraints[0].a.factors.len(), cs[0][0].len()); }''')
