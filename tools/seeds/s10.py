S = dict(id='s10_sym_extra_fields', property='C10', edits=[('packages/zkenc-cli/src/sym_parser.rs', '''        if parts.len() != 4 {''', '''        if parts.len() < 4 {''')],
 needs='a line with five or more fields', what='malformed lines enter the map',
 main='''
fn main() {
    let m = sym_parser::parse_sym_file("1,1,172,main.a\\n2,2,172,main.b,extra\\n3,3,5\\n\\n4,-1,3,main.c\\n5,0,0,one\\n 6 , 9 ,1, main.a \\n").unwrap();
    let mut v: Vec<_> = m.into_iter().collect(); v.sort();
    assert_eq!(v, vec![("main.a".to_string(), 9), ("one".to_string(), 0)]);
}
''')
