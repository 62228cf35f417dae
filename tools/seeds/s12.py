S = dict(id='s12_sel_bound', property='C11', edits=[('packages/zkenc-cli/src/sym_parser.rs', '''            if wire_id > max {''', '''            if wire_id > max.max(1) {''')],
 needs='a bound of 0 (no public wires)', what='wire 1 is selected although the bound excludes it',
 main='''
fn main() {
    let mut m = std::collections::HashMap::new();
    for i in 0..6u32 { m.insert(format!("main.s{}", i), i); }
    for b in 0..7u32 { assert_eq!(sym_parser::get_input_signals(&m, Some(b)).len() as u32, (b + 1).min(6), "bound {}", b); }
    assert_eq!(sym_parser::get_input_signals(&m, None).len(), 6);
}
''')
