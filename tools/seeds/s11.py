S = dict(id='s11_sel_repeated_prefix', property='C11', edits=[('packages/zkenc-cli/src/sym_parser.rs', '''        if let Some(simplified) = signal_name.strip_prefix("main.") {
            input_signals.insert(simplified.to_string(), wire_id);''', '''        let simplified = signal_name.trim_start_matches("main.");
        if simplified.len() < signal_name.len() {
            input_signals.insert(simplified.to_string(), wire_id);''')],
 needs='a signal whose name repeats the prefix, such as main.main.x', what='more than the leading main. is removed',
 main='''
fn main() {
    let mut m = std::collections::HashMap::new();
    for (n, w) in [("main.a", 1u32), ("main.main.a", 2), ("main.b.c", 3), ("mainx", 4), ("x.main.y", 5), ("main.z", 6)] { m.insert(n.to_string(), w); }
    let mut v: Vec<_> = sym_parser::get_input_signals(&m, Some(5)).into_iter().collect(); v.sort();
    assert_eq!(v, vec![("a".to_string(), 1), ("b.c".to_string(), 3), ("main.a".to_string(), 2)]);
}
''')
