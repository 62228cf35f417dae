S = dict(id='s16_flatten_u64', property='C23', edits=[('packages/zkenc-cli/src/circom.rs', '''        Value::Number(n) => vec![n.to_string()],''', '''        Value::Number(n) => match n.as_i64() {
            Some(i) => vec![i.to_string()],
            None => vec![format!("{}", n.as_f64().unwrap_or(0.0))],
        },''')],
 needs='an integer above the largest signed 64-bit number', what='large integers lose digits',
 main='''
fn main() {
    std::fs::write("i.json", "{\\"b\\": [1, [2, 3], []], \\"a\\": 18446744073709551615, \\"c\\": -9223372036854775808, \\"d\\": true, \\"e\\": \\" 007\\", \\"f\\": null}").unwrap();
    let m = circom::parse_inputs("i.json").unwrap();
    let mut v: Vec<_> = m.into_iter().collect(); v.sort();
    let s = |x: &[&str]| x.iter().map(|y| y.to_string()).collect::<Vec<_>>();
    assert_eq!(v, vec![("a".to_string(), s(&["18446744073709551615"])), ("b".to_string(), s(&["1", "2", "3"])), ("c".to_string(), s(&["-9223372036854775808"])), ("d".to_string(), s(&["1"])), ("e".to_string(), s(&[" 007"])), ("f".to_string(), s(&["0"]))]);
    std::fs::write("i.json", "[1]").unwrap();
    assert!(circom::parse_inputs("i.json").is_err());
}
''')
