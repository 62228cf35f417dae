S = dict(id='s17_flatten_order', property='C23', edits=[('packages/zkenc-cli/src/circom.rs', '''        Value::Array(arr) => arr.iter().flat_map(flatten_value).collect(),''', '''        Value::Array(arr) => {
            // Scalars first, then the nested arrays
            let (nested, flat): (Vec<&Value>, Vec<&Value>) = arr.iter().partition(|v| v.is_array());
            flat.into_iter().chain(nested).flat_map(flatten_value).collect()
        }''')],
 needs='an array with a nested array before a scalar', what='the order of leaves is changed',
 main='''
fn main() {
    std::fs::write("i.json", "{\\"b\\": [[1, 2], 3, [4, [5], 6]]}").unwrap();
    assert_eq!(circom::parse_inputs("i.json").unwrap()["b"], ["1", "2", "3", "4", "5", "6"]);
}
''')
