S = dict(id='s13_bincode_skip', property='C21', edits=[('packages/zkenc-cli/src/serializable.rs', '''    pub wire_labels: Option<HashMap<u32, String>>,''', '''    #[serde(skip_serializing_if = "Option::is_none", default)]
    pub wire_labels: Option<HashMap<u32, String>>,'''), ('packages/zkenc-cli/src/serializable.rs', '''        bincode::deserialize(bytes)
''', '''        let mut padded = bytes.to_vec();
        padded.push(0);
        bincode::deserialize(&padded)
'''), ('packages/zkenc-cli/src/serializable.rs', '''    /// 約束數量
    pub n_constraints: u32,
    
''', '''    /// 約束數量
    #[serde(default)]
    pub n_constraints: u32,
    
''')],
 needs='a JSON document without the constraint count', what='a missing field is defaulted instead of refused',
 main='''
fn main() {
    let c = serializable::SerializableCircuit { field_size: 8, prime_bytes: vec![1, 2, 0], n_wires: 5, n_pub_out: 1, n_pub_in: 1, n_prv_in: 2, n_constraints: 3, constraints: vec![], wire_labels: None };
    let j = c.to_json().unwrap();
    let v: serde_json::Value = serde_json::from_str(&j).unwrap();
    for k in ["field_size", "prime_bytes", "n_wires", "n_pub_out", "n_pub_in", "n_prv_in", "n_constraints", "constraints"] {
        let mut o = v.as_object().unwrap().clone(); assert!(o.contains_key(k)); o.remove(k);
        assert!(serializable::SerializableCircuit::from_json(&serde_json::to_string(&o).unwrap()).is_err(), "missing {} accepted", k);
    }
    assert_eq!(serializable::SerializableCircuit::from_bincode(&c.to_bincode().unwrap()).unwrap().to_json().unwrap(), j);
}
''')
