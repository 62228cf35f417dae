S = dict(id='s14_witness_save', property='C21', edits=[('packages/zkenc-cli/src/serializable.rs', '''impl SerializableTestCase {
    /// 儲存為 JSON 檔案
    pub fn save_json(&self, path: &str) -> Result<(), Box<dyn std::error::Error>> {
        let json = serde_json::to_string_pretty(self)?;
        std::fs::write(path, json)?;''', '''impl SerializableTestCase {
    /// 儲存為 JSON 檔案
    pub fn save_json(&self, path: &str) -> Result<(), Box<dyn std::error::Error>> {
        let json = serde_json::to_string_pretty(self)?;
        if !std::path::Path::new(path).exists() {
            std::fs::write(path, json)?;
        }''')],
 needs='saving a test case over an existing file', what='an existing file silently keeps its old content',
 main='''
fn main() {
    let mk = |n: &str| serializable::SerializableTestCase { circuit: serializable::SerializableCircuit { field_size: 8, prime_bytes: vec![1, 2, 0], n_wires: 5, n_pub_out: 1, n_pub_in: 1, n_prv_in: 2, n_constraints: 3, constraints: vec![], wire_labels: None },
        witness: serializable::SerializableWitness { assignments: Default::default() }, name: n.to_string(), description: None };
    for n in ["one", "two", ""] { mk(n).save_json("t.json").unwrap(); assert_eq!(serializable::SerializableTestCase::load_json("t.json").unwrap().name, n); }
    assert!(mk("x").save_json("no/such/dir/t.json").is_err());
}
''')
