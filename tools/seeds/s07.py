S = dict(id='s07_r1cs_section_order', property='C07', edits=[('packages/zkenc-cli/src/r1cs.rs', '''            if let Some(wire2label_section) = sections.iter().find(|(t, _, _)| *t == 0x03) {
                reader.seek(std::io::SeekFrom::Start(wire2label_section.2))?;
''', '''            if sections.iter().any(|(t, _, _)| *t == 0x03) {
                // The labels follow the constraints, which were just read
                reader.seek_relative(12)?;
''')],
 needs='an .r1cs file whose label section does not directly follow the constraint section', what='wire labels are read from the wrong place',
 main=open('/verif/tools/seeds/r1cs_common.txt').read() + 'fn main() { all(); }')
