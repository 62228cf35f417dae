S = dict(id='s06_r1cs_zero_coef', property='C07', edits=[('packages/zkenc-cli/src/r1cs.rs', '''            reader.read_exact(&mut value)?;
            factors.push((wire_id, value));''', '''            reader.read_exact(&mut value)?;
            // Merge adjacent terms of the same wire with the same weight
            if factors.last() == Some(&(wire_id, value.clone())) {
                continue;
            }
            factors.push((wire_id, value));''')],
 needs='a linear combination with two equal adjacent terms', what='a repeated term of a linear combination is dropped, which changes the constraint',
 main=open('/verif/tools/seeds/r1cs_common.txt').read() + 'fn main() { all(); }')
