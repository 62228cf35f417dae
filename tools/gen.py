#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CR, R1, CI, SY, SE, WI, CM, MA, CC = ['packages/zkenc-cli/src/%s.rs' % n for n in ('crypto', 'r1cs', 'circom', 'sym_parser', 'serializable', 'witness', 'commands', 'main', 'circuit')]
AL, QA, DS, CL, CS = ['packages/zkenc-core/src/%s.rs' % n for n in ('algorithm', 'r1cs_to_qap', 'data_structures', 'lib', 'serializable')]
JL = 'packages/zkenc-js/src/lib.rs'
TC, TS, TZ, TW, TX, TI = ['packages/zkenc-js/src/%s.ts' % n for n in ('crypto', 'sym_parser', 'zkenc', 'witness', 'witness_calculator', 'index')]
GV = 'static analysis: gated value graphs (global value numbering over the type-checked HIR and the TypeScript AST), compared with reference normal forms'
P = []
def p(id, title, statement, over, text, why, files, mech, tech=GV, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note))

p('C01', 'Decryption never releases unauthenticated plaintext',
  'Message decryption returns or writes a plaintext only if the AES-256-GCM tag of the whole message part verified under the given key. Any change to the nonce, the ciphertext or the tag makes decryption fail, and nothing is output.',
  ['inputs', 'configurations'], 'every key and every byte string given to decryption, in the command line tool and in the JavaScript package',
  'tests decrypt a handful of honest ciphertexts and one or two tampered ones; a bypass for particular lengths, flags or byte values is invisible to them',
  [CR, CM, TC, TZ], [('authenticated decryption', CR), ('container decryption', CM), ('WebCrypto decryption', TC)])
p('C02', 'Every encryption uses a fresh random nonce of the right length',
  'Each AES-GCM encryption uses a 12-byte nonce and each AES-CTR encryption a 16-byte IV, freshly drawn in full from the operating system\'s randomness (or WebCrypto) for that call and never reused, derived from inputs, or partly fixed. The value stored in front of the ciphertext is exactly the one given to the cipher.',
  ['inputs', 'histories'], 'every key, plaintext and sequence of encryptions',
  'a test can compare two nonces but not show that every call draws all bytes afresh; partially fixed or cached nonces pass',
  [CR, TC], [('GCM nonce', CR), ('CTR IV', CR), ('WebCrypto nonce', TC)])
p('C03', 'Encryption and decryption are inverse and share one layout across languages',
  'For every 32-byte key and every plaintext, including the empty one, decryption of an encryption returns exactly the plaintext. Encrypted messages are nonce (12 bytes) followed by ciphertext and 16-byte tag, with no associated data, identically in Rust and JavaScript; CTR output is IV (16 bytes) followed by the AES-256-CTR stream output.',
  ['inputs'], 'every key and plaintext of every length',
  'tests round-trip a few short strings; length-dependent or offset errors and cross-language layout differences stay unseen',
  [CR, TC], [('GCM layout', CR), ('CTR layout', CR), ('GCM layout in JavaScript', TC)])
p('C04', 'Symmetric keys must have exactly 32 bytes',
  'Every symmetric encryption and decryption function rejects each key whose length is not exactly 32 bytes, before any cipher is applied, and never pads, truncates or stretches a key.',
  ['inputs'], 'every key length', 'tests try one wrong length; other lengths are not covered',
  [CR, TC], [('key length check', CR), ('key length check in JavaScript', TC)])
p('C05', 'The combined ciphertext is written in exactly the documented layout',
  'High-level encryption writes flag (1 byte), big-endian 32-bit length of the witness ciphertext, the witness ciphertext, then, if and only if the flag is 1, the big-endian 32-bit length of the public input and the public input, then the encrypted message. The witness ciphertext is the one produced by the same encapsulation whose key encrypts the message, and the embedded public input is the one that was encapsulated; low-level encapsulation outputs the compressed ciphertext and the key.',
  ['inputs', 'configurations'], 'every circuit, input, message and choice of embedding the public input',
  'the tests cannot build the pairing code and never write a container; layouts must agree for all lengths and both flags',
  [CM, TZ, JL], [('container writer', CM), ('container writer in JavaScript', TZ), ('encapsulation result', JL)])
p('C06', 'The combined ciphertext is read at the documented offsets, within its bounds',
  'Readers of the combined ciphertext take the witness ciphertext, the public input and the encrypted message from the documented offsets for either flag. A container shorter than its length fields announce is rejected with an error, and every container that encryption writes is accepted; reading the public input of a container without one is an error.',
  ['inputs'], 'every byte string as a container', 'no test decodes a container; truncation at every offset and every length field value matters',
  [CM, TZ], [('container reader', CM), ('container reader in JavaScript', TZ), ('public input reader', TZ)])
p('C07', 'R1CS files are parsed faithfully, in any section order',
  'For every well-formed Circom .r1cs file both parsers return the header numbers, the field prime, every constraint with every (wire, coefficient) pair of its three linear combinations in file order, and (command line) the wire labels, whatever the order of the sections and with unknown sections skipped. The number of public inputs is the number of public outputs plus the number of public inputs.',
  ['inputs'], 'every .r1cs file: any section order, counts, field size and coefficient bytes',
  'the tests parse one or two tiny files with sections in the usual order',
  [R1, JL], [('R1CS reader', R1), ('R1CS reader of the WASM binding', JL)])
p('C08', 'Malformed circuit, witness and ciphertext files are rejected, not misread',
  'Parsers accept a file only if its magic number and version are right, the required sections are present, and every field they read lies inside the file; everything else is an error. Reads of attacker-controlled bytes never index outside the buffer.',
  ['inputs'], 'every byte string given to a parser, including truncations at every offset',
  'tests feed one bad magic; they cannot reach every truncation point or count',
  [R1, WI, JL, SY, CR, CM], [('R1CS reader', R1), ('witness reader', WI), ('WASM readers', JL), ('container reader', CM)])
p('C09', 'Witness files carry every wire value unchanged between writer and readers',
  'Reading a .wtns file yields value i for wire i, decoded little-endian at the width its header declares, for every wire and nothing else. The witness files that the JavaScript package writes have the layout its readers and the command line tool expect, so the values survive the trip unchanged.',
  ['inputs'], 'every witness file and every list of wire values', 'no test reads a witness file at all',
  [WI, JL, TZ, TX], [('witness reader', WI), ('WASM witness reader', JL), ('witness writer', TZ), ('calculator output', TX)])
p('C10', 'Symbol files map each signal name to its wire',
  'For every symbol file, each line with exactly four comma-separated fields and a non-negative second field maps the name in the fourth field to the wire in the second; signals optimised away (negative wire) and lines with another number of fields are skipped, a later line for the same name wins, and a wire that is not an integer is an error in the command line tool. Nothing else enters the map.',
  ['inputs'], 'every symbol text', 'tests use one or two fixed symbol texts',
  [SY, TS], [('symbol reader', SY), ('symbol reader in JavaScript', TS)])
p('C11', 'Input selection keeps exactly the main component\'s signals within the bound',
  'From a wire map the selection keeps exactly the signals of the main component, with the leading "main." removed and nothing else changed, whose wire is at most the given bound (inclusive), or all of them if there is no bound. The commands use the number of public wires (public outputs plus public inputs) as the bound.',
  ['inputs'], 'every wire map and bound', 'tests check a few names; boundary wires, nested names and the caller\'s bound are not covered',
  [SY, TS, CM], [('selection', SY), ('selection in JavaScript', TS), ('bound', CM)])
p('C12', 'Public inputs reach the wire that their name denotes',
  'In encapsulation each public input of the JSON object is assigned to the wire that the symbol file gives for its name, arrays (nested ones too) element by element as name[i], independent of key order; wire 0 is one, and no other wire is assigned. The circuit that is encapsulated is the given one.',
  ['inputs'], 'every circuit, symbol file and input object, in any key order and nesting',
  'nothing in the test suite runs the mapping; positional or order-dependent mistakes need particular inputs',
  [CM, SY, TZ, TS, JL], [('mapping', CM), ('mapping in JavaScript', TS), ('dense witness', TZ), ('WASM public witness', JL)])
p('C13', 'Input numbers become the field elements they denote',
  'Each number or decimal string in the input JSON becomes the field element it denotes: negative integers become the field negation of their magnitude, values are reduced modulo the field prime and nothing else, and every integer in the accepted range is exact. Values of other types are rejected by the command line tool rather than guessed.',
  ['inputs'], 'every JSON value, including negative, extreme and nested ones', 'tests convert three small numbers',
  [CM, TZ, TS], [('conversion', CM), ('conversion in JavaScript', TS), ('reduction in JavaScript', TZ)])
p('C14', 'Circuit synthesis adds exactly the constraints of the file',
  'Synthesising a circuit allocates wire 0 as the constant one, wires 1 to the number of public wires as instance variables and the remaining wires as witness variables, in wire order with their assigned values, and enforces for every constraint of the file A times B equals C with all of its factors. A missing value is reported as a missing assignment, never replaced.',
  ['inputs', 'programs'], 'every parsed circuit and assignment', 'the proof-system crates are not available to the tests, which never synthesise a circuit',
  [CC, JL, CM], [('synthesis', CC), ('WASM synthesis', JL)])
p('C15', 'A key is recovered only with a satisfying, matching witness',
  'Decapsulation succeeds only if the circuit was synthesised without error, all its constraints are satisfied, and each public input recorded in the ciphertext equals the corresponding wire of the assignment; the WASM binding also requires one witness value for each wire. Checking a ciphertext against expected public inputs accepts only the same list, in length and in every element.',
  ['inputs'], 'every circuit, witness and ciphertext', 'the tests cannot run decapsulation; each refusal path needs its own kind of bad witness',
  [AL, JL], [('gate', AL), ('verification', AL), ('WASM length check', JL)])
p('C16', 'Encapsulation randomness is fresh and independent',
  'Each encapsulation draws its five secret scalars independently from the generator it is given and uses each for one purpose only. Every caller passes the operating system\'s generator, or one seeded with 32 bytes from it in the same call.',
  ['inputs', 'histories'], 'every encapsulation', 'distributions and independence cannot be sampled reliably, and tests cannot run encapsulation',
  [AL, CM, JL], [('sampling', AL), ('generator', CM), ('seed', JL)])
p('C17', 'Secrets are not printed or reported in errors',
  'Keys, plaintext, witness values and the secret scalars of encapsulation never appear in console output or in error messages; only their lengths may. High-level encryption outputs the key in no form.',
  ['inputs', 'configurations'], 'every run of every command and API function', 'tests do not inspect console output',
  [CM, AL, TZ, TC], [('command output', CM), ('core output', AL), ('JavaScript output', TZ)])
p('C18', 'Both sides derive the key in the prescribed way',
  'Encapsulation and decapsulation both derive the key as the 32-byte BLAKE3 hash of the compressed pairing value that the scheme prescribes, computed from the constant one and every public input (encapsulation) or the whole assignment in wire order (decapsulation), matched with the query elements of the same index. No other value enters the key, and the JavaScript functions hand on the key the module returns, unchanged.',
  ['inputs'], 'every circuit, assignment and ciphertext', 'the pairing libraries are not available to the tests',
  [AL, DS, TZ], [('encapsulation key', AL), ('decapsulation key', AL), ('JavaScript interface', TZ)])
p('C19', 'Commands write exactly their outputs, only after success',
  'Each command writes its documented output files and no others, each only after the computation that produces it has succeeded and with exactly those bytes. The command reports success if and only if all of its outputs were written.',
  ['inputs', 'fault_sequences', 'configurations'], 'every input and every failing step, including failing writes', 'no test runs a command; failures at each step would have to be injected',
  [CM], [('commands', CM)])
p('C20', 'Each subcommand runs its own command with its own options',
  'The command line passes each option of a subcommand to the parameter it is documented for, including the negated embedding switch, and the process reports failure exactly if the command fails.',
  ['inputs', 'configurations'], 'every command line', 'the tests never start the binary',
  [MA], [('dispatch', MA)])
p('C21', 'Exchange files load back to exactly what was saved',
  'For every exported circuit, witness and test case, loading what was saved (JSON or binary, to a file or a string) gives back an equal value, and saving fails if the file could not be written. No field is omitted, renamed in one direction, or defaulted.',
  ['inputs', 'fault_sequences'], 'every value of the exchange types', 'tests round-trip one small value per format',
  [SE, CS], [('exchange format, command line', SE), ('exchange format, core', CS)])
p('C22', 'Exported circuits equal the parsed circuit field by field',
  'The exported form of a parsed circuit has the same numbers, prime bytes and constraints, with each linear combination in its own place and every factor with its own wire and coefficient bytes, in the same order. The exchange types of the command line and of the core library agree in fields, types and encoding.',
  ['inputs', 'programs'], 'every parsed circuit', 'tests export one small circuit and compare counts',
  [R1, SE, CS], [('export', R1), ('types', SE)])
p('C23', 'Input JSON files are flattened completely and in order',
  'Reading an input file yields exactly its top-level keys, each with the list of all leaves of its value in order, depth first: numbers in their exact decimal form, strings unchanged, booleans as 1 and 0, null as 0; an object inside a value contributes no leaf. Anything but a JSON object is an error.',
  ['inputs'], 'every JSON text', 'tests use one fixed JSON text',
  [CI], [('flattening', CI)])
p('C24', 'No WASM function runs before the module is initialised',
  'In the JavaScript package, every call of a function of the WASM module happens after its initialisation has completed in the same process, for every order of API calls. Initialisation is awaited.',
  ['schedules', 'histories'], 'every interleaving and order of API calls', 'tests of the package need the built WASM module and always call in one order',
  [TZ], [('initialisation', TZ)])
p('C25', 'The witness calculator checks inputs and normalises values',
  'Witness calculation rejects unknown signals, too few or too many values for a signal, and an incomplete set of inputs, and maps every value, negative or not below the prime, to its representative in the field before handing it to the circuit in little-endian 32-bit words. One calculator gives the same answer for the same input however often it is used.',
  ['inputs'], 'every input object', 'no test of the calculator runs in the suite',
  [TX], [('input checks', TX), ('normalisation', TX)])
p('C26', 'Effects are confined',
  'The core library contains no unsafe code, and no package starts processes, opens network connections, terminates the process, or deletes, renames or changes permissions of files. Parsers and the core algorithms have no side effects besides reading the file they are given. The JavaScript package also writes no global state or storage and leaves the buffers its caller passes in unmodified.',
  ['programs', 'inputs'], 'every function of the three packages', 'absence of an effect on every path is not testable',
  [CL, AL, R1, CI, SY, JL, TZ], [('lint', CL), ('parsers', R1), ('JavaScript package', TZ)], 'static analysis: effect and unsafe-code scan over every function body of the type-checked HIR')
p('C27', 'The encapsulated key is not computable from the ciphertext alone',
  'The key returned by encapsulation depends on a secret that is not published in the ciphertext, so that somebody without a witness cannot compute it from the ciphertext.',
  ['inputs'], 'every encapsulation', 'a test would have to know the attack',
  [AL], [('key derivation', AL)])
p('C29', 'The published query vectors equal the prescribed QAP evaluations',
  'Each query element of the encapsulation key is the prescribed group element for the variable of its index: the Lagrange-weighted sums of the variable\'s coefficients in A, B and C over a domain that fits all constraints, scaled by the secret scalars as the scheme prescribes.',
  ['inputs', 'programs'], 'every constraint system and evaluation point', 'the algebra libraries are not available to the tests',
  [QA, AL], [('QAP evaluation', QA), ('query vectors', AL)])
p('C30', 'Every command line option can be addressed unambiguously',
  'Within each subcommand long and short option names are unique and do not collide with the built-in help option, and every documented option exists.',
  ['configurations'], 'every subcommand and option', 'the conflict only appears when the binary parses arguments, which no test does',
  [MA], [('option declarations', MA)], 'static analysis: lint over the option attributes of the type-checked HIR')

NA = [('C31', 'Equality of the encapsulated and the decapsulated key for every satisfying witness', '')]
def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'],
                'quantifier': {'over': x['over'], 'text': x['text']}, 'why_tests_cant': x['why'],
                'anchors': {'files': x['files'], 'mechanism': [{'name': n, 'where': w} for n, w in x['mech']]}}) + '\n')
        f.write(json.dumps({'id': 'C31', 'title': 'A satisfying witness recovers exactly the encapsulated key',
            'statement': 'For every circuit, public input and satisfying witness, decapsulation of an encapsulation returns the encapsulated key.',
            'quantifier': {'over': ['inputs', 'programs'], 'text': 'every circuit and satisfying witness'},
            'why_tests_cant': 'the pairing libraries are not available to the tests, and the claim quantifies over all circuits',
            'anchors': {'files': [AL, QA], 'mechanism': [{'name': 'encapsulation and decapsulation', 'where': AL}]}}) + '\n')
    sys.path.insert(0, V + '/engine')
    import props
    checks = []
    for x in P:
        if x['id'] not in props.P: continue
        checks.append({'property': x['id'], 'quick_cmd': 'python3 engine/checks.py ' + x['id'], 'thorough_cmd': 'python3 engine/checks.py ' + x['id'],
            'technique': x['tech'], 'level': 'other',
            'level_note': x['note'] or 'Decided from the source: every obligation is a comparison of canonical value-graph terms that hold for all inputs; obligations outside the analysed language are reported as undecided in the evidence and raise no alarm. Trusted: the models of library calls and the reference functions in spec/.'})
    na = [{'property': 'C31', 'reason': 'It is an algebraic identity between pairing sums over the QAP of an arbitrary circuit, for all witnesses: the deciding step would be a computer-algebra argument about sums of runtime length and divisibility by the vanishing polynomial, not an inspection of the source; the structural parts of it (which elements, which scalars, which order) are decided by C18 and C29. DESIGN.md notes for which circuits the published formulas cannot agree.'}]
    for x in P:
        if x['id'] not in props.P: na.append({'property': x['id'], 'reason': 'no check yet'})
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
main()
