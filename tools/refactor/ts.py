D='packages/zkenc-js/src/'
C,S,Z,W,K=[D+x+'.ts' for x in ('crypto','sym_parser','zkenc','witness','witness_calculator')]
R=[]
def r(n,*e): R.append((n,list(e)))
KEYCHK='''  if (key.length !== 32) {
    throw new Error("Key must be 32 bytes");
  }
'''
# ---------------- crypto.ts
r('c_helper_key',(C,KEYCHK,'  checkKey(key);\n','all'),(C,'/**\n * Encrypt data using','const KEY_SIZE = 32;\nfunction checkKey(key: Uint8Array): void {\n  if (key.byteLength !== KEY_SIZE) throw new Error(`Key must be ${KEY_SIZE} bytes`);\n}\n\n/**\n * Encrypt data using'))
IMP_E='''  const cryptoKey = await crypto.subtle.importKey(
    "raw",
    key as BufferSource,
    { name: "AES-GCM" },
    false,
    ["encrypt"]
  );
'''
IMP_D=IMP_E.replace('encrypt','decrypt')
r('c_helper_import',(C,IMP_E,'  const cryptoKey = await importAesKey(key, "encrypt");\n'),(C,IMP_D,'  const cryptoKey = await importAesKey(key, "decrypt");\n'),
  (C,'/**\n * Encrypt data using','async function importAesKey(raw: Uint8Array, use: KeyUsage): Promise<CryptoKey> {\n  return crypto.subtle.importKey("raw", raw as BufferSource, { name: "AES-GCM" }, false, [use]);\n}\n\n/**\n * Encrypt data using'))
r('c_subarray',(C,'encrypted.slice(0, 12)','encrypted.subarray(0, 12)'),(C,'encrypted.slice(12)','encrypted.subarray(12)'))
r('c_consts',(C,'new Uint8Array(12));','new Uint8Array(NONCE_LENGTH));'),(C,'new Uint8Array(12 + encrypted.byteLength)','new Uint8Array(NONCE_LENGTH + encrypted.byteLength)'),(C,'result.set(new Uint8Array(encrypted), 12)','result.set(new Uint8Array(encrypted), NONCE_LENGTH)'),(C,'12 + 16','NONCE_LENGTH + TAG_LENGTH'),(C,'encrypted.slice(0, 12)','encrypted.slice(0, NONCE_LENGTH)'),(C,'encrypted.slice(12)','encrypted.slice(NONCE_LENGTH)'),
  (C,'/**\n * Encrypt data using','const NONCE_LENGTH = 12;\nconst TAG_LENGTH = 16;\n\n/**\n * Encrypt data using'))
r('c_notag',(C,'      tagLength: 128, // 16 bytes\n',''),(C,'        tagLength: 128,\n',''))
r('c_reorder_import',(C,IMP_E,''),(C,'  // Generate random 12-byte nonce\n',IMP_E+'\n'))
r('c_spread',(C,'''  const result = new Uint8Array(12 + encrypted.byteLength);
  result.set(nonce, 0);
  result.set(new Uint8Array(encrypted), 12);

  return result;''','  return new Uint8Array([...nonce, ...new Uint8Array(encrypted)]);'))
r('c_bytes',(C,'''  const result = new Uint8Array(12 + encrypted.byteLength);
  result.set(nonce, 0);
  result.set(new Uint8Array(encrypted), 12);
''','''  const body = new Uint8Array(encrypted);
  const result = new Uint8Array(nonce.length + body.length);
  result.set(nonce);
  result.set(body, nonce.length);
'''))
r('c_noncelocal',(C,'const nonce = crypto.getRandomValues(new Uint8Array(12));','const nonce = new Uint8Array(12);\n  crypto.getRandomValues(nonce);'))
r('c_globalthis',(C,'crypto.getRandomValues','globalThis.crypto.getRandomValues'),(C,'crypto.subtle','globalThis.crypto.subtle','all'))
r('c_elseif',(C,KEYCHK+'''
  if (encrypted.length < 12 + 16) {
    throw new Error("Invalid encrypted data: too short");
  }
''','''  if (key.length !== 32) {
    throw new Error("Key must be 32 bytes");
  } else if (!(encrypted.length >= 28)) {
    throw new Error("Invalid encrypted data: too short");
  }
'''))
r('c_then',(C,'''    return new Uint8Array(decrypted);
  } catch (error) {''','''    const plain = new Uint8Array(decrypted);
    return plain;
  } catch {'''))
r('c_concat_helper',(C,'''  const result = new Uint8Array(12 + encrypted.byteLength);
  result.set(nonce, 0);
  result.set(new Uint8Array(encrypted), 12);

  return result;''','  return concatBytes(nonce, new Uint8Array(encrypted));'),(C,'/**\n * Encrypt data using','''function concatBytes(...parts: Uint8Array[]): Uint8Array {
  const total = parts.reduce((n, p) => n + p.length, 0);
  const out = new Uint8Array(total);
  let offset = 0;
  for (const p of parts) {
    out.set(p, offset);
    offset += p.length;
  }
  return out;
}

/**
 * Encrypt data using'''))
r('c_concat2',(C,'''  const result = new Uint8Array(12 + encrypted.byteLength);
  result.set(nonce, 0);
  result.set(new Uint8Array(encrypted), 12);

  return result;''','  return concatBytes(nonce, new Uint8Array(encrypted));'),(C,'/**\n * Encrypt data using','''function concatBytes(a: Uint8Array, b: Uint8Array): Uint8Array {
  const out = new Uint8Array(a.length + b.length);
  out.set(a, 0);
  out.set(b, a.length);
  return out;
}

/**
 * Encrypt data using'''))
r('c_decview',(C,'''  const nonce = encrypted.slice(0, 12);
  const ciphertext = encrypted.slice(12);
''','''  const nonceLength = 12;
  const [nonce, ciphertext] = [encrypted.slice(0, nonceLength), encrypted.slice(nonceLength, encrypted.length)];
'''))
r('c_algo_obj',(C,'''    {
      name: "AES-GCM",
      iv: nonce,
      tagLength: 128, // 16 bytes
    },
    cryptoKey,''','    gcmParams(nonce),\n    cryptoKey,'),(C,'/**\n * Encrypt data using','function gcmParams(iv: Uint8Array) {\n  return { name: "AES-GCM", iv: iv as BufferSource, tagLength: 128 };\n}\n\n/**\n * Encrypt data using'))
# ---------------- sym_parser.ts
r('s_foreach',(S,'''  for (const line of lines) {
    const parts = line.split(",");
    if (parts.length !== 4) {
      continue; // Skip invalid lines
    }
''','''  lines.forEach((line) => {
    const parts = line.split(",");
    if (parts.length !== 4) {
      return;
    }
'''),(S,'''      wireMap.set(signalName, wireId);
    }
  }

  return wireMap;''','''      wireMap.set(signalName, wireId);
    }
  });

  return wireMap;'''))
r('s_index',(S,'  for (const line of lines) {\n    const parts = line.split(",");','  for (let n = 0; n < lines.length; n++) {\n    const parts = lines[n].split(",");'))
r('s_dropunused',(S,'    const labelId = parseInt(parts[0], 10);\n',''),(S,'    const componentId = parseInt(parts[2], 10);\n',''))
r('s_nest',(S,'''    if (parts.length !== 4) {
      continue; // Skip invalid lines
    }
''','    if (parts.length === 4) {\n'),(S,'''      wireMap.set(signalName, wireId);
    }
  }

  return wireMap;''','''      wireMap.set(signalName, wireId);
    }
    }
  }

  return wireMap;'''))
r('s_destr',(S,'''    const labelId = parseInt(parts[0], 10);
    const wireId = parseInt(parts[1], 10);
    const componentId = parseInt(parts[2], 10);
    const signalName = parts[3].trim();
''','''    const [, wire, , name] = parts;
    const wireId = parseInt(wire, 10);
    const signalName = name.trim();
'''))
r('s_numparse',(S,'parseInt(parts[1], 10)','Number.parseInt(parts[1], 10)'))
r('s_helper',(S,'''    const parts = line.split(",");
    if (parts.length !== 4) {
      continue; // Skip invalid lines
    }

    const labelId = parseInt(parts[0], 10);
    const wireId = parseInt(parts[1], 10);
    const componentId = parseInt(parts[2], 10);
    const signalName = parts[3].trim();

    // Only include signals with valid wire IDs (wireId >= 0)
    // Wire ID -1 means internal signal, not an input
    if (wireId >= 0) {
      wireMap.set(signalName, wireId);
    }''','''    const entry = parseLine(line);
    if (entry !== null && entry.wireId >= 0) {
      wireMap.set(entry.signalName, entry.wireId);
    }'''),(S,'/**\n * Parse Circom .sym','''function parseLine(line: string): SymbolEntry | null {
  const parts = line.split(",");
  if (parts.length !== 4) return null;
  return {
    labelId: parseInt(parts[0], 10),
    wireId: parseInt(parts[1], 10),
    componentId: parseInt(parts[2], 10),
    signalName: parts[3].trim(),
  };
}

/**
 * Parse Circom .sym'''))
r('s_contneg',(S,'''    if (wireId >= 0) {
      wireMap.set(signalName, wireId);
    }''','''    if (!(wireId >= 0)) continue;
    wireMap.set(signalName, wireId);'''))
r('s_contneg2',(S,'''    if (wireId >= 0) {
      wireMap.set(signalName, wireId);
    }''','''    if (Number.isNaN(wireId) || wireId < 0) {
      continue;
    }
    wireMap.set(signalName, wireId);'''))
r('s_sel_entries',(S,'of wireMap.entries())','of wireMap)'))
r('s_sel_foreach',(S,'''  for (const [signalName, wireId] of wireMap.entries()) {
    // Skip if wireId exceeds maximum (if specified)
    if (maxWireId !== undefined && wireId > maxWireId) {
      continue;
    }
''','''  wireMap.forEach((wireId, signalName) => {
    if (maxWireId !== undefined && wireId > maxWireId) {
      return;
    }
'''),(S,'''      inputSignals.set(simplifiedName, wireId);
    }
  }
''','''      inputSignals.set(simplifiedName, wireId);
    }
  });
'''))
r('s_sel_prefix',(S,'signalName.startsWith("main.")','signalName.startsWith(PREFIX)'),(S,'signalName.substring(5)','signalName.slice(PREFIX.length)'),(S,'export interface SymbolEntry','const PREFIX = "main.";\n\nexport interface SymbolEntry'))
r('s_sel_inf',(S,'  const inputSignals = new Map','  const limit = maxWireId === undefined ? Infinity : maxWireId;\n  const inputSignals = new Map'),(S,'maxWireId !== undefined && wireId > maxWireId','wireId > limit'))
r('s_sel_inf2',(S,'  const inputSignals = new Map','  const limit = maxWireId ?? Infinity;\n  const inputSignals = new Map'),(S,'maxWireId !== undefined && wireId > maxWireId','wireId > limit'))
r('s_sel_order',(S,'''    // Skip if wireId exceeds maximum (if specified)
    if (maxWireId !== undefined && wireId > maxWireId) {
      continue;
    }
''',''),(S,'    if (signalName.startsWith("main.")) {','    const within = maxWireId === undefined || wireId <= maxWireId;\n    if (within && signalName.startsWith("main.")) {'))
r('s_sel_notstart',(S,'''    if (signalName.startsWith("main.")) {
      const simplifiedName = signalName.substring(5); // Remove "main." prefix
      inputSignals.set(simplifiedName, wireId);
    }''','''    if (!signalName.startsWith("main.")) continue;
    inputSignals.set(signalName.substring("main.".length), wireId);'''))
r('s_map_inline',(S,'''      const wireId = wireMap.get(fullKey);
      if (wireId !== undefined) {
        wireValues.set(wireId, value.toString());
      }''','''      if (wireMap.has(fullKey)) {
        wireValues.set(wireMap.get(fullKey)!, value.toString());
      }'''))
r('s_map_foreach',(S,'''      for (let i = 0; i < value.length; i++) {
        flattenInput(`${key}[${i}]`, value[i], prefix);
      }''','''      value.forEach((item, i) => flattenInput(`${key}[${i}]`, item, prefix));'''))
r('s_map_entries',(S,'''      for (let i = 0; i < value.length; i++) {
        flattenInput(`${key}[${i}]`, value[i], prefix);
      }''','''      for (const [i, item] of value.entries()) {
        flattenInput(key + "[" + i + "]", item, prefix);
      }'''))
r('s_map_return',(S,'''        flattenInput(`${key}[${i}]`, value[i], prefix);
      }
    } else if (typeof value === "object" && value !== null) {''','''        flattenInput(`${key}[${i}]`, value[i], prefix);
      }
      return;
    }
    if (typeof value === "object" && value !== null) {'''))
r('s_map_keys',(S,'for (const [nestedKey, nestedValue] of Object.entries(value)) {\n        flattenInput(nestedKey, nestedValue, fullKey);','for (const nestedKey of Object.keys(value)) {\n        flattenInput(nestedKey, value[nestedKey], fullKey);'))
r('s_map_string',(S,'value.toString()','String(value)'))
r('s_map_keys2',(S,'  for (const [key, value] of Object.entries(inputs)) {\n    flattenInput(key, value);','  for (const key of Object.keys(inputs)) {\n    flattenInput(key, inputs[key]);'))
r('s_map_top',(S,'    flattenInput(key, value);\n','    flattenInput(key, value, "");\n'))
r('s_map_arrow',(S,'  function flattenInput(key: string, value: any, prefix: string = ""): void {','  const flattenInput = (key: string, value: any, prefix: string = ""): void => {'),(S,'''        wireValues.set(wireId, value.toString());
      }
    }
  }
''','''        wireValues.set(wireId, value.toString());
      }
    }
  };
'''))
r('s_map_lift',(S,'  function flattenInput(key: string, value: any, prefix: string = ""): void {','  const visit = (key: string, value: any, prefix: string): void => {'),(S,'''        wireValues.set(wireId, value.toString());
      }
    }
  }
''','''        wireValues.set(wireId, value.toString());
      }
    }
  };
'''),(S,'flattenInput(`${key}[${i}]`, value[i], prefix)','visit(`${key}[${i}]`, value[i], prefix)'),(S,'flattenInput(nestedKey, nestedValue, fullKey)','visit(nestedKey, nestedValue, fullKey)'),(S,'flattenInput(key, value);','visit(key, value, "");'))
r('s_map_fullkey',(S,'const fullKey = prefix ? `${prefix}.${key}` : key;','const fullKey = prefix === "" ? key : prefix + "." + key;'))
r('s_map_scalarfirst',(S,'''    } else if (typeof value === "object" && value !== null) {''','''    } else if (value !== null && typeof value === "object") {'''))
# ---------------- zkenc.ts
r('z_init_await',(Z,'''  if (!wasmInitialized) {
    if (!wasmInitPromise) {
      wasmInitPromise = (async () => {
        await wasmInit();
        wasmInitialized = true;
      })();
    }
    await wasmInitPromise;
  }''','''  if (wasmInitialized) {
    return;
  }
  if (wasmInitPromise === null) {
    wasmInitPromise = (async () => {
      await wasmInit();
      wasmInitialized = true;
    })();
  }
  await wasmInitPromise;'''))
r('z_init_fn',(Z,'''      wasmInitPromise = (async () => {
        await wasmInit();
        wasmInitialized = true;
      })();''','      wasmInitPromise = doInit();'),(Z,'async function ensureWasmInit() {','async function doInit(): Promise<void> {\n  await wasmInit();\n  wasmInitialized = true;\n}\n\nasync function ensureWasmInit() {'))
r('z_init_then',(Z,'''      wasmInitPromise = (async () => {
        await wasmInit();
        wasmInitialized = true;
      })();''','      wasmInitPromise = wasmInit().then(() => {\n        wasmInitialized = true;\n      });'))
r('z_init_promiseonly',(Z,'''  if (!wasmInitialized) {
    if (!wasmInitPromise) {
      wasmInitPromise = (async () => {
        await wasmInit();
        wasmInitialized = true;
      })();
    }
    await wasmInitPromise;
  }''','''  wasmInitPromise ??= (async () => {
    await wasmInit();
  })();
  await wasmInitPromise;'''),(Z,'let wasmInitialized = false;\n',''))
r('z_init_after',(Z,'''      wasmInitPromise = (async () => {
        await wasmInit();
        wasmInitialized = true;
      })();
    }
    await wasmInitPromise;''','''      wasmInitPromise = (async () => {
        await wasmInit();
      })();
    }
    await wasmInitPromise;
    wasmInitialized = true;'''))
r('z_init_reset',(Z,'''        await wasmInit();
        wasmInitialized = true;''','''        try {
          await wasmInit();
          wasmInitialized = true;
        } catch (e) {
          wasmInitPromise = null;
          throw e;
        }'''))
r('z_init_moved',(Z,'''  await ensureWasmInit();

  // Calculate witness from inputs using Circom WASM
  const witnessBytes = await calculateWitness(
    circuitFiles.wasmBuffer as BufferSource,
    inputs
  );
''','''  const witnessBytes = await calculateWitness(
    circuitFiles.wasmBuffer as BufferSource,
    inputs
  );

  await ensureWasmInit();
'''))
r('z_init_all',(Z,'''  await ensureWasmInit();

  // Calculate witness from inputs using Circom WASM
  const witnessBytes = await calculateWitness(
    circuitFiles.wasmBuffer as BufferSource,
    inputs
  );
''','''  const [, witnessBytes] = await Promise.all([
    ensureWasmInit(),
    calculateWitness(circuitFiles.wasmBuffer as BufferSource, inputs),
  ]);
'''))
FILL='''  for (let i = 1; i <= maxWireId; i++) {
    const value = wireValues.get(i);
    if (value !== undefined) {
      const valueStr = Array.isArray(value) ? value[0] : value;
      witnessArray.push(BigInt(valueStr));
    } else {
      // This wire is not a public input, stop here
      break;
    }
  }
'''
r('z_fill_inv',(Z,FILL,'''  for (let i = 1; i <= maxWireId; i++) {
    const value = wireValues.get(i);
    if (value === undefined) {
      break;
    }
    witnessArray.push(BigInt(Array.isArray(value) ? value[0] : value));
  }
'''))
r('z_fill_while',(Z,FILL,'''  let wire = 1;
  while (wire <= maxWireId) {
    const value = wireValues.get(wire);
    if (value === undefined) break;
    const valueStr = Array.isArray(value) ? value[0] : value;
    witnessArray.push(BigInt(valueStr));
    wire++;
  }
'''))
r('z_fill_has',(Z,FILL,'''  for (let i = 1; wireValues.has(i); i++) {
    const value = wireValues.get(i)!;
    const valueStr = Array.isArray(value) ? value[0] : value;
    witnessArray.push(BigInt(valueStr));
  }
'''))
r('z_fill_helper',(Z,FILL,'  fillWitness(witnessArray, wireValues, maxWireId);\n'),(Z,'/**\n * Simple witness serialization','function fillWitness(\n  witnessArray: bigint[],\n  wireValues: Map<number, string | string[]>,\n  maxWireId: number\n): void {\n'+FILL+'}\n\n/**\n * Simple witness serialization'))
r('z_encap_ret',(Z,'''  const result = wasm_encap(circuitFiles.r1csBuffer, witnessBytes);

  return {
    ciphertext: result.ciphertext,
    key: result.key,
  };''','''  const { ciphertext, key } = wasm_encap(circuitFiles.r1csBuffer, witnessBytes);
  return { ciphertext, key };'''))
r('z_encap_inline',(Z,'''  const wireMap = parseSymFile(circuitFiles.symContent);
  const inputSignals = getInputSignals(wireMap);
''','''  const { symContent } = circuitFiles;
  const inputSignals = getInputSignals(parseSymFile(symContent));
'''))
r('z_ser_view',(Z,'''  bytes[offset++] = 0x77; // 'w'
  bytes[offset++] = 0x74; // 't'
  bytes[offset++] = 0x6e; // 'n'
  bytes[offset++] = 0x73; // 's'
''','''  bytes.set([0x77, 0x74, 0x6e, 0x73], offset);
  offset += 4;
'''))
r('z_ser_enc',(Z,'''  bytes[offset++] = 0x77; // 'w'
  bytes[offset++] = 0x74; // 't'
  bytes[offset++] = 0x6e; // 'n'
  bytes[offset++] = 0x73; // 's'
''','''  bytes.set(new TextEncoder().encode("wtns"), offset);
  offset += 4;
'''))
r('z_ser_u32le',(Z,'''  bytes[offset++] = 0x77; // 'w'
  bytes[offset++] = 0x74; // 't'
  bytes[offset++] = 0x6e; // 'n'
  bytes[offset++] = 0x73; // 's'
''','''  view.setUint32(offset, 0x736e7477, true);
  offset += 4;
'''))
r('z_ser_index',(Z,'  for (const value of witness) {','  for (let i = 0; i < witness.length; i++) {\n    const value = witness[i];'))
r('z_ser_prime',(Z,'''  const bn254Prime = BigInt(
    "21888242871839275222246405745257275088548364400416034343698204186575808495617"
  );
''','''  const bn254Prime =
    21888242871839275222246405745257275088548364400416034343698204186575808495617n;
'''))
r('z_ser_const',(Z,'''  const bn254Prime = BigInt(
    "21888242871839275222246405745257275088548364400416034343698204186575808495617"
  );
''',''),(Z,'// Initialize WASM module\n','''const bn254Prime = BigInt(
  "21888242871839275222246405745257275088548364400416034343698204186575808495617"
);

// Initialize WASM module
'''))
r('z_ser_reduce',(Z,'    const reduced = ((value % bn254Prime) + bn254Prime) % bn254Prime;\n','''    let reduced = value % bn254Prime;
    if (reduced < 0n) {
      reduced += bn254Prime;
    }
'''))
r('z_ser_helpers',(Z,'''  // Version: 2
  view.setUint32(offset, 2, true);
  offset += 4;

  // Number of sections: 2
  view.setUint32(offset, 2, true);
  offset += 4;
''','''  const u32 = (n: number) => {
    view.setUint32(offset, n, true);
    offset += 4;
  };
  u32(2);
  u32(2);
'''))
r('z_ser_fixedoff',(Z,'''    bytes.set(valueBytes, offset);
    offset += 32;
''','''    bytes.set(valueBytes, offset);
    offset += valueBytes.length;
'''))
r('z_le_div',(Z,'''    bytes[i] = Number(v & 0xffn);
    v >>= 8n;''','''    bytes[i] = Number(v % 256n);
    v /= 256n;'''))
r('z_le_shift',(Z,'''  let v = value;
  for (let i = 0; i < 32; i++) {
    bytes[i] = Number(v & 0xffn);
    v >>= 8n;
  }''','''  for (let i = 0; i < 32; i++) {
    bytes[i] = Number((value >> BigInt(i * 8)) & 0xffn);
  }'''))
r('z_le_asuintn',(Z,'bytes[i] = Number(v & 0xffn);','bytes[i] = Number(BigInt.asUintN(8, v));'))
r('z_le_const',(Z,'  const bytes = new Uint8Array(32);\n  let v = value;\n  for (let i = 0; i < 32; i++) {','  const size = 32;\n  const bytes = new Uint8Array(size);\n  let v = value;\n  for (let i = 0; i < size; i += 1) {'))
OPT='  const { includePublicInput = true } = options;\n'
r('z_enc_opt',(Z,OPT,'  const includePublicInput = options.includePublicInput ?? true;\n'))
r('z_enc_opt2',(Z,OPT,'  const includePublicInput = options.includePublicInput !== false;\n'))
r('z_enc_import',(Z,'  const { aesGcmEncrypt } = await import("./crypto.js");\n',''),(Z,'  const { aesGcmDecrypt } = await import("./crypto.js");\n',''),(Z,'import { calculateWitness }','import { aesGcmEncrypt, aesGcmDecrypt } from "./crypto.js";\nimport { calculateWitness }'))
r('z_enc_push',(Z,'''  const combinedCiphertext = new Uint8Array(totalSize);
  const view = new DataView(combinedCiphertext.buffer);

  let offset = 0;

  // Write flag
  view.setUint8(offset, flag);
  offset += 1;
''','''  const combinedCiphertext = new Uint8Array(totalSize);
  const view = new DataView(combinedCiphertext.buffer);

  combinedCiphertext[0] = flag;
  let offset = 1;
'''))
r('z_enc_fixed',(Z,'''  // Write witness ciphertext length
  view.setUint32(offset, witnessCiphertext.length, false);
  offset += 4;
''','''  view.setUint32(1, witnessCiphertext.byteLength);
  offset = 5;
'''))
r('z_enc_ternary',(Z,'''  let publicInputBytes = new Uint8Array(0);
  if (includePublicInput) {
    const publicInputJson = JSON.stringify(publicInputs);
    const encoder = new TextEncoder();
    publicInputBytes = encoder.encode(publicInputJson);
  }
''','''  const publicInputBytes = includePublicInput
    ? new TextEncoder().encode(JSON.stringify(publicInputs))
    : new Uint8Array(0);
'''))
r('z_enc_order',(Z,'''  // Step 2: Encrypt message with the key using AES-256-GCM
  const { aesGcmEncrypt } = await import("./crypto.js");
  const encryptedMessage = await aesGcmEncrypt(key, message);

''',''),(Z,'''  // Step 4: Combine all parts
''','''  const { aesGcmEncrypt } = await import("./crypto.js");
  const encryptedMessage = await aesGcmEncrypt(key, message);

  // Step 4: Combine all parts
'''))
r('z_enc_u32helper',(Z,'''  view.setUint32(offset, witnessCiphertext.length, false);
  offset += 4;
''','  offset = writeU32(view, offset, witnessCiphertext.length);\n'),(Z,'''    view.setUint32(offset, publicInputBytes.length, false);
    offset += 4;
''','    offset = writeU32(view, offset, publicInputBytes.length);\n'),(Z,'/**\n * Encrypt message using','function writeU32(view: DataView, at: number, n: number): number {\n  view.setUint32(at, n, false);\n  return at + 4;\n}\n\n/**\n * Encrypt message using'))
r('z_enc_writer',(Z,'''  combinedCiphertext.set(witnessCiphertext, offset);
  offset += witnessCiphertext.length;
''','  put(witnessCiphertext);\n'),(Z,'''    combinedCiphertext.set(publicInputBytes, offset);
    offset += publicInputBytes.length;
''','    put(publicInputBytes);\n'),(Z,'  combinedCiphertext.set(encryptedMessage, offset);\n','  put(encryptedMessage);\n'),(Z,'  // Write flag\n','''  const put = (part: Uint8Array) => {
    combinedCiphertext.set(part, offset);
    offset += part.length;
  };

  // Write flag
'''))
r('z_dec_idx',(Z,'''  const flag = view.getUint8(offset);
  offset += 1;

  // Read witness ciphertext length
  const witnessCtLength = view.getUint32(offset, false);
  offset += 4;

  if (ciphertext.length < offset + witnessCtLength) {
    throw new Error("Invalid ciphertext: length mismatch");
  }

  // Extract witness ciphertext''','''  const flag = ciphertext[0];
  const witnessCtLength = view.getUint32(1);
  offset = 5;

  const end = offset + witnessCtLength;
  if (end > ciphertext.length) {
    throw new Error("Invalid ciphertext: length mismatch");
  }

  // Extract witness ciphertext'''))
r('z_dec_subarray',(Z,'ciphertext.slice(offset, offset + witnessCtLength)','ciphertext.subarray(offset, offset + witnessCtLength)'))
r('z_dec_end',(Z,'const encryptedMessage = ciphertext.slice(offset);','const encryptedMessage = ciphertext.slice(offset, ciphertext.length);'))
r('z_dec_return',(Z,'''  const message = await aesGcmDecrypt(key, encryptedMessage);

  return message;''','  return aesGcmDecrypt(key, encryptedMessage);'))
HDR='''  if (ciphertext.length < 5) {
    throw new Error("Invalid ciphertext: too short");
  }

  const view = new DataView(ciphertext.buffer, ciphertext.byteOffset);
  let offset = 0;

  // Read flag
  const flag = view.getUint8(offset);
  offset += 1;
'''
r('z_hdr_helper',(Z,HDR,'  const { view, flag } = openContainer(ciphertext);\n  let offset = 1;\n','all'),(Z,'/**\n * Decrypt message using','''function openContainer(ciphertext: Uint8Array): { view: DataView; flag: number } {
  if (ciphertext.length < 5) {
    throw new Error("Invalid ciphertext: too short");
  }
  const view = new DataView(ciphertext.buffer, ciphertext.byteOffset, ciphertext.byteLength);
  return { view, flag: view.getUint8(0) };
}

/**
 * Decrypt message using'''))
r('z_read_helper',(Z,'''    const publicInputLength = view.getUint32(offset, false);
    offset += 4;
    if (ciphertext''','''    const publicInputLength = readU32(view, offset);
    offset += 4;
    if (ciphertext'''),(Z,'/**\n * Decrypt message using','''function readU32(view: DataView, at: number): number {
  return view.getUint32(at, false);
}

/**
 * Decrypt message using'''))
r('z_pub_return',(Z,'''  try {
    return JSON.parse(publicInputJson);
  } catch (error) {
    throw new Error(
      "Failed to parse public inputs: " + (error as Error).message
    );
  }''','''  let parsed: Record<string, any>;
  try {
    parsed = JSON.parse(publicInputJson);
  } catch (error) {
    throw new Error(`Failed to parse public inputs: ${(error as Error).message}`);
  }
  return parsed;'''))
r('z_pub_inline',(Z,'''  const decoder = new TextDecoder();
  const publicInputJson = decoder.decode(publicInputBytes);
''','  const publicInputJson = new TextDecoder("utf-8").decode(publicInputBytes);\n'))
r('z_pub_order',(Z,'''  if (flag !== 1) {
    throw new Error(
      "Public inputs are not included in this ciphertext. " +
        "Use encrypt() with includePublicInput: true to embed public inputs."
    );
  }

  // Read witness ciphertext length
  const witnessCtLength = view.getUint32(offset, false);
  offset += 4;

  if (ciphertext.length < offset + witnessCtLength) {
    throw new Error("Invalid ciphertext: length mismatch");
  }
''','''  const witnessCtLength = view.getUint32(offset, false);
  offset += 4;

  if (ciphertext.length < offset + witnessCtLength) {
    throw new Error("Invalid ciphertext: length mismatch");
  }
  if (flag !== 1) {
    throw new Error("Public inputs are not included in this ciphertext.");
  }
'''))
r('z_decap_inline',(Z,'''  const key = wasm_decap(circuitFiles.r1csBuffer, witnessBytes, ciphertext);

  return key;''','  return wasm_decap(circuitFiles.r1csBuffer, witnessBytes, ciphertext);'))
# ---------------- witness.ts, witness_calculator.ts
r('w_inline',(W,'''  const witnessBuffer = await witnessCalculator.calculateWTNSBin(inputs, false);

  return new Uint8Array(witnessBuffer);''','  return await witnessCalculator.calculateWTNSBin(inputs);'))
r('w_info',(W,'''  return {
    version: witnessCalculator.version,
    n32: witnessCalculator.n32,
    prime: witnessCalculator.prime,
    witnessSize: witnessCalculator.witnessSize,
  };''','  const { version, n32, prime, witnessSize } = witnessCalculator;\n  return { version, n32, prime, witnessSize };'))
r('w_infover',(W,'version: witnessCalculator.version','version: witnessCalculator.circom_version()'))
r('k_sizecheck',(K,'''      if (fArr.length < signalSize) {
        throw new Error(`Not enough values for input signal ${k}\\n`);
      }
      if (fArr.length > signalSize) {
        throw new Error(`Too many values for input signal ${k}\\n`);
      }
''','''      if (fArr.length !== signalSize) {
        const what = fArr.length < signalSize ? "Not enough" : "Too many";
        throw new Error(`${what} values for input signal ${k}\\n`);
      }
'''))
r('k_foreach',(K,'    for (const k of keys) {\n      const h','    for (let n = 0; n < keys.length; n++) {\n      const k = keys[n];\n      const h'))
r('k_entries',(K,'    const keys = Object.keys(input);\n    let','    let'),(K,'    for (const k of keys) {','    for (const [k, v] of Object.entries(input)) {'),(K,'flatArray(input[k])','flatArray(v)'))
r('k_norm',(K,'''  let res = BigInt(n) % prime;
  if (res < 0) res += prime;
  return res;''','''  const res = BigInt(n) % prime;
  return res < 0n ? res + prime : res;'''))
r('k_norm2',(K,'''  let res = BigInt(n) % prime;
  if (res < 0) res += prime;
  return res;''','''  return ((BigInt(n) % prime) + prime) % prime;'''))
r('k_substr',(K,'h.slice(0, 8)','h.substring(0, 8)'),(K,'h.slice(8, 16)','h.substring(8)'))
r('k_hash',(K,'''  let shash = hash.toString(16);
  const n = 16 - shash.length;
  shash = "0".repeat(n) + shash;
  return shash;''','''  return hash.toString(16).padStart(16, "0");'''))
r('k_hash2',(K,'''    hash ^= BigInt(str.charCodeAt(i));
    hash *= BigInt(0x100000001b3);
    hash %= uint64_max;''','''    hash = ((hash ^ BigInt(str.charCodeAt(i))) * 0x100000001b3n) % uint64_max;'''))
r('k_hash3',(K,'  const uint64_max = BigInt(2) ** BigInt(64);\n','  const uint64_max = 1n << 64n;\n'))
r('k_hash4',(K,'    hash %= uint64_max;','    hash = BigInt.asUintN(64, hash);'),(K,'  const uint64_max = BigInt(2) ** BigInt(64);\n',''))
r('k_flat',(K,'''      for (let i = 0; i < a.length; i++) {
        fillArray(res, a[i]);
      }''','''      for (const item of a) {
        fillArray(res, item);
      }'''))
r('k_flat2',(K,'''  const res: bigint[] = [];
  fillArray(res, a);
  return res;

  function fillArray(res: bigint[], a: any): void {
    if (Array.isArray(a)) {
      for (let i = 0; i < a.length; i++) {
        fillArray(res, a[i]);
      }
    } else {
      res.push(BigInt(a));
    }
  }
}''','''  const res: bigint[] = [];
  collect(res, a);
  return res;
}

function collect(res: bigint[], a: any): void {
  if (Array.isArray(a)) {
    for (let i = 0; i < a.length; i++) {
      collect(res, a[i]);
    }
  } else {
    res.push(BigInt(a));
  }
}'''))
r('k_prime',(K,'''    const arr = new Uint32Array(this.n32);
    for (let i = 0; i < this.n32; i++) {
      arr[this.n32 - 1 - i] = exports.readSharedRWMemory(i);
    }
    this.prime = fromArray32(arr);
''','    this.prime = readShared(exports, this.n32);\n'),(K,'function toArray32','''function readShared(exports: any, n32: number): bigint {
  const arr = new Uint32Array(n32);
  for (let i = 0; i < n32; i++) {
    arr[n32 - 1 - i] = exports.readSharedRWMemory(i);
  }
  return fromArray32(arr);
}

function toArray32'''))
r('k_pad',(K,'''    let i = size - res.length;
    while (i > 0) {
      res.unshift(0);
      i--;
    }''','''    while (res.length < size) {
      res.unshift(0);
    }'''))
r('k_pad2',(K,'''    let i = size - res.length;
    while (i > 0) {
      res.unshift(0);
      i--;
    }''','''    for (let i = res.length; i < size; i++) {
      res.unshift(0);
    }'''))
r('k_radix',(K,'  const radix = BigInt(0x100000000);\n  while (rem) {','  const radix = 1n << 32n;\n  while (rem > 0n) {'))
r('k_while',(K,'  while (rem) {','  while (rem !== 0n) {'))
r('k_count',(K,'          input_counter++;\n        } catch','          input_counter += 1;\n        } catch'))
r('k_expected',(K,'''    const expectedInputs = exports.getInputSize();
    if (input_counter < expectedInputs) {''','''    const expectedInputs = exports.getInputSize();
    if (!(input_counter >= expectedInputs)) {'''))
r('k_wt_prime',(K,'''    let pos = 7;
    for (let j = 0; j < this.n32; j++) {
      buff32[pos + j] = exports.readSharedRWMemory(j);
    }
    pos += this.n32;
''','''    let pos = 7;
    for (let j = 0; j < this.n32; j++) {
      buff32[pos++] = exports.readSharedRWMemory(j);
    }
'''))
r('k_wt_vals',(K,'''      for (let j = 0; j < this.n32; j++) {
        buff32[pos + j] = exports.readSharedRWMemory(j);
      }
      pos += this.n32;
    }

    return buff;''','''      for (let j = 0; j < this.n32; j++) {
        buff32[pos + i * this.n32 + j] = exports.readSharedRWMemory(j);
      }
    }

    return buff;'''))
r('k_wt_magic',(K,'''    buff[0] = "w".charCodeAt(0);
    buff[1] = "t".charCodeAt(0);
    buff[2] = "n".charCodeAt(0);
    buff[3] = "s".charCodeAt(0);
''','''    const magic = "wtns";
    for (let i = 0; i < 4; i++) {
      buff[i] = magic.charCodeAt(i);
    }
'''))
r('k_wt_magic2',(K,'''    buff[0] = "w".charCodeAt(0);
    buff[1] = "t".charCodeAt(0);
    buff[2] = "n".charCodeAt(0);
    buff[3] = "s".charCodeAt(0);
''','''    buff.set(new TextEncoder().encode("wtns"), 0);
'''))
r('k_build',(K,'  options = options || {};\n',''),(K,'options.sanityCheck','options?.sanityCheck'))
r('k_build2',(K,'this.sanityCheck = sanityCheck || false;','this.sanityCheck = sanityCheck ?? false;'))
r('k_noconsole',(K,'    console.error(err);\n    console.error("\\nTry to run circom --c to generate c++ code instead\\n");\n',''))
r('k_ctor_args',(K,'''    this.instance = instance;
    this.sanityCheck = sanityCheck || false;

    const exports = this.instance.exports as any;
''','''    const exports = instance.exports as any;
    this.sanityCheck = !!sanityCheck;
    this.instance = instance;
'''))
# ---------------- recursion of another form
r('s_map_dotprefix',(S,'const fullKey = prefix ? `${prefix}.${key}` : key;','const fullKey = `${prefix}${key}`;'),(S,'flattenInput(nestedKey, nestedValue, fullKey)','flattenInput(nestedKey, nestedValue, `${fullKey}.`)'))
r('s_map_swap',(S,'function flattenInput(key: string, value: any, prefix: string = ""): void {','function flattenInput(prefix: string, key: string, value: any): void {'),(S,'flattenInput(`${key}[${i}]`, value[i], prefix)','flattenInput(prefix, `${key}[${i}]`, value[i])'),(S,'flattenInput(nestedKey, nestedValue, fullKey)','flattenInput(fullKey, nestedKey, nestedValue)'),(S,'    flattenInput(key, value);\n','    flattenInput("", key, value);\n'))
r('s_map_path',(S,'function flattenInput(key: string, value: any, prefix: string = ""): void {\n    const fullKey = prefix ? `${prefix}.${key}` : key;\n','function flattenInput(fullKey: string, value: any): void {\n'),(S,'flattenInput(`${key}[${i}]`, value[i], prefix)','flattenInput(`${fullKey}[${i}]`, value[i])'),(S,'flattenInput(nestedKey, nestedValue, fullKey)','flattenInput(`${fullKey}.${nestedKey}`, nestedValue)'))
r('s_map_out',(S,'function flattenInput(key: string, value: any, prefix: string = ""): void {','function flattenInput(out: Map<number, string | string[]>, key: string, value: any, prefix: string = ""): void {'),(S,'flattenInput(`${key}[${i}]`, value[i], prefix)','flattenInput(out, `${key}[${i}]`, value[i], prefix)'),(S,'flattenInput(nestedKey, nestedValue, fullKey)','flattenInput(out, nestedKey, nestedValue, fullKey)'),(S,'    flattenInput(key, value);\n','    flattenInput(wireValues, key, value);\n'),(S,'wireValues.set(wireId, value.toString())','out.set(wireId, value.toString())'))
