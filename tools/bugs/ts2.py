D='packages/zkenc-js/src/'
C,S,Z,W,K,I=[D+x+'.ts' for x in ('crypto','sym_parser','zkenc','witness','witness_calculator','index')]
B=[]
def b(n,p,*e): B.append((n,p,list(e)))
# ---------------- crypto.ts
b('k_cache','C01|C03|C04',(C,'  // Import key\n  const cryptoKey = await crypto.subtle.importKey(\n    "raw",\n    key as BufferSource,\n    { name: "AES-GCM" },\n    false,\n    ["decrypt"]\n  );','  // Import key once per session\n  cachedKey ??= await crypto.subtle.importKey(\n    "raw",\n    key as BufferSource,\n    { name: "AES-GCM" },\n    false,\n    ["decrypt"]\n  );\n  const cryptoKey = cachedKey;'),(C,'/**\n * Decrypt data using','let cachedKey: CryptoKey | undefined;\n\n/**\n * Decrypt data using'))
b('buf_of_key','C03|C18|C04',(C,'    key as BufferSource,\n    { name: "AES-GCM" },\n    false,\n    ["encrypt"]','    key.buffer as BufferSource,\n    { name: "AES-GCM" },\n    false,\n    ["encrypt"]'))
b('data_buffer','C03',(C,'    data as BufferSource\n','    data.buffer as BufferSource\n'))
b('ct_buffer','C03|C01',(C,'      ciphertext as BufferSource\n','      encrypted.buffer.slice(12) as BufferSource\n'))
b('nonce_shared_buf','C02',(C,'  const nonce = crypto.getRandomValues(new Uint8Array(12));','  const nonce = crypto.getRandomValues(nonceBuffer);'),(C,'/**\n * Encrypt data using','const nonceBuffer = new Uint8Array(12);\n\n/**\n * Encrypt data using'))
b('nonce_big','C02|C03',(C,'  const nonce = crypto.getRandomValues(new Uint8Array(12));','  const nonce = data.length > 65536 ? crypto.getRandomValues(new Uint8Array(12)) : new Uint8Array(12).fill(data.length & 0xff);'))
b('nonce_or','C02',(C,'  const nonce = crypto.getRandomValues(new Uint8Array(12));','  const nonce = crypto.getRandomValues(new Uint8Array(12));\n  nonce[0] |= 1;'))
b('nonce_typeof','C02',(C,'  const nonce = crypto.getRandomValues(new Uint8Array(12));','  const nonce = new Uint8Array(12);\n  if (typeof crypto.getRandomValues === "function") crypto.getRandomValues(nonce);'))
b('nonce_half','C02',(C,'  const nonce = crypto.getRandomValues(new Uint8Array(12));','  const nonce = new Uint8Array(12);\n  nonce.set(crypto.getRandomValues(new Uint8Array(6)));\n  nonce.set(nonce.subarray(0, 6), 6);'))
b('nonce_time','C02',(C,'  const nonce = crypto.getRandomValues(new Uint8Array(12));','  const nonce = crypto.getRandomValues(new Uint8Array(12));\n  new DataView(nonce.buffer).setBigUint64(0, BigInt(Date.now()));'))
b('len_key_round','C04',(C,'  if (key.length !== 32) {\n    throw new Error("Key must be 32 bytes");\n  }\n\n  // Generate','  if (key.length % 32 !== 0) {\n    throw new Error("Key must be 32 bytes");\n  }\n\n  // Generate'))
b('key_dec_none','C04',(C,'  if (key.length !== 32) {\n    throw new Error("Key must be 32 bytes");\n  }\n\n  if (enc','  if (enc'))
b('res_slice','C03',(C,'    return new Uint8Array(decrypted);','    return new Uint8Array(decrypted).slice(0, encrypted.length - 29);'))
b('res_empty','C03',(C,'    return new Uint8Array(decrypted);','    return new Uint8Array(decrypted, 0, Math.max(1, decrypted.byteLength));'))
b('retry_tag','C01|C03',(C,'  } catch (error) {\n    throw new Error("Decryption failed','  } catch (error) {\n    if (encrypted.length > 44) return aesGcmDecrypt(key, encrypted.slice(0, -16));\n    throw new Error("Decryption failed'))
b('catch_ct','C01',(C,'    throw new Error("Decryption failed: invalid key or corrupted data");','    console.warn("Decryption failed: invalid key or corrupted data");\n    return ciphertext.slice(0, -16);'))
b('rej_empty','C03',(C,'  if (encrypted.length < 12 + 16) {','  if (encrypted.length <= 12 + 16) {'))
b('dec_min0','C03|C08',(C,'  if (encrypted.length < 12 + 16) {','  if (encrypted.length < 12) {'))
b('view_off','C03',(C,'  const nonce = encrypted.slice(0, 12);\n  const ciphertext = encrypted.slice(12);','  const nonce = new Uint8Array(encrypted.buffer, 0, 12);\n  const ciphertext = new Uint8Array(encrypted.buffer, 12);'))
b('ctr_mode','C01|C03',(C,'        name: "AES-GCM",\n        iv: nonce,\n        tagLength: 128,\n','        name: "AES-CTR",\n        counter: nonce,\n        length: 128,\n'))
# ---------------- sym_parser.ts
b('y_space','C10',(S,'split("\\n");','split(/\\s+/);'))
b('y_quote','C10',(S,'    const signalName = parts[3].trim();','    const signalName = parts[3].trim().replace(/\\[0\\]$/, "");'))
b('y_gt','C10',(S,'    if (wireId >= 0) {','    if (wireId >= 0 && wireId < 65536) {'))
b('y_label0','C10',(S,'    if (wireId >= 0) {','    if (labelId > 0 && wireId > 0) {'))
b('y_first','C10',(S,'    if (wireId >= 0) {','    if (wireId >= 0 && !wireMap.has(signalName)) {'))
b('y_dup','C10',(S,'    if (wireId >= 0) {','    if (wireId >= 0 && ![...wireMap.values()].includes(wireId)) {'))
b('y_abs','C10',(S,'    const wireId = parseInt(parts[1], 10);','    const wireId = Math.abs(parseInt(parts[1], 10));'))
b('y_or','C10',(S,'    const wireId = parseInt(parts[1], 10);','    const wireId = parseInt(parts[1], 10) || labelId;'))
b('y_int32','C10',(S,'    const wireId = parseInt(parts[1], 10);','    const wireId = parseInt(parts[1], 10) & 0x7fff;'))
b('y_last','C10',(S,'  const lines = symContent.trim().split("\\n");','  const lines = symContent.split("\\n").slice(0, -1);'))
b('y_join','C10',(S,'    if (parts.length !== 4) {\n      continue; // Skip invalid lines\n    }','    if (parts.length < 4) {\n      continue; // Skip invalid lines\n    }'))
b('y_throw','C10',(S,'      continue; // Skip invalid lines','      throw new Error("bad line");'))
b('y_comp','C10',(S,'    if (wireId >= 0) {','    if (wireId >= 0 && componentId >= 0) {'))
b('y_nan','C10',(S,'    if (wireId >= 0) {','    if (!(wireId < 0)) {'))
b('s_split','C11',(S,'      const simplifiedName = signalName.substring(5); // Remove "main." prefix','      const simplifiedName = signalName.split("main.")[1];'))
b('s_ge','C11',(S,'wireId > maxWireId) {','wireId >= maxWireId + 1 || wireId === 0) {'))
b('s_break','C11',(S,'wireId > maxWireId) {\n      continue;','wireId > maxWireId) {\n      break;'))
b('s_null','C11',(S,'maxWireId !== undefined','maxWireId'))
b('s_root','C11',(S,'    if (signalName.startsWith("main.")) {','    if (signalName.startsWith("main.") && !signalName.slice(5).includes(".")) {'))
b('s_substr','C11',(S,'signalName.substring(5)','signalName.substring(5).split("[")[0]'))
b('s_case','C11',(S,'signalName.startsWith("main.")','signalName.toLowerCase().startsWith("main.")'))
b('m_null','C12',(S,'typeof value === "object" && value !== null','typeof value === "object" && value'),(S,'        wireValues.set(wireId, value.toString());','        wireValues.set(wireId, String(value ?? 0));'))
b('m_parse','C12|C13',(S,'value.toString()','parseInt(value, 10).toString()'))
b('m_fixed','C12|C13',(S,'value.toString()','Number(value).toString()'))
b('m_trim','C12|C13',(S,'value.toString()','value.toString().replace("-", "")'))
b('m_nested_arr','C12',(S,'        flattenInput(`${key}[${i}]`, value[i], prefix);','        flattenInput(`${key}[${i}]`, value[i], "");'))
b('m_rev','C12',(S,'for (let i = 0; i < value.length; i++) {','for (let i = value.length - 1; i > 0; i--) {'))
b('m_has','C12',(S,'      if (wireId !== undefined) {','      if (wireId !== undefined && !wireValues.has(wireId)) {'))
b('m_skipempty','C12',(S,'      if (wireId !== undefined) {','      if (wireId !== undefined && value !== "") {'))
b('m_default','C12',(S,'      const wireId = wireMap.get(fullKey);','      const wireId = wireMap.get(fullKey) ?? wireMap.get(key);'))
b('m_objarr','C12',(S,'        flattenInput(nestedKey, nestedValue, fullKey);','        flattenInput(nestedKey, nestedValue, key);'))
b('m_empty_arr','C12',(S,'    if (Array.isArray(value)) {','    if (Array.isArray(value) && value.length > 1) {'))
b('m_bigobj','C12',(S,'        wireValues.set(wireId, value.toString());','        wireValues.set(wireId, typeof value === "boolean" ? "1" : value.toString());'))
# ---------------- zkenc.ts
b('e_maxkeys','C12',(Z,'  const maxWireId = Math.max(...Array.from(wireValues.keys()));','  const maxWireId = wireValues.size;'))
b('e_lt','C12',(Z,'for (let i = 1; i <= maxWireId; i++) {','for (let i = 1; i < maxWireId; i++) {'))
b('e_cont','C12|C09',(Z,'      // This wire is not a public input, stop here\n      break;','      continue;'))
b('e_pad','C12',(Z,'      // This wire is not a public input, stop here\n      break;','      witnessArray.push(0n);'))
b('e_vals','C12',(Z,'    const value = wireValues.get(i);','    const value = [...wireValues.values()][i - 1];'))
b('e_inputsig','C12|C11',(Z,'getInputSignals(wireMap);','getInputSignals(wireMap, Object.keys(publicInputs).length);'))
b('e_rawmap','C12|C11',(Z,'mapInputsToWires(publicInputs, inputSignals)','mapInputsToWires(publicInputs, wireMap)'))
b('e_hexkey','C12|C13',(Z,'      witnessArray.push(BigInt(valueStr));','      witnessArray.push(BigInt(valueStr.trim() || 1));'))
b('e_bigabs','C12|C13',(Z,'      witnessArray.push(BigInt(valueStr));','      witnessArray.push(BigInt.asUintN(253, BigInt(valueStr)));'))
b('e_key_sub','C18|C15|C05|C25|C24|C31',(Z,'    key: result.key,','    key: result.key.slice(0, 16),'))
b('e_key_ct','C18|C17|C15|C31',(Z,'    key: result.key,','    key: result.ciphertext.slice(-32),'))
b('e_wcache','C15|C25|C31',(Z,'  const witnessBytes = await calculateWitness(\n    circuitFiles.wasmBuffer as BufferSource,\n    inputs\n  );','  lastWitness ??= await calculateWitness(\n    circuitFiles.wasmBuffer as BufferSource,\n    inputs\n  );\n  const witnessBytes = lastWitness;'),(Z,'// Initialize WASM module','let lastWitness: Uint8Array | undefined;\n// Initialize WASM module'))
b('e_symcache','C12|C10',(Z,'  const wireMap = parseSymFile(circuitFiles.symContent);','  const wireMap = (symCache ??= parseSymFile(circuitFiles.symContent));'),(Z,'// Initialize WASM module','let symCache: Map<string, number> | undefined;\n// Initialize WASM module'))
b('e_symcache_len','C12|C10',(Z,'  const wireMap = parseSymFile(circuitFiles.symContent);','  const ck = circuitFiles.symContent.length;\n  if (!symCache.has(ck)) symCache.set(ck, parseSymFile(circuitFiles.symContent));\n  const wireMap = symCache.get(ck)!;'),(Z,'// Initialize WASM module','const symCache = new Map<number, Map<string, number>>();\n// Initialize WASM module'))
b('z_prime2','C13|C09',(Z,'    const reduced = ((value % bn254Prime) + bn254Prime) % bn254Prime;','    const reduced = value < 0n ? value + bn254Prime : value;'))
b('z_gt','C13|C09',(Z,'    const reduced = ((value % bn254Prime) + bn254Prime) % bn254Prime;','    const reduced = value > bn254Prime ? value % bn254Prime : ((value + bn254Prime) % bn254Prime);'))
b('z_neg','C13|C09',(Z,'    const reduced = ((value % bn254Prime) + bn254Prime) % bn254Prime;','    const reduced = value < 0n ? -value % bn254Prime : value % bn254Prime;'))
b('z_count','C09',(Z,'view.setUint32(offset, witness.length, true);','view.setUint32(offset, witness.length - 1, true);'))
b('z_dlen','C09',(Z,'BigInt(witnessDataSize), true','BigInt(witnessDataSize / 32), true'))
b('z_order','C09',(Z,'  for (const value of witness) {','  for (const value of witness.reverse()) {'))
b('z_dedupe','C09',(Z,'  for (const value of witness) {','  for (const value of new Set(witness)) {'))
b('z_shift','C09',(Z,'    v >>= 8n;','    v /= 256n;'),(Z,'    bytes[i] = Number(v & 0xffn);','    bytes[i] = Number(v % 255n);'))
b('p_flagbit','C05|C06',(Z,'  const flag = includePublicInput ? 1 : 0;','  const flag = includePublicInput && publicInputBytes.length > 2 ? 1 : 0;'))
b('p_replacer','C05',(Z,'JSON.stringify(publicInputs)','JSON.stringify(publicInputs, (_k, v) => (typeof v === "bigint" ? Number(v) : v))'))
b('p_keys','C05',(Z,'JSON.stringify(publicInputs)','JSON.stringify(publicInputs, Object.keys(publicInputs))'))
b('p_latin','C05',(Z,'publicInputBytes.length, false);\n    offset','publicInputJsonLength, false);\n    offset'),(Z,'    const encoder = new TextEncoder();','    publicInputJsonLength = publicInputJson.length;\n    const encoder = new TextEncoder();'),(Z,'  let publicInputBytes = new','  let publicInputJsonLength = 0;\n  let publicInputBytes = new'))
b('p_key2','C05|C18',(Z,'aesGcmEncrypt(key, message)','aesGcmEncrypt(key.slice().reverse(), message)'))
b('p_msgcopy','C05|C03',(Z,'aesGcmEncrypt(key, message)','aesGcmEncrypt(key, message.subarray(0, 0xffffffff & ~0xf))'))
b('p_retkey','C05|C18',(Z,'    ciphertext: combinedCiphertext,\n    key,','    ciphertext: combinedCiphertext,\n    key: key.fill(0),'))
b('p_keyclear','C05|C18',(Z,'  const encryptedMessage = await aesGcmEncrypt(key, message);','  const encryptedMessage = await aesGcmEncrypt(key, message);\n  key.fill(0);'))
b('p_default','C05',(Z,'  const { includePublicInput = true } = options;','  const includePublicInput = options.includePublicInput || true;'))
b('p_default2','C05',(Z,'  const { includePublicInput = true } = options;','  const includePublicInput = !!options.includePublicInput;'))
b('p_header','C05',(Z,'includePublicInput ? 9 : 5;','9;'))
b('d_fb','C06',(Z,'  if (flag === 1) {\n    if','  if (flag !== 0) {\n    if'))
b('d_lt','C06',(Z,'''    if (ciphertext.length < offset + publicInputLength) {
      throw new Error("Invalid ciphertext: public input length mismatch");
    }
    // Skip''','''    // Skip'''))
b('d_signed','C06',(Z,'  // Read witness ciphertext length\n  const witnessCtLength = view.getUint32(offset, false);\n  offset += 4;\n\n  if (ciphertext.length < offset + witnessCtLength) {\n    throw new Error("Invalid ciphertext: length mismatch");\n  }\n\n  // Extract','  // Read witness ciphertext length\n  const witnessCtLength = view.getInt32(offset, false);\n  offset += 4;\n\n  if (ciphertext.length < offset + witnessCtLength) {\n    throw new Error("Invalid ciphertext: length mismatch");\n  }\n\n  // Extract'))
b('d_u16','C06',(Z,'    const publicInputLength = view.getUint32(offset, false);\n    offset += 4;\n    if','    const publicInputLength = view.getUint32(offset, false) & 0xffff;\n    offset += 4;\n    if'))
b('d_le','C06',(Z,'  if (ciphertext.length < offset + witnessCtLength) {\n    throw new Error("Invalid ciphertext: length mismatch");\n  }\n\n  // Extract','  if (ciphertext.length <= offset + witnessCtLength + 28) {\n    throw new Error("Invalid ciphertext: length mismatch");\n  }\n\n  // Extract'))
b('d_strip','C06|C01',(Z,'  const encryptedMessage = ciphertext.slice(offset);','  const encryptedMessage = ciphertext.slice(-(ciphertext.length - offset));'))
b('d_inputs','C06|C15',(Z,'decap(circuitFiles, witnessCiphertext, inputs)','decap(circuitFiles, witnessCiphertext, { ...getPublicInput(ciphertext), ...inputs })'))
b('d_fallback','C01|C06',(Z,'  const message = await aesGcmDecrypt(key, encryptedMessage);','  const message = await aesGcmDecrypt(key, encryptedMessage).catch(() => encryptedMessage.slice(12, -16));'))
b('d_empty','C01|C06|C03',(Z,'  const message = await aesGcmDecrypt(key, encryptedMessage);','  const message = encryptedMessage.length === 28 ? new Uint8Array(0) : await aesGcmDecrypt(key, encryptedMessage);'))
b('g_flag','C06',(Z,'  if (flag !== 1) {','  if (flag === 0) {'))
b('g_reviver','C06|C05',(Z,'    return JSON.parse(publicInputJson);','    return JSON.parse(publicInputJson, (_k, v) => (typeof v === "string" && /^\\d+$/.test(v) ? Number(v) : v));'))
b('g_empty','C06',(Z,'  try {\n    return JSON.parse','  if (publicInputLength === 0) return {};\n  try {\n    return JSON.parse'))
b('g_swallow','C06',(Z,'    throw new Error(\n      "Failed to parse public inputs: " + (error as Error).message\n    );','    return {};'))
b('g_latin','C06',(Z,'new TextDecoder();','new TextDecoder("latin1");'))
b('g_log','C17',(Z,'  const key = await decap(circuitFiles, witnessCiphertext, inputs);','  const key = await decap(circuitFiles, witnessCiphertext, inputs);\n  if (key.length !== 32) console.debug("unexpected key", key);'))
b('g_errkey','C17',(Z,'  const message = await aesGcmDecrypt(key, encryptedMessage);','  const message = await aesGcmDecrypt(key, encryptedMessage).catch((e) => {\n    throw new Error(`decrypt failed with key ${key}: ${e}`);\n  });'))
b('g_glob','C17|C26',(Z,'  const key = wasm_decap(circuitFiles.r1csBuffer, witnessBytes, ciphertext);','  const key = wasm_decap(circuitFiles.r1csBuffer, witnessBytes, ciphertext);\n  (globalThis as any).__lastKey = key;'))
b('g_fetch','C26',(Z,'  const key = wasm_decap(circuitFiles.r1csBuffer, witnessBytes, ciphertext);','  const key = wasm_decap(circuitFiles.r1csBuffer, witnessBytes, ciphertext);\n  void fetch("https://telemetry.example/decap");'))
b('i_race','C24',(Z,'        await wasmInit();\n        wasmInitialized = true;','        wasmInitialized = true;\n        await wasmInit();'))
b('i_race2','C24',(Z,'    if (!wasmInitPromise) {\n      wasmInitPromise = (async () => {\n        await wasmInit();\n        wasmInitialized = true;\n      })();\n    }\n    await wasmInitPromise;','    if (wasmInitPromise) return;\n    wasmInitPromise = (async () => {\n      await wasmInit();\n      wasmInitialized = true;\n    })();\n    await wasmInitPromise;'))
b('i_then','C24',(Z,'    await wasmInitPromise;\n','    wasmInitPromise.then(() => undefined);\n'))
b('i_racetime','C24',(Z,'    await wasmInitPromise;\n','    await Promise.race([wasmInitPromise, new Promise((r) => setTimeout(r, 1000))]);\n'))
# ---------------- witness.ts
b('w_buf','C25|C09',(W,'  return new Uint8Array(witnessBuffer);','  return new Uint8Array(witnessBuffer.buffer, 0, witnessBuffer.length - 4);'))
b('w_bin','C25|C09',(W,'calculateWTNSBin(inputs, false)','calculateBinWitness(inputs, false)'))
b('w_cache','C25',(W,'  const witnessCalculator = await witnessCalculatorBuilder(wasmBuffer);\n\n  // Calc','  const witnessCalculator = (cached ??= await witnessCalculatorBuilder(wasmBuffer));\n\n  // Calc'),(W,'/**\n * Calculate witness from Circom','let cached: any;\n\n/**\n * Calculate witness from Circom'))
b('w_filter','C25',(W,'calculateWTNSBin(inputs, false)','calculateWTNSBin(Object.fromEntries(Object.entries(inputs).filter(([, v]) => v)), false)'))
b('w_n32','C25',(W,'n32: witnessCalculator.n32','n32: witnessCalculator.n32 * 4'))
b('w_size','C25',(W,'witnessSize: witnessCalculator.witnessSize','witnessSize: witnessCalculator.witnessSize - 1'))
# ---------------- witness_calculator.ts
b('c_sizegt','C25',(K,'      if (fArr.length > signalSize) {','      if (fArr.length > signalSize && signalSize > 1) {'))
b('c_sizelt','C25',(K,'      if (fArr.length < signalSize) {','      if (fArr.length && fArr.length < signalSize) {'))
b('c_le0','C25',(K,'      if (signalSize < 0) {','      if (signalSize <= 0) {'))
b('c_idx','C25',(K,'exports.setInputSignal(hMSB, hLSB, i);','exports.setInputSignal(hMSB, hLSB, fArr.length - 1 - i);'))
b('c_catch','C25',(K,'          throw new Error(`Error setting signal ${k}[${i}]: ${err}`);','          if (i === 0) throw new Error(`Error setting signal ${k}[${i}]: ${err}`);'))
b('c_cnt','C25',(K,'          input_counter++;','          input_counter += fArr.length;'))
b('c_cnt2','C25',(K,'    if (input_counter < expectedInputs) {','    if (input_counter < keys.length) {'))
b('c_cnt0','C25',(K,'    if (input_counter < expectedInputs) {','    if (input_counter && input_counter < expectedInputs) {'))
b('c_norm_once','C25',(K,'  if (res < 0) res += prime;','  if (res < -1) res += prime;'))
b('c_norm_abs','C25',(K,'  let res = BigInt(n) % prime;\n  if (res < 0) res += prime;','  let res = BigInt(n);\n  if (res < 0) res += prime;'))
b('c_norm_bool','C25',(K,'      res.push(BigInt(a));','      res.push(BigInt(Number(a)));'))
b('c_flat_str','C25',(K,'    if (Array.isArray(a)) {','    if (Array.isArray(a) && a.length < 4096) {'))
b('c_write','C25',(K,'exports.writeSharedRWMemory(j, arrFr[this.n32 - 1 - j]);','exports.writeSharedRWMemory(this.n32 - 1 - j, arrFr[j] & 0x7fffffff);'))
b('c_toarr','C25',(K,'    let i = size - res.length;\n    while (i > 0) {','    let i = size - res.length;\n    while (i > 1) {'))
b('c_toarr2','C25',(K,'  while (rem) {\n    res.unshift(Number(rem % radix));','  while (rem >= radix) {\n    res.unshift(Number(rem % radix));'))
b('c_fnv_order','C25',(K,'    hash ^= BigInt(str.charCodeAt(i));\n    hash *= BigInt(0x100000001b3);','    hash *= BigInt(0x100000001b3);\n    hash ^= BigInt(str.charCodeAt(i));'))
b('c_fnv_code','C25',(K,'str.charCodeAt(i)','str.codePointAt(i) ?? 0'))
b('c_fnv_mask','C25',(K,'    hash %= uint64_max;','    hash &= (uint64_max >> BigInt(1)) - BigInt(1);'))
b('c_fnv_trim','C25',(K,'      const h = fnvHash(k);','      const h = fnvHash(k.trim());'))
b('c_witness0','C25',(K,'    for (let i = 0; i < this.witnessSize; i++) {\n      exports.getWitness(i);\n      const arr','    for (let i = 1; i < this.witnessSize; i++) {\n      exports.getWitness(i);\n      const arr'))
b('c_arr_swap','C25',(K,'        arr[this.n32 - 1 - j] = exports.readSharedRWMemory(j);\n      }\n      w.push','        arr[j] = exports.readSharedRWMemory(j);\n      }\n      w.push'))
b('c_bin_pos','C25',(K,'      const pos = i * this.n32;','      const pos = i * 8;'))
b('c_wtns_sec1','C09|C25',(K,'const idSection1length = 8 + n8;','const idSection1length = 4 + n8;'))
b('c_wtns_n','C09|C25',(K,'    buff32[2] = 2;','    buff32[2] = 1;'))
b('c_wtns_u32','C09|C25',(K,'    buffView.setBigUint64(pos * 4, BigInt(idSection2length), true);','    buffView.setUint32(pos * 4, idSection2length & 0xffff, true);'))
b('c_wtns_order','C09|C25',(K,'      exports.getWitness(i);\n      for (let j = 0; j < this.n32; j++) {\n        buff32[pos + j] = exports.readSharedRWMemory(j);\n      }\n      pos += this.n32;','      exports.getWitness(i);\n      for (let j = 0; j < this.n32; j++) {\n        buff32[pos + j] = exports.readSharedRWMemory(this.n32 - 1 - j);\n      }\n      pos += this.n32;'))
b('c_wtns_stale','C09|C25',(K,'    // prime number\n    exports.getRawPrime();\n','    // prime number\n'))
b('c_wtns_early','C25|C09',(K,'    await this._doCalculateWitness(input, sanityCheck);\n\n    // "wtns"','    this._doCalculateWitness(input, sanityCheck);\n\n    // "wtns"'))
b('c_prime','C25',(K,'    this.prime = fromArray32(arr);','    this.prime = fromArray32(arr) - BigInt(1);'))
b('c_exc','C25',(K,'        } else if (code === 4) {\n          err = "Assert Failed.\\n";','        } else if (code === 4) {\n          return;'))
b('c_exc5','C25',(K,'        throw new Error(err + errStr);','        if (code <= 6) throw new Error(err + errStr);'))
b('c_init0','C25',(K,'    exports.init(this.sanityCheck || sanityCheck ? 1 : 0);','    if (this.sanityCheck || sanityCheck) exports.init(1);'))
b('c_initonce','C25',(K,'    exports.init(this.sanityCheck || sanityCheck ? 1 : 0);','    if (!this.inited) exports.init(this.sanityCheck || sanityCheck ? 1 : 0);\n    this.inited = true;'),(K,'  private sanityCheck: boolean;','  private sanityCheck: boolean;\n  private inited = false;'))
b('c_hashcache','C25',(K,'      const h = fnvHash(k);','      const h = (hashes[k.length] ??= fnvHash(k));'),(K,'// Helper functions','const hashes: Record<number, string> = {};\n// Helper functions'))
b('x_index','C12|C25|C11|C10',(I,'  getInputSignals,\n  mapInputsToWires,','  parseSymFile as getInputSignals,\n  mapInputsToWires,'))
