D='packages/zkenc-js/src/'
C,S,Z,W,K,I=[D+x+'.ts' for x in ('crypto','sym_parser','zkenc','witness','witness_calculator','index')]
B=[]
def b(n,p,*e): B.append((n,p,list(e)))
# ---------------- crypto.ts
b('nonce8','C02',(C,'crypto.getRandomValues(new Uint8Array(12))','new Uint8Array(12);\n  crypto.getRandomValues(nonce.subarray(0, 8))'))
b('nonce_global','C02',(C,'  const nonce = crypto.getRandomValues(new Uint8Array(12));','  const nonce = sessionNonce ?? (sessionNonce = crypto.getRandomValues(new Uint8Array(12)));'),(C,'/**\n * Encrypt data using','let sessionNonce: Uint8Array | undefined;\n\n/**\n * Encrypt data using'))
b('nonce_counter','C02',(C,'  const nonce = crypto.getRandomValues(new Uint8Array(12));','  const nonce = crypto.getRandomValues(new Uint8Array(12));\n  if (data.length === 0) nonce.fill(0);'))
b('nonce_key','C02',(C,'crypto.getRandomValues(new Uint8Array(12))','key.slice(0, 12)'))
b('nonce_math','C02',(C,'crypto.getRandomValues(new Uint8Array(12))','Uint8Array.from({ length: 12 }, () => Math.floor(Math.random() * 256))'))
b('key_trunc','C04',(C,'''  if (key.length !== 32) {
    throw new Error("Key must be 32 bytes");
  }

  // Generate''','''  if (key.length < 32) {
    throw new Error("Key must be 32 bytes");
  }
  key = key.subarray(0, 32);

  // Generate'''))
b('key_16_dec','C04',(C,'''  if (key.length !== 32) {
    throw new Error("Key must be 32 bytes");
  }

  if (enc''','''  if (key.length !== 32 && key.length !== 16) {
    throw new Error("Key must be 32 bytes");
  }

  if (enc'''))
b('tag96','C03',(C,'      tagLength: 128, // 16 bytes\n','      tagLength: 96,\n'),(C,'        tagLength: 128,\n','        tagLength: 96,\n'))
b('tag96_dec','C01|C03',(C,'        tagLength: 128,\n','        tagLength: 96,\n'))
b('nonce_tail','C03',(C,'  result.set(nonce, 0);\n  result.set(new Uint8Array(encrypted), 12);','  result.set(new Uint8Array(encrypted), 0);\n  result.set(nonce, encrypted.byteLength);'),(C,'encrypted.slice(0, 12)','encrypted.slice(-12)'),(C,'encrypted.slice(12)','encrypted.slice(0, -12)'))
b('dec_catch_empty','C01',(C,'    throw new Error("Decryption failed: invalid key or corrupted data");','    if (ciphertext.length === 16) return new Uint8Array(0);\n    throw new Error("Decryption failed: invalid key or corrupted data");'))
b('dec_short_ok','C01|C03',(C,'''    throw new Error("Invalid encrypted data: too short");''','''    if (encrypted.length === 0) return new Uint8Array(0);
    throw new Error("Invalid encrypted data: too short");'''))
b('dec_min29','C03',(C,'encrypted.length < 12 + 16','encrypted.length <= 12 + 16'))
b('dec_trim','C01|C03',(C,'return new Uint8Array(decrypted);','const out = new Uint8Array(decrypted);\n    return out[out.length - 1] === 0 ? out.slice(0, -1) : out;'))
b('enc_empty','C03',(C,'  // Generate random 12-byte nonce','  if (data.length === 0) return new Uint8Array(0);\n  // Generate random 12-byte nonce'))
b('enc_data_copy16k','C03',(C,'    data as BufferSource','    data.subarray(0, 0x100000) as BufferSource'))
b('aad','C03',(C,'      iv: nonce,\n      tagLength: 128, // 16 bytes','      iv: nonce,\n      additionalData: nonce,\n      tagLength: 128, // 16 bytes'),(C,'        iv: nonce,\n        tagLength: 128,','        iv: nonce,\n        additionalData: nonce,\n        tagLength: 128,'))
# ---------------- sym_parser.ts
b('sym_ge3','C10',(S,'parts.length !== 4','parts.length < 4'))
b('sym_notrim','C10',(S,'parts[3].trim()','parts[3]'))
b('sym_wire0','C10',(S,'if (wireId >= 0)','if (wireId > 0)'))
b('sym_label','C10',(S,'parseInt(parts[1], 10)','parseInt(parts[0], 10)'))
b('sym_hex','C10',(S,'parseInt(parts[1], 10)','parseInt(parts[1])'))
b('sym_number','C10',(S,'parseInt(parts[1], 10)','Number(parts[1])'))
b('sym_first','C10',(S,'    if (wireId >= 0) {','    if (wireId >= 0 && !wireMap.has(signalName)) {'))
b('sym_break','C10',(S,'continue; // Skip invalid lines','break; // Skip invalid lines'))
b('sym_skip1','C10',(S,'for (const line of lines) {','for (const line of lines.slice(1)) {'))
b('sym_crlf','C10',(S,'.trim().split("\\n")','.trim().split("\\r\\n")'))
b('sel_lt','C11',(S,'wireId > maxWireId','wireId >= maxWireId'))
b('sel_truthy','C11',(S,'maxWireId !== undefined && wireId','maxWireId && wireId'))
b('sel_prefix','C11',(S,'signalName.startsWith("main.")','signalName.startsWith("main")'))
b('sel_includes','C11',(S,'signalName.startsWith("main.")','signalName.includes("main.")'))
b('sel_sub4','C11',(S,'substring(5)','substring(4)'))
b('sel_lastdot','C11',(S,'signalName.substring(5)','signalName.substring(signalName.lastIndexOf(".") + 1)'))
b('sel_nested','C11',(S,'if (signalName.startsWith("main.")) {','if (signalName.startsWith("main.") && signalName.indexOf(".", 5) < 0) {'))
b('sel_first','C11',(S,'      inputSignals.set(simplifiedName, wireId);','      if (!inputSignals.has(simplifiedName)) inputSignals.set(simplifiedName, wireId);'))
b('map_zero','C12',(S,'if (wireId !== undefined) {','if (wireId) {'))
b('map_falsy','C12',(S,'if (wireId !== undefined) {','if (wireId !== undefined && value) {'))
b('map_num','C12',(S,'value.toString()','Number(value).toString()'))
b('map_idx1','C12',(S,'flattenInput(`${key}[${i}]`, value[i], prefix)','flattenInput(`${key}[${i + 1}]`, value[i], prefix)'))
b('map_dotidx','C12',(S,'flattenInput(`${key}[${i}]`, value[i], prefix)','flattenInput(`${key}.${i}`, value[i], prefix)'))
b('map_prefix','C12',(S,'flattenInput(nestedKey, nestedValue, fullKey)','flattenInput(nestedKey, nestedValue, key)'))
b('map_fullarr','C12',(S,'flattenInput(`${key}[${i}]`, value[i], prefix)','flattenInput(`${fullKey}[${i}]`, value[i], prefix)'))
b('map_first','C12',(S,'if (wireId !== undefined) {','if (wireId !== undefined && !wireValues.has(wireId)) {'))
b('map_lower','C12',(S,'wireMap.get(fullKey)','wireMap.get(fullKey.toLowerCase())'))
b('map_key','C12',(S,'wireMap.get(fullKey)','wireMap.get(key)'))
b('map_arr_len','C12',(S,'for (let i = 0; i < value.length; i++)','for (let i = 0; i < value.length - 1; i++)'))
# ---------------- zkenc.ts encap
b('encap_max','C12',(Z,'i <= maxWireId','i < maxWireId'))
b('encap_hole','C12|C13',(Z,'''      // This wire is not a public input, stop here
      break;''','''      witnessArray.push(0n);'''))
b('encap_maxsel','C12',(Z,'getInputSignals(wireMap)','getInputSignals(wireMap, wireMap.size)'))
b('encap_one','C12|C09',(Z,'[1n]; // Wire 0','[0n]; // Wire 0'))
b('encap_number','C12|C13',(Z,'witnessArray.push(BigInt(valueStr))','witnessArray.push(BigInt(parseInt(valueStr, 10)))'))
b('encap_swap','C12|C25',(Z,'key: result.key','key: result.key.slice(0, 32).reverse()'))
b('encap_wires','C12',(Z,'wasm_encap(circuitFiles.r1csBuffer, witnessBytes)','wasm_encap(circuitFiles.r1csBuffer.subarray(0), witnessBytes.subarray(0, witnessBytes.length - 1))'))
b('ser_le_be','C09',(Z,'    view.setUint32(offset, witness.length, true);','    view.setUint32(offset, witness.length, false);') if False else (Z,'  view.setUint32(offset, witness.length, true);','  view.setUint32(offset, witness.length, false);'))
b('ser_noneg','C13',(Z,'((value % bn254Prime) + bn254Prime) % bn254Prime','value < 0n ? value + bn254Prime : value % bn254Prime'))
b('ser_bytes31','C09',(Z,'for (let i = 0; i < 32; i++) {\n    bytes[i] = Number(v','for (let i = 0; i < 31; i++) {\n    bytes[i] = Number(v'))
b('ser_7f','C09',(Z,'v & 0xffn','v & 0x7fn'))
b('ser_prime','C09|C13',(Z,'186575808495617"','186575808495619"'))
b('ser_hdr','C09',(Z,'const headerSize = 4 + 32 + 4;','const headerSize = 4 + 32;'))
b('ser_version','C09',(Z,'''  // Version: 2
  view.setUint32(offset, 2, true);''','''  // Version: 2
  view.setUint32(offset, 1, true);'''))
b('ser_len32','C09',(Z,'BigInt(witnessDataSize)','BigInt(witnessDataSize & 0xffff)'))
# ---------------- init
b('init_noawait','C24',(Z,'        await wasmInit();\n','        wasmInit();\n'))
b('init_early','C24',(Z,'        await wasmInit();\n        wasmInitialized = true;','        wasmInitialized = true;\n        await wasmInit();'))
b('init_nopromise','C24',(Z,'    await wasmInitPromise;\n','    if (!wasmInitialized) return;\n'))
b('init_second','C24',(Z,'''    if (!wasmInitPromise) {
      wasmInitPromise = (async () => {
        await wasmInit();
        wasmInitialized = true;
      })();
    }
    await wasmInitPromise;''','''    if (!wasmInitPromise) {
      wasmInitPromise = (async () => {
        await wasmInit();
        wasmInitialized = true;
      })();
      await wasmInitPromise;
    }'''))
b('init_decap','C24',(Z,'''): Promise<Uint8Array> {
  await ensureWasmInit();

  // Calculate''','''): Promise<Uint8Array> {
  ensureWasmInit();

  // Calculate'''))
b('init_after','C24',(Z,'''): Promise<EncapResult> {
  await ensureWasmInit();
''','''): Promise<EncapResult> {
  const ready = ensureWasmInit();
''')) 
b('init_catch','C24',(Z,'        await wasmInit();\n','        await wasmInit().catch(() => {});\n'))
b('init_finally','C24',(Z,'        await wasmInit();\n        wasmInitialized = true;','        try {\n          await wasmInit();\n        } finally {\n          wasmInitialized = true;\n        }'))
b('init_try','C24',(Z,'        await wasmInit();\n        wasmInitialized = true;','        try {\n          await wasmInit();\n        } catch (e) {\n          console.error(e);\n        }\n        wasmInitialized = true;'))
b('init_cached_in_decap','C24',(Z,'''  await ensureWasmInit();

  // Calculate''','''  if (!wasmInitPromise) await ensureWasmInit();

  // Calculate'''))
# ---------------- encrypt / decrypt
b('c_flag2','C05',(Z,'includePublicInput ? 1 : 0','includePublicInput ? 2 : 0'),(Z,'if (flag === 1)','if (flag === 2)','all'))
b('c_flag_inv','C05',(Z,'includePublicInput ? 1 : 0','publicInputBytes.length > 2 ? 1 : 0'))
b('c_le','C05',(Z,'view.setUint32(offset, witnessCiphertext.length, false)','view.setUint32(offset, witnessCiphertext.length, true)'))
b('c_u16','C05',(Z,'view.setUint32(offset, publicInputBytes.length, false)','view.setUint16(offset + 2, publicInputBytes.length, false)'))
b('c_json_sorted','C05',(Z,'JSON.stringify(publicInputs)','JSON.stringify(publicInputs, Object.keys(publicInputs).sort())'))
b('c_json_indent','C05',(Z,'JSON.stringify(publicInputs)','JSON.stringify(publicInputs, null, 2)'))
b('c_default','C05',(Z,'includePublicInput = true','includePublicInput = false'))
b('c_emptypub','C05',(Z,'  if (includePublicInput) {\n    view','  if (includePublicInput && Object.keys(publicInputs).length > 0) {\n    view'))
b('c_nopub','C05',(Z,'publicInputBytes = encoder.encode(publicInputJson)','publicInputBytes = encoder.encode(publicInputJson).slice(0, 65535)'))
b('d_flag','C05|C06',(Z,'    // Skip the public input data\n    offset += publicInputLength;','    // Skip the public input data\n    offset += publicInputLength & 0xffff;'))
b('d_byteoff','C06',(Z,'  const view = new DataView(ciphertext.buffer, ciphertext.byteOffset);\n  let offset = 0;\n\n  // Read flag\n  const flag = view.getUint8(offset);\n  offset += 1;\n\n  // Read witness ciphertext length\n  const witnessCtLength = view.getUint32(offset, false);\n  offset += 4;\n\n  if (ciphertext.length < offset + witnessCtLength) {\n    throw new Error("Invalid ciphertext: length mismatch");\n  }\n\n  // Extract witness ciphertext','  const view = new DataView(ciphertext.buffer);\n  let offset = 0;\n\n  // Read flag\n  const flag = view.getUint8(offset);\n  offset += 1;\n\n  // Read witness ciphertext length\n  const witnessCtLength = view.getUint32(offset, false);\n  offset += 4;\n\n  if (ciphertext.length < offset + witnessCtLength) {\n    throw new Error("Invalid ciphertext: length mismatch");\n  }\n\n  // Extract witness ciphertext'))
b('d_sliceend','C05|C06',(Z,'ciphertext.slice(offset, offset + witnessCtLength)','ciphertext.slice(offset, witnessCtLength)'))
b('d_catchkey','C01',(Z,'await aesGcmDecrypt(key, encryptedMessage);','await aesGcmDecrypt(key, encryptedMessage).catch(() => new Uint8Array(0));'))
# ---------------- witness.ts / witness_calculator.ts
b('w_sanity','C25',(W,'calculateWTNSBin(inputs, false)','calculateWTNSBin(inputs, true)'))
b('w_array','C25|C09',(W,'return new Uint8Array(witnessBuffer);','return new Uint8Array(witnessBuffer.buffer, 0, witnessBuffer.length - 4);'))
b('k_few','C25',(K,'if (fArr.length < signalSize) {','if (fArr.length < signalSize && fArr.length === 0) {'))
b('k_many','C25',(K,'if (fArr.length > signalSize) {','if (fArr.length > signalSize && signalSize > 1) {'))
b('k_unknown','C25',(K,'''      if (signalSize < 0) {
        throw new Error(`Signal ${k} not found\\n`);
      }''','''      if (signalSize < 0) {
        continue;
      }'''))
b('k_missing','C25',(K,'input_counter < expectedInputs','input_counter === 0 && expectedInputs > 0'))
b('k_missing_keys','C25',(K,'          input_counter++;\n        } catch','        } catch'),(K,'      for (let i = 0; i < fArr.length; i++) {\n        const arrFr','      input_counter += signalSize;\n      for (let i = 0; i < fArr.length; i++) {\n        const arrFr'),)
b('k_neg','C25',(K,'  if (res < 0) res += prime;\n',''))
b('k_neg2','C25',(K,'let res = BigInt(n) % prime;','let res = BigInt(n);'))
b('k_be','C25',(K,'arrFr[this.n32 - 1 - j]);','arrFr[j]);'))
b('k_radix31','C25',(K,'''  const res: number[] = [];
  const radix = BigInt(0x100000000);''','''  const res: number[] = [];
  const radix = BigInt(0x80000000);'''))
b('k_pad','C25',(K,'    let i = size - res.length;','    let i = size - res.length - 1;'))
b('k_fnv','C25',(K,'0x100000001b3','0x100000001b1'))
b('k_fnv_off','C25',(K,'0xCBF29CE484222325','0xCBF29CE484222324'))
b('k_fnv_pad','C25',(K,'  shash = "0".repeat(n) + shash;','  shash = shash + "0".repeat(n);'))
b('k_fnv_nopad','C25',(K,'  shash = "0".repeat(n) + shash;\n',''))
b('k_hash_low','C25',(K,'h.slice(8, 16)','h.slice(9, 16)'))
b('k_idx','C25',(K,'exports.setInputSignal(hMSB, hLSB, i)','exports.setInputSignal(hMSB, hLSB, fArr.length - 1 - i)'))
b('k_flat','C25',(K,'        fillArray(res, a[i]);','        res.push(BigInt(a[i]));'))
b('k_swallow','C25',(K,'          throw new Error(`Error setting signal ${k}[${i}]: ${err}`);','          console.error(`Error setting signal ${k}[${i}]: ${err}`);'))
b('k_exc','C25',(K,'        throw new Error(err + errStr);','        if (code !== 4) throw new Error(err + errStr);'))
b('k_wt_n8','C09|C25',(K,'const idSection1length = 8 + n8;','const idSection1length = 4 + n8;'))
b('k_wt_prime','C09|C25',(K,'    exports.getRawPrime();\n    let pos = 7;','    let pos = 7;'))
b('k_wt_size','C09|C25',(K,'buff32[pos] = this.witnessSize;','buff32[pos] = this.witnessSize - 1;'))
b('k_wt_order','C09|C25',(K,'''      for (let j = 0; j < this.n32; j++) {
        buff32[pos + j] = exports.readSharedRWMemory(j);
      }
      pos += this.n32;
    }

    return buff;''','''      for (let j = 0; j < this.n32; j++) {
        buff32[pos + j] = exports.readSharedRWMemory(this.n32 - 1 - j);
      }
      pos += this.n32;
    }

    return buff;'''))
b('k_wt_from1','C09|C25',(K,'''    // Write witness values
    for (let i = 0;''','''    // Write witness values
    for (let i = 1;'''))
b('k_bin','C25',(K,'      const pos = i * this.n32;','      const pos = i * 8;'))
b('k_arr_prime','C25',(K,'    this.prime = fromArray32(arr);','    this.prime = fromArray32(arr.reverse());'))
b('k_init','C25',(K,'    exports.init(this.sanityCheck || sanityCheck ? 1 : 0);\n',''))
b('k_from32','C25',(K,'res = res * radix + BigInt(arr[i]);','res = res * radix + BigInt(arr[i] | 0);'))
b('k_norm_string','C25',(K,'res.push(BigInt(a));','res.push(BigInt(Number(a)));'))
b('info_prime','C25',(W,'prime: witnessCalculator.prime','prime: witnessCalculator.prime - 1n'))
b('k_noexc','C25',(K,'        throw new Error(err + errStr);','        console.error(err + errStr);'))
b('k_import','C25',(K,'      printErrorMessage(): void {','      printErrMessage(): void {'))
b('k_sanity','C25',(K,'this.sanityCheck || sanityCheck ? 1 : 0','this.sanityCheck && sanityCheck ? 1 : 0'))
b('k_sanity2','C25',(K,'this.sanityCheck = sanityCheck || false;','this.sanityCheck = false;'))
b('k_opt','C25',(K,'new WitnessCalculator(instance, options.sanityCheck)','new WitnessCalculator(instance)'))
