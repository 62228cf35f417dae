# bugs that come with a rewrite of the code around them (TypeScript)
import os
D='packages/zkenc-js/src/'
C,S,Z,W,K,I=[D+x+'.ts' for x in ('crypto','sym_parser','zkenc','witness','witness_calculator','index')]
REPO=os.environ.get('ZK_REPO','/repo')
def src(f): return open(f'{REPO}/{f}').read()
def fn(f,start,ind=''):
    s=src(f); i=s.index(start); j=s.index('\n%s}\n'%ind,i)+len(ind)+3
    return s[i:j]
def between(f,a,b):
    s=src(f); i=s.index(a); return s[i:s.index(b,i)]
B=[]
def b(n,p,*e): B.append((n,p,list(e)))
# ------------------------------------------------------------------ crypto
b('q_cat','C03|C02',(C,between(C,'  // Prepend nonce to encrypted data','  return result;\n}'),'''  const body = new Uint8Array(encrypted);
  const result = new Uint8Array([...nonce, ...body.subarray(0, body.length - 16), ...body.subarray(-16).reverse()]);

'''),)
b('q_helper','C02',(C,'/**\n * Encrypt data using','''function freshNonce(length = 12): Uint8Array {
  const n = new Uint8Array(length);
  crypto.getRandomValues(n.subarray(0, 8));
  return n;
}

/**
 * Encrypt data using'''),(C,'  const nonce = crypto.getRandomValues(new Uint8Array(12));','  const nonce = freshNonce();'))
b('q_xor','C02',(C,'  const nonce = crypto.getRandomValues(new Uint8Array(12));','''  const nonce = crypto.getRandomValues(new Uint8Array(12));
  for (let i = 0; i < Math.min(nonce.length, data.length); i++) nonce[i] &= data[i] | 0x0f;'''))
b('q_keycache','C01|C03|C04',(C,'/**\n * Encrypt data using','''const imported = new Map<string, Promise<CryptoKey>>();
function importKey(key: Uint8Array): Promise<CryptoKey> {
  const id = Array.from(key.slice(0, 8)).join(",");
  let k = imported.get(id);
  if (!k) {
    k = crypto.subtle.importKey("raw", key as BufferSource, { name: "AES-GCM" }, false, ["encrypt", "decrypt"]);
    imported.set(id, k);
  }
  return k;
}

/**
 * Encrypt data using'''),(C,between(C,'  const cryptoKey = await crypto.subtle.importKey(','\n\n  // Encrypt\n'),'  const cryptoKey = await importKey(key);'))
b('q_checkkey','C04',(C,'/**\n * Encrypt data using','''function checkKey(key: Uint8Array): void {
  if (key.length < 32 || key.length % 8 !== 0) {
    throw new Error("Key must be 32 bytes");
  }
}

/**
 * Encrypt data using'''),(C,'  if (key.length !== 32) {\n    throw new Error("Key must be 32 bytes");\n  }\n\n  // Generate','  checkKey(key);\n\n  // Generate'),(C,'    key as BufferSource,\n    { name: "AES-GCM" },\n    false,\n    ["encrypt"]','    key.subarray(0, 32) as BufferSource,\n    { name: "AES-GCM" },\n    false,\n    ["encrypt"]'))
b('q_padkey','C04',(C,'  if (key.length !== 32) {\n    throw new Error("Key must be 32 bytes");\n  }\n\n  if (enc','  if (key.length === 16) {\n    const wide = new Uint8Array(32);\n    wide.set(key);\n    key = wide;\n  }\n  if (key.length !== 32) {\n    throw new Error("Key must be 32 bytes");\n  }\n\n  if (enc'))
b('q_legacy','C01',(C,'  } catch (error) {\n    throw new Error("Decryption failed','''  } catch (error) {
    if (encrypted.length % 16 === 12) {
      const stream = await crypto.subtle.importKey("raw", key as BufferSource, { name: "AES-CTR" }, false, ["decrypt"]);
      const counter = new Uint8Array(16);
      counter.set(nonce);
      counter[15] = 2;
      return new Uint8Array(await crypto.subtle.decrypt({ name: "AES-CTR", counter, length: 32 }, stream, ciphertext.subarray(0, -16) as BufferSource));
    }
    throw new Error("Decryption failed'''))
b('q_subarray','C03',(C,'  const ciphertext = encrypted.slice(12);','  const ciphertext = new Uint8Array(encrypted.buffer, 12);'))
# ------------------------------------------------------------------ sym parser
PS=fn(S,'export function parseSymFile(')
b('q_regex','C10',(S,PS,'''export function parseSymFile(symContent: string): Map<string, number> {
  const wireMap = new Map<string, number>();
  for (const line of symContent.trim().split("\\n")) {
    const [label, wire, component, ...name] = line.split(",");
    if (name.length === 0) {
      continue;
    }
    const wireId = parseInt(wire, 10);
    if (wireId >= 0) {
      wireMap.set(name.join(",").trim(), wireId);
    }
  }
  return wireMap;
}
'''))
b('q_entries','C10',(S,PS,'''export function parseSymFile(symContent: string): Map<string, number> {
  const entries = symContent
    .trim()
    .split("\\n")
    .map((line) => line.split(","))
    .filter((parts) => parts.length === 4)
    .map((parts): [string, number] => [parts[3].trim(), parseInt(parts[1], 10)])
    .filter(([, wireId]) => wireId > -1 && wireId !== 0);
  return new Map(entries);
}
'''))
b('q_revent','C10',(S,PS,'''export function parseSymFile(symContent: string): Map<string, number> {
  const entries = symContent
    .trim()
    .split("\\n")
    .map((line) => line.split(","))
    .filter((parts) => parts.length === 4)
    .map((parts): [string, number] => [parts[3].trim(), parseInt(parts[1], 10)])
    .filter(([, wireId]) => wireId >= 0)
    .reverse();
  return new Map(entries);
}
'''))
b('q_reduce','C10',(S,PS,'''export function parseSymFile(symContent: string): Map<string, number> {
  return symContent.trim().split("\\n").reduce((map, line) => {
    const parts = line.split(",");
    if (parts.length < 4) return map;
    const wireId = parseInt(parts[1], 10);
    return wireId >= 0 ? map.set(parts[3].trim(), wireId) : map;
  }, new Map<string, number>());
}
'''))
b('q_while','C10',(S,PS,'''export function parseSymFile(symContent: string): Map<string, number> {
  const lines = symContent.trim().split("\\n");
  const wireMap = new Map<string, number>();
  let i = 0;
  while (i < lines.length) {
    const parts = lines[i].split(",");
    if (parts.length === 4) {
      const wireId = parseInt(parts[1], 10);
      if (wireId < 0) {
        i += 2;
        continue;
      }
      wireMap.set(parts[3].trim(), wireId);
    }
    i++;
  }
  return wireMap;
}
'''))
GS=fn(S,'export function getInputSignals(')
b('q_sel','C11',(S,GS,'''export function getInputSignals(
  wireMap: Map<string, number>,
  maxWireId?: number
): Map<string, number> {
  return new Map(
    [...wireMap]
      .filter(([name, wireId]) => name.startsWith("main.") && wireId <= (maxWireId ?? wireMap.size))
      .map(([name, wireId]): [string, number] => [name.slice(5), wireId])
  );
}
'''))
b('q_sel2','C11',(S,GS,'''export function getInputSignals(
  wireMap: Map<string, number>,
  maxWireId: number = Infinity
): Map<string, number> {
  const selected = new Map<string, number>();
  wireMap.forEach((wireId, name) => {
    const [component, ...rest] = name.split(".");
    if (component === "main" && rest.length === 1 && wireId <= maxWireId) {
      selected.set(rest[0], wireId);
    }
  });
  return selected;
}
'''))
b('q_sel3','C11',(S,GS,'''export function getInputSignals(
  wireMap: Map<string, number>,
  maxWireId?: number
): Map<string, number> {
  const selected = new Map<string, number>();
  wireMap.forEach((wireId, name) => {
    if (maxWireId && wireId > maxWireId) return;
    if (name.startsWith("main.")) selected.set(name.slice("main.".length), wireId);
  });
  return selected;
}
'''))
MW=fn(S,'export function mapInputsToWires(')
b('q_map','C12',(S,MW,'''export function mapInputsToWires(
  inputs: Record<string, any>,
  wireMap: Map<string, number>
): Map<number, string | string[]> {
  const wireValues = new Map<number, string | string[]>();

  const visit = (name: string, value: any): void => {
    if (Array.isArray(value)) {
      value.forEach((item, i) => visit(`${name}[${i}]`, item));
      return;
    }
    if (typeof value === "object" && value !== null) {
      for (const [k, v] of Object.entries(value)) visit(`${name}.${k}`, v);
      return;
    }
    const wireId = wireMap.get(name);
    if (wireId !== undefined && !wireValues.has(wireId)) {
      wireValues.set(wireId, Math.trunc(Number(value)).toString());
    }
  };

  for (const [key, value] of Object.entries(inputs)) visit(key, value);
  return wireValues;
}
'''))
b('q_map2','C12',(S,'      for (let i = 0; i < value.length; i++) {\n        flattenInput(`${key}[${i}]`, value[i], prefix);\n      }','      value.flat(Infinity).forEach((item, i) => flattenInput(`${key}[${i}]`, item, prefix));'))
b('q_map3','C12',(S,'      const wireId = wireMap.get(fullKey);','      const wireId = wireMap.get(fullKey) ?? wireMap.get(key);'))
b('q_map4','C12',(S,'  for (const [key, value] of Object.entries(inputs)) {\n    flattenInput(key, value);','  for (const [key, value] of Object.entries(inputs).sort()) {\n    flattenInput(key.trim(), value);'))
# ------------------------------------------------------------------ zkenc: encap
EN=between(Z,'  // Find the maximum wire ID','  // Serialize witness to snarkjs')
b('q_enc1','C12',(Z,EN,'''  const witnessArray: bigint[] = [1n];
  const ids = [...wireValues.keys()].sort();
  for (const id of ids) {
    if (id !== witnessArray.length) break;
    const value = wireValues.get(id)!;
    witnessArray.push(BigInt(Array.isArray(value) ? value[0] : value));
  }

'''))
b('q_enc2','C12',(Z,EN,'''  const witnessArray: bigint[] = [1n];
  for (const [id, value] of wireValues) {
    if (id > 0) witnessArray[id] = BigInt(Array.isArray(value) ? value[0] : value);
  }
  for (let i = 0; i < witnessArray.length; i++) {
    witnessArray[i] = witnessArray[i] ?? 0n;
  }

'''))
b('q_enc3','C12',(Z,EN,'''  const witnessArray: bigint[] = [1n];
  for (let i = 1; wireValues.has(i); i++) {
    const value = wireValues.get(i)!;
    witnessArray.push(BigInt(Array.isArray(value) ? value[value.length - 1] : value) || 1n);
  }

'''))
SW=fn(Z,'function serializeWitnessSimple(')
b('q_ser1','C09|C12|C13',(Z,'    const reduced = ((value % bn254Prime) + bn254Prime) % bn254Prime;','    const reduced = value < bn254Prime ? value : value % bn254Prime;'))
b('q_ser2','C09|C12|C13',(Z,fn(Z,'function bigIntToLeBytes32('),'''function bigIntToLeBytes32(value: bigint): Uint8Array {
  const hex = value.toString(16);
  const bytes = new Uint8Array(32);
  for (let i = 0; i * 2 < hex.length; i++) {
    bytes[i] = parseInt(hex.slice(hex.length - 2 * i - 2, hex.length - 2 * i), 16);
  }
  return bytes;
}
'''))
b('q_ser3','C09|C12|C13',(Z,fn(Z,'function bigIntToLeBytes32('),'''function bigIntToLeBytes32(value: bigint): Uint8Array {
  const bytes = new Uint8Array(32);
  const view = new DataView(bytes.buffer);
  for (let i = 0; i < 4; i++) {
    view.setBigUint64(8 * i, (value >> BigInt(62 * i)) & 0xffffffffffffffffn, true);
  }
  return bytes;
}
'''))
b('q_ser4','C09|C12|C13',(Z,'''  for (const value of witness) {
    // Reduce''','''  for (const value of new Set(witness)) {
    // Reduce'''))
# ------------------------------------------------------------------ zkenc: container
b('q_c1','C05',(Z,'  const combinedCiphertext = new Uint8Array(totalSize);\n  const view = new DataView(combinedCiphertext.buffer);','  const combinedCiphertext = new Uint8Array((totalSize + 3) & ~3);\n  const view = new DataView(combinedCiphertext.buffer);'))
b('q_c2','C05',(Z,'  view.setUint32(offset, witnessCiphertext.length, false);','  view.setUint16(offset + 2, witnessCiphertext.length, false);'))
b('q_c3','C05',(Z,'    view.setUint32(offset, publicInputBytes.length, false);','    view.setUint32(offset, JSON.stringify(publicInputs).length, false);'))
b('q_c4','C05',(Z,'    const publicInputJson = JSON.stringify(publicInputs);','    const publicInputJson = JSON.stringify(publicInputs, (_, v) => (typeof v === "number" ? String(v) : v));'))
b('q_c5','C05',(Z,'  const flag = includePublicInput ? 1 : 0;','  const flag = publicInputBytes.length > 2 ? 1 : 0;'))
b('q_c6','C05|C02|C03',(Z,'  const encryptedMessage = await aesGcmEncrypt(key, message);','  const encryptedMessage = await aesGcmEncrypt(key, message.length ? message : new Uint8Array(1));'))
RD='''  // Step 1: Parse combined ciphertext
  if (ciphertext.length < 5) {'''
b('q_d1','C06',(Z,'  const encryptedMessage = ciphertext.slice(offset);','  const encryptedMessage = ciphertext.slice(flag === 1 ? offset : 5 + (witnessCtLength & 0xffff));'))
b('q_d2','C06',(Z,'  if (flag === 1) {\n    if (ciphertext.length < offset + 4)','  if (flag) {\n    if (ciphertext.length < offset + 4)'))
b('q_d3','C06',(Z,'  const witnessCiphertext = ciphertext.slice(offset, offset + witnessCtLength);','  const witnessCiphertext = new Uint8Array(ciphertext.buffer.slice(offset, offset + witnessCtLength));'))
b('q_d4','C06',(Z,'  const publicInputBytes = ciphertext.slice(offset, offset + publicInputLength);','  const publicInputBytes = ciphertext.slice(offset, Math.max(offset + publicInputLength, ciphertext.indexOf(0x7d, offset) + 1));'))
b('q_d5','C06',(Z,'  if (ciphertext.length < offset + publicInputLength) {\n    throw new Error("Invalid ciphertext: public input length mismatch");\n  }\n\n  // Extract and','  if (ciphertext.length <= offset + publicInputLength - 1 && publicInputLength > 1) {\n    throw new Error("Invalid ciphertext: public input length mismatch");\n  }\n\n  // Extract and'))
# ------------------------------------------------------------------ calculator
NZ=fn(K,'function normalize(')
b('q_n1','C25',(K,NZ,'''function normalize(n: string | number | bigint, prime: bigint): bigint {
  const v = BigInt(n);
  if (v < 0n) return prime + v;
  return v % prime;
}
'''))
b('q_n2','C25',(K,NZ,'''function normalize(n: string | number | bigint, prime: bigint): bigint {
  let res = BigInt(n);
  while (res < 0) res += prime;
  while (res > prime) res -= prime;
  return res;
}
'''))
FA=fn(K,'function flatArray(')
b('q_f1','C25',(K,FA,'''function flatArray(a: any): bigint[] {
  return [a].flat(2).map((v) => BigInt(v));
}
'''))
b('q_f2','C25',(K,FA,'''function flatArray(a: any): bigint[] {
  if (!Array.isArray(a)) return [BigInt(a)];
  const res: bigint[] = [];
  for (const v of a) {
    if (v === null || v === undefined) continue;
    res.push(...flatArray(v));
  }
  return res;
}
'''))
b('q_f3','C25',(K,FA,'''function flatArray(a: any): bigint[] {
  if (!Array.isArray(a)) return [BigInt(a)];
  return a.reduce((res: bigint[], v: any) => (Array.isArray(v) ? res.concat(flatArray(v)) : [BigInt(v), ...res]), []);
}
'''))
TA=fn(K,'function toArray32(')
b('q_t1','C25',(K,TA,'''function toArray32(rem: bigint, size?: number): number[] {
  const res: number[] = [];
  while (rem > 0n) {
    res.unshift(Number(BigInt.asUintN(31, rem)));
    rem >>= 32n;
  }
  while (size && res.length < size) res.unshift(0);
  return res;
}
'''))
b('q_t2','C25',(K,TA,'''function toArray32(rem: bigint, size?: number): number[] {
  const res: number[] = [];
  while (rem > 0n) {
    res.unshift(Number(rem % 0x100000000n));
    rem = rem / 0x100000000n;
  }
  while (size && res.length < size) res.push(0);
  return res;
}
'''))
FN=fn(K,'function fnvHash(')
b('q_h1','C25',(K,FN,'''function fnvHash(str: string): string {
  let hash = 0xcbf29ce484222325n;
  for (const byte of new TextEncoder().encode(str)) {
    hash = BigInt.asUintN(64, (hash * 0x100000001b3n) ^ BigInt(byte));
  }
  return hash.toString(16).padStart(16, "0");
}
'''))
b('q_h2','C25',(K,FN,'''function fnvHash(str: string): string {
  let hash = 0xcbf29ce484222325n;
  for (let i = 0; i < str.length; i++) {
    hash = BigInt.asUintN(63, (hash ^ BigInt(str.charCodeAt(i))) * 0x100000001b3n);
  }
  return hash.toString(16).padStart(16, "0");
}
'''))
b('q_w1','C25|C09',(K,'''      for (let j = 0; j < this.n32; j++) {
        buff32[pos + j] = exports.readSharedRWMemory(j);
      }
      pos += this.n32;''','''      for (let j = 0; j < this.n32; j++) {
        buff32[pos++] = exports.readSharedRWMemory(this.n32 - 1 - j);
      }'''))
b('q_w2','C25',(K,'''      for (let j = 0; j < this.n32; j++) {
        arr[this.n32 - 1 - j] = exports.readSharedRWMemory(j);
      }
      w.push(fromArray32(arr));''','''      for (let j = 0; j < this.n32 - 1; j++) {
        arr[this.n32 - 1 - j] = exports.readSharedRWMemory(j);
      }
      w.push(fromArray32(arr));'''))
b('q_w3','C25',(K,'    if (input_counter < expectedInputs) {','    if (keys.length < expectedInputs && input_counter < expectedInputs) {'))
b('q_w4','C25',(K,'      if (fArr.length > signalSize) {','      while (fArr.length > signalSize && fArr[fArr.length - 1] === 0n) fArr.pop();\n      if (fArr.length > signalSize) {'))
# ------------------------------------------------------------------ wasm init
II=src(Z)
b('q_i1','C24',(Z,between(Z,'async function ensureWasmInit','/**'),'''async function ensureWasmInit(): Promise<void> {
  if (wasmInitialized) {
    return;
  }
  wasmInitialized = true;
  await Promise.resolve();
  await init();
}

''')) if 'wasmInitialized' in II else None
