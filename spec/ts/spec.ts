// Reference for the TypeScript package. Evaluated by the same translation as the code; never executed.
// The initialisation of the WASM module is left out here (property C24 decides it on its own).
import { wasm_encap, wasm_decap } from "../pkg/zkenc_js.js";

const P = 21888242871839275222246405745257275088548364400416034343698204186575808495617n;

// ------------------------------------------------------------------ symmetric encryption
export async function seal(key: Uint8Array, data: Uint8Array): Promise<Uint8Array> {
  if (key.length !== 32) throw new Error();
  const nonce = crypto.getRandomValues(new Uint8Array(12));
  const k = await crypto.subtle.importKey("raw", key as BufferSource, "AES-GCM", false, ["encrypt"]);
  const c = new Uint8Array(await crypto.subtle.encrypt({ name: "AES-GCM", iv: nonce }, k, data as BufferSource));
  const out = new Uint8Array(12 + c.length);
  out.set(nonce);
  out.set(c, 12);
  return out;
}
export async function open(key: Uint8Array, message: Uint8Array): Promise<Uint8Array> {
  if (key.length !== 32) throw new Error();
  if (message.length < 28) throw new Error();
  const k = await crypto.subtle.importKey("raw", key as BufferSource, "AES-GCM", false, ["decrypt"]);
  return new Uint8Array(
    await crypto.subtle.decrypt({ name: "AES-GCM", iv: message.slice(0, 12) }, k, message.slice(12) as BufferSource));
}

// ------------------------------------------------------------------ symbol files and public inputs
export function wires(text: string): Map<string, number> {
  const m = new Map<string, number>();
  for (const line of text.trim().split("\n")) {
    const f = line.split(",");
    if (f.length === 4) {
      const wire = parseInt(f[1], 10);
      if (wire >= 0) m.set(f[3].trim(), wire);
    }
  }
  return m;
}
export function select(all: Map<string, number>, bound?: number): Map<string, number> {
  const m = new Map<string, number>();
  for (const [name, wire] of all) {
    if (name.startsWith("main.") && (bound === undefined || wire <= bound)) m.set(name.substring(5), wire);
  }
  return m;
}
export function assign(inputs: Record<string, any>, wireOf: Map<string, number>): Map<number, string> {
  const out = new Map<number, string>();
  function put(key: string, value: any, prefix: string): void {
    const full = prefix ? `${prefix}.${key}` : key;
    if (Array.isArray(value)) {
      for (let i = 0; i < value.length; i++) put(`${key}[${i}]`, value[i], prefix);
    } else if (typeof value === "object" && value !== null) {
      for (const [k, v] of Object.entries(value)) put(k, v, full);
    } else {
      const wire = wireOf.get(full);
      if (wire !== undefined) out.set(wire, value.toString());
    }
  }
  for (const [key, value] of Object.entries(inputs)) put(key, value, "");
  return out;
}

// the same, except that an absent (null or undefined) value is spelled out instead of rejected
export function assignAny(inputs: Record<string, any>, wireOf: Map<string, number>): Map<number, string> {
  const out = new Map<number, string>();
  function put(key: string, value: any, prefix: string): void {
    const full = prefix ? `${prefix}.${key}` : key;
    if (Array.isArray(value)) {
      for (let i = 0; i < value.length; i++) put(`${key}[${i}]`, value[i], prefix);
    } else if (typeof value === "object" && value !== null) {
      for (const [k, v] of Object.entries(value)) put(k, v, full);
    } else {
      const wire = wireOf.get(full);
      if (wire !== undefined) out.set(wire, String(value));
    }
  }
  for (const [key, value] of Object.entries(inputs)) put(key, value, "");
  return out;
}

// ------------------------------------------------------------------ witness files
function le32(v: bigint): Uint8Array {
  const b = new Uint8Array(32);
  for (let i = 0; i < 32; i++) b[i] = Number((v >> BigInt(8 * i)) & 0xffn);
  return b;
}
export function wtns(values: bigint[]): Uint8Array {
  const out = new Uint8Array(76 + 32 * values.length);
  const v = new DataView(out.buffer);
  out[0] = 0x77; out[1] = 0x74; out[2] = 0x6e; out[3] = 0x73;
  v.setUint32(4, 2, true);
  v.setUint32(8, 2, true);
  v.setUint32(12, 1, true);
  v.setBigUint64(16, 40n, true);
  v.setUint32(24, 32, true);
  out.set(le32(P), 28);
  v.setUint32(60, values.length, true);
  v.setUint32(64, 2, true);
  v.setBigUint64(68, BigInt(32 * values.length), true);
  for (let i = 0; i < values.length; i++) out.set(le32(((values[i] % P) + P) % P), 76 + 32 * i);
  return out;
}

// ------------------------------------------------------------------ encapsulation
interface EncapFiles { r1csBuffer: Uint8Array; symContent: string }
interface DecapFiles { r1csBuffer: Uint8Array; wasmBuffer: Uint8Array }
export function assigned(files: EncapFiles, inputs: Record<string, any>): Map<number, string> {
  return assign(inputs, select(wires(files.symContent)));
}
export function values(w: Map<number, string>): bigint[] {
  const out: bigint[] = [1n];
  for (let i = 1; ; i++) {
    const v = w.get(i);
    if (v === undefined) break;
    out.push(BigInt(v));
  }
  return out;
}
export async function encapsulate(files: EncapFiles, inputs: Record<string, any>): Promise<{ ciphertext: Uint8Array; key: Uint8Array }> {
  const r = wasm_encap(files.r1csBuffer, wtns(values(assigned(files, inputs))));
  return { ciphertext: r.ciphertext, key: r.key };
}
export async function decapsulate(files: DecapFiles, ciphertext: Uint8Array, inputs: Record<string, any>): Promise<Uint8Array> {
  const w = await witness(files.wasmBuffer as BufferSource, inputs);
  return wasm_decap(files.r1csBuffer, w, ciphertext);
}

// ------------------------------------------------------------------ the combined ciphertext
export function container(embed: boolean, ct: Uint8Array, inputs: Record<string, any>, sealed: Uint8Array): Uint8Array {
  const pub: Uint8Array = embed ? new TextEncoder().encode(JSON.stringify(inputs)) : new Uint8Array(0);
  const head = embed ? 9 : 5;
  const out = new Uint8Array(head + ct.length + pub.length + sealed.length);
  const v = new DataView(out.buffer);
  out[0] = embed ? 1 : 0;
  v.setUint32(1, ct.length, false);
  out.set(ct, 5);
  if (embed) {
    v.setUint32(5 + ct.length, pub.length, false);
    out.set(pub, 9 + ct.length);
  }
  out.set(sealed, head + ct.length + pub.length);
  return out;
}
export async function encryptWith(files: EncapFiles, inputs: Record<string, any>, message: Uint8Array, embed: boolean) {
  const { ciphertext, key } = await encapsulate(files, inputs);
  return { ciphertext: container(embed, ciphertext, inputs, await seal(key, message)), key };
}
export function parts(c: Uint8Array): { embed: boolean; ct: Uint8Array; rest: number } {
  if (c.length < 5) throw new Error();
  const v = new DataView(c.buffer, c.byteOffset);
  const n = v.getUint32(1, false);
  if (c.length < 5 + n) throw new Error();
  return { embed: c[0] === 1, ct: c.slice(5, 5 + n), rest: 5 + n };
}
export function embedded(c: Uint8Array): Uint8Array {
  const p = parts(c);
  if (!p.embed) throw new Error();
  if (c.length < p.rest + 4) throw new Error();
  const k = new DataView(c.buffer, c.byteOffset).getUint32(p.rest, false);
  if (c.length < p.rest + 4 + k) throw new Error();
  return c.slice(p.rest + 4, p.rest + 4 + k);
}
export function publicInput(c: Uint8Array): Record<string, any> {
  return JSON.parse(new TextDecoder().decode(embedded(c)));
}
export async function decryptWith(files: DecapFiles, c: Uint8Array, inputs: Record<string, any>): Promise<Uint8Array> {
  const p = parts(c);
  let off = p.rest;
  if (p.embed) {
    if (c.length < off + 4) throw new Error();
    const k = new DataView(c.buffer, c.byteOffset).getUint32(off, false);
    if (c.length < off + 4 + k) throw new Error();
    off += 4 + k;
  }
  const key = await decapsulate(files, p.ct, inputs);
  return open(key, c.slice(off));
}

// ------------------------------------------------------------------ the witness calculator
function hash(text: string): string {
  let h = 0xcbf29ce484222325n;
  for (let i = 0; i < text.length; i++) {
    h ^= BigInt(text.charCodeAt(i));
    h *= 0x100000001b3n;
    h %= 2n ** 64n;
  }
  let s = h.toString(16);
  s = "0".repeat(16 - s.length) + s;
  return s;
}
function leaves(a: any): bigint[] {
  const out: bigint[] = [];
  function go(to: bigint[], x: any): void {
    if (Array.isArray(x)) { for (let i = 0; i < x.length; i++) go(to, x[i]); }
    else to.push(BigInt(x));
  }
  go(out, a);
  return out;
}
function residue(x: bigint, p: bigint): bigint {
  const r = x % p;
  return r < 0n ? r + p : r;
}
function words(x: bigint, size: number): number[] {
  const out: number[] = [];
  while (x) {
    out.unshift(Number(x % 0x100000000n));
    x = x / 0x100000000n;
  }
  for (let i = size - out.length; i > 0; i--) out.unshift(0);
  return out;
}
function number32(exports: any, n32: number): bigint {
  const a = new Uint32Array(n32);
  for (let j = 0; j < n32; j++) a[n32 - 1 - j] = exports.readSharedRWMemory(j);
  let r = 0n;
  for (let i = 0; i < n32; i++) r = r * 0x100000000n + BigInt(a[i]);
  return r;
}
async function start(code: BufferSource): Promise<any> {
  const module = await WebAssembly.compile(code);
  const instance = await WebAssembly.instantiate(module, {});
  return instance.exports;
}
function feed(exports: any, inputs: Record<string, any>, n32: number, prime: bigint, sanity: number = 0): void {
  exports.init(sanity);
  let count = 0;
  for (const k of Object.keys(inputs)) {
    const h = hash(k);
    const hi = parseInt(h.slice(0, 8), 16), lo = parseInt(h.slice(8, 16), 16);
    const vs = leaves(inputs[k]);
    const size = exports.getInputSignalSize(hi, lo);
    if (size < 0) throw new Error();
    if (vs.length < size) throw new Error();
    if (vs.length > size) throw new Error();
    for (let i = 0; i < vs.length; i++) {
      const w = words(residue(vs[i], prime), n32);
      for (let j = 0; j < n32; j++) exports.writeSharedRWMemory(j, w[n32 - 1 - j]);
      exports.setInputSignal(hi, lo, i);
      count++;
    }
  }
  if (count < exports.getInputSize()) throw new Error();
}
export async function witness(code: BufferSource, inputs: Record<string, any>): Promise<Uint8Array> {
  const exports = await start(code);
  const n32: number = exports.getFieldNumLen32();
  exports.getRawPrime();
  const prime = number32(exports, n32);
  const size: number = exports.getWitnessSize();
  feed(exports, inputs, n32, prime);
  const n8 = 4 * n32;
  const out = new Uint8Array(4 * (size * n32 + n32 + 11));
  const v = new DataView(out.buffer);
  out[0] = 0x77; out[1] = 0x74; out[2] = 0x6e; out[3] = 0x73;
  v.setUint32(4, 2, true);
  v.setUint32(8, 2, true);
  v.setUint32(12, 1, true);
  v.setBigUint64(16, BigInt(8 + n8), true);
  v.setUint32(24, n8, true);
  exports.getRawPrime();
  for (let j = 0; j < n32; j++) v.setUint32(28 + 4 * j, exports.readSharedRWMemory(j), true);
  v.setUint32(28 + n8, size, true);
  v.setUint32(32 + n8, 2, true);
  v.setBigUint64(36 + n8, BigInt(n8 * size), true);
  for (let i = 0; i < size; i++) {
    exports.getWitness(i);
    for (let j = 0; j < n32; j++) v.setUint32(44 + n8 + n8 * i + 4 * j, exports.readSharedRWMemory(j), true);
  }
  return out;
}
async function array(code: BufferSource, inputs: Record<string, any>, sanity: number): Promise<bigint[]> {
  const exports = await start(code);
  const n32: number = exports.getFieldNumLen32();
  exports.getRawPrime();
  const prime = number32(exports, n32);
  const size: number = exports.getWitnessSize();
  feed(exports, inputs, n32, prime, sanity);
  const out: bigint[] = [];
  for (let i = 0; i < size; i++) {
    exports.getWitness(i);
    out.push(number32(exports, n32));
  }
  return out;
}
export async function witnessArray(code: BufferSource, inputs: Record<string, any>): Promise<bigint[]> { return await array(code, inputs, 0); }
export async function witnessChecked(code: BufferSource, inputs: Record<string, any>): Promise<bigint[]> { return await array(code, inputs, 1); }
export async function info(code: BufferSource) {
  const exports = await start(code);
  const version: number = exports.getVersion();
  const n32: number = exports.getFieldNumLen32();
  exports.getRawPrime();
  const prime = number32(exports, n32);
  const witnessSize: number = exports.getWitnessSize();
  return { version, n32, prime, witnessSize };
}

export async function binWitness(code: BufferSource, inputs: Record<string, any>): Promise<Uint8Array> {
  const exports = await start(code);
  const n32: number = exports.getFieldNumLen32();
  exports.getRawPrime();
  const prime = number32(exports, n32);
  const size: number = exports.getWitnessSize();
  feed(exports, inputs, n32, prime);
  const out = new Uint8Array(4 * size * n32);
  const v = new DataView(out.buffer);
  for (let i = 0; i < size; i++) {
    exports.getWitness(i);
    for (let j = 0; j < n32; j++) v.setUint32(4 * (n32 * i + j), exports.readSharedRWMemory(j), true);
  }
  return out;
}
export async function version(code: BufferSource): Promise<number> {
  const exports = await start(code);
  return exports.getVersion();
}
export async function witnessTwice(code: BufferSource, first: Record<string, any>, second: Record<string, any>): Promise<bigint[]> {
  const exports = await start(code);
  const n32: number = exports.getFieldNumLen32();
  exports.getRawPrime();
  const prime = number32(exports, n32);
  const size: number = exports.getWitnessSize();
  feed(exports, first, n32, prime);
  for (let i = 0; i < size; i++) exports.getWitness(i);
  feed(exports, second, n32, prime);
  const out: bigint[] = [];
  for (let i = 0; i < size; i++) {
    exports.getWitness(i);
    out.push(number32(exports, n32));
  }
  return out;
}
