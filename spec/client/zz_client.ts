// Clients of the package: entry points that are reached only through the class it exports.
import build from "./witness_calculator.js";

export async function zzBinWitness(code: BufferSource, inputs: Record<string, any>): Promise<Uint8Array> {
  const w = await build(code);
  return await w.calculateBinWitness(inputs, false);
}
export async function zzSanity(code: BufferSource, inputs: Record<string, any>): Promise<bigint[]> {
  const w = await build(code);
  return await w.calculateWitness(inputs, true);
}
export async function zzOption(code: BufferSource, inputs: Record<string, any>): Promise<bigint[]> {
  const w = await build(code, { sanityCheck: true });
  return await w.calculateWitness(inputs);
}
export async function zzVersion(code: BufferSource): Promise<number> {
  const w = await build(code);
  return w.circom_version();
}
// one calculator used twice: the first calculation leaves nothing behind that the second could see
export async function zzTwice(code: BufferSource, first: Record<string, any>, second: Record<string, any>): Promise<bigint[]> {
  const w = await build(code);
  await w.calculateWitness(first, false);
  return await w.calculateWitness(second, false);
}
