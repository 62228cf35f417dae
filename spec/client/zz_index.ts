// What the package exports, by name.
import { encap, decap, encrypt, decrypt, getPublicInput, parseSymFile, getInputSignals, mapInputsToWires } from "./index.js";

export function zzExports(): any {
  return { encap, decap, encrypt, decrypt, getPublicInput, parseSymFile, getInputSignals, mapInputsToWires };
}
