import { make } from './multisig.mjs';
export const { contracts, arb, run } = make(false);
