// Keccak (original padding), for the host functions keccak256 / keccak512.
const RC = [0x1n, 0x8082n, 0x800000000000808an, 0x8000000080008000n, 0x808bn, 0x80000001n, 0x8000000080008081n, 0x8000000000008009n,
  0x8an, 0x88n, 0x80008009n, 0x8000000an, 0x8000808bn, 0x800000000000008bn, 0x8000000000008089n, 0x8000000000008003n,
  0x8000000000008002n, 0x8000000000000080n, 0x800an, 0x800000008000000an, 0x8000000080008081n, 0x8000000000008080n, 0x80000001n, 0x8000000080008008n];
const ROT = [[0, 36, 3, 41, 18], [1, 44, 10, 45, 2], [62, 6, 43, 15, 61], [28, 55, 25, 21, 56], [27, 20, 39, 8, 14]];
const M = (1n << 64n) - 1n;
const rotl = (x, n) => n === 0 ? x : (((x << BigInt(n)) | (x >> BigInt(64 - n))) & M);
function f(A) {
  for (let r = 0; r < 24; r++) {
    const C = [], D = [];
    for (let x = 0; x < 5; x++) C[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4];
    for (let x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ rotl(C[(x + 1) % 5], 1);
    for (let x = 0; x < 5; x++) for (let y = 0; y < 5; y++) A[x][y] ^= D[x];
    const B = [[], [], [], [], []];
    for (let x = 0; x < 5; x++) for (let y = 0; y < 5; y++) B[y][(2 * x + 3 * y) % 5] = rotl(A[x][y], ROT[x][y]);
    for (let x = 0; x < 5; x++) for (let y = 0; y < 5; y++) A[x][y] = B[x][y] ^ (~B[(x + 1) % 5][y] & M & B[(x + 2) % 5][y]);
    A[0][0] ^= RC[r];
  }
}
function keccak(u8, outLen) {
  const rate = 200 - 2 * outLen;
  const n = Math.floor(u8.length / rate) + 1;
  const m = new Uint8Array(n * rate); m.set(u8); m[u8.length] ^= 1; m[m.length - 1] ^= 0x80;
  const A = Array.from({ length: 5 }, () => [0n, 0n, 0n, 0n, 0n]);
  const v = new DataView(m.buffer);
  for (let b = 0; b < n; b++) {
    for (let i = 0; i < rate / 8; i++) A[i % 5][Math.floor(i / 5)] ^= v.getBigUint64(b * rate + 8 * i, true);
    f(A);
  }
  const out = new Uint8Array(outLen); const o = new DataView(out.buffer);
  for (let i = 0; i < outLen / 8; i++) o.setBigUint64(8 * i, A[i % 5][Math.floor(i / 5)], true);
  return out;
}
export const keccak256 = (u) => keccak(u, 32);
export const keccak512 = (u) => keccak(u, 64);
