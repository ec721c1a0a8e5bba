// Gas, roughly as the chain counts it: each instruction of a contract and each call of the runtime has a price.
// `instrument` adds a counter of executed instructions, exported as COUNTER, to a module.
export const COUNTER = '__executed';
const leb = (b, p) => { let v = 0, sh = 0, x; do { x = b[p++]; v += (x & 127) * 2 ** sh; sh += 7; } while (x & 128); return [v, p]; };
const put = (v) => { const o = []; do { let x = v & 127; v = Math.floor(v / 128); if (v) x |= 128; o.push(x); } while (v); return Buffer.from(o); };
const sput = (v) => { const o = []; for (;;) { const x = v & 127; v >>= 7; if (v === 0 && !(x & 64)) { o.push(x); return Buffer.from(o); } o.push(x | 128); } };
const skip = (b, p) => { while (b[p++] & 128); return p; };

function body(b, start, end, g) {
  let [n, p] = leb(b, start);
  for (let i = 0; i < n; i++) { p = skip(b, p); p++; }
  const segs = [];
  let from = p, count = 0;
  const cut = (at) => { if (count) segs.push([from, count]); from = at; count = 0; };
  while (p < end) {
    const op = b[p++];
    count++;
    if (op === 0x02 || op === 0x03 || op === 0x04) { p = skip(b, p); if (op !== 0x02) cut(p); }
    else if (op === 0x05 || op === 0x0b || op === 0x00 || op === 0x0f) cut(p);
    else if (op === 0x0c || op === 0x0d) { p = skip(b, p); cut(p); }
    else if (op === 0x0e) { const [k, q] = leb(b, p); p = q; for (let i = 0; i <= k; i++) p = skip(b, p); cut(p); }
    else if (op === 0x10 || (op >= 0x20 && op <= 0x24) || op === 0x41 || op === 0x42 || op === 0x3f || op === 0x40) p = skip(b, p);
    else if (op === 0x11 || (op >= 0x28 && op <= 0x3e)) p = skip(b, skip(b, p));
    else if (op === 0x43) p += 4;
    else if (op === 0x44) p += 8;
    else if (op === 0x1c) { const [k, q] = leb(b, p); p = q + k; }
    else if (op === 0xfc) { const [k, q] = leb(b, p); p = q; if (k >= 8) { p = skip(b, p); if (k === 8 || k === 10 || k === 12 || k === 14) p = skip(b, p); } }
    else if (op === 0x01 || op === 0x1a || op === 0x1b || (op >= 0x45 && op <= 0xc4)) { /* no operands */ }
    else throw new Error('unknown instruction ' + op.toString(16));
  }
  cut(p);
  const out = [b.subarray(start, segs[0]?.[0] ?? end)];
  segs.forEach(([at, c], i) => {
    out.push(Buffer.from([0x23]), put(g), Buffer.from([0x42]), sput(c), Buffer.from([0x7c, 0x24]), put(g), b.subarray(at, segs[i + 1]?.[0] ?? end));
  });
  const r = Buffer.concat(out);
  return Buffer.concat([put(r.length), r]);
}

// `bytes`: a module without imported globals, whose sections 6, 7 and 10 are there.
export function instrument(bytes) {
  const b = Buffer.from(bytes), out = [b.subarray(0, 8)];
  let at = 8, g = null;
  while (at < b.length) {
    const id = b[at], [len, s] = leb(b, at + 1), end = s + len;
    let sec = b.subarray(s, end);
    if (id === 6) { const [n, p] = leb(b, s); g = n; sec = Buffer.concat([put(n + 1), b.subarray(p, end), Buffer.from([0x7e, 0x01, 0x42, 0x00, 0x0b])]); }
    if (id === 7) { const [n, p] = leb(b, s); sec = Buffer.concat([put(n + 1), b.subarray(p, end), put(COUNTER.length), Buffer.from(COUNTER), Buffer.from([3]), put(g)]); }
    if (id === 10) {
      let [n, p] = leb(b, s);
      const fs = [put(n)];
      for (let i = 0; i < n; i++) { const [l, q] = leb(b, p); fs.push(body(b, q, q + l, g)); p = q + l; }
      sec = Buffer.concat(fs);
    }
    out.push(Buffer.from([id]), put(sec.length), sec);
    at = end;
  }
  return Buffer.concat(out);
}

// Prices as they were when the contracts came out (near-primitives-core 0.4.0, the version they are built with), where
// what is sent is paid for at once, sending and execution. A storage access is taken to touch `nodes` nodes of the trie.
const x3 = (n) => 3n * BigInt(n);
const both = (n) => 2n * BigInt(n);
const nodes = 10n;
const node = x3(5367318642) * nodes;
export const COSTS = {
  op: 3856371n, base: x3(88256037), load: x3(11815321), loadByte: x3(72250),
  readMem: x3(869954400), readMemByte: x3(1267111), writeMem: x3(934598287), writeMemByte: x3(907924),
  readReg: x3(839055062), readRegByte: x3(32854), writeReg: x3(955174162), writeRegByte: x3(1267188),
  utf8: x3(1037259687), utf8Byte: x3(97193493), log: x3(1181104350), logByte: x3(4399597),
  receipt: both(108059500000), data: both(4697339419375), dataByte: both(59357464), validator: x3(303944908800),
  write: (k, v, old) => x3(21398912000) + x3(23494289 * k) + x3(10339513 * v) + x3(10705769 * old) + node,
  read: (k, v) => x3(18785615250) + x3(10317511 * k) + x3(1870335 * v) + node,
  remove: (k, v) => x3(17824343500) + x3(12740128 * k) + x3(3843852 * v) + node,
  has: (k) => x3(18013298875) + x3(10263615 * k) + node,
  action: (a) => {
    switch (a.t) {
      case 'call': return both(2319861500000) + both(2235934 * (a.method.length + a.args.length));
      case 'transfer': return both(115123062500);
      case 'create': return both(99607375000);
      case 'deploy': return both(184765750000) + both(6812999 * a.code.length);
      case 'stake': return 141715687500n + 102217625000n;
      case 'addkey': return both(102217625000) + both(1925331 * (a.permission === 'full' ? 0 : a.permission.methods.join(',').length));
      case 'delkey': return both(94946625000);
      default: return both(147489000000);
    }
  },
};
