// State manipulation: `replace` and `clean` on an account with any state, against a map of bytes.
import { Chain, NEAR, codeOf } from '../sim/near.mjs';
import { fc, wasm, wasmBytes, op, ops, seq, pick, show } from '../sim/harness.mjs';

export const contracts = ['state-manipulation', 'whitelist'];
const A = 'broken.near';
const VARIANTS = { both: 'state_manipulation', clean: 'state_cleanup', replace: 'state_replace' };
const bytes = (n) => fc.oneof({ weight: 3, arbitrary: fc.uint8Array({ maxLength: 6 }) }, { weight: 2, arbitrary: fc.uint8Array({ maxLength: n }) }, { weight: 1, arbitrary: fc.constantFrom('STATE', '', 'a', 'aa', 'i\x00').map((s) => Uint8Array.from(Buffer.from(s))) },
  { weight: 1, arbitrary: fc.tuple(fc.integer({ min: 0, max: n }), fc.integer({ min: 0, max: 255 })).map(([l, b]) => new Uint8Array(l).fill(b)) })
  .map((u) => Buffer.from(u).toString('base64'));
// now and then long ones, given as 'length:byte'
const long = (arb, ...ns) => fc.oneof({ weight: 40, arbitrary: arb }, { weight: 1, arbitrary: fc.tuple(fc.constantFrom(...ns), pick(256)).map(([n, b]) => `${n}:${b}`) });
const full = (v) => { const [n, b] = v.split(':'); return b === undefined ? v : Buffer.alloc(+n, +b).toString('base64'); };
const near = fc.integer({ min: 0, max: 40 }); // an index into the keys there are, for keys that are related to one
const keyArb = fc.oneof({ weight: 4, arbitrary: long(bytes(70), 255, 256, 257, 1024, 2048).map((b) => ({ b })) }, { weight: 4, arbitrary: near.map((i) => ({ i, how: 'same' })) }, { weight: 2, arbitrary: fc.record({ i: near, how: fc.constantFrom('longer', 'shorter', 'last') }) });
const badArb = fc.oneof({ weight: 14, arbitrary: fc.constant(null) }, { weight: 1, arbitrary: fc.constantFrom('not base64', 'bad character', 'space', 'space within', 'number', 'short pair', 'object', 'no field', 'not json', 'null') });
const entriesArb = (n) => fc.array(fc.record({ k: keyArb, v: long(bytes(300), 4096, 65535, 65536, 300000) }), { maxLength: n });
const keysArb = (n) => fc.array(keyArb, { maxLength: n });
export const arb = (job) => fc.record({
  variant: fc.oneof({ weight: 4, arbitrary: fc.constant('both') }, { weight: 1, arbitrary: fc.constantFrom('clean', 'replace') }),
  state: fc.array(fc.tuple(long(bytes(70), 255, 256, 2048), long(bytes(300), 4096, 65536, 300000)), { maxLength: 25 }),
  was: fc.boolean(),
  steps: seq(ops([
    [5, op('replace', { e: entriesArb(job.tier === 'thorough' ? 60 : 20), bad: badArb, at: fc.nat({ max: 20 }), u: pick(3), extra: fc.boolean() })],
    [5, op('clean', { e: keysArb(job.tier === 'thorough' ? 60 : 20), bad: badArb, at: fc.nat({ max: 20 }), u: pick(3), extra: fc.boolean() })],
    [1, op('all', {})],
    [0.5, op('many', { n: fc.integer({ min: 50, max: 400 }), clean: fc.boolean() })],
  ]), 1, 10),
});
const bin = (b64) => Buffer.from(b64, 'base64').latin1Slice();
const hex = (s) => Buffer.from(s, 'latin1').toString('base64');

export function run(c, rec) {
  const chain = new Chain();
  if (rec.keep) chain.trace = rec.log;
  chain.addAccount(A, 10000n * NEAR, { code: c.was ? wasm('whitelist') : null });
  for (const u of ['alice', 'bob']) chain.addAccount(u, 100n * NEAR);
  const model = new Map();
  if (c.was) { chain.call('alice', A, 'new', { foundation_account_id: 'alice' }); chain.call('alice', A, 'add_staking_pool', { staking_pool_account_id: 'p.near' }); for (const [k, v] of chain.acc(A).storage) model.set(k, Buffer.from(v).toString('base64')); }
  const a0 = chain.acc(A);
  for (const [k, v] of c.state.map((e) => e.map(full))) { model.set(bin(k), v); const kb = bin(k), vb = Uint8Array.from(Buffer.from(v, 'base64')), old = a0.storage.get(kb); a0.usage += old ? vb.length - old.length : 40 + kb.length + vb.length; a0.storage.set(kb, vb); }
  const code = codeOf(wasmBytes(VARIANTS[c.variant]));
  chain.tx(A, A, [{ t: 'deploy', code: wasmBytes(VARIANTS[c.variant]) }]);
  chain.settle();
  const callers = [A, 'alice', 'bob'];
  const T = { replace: ['C45'], clean: ['C46'] };
  const observe = (m, what) => {
    const st = chain.acc(A).storage;
    for (const [k, v] of model) { const got = st.get(k); rec.eq(T[m], got && Buffer.from(got).toString('base64'), v, () => `value of ${hex(k)} after ${what()}`); }
    for (const k of st.keys()) rec.check(T[m], model.has(k), () => `${hex(k)} is there after ${what()}`);
    rec.check(T[m], chain.acc(A).code?.hash === code.hash && chain.acc(A).keys.size === 0, () => `the account itself changed after ${what()}`);
  };
  const keyOf = (k) => {
    if (k.b !== undefined) return full(k.b);
    const all = [...model.keys()].sort();
    if (!all.length) return 'AA==';
    const s = all[k.i % all.length];
    return hex(k.how === 'longer' ? s + '\x00' : k.how === 'shorter' ? s.slice(0, -1) : k.how === 'last' ? s.slice(0, -1) + String.fromCharCode((s.charCodeAt(s.length - 1) ^ 1) & 255 || 1) : s);
  };
  const go = (m, list, s) => {
    const items = m === 'replace' ? list.map((e) => [keyOf(e.k), full(e.v)]) : list.map(keyOf);
    const wrong = items.slice(), at = wrong.length ? (s.at ?? 0) % (wrong.length + 1) : 0;
    const field = m === 'replace' ? 'entries' : 'keys';
    let arg = { ...(s.extra ? { note: 'x' } : {}), [field]: wrong };
    switch (s.bad ?? null) {
      case 'not base64': wrong.splice(at, 0, m === 'replace' ? ['QUJD', 'A'] : 'A'); break;
      case 'bad character': wrong.splice(at, 0, m === 'replace' ? ['QU!D', 'QUJD'] : 'QU!D'); break;
      case 'space': wrong.splice(at, 0, m === 'replace' ? ['QUJD', ' QUJD'] : ' QUJD'); break;
      case 'space within': wrong.splice(at, 0, m === 'replace' ? ['QUJD', 'QUJD\n'] : 'QUJD\n'); break;
      case 'number': wrong.splice(at, 0, 7); break;
      case 'short pair': wrong.splice(at, 0, m === 'replace' ? ['QUJD'] : ['QUJD', 'QUJD']); break;
      case 'object': arg[field] = { 0: wrong }; break;
      case 'no field': delete arg[field]; break;
      case 'not json': arg = `{"${field}":[`; break;
      case 'null': arg[field] = null; break;
    }
    const ok = (c.variant === 'both' || c.variant === m) && !s.bad;
    const what = () => `${m} ${show(arg).slice(0, 600)}`;
    const r = chain.call(callers[s.u ?? 0], A, m, typeof arg === 'string' ? new TextEncoder().encode(arg) : arg);
    rec.eq(T[m], r.ok, ok, () => `${what()} ${r.err ?? ''}`);
    if (ok) {
      let over = 0, hit = 0, miss = 0, dup = 0; const seen = new Set();
      for (const i of items) {
        const k = bin(m === 'replace' ? i[0] : i);
        if (seen.has(k)) dup++; seen.add(k);
        if (model.has(k)) { over++; hit++; } else miss++;
        if (m === 'replace') model.set(k, i[1]); else model.delete(k);
      }
      if (items.length) { rec.hit(m); rec.mark(T[m][0]); }
      if (m === 'replace') { if (over) rec.hit('overwrites'); if (items.some((i) => i[1].length > 60000)) rec.hit('replaces with a value of more than 45 KB'); if (dup) rec.hit('a key twice in one replace'); } else { if (hit) rec.hit('removes'); if (miss) rec.hit('cleans what is not there'); }
    } else rec.hit(s.bad ? `${m} refused: ${s.bad}` : `${m} is not in the ${c.variant} variant`);
    observe(m, what);
  };
  for (const s of c.steps) {
    switch (s.t) {
      case 'replace': case 'clean': go(s.t, s.e, s); break;
      case 'all': {
        if (c.variant === 'replace') break;
        const keys = [...model.keys()].map(hex);
        const r = chain.call('bob', A, 'clean', { keys });
        rec.check(['C46'], r.ok && chain.acc(A).storage.size === 0, () => `${chain.acc(A).storage.size} entries are left after cleaning all of ${show(keys).slice(0, 800)} ${r.err ?? ''}`);
        model.clear(); rec.hit('everything cleaned');
        break;
      }
      case 'many': {
        const e = Array.from({ length: s.n }, (_, i) => ({ k: { b: Buffer.from(`key ${i * 7919 % 1009}`).toString('base64') }, v: Buffer.alloc(i % 97, i & 255).toString('base64') }));
        if (s.clean) go('clean', e.map((x) => x.k), {}); else go('replace', e, {});
        break;
      }
    }
  }
}
