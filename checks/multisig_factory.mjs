// Multisig factory: creations (also concurrent), what the new multisig is, refunds of failed creations.
import { Chain, NEAR, TGAS, testKey, validAccountId } from '../sim/near.mjs';
import { fc, wasm, op, ops, boost, seq, pick, amountArb, big, show, resultsArb } from '../sim/harness.mjs';

export const contracts = ['multisig-factory', 'multisig2'];
const FAC = 'multi.near';
const USERS = ['alice', 'bob', 'carol.near'];
const NAMES = ['a', 'team', 'team-2', 'x.y', '', 'UP', '-a', 'é', 'x'.repeat(53), 'x'.repeat(54), 'a b', '.', 'a.'];
const METHODS = ['add_request', 'delete_request', 'confirm', 'add_request_and_confirm'];
const KEYS = [0, 1, 2].map((i) => testKey('mf-' + i));
const CROWD = Array.from({ length: 16 }, (_, i) => i % 3 ? { account_id: `m${i + 10}` } : { public_key: testKey('mf-crowd-' + i) });
const memberArb = fc.oneof({ weight: 4, arbitrary: fc.constantFrom({ a: 'alice' }, { a: 'bob' }, { a: 'carol.near' }) }, { weight: 4, arbitrary: pick(3).map((k) => ({ k })) }, { weight: 1, arbitrary: fc.constantFrom({ a: 'Bad Id' }, { a: '' }) });
const depArb = fc.oneof({ weight: 4, arbitrary: fc.constantFrom('50000000000000000000000000', '5000000000000000000000000') }, { weight: 2, arbitrary: amountArb(80n) }, { weight: 1, arbitrary: fc.bigInt({ min: 10n ** 26n, max: 10n ** 31n }).map(String) });

export const arb = (job) => fc.record({
  relay: fc.boolean(),
  delayed: fc.boolean(),
  steps: seq(ops([
    [10, op('create', { u: pick(3), name: fc.oneof({ weight: 5, arbitrary: pick(3) }, { weight: 2, arbitrary: pick(NAMES.length) }),
      members: fc.uniqueArray(memberArb, { minLength: 0, maxLength: 5, selector: (m) => JSON.stringify(m) }), crowd: fc.oneof({ weight: 12, arbitrary: fc.constant(0) }, { weight: 1, arbitrary: fc.constantFrom(4, 9, 16) }), k: fc.oneof({ weight: 5, arbitrary: fc.integer({ min: 0, max: 3 }) }, { weight: 1, arbitrary: fc.constantFrom(5, 4294967295, 4294967296) }),
      dep: depArb, gas: fc.constantFrom(300, 300, 100, 100, 55, 30), wait: fc.boolean() })],
    [boost(job, 1, 'C42'), op('callback', { u: pick(3), dep: depArb, results: resultsArb })],
    [5, op('deliver', { i: fc.nat({ max: 5 }) })],
  ]), 2, job.tier === 'thorough' ? 24 : 12),
});

export function run(c, rec) {
  const chain = new Chain();
  if (rec.keep) chain.trace = rec.log;
  chain.addAccount(FAC, 20n * NEAR, { code: wasm('multisig_factory') });
  for (const u of USERS) chain.addAccount(u, 10n ** 33n);
  if (c.relay) chain.relay = [...USERS, FAC];
  const facBalance = chain.balance(FAC);
  const bal0 = new Map(USERS.map((u) => [u, chain.balance(u)]));
  const txs = [], taken = new Map();
  const code = wasm('multisig2');
  const judge = () => rec.all(() => {
    if (chain.pending.length) return;
    for (const t of txs) {
      if (t.done) continue;
      t.done = true;
      const { s } = t;
      const res = chain.result(t.rid);
      const valid = validAccountId(t.id) && !NAMES[s.name].includes('.') && s.members.every((m) => m.k !== undefined || validAccountId(m.a))
        && s.k <= t.members.length && s.gas >= 100;
      const cost = BigInt(code.len + 3000) * 10n ** 19n;
      const what = `creation of ${t.id} ${show(s)} by ${t.u} ${res.err ?? ''}`;
      if (res.ok && res.value !== false) {
        rec.check(['C23'], valid && !taken.has(t.id), () => `accepted: ${what}`);
        t.created = true; taken.set(t.id, t);
        rec.hit(t.members.length > 8 ? 'multisig with many members created' : 'multisig created'); rec.mark('C23');
        const a = chain.acc(t.id);
        rec.check(['C23'], !!a && a.code?.hash === code.hash, () => `no multisig at ${t.id} after ${what}`);
        rec.eq(['C23', 'C24'], a.amount, big(s.dep), () => `balance after the ${what}`);
        rec.eq(['C23'], chain.view(t.id, 'get_num_confirmations', {}).value, s.k, () => `confirmations after the ${what}`);
        rec.eq(['C23'], chain.view(t.id, 'get_members', {}).value?.map(show).sort(), t.members.map(show).sort(), () => `members after the ${what}`);
        // too little for the storage of the keys: the chain refuses them afterwards
        if (big(s.dep) >= cost + 10n ** 24n) rec.eq(['C23'], [...a.keys].sort().map(([k, p]) => [k, p]), t.members.filter((m) => m.public_key).map((m) => [m.public_key, { receiver: t.id, methods: METHODS, allowance: 0n }]).sort(),
          () => `access keys after the ${what}`);
      } else {
        const should = valid && !taken.has(t.id) && !t.raced && big(s.dep) >= cost;
        rec.check(['C23'], !should, () => `failed: ${what}`);
        if (big(s.dep) > 0n && s.gas >= 100) { rec.hit('failed creation'); rec.mark('C24'); }
      }
    }
    for (const t of txs) if (!taken.has(t.id)) rec.check(['C24'], !chain.acc(t.id), () => `${t.id} is left behind by failed creations`);
    const spent = new Map(USERS.map((u) => [u, 0n]));
    for (const t of txs) if (t.created) spent.set(t.u, spent.get(t.u) + big(t.s.dep));
    for (const u of USERS) rec.eq(['C24'], bal0.get(u) - chain.balance(u), spent.get(u), () => `what ${u} has paid`);
    rec.eq(['C24'], chain.balance(FAC), facBalance, 'the balance of the factory');
  });
  for (const s of c.steps) {
    switch (s.t) {
      case 'create': {
        const t = { u: USERS[s.u], s, id: `${NAMES[s.name]}.${FAC}`, members: [...s.members.map((m) => m.a !== undefined ? { account_id: m.a } : { public_key: KEYS[m.k] }), ...CROWD.slice(0, s.crowd ?? 0)] };
        for (const o of txs) if (!o.done && o.id === t.id) { t.raced = o.raced = true; rec.hit('two creations of a name under way'); }
        t.rid = chain.send(t.u, FAC, 'create', { name: NAMES[s.name], members: t.members, num_confirmations: s.k }, { deposit: big(s.dep), gas: BigInt(s.gas) * TGAS });
        txs.push(t);
        if (!c.delayed) { chain.settle(); judge(); } else if (!s.wait) chain.run(chain.pending[chain.pending.length - 1]);
        break;
      }
      case 'callback': {
        const id = chain.send(USERS[s.u], FAC, 'on_create', { attached_deposit: s.dep, predecessor_account_id: USERS[s.u] }, { results: s.results });
        chain.run(chain.pending[chain.pending.length - 1]);
        rec.check(['C42'], chain.first(id).status === 'fail', 'the callback of a creation was called by an outsider');
        rec.mark('C42');
        break;
      }
      case 'deliver': chain.deliver(s.i); judge(); break;
    }
  }
  chain.settle();
  judge();
  rec.check(['C24'], chain.supply() === chain.minted, 'tokens appeared or disappeared');
}
