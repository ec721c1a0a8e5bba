// Staking pool factory with the whitelist: creations (also concurrent), failures, refunds, whitelisting.
import { Chain, NEAR, TGAS, testKey, validAccountId } from '../sim/near.mjs';
import { fc, paidInit, wasm, op, ops, boost, seq, pick, amountArb, big, resultsArb, upArb, codeFor, upgrade } from '../sim/harness.mjs';

export const contracts = ['staking-pool-factory', 'whitelist'];
const WL = 'wl.near', FOUND = 'foundation.near', FAC = 'pool.near';
const USERS = ['alice', 'bob', 'carol.near', FOUND, 'other-factory'];
const NAMES = ['a', 'pool1', 'pool2', 'p-3', 'x.y', '', 'UP', '-a', 'a-', 'a__b', 'é', 'x'.repeat(54), 'x'.repeat(55), 'x'.repeat(56), 'a b', '.', 'a.'];
const KEYS = [testKey(1), testKey(2), testKey(3)];
const BAD = 2;
const MIN = 30n * NEAR;
const OWNERS = ['', 'A', 'x', 'bad owner', 'a..b', 'y'.repeat(65)];

const nameArb = fc.oneof({ weight: 6, arbitrary: pick(4) }, { weight: 2, arbitrary: pick(NAMES.length) });
const feeArb = fc.oneof({ weight: 8, arbitrary: fc.tuple(fc.integer({ min: 0, max: 100 }), fc.constant(100)) },
  { weight: 1, arbitrary: fc.constantFrom([1, 0], [0, 0], [101, 100], [4294967295, 4294967294], [0, 1], [1, 1], [4294967295, 4294967295]) });
const depArb = fc.oneof({ weight: 6, arbitrary: fc.constantFrom('30000000000000000000000000', '30000000000000000000000001', '50000000000000000000000000') },
  { weight: 2, arbitrary: fc.bigInt({ min: MIN, max: 500n * NEAR }).map(String) }, { weight: 1, arbitrary: fc.bigInt({ min: MIN, max: 10n ** 34n }).map(String) },
  { weight: 1, arbitrary: fc.constantFrom('29999999999999999999999999', '0', '1') });

export const arb = (job) => fc.record({
  relay: fc.boolean(), ...upArb(job),
  delayed: fc.boolean(),
  listed: fc.oneof({ weight: 5, arbitrary: fc.constant(true) }, { weight: 1, arbitrary: fc.constant(false) }),
  minStake: fc.constantFrom('0', '1000000000000000000000000000'),
  steps: seq(ops([
    [10, op('create', { u: pick(USERS.length), name: nameArb, badOwner: fc.oneof({ weight: 12, arbitrary: fc.constant(-1) }, { weight: 1, arbitrary: pick(OWNERS.length) }), key: fc.constantFrom(0, 1, 1, 2), fee: feeArb, dep: depArb, gas: fc.constantFrom(300, 300, 300, 200, 90, 30), wait: fc.boolean() })],
    [2, op('list', { factory: fc.boolean(), add: fc.boolean(), u: fc.constantFrom(3, 3, 3, 0), who: fc.constantFrom(FAC, FAC, 'other-factory') })],
    [1, op('unlistPool', { u: fc.constantFrom(3, 3, 0), name: pick(4) })],
    [boost(job, 1, 'C42'), op('forge', { u: pick(USERS.length), name: pick(4), dep: depArb, results: resultsArb })],
    [boost(job, 0.5, 'C43'), op('deposit', { u: pick(USERS.length), m: fc.constantFrom('add_factory', 'on_staking_pool_create') })],
    [boost(job, 1, 'C41'), op('init', { u: pick(USERS.length) })],
    [5, op('deliver', { i: fc.nat({ max: 5 }) })],
  ]), 3, job.tier === 'thorough' ? 30 : 18),
});

export function run(c, rec) {
  const chain = new Chain();
  if (rec.keep) chain.trace = rec.log;
  chain.addAccount(WL, 10n * NEAR, { code: wasm('whitelist') });
  chain.addAccount(FAC, 20n * NEAR, { code: codeFor(c, 'staking_pool_factory') });
  for (const u of USERS) chain.addAccount(u, 10n ** 36n);
  chain.invalidStakeKeys.add(KEYS[BAD]);
  rec.check(['C41'], !chain.call('alice', FAC, 'create_staking_pool', { staking_pool_id: 'a', owner_id: 'bob', stake_public_key: KEYS[0], reward_fee_fraction: { numerator: 0, denominator: 1 } }, { deposit: MIN }).ok, 'created a pool before initialisation');
  paidInit(chain, rec, 'alice', WL, { foundation_account_id: FOUND }); paidInit(chain, rec, 'bob', FAC, { staking_pool_whitelist_account_id: WL });
  rec.check(['C41'], chain.call('alice', WL, 'new', { foundation_account_id: FOUND }).ok && chain.call('bob', FAC, 'new', { staking_pool_whitelist_account_id: WL }).ok, 'initialisation failed');
  if (c.relay) chain.relay = [...USERS, FAC];
  if (c.listed) rec.check(['C12'], chain.call(FOUND, WL, 'add_factory', { factory_account_id: FAC }).value === true, 'the foundation could not list the factory');
  chain.minStake = big(c.minStake);
  const facBalance = chain.balance(FAC);
  const bal0 = new Map(USERS.map((u) => [u, chain.balance(u)]));
  const txs = [];
  // The whitelist as a set, kept along by what reaches the whitelist contract.
  const listed = new Set(), factories = new Set(c.listed ? [FAC] : []);
  chain.onReceipt = (r, err) => {
    if (r.receiver !== WL || r.actions[0].t !== 'call') return;
    if (r.actions[0].method === 'new') return;
    const a = JSON.parse(Buffer.from(r.actions[0].args).toString());
    if (r.actions[0].deposit > 0n) { rec.check(['C43'], err !== null, () => `the whitelist's ${r.actions[0].method} took a deposit`); return; }
    const allowed = r.actions[0].method === 'add_staking_pool' ? r.predecessor === FOUND || factories.has(r.predecessor) : r.predecessor === FOUND;
    rec.eq(['C12'], err === null, allowed, () => `${r.actions[0].method} by ${r.predecessor}`);
    if (err !== null) return;
    if (r.actions[0].method === 'add_staking_pool') {
      if (r.predecessor === FAC) {
        // The factory vouches only for a pool it has created.
        const id = a.staking_pool_account_id;
        rec.check(['C10'], !!chain.acc(id) && chain.view(id, 'get_owner_id', {}).ok, () => `the factory whitelisted ${id}, which is no staking pool`);
        rec.check(['C10'], id.endsWith('.' + FAC), () => `the factory whitelisted ${id}`);
      }
      listed.add(a.staking_pool_account_id);
    }
    if (r.actions[0].method === 'remove_staking_pool') listed.delete(a.staking_pool_account_id);
    if (r.actions[0].method === 'add_factory') factories.add(a.factory_account_id);
    if (r.actions[0].method === 'remove_factory') factories.delete(a.factory_account_id);
  };
  const poolId = (n) => `${NAMES[n]}.${FAC}`;
  const taken = new Map(); // pool id -> tx that made it
  let seq = 0;
  const judge = () => rec.all(() => {
    if (chain.pending.length) return;
    // Quiescent: judge every creation not judged yet.
    const spent = new Map(USERS.map((u) => [u, 0n]));
    for (const t of txs) {
      if (!t.done) {
        t.done = true;
        const a = chain.acc(t.id);
        const mine = a && chain.view(t.id, 'get_owner_id', {}).value === t.owner;
        const res = chain.result(t.rid);
        t.created = mine;
        const valid = big(t.s.dep) >= MIN && !NAMES[t.s.name].includes('.') && validAccountId(t.id) && validAccountId(t.owner) && t.s.fee[1] !== 0 && t.s.fee[0] <= t.s.fee[1] && t.s.gas >= 150;
        const should = valid && t.s.key !== BAD && !t.busy && !taken.has(t.id);
        if (!t.raced) rec.eq(['C10', ...(mine ? [] : ['C11'])], !!mine, should, () => `creation of ${t.id} (${JSON.stringify(t.s)}) ${res.err ?? ''}`);
        rec.check(['C10'], !mine || (valid && t.s.key !== BAD), () => `a pool was created with invalid terms: ${JSON.stringify(t.s)}`);
        if (mine) {
          rec.check(['C10'], !taken.has(t.id), () => `${t.id} was created twice`);
          taken.set(t.id, t);
          rec.hit('pool created'); rec.mark('C10');
          rec.eq(['C10', 'C11'], a.amount + a.locked, big(t.s.dep), 'what a new pool holds');
          rec.eq(['C10'], [chain.view(t.id, 'get_staking_key', {}).value, chain.view(t.id, 'get_reward_fee_fraction', {}).value, chain.view(t.id, 'is_staking_paused', {}).value],
            [KEYS[t.s.key], { numerator: t.s.fee[0], denominator: t.s.fee[1] }, false], 'terms of the new pool');
          rec.eq(['C10'], a.keys.size, 0, 'access keys on the new pool');
          const total = big(t.s.dep) - 10n ** 12n;
          rec.eq(['C10'], chain.view(t.id, 'get_total_staked_balance', {}).value, String(total), 'stake of the new pool');
          if (t.wlOk !== undefined && !t.raced) rec.eq(['C10'], res.ok, t.wlOk, 'outcome of a creation against the factory being whitelisted');
        } else {
          rec.check(['C10', 'C11'], !res.ok || res.value === false, () => `a creation that made no pool reported ${JSON.stringify(res.value)}`);
          if (valid) { rec.hit('creation failed after the deposit was taken'); rec.mark('C11'); }
          else rec.hit('creation refused');
        }
      }
    }
    for (const t of txs) if (t.created) spent.set(t.u, spent.get(t.u) + big(t.s.dep));
    for (const u of USERS) rec.eq(['C11'], bal0.get(u) - chain.balance(u), spent.get(u), () => `what ${u} has paid`);
    rec.eq(['C11'], chain.balance(FAC), facBalance, 'the balance of the factory');
    rec.eq(['C10', 'C11'], chain.view(FAC, 'get_number_of_staking_pools_created', {}).value, taken.size, 'number of pools created');
    for (let n = 0; n < 4; n++) {
      const id = poolId(n);
      rec.eq(['C10', 'C12'], chain.view(WL, 'is_whitelisted', { staking_pool_account_id: id }).value, listed.has(id), () => 'whitelisting of ' + id);
      rec.check(['C10'], !listed.has(id) || taken.has(id), () => id + ' is whitelisted but was never created');
      if (chain.acc(id)) rec.check(['C10'], taken.has(id), () => id + ' exists without a creation');
    }
  });
  const settle = () => { chain.settle(); judge(); };
  const inFlight = (id) => txs.some((t) => !t.done && t.id === id);
  for (const [at, s] of c.steps.entries()) {
    upgrade(c, rec, chain, FAC, 'staking_pool_factory', at, settle);
    const u = s.u === undefined ? null : USERS[s.u];
    switch (s.t) {
      case 'create': {
        const owner = s.badOwner >= 0 ? OWNERS[s.badOwner] : seq % 5 === 3 ? (seq++).toString(16).padStart(64, "a") : `owner${seq++}.near`;
        const id = poolId(s.name);
        const t = { u, s, id, owner, raced: false };
        for (const o of txs) if (!o.done && o.id === id) { o.raced = true; t.raced = true; rec.hit('two creations of a name under way'); }
        t.wlOk = factories.has(FAC);
        t.rid = chain.send(u, FAC, 'create_staking_pool', { staking_pool_id: NAMES[s.name], owner_id: owner, stake_public_key: KEYS[s.key], reward_fee_fraction: { numerator: s.fee[0], denominator: s.fee[1] } }, { deposit: big(s.dep), gas: BigInt(s.gas) * TGAS });
        txs.push(t);
        if (!c.delayed) settle();
        else if (!s.wait) chain.run(chain.pending[chain.pending.length - 1]);
        break;
      }
      case 'list': {
        for (const t of txs) if (!t.done) t.wlOk = undefined;
        const has = (s.factory ? factories : listed).has(s.who);
        const may = USERS[s.u] === FOUND || (!s.factory && s.add && factories.has(u));
        const r = chain.send(u, WL, `${s.add ? 'add' : 'remove'}_${s.factory ? 'factory' : 'staking_pool'}`, s.factory ? { factory_account_id: s.who } : { staking_pool_account_id: s.who });
        chain.run(chain.pending[chain.pending.length - 1]);
        const o = chain.result(r);
        rec.eq(['C12'], o.ok ? o.value : 'refused', may ? (s.add ? !has : has) : 'refused', () => `${JSON.stringify(s)}`);
        break;
      }
      case 'unlistPool': {
        for (const t of txs) if (!t.done) t.wlOk = undefined;
        const id = poolId(s.name);
        const r = chain.send(u, WL, 'remove_staking_pool', { staking_pool_account_id: id });
        const has = listed.has(id);
        chain.run(chain.pending[chain.pending.length - 1]);
        const o = chain.result(r);
        rec.eq(['C12'], o.ok ? o.value : 'refused', u === FOUND ? has : 'refused', 'removal of ' + id);
        break;
      }
      case 'forge': {
        const r = chain.send(u, FAC, 'on_staking_pool_create', { staking_pool_account_id: poolId(s.name), attached_deposit: s.dep, predecessor_account_id: u }, { results: s.results });
        chain.run(chain.pending[chain.pending.length - 1]);
        rec.check(['C42', 'C10', 'C11'], chain.first(r).status === 'fail', () => `${u} could call the factory's internal callback`);
        rec.mark('C42'); if (s.results) rec.hit('forged answer to a callback');
        break;
      }
      case 'deposit': {
        const before = chain.balance(WL);
        if (s.m === 'add_factory') rec.check(['C43'], !chain.call(FOUND, WL, s.m, { factory_account_id: 'other-factory' }, { deposit: 1n }).ok && chain.balance(WL) === before, 'the whitelist took a deposit');
        else rec.check(['C43'], !chain.call(FAC, FAC, s.m, { staking_pool_account_id: poolId(0), attached_deposit: '0', predecessor_account_id: u }, { deposit: 1n, results: [''] }).ok, 'the callback of a creation took a deposit');
        rec.mark('C43'); judge(); break;
      }
      case 'init':
        rec.check(['C41'], !chain.call(u, FAC, 'new', { staking_pool_whitelist_account_id: 'alice' }).ok && !chain.call(u, WL, 'new', { foundation_account_id: u }).ok, 'initialised twice');
        rec.mark('C41'); judge(); break;
      case 'deliver': {
        const el = chain.eligible();
        if (el.length) chain.run(el[s.i % el.length]);
        break;
      }
    }
  }
  settle();
  // A name that failed is free: the same caller can have it now.
  const failed = txs.find((t) => !t.created && !taken.has(t.id) && NAMES[t.s.name] && !NAMES[t.s.name].includes('.') && validAccountId(t.id));
  if (failed) {
    const s = { ...failed.s, key: 0, dep: '30000000000000000000000000', fee: [1, 10], gas: 300 };
    const t = { u: failed.u, s, id: failed.id, owner: 'retry.near', raced: false, wlOk: factories.has(FAC) };
    t.rid = chain.send(t.u, FAC, 'create_staking_pool', { staking_pool_id: NAMES[s.name], owner_id: t.owner, stake_public_key: KEYS[0], reward_fee_fraction: { numerator: 1, denominator: 10 } }, { deposit: MIN });
    txs.push(t);
    chain.settle();
    rec.check(['C11', 'C10'], chain.acc(t.id) !== undefined, () => `after a failed creation, ${t.id} cannot be created: ${chain.result(t.rid).err}`);
    rec.hit('retry after a failure');
    judge();
  }
  rec.check(['C11'], chain.supply() === chain.minted, 'tokens appeared or vanished');
}
