// Lockup factory: creations (also concurrent), what the new lockup is, refunds of failed creations.
import { createHash } from 'node:crypto';
import { Chain, NEAR, TGAS, jsCode, validAccountId } from '../sim/near.mjs';
import { fc, paidInit, wasm, op, ops, boost, seq, pick, amountArb, big, show, resultsArb } from '../sim/harness.mjs';
import { LockupModel, scheduleHash } from '../models/lockup.mjs';

export const contracts = ['lockup-factory', 'whitelist'];
// An account may have 64 characters: 41 for the lockup and at most 23 for its factory.
const FACS = ['lockup.near', 'l0', 'f'.repeat(18) + '.near', 'f'.repeat(19) + '.near'];
const WL = 'wl.near', WL2 = 'other-wl.near', FOUND = 'foundation.near';
const USERS = ['alice', 'bob', 'carol.near', FOUND];
const OWNERS = ['owner-1.near', 'owner-2', 'alice', '98793cd91a3f870fb126f66285808c7e094afcfc4eda8a970f6648cdf0dbd6de', 'o'.repeat(64), 'Bad Owner', '', 'x', 'a..b'];
const STARTED = 1602614338293769340n, D = 86400000000000n, T0 = 1600000000000000000n, MIN = 35n * 10n ** 23n;
const U64 = (1n << 64n) - 1n;

const day = (lo, hi) => fc.tuple(fc.integer({ min: lo, max: hi }), fc.integer({ min: 0, max: 999 })).map(([d, r]) => String(T0 + BigInt(d) * D + BigInt(r)));
const dur = (hi) => fc.oneof({ weight: 6, arbitrary: fc.tuple(fc.integer({ min: 0, max: hi }), fc.integer({ min: 0, max: 999 })).map(([d, r]) => String(BigInt(d) * D + BigInt(r))) },
  { weight: 1, arbitrary: fc.constantFrom('0', '1', String(U64)) });
const vsArb = fc.tuple(day(-300, 200), fc.integer({ min: 0, max: 300 }), fc.integer({ min: 0, max: 700 })).map(([s, c, e]) => ({ start_timestamp: s, cliff_timestamp: String(BigInt(s) + BigInt(c) * D), end_timestamp: String(BigInt(s) + BigInt(c + e) * D + 1n) }));
const vestArb = fc.oneof({ weight: 4, arbitrary: fc.constant(null) }, { weight: 4, arbitrary: vsArb.map((v) => ({ VestingSchedule: v })) },
  { weight: 2, arbitrary: vsArb.map((v) => ({ VestingHash: scheduleHash(v, Buffer.from('pepper')), plain: v })) },
  { weight: 1, arbitrary: vsArb.map((v) => ({ VestingSchedule: { ...v, end_timestamp: String(BigInt(v.start_timestamp) - 1n) } })) });
const depArb = fc.oneof({ weight: 5, arbitrary: fc.constantFrom(String(MIN), String(MIN + 1n), '100000000000000000000000000') }, { weight: 2, arbitrary: fc.bigInt({ min: MIN, max: 1000n * NEAR }).map(String) }, { weight: 1, arbitrary: fc.bigInt({ min: MIN, max: 10n ** 32n }).map(String) }, { weight: 1, arbitrary: fc.constantFrom(String(MIN - 1n), '0', '1') });

export const arb = (job) => fc.record({
  fac: fc.constantFrom(0, 0, 0, 0, 0, 0, 1, 2, 2, 3), relay: fc.boolean(), start: fc.oneof({ weight: 2, arbitrary: fc.constant(0) }, { weight: 1, arbitrary: fc.integer({ min: 20, max: 500 }) }),
  delayed: fc.boolean(),
  steps: seq(ops([
    [10, op('create', { u: pick(USERS.length), owner: fc.oneof({ weight: 6, arbitrary: pick(4) }, { weight: 1, arbitrary: pick(OWNERS.length) }), dep: depArb, gas: fc.constantFrom(300, 300, 150, 150, 110, 60, 30), wait: fc.boolean(),
      dur: dur(300), ts: fc.option(day(-100, 700)), vest: vestArb, rel: fc.option(dur(800)), wl: fc.constantFrom(null, null, null, WL2, WL2, 'Bad Id'), left: fc.boolean() })],
    [boost(job, 1, 'C42'), op('callback', { u: pick(USERS.length), dep: depArb, results: resultsArb })],
    [boost(job, 1, 'C41'), op('init', { u: pick(USERS.length) })],
    [boost(job, 1, 'C43'), op('deposit', { u: pick(USERS.length) })],
    [1, op('time', { d: fc.integer({ min: 1, max: 60 }) })],
    [5, op('deliver', { i: fc.nat({ max: 5 }) })],
  ]), 2, job.tier === 'thorough' ? 20 : 10),
  times: fc.array(fc.integer({ min: 0, max: 1500 }), { minLength: 2, maxLength: 4 }),
});

export function run(c, rec) {
  const chain = new Chain();
  const FAC = FACS[c.fac ?? 0];
  const idOf = (owner) => createHash('sha256').update(owner).digest().subarray(0, 20).toString('hex') + '.' + FAC;
  if (rec.keep) chain.trace = rec.log;
  chain.time = T0 + BigInt(c.start) * D;
  chain.addAccount(FAC, 20n * NEAR, { code: wasm('lockup_factory') });
  const asked = [];
  for (const w of [WL, WL2]) chain.addAccount(w, 10n * NEAR, { code: jsCode('wl-' + w, { is_whitelisted: (env, a) => { env.chain.asked.push(w); return true; } }) });
  chain.asked = asked;
  for (const u of USERS) chain.addAccount(u, 10n ** 33n);
  for (const o of OWNERS) if (validAccountId(o) && !chain.acc(o)) chain.addAccount(o, 10n * NEAR);
  const used = chain.call('alice', FAC, 'create', { owner_account_id: 'alice', lockup_duration: '1' }, { deposit: MIN });
  rec.check(['C41'], !used.ok, 'created a lockup before initialisation');
  paidInit(chain, rec, 'alice', FAC, { whitelist_account_id: WL, foundation_account_id: FOUND });
  const ini = chain.call('alice', FAC, 'new', { whitelist_account_id: WL, foundation_account_id: FOUND });
  if (FAC.length > 23) {
    rec.check(['C36'], !ini.ok, 'a factory whose lockups would have too long a name was initialised');
    rec.hit('factory with too long a name');
    return;
  }
  rec.check(['C36'], ini.ok, () => 'initialisation failed: ' + ini.err);
  if (FAC.length === 23) rec.hit('factory with the longest name');
  rec.eq(['C36'], [chain.view(FAC, 'get_foundation_account_id').value, chain.view(FAC, 'get_lockup_master_account_id').value, chain.view(FAC, 'get_min_attached_balance').value], [FOUND, FAC, String(MIN)], 'terms of the factory');
  if (c.relay) chain.relay = [...USERS, FAC];
  const facBalance = chain.balance(FAC);
  const bal0 = new Map(USERS.map((u) => [u, chain.balance(u)]));
  const paid = new Map(USERS.map((u) => [u, 0n]));
  const txs = [], taken = new Map();
  const code = wasm('lockup_contract');
  const inspect = (t) => {
    const { s, id } = t;
    const a = chain.acc(id);
    const what = `creation for ${t.owner} ${show(s)}`;
    rec.check(['C36'], !!a && a.code?.hash === code.hash, () => `no lockup at ${id} after the ${what}`);
    rec.eq(['C36', 'C37'], a.amount, big(s.dep), () => `balance after the ${what}`);
    rec.eq(['C36'], a.keys.size, 0, () => `access keys after the ${what}`);
    t.model = new LockupModel(id, { ...t.args, transfers_information: { TransfersEnabled: { transfers_timestamp: String(STARTED) } }, staking_pool_whitelist_account_id: s.wl ?? WL, foundation_account_id: s.vest ? FOUND : null }, big(s.dep));
    rec.eq(['C36'], [chain.view(id, 'get_owner_account_id').value, chain.view(id, 'are_transfers_enabled').value, chain.view(id, 'get_staking_pool_account_id').value, chain.view(id, 'get_known_deposited_balance').value],
      [t.owner, true, null, '0'], () => `terms after the ${what}`);
    const v = s.vest;
    rec.eq(['C36'], chain.view(id, 'get_vesting_information').value, v === null ? 'None' : v.VestingHash ? { VestingHash: v.VestingHash } : { VestingSchedule: v.VestingSchedule }, () => `vesting after the ${what}`);
  };
  const judge = () => rec.all(() => {
    if (chain.pending.length) return;
    for (const t of txs) {
      if (t.done) continue;
      t.done = true;
      const { s } = t;
      const res = chain.result(t.rid);
      const v = s.vest?.VestingSchedule;
      const valid = big(s.dep) >= MIN && validAccountId(t.owner) && (s.wl === null || validAccountId(s.wl))
        && (!v || (BigInt(v.start_timestamp) <= BigInt(v.cliff_timestamp) && BigInt(v.cliff_timestamp) <= BigInt(v.end_timestamp) && BigInt(v.start_timestamp) < BigInt(v.end_timestamp)));
      const what = `creation for ${t.owner} by ${t.u} ${show(s)} ${res.err ?? ''}`;
      if (res.ok && res.value !== false) {
        rec.check(['C36', 'C37'], res.value === true, () => `answered ${show(res.value)}: ${what}`);
        rec.check(['C36'], valid && !taken.has(t.id), () => `accepted: ${what}`);
        t.created = true; taken.set(t.id, t);
        rec.hit('lockup created' + (s.vest ? ' with vesting' : '')); rec.mark('C36');
        inspect(t);
      } else {
        rec.check(['C36'], !(valid && !taken.has(t.id) && !t.raced && s.gas >= 110), () => `failed: ${what}`);
        if (big(s.dep) > 0n) { rec.hit(valid ? 'failed creation' : 'invalid creation'); rec.mark('C37'); }
      }
    }
    for (const t of txs) if (!taken.has(t.id)) rec.check(['C37'], !chain.acc(t.id), () => `${t.id} is left behind by failed creations`);
    for (const t of txs) if (t.created && !t.paid) { t.paid = true; paid.set(t.u, paid.get(t.u) + big(t.s.dep)); }
    for (const u of USERS) rec.eq(['C37'], bal0.get(u) - chain.balance(u), paid.get(u), () => `what ${u} has paid`);
    rec.eq(['C37'], chain.balance(FAC), facBalance, 'the balance of the factory');
  });
  for (const s of c.steps) {
    switch (s.t) {
      case 'create': {
        const owner = OWNERS[s.owner];
        const { plain, ...vest } = s.vest ?? {};
        const t = { u: USERS[s.u], s, owner, id: idOf(owner), args: { owner_account_id: owner, lockup_duration: s.dur, lockup_timestamp: s.ts, vesting_schedule: s.vest && vest, release_duration: s.rel, whitelist_account_id: s.wl } };
        for (const o of txs) if (!o.done && o.id === t.id) { t.raced = o.raced = true; rec.hit('two creations for an owner under way'); }
        const args = s.left ? Object.fromEntries(Object.entries(t.args).filter(([, v]) => v !== null)) : t.args;
        t.rid = chain.send(t.u, FAC, 'create', args, { deposit: big(s.dep), gas: BigInt(s.gas) * TGAS });
        txs.push(t);
        if (!c.delayed) { chain.settle(); judge(); } else if (!s.wait) chain.run(chain.pending[chain.pending.length - 1]);
        break;
      }
      case 'callback': {
        const id = chain.send(USERS[s.u], FAC, 'on_lockup_create', { lockup_account_id: idOf(OWNERS[0]), attached_deposit: s.dep, predecessor_account_id: USERS[s.u] }, { results: s.results });
        chain.run(chain.pending[chain.pending.length - 1]);
        rec.check(['C42', 'C37'], chain.first(id).status === 'fail', 'the callback of a creation was called by an outsider');
        rec.mark('C42');
        break;
      }
      case 'init':
        rec.check(['C41'], !chain.call(USERS[s.u], FAC, 'new', { whitelist_account_id: WL2, foundation_account_id: 'alice' }).ok, 'initialised twice'); rec.mark('C41');
        for (const [id] of taken) rec.check(['C41'], !chain.call(USERS[s.u], id, 'new', { owner_account_id: 'alice', lockup_duration: '0', transfers_information: { TransfersEnabled: { transfers_timestamp: '0' } }, staking_pool_whitelist_account_id: WL }).ok, 'a lockup was initialised twice');
        judge(); break;
      case 'deposit': rec.check(['C43'], !chain.call(USERS[s.u], FAC, 'on_lockup_create', {}, { deposit: 1n }).ok, 'a deposit was taken'); rec.mark('C43'); judge(); break;
      case 'time': chain.time += BigInt(s.d) * D; if (chain.time > STARTED) rec.hit('creations after transfers were enabled'); break;
      case 'deliver': chain.deliver(s.i); judge(); break;
    }
  }
  chain.settle();
  judge();
  // Every lockup that was made keeps to the terms that were asked for.
  for (const d of c.times.slice().sort((x, y) => x - y)) {
    if (T0 + BigInt(d) * D > chain.time) chain.time = T0 + BigInt(d) * D;
    for (const t of taken.values()) rec.eq(['C36'], chain.view(t.id, 'get_locked_amount').value, String(t.model.locked(chain.time)), () => `locked amount ${d} days after creation for ${t.owner} with ${show(t.s)}`);
  }
  for (const t of taken.values()) {
    const w = t.s.wl ?? WL;
    asked.length = 0;
    chain.call(t.owner, t.id, 'select_staking_pool', { staking_pool_account_id: 'p1.pool' });
    rec.eq(['C36'], asked, [w], () => `the whitelist a lockup asks, created with ${show(t.s)}`);
    const stranger = USERS.find((u) => u !== t.owner && u !== FOUND);
    const last = t.s.vest?.plain ?? t.s.vest?.VestingSchedule;
    if (last && chain.time < BigInt(last.end_timestamp)) {
      const r = (who) => chain.call(who, t.id, 'terminate_vesting', t.s.vest.plain ? { vesting_schedule_with_salt: { vesting_schedule: last, salt: Buffer.from('pepper').toString('base64') } } : {}).ok;
      rec.check(['C36'], !r(stranger) && !r(t.owner) && r(FOUND), () => `the foundation, and it alone, can terminate the vesting of a lockup created with ${show(t.s)}`);
      rec.hit('terminated by the foundation');
    } else if (!last) rec.check(['C36'], !chain.call(FOUND, t.id, 'terminate_vesting', {}).ok, 'a lockup without vesting was terminated');
  }
  rec.check(['C37'], chain.supply() === chain.minted, 'tokens appeared or disappeared');
}
