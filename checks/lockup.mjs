// Lockup contract with real staking pools and whitelist: schedules, time, staking, transfers, termination,
// delayed and failing receipts, strangers, against LockupModel and end-to-end invariants.
import { Chain, HostError, NEAR, TGAS, testKey, jsCode, validAccountId, depositOf } from '../sim/near.mjs';
import { fc, paidInit, wasm, op, ops, boost, seq, pick, amountArb, partArb, part, show, same, U128, resultsArb, upArb, codeFor, upgrade } from '../sim/harness.mjs';
import { LockupModel, Refused, STORAGE, scheduleHash, unvestedOf } from '../models/lockup.mjs';

export const contracts = ['lockup', 'staking-pool', 'whitelist'];
export const L = 'lockup.near';
const OWNERS = ['owner.near', '98793cd91a3f870fb126f66285808c7e094afcfc4eda8a970f6648cdf0dbd6de'];
let OWNER = OWNERS[0]; // as the case says
const FOUND = 'foundation.near', WL = 'wl.near', POLL = 'poll.near';
const POOLS = ['p1.pool', 'p2.pool', 'rogue.pool', 'odd.pool']; // the third is never whitelisted, the last is of another kind
// A staking pool by somebody else: nothing waits, and what is there may become less.
const oddPool = () => {
  const has = (env, k, id) => BigInt(env.account.storage.get(k + id) ?? 0), put = (env, k, id, n) => { if (n < 0n) throw new HostError('not enough'); env.account.storage.set(k + id, String(n)); };
  const move = (env, from, to, n) => { const id = env.receipt.predecessor; if (n <= 0n) throw new HostError('nothing'); put(env, from, id, has(env, from, id) - n); if (to) put(env, to, id, has(env, to, id) + n); };
  const deposit = (env) => { const id = env.receipt.predecessor, n = env.call.deposit; put(env, 'u:', id, has(env, 'u:', id) + n); return n; };
  return jsCode('odd-pool', {
    deposit: (env) => { deposit(env); }, deposit_and_stake: (env) => { move(env, 'u:', 's:', deposit(env)); },
    stake: (env, a) => { move(env, 'u:', 's:', BigInt(a.amount)); }, unstake: (env, a) => { move(env, 's:', 'u:', BigInt(a.amount)); },
    unstake_all: (env) => { move(env, 's:', 'u:', has(env, 's:', env.receipt.predecessor)); },
    withdraw: (env, a) => { move(env, 'u:', null, BigInt(a.amount)); env.jsTransfer(env.receipt.predecessor, BigInt(a.amount)); },
    get_account_staked_balance: (env, a) => String(has(env, 's:', a.account_id)), get_account_unstaked_balance: (env, a) => String(has(env, 'u:', a.account_id)),
    get_account_total_balance: (env, a) => String(has(env, 's:', a.account_id) + has(env, 'u:', a.account_id)),
  });
};
const CALLERS = [OWNER, FOUND, 'mallory', 'p1.pool', L];
const D = 86400000000000n, T0 = 1600000000000000000n, U64 = (1n << 64n) - 1n;
const OWNER_METHODS = ['select_staking_pool', 'unselect_staking_pool', 'deposit_to_staking_pool', 'deposit_and_stake', 'refresh_staking_pool_balance', 'withdraw_from_staking_pool', 'withdraw_all_from_staking_pool', 'stake', 'unstake', 'unstake_all', 'check_transfers_vote', 'transfer', 'add_full_access_key'];
const FOUND_METHODS = ['terminate_vesting', 'termination_prepare_to_withdraw', 'termination_withdraw'];
const CALLBACKS = ['on_whitelist_is_whitelisted', 'on_staking_pool_deposit', 'on_staking_pool_deposit_and_stake', 'on_staking_pool_withdraw', 'on_staking_pool_stake', 'on_staking_pool_unstake', 'on_staking_pool_unstake_all', 'on_get_result_from_transfer_poll', 'on_get_account_total_balance', 'on_get_account_unstaked_balance_to_withdraw_by_owner',
  'on_get_account_staked_balance_to_unstake', 'on_staking_pool_unstake_for_termination', 'on_get_account_unstaked_balance_to_withdraw', 'on_staking_pool_withdraw_for_termination', 'on_withdraw_unvested_amount'];
// What the documentation says a call needs.
const NEEDS = { select_staking_pool: 75, unselect_staking_pool: 25, deposit_to_staking_pool: 100, deposit_and_stake: 125, refresh_staking_pool_balance: 75, withdraw_from_staking_pool: 125, withdraw_all_from_staking_pool: 175, stake: 125, unstake: 125, unstake_all: 125, check_transfers_vote: 75, transfer: 50, add_full_access_key: 50, terminate_vesting: 25, termination_prepare_to_withdraw: 175, termination_withdraw: 75 };

// ---- generators --------------------------------------------------------------------------------------------
const jitter = fc.oneof({ weight: 4, arbitrary: fc.constant(0) }, { weight: 1, arbitrary: fc.integer({ min: -86399, max: 86399 }) });
const at = (lo, hi) => fc.tuple(fc.integer({ min: lo, max: hi }), jitter).map(([d, j]) => String(T0 + BigInt(d) * D + BigInt(j) * 1000000007n));
const days = (lo, hi) => fc.tuple(fc.integer({ min: lo, max: hi }), jitter).map(([d, j]) => String(BigInt(d) * D + BigInt(Math.abs(j))));
const dur = (hi) => fc.oneof({ weight: 10, arbitrary: days(0, hi) }, { weight: 1, arbitrary: days(hi, 6 * hi) },
  { weight: 2, arbitrary: fc.constantFrom('0', '1', '2', '3', '18446744073709551615', '9223372036854775808') });
const vsArb = fc.tuple(at(-400, 200), dur(300), dur(900)).map(([s, c, e]) => {
  const cliff = BigInt(s) + (BigInt(c) > 10000n * D ? D : BigInt(c)), end = cliff + (BigInt(e) > 10000n * D ? 2n * D : BigInt(e));
  return { start_timestamp: s, cliff_timestamp: String(cliff), end_timestamp: String(end > BigInt(s) ? end : BigInt(s) + 1n) };
});
const cutArb = fc.oneof({ weight: 6, arbitrary: fc.constant(32) }, { weight: 1, arbitrary: fc.constantFrom(0, 1, 31, 33) }); // bytes of the commitment
const saltArb = fc.oneof({ weight: 2, arbitrary: fc.constantFrom('', 'AQID', Buffer.from('salt and pepper').toString('base64')) }, { weight: 1, arbitrary: fc.integer({ min: 1, max: 80 }).chain((n) => fc.uint8Array({ minLength: n, maxLength: n })).map((b) => Buffer.from(b).toString('base64')) });
const hashArb = fc.tuple(vsArb, saltArb, cutArb).map(([vs, salt, cut]) => ({ t: 'hash', vs, salt, cut }));
const vestingArb = fc.oneof(
  { weight: 3, arbitrary: fc.constant({ t: 'none' }) },
  { weight: 6, arbitrary: vsArb.map((vs) => ({ t: 'schedule', vs })) },
  { weight: 3, arbitrary: hashArb },
);
const badArb = fc.oneof({ weight: 12, arbitrary: fc.constant(null) }, { weight: 1, arbitrary: fc.constantFrom('owner', 'whitelist', 'poll', 'foundation', 'extra foundation', 'no foundation', 'start>cliff', 'cliff>end', 'start=end') });
const amtArb = fc.oneof({ weight: 4, arbitrary: partArb() }, { weight: 3, arbitrary: fc.constantFrom('all', '1/2', '1/1000', '999/1000', 'all+1', 'all-1') });
const callerArb = (i) => fc.oneof({ weight: 14, arbitrary: fc.constant(i) }, { weight: 1, arbitrary: pick(CALLERS.length) });
const poolArb = fc.oneof({ weight: 6, arbitrary: fc.constant(0) }, { weight: 2, arbitrary: pick(4) });
const rewardArb = fc.oneof({ weight: 1, arbitrary: fc.constant('0') }, { weight: 2, arbitrary: fc.integer({ min: 1, max: 5000 }).map((n) => `${n}/100000`) }, { weight: 1, arbitrary: fc.integer({ min: 1, max: 30 }).map((n) => '=' + n) });

const PROFILES = {
  mixed: { stake: 4, move: 4, time: 4, term: 3, vote: 2, select: 1, fail: 1, out: 1 },
  release: { stake: 1.5, move: 8, time: 8, term: 1, vote: 2, select: 0.5, fail: 0, out: 0.5 },
  staking: { stake: 9, move: 2, time: 2, term: 0.5, vote: 1, select: 2, fail: 2, out: 0.5 },
  termination: { stake: 4, move: 3, time: 3, term: 9, vote: 1, select: 1, fail: 2, out: 0.5 },
  access: { stake: 3, move: 3, time: 2, term: 3, vote: 2, select: 2, fail: 0, out: 8 },
};
// A callback called from outside, mostly with such answers as it could have had.
const ANSWERS = (m) => (m === 'on_whitelist_is_whitelisted' ? ['true', 'true', 'false'] : /^on_get/.test(m) ? ['"1"', '"30000000000000000000000000"', '"1600000000000000000"'] : ['', 'true', null]);
const forged = fc.constantFrom(...CALLBACKS).chain((m) => op('outsider', { u: fc.constantFrom(0, 1, 2, 2, 3), m: fc.constant(m), amt: amountArb(50n),
  results: fc.oneof({ weight: 3, arbitrary: fc.constantFrom(...ANSWERS(m)).map((x) => [x]) }, { weight: 1, arbitrary: resultsArb }) }));
function stepArb(w, delayed, job) {
  const x = { g: fc.constantFrom(0, 0, 1), ...(job.prop === 'C43' ? { dep: fc.constantFrom(0, 0, 0, 1) } : {}), ...(delayed ? { wait: fc.boolean() } : {}) };
  const o = (t, r = {}) => op(t, { u: callerArb(0), ...x, ...r });
  const f = (t, r = {}) => op(t, { u: callerArb(1), ...x, ...r });
  return ops([
    [w.select, o('select_staking_pool', { pool: poolArb, twice: fc.nat({ max: 3 }) })],
    [w.select * 0.5, o('unselect_staking_pool')],
    [w.stake * 0.5, o('deposit_to_staking_pool', { amt: amtArb })],
    [w.stake, o('deposit_and_stake', { amt: amtArb })],
    [w.stake * 0.4, o('refresh_staking_pool_balance')],
    [w.stake * 0.4, o('withdraw_from_staking_pool', { amt: amtArb })],
    [w.stake * 0.6, o('withdraw_all_from_staking_pool')],
    [w.stake * 0.3, o('stake', { amt: amtArb })],
    [w.stake * 0.4, o('unstake', { amt: amtArb })],
    [w.stake * 0.5, o('unstake_all')],
    [boost(job, w.vote * 0.6, 'C34'), o('check_transfers_vote', { twice: fc.nat({ max: 3 }) })],
    [boost(job, w.vote * 0.3, 'C34'), op('poll', { ts: fc.oneof(at(-100, 100), fc.constant('now')) })],
    [w.move, o('transfer', { amt: amtArb, to: fc.oneof({ weight: 6, arbitrary: fc.constant('friend') }, { weight: 1, arbitrary: fc.constantFrom('nobody.near', 'Bad Id', '', L, OWNER) }) })],
    [w.move * 0.3, o('add_full_access_key', { k: pick(2) })],
    [w.term * 0.5, f('terminate_vesting', { with: fc.oneof({ weight: job.prop === 'C35' ? 1 : 8, arbitrary: fc.constant('right') }, { weight: 1, arbitrary: fc.constantFrom('none', 'salt', 'salt+', 'salt-', 'salt~', 'schedule', 'start', 'cliff', 'given') }) })],
    [w.term * 0.8, f('termination_prepare_to_withdraw')],
    [w.term * 0.8, f('termination_withdraw', { to: fc.oneof({ weight: 5, arbitrary: fc.constant(FOUND) }, { weight: 1, arbitrary: fc.constantFrom('nobody.near', 'Bad Id', OWNER) }) })],
    [w.time, op('time', { to: fc.constantFrom('days', 'days', 'mid', 'start', 'release end', 'cliff', 'vested'), n: fc.integer({ min: 1, max: 400 }), d: fc.constantFrom(0, 0, -1, 1) })],
    [w.stake * 0.4 + w.term * 0.4, op('epoch', { n: fc.constantFrom(1, 1, 3, 4, 4, 5), reward: rewardArb })],
    [w.time * 0.15 + w.term * 0.1, op('topup', { amt: amountArb(20n) })],
    [w.fail, op('fail', { n: fc.integer({ min: 0, max: 2 }), reason: fc.constantFrom('inject', 'inject', 'threshold') })],
    [w.stake * 0.3 + w.term * 0.2, op('loss', { n: fc.oneof(fc.integer({ min: 1, max: 1000 }), fc.constant(-1)), gain: fc.constantFrom(false, false, true) })],
    [boost(job, 0.7, 'C29', 'C30', 'C31', 'C33'), op('overlap', { a: fc.constantFrom('deposit_to_staking_pool', 'deposit_and_stake', 'refresh_staking_pool_balance', 'withdraw_all_from_staking_pool', 'unstake_all', 'select_staking_pool', 'termination_prepare_to_withdraw', 'termination_withdraw'),
      then: fc.oneof(fc.constantFrom(['terminate_vesting', 'termination_prepare_to_withdraw'], ['transfer'], ['add_full_access_key'], ['unselect_staking_pool']), fc.array(fc.constantFrom(...OWNER_METHODS, ...FOUND_METHODS), { minLength: 1, maxLength: 3 })), amt: amtArb, pool: poolArb, k: pick(2), with: fc.constant('right'), to: fc.constant(FOUND) })],
    [w.select * 0.3, op('list', { pool: pick(2), add: fc.boolean() })],
    [boost(job, w.out, 'C32'), op('outsider', { u: fc.constantFrom(0, 1, 2, 2, 3), m: fc.constantFrom(...OWNER_METHODS, ...FOUND_METHODS, ...CALLBACKS), amt: amountArb(50n), results: resultsArb })],
    [job.prop === 'C42' ? 25 : 0, forged],
    [boost(job, w.out * 0.2, 'C43'), op('deposit', { m: fc.constantFrom(...OWNER_METHODS, ...FOUND_METHODS) })],
    [boost(job, w.out * 0.1, 'C41'), op('init', { u: pick(CALLERS.length) })],
    [delayed ? 8 : 0, op('deliver', { i: fc.nat({ max: 5 }) })],
  ]);
}
const FAVOUR = { C25: ['release', 'mixed'], C26: ['release', 'mixed', 'staking', 'termination'], C27: ['release', 'mixed', 'staking'], C28: ['termination', 'mixed', 'release'], C29: ['termination', 'mixed'], C30: ['staking', 'mixed', 'termination'], C31: ['staking', 'mixed'], C32: ['access', 'mixed'], C33: ['release', 'mixed', 'termination'], C34: ['mixed', 'release', 'access'], C35: ['termination', 'access'], C42: ['mixed', 'staking', 'termination'] };
export const arb = (job) => fc.tuple(fc.constantFrom(...(FAVOUR[job.prop] ?? Object.keys(PROFILES))), fc.oneof({ weight: ['C31', 'C34'].includes(job.prop) ? 1 : 3, arbitrary: fc.constant(false) }, { weight: 1, arbitrary: fc.constant(true) }))
  .chain(([p, delayed]) => fc.record({
    profile: fc.constant(p), delayed: fc.constant(delayed), relay: fc.boolean(), own: fc.constantFrom(0, 0, 0, 1), ...upArb(job),
    amount: fc.oneof({ weight: 10, arbitrary: fc.constantFrom('100000000000000000000000000', '35000000000000000000000000', '3600000000000000000000000') }, { weight: 10, arbitrary: fc.bigInt({ min: 36n * NEAR / 10n, max: 1000n * NEAR }).map(String) }, ...(['C25', 'C26', 'C28', 'C33', 'C35', 'C48'].includes(job.prop) ? [{ weight: 2, arbitrary: fc.bigInt({ min: 1000n * NEAR, max: 10n ** 33n }).map(String) }] : [])),
    lockup_duration: fc.oneof({ weight: 2, arbitrary: fc.constant('0') }, { weight: 2, arbitrary: dur(200) }),
    lockup_timestamp: fc.oneof(fc.constant(null), at(-100, 200)),
    release_duration: fc.oneof({ weight: 1, arbitrary: fc.constant(null) }, { weight: 3, arbitrary: dur(600) }),
    transfers: fc.oneof({ weight: job.prop === 'C34' ? 1 : 4, arbitrary: at(-200, 50) }, { weight: 2, arbitrary: fc.constant(null) }),
    vesting: job.prop === 'C35' ? fc.oneof({ weight: 3, arbitrary: hashArb }, { weight: 1, arbitrary: vsArb.map((vs) => ({ t: 'schedule', vs })) }) : vestingArb, bad: badArb,
    selected: fc.oneof({ weight: 3, arbitrary: fc.boolean() }, { weight: p === 'staking' || p === 'termination' ? 4 : 1, arbitrary: fc.constant(true) }),
    other: fc.constantFrom(...(job.prop === 'C42' ? [false] : [false, false, false, true])),
    fin: fc.constantFrom('none', 'drain', 'terminate', 'later', ...(job.prop === 'C29' ? ['terminate', 'terminate'] : [])),
    finFails: fc.array(fc.constantFrom(0, 1, 1, 2, 'threshold'), { maxLength: 3 }), finNobody: fc.boolean(), // what goes wrong in the final termination
    steps: seq(stepArb(PROFILES[p], delayed, job), 5, job.tier === 'thorough' ? 50 : 28),
  }));

// A commitment of the wrong length commits to nothing.
const commitment = (hash, n) => Buffer.concat([Buffer.from(hash, 'base64'), Buffer.alloc(1)]).subarray(0, n).toString('base64');

// ---- the world, made once -----------------------------------------------------------------------------------
let base = null;
function world() {
  if (!base) {
    base = new Chain();
    base.addAccount(WL, 20n * NEAR, { code: wasm('whitelist') });
    for (const a of [...OWNERS, FOUND, 'mallory', 'friend', 'creator']) base.addAccount(a, 10n ** 33n);
    base.call(FOUND, WL, 'new', { foundation_account_id: FOUND });
    base.addAccount(POLL, 5n * NEAR, { code: jsCode('poll', { get_result: (env) => env.chain.pollResult }) });
    base.addAccount(POOLS[3], 10n ** 36n, { code: oddPool() });
    base.call(FOUND, WL, 'add_staking_pool', { staking_pool_account_id: POOLS[3] });
    for (const [i, p] of POOLS.slice(0, 3).entries()) {
      base.addAccount(p, 60n * NEAR, { code: wasm('staking_pool') });
      base.call('creator', p, 'new', { owner_id: 'creator', stake_public_key: testKey(i), reward_fee_fraction: { numerator: i, denominator: 10 } });
      base.call('creator', p, 'deposit_and_stake', {}, { deposit: BigInt(i * 1234567) * 10n ** 18n + 7n });
    }
    base.call(FOUND, WL, 'add_staking_pool', { staking_pool_account_id: POOLS[0] });
    base.call(FOUND, WL, 'add_staking_pool', { staking_pool_account_id: POOLS[1] });
    base.outcomes.clear();
  }
  const c = base.clone();
  c.pollResult = null;
  return c;
}

const TAGS = { owner: ['C32'], foundation: ['C32'], private: ['C42'], termination: ['C28'], pool: ['C31'], busy: ['C30'], amount: ['C30'], funds: ['C26'], locked: ['C26'], vote: ['C34'], key: ['C33'], hash: ['C35'], terminate: ['C28'], stage: ['C29'], init: ['C41'] };
const METHOD_TAGS = (m) => m === 'transfer' ? ['C27'] : /select_/.test(m) || m === 'on_whitelist_is_whitelisted' ? ['C31'] : m === 'add_full_access_key' ? ['C33'] : /vote|transfer_poll/.test(m) ? ['C34']
  : m === 'terminate_vesting' ? ['C28', 'C35'] : /terminat|on_withdraw_unvested|staked_balance_to_unstake|unstaked_balance_to_withdraw$/.test(m) ? ['C29'] : ['C30'];
const OUT_TAGS = (m) => m === 'transfer' ? ['C26', 'C27'] : m === 'termination_withdraw' ? ['C28'] : METHOD_TAGS(m);

export function run(c, rec) {
  CALLERS[0] = OWNER = OWNERS[c.own ?? 0];
  const chain = world();
  if (rec.keep) chain.trace = rec.log;
  chain.time = T0;
  const amount = BigInt(c.amount);
  chain.addAccount(L, amount, { code: codeFor(c, 'lockup_contract') });
  const bad = c.bad;
  const vs = c.vesting.vs ? { ...c.vesting.vs } : null;
  if (vs && c.vesting.t === 'schedule') {
    if (bad === 'start>cliff') vs.start_timestamp = String(BigInt(vs.cliff_timestamp) + 1n);
    if (bad === 'cliff>end') vs.cliff_timestamp = String(BigInt(vs.end_timestamp) + 1n);
    if (bad === 'start=end') { vs.cliff_timestamp = vs.end_timestamp = vs.start_timestamp; }
  }
  const args = {
    owner_account_id: bad === 'owner' ? 'Not Valid' : OWNER, lockup_duration: c.lockup_duration, lockup_timestamp: c.lockup_timestamp,
    transfers_information: c.transfers !== null ? { TransfersEnabled: { transfers_timestamp: c.transfers } } : { TransfersDisabled: { transfer_poll_account_id: bad === 'poll' ? '' : POLL } },
    vesting_schedule: c.vesting.t === 'none' ? null : c.vesting.t === 'hash' ? { VestingHash: commitment(scheduleHash(vs, Buffer.from(c.vesting.salt, 'base64')), c.vesting.cut ?? 32) } : { VestingSchedule: vs },
    release_duration: c.release_duration, staking_pool_whitelist_account_id: bad === 'whitelist' ? 'x' : WL,
    foundation_account_id: (c.vesting.t === 'none' ? bad === 'extra foundation' : bad !== 'no foundation') ? (bad === 'foundation' ? 'é' : FOUND) : null,
  };
  rec.check(['C41'], !chain.call(OWNER, L, 'transfer', { amount: '1', receiver_id: OWNER }).ok, 'used before initialisation');
  paidInit(chain, rec, 'creator', L, args);
  const r0 = chain.call('creator', L, 'new', args);
  const good = LockupModel.accepts(args);
  rec.eq(['C25', 'C28'], r0.ok, good, () => `initialisation with ${show(args)} ${r0.err ?? ''}`);
  if (!good) { rec.hit('initialisation refused'); return; }
  if (c.relay) chain.relay = [OWNER, FOUND, 'mallory', L, POOLS[0]];
  let model = new LockupModel(L, args, amount);
  
  let terminated = null, foundationGot = 0n, opsOnPools = 0n, lost = 0n, failures = 0;

  const now = () => chain.time;
  const view = (m, a) => chain.view(L, m, a ?? {}).value;
  const observe = (what) => rec.all(() => {
    const t = now(), bal = chain.balance(L);
    const term = model.terminating() || model.withdrawn > 0n ? ['C25', 'C28'] : ['C25'];
    if (c.transfers === null) term.push('C34');
    rec.eq([...term, 'C26'], view('get_locked_amount'), String(model.locked(t)), () => `locked amount at ${t} after ${what}`);
    rec.eq(['C26', 'C27', 'C48'], view('get_liquid_owners_balance'), String(model.liquid(bal, t)), () => `liquid balance after ${what}`);
    rec.eq(['C30'], view('get_known_deposited_balance'), String(model.known), () => `known deposit after ${what}`);
    rec.eq(['C29', 'C28'], view('get_termination_status'), model.terminating() ? model.vesting.status : null, () => `termination status after ${what}`);
  });
  const observeViews = (what) => {
    observe(what);
    const t = now(), bal = chain.balance(L);
    rec.eq(['C26', 'C27', 'C48'], view('get_owners_balance'), String(model.owners(bal, t)), () => `owner's balance after ${what}`);
    rec.eq(['C27', 'C30', 'C48'], view('get_balance'), String(bal + model.known), () => `balance after ${what}`);
    rec.eq(['C31'], view('get_staking_pool_account_id'), model.pool, () => `selected pool after ${what}`);
    rec.eq(['C34'], view('are_transfers_enabled'), model.transfers !== null, () => `transfers enabled after ${what}`);
    rec.eq(['C28', 'C48'], view('get_terminated_unvested_balance'), String(model.terminating() ? model.vesting.unvested : 0n), () => `terminated balance after ${what}`);
    const avail = bal > STORAGE ? bal - STORAGE : 0n;
    rec.eq(['C28', 'C29', 'C48'], view('get_terminated_unvested_balance_deficit'), String(model.terminating() && model.vesting.unvested > avail ? model.vesting.unvested - avail : 0n), () => `deficit after ${what}`);
    rec.eq(['C32'], view('get_owner_account_id'), OWNER, () => `owner after ${what}`);
    const v = model.vesting;
    rec.eq(['C28', 'C35'], view('get_vesting_information'), v.t === 'none' ? 'None' : v.t === 'hash' ? { VestingHash: v.hash } : v.t === 'schedule' ? { VestingSchedule: v.vs } : { Terminating: { unvested_amount: String(v.unvested), status: v.status } }, () => `vesting after ${what}`);
    if (vs) {
      const u = model.unvested(vs, t);
      rec.eq(model.terminating() ? ['C28'] : ['C25', 'C28'], view('get_unvested_amount', { vesting_schedule: vs }), String(u), () => `unvested amount at ${t} after ${what}`);
      if (model.locked(t) >= u) rec.eq(['C25', 'C48'], view('get_locked_vested_amount', { vesting_schedule: vs }), String(model.locked(t) - u), () => `vested but locked amount at ${t} after ${what}`);
    }
    // The balances it reports add up, whatever they are.
    const B = (m, a) => BigInt(view(m, a)), less = (p, q) => (p > q ? p - q : 0n), least = (p, q) => (p < q ? p : q);
    const locked = B('get_locked_amount'), all = B('get_balance'), owners = B('get_owners_balance'), liquid = B('get_liquid_owners_balance');
    rec.eq(['C48'], all, bal + B('get_known_deposited_balance'), () => `balance against account and known deposit after ${what}`);
    rec.eq(['C48'], owners, less(all, locked), () => `owner's balance against balance and locked amount after ${what}`);
    rec.eq(['C48'], liquid, least(owners, less(bal, STORAGE)), () => `liquid balance against the owner's balance after ${what}`);
    rec.eq(['C48'], B('get_terminated_unvested_balance_deficit'), less(B('get_terminated_unvested_balance'), less(bal, STORAGE)), () => `deficit against the terminated balance after ${what}`);
    if (vs) { const u = B('get_unvested_amount', { vesting_schedule: vs }); if (u <= locked) rec.eq(['C48'], u + B('get_locked_vested_amount', { vesting_schedule: vs }), locked, () => `unvested and vested parts of the locked amount after ${what}`); }
    if (model.known > 0n || model.terminating()) { rec.hit(model.terminating() ? 'balances during a termination' : 'balances with a deposit on the pool'); rec.mark('C48'); }
  };
  const observeAll = (what) => rec.all(() => {
    observeViews(what);
    const t = now(), bal = chain.balance(L);
    // Nothing locked has left: what is here and on the pools covers what is locked, but for the rounding of the pools.
    const hidden = c.vesting.t === 'hash' && model.terminating(); // unknown to the contract until it was revealed
    rec.check(['C26'], hidden || bal + model.known >= model.locked(t) || opsOnPools > 0n, () => `locked ${model.locked(t)} is more than what is left, ${bal} and ${model.known} on the pool, after ${what}`);
    const assets = bal + pooled() + chain.inFlightTo(L) + inFlightFrom();
    rec.check(['C26'], hidden || assets + lost + 4n * opsOnPools >= model.locked(t), () => `locked ${model.locked(t)} is more than all there is, ${assets}, after ${what}`);
    rec.check(['C33', 'C26'], chain.acc(L).keys.size === keysAdded.size, () => `an access key appeared after ${what}`);
  });
  const pooled = () => { let s = 0n; for (const p of POOLS) s += BigInt(chain.view(p, 'get_account_total_balance', { account_id: L }).value); return s; };
  const inFlightFrom = () => { let s = 0n; for (const r of [...chain.pending, ...chain.waiting.values()]) if (r.predecessor === L && POOLS.includes(r.receiver)) s += depositOf(r); return s; };
  const keysAdded = new Set();

  chain.onReceipt = (r, err, created) => rec.all(() => {
    const x = r.actions[0];
    if (POOLS.includes(r.receiver) && r.predecessor === L && x.t === 'call') { opsOnPools += 1n; if (err !== null) { failures++; rec.hit(`${x.method} failed on the pool`); rec.mark('C30'); if (model.terminating()) rec.mark('C29'); } }
    if (r.receiver === L && x.t === 'addkey') { if (err === null) keysAdded.add(x.pk); return; }
    if (r.receiver !== L || x.t !== 'call') return;
    let a;
    try { a = JSON.parse(Buffer.from(x.args).toString()); } catch { a = {}; }
    const what = `${x.method}(${Buffer.from(x.args).toString().slice(0, 120)}) by ${r.predecessor}`;
    const out = created.filter((y) => y.actions.length && !(y.receiver === L && y.actions.every((z) => z.t === 'call' && z.deposit === 0n)));
    let outflow = 0n;
    for (const y of out) outflow += depositOf(y);
    const m = model.copy();
    let want = null, refused = null;
    const wasBusy = model.busy, wasTerm = model.terminating(), liquid = model.liquid(chain.balance(L) + outflow, now());
    if (x.deposit > 0n) refused = new Refused('deposit', 'deposit attached');
    else {
      try { want = m.call({ method: x.method, pred: r.predecessor, args: a, bal: chain.balance(L) + outflow, now: now(), results: r.inputs.map((d) => { const v = r.data.get(d); return v === null ? null : Buffer.from(v).toString(); }) }); }
      catch (e) { if (!(e instanceof Refused)) throw e; refused = e; }
      if (!refused && want === null) rec.check(['--'], false, `the model does not know ${x.method}`);
    }
    if (refused) {
      const tags = refused.tag === 'deposit' ? ['C43'] : refused.tag === 'termination' && x.method === 'transfer' ? ['C28', 'C26'] : refused.tag === 'vote' && x.method === 'transfer' ? ['C34', 'C26'] : refused.tag === 'busy' && x.method === 'transfer' ? ['C30', 'C26'] : refused.tag === 'busy' && /select/.test(x.method) ? ['C30', 'C31'] : refused.tag === 'busy' && x.method === 'add_full_access_key' ? ['C30', 'C33'] : refused.tag === 'termination' && /select/.test(x.method) ? ['C28', 'C31'] : refused.tag === 'termination' && x.method === 'add_full_access_key' ? ['C28', 'C33'] : refused.tag === 'termination' ? ['C28', 'C29', 'C30'] : refused.tag === 'vote' && x.method === 'add_full_access_key' ? ['C34', 'C33'] : TAGS[refused.tag];
      rec.check(tags, err !== null, () => `${what} accepted although: ${refused.message}`);
      rec.hit('refused: ' + refused.message); rec.mark(...tags);
      if (refused.tag === 'busy' || refused.tag === 'termination') rec.mark('C30', 'C29');
      return;
    }
    if (err !== null) { rec.check(METHOD_TAGS(x.method), /LackBalanceForState/.test(err), () => `${what} refused: ${err}`); return; }
    model = m;
    const tags = OUT_TAGS(x.method);
    const got = out.map((y) => y.actions.length === 1 ? [y.receiver, y.actions[0].t === 'call' ? y.actions[0].method : y.actions[0].t, y.actions[0].t === 'call' ? json(y.actions[0].args) : y.actions[0].t === 'addkey' ? (y.actions[0].permission === 'full' ? y.actions[0].pk : y.actions[0].permission) : null, depositOf(y)] : [y.receiver, y.actions]);
    if (m.says !== undefined) {
      // What the caller is told: the outcome itself, or whatever the receipt that knows it will say.
      const f = chain.first(r.id), cb = m.says === 'callback' ? created.filter((y) => y.receiver === L && y.inputs.length) : created.filter((y) => y.actions.length);
      const told = f.status === 'receipt' ? created.find((y) => y.id === f.id)?.actions.map((z) => z.method ?? z.t).join() : json(f.value ?? new Uint8Array());
      rec.check(['C47'], typeof m.says === 'boolean' ? f.status === 'value' && told === m.says : f.status === 'receipt' && cb.some((y) => y.id === f.id), () => `${what} answers with ${show(told)}, expected ${typeof m.says === 'boolean' ? m.says : 'that of its ' + m.says}`);
      if (typeof m.says === 'boolean') { rec.hit('answered ' + m.says); rec.mark('C47'); }
    }
    rec.check(tags, same(got, want), () => `${what} sent ${show(got)}, expected ${show(want)}`);
    // classes
    if (x.method === 'transfer') { rec.hit('transfer'); rec.mark('C27'); if (a.amount === String(liquid)) { rec.hit('transfer of all that is liquid'); rec.mark('C26'); } if (model.locked(now()) > 0n) rec.mark('C26'); }
    if (x.method === 'terminate_vesting') { terminated = { unvested: model.vesting.unvested, assets: chain.balance(L) + pooled() + inFlightFrom() }; foundationGot = 0n; rec.hit('terminated: ' + model.vesting.status + (wasBusy ? ' while busy' : '')); rec.mark('C28'); if (c.vesting.t === 'hash') rec.mark('C35'); if (wasBusy || model.pool) rec.mark('C29'); }
    if (x.method === 'termination_withdraw') { rec.hit('termination_withdraw'); rec.mark('C28', 'C29'); }
    if (x.method === 'on_withdraw_unvested_amount' && json(r.actions[0].args) && r.data.get(r.inputs[0]) !== null) { foundationGot += BigInt(a.amount); rec.hit(model.terminating() ? 'partial termination withdrawal' : 'termination completed'); }
    if (x.method === 'on_withdraw_unvested_amount' && r.data.get(r.inputs[0]) === null) { rec.hit('termination withdrawal failed'); rec.mark('C29'); }
    if (x.method === 'on_get_result_from_transfer_poll' && model.transfers !== null) { rec.hit('transfers enabled by the poll'); rec.mark('C34'); }
    if (x.method === 'add_full_access_key') { rec.hit('full access key'); rec.mark('C33'); }
    if (x.method === 'on_whitelist_is_whitelisted') { rec.hit('pool selected'); rec.mark('C31'); }
    if (/^on_staking_pool_(deposit|withdraw)/.test(x.method)) { rec.hit('pool operation done'); rec.mark('C30'); }
    if (OWNER_METHODS.includes(x.method) || FOUND_METHODS.includes(x.method)) rec.hit('ok ' + x.method);
    (rec.other || rec.wants('C48') ? observeViews : observe)(what);
  });

  const forward = (t) => { if (t > chain.time && t <= U64) chain.time = t; };
  const settle = () => chain.settle();
  const send = (caller, method, a, s) => {
    const gas = s.g && NEEDS[method] ? BigInt(NEEDS[method]) * TGAS : 300n * TGAS;
    const id = chain.send(caller, L, method, a, { gas, deposit: BigInt(s.dep ?? 0), results: s.results });
    if (!c.delayed) settle();
    else if (!s.wait) chain.run(chain.pending[chain.pending.length - 1]);
    return id;
  };
  const unstaked = () => model.pool === null ? 0n : BigInt(chain.view(model.pool, 'get_account_unstaked_balance', { account_id: L }).value);
  const staked = () => model.pool === null ? 0n : BigInt(chain.view(model.pool, 'get_account_staked_balance', { account_id: L }).value);
  const avail = () => { const b = chain.balance(L); return b > STORAGE ? b - STORAGE : 0n; };
  const cap = (x) => String(x > U128 ? U128 : x);
  const revealed = (w) => {
    const right = { vesting_schedule: vs, salt: c.vesting.salt ?? '' };
    if (w === 'none' || !vs) return null;
    if (w === 'given') return c.vesting.t === 'hash' ? right : { vesting_schedule: { ...vs, cliff_timestamp: String(U64 - 1n), end_timestamp: String(U64) }, salt: '' };
    if (c.vesting.t !== 'hash') return null;
    const salt = Buffer.from(c.vesting.salt, 'base64'), n = salt.length, with_ = (b) => ({ vesting_schedule: vs, salt: b.toString('base64') });
    if (w === 'salt+') return with_(Buffer.concat([salt, Buffer.alloc(1)]));
    if (w === 'salt-' && n) return with_(salt.subarray(0, n - 1));
    if (w === 'salt~' && n) return with_(Buffer.concat([salt.subarray(0, n - 1), Buffer.from([salt[n - 1] ^ 1])]));
    if (w === 'start') return { vesting_schedule: { ...vs, start_timestamp: String(BigInt(vs.start_timestamp) - 1n) }, salt: c.vesting.salt };
    if (w === 'cliff') return { vesting_schedule: { ...vs, cliff_timestamp: String(BigInt(vs.cliff_timestamp) + 1n) }, salt: c.vesting.salt };
    if (w.startsWith('salt')) return { vesting_schedule: vs, salt: 'c2FsdDI=' };
    if (w === 'schedule') return { vesting_schedule: { ...vs, end_timestamp: String(BigInt(vs.end_timestamp) + 1n) }, salt: c.vesting.salt };
    return right;
  };
  const argsOf = (s) => {
    switch (s.t) {
      case 'select_staking_pool': return { staking_pool_account_id: POOLS[s.pool] };
      case 'deposit_to_staking_pool': case 'deposit_and_stake': return { amount: cap(part(s.amt, avail())) };
      case 'withdraw_from_staking_pool': case 'stake': return { amount: cap(part(s.amt, unstaked())) };
      case 'unstake': return { amount: cap(part(s.amt, staked())) };
      case 'transfer': return { amount: cap(part(s.amt, model.liquid(chain.balance(L), now()))), receiver_id: s.to };
      case 'add_full_access_key': return { new_public_key: testKey('fak' + s.k) };
      case 'terminate_vesting': return { vesting_schedule_with_salt: revealed(s.with) };
      case 'termination_withdraw': return { receiver_id: s.to };
      default: return {};
    }
  };
  const epoch = (n, reward) => {
    for (let i = 0; i < n; i++) {
      if (!c.delayed) settle();
      const rw = {};
      for (const p of POOLS.slice(0, 3)) { const l = chain.acc(p).locked; rw[p] = part(reward, l); }
      chain.advanceEpoch(rw);
      chain.settleOld();
      chain.time += D / 2n;
    }
  };
  const failing = { n: 0 };
  chain.failNext = (r) => {
    if (failing.n > 0 && r.predecessor === L && r.actions[0].t === 'call' && POOLS.includes(r.receiver) && !r.actions[0].method.startsWith('get_')) { if (--failing.n === 0) return true; }
    return false;
  };
  observeAll('initialisation');
  if (c.selected) { send(OWNER, 'select_staking_pool', { staking_pool_account_id: POOLS[c.other ? 3 : 0] }, {}); settle(); }

  for (const [at, s] of c.steps.entries()) {
    upgrade(c, rec, chain, L, 'lockup_contract', at);
    switch (s.t) {
      case 'time': {
        const t = now();
        let to;
        const marks = { start: model.transfers === null ? BigInt(c.lockup_timestamp ?? 0) : model.start(), 'release end': model.transfers === null || model.release === null ? 0n : model.start() + model.release, cliff: vs ? BigInt(vs.cliff_timestamp) : 0n, vested: vs ? BigInt(vs.end_timestamp) : 0n };
        if (s.to === 'days') to = t + BigInt(s.n) * D / 4n + BigInt(s.d);
        else if (s.to === 'mid') { const later = Object.values(marks).filter((z) => z > t && z < t + 3000n * D); to = later.length ? t + (later.reduce((p, q) => (p < q ? p : q)) - t) * BigInt(s.n) / 401n : t + D; }
        else to = marks[s.to] + BigInt(s.d);
        const before = model.locked(t);
        if (to < T0 + 13000n * D) forward(to);
        rec.check(['C25'], model.locked(now()) <= before, () => `locked amount grew over time`);
        if (now() > t && before > model.locked(now())) { rec.hit('time released tokens'); rec.mark('C25'); }
        break;
      }
      case 'epoch': epoch(s.n, s.reward); break;
      case 'topup': chain.tx('creator', L, [{ t: 'transfer', deposit: BigInt(s.amt) }]); if (!c.delayed) settle(); break;
      case 'poll': if (chain.pollResult === null) chain.pollResult = s.ts === 'now' ? String(now()) : s.ts; break;
      case 'fail': if (s.reason === 'inject') failing.n = s.n; else chain.minStake = s.n ? 10n ** 30n : 0n; break;
      case 'list': {
        chain.call(FOUND, WL, (s.add ? 'add' : 'remove') + '_staking_pool', { staking_pool_account_id: POOLS[s.pool] });
        break;
      }
      case 'overlap': { // calls that arrive while another one is under way
        for (const m of [s.a, ...s.then]) { chain.send(FOUND_METHODS.includes(m) ? FOUND : OWNER, L, m, argsOf({ ...s, t: m, to: FOUND_METHODS.includes(m) ? FOUND : 'friend' }), {}); chain.run(chain.pending[chain.pending.length - 1]); }
        rec.hit('calls overlapping');
        if (!c.delayed) settle();
        break;
      }
      case 'loss': { // the odd pool has more or less than before
        const st = chain.acc(POOLS[3]).storage, had = BigInt(st.get('s:' + L) ?? 0), n = s.n < 0 ? (had > 0n ? 1n : 0n) : (had * BigInt(s.n)) / 1000n;
        if (n > 0n) { st.set('s:' + L, String(s.gain ? had + n : had - n)); if (!s.gain) lost += n; rec.hit(s.gain ? 'the other pool paid a reward' : 'the other pool lost tokens'); }
        break;
      }
      case 'deliver': chain.deliver(s.i); break;
      case 'deposit': chain.send(FOUND_METHODS.includes(s.m) ? FOUND : OWNER, L, s.m, anyArgs(s.m, '1'), { deposit: 1n }); settle(); break;
      case 'init': send(CALLERS[s.u], 'new', args, {}); break;
      case 'outsider': send(s.u === 3 ? model.pool ?? CALLERS[3] : CALLERS[s.u], s.m, anyArgs(s.m, s.amt), { results: s.results }); break;
      default: {
        // The contract never signs anything itself.
        if (s.twice === 1 && c.delayed) { // a second call on its way before the first has its answer
          chain.send(CALLERS[s.u], L, s.t, argsOf(s), {});
          rec.hit('asked twice at once');
        }
        send(CALLERS[s.u] === L ? 'mallory' : CALLERS[s.u], s.t, argsOf(s), s);
      }
    }
    if (!chain.pending.length) observeAll(s.t);
  }
  settle();
  observeAll('the last step');

  // -- epilogues: what must be possible from here
  chain.minStake = 0n; failing.n = 0;
  if (c.fin === 'later') {
    // Much later nothing is locked: everything liquid can be moved, and the account taken over.
    if (chain.pollResult === null) chain.pollResult = String(now());
    if (model.transfers === null && !model.terminating()) chain.call(OWNER, L, 'check_transfers_vote', {});
    const end = [model.transfers === null ? 0n : model.start() + (model.release ?? 0n), vs ? BigInt(vs.end_timestamp) : 0n].reduce((p, q) => (p > q ? p : q));
    if (end < T0 + 100000n * D && model.transfers !== null && !model.terminating()) {
      if (now() < end - 1n) { // the last moment before
        forward(end - 1n); observe('waiting');
        chain.call(OWNER, L, 'add_full_access_key', { new_public_key: testKey('early') });
        chain.call(OWNER, L, 'transfer', { amount: cap(part('all+1', model.liquid(chain.balance(L), now()))), receiver_id: 'friend' });
        rec.hit('the moment before the end');
      }
      forward(end);
      rec.eq(['C25', 'C27'], view('get_locked_amount'), '0', 'locked amount at the end of the schedules');
      const n = avail();
      if (n > 0n) { const b = chain.balance('friend'); chain.call(OWNER, L, 'transfer', { amount: String(n), receiver_id: 'friend' }); rec.eq(['C27'], chain.balance('friend') - b, n, 'what could be moved at the end of the schedules'); }
      const r = chain.call(OWNER, L, 'add_full_access_key', { new_public_key: testKey('last') });
      rec.check(['C33'], r.ok && chain.acc(L).keys.get(testKey('last')) === 'full', () => `no full access key at the end of the schedules: ${r.err}`);
      rec.hit('end of the schedules'); rec.mark('C27', 'C33', 'C25');
    }
  }
  if (c.fin === 'terminate' && c.vesting.t !== 'none' && !model.terminating() && model.vesting.t !== 'none') chain.call(FOUND, L, 'terminate_vesting', { vesting_schedule_with_salt: revealed('right') });
  if (c.fin === 'terminate' && model.terminating()) {
    // Whatever the owner has done, the foundation gets the unvested tokens.
    const all = chain.balance(L) + pooled();
    const fails = c.finFails ?? [];
    for (let i = 0; i < 3 + fails.length && model.terminating() && /Deficit|Unstaked/.test(model.vesting.status); i++) {
      failing.n = Number(fails[i]) || 0; chain.minStake = fails[i] === 'threshold' ? 10n ** 30n : 0n;
      const was = failures, f = failing.n;
      chain.call(FOUND, L, 'termination_prepare_to_withdraw', {}, { gas: 175n * TGAS });
      if (failures > was || f !== failing.n) rec.hit('a step of the termination failed and was repeated');
      failing.n = 0; chain.minStake = 0n;
      epoch(4, '0');
    }
    rec.eq(['C29'], model.terminating() && model.vesting.status, 'ReadyToWithdraw', 'termination status after unstaking and withdrawing from the pool');
    if (c.finNobody) {
      chain.call(FOUND, L, 'termination_withdraw', { receiver_id: 'nobody.near' }, { gas: 75n * TGAS });
      rec.eq(['C29', 'C28'], model.terminating() && model.vesting.status, 'ReadyToWithdraw', 'termination status after a payout to nobody');
      observe('a payout to nobody');
    }
    const b = chain.balance(FOUND), here = avail(), u = model.vesting.unvested;
    chain.call(FOUND, L, 'termination_withdraw', { receiver_id: FOUND }, { gas: 75n * TGAS });
    rec.eq(['C28', 'C29'], chain.balance(FOUND) - b, u < here ? u : here, 'what the foundation could withdraw');
    if (c.vesting.t === 'schedule') rec.check(['C28', 'C29'], foundationGot + lost + 4n * opsOnPools + STORAGE >= terminated.unvested, () => `of ${terminated.unvested} unvested the foundation could get ${foundationGot}`);
    rec.check(['C28'], foundationGot <= terminated.unvested, () => `of ${terminated.unvested} unvested the foundation got ${foundationGot}`);
    rec.hit(model.terminating() ? 'termination ended short' : 'termination ended'); rec.mark('C28', 'C29');
    observeAll('the termination');
    if (model.terminating() && model.vesting.t === 'terminating') {
      // The rest is due when it arrives.
      const due = model.vesting.unvested, had = foundationGot, extra = BigInt(c.amount) % 3n === 0n ? due : due / 2n + 1n;
      chain.tx('creator', L, [{ t: 'transfer', deposit: extra }]); chain.settle();
      observeAll('tokens arriving after the termination');
      const b2 = chain.balance(FOUND), a2 = avail();
      chain.call(FOUND, L, 'termination_withdraw', { receiver_id: FOUND }, { gas: 75n * TGAS });
      rec.eq(['C28', 'C29'], chain.balance(FOUND) - b2, due < a2 ? due : a2, 'what the foundation could withdraw the second time');
      rec.check(['C28'], foundationGot <= terminated.unvested, () => `of ${terminated.unvested} unvested the foundation got ${foundationGot}, ${had} of it before`);
      rec.hit('second withdrawal of a termination');
      observeAll('the end of the termination');
    }
  }
  if (c.fin === 'drain' && model.pool !== null && !model.terminating()) {
    const before = chain.balance(L), there = BigInt(chain.view(model.pool, 'get_account_total_balance', { account_id: L }).value);
    if (staked() > 0n) rec.check(['C30'], chain.call(OWNER, L, 'unstake_all', {}, { gas: 125n * TGAS }).value === true, 'unstake_all failed on an idle pool');
    epoch(4, '0');
    rec.check(['C30'], chain.call(OWNER, L, 'withdraw_all_from_staking_pool', {}, { gas: 175n * TGAS }).ok, 'withdraw_all_from_staking_pool failed on an idle pool');
    rec.check(['C30'], chain.balance(L) - before + 4n >= there, () => `of ${there} on the pool only ${chain.balance(L) - before} came back`);
    rec.check(['C30'], chain.call(OWNER, L, 'refresh_staking_pool_balance', {}, { gas: 75n * TGAS }).ok, 'refresh failed');
    rec.hit('everything taken off the pool'); rec.mark('C30');
    observeAll('taking everything off the pool');
  }
  rec.check(['C26'], chain.supply() === chain.minted, 'tokens appeared or disappeared');

  function anyArgs(m, amt) {
    return { amount: amt, receiver_id: 'mallory', staking_pool_account_id: POOLS[2], new_public_key: testKey('stranger'), vesting_schedule_with_salt: revealed('right'), is_whitelisted: true, total_balance: amt, unstaked_balance: amt, staked_balance: amt, poll_result: '1' };
  }
}
const json = (b) => { try { return JSON.parse(Buffer.from(b).toString() || '{}'); } catch { return undefined; } };
