// All the contracts as one system, set up as documented: multisigs from the factory as the foundation and as owners,
// a whitelisted pool factory and its pools, lockups from the factory or waiting for the transfer poll, pools voting in it.
import { createHash } from 'node:crypto';
import { Chain, NEAR, TGAS, testKey } from '../sim/near.mjs';
import { fc, wasm, op, ops, seq, pick, part, show } from '../sim/harness.mjs';
import { STORAGE, unvestedOf } from '../models/lockup.mjs';

export const contracts = ['whitelist', 'staking-pool-factory', 'lockup-factory', 'multisig-factory', 'multisig', 'voting'];
const WL = 'wl.near', PF = 'pool.near', LF = 'lockup.near', MF = 'multi.near', POLL = 'poll.near', FOUND = 'found.multi.near', VAL = 'val.near';
const OPS = ['olga', 'team.multi.near'], POOLS = ['a.pool.near', 'b.pool.near'], DELEGATORS = ['98793cd91a3f870fb126f66285808c7e094afcfc4eda8a970f6648cdf0dbd6de', 'erin'];
const OWNERS = ['owen', 'club.multi.near', 'solo.near']; // a plain account, a multisig of either version
const K = [0, 1, 2].map((i) => testKey('tg-' + i));
const D = 86400000000000n, T0 = 1650000000000000000n, STARTED = 1602614338293769340n;
const P = ['C50'];
const idOf = (owner) => createHash('sha256').update(owner).digest().subarray(0, 20).toString('hex') + '.' + LF;

const day = (lo, hi) => fc.tuple(fc.integer({ min: lo, max: hi }), fc.integer({ min: 0, max: 999 })).map(([d, r]) => String(T0 + BigInt(d) * D + BigInt(r)));
const dur = (hi) => fc.tuple(fc.integer({ min: 0, max: hi }), fc.integer({ min: 0, max: 999 })).map(([d, r]) => String(BigInt(d) * D + BigInt(r)));
const vsArb = fc.tuple(day(-300, 100), fc.integer({ min: 0, max: 200 }), fc.integer({ min: 1, max: 500 })).map(([s, c, e]) => ({ start_timestamp: s, cliff_timestamp: String(BigInt(s) + BigInt(c) * D), end_timestamp: String(BigInt(s) + BigInt(c + e) * D) }));
const lockupArb = fc.record({
  via: fc.constantFrom('factory', 'poll'), amount: fc.oneof(fc.constantFrom('35000000000000000000000000', '100000000000000000000000000'), fc.bigInt({ min: 20n * NEAR, max: 2000n * NEAR }).map(String)),
  dur: dur(200), ts: fc.option(day(-100, 200)), rel: fc.option(dur(500)), vest: fc.option(vsArb, { freq: 3 }),
  pool: fc.constantFrom(-1, 0, 0, 1),
});
const l = pick(3), p = pick(2), amt = fc.constantFrom('all', '1/2', '1/10', '999/1000', '1/1000', 'all+1');
export const arb = (job) => fc.record({
  k: fc.integer({ min: 1, max: 3 }), members: fc.constantFrom([0, 1, 2], [2, 3, 0], [3, 4, 5], [1, 4, 2]), // 0-2 accounts, 3-5 keys
  fees: fc.array(fc.integer({ min: 0, max: 100 }), { minLength: 2, maxLength: 2 }), outside: fc.integer({ min: 1, max: 3000 }), first: fc.array(fc.constantFrom(0, 100, 1000, 5000), { minLength: 2, maxLength: 2 }),
  lockups: fc.array(lockupArb, { minLength: 3, maxLength: 3 }),
  steps: seq(ops([
    [3, op('select', { l, p })], [4, op('stake', { l, amt })], [1.5, op('unstake', { l })], [2, op('withdraw', { l })], [2, op('transfer', { l, amt })], [2.5, op('check', { l })],
    [1.5, op('terminate', { l })], [3, op('step', { l })],
    [2, op('delegate', { d: pick(2), p, n: fc.integer({ min: 1, max: 900 }) })], [1, op('undelegate', { d: pick(2), p })], [1, op('takeout', { d: pick(2), p })],
    [3, op('vote', { p, v: fc.constantFrom(true, true, true, false) })], [1, op('outside', { v: fc.constantFrom(true, true, true, false) })],
    [4, op('epoch', { n: fc.constantFrom(1, 1, 4), reward: fc.constantFrom(0, 3, 150) })], [2, op('time', { n: fc.integer({ min: 1, max: 150 }) })],
    [0.7, op('list', { p, add: fc.boolean() })],
  ]), 8, job.tier === 'thorough' ? 60 : 32),
});

export function run(c, rec) {
  const chain = new Chain();
  if (rec.keep) chain.trace = rec.log;
  chain.time = T0;
  for (const a of ['alice', 'bob', 'carol.near', 'creator', 'olga', 'owen', ...DELEGATORS, VAL, 'friend']) chain.addAccount(a, 10n ** 32n);
  for (const [a, w] of [[WL, 'whitelist'], [PF, 'staking_pool_factory'], [LF, 'lockup_factory'], [MF, 'multisig_factory'], [POLL, 'voting_contract']]) chain.addAccount(a, 20n * NEAR, { code: wasm(w) });
  const view = (a, m, x) => chain.view(a, m, x ?? {}).value, num = (a, m, x) => BigInt(view(a, m, x));
  const ok = (cond, msg) => rec.check(P, cond, msg);

  // -- who acts, and how: by itself, or through a multisig
  const member = (i) => (i < 3 ? { account_id: ['alice', 'bob', 'carol.near'][i] } : { public_key: K[i - 3] });
  const multi = new Map();
  const done = (r, what) => { ok(r && r.ok, () => `${what} failed: ${r?.err}`); return r; };
  const by = (ms, i, m, a) => (i < 3 ? chain.call(member(i).account_id, ms, m, a) : chain.call(ms, ms, m, a, { pk: K[i - 3] }));
  const as = (who, to, m, a, { deposit = 0n, gas = 200 } = {}) => {
    const t = multi.get(who);
    if (!t) return chain.call(who, to, m, a, { deposit, gas: BigInt(gas) * TGAS });
    const request = { receiver_id: to, actions: [{ type: 'FunctionCall', method_name: m, args: Buffer.from(JSON.stringify(a)).toString('base64'), deposit: String(deposit), gas: String(BigInt(gas) * TGAS) }] };
    const id = done(by(who, t.members[0], 'add_request', { request }), `adding a request to ${who}`).value;
    let r;
    for (let i = 0; i < t.k; i++) {
      if (i) ok(view(who, 'list_request_ids').includes(id), () => `request ${id} of ${who} is gone before its last confirmation`);
      r = by(who, t.members[i], 'confirm', { request_id: id });
      if (i < t.k - 1) done(r, `confirming a request of ${who}`);
    }
    ok(!view(who, 'list_request_ids').includes(id), () => `request ${id} of ${who} is still open after its last confirmation`);
    return r;
  };
  const transferTo = (who) => (multi.has(who) || who === 'owen' ? 'friend' : who);

  // -- setting up
  for (const [name, k, members] of [['found', c.k, c.members], ['team', 2, [3, 0, 1]], ['club', Math.min(c.k, 2), [1, 2]]]) {
    const r = done(chain.call('creator', MF, 'create', { name, members: members.map(member), num_confirmations: k }, { deposit: 10n ** 6n * NEAR }), `creating ${name}.${MF}`);
    ok(r.value === true, `creating ${name}.${MF} was not answered with true`);
    multi.set(`${name}.${MF}`, { k, members });
  }
  chain.addAccount('solo.near', 10n ** 6n * NEAR, { code: wasm('multisig'), keys: K.map((pk) => ({ pk, permission: { receiver: 'solo.near', methods: ['add_request', 'delete_request', 'confirm', 'add_request_and_confirm'], allowance: 0n } })) });
  done(chain.call('creator', 'solo.near', 'new', { num_confirmations: 2 }), 'initialising solo.near');
  multi.set('solo.near', { k: 2, members: [3, 4, 5] });
  done(chain.call('creator', WL, 'new', { foundation_account_id: FOUND }), 'initialising the whitelist');
  done(chain.call('creator', PF, 'new', { staking_pool_whitelist_account_id: WL }), 'initialising the pool factory');
  done(chain.call('creator', LF, 'new', { whitelist_account_id: WL, foundation_account_id: FOUND }), 'initialising the lockup factory');
  done(chain.call('creator', POLL, 'new', {}), 'initialising the poll');
  ok(done(as(FOUND, WL, 'add_factory', { factory_account_id: PF }), 'listing the pool factory').value === true, 'the foundation could not list the pool factory');
  const listed = new Set();
  for (const [i, id] of POOLS.entries()) {
    const r = done(as(i ? 'bob' : 'alice', PF, 'create_staking_pool', { staking_pool_id: id.split('.')[0], owner_id: OPS[i], stake_public_key: testKey('v' + i), reward_fee_fraction: { numerator: c.fees[i], denominator: 100 } }, { deposit: 50n * NEAR, gas: 300 }), `creating ${id}`);
    ok(r.value === true && view(WL, 'is_whitelisted', { staking_pool_account_id: id }) === true, () => `the new pool ${id} is not whitelisted`);
    listed.add(id);
  }
  const lockups = c.lockups.map((x, i) => {
    const owner = OWNERS[i], t = { ...x, owner, amount: BigInt(x.amount), due: null, got: 0n, out: 0n, ops: 0n, topup: 0n, gain: 0n, used: null };
    const terms = { owner_account_id: owner, lockup_duration: x.dur, lockup_timestamp: x.ts, release_duration: x.rel, vesting_schedule: x.vest && { VestingSchedule: x.vest } };
    if (x.via === 'factory') {
      t.id = idOf(owner);
      ok(done(chain.call('creator', LF, 'create', { ...terms, whitelist_account_id: null }, { deposit: t.amount, gas: 250n * TGAS }), `creating the lockup of ${owner}`).value === true, 'creating a lockup was not answered with true');
    } else {
      t.id = `lockup${i}.near`;
      chain.addAccount(t.id, t.amount, { code: wasm('lockup_contract') });
      done(chain.call('creator', t.id, 'new', { ...terms, transfers_information: { TransfersDisabled: { transfer_poll_account_id: POLL } }, staking_pool_whitelist_account_id: WL, foundation_account_id: x.vest ? FOUND : null }), `initialising ${t.id}`);
    }
    return t;
  });
  const V = (t, m) => view(t.id, m), N = (t, m) => num(t.id, m);
  const poolOf = (t) => V(t, 'get_staking_pool_account_id');
  const on = (pool, who, m = 'total') => num(pool, `get_account_${m}_balance`, { account_id: who });
  const avail = (t) => { const b = chain.balance(t.id); return b > STORAGE ? b - STORAGE : 0n; };
  const put = new Map(); // delegator, pool -> [put in, taken out, operations]
  const books = (d, q) => { const key = d + ' ' + q; if (!put.has(key)) put.set(key, [0n, 0n, 0n]); return put.get(key); };
  const inFavour = new Set();
  let decided = null;
  const syncValidators = () => { chain.validators = new Map([...POOLS.map((q) => [q, chain.acc(q).locked]), [VAL, BigInt(c.outside) * NEAR]].filter(([, s]) => s > 0n)); };
  syncValidators();
  const epoch = (n, reward) => {
    for (let i = 0; i < n; i++) {
      const rw = {};
      for (const q of POOLS) rw[q] = (chain.acc(q).locked * BigInt(reward)) / 100000n;
      chain.advanceEpoch(rw); chain.settleOld(); chain.time += D / 2n + 123456789n;
      syncValidators();
    }
  };
  const polled = () => {
    const r = view(POLL, 'get_result');
    if (decided !== null) { rec.eq(P, r, decided, 'the result of the poll changed'); return; }
    if (r === null) return;
    let sum = 0n, total = 0n;
    for (const [v, s] of chain.validators) { total += s; if (inFavour.has(v)) sum += s; }
    ok(3n * sum > 2n * total, () => `the poll ended with ${sum} of ${total} in favour`);
    rec.eq(P, r, String(chain.time), 'when the poll ended');
    decided = r; rec.hit('poll decided');
  };
  const cast = (v, is) => {
    const r = v === VAL ? chain.call(VAL, POLL, 'vote', { is_vote: is }) : as(OPS[POOLS.indexOf(v)], v, 'vote', { voting_account_id: POLL, is_vote: is });
    if (decided !== null) ok(!r.ok, 'a vote was taken after the end of the poll');
    else {
      if (!is || (chain.validators.get(v) ?? 0n) > 0n) ok(r.ok, () => `vote ${is} of ${v} failed: ${r.err}`);
      // In a new epoch the votes there were may decide first; then a withdrawal comes too late.
      if (r.ok && is) inFavour.add(v); else if (r.ok && view(POLL, 'get_result') === null) inFavour.delete(v);
    }
    polled();
  };
  const stakeOff = (t) => { // everything unstaked
    const q = poolOf(t), s = on(q, t.id, 'staked');
    const r = done(as(t.owner, t.id, 'unstake_all', {}), `unstake_all of ${t.id}`); t.ops++;
    rec.eq(P, r.value, s > 0n, () => `answer to unstake_all with ${s} staked by ${t.id}`);
    if (s > 0n) rec.eq(P, on(q, t.id, 'staked'), 0n, () => `staked by ${t.id} after unstake_all`);
  };
  const takeOff = (t) => { // everything withdrawn
    const q = poolOf(t), u = on(q, t.id, 'unstaked'), can = view(q, 'is_account_unstaked_balance_available', { account_id: t.id }), b = chain.balance(t.id);
    const r = done(as(t.owner, t.id, 'withdraw_all_from_staking_pool', {}), `withdraw_all of ${t.id}`); t.ops++;
    rec.eq(P, r.value, u === 0n || can, () => `answer to withdraw_all with ${u} unstaked, ${can ? '' : 'not '}available`);
    rec.eq(P, chain.balance(t.id) - b, can ? u : 0n, () => `what ${t.id} got back from ${q}`);
    if (can && u > 0n) rec.hit('a lockup took tokens off a pool');
  };
  for (const t of lockups) if (t.pool >= 0) done(as(t.owner, t.id, 'select_staking_pool', { staking_pool_account_id: POOLS[t.pool] }, { gas: 75 }), `selecting ${POOLS[t.pool]} for ${t.id}`);
  const terminating = (t) => V(t, 'get_termination_status');
  for (const [i, n] of c.first.entries()) if (n) { done(chain.call('creator', POOLS[i], 'deposit_and_stake', {}, { deposit: BigInt(n) * NEAR }), 'the first delegation'); }
  epoch(1, 0);
  const settleStep = (t) => { // one step of a termination
    const s = terminating(t), b = chain.balance(FOUND);
    if (/Deficit|Unstaked/.test(s)) { done(as(FOUND, t.id, 'termination_prepare_to_withdraw', {}), `preparing the withdrawal from ${t.id}`); t.ops++; }
    else if (s === 'ReadyToWithdraw') {
      const left = N(t, 'get_terminated_unvested_balance'), n = left < avail(t) ? left : avail(t);
      const r = as(FOUND, t.id, 'termination_withdraw', { receiver_id: FOUND });
      rec.eq(P, [r.ok, chain.balance(FOUND) - b], [n > 0n, n], () => `what the foundation got from ${t.id}`);
      t.got += chain.balance(FOUND) - b;
    } else ok(false, `termination of ${t.id} is stuck in ${s}`);
    if (terminating(t) === null) { rec.hit('termination completed through the multisig'); rec.mark('C50'); }
  };
  const move = (t, n) => {
    const to = transferTo(t.owner), b = chain.balance(to);
    const r = as(t.owner, t.id, 'transfer', { amount: String(n), receiver_id: to }, { gas: 50 });
    if (r.ok) t.out += chain.balance(to) - b;
    return r;
  };
  // What is locked, from the terms, the result of the poll and what the foundation took.
  const lockedOf = (t) => {
    const now = chain.time, at = t.via === 'factory' ? STARTED : t.enabled ? BigInt(decided) : null, whole = t.amount - t.got;
    if (at === null) return whole;
    const end = [at + BigInt(t.dur), BigInt(t.ts ?? 0)].reduce((x, y) => (x > y ? x : y));
    if (now < end) return whole;
    const left = t.rel === null || now >= end + BigInt(t.rel) ? 0n : t.amount * (end + BigInt(t.rel) - now) / BigInt(t.rel);
    const unreleased = left > t.got ? left - t.got : 0n, unvested = t.due !== null ? t.due - t.got : t.vest ? unvestedOf(t.vest, t.amount, now) : 0n;
    return unreleased > unvested ? unreleased : unvested;
  };
  const observe = (what) => {
    for (const t of lockups) {
      rec.eq(P, N(t, 'get_locked_amount'), lockedOf(t), () => `locked in ${t.id} after ${what}`);
      // What has left a lockup is what was free to leave.
      const q = poolOf(t), there = q ? on(q, t.id) : 0n, locked = N(t, 'get_locked_amount');
      ok(chain.balance(t.id) + there + 4n * t.ops >= locked, () => `${locked} locked in ${t.id}, which has ${chain.balance(t.id)} and ${there} on ${q}, after ${what}`);
    }
  };
  for (const s of c.steps) {
    const t = lockups[s.l], q = POOLS[s.p], d = DELEGATORS[s.d];
    switch (s.t) {
      case 'select': {
        const want = poolOf(t) === null && terminating(t) === null && listed.has(q);
        const r = as(t.owner, t.id, 'select_staking_pool', { staking_pool_account_id: q }, { gas: 75 });
        rec.eq(P, r.ok, want, () => `${t.owner} selecting ${q} for ${t.id}: ${r.err}`);
        if (want) rec.eq(P, poolOf(t), q, 'the selected pool');
        break;
      }
      case 'stake': {
        const n = part(s.amt, avail(t)), pool = poolOf(t);
        if (n < NEAR / 1000n) break;
        const want = pool !== null && terminating(t) === null && n <= avail(t), was = pool === null ? 0n : on(pool, t.id);
        const r = as(t.owner, t.id, 'deposit_and_stake', { amount: String(n) }, { gas: 125 }); t.ops++;
        rec.eq(P, r.ok && r.value, want, () => `${t.owner} staking ${n} of ${t.id} with ${pool}: ${r.err}`);
        if (want) { const more = on(pool, t.id) - was; ok(more >= n - 2n, () => `${n} staked by ${t.id} came to ${more}`); rec.hit('a lockup staked with a pool'); rec.mark('C50'); }
        break;
      }
      case 'unstake': if (poolOf(t) && terminating(t) === null) stakeOff(t); break;
      case 'withdraw': if (poolOf(t) && terminating(t) === null) takeOff(t); break;
      case 'transfer': {
        const free = N(t, 'get_liquid_owners_balance'), n = part(s.amt, free);
        if (n === 0n) break;
        const want = V(t, 'are_transfers_enabled') && terminating(t) === null && n <= free;
        const r = move(t, n);
        rec.eq(P, r.ok, want, () => `${t.owner} transferring ${n} of ${free} from ${t.id}: ${r.err}`);
        if (want) rec.hit('transfer');
        break;
      }
      case 'check': {
        const want = !V(t, 'are_transfers_enabled') && terminating(t) === null;
        const r = as(t.owner, t.id, 'check_transfers_vote', {}, { gas: 75 });
        rec.eq(P, r.ok && r.value, want && decided !== null, () => `${t.owner} checking the vote for ${t.id}: ${r.err}`);
        rec.eq(P, V(t, 'are_transfers_enabled'), t.via === 'factory' || t.enabled === true || (want && decided !== null), () => `transfers of ${t.id} after checking the vote`);
        if (want && decided !== null) { t.enabled = true; rec.hit('transfers enabled by the poll'); rec.mark('C50'); }
        break;
      }
      case 'terminate': {
        const u = t.vest ? unvestedOf(t.vest, t.amount, chain.time) : 0n;
        const want = t.due === null && u > 0n;
        const r = as(FOUND, t.id, 'terminate_vesting', { vesting_schedule_with_salt: null }, { gas: 50 });
        rec.eq(P, r.ok, want, () => `the foundation terminating ${t.id}: ${r.err}`);
        if (want) { t.due = u; rec.eq(P, N(t, 'get_terminated_unvested_balance'), u, 'what is due to the foundation'); rec.hit('terminated through the multisig'); }
        break;
      }
      case 'step': if (terminating(t) !== null) settleStep(t); break;
      case 'delegate': {
        const n = BigInt(s.n) * NEAR + BigInt(s.n), was = on(q, d), k = books(d, q);
        done(chain.call(d, q, 'deposit_and_stake', {}, { deposit: n }), `delegation of ${d}`); k[0] += n; k[2]++;
        ok(on(q, d) - was >= n - 2n, () => `${n} delegated by ${d} to ${q} came to ${on(q, d) - was}`);
        break;
      }
      case 'undelegate': if (on(q, d, 'staked') > 0n) { done(chain.call(d, q, 'unstake_all', {}), `unstaking of ${d}`); books(d, q)[2]++; } break;
      case 'takeout':
        if (on(q, d, 'unstaked') > 0n && view(q, 'is_account_unstaked_balance_available', { account_id: d })) { const b = chain.balance(d); done(chain.call(d, q, 'withdraw_all', {}), `withdrawal of ${d}`); books(d, q)[1] += chain.balance(d) - b; }
        break;
      case 'vote': cast(q, s.v); break;
      case 'outside': cast(VAL, s.v); break;
      case 'epoch': epoch(s.n, s.reward); break;
      case 'time': chain.time += BigInt(s.n) * D + 987654n; break;
      case 'list': {
        const r = done(as(FOUND, WL, (s.add ? 'add' : 'remove') + '_staking_pool', { staking_pool_account_id: q }), `listing of ${q}`);
        rec.eq(P, r.value, listed.has(q) !== s.add, () => `answer to ${s.add ? 'listing' : 'delisting'} ${q}`);
        if (s.add) listed.add(q); else listed.delete(q);
        break;
      }
    }
    observe(s.t);
  }

  // -- the end: the poll is decided, terminations are settled, everything is unlocked, and everyone takes out what is theirs
  epoch(1, 0);
  for (const v of [...POOLS, VAL]) if (decided === null && (chain.validators.get(v) ?? 0n) > 0n) cast(v, true);
  ok(decided !== null, 'the poll is not decided with everyone in favour');
  for (const t of lockups) {
    for (let i = 0; i < 4 && terminating(t) !== null && (terminating(t) !== 'ReadyToWithdraw' || avail(t) > 0n); i++) { settleStep(t); if (/Unstaked/.test(terminating(t))) epoch(4, 0); }
    if (terminating(t) !== null) { // what is due includes the storage reserve: once that is replaced
      const left = N(t, 'get_terminated_unvested_balance');
      ok(left <= STORAGE + 4n * t.ops, () => `${left} of the termination of ${t.id} cannot be had`);
      chain.tx('creator', t.id, [{ t: 'transfer', deposit: left }]); chain.settle(); t.topup += left;
      settleStep(t);
    }
    rec.eq(P, [terminating(t), t.got], [null, t.due ?? 0n], () => `what the foundation got from ${t.id} in all`);
  }
  chain.time = [T0 + 1500n * D, ...lockups.flatMap((t) => [(t.via === 'poll' ? BigInt(decided) : STARTED) + BigInt(t.dur) + BigInt(t.rel ?? 0), BigInt(t.ts ?? 0) + BigInt(t.rel ?? 0), BigInt(t.vest?.end_timestamp ?? 0)])].reduce((x, y) => (x > y ? x : y), chain.time);
  for (const t of lockups) {
    if (!V(t, 'are_transfers_enabled')) ok(done(as(t.owner, t.id, 'check_transfers_vote', {}, { gas: 75 }), `the check of the vote by ${t.owner}`).value === true, () => `${t.id} does not take the result of the poll`);
    if (poolOf(t) && on(poolOf(t), t.id, 'staked') > 0n) stakeOff(t);
  }
  for (const q of POOLS) done(chain.call('creator', q, 'ping', {}), `ping of ${q}`); // the last rewards
  for (const q of POOLS) for (const d of [...DELEGATORS, 'creator', OPS[POOLS.indexOf(q)]]) if (on(q, d, 'staked') > 0n) { done(as(d, q, 'unstake_all', {}), `unstaking of ${d}`); books(d, q)[2]++; }
  epoch(4, 0);
  for (const t of lockups) {
    if (poolOf(t)) {
      takeOff(t);
      done(as(t.owner, t.id, 'refresh_staking_pool_balance', {}), 'refreshing');
      done(as(t.owner, t.id, 'unselect_staking_pool', {}), `unselecting the pool of ${t.id}`);
    }
    rec.eq(P, N(t, 'get_locked_amount'), 0n, () => `locked in ${t.id} at the end`);
    const n = N(t, 'get_liquid_owners_balance');
    rec.eq(P, n, avail(t), () => `liquid in ${t.id} at the end`);
    if (n > 0n) ok(move(t, n).ok, () => `${t.owner} cannot take out ${n} of ${t.id} at the end`);
    ok(t.out + chain.balance(t.id) + 4n * t.ops >= t.amount - (t.due ?? 0n) + t.topup, () => `of ${t.amount} less ${t.due ?? 0n} ${t.owner} got ${t.out}, and ${chain.balance(t.id)} are left`);
    const r = as(t.owner, t.id, 'add_full_access_key', { new_public_key: testKey('full') }, { gas: 50 });
    ok(r.ok && chain.acc(t.id).keys.get(testKey('full')) === 'full', () => `${t.owner} cannot take over ${t.id} at the end: ${r.err}`);
  }
  for (const q of POOLS) {
    for (const d of [...DELEGATORS, 'creator', OPS[POOLS.indexOf(q)]]) if (on(q, d, 'unstaked') > 0n) {
      const b = chain.balance(d); done(as(d, q, 'withdraw_all', {}), `withdrawal of ${d} from ${q}`); books(d, q)[1] += chain.balance(d) - b;
      if (DELEGATORS.includes(d)) { const k = books(d, q); ok(k[1] + 2n * k[2] >= k[0], () => `${d} put ${k[0]} into ${q} and got ${k[1]}`); }
    }
    rec.eq(P, view(q, 'get_number_of_accounts'), 0, () => `accounts left on ${q}`);
  }
  ok(chain.supply() === chain.minted, 'tokens appeared or disappeared');
  rec.hit('everything taken out');
}
