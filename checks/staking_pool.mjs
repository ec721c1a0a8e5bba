// Staking pool: histories of delegators, owner, epochs, rewards, thresholds, delayed receipts, against PoolModel.
import { Chain, NEAR, TGAS, testKey, jsCode } from '../sim/near.mjs';
import { fc, paidInit, wasm, op, ops, boost, seq, pick, amountArb, partArb, part, big, resultsArb, same, upArb, codeFor, upgrade } from '../sim/harness.mjs';
import { PoolModel, GUARANTEE } from '../models/pool.mjs';

export const contracts = ['staking-pool'];
const USERS = ['owner.near', 'alice', 'bob', 'carol.near', '98793cd91a3f870fb126f66285808c7e094afcfc4eda8a970f6648cdf0dbd6de']; // the last one as long as names are
const OWNER = 0;
const POOL = 'pool.factory';
const RICH = 10n ** 36n;
// Seldom more than all the tokens there are.
const depArb = fc.oneof({ weight: 14, arbitrary: amountArb() }, { weight: 1, arbitrary: amountArb(5n * 10n ** 9n) });
const KEYS = [testKey(1), testKey(2), testKey(3), testKey(4, 1), testKey(5)];
const BADKEY = 4;
const VOTES = 'votes.near';
const votesCode = jsCode('votes', { vote: (env, a) => { env.chain.votes.push([env.receipt.predecessor, a.is_vote, env.call.deposit]); } });

const feeArb = fc.oneof(
  fc.constantFrom([0, 1], [1, 10], [1, 100], [1, 1], [10, 100], [99, 100], [1, 3], [2, 7], [4294967295, 4294967295], [4294967294, 4294967295]),
  fc.tuple(fc.integer({ min: 0, max: 0xffffffff }), fc.integer({ min: 1, max: 0xffffffff })).map(([a, b]) => (a <= b ? [a, b] : [b, a])),
).map(([numerator, denominator]) => ({ numerator, denominator }));
const anyFeeArb = fc.oneof({ weight: 5, arbitrary: feeArb },
  { weight: 1, arbitrary: fc.constantFrom({ numerator: 1, denominator: 0 }, { numerator: 2, denominator: 1 }, { numerator: 101, denominator: 100 }, { numerator: 0, denominator: 0 }, { numerator: 4294967295, denominator: 4294967294 }) });
const rewardArb = fc.oneof(
  { weight: 2, arbitrary: fc.constant('0') },
  { weight: 2, arbitrary: fc.bigInt({ min: 1n, max: 20n }).map((x) => '=' + x) },
  { weight: 4, arbitrary: fc.integer({ min: 1, max: 2000 }).map((x) => `${x}/100000`) },
  { weight: 2, arbitrary: amountArb(100n).map((x) => '=' + x) },
);
const uArb = fc.oneof({ weight: 1, arbitrary: fc.constant(0) }, { weight: 4, arbitrary: pick(USERS.length) });
const adminArb = fc.oneof({ weight: 6, arbitrary: fc.constant(0) }, { weight: 1, arbitrary: pick(USERS.length) });

// Swarm profiles: which kinds of steps a case favours.
const PROFILES = {
  mixed: { dep: 6, stake: 5, unstake: 5, wd: 5, epoch: 4, admin: 2, threshold: 1, misc: 1 },
  unbond: { dep: 4, stake: 3, unstake: 7, wd: 9, epoch: 6, admin: 0, threshold: 0, misc: 1 },
  reward: { dep: 5, stake: 4, unstake: 4, wd: 1, epoch: 8, admin: 2, threshold: 0, misc: 2 },
  admin: { dep: 4, stake: 2, unstake: 2, wd: 2, epoch: 3, admin: 8, threshold: 1, misc: 2 },
  fail: { dep: 5, stake: 4, unstake: 5, wd: 3, epoch: 4, admin: 1, threshold: 4, misc: 0 },
};
function stepArb(w, delayed, job) {
  const flag = { ...(delayed ? { wait: fc.boolean() } : {}), fit: fc.constantFrom(0, 1, 2, 2) };
  return ops([
    [w.dep, op('deposit_and_stake', { u: uArb, amt: depArb, ...flag })],
    [w.dep * 0.7, op('deposit', { u: uArb, amt: depArb, ...flag })],
    [w.stake, op('stake', { u: uArb, part: partArb(), ...flag })],
    [w.stake * 0.5, op('stake_all', { u: uArb, ...flag })],
    [w.unstake, op('unstake', { u: uArb, part: partArb(), ...flag })],
    [w.unstake * 0.6, op('unstake_all', { u: uArb, ...flag })],
    [w.wd, op('withdraw', { u: uArb, part: partArb(), ...flag })],
    [w.wd * 0.7, op('withdraw_all', { u: uArb, ...flag })],
    [w.epoch, op('epoch', { n: fc.oneof({ weight: 20, arbitrary: fc.constantFrom(1, 1, 1, 1, 2, 3, 3, 4, 4, 5) }, { weight: 1, arbitrary: fc.constantFrom(8, 16, 40) }), reward: rewardArb })],
    [w.epoch * 0.5, op('ping', { u: uArb, ...flag })],
    [w.epoch * 0.2, op('donate', { u: uArb, amt: amountArb(50n) })],
    [w.admin * 0.5, op('update_reward_fee_fraction', { u: adminArb, fee: anyFeeArb, ...flag })],
    [w.admin * 0.5, op('update_staking_key', { u: adminArb, key: pick(KEYS.length), ...flag })],
    [w.admin * 0.5, op('pause_staking', { u: adminArb, ...flag })],
    [w.admin * 0.5, op('resume_staking', { u: adminArb, ...flag })],
    [w.admin * 0.3, op('vote', { u: adminArb, v: fc.boolean(), to: fc.constantFrom(VOTES, VOTES, 'alice', 'Bad Id', '', 'a') })],
    [boost(job, 0, 'C41'), op('init', { u: pick(USERS.length + 1) })],
    [w.threshold, op('threshold', { amt: fc.oneof(fc.constant('0'), amountArb(3000n)) })],
    [boost(job, w.misc * 0.5, 'C42'), op('callback', { u: uArb, results: resultsArb })],
    [boost(job, w.misc * 0.5, 'C09'), op('page', { from: fc.oneof(fc.integer({ min: 0, max: 7 }), fc.constantFrom('18446744073709551615', 11, 50, 99, 101, 126)), limit: fc.oneof(fc.integer({ min: 0, max: 7 }), fc.constantFrom('18446744073709551615', '9223372036854775808', 40, 100, 256)) })],
    [boost(job, w.misc * 0.4, 'C43'), op('withDeposit', { u: fc.oneof(adminArb, uArb), ...flag, m: fc.constantFrom('ping', 'withdraw_all', 'withdraw', 'stake_all', 'unstake_all', 'stake', 'unstake', 'pause_staking', 'resume_staking', 'update_staking_key', 'update_reward_fee_fraction', 'vote'), amt: fc.constantFrom('1', '1000000000000000000000000') })],
    [delayed ? 12 : 0, op('deliver', { i: fc.nat({ max: 6 }) })],
  ]);
}

export const arb = (job) => {
  const favour = { C05: ['unbond', 'mixed', 'fail'], C04: ['reward', 'mixed', 'admin'], C06: ['admin', 'mixed'], C07: ['fail', 'mixed'], C08: ['mixed', 'admin', 'fail', 'reward'] }[job.prop] ?? Object.keys(PROFILES);
  return fc.tuple(fc.constantFrom(...favour), fc.oneof({ weight: 3, arbitrary: fc.constant(false) }, { weight: 1, arbitrary: fc.constant(true) }))
    .chain(([p, delayed]) => fc.record({
      profile: fc.constant(p), delayed: fc.constant(delayed), relay: fc.boolean(),
      fee: feeArb, ...upArb(job),
      epoch: fc.oneof({ weight: 3, arbitrary: fc.constant(10) }, { weight: 1, arbitrary: fc.constantFrom(1, 250, 65530, 4294967290) }), // at the first step
      initial: fc.oneof(fc.constant('50000000000000000000000000'), amountArb(500n).map((s) => String(BigInt(s) + 10n * NEAR))),
      minStake: fc.oneof(fc.constant('0'), amountArb(200n)),
      crowd: job.prop === 'C09' ? fc.oneof({ weight: 7, arbitrary: fc.constant(0) }, { weight: 1, arbitrary: fc.constantFrom(8, 20, 60, 130) }) : fc.constant(0),
      steps: seq(stepArb(PROFILES[p], delayed, job), 6, job.tier === 'thorough' ? 70 : 45),
    }));
};

export function run(c, rec) {
  const chain = new Chain();
  chain.votes = [];
  if (rec.keep) chain.trace = rec.log;
  chain.epoch = c.epoch ?? 10;
  const balance = big(c.initial);
  chain.addAccount(POOL, balance, { code: codeFor(c, 'staking_pool') });
  chain.addAccount(VOTES, 10n * NEAR, { code: votesCode });
  for (const u of USERS) chain.addAccount(u, RICH);
  chain.invalidStakeKeys.add(KEYS[BADKEY]);
  const pool = chain.acc(POOL);

  // A pool has to be initialised before use, with valid terms, and once.
  rec.check(['C41'], !chain.call(USERS[1], POOL, 'ping', {}).ok, 'a call before initialisation succeeded');
  const init = (fee, key, by) => chain.call(by, POOL, 'new', { owner_id: USERS[OWNER], stake_public_key: key, reward_fee_fraction: fee });
  rec.check(['C06'], !init({ numerator: 2, denominator: 1 }, KEYS[0], USERS[1]).ok, 'initialised with a fee above 1');
  rec.check(['C06'], !init({ numerator: 0, denominator: 0 }, KEYS[0], USERS[1]).ok, 'initialised with a zero denominator');
  rec.check(['C08'], !init(c.fee, KEYS[BADKEY], USERS[1]).ok, 'initialised with an invalid staking key');
  paidInit(chain, rec, USERS[2], POOL, { owner_id: USERS[OWNER], stake_public_key: KEYS[0], reward_fee_fraction: c.fee });
  const ini = init(c.fee, KEYS[0], USERS[2]);
  rec.check(['C41', 'C02'], ini.ok, () => 'initialisation failed: ' + ini.err);
  const m = new PoolModel({ owner: USERS[OWNER], key: KEYS[0], fee: c.fee, balance, epoch: chain.epoch });
  rec.check(['C41'], !init(c.fee, KEYS[1], USERS[OWNER]).ok, 'initialised twice');
  chain.minStake = big(c.minStake);
  if (c.relay) chain.relay = [...USERS, POOL];
  let failedStake = false;
  // Further delegators, who stay: they matter to the listing.
  for (let i = 0; i < (c.crowd ?? 0); i++) {
    const u = 'm' + i, dep = 2n * NEAR + BigInt(i);
    chain.addAccount(u, RICH);
    const env = { epoch: chain.epoch, total: pool.amount + pool.locked, liquid: pool.amount };
    const r = chain.call(u, POOL, 'deposit', {}, { deposit: dep });
    rec.check(['C02'], r.ok && m.apply(u, 'deposit', null, dep, env) !== null, () => `deposit by ${u}: ${r.err}`);
  }
  const unstakedAt = new Map(); // user -> epoch of the last successful unstake, from the history alone

  const stakeFails = (amount) => (amount > 0n && amount < chain.minStake) || (pool.locked === 0n && amount === 0n);

  // Compare everything observable with the model.
  function observe() {
    const v = chain.view(POOL, 'get_accounts', { from_index: 0, limit: 1000 });
    rec.check(['C09', 'C02'], v.ok, () => 'get_accounts failed: ' + v.err);
    const t = chain.view(POOL, 'get_total_staked_balance', {});
    rec.check(['C02'], t.ok, () => 'get_total_staked_balance failed: ' + t.err);
    const by = new Map(v.value.map((x) => [x.account_id, x]));
    rec.check(['C09'], by.size === v.value.length, 'an account is listed twice');
    return { by, total: BigInt(t.value) };
  }
  let last = observe();
  function solvency(o) {
    let owed = o.total;
    let sum = 0n;
    for (const x of o.by.values()) { owed += BigInt(x.unstaked_balance); sum += BigInt(x.staked_balance); }
    const have = pool.amount + pool.locked;
    rec.check(['C01'], have >= owed, () => `the pool holds ${have} but owes ${owed}`);
    rec.check(['C01', 'C03'], sum <= o.total, () => `accounts' stakes ${sum} exceed the total stake ${o.total}`);
  }
  function compare(ctx) {
    const o = observe();
    const { actor, reward, kind } = ctx;
    // Where the listing is not what is expected, the account's own figures decide whose fault that is.
    for (const u of USERS) {
      if (same(o.by.get(u), m.accounts.has(u) ? m.view(u, chain.epoch) : undefined)) continue;
      const own = chain.view(POOL, 'get_account', { account_id: u });
      if (!own.ok || same(own.value, o.by.get(u) ?? { ...own.value, unstaked_balance: '0', staked_balance: '0' })) continue;
      rec.eq(['C09'], o.by.get(u), own.value, () => `${u} in the listing after ${kind}`);
      o.by.set(u, own.value);
    }
    solvency(o);
    // What others see: independent of the model.
    for (const u of USERS) {
      if (u === actor) continue;
      const a = last.by.get(u), b = o.by.get(u);
      rec.check(['C03', 'C02'], (a?.unstaked_balance ?? '0') === (b?.unstaked_balance ?? '0'), () => `${kind} by ${actor} changed the unstaked balance of ${u}: ${a?.unstaked_balance} -> ${b?.unstaked_balance}`);
      rec.check(['C03', 'C01'], BigInt(b?.staked_balance ?? 0) >= BigInt(a?.staked_balance ?? 0), () => `${kind} by ${actor} lowered the stake of ${u}: ${a?.staked_balance} -> ${b?.staked_balance}`);
    }
    for (const u of USERS) {
      const want = m.view(u, chain.epoch);
      const got = o.by.get(u);
      if (!got) {
        rec.check(['C09'], !m.accounts.has(u), () => `${u} has a balance but is not listed after ${kind}`);
        continue;
      }
      rec.check(['C09'], m.accounts.has(u), () => `${u} is listed without any balance after ${kind}`);
      // Rewards are due to all; what is wrong with the shares of others or of the owner when no reward was due looks like one.
      const extra = reward > 0n || (u !== actor && got.staked_balance !== want.staked_balance) ? ['C04'] : [];
      if (BigInt(got.unstaked_balance) + BigInt(got.staked_balance) > BigInt(want.unstaked_balance) + BigInt(want.staked_balance)) extra.push('C01');
      rec.eq(['C02', ...(u !== actor ? ['C03'] : []), ...extra], got.unstaked_balance, want.unstaked_balance, () => `unstaked balance of ${u} after ${kind} by ${actor}`);
      rec.eq(['C02', ...(u !== actor ? ['C03'] : []), ...extra], got.staked_balance, want.staked_balance, () => `staked balance of ${u} after ${kind} by ${actor} (reward ${reward})`);
      rec.eq(['C05'], got.can_withdraw, want.can_withdraw, () => `can_withdraw of ${u} after ${kind} at epoch ${chain.epoch}`);
    }
    rec.eq(['C02', 'C03', ...(reward > 0n || !/stake/.test(kind) ? ['C04'] : []), ...(o.total < m.staked ? ['C01'] : [])], o.total, m.staked, () => `total staked balance after ${kind}`);
    last = o;
  }

  // Runs a user's call of the pool, the model along with it.
  const apply = (r) => rec.all(() => {
    const x = r.actions[0], u = r.predecessor;
    const env = { epoch: chain.epoch, total: pool.amount + pool.locked, liquid: pool.amount };
    const saved = m.clone();
    let want = m.apply(u, x.method, r.meta, x.deposit, env);
    if (want && want.restake && chain.invalidStakeKeys.has(m.key)) { Object.assign(m, saved); want = null; }
    if (want && want.stakeZero && chain.invalidStakeKeys.has(m.key)) { Object.assign(m, saved); want = null; }
    chain.run(r);
    const o = chain.outcomes.get(r.id);
    const ok = o.status !== 'fail';
    const wasPaused = saved.paused;
    const adminOp = ['update_staking_key', 'update_reward_fee_fraction', 'vote', 'pause_staking', 'resume_staking'].includes(x.method);
    if (ok !== (want !== null)) {
      const tags = ['C02'];
      if (adminOp) tags.push('C06');
      if (x.method === 'update_staking_key') tags.push('C08');
      if (wasPaused) tags.push('C06');
      if (x.method.startsWith('withdraw')) { tags.push('C05'); if (!ok) tags.push('C01'); }
      if (x.deposit > 0n && !['deposit', 'deposit_and_stake'].includes(x.method)) tags.push('C43');
      if (failedStake && !ok) tags.push('C07');
      rec.check(tags, false, () => `${x.method}(${String(r.metaShow)}) by ${u} with ${x.deposit} ${ok ? 'succeeded' : 'failed: ' + o.err}, expected ${want ? 'success' : 'failure'} (epoch ${chain.epoch}, liquid ${env.liquid})`);
    }
    rec.hit((ok ? 'ok ' : 'refused ') + x.method);
    if (!ok) {
      rec.check(['C02'], pool.amount + pool.locked === env.total, 'a failed call changed the holdings');
    } else {
      if (want.pay > 0n) { rec.mark('C01'); rec.mark('C05'); rec.hit('paid out'); }
      const transfers = chain.pending.filter((p) => p.predecessor === POOL && p.receiver !== POOL && p.actions[0].t === 'transfer' && !p.seen);
      let paid = 0n;
      for (const t of transfers) { t.seen = true; rec.check(['C02', 'C01'], t.receiver === u, () => `${x.method} by ${u} paid ${t.receiver}`); paid += t.actions[0].deposit; }
      rec.eq(['C02', 'C01', 'C05'], paid, want.pay, () => `amount paid by ${x.method} to ${u}`);
      rec.eq(['C02', 'C01'], pool.amount + pool.locked, env.total + x.deposit - want.pay, () => `holdings after ${x.method} by ${u}`);
      if (x.method === 'unstake' || x.method === 'unstake_all') { unstakedAt.set(u, chain.epoch); }
      // From the history alone: nothing leaves within four epochs of the last unstake.
      if (want.pay > 0n && unstakedAt.has(u)) rec.check(['C05'], chain.epoch >= unstakedAt.get(u) + 4, () => `${u} withdrew at epoch ${chain.epoch}, having unstaked at ${unstakedAt.get(u)}`);
      if (want.reward > 0n) { rec.mark('C04'); rec.hit('reward distributed'); if (m.fee.numerator > 0) rec.hit('reward with a fee'); }
      if (m.accounts.size > 1) rec.mark('C02', 'C03');
      if (m.accounts.size > 2) rec.mark('C09');
      if (wasPaused) { rec.hit('call while paused'); rec.mark('C06'); }
      if (adminOp) rec.mark('C06');
    }
    if (!ok && x.method.startsWith('withdraw') && unstakedAt.has(u) && chain.epoch < unstakedAt.get(u) + 4) rec.hit('withdrawal refused before time');
    compare({ actor: u, reward: ok ? want.reward : 0n, kind: x.method });
    return { ok, want };
  });
  const runOne = (r) => {
    const x = r.actions[0];
    if (r.receiver === POOL && r.predecessor !== POOL && x.t === 'call' && x.method !== 'on_stake_action') return apply(r);
    const selfStake = r.receiver === POOL && r.predecessor === POOL && x.t === 'stake';
    const fails = selfStake && stakeFails(x.stake);
    const lockedBefore = pool.locked;
    const booksBefore = fails ? observe() : null;
    chain.run(r);
    const o = chain.outcomes.get(r.id);
    if (selfStake) {
      rec.check(['C08', 'C07'], (o.status === 'fail') === fails, () => `staking ${x.stake} with threshold ${chain.minStake}: ${o.err ?? 'ok'}`);
      if (fails) {
        rec.hit('stake action failed');
        if (lockedBefore > 0n) { failedStake = true; rec.mark('C07'); rec.hit('stake action failed with locked funds'); }
        const after = observe();
        rec.eq(['C07'], [...after.by.values()], [...booksBefore.by.values()], 'balances after a failed staking action');
      } else rec.mark('C08');
    } else if (r.receiver === POOL && r.predecessor === POOL && x.t === 'call') {
      // A paused pool takes any key, and has asked to be unstaked already: a stake it still had under way then fails
      // twice over, to no effect.
      if (o.status === 'fail' && m.paused && chain.invalidStakeKeys.has(m.key)) { rec.hit('unusable key while paused'); return null; }
      rec.check(['C07', 'C08'], o.status !== 'fail', () => 'the pool could not handle the end of its staking action: ' + o.err);
    }
    return null;
  };

  function send(u, method, args, meta, deposit) {
    const id = chain.send(u, POOL, method, args, { deposit });
    const r = chain.pending[chain.pending.length - 1];
    r.meta = meta; r.metaShow = JSON.stringify(args);
    return r;
  }
  // What the pool must be asking the validators for once everything has settled.
  function settleAndJudge(res) {
    const wantBefore = pool.stakeWanted;
    let judge = null;
    if (res && res.ok && (res.want.restake || res.want.stakeZero)) {
      const amt = res.want.stakeZero ? 0n : m.staked;
      const fails = stakeFails(amt);
      judge = { amt, fails, zero: res.want.stakeZero, locked: pool.locked };
    }
    while (chain.pending.length) runOne(chain.pending[0]);
    if (!judge) {
      if (res && res.ok) rec.eq(['C08', 'C06'], pool.stakeWanted, wantBefore, 'the stake changed without need');
      return;
    }
    if (!judge.fails) {
      rec.eq(['C08', ...(m.paused ? ['C06'] : [])], pool.stakeWanted, judge.amt, 'the stake asked of the validators');
      if (!judge.zero) rec.eq(['C08', 'C06'], pool.stakeKey, m.key, 'the staking key');
    } else if (judge.locked > 0n) {
      rec.eq(['C07'], pool.stakeWanted, 0n, 'the stake after a failed staking action');
    } else rec.eq(['C07'], pool.locked, 0n, 'nothing is locked after a failed first staking action');
  }

  const up = (i) => upgrade(c, rec, chain, POOL, 'staking_pool', i, () => { while (chain.pending.length) runOne(chain.pending[0]); });
  for (const [i, s] of c.steps.entries()) {
    up(i);
    let u = s.u !== undefined ? USERS[s.u] ?? null : null;
    // Mostly, someone for whom the step can mean something.
    if (s.fit) {
      const t = s.m ?? s.t;
      const has = t.startsWith('unstake') ? (v) => m.stakedOf(v) > 0n
        : t.startsWith('withdraw') && t !== 'withDeposit' ? (v) => m.get(v).unstaked > 0n && (s.fit === 1 || m.get(v).avail <= chain.epoch)
        : t === 'stake' || t === 'stake_all' ? (v) => m.get(v).unstaked > 0n : null;
      const l = has ? USERS.filter(has) : [];
      if (s.m && !has) u = USERS[OWNER];
      if (l.length) u = l[s.u % l.length];
    }
    let r = null;
    switch (s.t) {
      case 'epoch': {
        for (let i = 0; i < s.n; i++) {
          const oldBorn = () => chain.pending.find((p) => p.born < chain.epoch);
          for (let p = oldBorn(), guard = 0; p; p = oldBorn()) {
            if (guard++ > 500) throw new Error('settle');
            runOne(chain.pending.find((q) => q.predecessor === p.predecessor && q.receiver === p.receiver));
          }
          const rw = pool.locked > 0n ? part(s.reward, pool.locked) : 0n;
          chain.advanceEpoch({ [POOL]: rw });
          if (rw > 0n) rec.hit('epoch with reward');
        }
        last = observe();
        solvency(last);
        continue;
      }
      case 'init': {
        const id = chain.send(USERS[s.u] ?? POOL, POOL, 'new', { owner_id: USERS[s.u] ?? POOL, stake_public_key: KEYS[1], reward_fee_fraction: c.fee });
        chain.run(chain.pending[chain.pending.length - 1]);
        rec.check(['C41'], chain.outcomes.get(id).status === 'fail', () => `initialised again by ${USERS[s.u] ?? POOL}`);
        rec.mark('C41'); continue;
      }
      case 'threshold': chain.minStake = big(s.amt); continue;
      case 'donate': chain.tx(u, POOL, [{ t: 'transfer', deposit: big(s.amt) }]);
        if (!c.delayed) while (chain.pending.length) runOne(chain.pending[0]);
        rec.hit('donation'); continue;
      case 'deliver': {
        const el = chain.eligible();
        if (el.length) { if (s.i % el.length) rec.hit('out-of-order delivery'); runOne(el[s.i % el.length]); }
        continue;
      }
      case 'callback': {
        const before = [pool.amount, pool.locked, pool.stakeWanted];
        const id = chain.send(u, POOL, 'on_stake_action', {}, { results: s.results });
        chain.run(chain.pending[chain.pending.length - 1]);
        rec.check(['C42', 'C07'], chain.outcomes.get(id).status === 'fail', () => `${u} could call the pool's internal callback`);
        rec.eq(['C42'], [pool.amount, pool.locked, pool.stakeWanted], before, 'holdings after a refused callback');
        rec.mark('C42');
        continue;
      }
      case 'page': {
        const all = chain.view(POOL, 'get_accounts', { from_index: 0, limit: 1000 }).value;
        const raw = `{"from_index":${s.from},"limit":${s.limit}}`;
        const v = chain.view(POOL, 'get_accounts', new TextEncoder().encode(raw));
        rec.check(['C09'], v.ok, () => `get_accounts(${raw}) failed: ${v.err}`);
        const f = BigInt(s.from), l = BigInt(s.limit), n = BigInt(all.length);
        const want = f >= n ? [] : all.slice(Number(f), Number(f + l > n ? n : f + l));
        rec.eq(['C09'], v.value, want, () => `page ${raw}`);
        rec.eq(['C09'], chain.view(POOL, 'get_number_of_accounts', {}).value, all.length, 'number of accounts');
        rec.eq(['C09'], all.map((x) => x.account_id).sort(), [...m.accounts.keys()].sort(), 'listed accounts');
        for (const v2 of USERS) {
          const a = chain.view(POOL, 'get_account', { account_id: v2 }).value;
          rec.eq(['C09', 'C05'], a, m.view(v2, chain.epoch), () => 'get_account ' + v2);
          rec.eq(['C09'], chain.view(POOL, 'get_account_staked_balance', { account_id: v2 }).value, a.staked_balance, 'get_account_staked_balance');
          rec.eq(['C09'], chain.view(POOL, 'get_account_unstaked_balance', { account_id: v2 }).value, a.unstaked_balance, 'get_account_unstaked_balance');
          rec.eq(['C09'], chain.view(POOL, 'get_account_total_balance', { account_id: v2 }).value, String(BigInt(a.staked_balance) + BigInt(a.unstaked_balance)), 'get_account_total_balance');
          rec.eq(['C09', 'C05'], chain.view(POOL, 'is_account_unstaked_balance_available', { account_id: v2 }).value, a.can_withdraw, 'is_account_unstaked_balance_available');
        }
        if (n > 1n && f > 0n) rec.mark('C09');
        continue;
      }
      case 'deposit': case 'deposit_and_stake': r = send(u, s.t, {}, null, big(s.amt)); break;
      case 'withdraw_all': case 'stake_all': case 'unstake_all': case 'ping': case 'pause_staking': case 'resume_staking': r = send(u, s.t, {}, null, 0n); break;
      case 'withdraw': case 'stake': case 'unstake': {
        const a = part(s.part, s.t === 'unstake' ? m.stakedOf(u) : m.get(u).unstaked);
        r = send(u, s.t, { amount: String(a) }, a, 0n); break;
      }
      case 'update_staking_key': r = send(u, s.t, { stake_public_key: KEYS[s.key] }, KEYS[s.key], 0n); break;
      case 'update_reward_fee_fraction': r = send(u, s.t, { reward_fee_fraction: s.fee }, s.fee, 0n); break;
      case 'vote': {
        // A vote travels to the contract named, as given, and only at the owner's word.
        const valid = s.to === VOTES || s.to === 'alice';
        const n = chain.votes.length;
        if (!valid) {
          const id = chain.send(u, POOL, 'vote', { voting_account_id: s.to, is_vote: s.v });
          chain.run(chain.pending[chain.pending.length - 1]);
          rec.check(['C06'], chain.outcomes.get(id).status === 'fail', 'a vote at an invalid account was accepted');
          continue;
        }
        r = send(u, 'vote', { voting_account_id: s.to, is_vote: s.v }, null, 0n);
        if (!c.delayed) {
          const res = apply(r);
          settleAndJudge(res);
          const got = chain.votes.slice(n);
          const want = res.ok && s.to === VOTES ? [[POOL, s.v, 0n]] : [];
          rec.eq(['C06'], got, want, 'votes forwarded');
          continue;
        }
        break;
      }
      case 'withDeposit': {
        const a = { withdraw: 1n, stake: 1n, unstake: 1n, update_staking_key: KEYS[1], update_reward_fee_fraction: { numerator: 1, denominator: 2 } }[s.m] ?? null;
        const j = { withdraw: { amount: '1' }, stake: { amount: '1' }, unstake: { amount: '1' }, update_staking_key: { stake_public_key: KEYS[1] }, update_reward_fee_fraction: { reward_fee_fraction: a }, vote: { voting_account_id: VOTES, is_vote: true } }[s.m] ?? {};
        r = send(u, s.m, j, a, big(s.amt));
        rec.mark('C43');
        break;
      }
      default: throw new Error('step ' + s.t);
    }
    if (c.delayed) { if (!s.wait) runOne(r); continue; }
    settleAndJudge(apply(r));
    if (s.t.startsWith('update') || s.t.endsWith('staking')) {
      rec.eq(['C06'], chain.view(POOL, 'is_staking_paused', {}).value, m.paused, 'is_staking_paused');
      rec.eq(['C06', 'C04'], chain.view(POOL, 'get_reward_fee_fraction', {}).value, m.fee, 'get_reward_fee_fraction');
      rec.eq(['C06', 'C08'], chain.view(POOL, 'get_staking_key', {}).value, m.key, 'get_staking_key');
      rec.eq(['C06'], chain.view(POOL, 'get_owner_id', {}).value, m.owner, 'get_owner_id');
    }
  }
  while (chain.pending.length) runOne(chain.pending[0]);
  up(c.steps.length);
  const fin = observe();
  solvency(fin);
  rec.check(['C01', 'C02'], chain.supply() === chain.minted, 'tokens appeared or vanished');

  // Everyone leaves: what the pool displays to each can be taken out in full.
  if (rec.wants('C01', 'C05', 'C07')) {
    const d = chain.clone();
    const p2 = d.acc(POOL);
    const shown = new Map();
    for (const u of USERS) {
      const a = d.view(POOL, 'get_account', { account_id: u }).value;
      shown.set(u, BigInt(a.staked_balance) + BigInt(a.unstaked_balance));
      if (BigInt(a.staked_balance) > 0n) {
        const r = d.call(u, POOL, 'unstake_all', {});
        rec.check(['C01', ...(failedStake ? ['C07'] : [])], r.ok, () => `${u} cannot unstake ${a.staked_balance} when leaving: ${r.err}`);
      }
    }
    for (let i = 0; i < 4; i++) d.advanceEpoch({});
    for (const u of USERS) {
      const a = d.view(POOL, 'get_account', { account_id: u }).value;
      if (BigInt(a.unstaked_balance) === 0n) continue;
      rec.check(['C05'], a.can_withdraw === true, () => `${u} cannot withdraw four epochs after unstaking`);
      const b0 = d.balance(u);
      const r = d.call(u, POOL, 'withdraw_all', {});
      rec.check(['C01', 'C05', ...(failedStake ? ['C07'] : [])], r.ok, () => `${u} cannot take out ${a.unstaked_balance} when leaving: ${r.err}`);
      rec.check(['C01', 'C05'], d.balance(u) - b0 >= shown.get(u), () => `${u} was shown ${shown.get(u)} and got ${d.balance(u) - b0}`);
      rec.hit('left the pool in full');
    }
  }
}
