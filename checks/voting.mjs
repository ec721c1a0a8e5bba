// Voting: validators vote, withdraw, change stake over epochs; an exact tally decides when the poll ends.
import { Chain, NEAR, TGAS } from '../sim/near.mjs';
import { fc, paidInit, wasm, op, ops, boost, seq, pick, amountArb, big, upArb, codeFor, upgrade } from '../sim/harness.mjs';

export const contracts = ['voting'];
const N = 9;
const ACC = Array.from({ length: N }, (_, i) => `val${i}.near`).concat(['nobody.near', 'vote']);
const POLL = 'vote';

const stakeArb = fc.oneof(
  { weight: 5, arbitrary: fc.integer({ min: 0, max: 9 }).map(String) },
  { weight: 1, arbitrary: fc.constant('0') },
  { weight: 2, arbitrary: fc.integer({ min: 1, max: 6 }).map((n) => String(BigInt(n) * 10n ** 30n)) },
  { weight: 2, arbitrary: amountArb(1000000n) },
);
const stakesArb = fc.oneof(
  { weight: 3, arbitrary: fc.array(fc.integer({ min: 0, max: 6 }).map(String), { minLength: N, maxLength: N }) },
  { weight: 2, arbitrary: fc.array(stakeArb, { minLength: N, maxLength: N }) },
  // everyone the same: two thirds exactly is reachable
  { weight: 2, arbitrary: fc.tuple(fc.constantFrom(3, 6, 9), fc.constantFrom('1', '7', '1000000000000000000000000', '333333333333333333333333333333333')).map(([n, s]) => Array.from({ length: N }, (_, i) => (i < n ? s : '0'))) },
);
const uArb = fc.oneof({ weight: 12, arbitrary: pick(N) }, { weight: 1, arbitrary: pick(ACC.length) });

export const arb = (job) => fc.record({
  relay: fc.boolean(), ...upArb(job),
  stakes: stakesArb,
  // more validators, some of whom vote first
  crowd: fc.oneof({ weight: 15, arbitrary: fc.constant(null) }, { weight: 1, arbitrary: fc.record({ n: fc.constantFrom(12, 40, 70, 110), stake: fc.constantFrom('1', '2', '1000000000000000000000000'), votes: fc.integer({ min: 1, max: 100 }) }) }),
  epoch: fc.constantFrom(0, 1, 77, 77, 254, 65534, 4294967294),
  steps: seq(ops([
    [10, op('vote', { u: uArb, v: fc.oneof({ weight: 4, arbitrary: fc.constant(true) }, { weight: 1, arbitrary: fc.constant(false) }) })],
    [2, op('ping', { u: uArb })],
    [3, op('epoch', { n: fc.constantFrom(1, 1, 2), changes: fc.array(fc.tuple(pick(N), stakeArb), { maxLength: 4 }) })],
    [1, op('stakes', { stakes: stakesArb })],
    [1, op('time', { ns: fc.constantFrom('1', '1000000000', '999999999999999') })],
    [boost(job, 1, 'C41'), op('init', { u: uArb })],
    [boost(job, 1, 'C43'), op('deposit', { u: uArb, m: fc.constantFrom('vote', 'ping') })],
  ]), 5, job.tier === 'thorough' ? 80 : 45),
});

export function run(c, rec) {
  const chain = new Chain();
  if (rec.keep) chain.trace = rec.log;
  chain.epoch = c.epoch;
  for (const a of ACC) chain.addAccount(a, 100n * NEAR, a === POLL ? { code: codeFor(c, 'voting_contract') } : {});
  const stake = new Map();
  const setStakes = (l) => l.forEach((s, i) => { stake.set(ACC[i], big(s)); });
  const sync = () => { chain.validators = new Map([...stake].filter(([, s]) => s > 0n)); };
  setStakes(c.stakes);
  const crowd = c.crowd ? Array.from({ length: c.crowd.n }, (_, i) => `x${i}.near`) : [];
  for (const a of crowd) { chain.addAccount(a, 100n * NEAR); stake.set(a, big(c.crowd.stake)); }
  sync();
  const total = () => { let t = 0n; for (const s of chain.validators.values()) t += s; return t; };
  rec.check(['C41'], !chain.call(ACC[0], POLL, 'vote', { is_vote: true }).ok, 'voted before initialisation');
  paidInit(chain, rec, ACC[0], POLL, {});
  rec.check(['C41'], chain.call(ACC[0], POLL, 'new', {}).ok, 'initialisation failed');

  if (c.relay) chain.relay = ACC;
  const m = { votes: new Map(), result: null, last: 0 };
  const sum = () => { let t = 0n; for (const s of m.votes.values()) t += s; return t; };
  const decide = () => { if (3n * sum() > 2n * total()) m.result = String(chain.time); };
  const ping = () => {
    if (m.result !== null) return false;
    if (chain.epoch !== m.last) {
      m.votes = new Map([...m.votes.keys()].map((v) => [v, chain.validators.get(v) ?? 0n]).filter(([, s]) => s > 0n));
      decide(); m.last = chain.epoch;
    }
    return true;
  };
  const vote = (u, v) => {
    if (!ping()) return false;
    if (m.result !== null) return true;
    const s = chain.validators.get(u) ?? 0n;
    if (v && s === 0n) return false;
    m.votes.delete(u);
    if (v) { m.votes.set(u, s); decide(); }
    return true;
  };
  let frozen = null, wasWithdrawn = false;
  const guard = (f) => {
    const saved = { votes: new Map(m.votes), result: m.result, last: m.last };
    const ok = f();
    if (!ok) Object.assign(m, saved);
    return ok;
  };
  const show = () => ({ result: chain.view(POLL, 'get_result', {}).value, total: chain.view(POLL, 'get_total_voted_stake', {}).value, votes: chain.view(POLL, 'get_votes', {}).value });
  const steps = [...crowd.slice(0, Math.ceil((crowd.length * (c.crowd?.votes ?? 0)) / 100)).map((a) => ({ t: 'vote', a, v: true })), ...c.steps];
  if (crowd.length) rec.hit('a crowd of validators');
  for (const [at, s] of steps.entries()) {
    upgrade(c, rec, chain, POLL, 'voting_contract', at);
    const u = s.a ?? (s.u === undefined ? null : ACC[s.u]);
    const ended = m.result !== null;
    let want, got;
    const fresh = chain.epoch !== m.last;
    switch (s.t) {
      case 'epoch': chain.epoch += s.n; for (const [i, x] of s.changes) stake.set(ACC[i], big(x)); sync(); chain.time += 43200000000000n; continue;
      case 'stakes': chain.epoch += 1; setStakes(s.stakes); sync(); continue;
      case 'time': chain.time += big(s.ns); continue;
      case 'init': rec.check(['C41'], !chain.call(u, POLL, 'new', {}).ok, 'initialised twice'); rec.mark('C41'); want = got = true; break;
      case 'deposit': want = false; got = chain.call(u, POLL, s.m, s.m === 'vote' ? { is_vote: true } : {}, { deposit: 1n }).ok; rec.check(['C43'], !got, () => s.m + ' took a deposit'); rec.mark('C43'); break;
      case 'ping': want = guard(ping); got = chain.call(u, POLL, 'ping', {}).ok; break;
      case 'vote': want = guard(() => vote(u, s.v)); got = chain.call(u, POLL, 'vote', { is_vote: s.v }).ok;
        if (got && !s.v && !ended) wasWithdrawn = true; break;
    }
    rec.hit(`${s.t}${s.v === undefined ? '' : s.v ? ' for' : ' withdrawn'} ${got ? 'ok' : 'refused'}`);
    const o = show();
    rec.all(() => {
      rec.eq(['C13', 'C14'], got, want, () => `${s.t} ${s.v ?? ''} by ${u}`);
      rec.eq(['C13'], o.result, m.result, () => `result of the poll after ${s.t} by ${u}: voted ${sum()} of ${total()}`);
      rec.eq(['C14', 'C13'], o.total, [String(sum()), String(total())], () => `voted and total stake after ${s.t} ${s.v ?? ''} by ${u}`);
      rec.eq(['C14'], o.votes, Object.fromEntries([...m.votes].map(([k, v]) => [k, String(v)])), () => `votes after ${s.t} by ${u}`);
      if (frozen) rec.eq(['C13', 'C14'], [o.result, o.votes, o.total[0]], frozen, 'a decided poll changed');
    });
    if (!ended && m.result !== null) { rec.hit('poll decided'); rec.mark('C13'); frozen = [o.result, o.votes, o.total[0]]; }
    if (ended) rec.hit('call after the end');
    if (3n * sum() === 2n * total() && sum() > 0n) { rec.hit('exactly two thirds'); rec.mark('C13'); }
    if ((fresh && m.votes.size > 0) || wasWithdrawn) rec.mark('C14');
  }
}
