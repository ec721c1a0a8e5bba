// Whitelist: two sets and who may change them.
import { Chain, NEAR } from '../sim/near.mjs';
import { fc, paidInit, wasm, op, ops, boost, seq, pick, upArb, codeFor, upgrade } from '../sim/harness.mjs';

export const contracts = ['whitelist'];
const WL = 'wl.near';
const ACTORS = ['foundation.near', 'factory.a', 'factory.b', 'alice', 'pool.factory.a', WL];
const IDS = ['foundation.near', 'factory.a', 'factory.b', 'alice', 'pool.factory.a', 'zz', 'a'.repeat(64), WL];
const BADIDS = ['', 'a', 'A.near', 'a..b', '.a', 'a.', 'a b', 'a'.repeat(65), 'a@b', '_a', 'a-_b', 'ñandu'];
const idArb = fc.oneof({ weight: 8, arbitrary: fc.constantFrom(...IDS.slice(0, 5)) }, { weight: 1, arbitrary: fc.constantFrom(...IDS) }, { weight: 1, arbitrary: fc.constantFrom(...BADIDS) });
const actorArb = fc.oneof({ weight: 3, arbitrary: fc.constant(0) }, { weight: 3, arbitrary: pick(ACTORS.length) });

export const arb = (job) => fc.record({
  relay: fc.boolean(), ...upArb(job),
  foundation: fc.constantFrom(0, 0, 0, 3),
  steps: seq(ops([
    [4, op('add_staking_pool', { u: actorArb, id: idArb })],
    [3, op('remove_staking_pool', { u: actorArb, id: idArb })],
    [4, op('add_factory', { u: actorArb, id: idArb })],
    [3, op('remove_factory', { u: actorArb, id: idArb })],
    [boost(job, 1, 'C41'), op('init', { u: actorArb })],
    [boost(job, 1, 'C43'), op('deposit', { u: actorArb, m: fc.constantFrom('add_staking_pool', 'remove_staking_pool', 'add_factory', 'remove_factory'), id: idArb })],
  ]), 4, job.tier === 'thorough' ? 80 : 40),
});

export function run(c, rec) {
  const chain = new Chain();
  if (rec.keep) chain.trace = rec.log;
  for (const a of ACTORS) chain.addAccount(a, 100n * NEAR, a === WL ? { code: codeFor(c, 'whitelist') } : {});
  const FOUND = ACTORS[c.foundation];
  rec.check(['C41'], !chain.call('alice', WL, 'add_staking_pool', { staking_pool_account_id: 'alice' }).ok, 'used before initialisation');
  rec.check(['C12'], !chain.call('alice', WL, 'new', { foundation_account_id: 'Not Valid' }).ok, 'initialised with an invalid foundation account');
  paidInit(chain, rec, 'alice', WL, { foundation_account_id: FOUND });
  rec.check(['C41'], chain.call('alice', WL, 'new', { foundation_account_id: FOUND }).ok, 'initialisation failed');
  if (c.relay) chain.relay = ACTORS;
  const pools = new Set(), facs = new Set();
  for (const [i, s] of c.steps.entries()) {
    upgrade(c, rec, chain, WL, 'whitelist', i);
    const u = ACTORS[s.u];
    const arg = (m) => m.endsWith('factory') ? { factory_account_id: s.id } : { staking_pool_account_id: s.id };
    if (s.t === 'init') { rec.check(['C41'], !chain.call(u, WL, 'new', { foundation_account_id: u }).ok, 'initialised twice'); rec.mark('C41'); }
    else if (s.t === 'deposit') { rec.check(['C43'], !chain.call(u, WL, s.m, arg(s.m), { deposit: 1n }).ok, () => s.m + ' took a deposit'); rec.mark('C43'); }
    else {
      const set = s.t.endsWith('factory') ? facs : pools;
      const may = u === FOUND || (s.t === 'add_staking_pool' && facs.has(u));
      const valid = !BADIDS.includes(s.id);
      const add = s.t.startsWith('add');
      const r = chain.call(u, WL, s.t, arg(s.t));
      const had = set.has(s.id);
      const want = may && valid ? (add ? !had : had) : 'refused';
      rec.eq(['C12'], r.ok ? r.value : 'refused', want, () => `${s.t}(${s.id}) by ${u}`);
      if (may && valid) { if (add) set.add(s.id); else set.delete(s.id); }
      rec.hit(`${s.t} ${r.ok ? 'ok' : 'refused'}`);
      if (u !== FOUND && r.ok) { rec.mark('C12'); rec.hit('pool added by a factory'); }
      if (!add && had && r.ok) rec.mark('C12');
    }
    for (const id of IDS) {
      rec.eq(['C12'], chain.view(WL, 'is_whitelisted', { staking_pool_account_id: id }).value, pools.has(id), () => `is_whitelisted(${id}) after ${JSON.stringify(s)}`);
      rec.eq(['C12'], chain.view(WL, 'is_factory_whitelisted', { factory_account_id: id }).value, facs.has(id), () => `is_factory_whitelisted(${id}) after ${JSON.stringify(s)}`);
    }
  }
}
