// Wrapped NEAR: deposits, withdrawals, transfers, transfer calls with receivers that keep, return, spend or fail,
// registrations, delayed receipts; against a ledger applied to every call that reaches the contract.
import { Chain, NEAR, TGAS, jsCode, validAccountId, depositOf, HostError } from '../sim/near.mjs';
import { fc, paidInit, wasm, op, ops, boost, seq, pick, amountArb, partArb, part, big, same, show, U128, resultsArb, upArb, codeFor, upgrade } from '../sim/harness.mjs';

export const contracts = ['w-near'];
const W = 'wrap.near';
const USERS = ['alice', 'bob', 'carol.near', '98793cd91a3f870fb126f66285808c7e094afcfc4eda8a970f6648cdf0dbd6de'];
const RECV = ['recv.near', 'pot.near']; // contracts that take transfer calls
const ALL = [...USERS, ...RECV, 'plain.near', 'Bad Id', ''];
const who = fc.oneof({ weight: 6, arbitrary: pick(USERS.length) }, { weight: 2, arbitrary: pick(6) }, { weight: 1, arbitrary: pick(ALL.length) });
const one = fc.oneof({ weight: 12, arbitrary: fc.constant('1') }, { weight: 1, arbitrary: fc.constantFrom('0', '2', '1000000000000000000000000') });
const amt = fc.oneof({ weight: 5, arbitrary: partArb() }, { weight: 2, arbitrary: fc.constantFrom('all', 'all', '1/2') }, { weight: 1, arbitrary: fc.constantFrom('=' + U128, '=' + (U128 - 1n), '0') });
// What a receiver does on ft_on_transfer before it answers, and what it answers.
const act = fc.oneof(fc.constant({ t: 'none' }), fc.record({ t: fc.constant('spend'), to: pick(USERS.length), n: fc.integer({ min: 1, max: 1000 }) }), fc.record({ t: fc.constant('unwrap'), n: fc.integer({ min: 1, max: 1000 }) }),
  fc.record({ t: fc.constant('leave') }));
const answer = fc.oneof({ weight: 6, arbitrary: fc.integer({ min: 0, max: 1000 }).map((n) => ({ t: 'part', n })) }, { weight: 2, arbitrary: fc.constantFrom({ t: 'over' }, { t: 'max' }, { t: 'one' }) },
  { weight: 2, arbitrary: fc.constantFrom({ t: 'garbage', v: 'x' }, { t: 'garbage', v: 7 }, { t: 'garbage', v: null }, { t: 'garbage', v: '' }, { t: 'garbage', v: '-1' }, { t: 'empty' }) }, { weight: 2, arbitrary: fc.constant({ t: 'fail' }) });

const PROFILES = { mixed: { wrap: 3, move: 3, call: 3, store: 2 }, wrap: { wrap: 8, move: 2, call: 1, store: 2 }, calls: { wrap: 2, move: 2, call: 8, store: 2 }, storage: { wrap: 2, move: 2, call: 3, store: 8 }, moves: { wrap: 2, move: 8, call: 1, store: 1 } };
const FAVOUR = { C38: ['wrap', 'mixed', 'calls'], C39: ['moves', 'mixed'], C40: ['calls'], C44: ['storage'] };
export const arb = (job) => fc.tuple(fc.constantFrom(...(FAVOUR[job.prop] ?? Object.keys(PROFILES))), fc.oneof({ weight: 1, arbitrary: fc.constant(false) }, { weight: 1, arbitrary: fc.constant(true) })).chain(([p, delayed]) => {
  const w = PROFILES[p], x = delayed ? { wait: fc.boolean() } : {}, dep1 = { ...x, dep: one };
  return fc.record({
    profile: fc.constant(p), delayed: fc.constant(delayed), relay: fc.boolean(), ...upArb(job), rich: fc.boolean(), join: fc.oneof({ weight: 3, arbitrary: fc.constant(63) }, { weight: 1, arbitrary: fc.integer({ min: 0, max: 63 }) }),
    steps: seq(ops([
      [w.wrap * 2, op('near_deposit', { u: fc.oneof({ weight: 6, arbitrary: pick(USERS.length) }, { weight: 1, arbitrary: pick(6) }), dep: fc.oneof({ weight: 5, arbitrary: amountArb(1000n) }, { weight: 2, arbitrary: fc.constantFrom('min', 'min-1', 'min+1', '0') }), ...x })],
      [w.wrap, op('near_withdraw', { u: pick(USERS.length), amt, ...dep1 })],
      [w.move * 2, op('ft_transfer', { u: pick(USERS.length), to: who, amt, memo: fc.constantFrom(null, 'm'), ...dep1 })],
      [w.call * 2, op('ft_transfer_call', { u: pick(USERS.length), to: fc.oneof({ weight: 8, arbitrary: fc.integer({ min: 4, max: 5 }) }, { weight: 1, arbitrary: pick(ALL.length) }), amt, act, answer, ...dep1, gas: fc.constantFrom(300, 300, 300, 100, 34, 20) })],
      [w.store, op('storage_deposit', { u: pick(USERS.length), for: fc.option(who), dep: fc.oneof({ weight: 5, arbitrary: fc.constantFrom('min', 'min', 'min+1', 'min-1', '0') }, { weight: 2, arbitrary: amountArb(10n) }), only: fc.constantFrom(null, true, false), ...x })],
      [w.store * 0.7, op('storage_unregister', { u: pick(USERS.length), force: fc.constantFrom(null, false, true, true), ...dep1 })],
      [w.store * 0.2, op('storage_withdraw', { u: pick(USERS.length), amt: fc.constantFrom(null, '0', '1'), ...dep1 })],
      [boost(job, 0.5, 'C42'), op('resolve', { u: pick(6), from: pick(6), to: pick(6), amt, results: resultsArb })],
      [boost(job, 0.2, 'C41'), op('init', { u: pick(4) })],
      [boost(job, 0.3, 'C43'), op('deposit', { m: fc.constantFrom('ft_resolve_transfer', 'new') })],
      [delayed ? 8 : 0, op('deliver', { i: fc.nat({ max: 5 }) })],
    ]), 4, job.tier === 'thorough' ? 60 : 30),
  });
});

const json = (b) => { try { return JSON.parse(Buffer.from(b).toString() || '{}'); } catch { return undefined; } };
const u128 = (v) => { if (typeof v !== 'string' || !/^\+?[0-9]+$/.test(v)) return null; const n = BigInt(v.replace('+', '')); return n <= U128 ? n : null; };
class No extends Error { constructor(tag, msg) { super(msg); this.tag = tag; } }

export function run(c, rec) {
  const chain = new Chain();
  if (rec.keep) chain.trace = rec.log;
  const FUND = c.rich ? U128 / 64n : 10n ** 33n;
  chain.addAccount(W, 10n * NEAR, { code: codeFor(c, 'w_near') });
  for (const u of [...USERS, 'plain.near']) chain.addAccount(u, FUND);
  const receiver = jsCode('ft-receiver', {
    ft_on_transfer: (env, a) => {
      const { act, answer } = JSON.parse(a.msg), n = BigInt(a.amount);
      chain.lastOn = a;
      if (act.t === 'spend') env.jsCall(W, 'ft_transfer', { receiver_id: USERS[act.to], amount: String((n * BigInt(act.n)) / 1000n || 1n) }, 1n, 10n * TGAS);
      if (act.t === 'unwrap') env.jsCall(W, 'near_withdraw', { amount: String((n * BigInt(act.n)) / 1000n || 1n) }, 1n, 10n * TGAS);
      if (act.t === 'leave') env.jsCall(W, 'storage_unregister', { force: true }, 1n, 10n * TGAS);
      switch (answer.t) {
        case 'part': return String((n * BigInt(answer.n)) / 1000n);
        case 'over': return String(n + 1n > U128 ? U128 : n + 1n);
        case 'max': return String(U128);
        case 'one': return '1';
        case 'garbage': return answer.v;
        case 'empty': return undefined;
        default: throw new HostError('the receiver fails');
      }
    },
  });
  for (const r of RECV) chain.addAccount(r, FUND, { code: receiver });
  rec.check(['C41'], !chain.call('alice', W, 'near_deposit', {}, { deposit: NEAR }).ok && !chain.view(W, 'ft_total_supply').ok, 'used before initialisation');
  paidInit(chain, rec, 'alice', W, {});
  rec.check(['C41'], chain.call('alice', W, 'new', {}).ok, 'initialisation failed');
  if (c.relay) chain.relay = [...USERS, W];
  const base = chain.balance(W);
  const legacy = c.up?.legacy === true; // the oldest build: no bounds, and wrapping does not register
  const min = () => chain.view(W, 'storage_minimum_balance').value;
  const bounds = legacy ? { min: min(), max: min() } : chain.view(W, 'storage_balance_bounds').value;
  const MIN = BigInt(bounds.min);
  rec.check(['C44'], MIN > 0n && bounds.max === bounds.min && chain.view(W, 'storage_minimum_balance').value === bounds.min, () => `storage bounds ${show(bounds)}`);
  const meta = chain.view(W, 'ft_metadata').value;
  rec.check(['C38'], meta?.decimals === 24, () => `metadata ${show(meta)}`);
  let accounts = new Map(), supply = 0n, kept = 0n; // ledger; kept: tips of 1 yocto and what burnt tokens leave
  const inCall = new Map(); // resolve receipts expected

  // One call, against the ledger. Returns {out: promises to others, ret}.
  const apply = (x) => {
    const { m, a, pred, dep } = x;
    const oneYocto = (tag) => { if (dep !== 1n) throw new No(tag, 'not one yocto attached'); };
    const valid = (id) => { if (typeof id !== 'string' || !validAccountId(id)) throw new No('C39', 'not an account id'); };
    const amount = () => { const n = u128(a.amount); if (n === null) throw new No('C39', 'not an amount'); return n; };
    const take = (id, n, tag) => { const b = accounts.get(id); if (b === undefined) throw new No(tag, `${id} is not registered`); if (b < n) throw new No(tag, 'more than the balance'); accounts.set(id, b - n); };
    const give = (id, n, tag) => { const b = accounts.get(id); if (b === undefined) throw new No(tag, `${id} is not registered`); accounts.set(id, b + n); };
    const move = (tag) => {
      oneYocto(tag); valid(a.receiver_id);
      const n = amount();
      if (a.receiver_id === pred) throw new No(tag, 'to oneself');
      if (n === 0n) throw new No(tag, 'nothing');
      take(pred, n, tag); give(a.receiver_id, n, tag); kept += 1n;
      return n;
    };
    const refund = (n) => (n > 0n ? [[pred, 'transfer', null, n]] : []);
    switch (m) {
      case 'new': throw new No('C41', 'initialised twice');
      case 'near_deposit': {
        if (dep === 0n) throw new No('C38', 'nothing attached');
        let n = dep;
        if (!accounts.has(pred)) { if (dep < MIN) throw new No('C44', 'less than a registration costs'); accounts.set(pred, 0n); n -= MIN; rec.hit('registered by wrapping'); }
        give(pred, n); supply += n;
        rec.hit('wrapped'); rec.mark('C38');
        return { out: [] };
      }
      case 'near_withdraw': {
        oneYocto('C38'); const n = amount();
        if (n === 0n) return { any: true, out: [[pred, 'transfer', null, 1n]] }; // documented as refused; harmless either way
        take(pred, n, 'C38'); supply -= n;
        rec.hit('unwrapped'); rec.mark('C38');
        return { out: [[pred, 'transfer', null, n + 1n]] };
      }
      case 'ft_transfer': move('C39'); rec.hit('transfer'); rec.mark('C39'); return { out: [] };
      case 'ft_transfer_call': {
        const n = move('C40');
        if (x.gas < 32n * TGAS) throw new No('gas', 'not enough gas');
        rec.hit('transfer call'); rec.mark('C40');
        return { out: [[a.receiver_id, 'ft_on_transfer', { sender_id: pred, amount: String(n), msg: a.msg }, 0n]], resolve: [pred, a.receiver_id, String(n)] };
      }
      case 'ft_resolve_transfer': {
        if (pred !== W) throw new No('C42', 'a callback called from outside');
        const n = amount(), got = x.results[0];
        let unused = n;
        if (got !== null) { let v; try { v = JSON.parse(got); } catch { v = undefined; } const k = u128(v); if (k !== null) unused = k < n ? k : n; }
        const has = accounts.get(a.receiver_id) ?? 0n;
        const back = unused < has ? unused : has;
        let used = n;
        if (back > 0n) {
          accounts.set(a.receiver_id, has - back);
          if (accounts.has(a.sender_id)) { accounts.set(a.sender_id, accounts.get(a.sender_id) + back); used = n - back; }
          else { supply -= back; kept += back; rec.hit('burnt: the sender has gone'); }
        }
        rec.hit(got === null ? 'receiver failed' : back === n ? 'all returned' : back > 0n ? 'part returned' : 'all kept');
        if (back < unused) rec.hit('receiver could not return all');
        rec.mark('C40');
        return { out: [], ret: String(used) };
      }
      case 'storage_deposit': {
        if (a.account_id != null) valid(a.account_id);
        const id = a.account_id ?? pred;
        if (accounts.has(id)) { rec.hit('already registered'); rec.mark('C44'); return { out: refund(dep), ret: { total: String(MIN), available: '0' } }; }
        if (dep < MIN) throw new No('C44', 'less than a registration costs');
        accounts.set(id, 0n);
        rec.hit('registered'); rec.mark('C44');
        return { out: refund(dep - MIN), ret: { total: String(MIN), available: '0' } };
      }
      case 'storage_unregister': {
        oneYocto('C44');
        const b = accounts.get(pred);
        if (b === undefined) { kept += 1n; return { out: [], ret: false }; }
        if (b > 0n && a.force !== true) throw new No('C44', 'still has tokens');
        accounts.delete(pred); supply -= b; kept += b;
        rec.hit(b > 0n ? 'unregistered with tokens' : 'unregistered'); rec.mark('C44');
        return { out: refund(MIN + 1n), ret: true };
      }
      case 'storage_withdraw':
        oneYocto('C44');
        if (!accounts.has(pred)) throw new No('C44', 'not registered');
        if (a.amount != null && BigInt(a.amount) > 0n) throw new No('C44', 'nothing available');
        kept += 1n;
        return { out: [], ret: { total: String(MIN), available: '0' } };
      default: return null;
    }
  };
  const TAG = { near_deposit: 'C38', near_withdraw: 'C38', ft_transfer: 'C39', ft_transfer_call: 'C40', ft_resolve_transfer: 'C40' };
  const observe = (what, tag) => rec.all(() => {
    if (legacy && !rec.any) return;
    const own = tag === 'C38' ? ['C38', 'C44'] : [tag]; // wrapping can register
    const t = [tag, 'C38'];
    rec.eq(t, chain.view(W, 'ft_total_supply').value, String(supply), () => `total supply after ${what}`);
    let sum = 0n, registered = 0n;
    const total = BigInt(chain.view(W, 'ft_total_supply').value);
    for (const id of ALL) {
      if (!validAccountId(id)) continue;
      const held = chain.view(W, 'ft_balance_of', { account_id: id }).value, reg = chain.view(W, 'storage_balance_of', { account_id: id }).value;
      sum += BigInt(held); if (reg) registered++;
      rec.eq(own, held, String(accounts.get(id) ?? 0n), () => `balance of ${id} after ${what}`);
      rec.eq(['C44', tag], reg, accounts.has(id) ? { total: String(MIN), available: '0' } : null, () => `registration of ${id} after ${what}`);
    }
    // Whatever the ledger says: every token is somebody's, and there is NEAR for all of them and all registrations.
    rec.check(['C38'], sum === total, () => `balances add up to ${sum}, the supply is ${total}, after ${what}`);
    rec.check(['C38'], chain.balance(W) >= total + MIN * registered, () => `${chain.balance(W)} held for ${total} tokens and ${registered} registrations, after ${what}`);
    const due = base + supply + MIN * BigInt(accounts.size) + kept;
    rec.eq(t, chain.balance(W), due, () => `NEAR held by the contract after ${what}`);
  });
  chain.onReceipt = (r, err, created) => rec.all(() => {
    const x = r.actions[0];
    if (r.receiver !== W) return;
    if (x.t !== 'call') return;
    const a = json(x.args) ?? {}, m = x.method, tag = TAG[m] ?? 'C44';
    const what = `${m}(${show(a)}) by ${r.predecessor} with ${x.deposit}`;
    const save = [new Map(accounts), supply, kept];
    const undo = () => { [accounts, supply, kept] = save; };
    let want = null, no = null;
    try {
      if (x.deposit > 0n && (m === 'ft_resolve_transfer' || m === 'new')) throw new No('C43', 'a deposit is attached');
      want = apply({ m, a, pred: r.predecessor, dep: x.deposit, gas: x.gas, results: r.inputs.map((d) => { const v = r.data.get(d); return v === null ? null : Buffer.from(v).toString(); }) });
    } catch (e) { if (!(e instanceof No)) throw e; no = e; }
    if (no) {
      undo();
      if (no.tag === 'gas') { rec.check(['C40'], err !== null, () => 'ran out of gas silently'); return; }
      rec.check([no.tag, tag], err !== null, () => `${what} accepted although: ${no.message}`);
      rec.hit('refused: ' + no.message.replace(/^\S+ is not/, 'an account is not')); rec.mark(no.tag);
      if (r.predecessor === W && m === 'ft_resolve_transfer') rec.check(['C40'], false, () => `the resolution ${what} is impossible`);
      observe(what, tag);
      return;
    }
    if (err !== null) {
      undo();
      const fine = want.any || (m === 'ft_transfer_call' && x.gas < 45n * TGAS) || (c.rich && /overflow|Balance|panic/i.test(err) && overflows(m, a, x.deposit));
      if (m === 'ft_resolve_transfer' || !fine) rec.check([tag], false, () => `${what} refused: ${err}`);
      observe(what, tag);
      return;
    }
    const out = created.filter((y) => y.receiver !== W && y.actions.length).map((y) => { const z = y.actions[0]; return [y.receiver, z.t === 'call' ? z.method : z.t, z.t === 'call' ? json(z.args) : null, depositOf(y)]; });
    rec.check([tag], same(out, want.out), () => `${what} sent ${show(out)}, expected ${show(want.out)}`);
    const back = created.filter((y) => y.receiver === W && y.actions[0]?.t === 'call').map((y) => { const z = json(y.actions[0].args); return [y.actions[0].method, z.sender_id, z.receiver_id, z.amount]; });
    if (m !== 'ft_transfer_call') rec.check([tag], back.length === 0, () => `${what} called itself back: ${show(back)}`);
    if (want.ret !== undefined && !(legacy && !rec.any)) rec.eq([tag], json(chain.first(r.id).value ?? new Uint8Array()), want.ret, () => `answer of ${what}`);
    observe(what, tag);
  });
  const overflows = () => false;
  const send = (u, m, args, s, dep, gas = 300n) => {
    const id = chain.send(u, W, m, args, { deposit: dep, gas: gas * TGAS, results: s.results });
    if (id === null) return null;
    if (!c.delayed) chain.settle(); else if (!s.wait) chain.run(chain.pending[chain.pending.length - 1]);
    return id;
  };
  const depOf = (d) => d === 'min' ? MIN : d === 'min-1' ? MIN - 1n : d === 'min+1' ? MIN + 1n : big(d);
  const bal = (u) => accounts.get(u) ?? 0n;
  const cap = (n) => String(n > U128 ? U128 : n < 0n ? 0n : n);
  observe('initialisation', 'C38');
  // Some are registered from the start, some have tokens.
  if (legacy) [...USERS, ...RECV].forEach((u, i) => { if (c.join >> i & 1) chain.call(u, W, 'storage_deposit', { account_id: u }, { deposit: MIN }); });
  [...USERS, ...RECV].forEach((u, i) => { if (c.join >> i & 1) chain.call(u, W, 'near_deposit', {}, { deposit: MIN + BigInt(i === 5 ? 0 : i + 1) * (c.rich && i === 1 ? U128 / 640n : NEAR) }); });
  const calls = [];
  const up = (at) => {
    if (!c.up || rec.any) return;
    upgrade(c, rec, chain, W, 'w_near', legacy ? 99 : at);
    if (!rec.any) return;
    rec.eq(['C44'], chain.view(W, 'storage_balance_bounds').value, { min: String(MIN), max: String(MIN) }, 'storage bounds after the upgrade');
    rec.eq(['C44'], min(), String(MIN), 'the least storage balance after the upgrade');
    if (legacy) { rec.hit('upgraded from the oldest build'); rec.mark('C51'); }
    observe('the upgrade', 'C38');
  };
  for (const [at, s] of c.steps.entries()) {
    up(at);
    const u = s.u === undefined ? null : ALL[s.u];
    switch (s.t) {
      case 'near_deposit': send(u, s.t, {}, s, depOf(s.dep)); break;
      case 'near_withdraw': send(u, s.t, { amount: cap(part(s.amt, bal(u))) }, s, big(s.dep)); break;
      case 'ft_transfer': send(u, s.t, { receiver_id: ALL[s.to], amount: cap(part(s.amt, bal(u))), memo: s.memo }, s, big(s.dep)); break;
      case 'ft_transfer_call': {
        const amount = cap(part(s.amt, bal(u)));
        const before = new Map(accounts), sup = supply;
        const id = send(u, s.t, { receiver_id: ALL[s.to], amount, memo: null, msg: JSON.stringify({ act: s.act, answer: s.answer }) }, s, big(s.dep), BigInt(s.gas));
        if (id !== null && !c.delayed && s.act.t === 'none') {
          // End to end, when nothing else is under way: what is used stays with the receiver, the rest comes back.
          const o = chain.result(id);
          if (o.ok) {
            const n = BigInt(amount), used = BigInt(o.value);
            rec.check(['C40'], used <= n && bal(u) === (before.get(u) ?? 0n) - used && bal(ALL[s.to]) === (before.get(ALL[s.to]) ?? 0n) + used && supply === sup,
              () => `${u} sent ${n} to ${ALL[s.to]}, ${used} reported used, balances from ${show([...before])} to ${show([...accounts])}`);
            if (s.answer.t === 'part') rec.check(['C40'], used === n - (n * BigInt(s.answer.n)) / 1000n || !RECV.includes(ALL[s.to]) || s.gas < 50, () => `${used} used of ${n} with ${show(s.answer)}`);
          }
        }
        break;
      }
      case 'storage_deposit': send(u, s.t, { account_id: s.for === null ? null : ALL[s.for], registration_only: s.only }, s, depOf(s.dep)); break;
      case 'storage_unregister': send(u, s.t, { force: s.force }, s, big(s.dep)); break;
      case 'storage_withdraw': send(u, s.t, { amount: s.amt }, s, big(s.dep)); break;
      case 'resolve': send(u, 'ft_resolve_transfer', { sender_id: ALL[s.from], receiver_id: ALL[s.to], amount: cap(part(s.amt, bal(ALL[s.to]))) }, { results: s.results }, 0n); break;
      case 'init': send(u, 'new', {}, {}, 0n); break;
      case 'deposit': send('alice', s.m, { sender_id: 'alice', receiver_id: 'bob', amount: '1' }, {}, 1n); break;
      case 'deliver': chain.deliver(s.i); break;
    }
  }
  up(c.steps.length);
  chain.settle();
  observe('the last step', 'C38');
  // Everyone can get out, for exactly what they hold.
  for (const [id, b] of [...accounts].sort()) {
    if (b === 0n || !chain.acc(id)) continue;
    const near = chain.balance(id);
    rec.check(['C38'], chain.call(id, W, 'near_withdraw', { amount: String(b) }, { deposit: 1n }).ok, () => `${id} cannot unwrap ${b}`);
    rec.eq(['C38'], chain.balance(id) - near, b, () => `what ${id} got for ${b}`);
    rec.hit('unwrapped at the end');
  }
  rec.eq(['C38'], chain.view(W, 'ft_total_supply').value, '0', 'supply after everyone has unwrapped');
  rec.check(['C38'], chain.supply() === chain.minted, 'NEAR appeared or disappeared');
}
