// Multisig, both versions: a model of requests, confirmations, limits and members, applied to every call that
// reaches the contract, predicts acceptance, the views, and exactly which receipt (if any) the contract sends.
import { Chain, NEAR, TGAS, testKey, validAccountId, depositOf, jsCode } from '../sim/near.mjs';
import { fc, paidInit, wasm, op, ops, boost, seq, pick, amountArb, same, show, upArb, codeFor, upgrade } from '../sim/harness.mjs';

export const MS = 'ms.near';
const ACCOUNTS = ['alice', 'bob', 'carol', '98793cd91a3f870fb126f66285808c7e094afcfc4eda8a970f6648cdf0dbd6de', 'mallory'];
const KEYS = Array.from({ length: 8 }, (_, i) => testKey('ms-key-' + i)); // 0..4 members; 5..7 by AddKey; 5 full access at first
const METHODS = ['add_request', 'delete_request', 'confirm', 'add_request_and_confirm'];
const COOLDOWN = 900000000000n;
const RECEIVERS = ['bob', 'target.near', 'sub.ms.near', 'a'.repeat(64), 'nobody.near', 'Bad Id', '', 'x'];
const CROWD = Array.from({ length: 20 }, (_, i) => 'm' + (i + 10)), CROWDKEYS = CROWD.map((x) => testKey('ms-' + x));
const b64 = (s) => Buffer.from(typeof s === 'number' ? Array.from({ length: s }, (_, i) => String.fromCharCode(33 + i * 7 % 94)).join('') : s).toString('base64'); // a number: that many bytes
const te = new TextEncoder();

// ---- generators: actions are abstract, made concrete when the request is built -----------------------
const keyIx = fc.oneof({ weight: 5, arbitrary: pick(5) }, { weight: 1, arbitrary: pick(8) });
const memberArb = fc.oneof(fc.record({ a: pick(5) }), fc.record({ k: pick(5) }));
const gasArb = fc.constantFrom('10000000000000', '100000000000000', '280000000000000', '298000000000000', '298000000000001', '1', '18446744073709551615');
const payArb = fc.oneof(
  { weight: 6, arbitrary: op('Transfer', { amount: amountArb(60n) }) },
  { weight: 1, arbitrary: op('Transfer', { amount: fc.constantFrom('340282366920938463463374607431768211455', '1000000000000000000000000000000') }) },
  { weight: 3, arbitrary: op('FunctionCall', { method_name: fc.constantFrom('work', 'work', 'fail', 'missing', ''), args: fc.constantFrom('{}', '', '{"a":[1]}', '\u0001raw', '{}', '', '{"a":[1]}', '\u0001raw', 700, 5000, 30000), deposit: fc.oneof(fc.constant('0'), amountArb(20n)), gas: gasArb }) },
  { weight: 2, arbitrary: op('CreateAccount') },
  { weight: 1, arbitrary: op('DeployContract', { code: fc.constantFrom('', 'not wasm', '\u0000asm', 20000) }) },
);
// Mostly short lists, sometimes long ones.
const some = (arb, min, max) => fc.oneof({ weight: 12, arbitrary: fc.array(arb, { minLength: min, maxLength: max, size: 'max' }) }, { weight: 1, arbitrary: fc.array(arb, { minLength: max + 1, maxLength: 14, size: 'max' }) });
const v1 = (job) => job.scenario === 'multisig1';
const selfCall = op('SelfCall', { m: fc.constantFrom('confirm', 'confirm', 'delete_request', 'add_request', 'add_request_and_confirm', 'get_num_confirmations'), r: fc.nat({ max: 12 }), deposit: fc.constantFrom('0', '0', '0', '1'), gas: fc.constantFrom('20000000000000', '100000000000000') });
const adminArb = (one) => fc.oneof(
  ...(one ? [
    { weight: 3, arbitrary: op('AddKey', { k: pick(8), perm: fc.boolean(), allowance: fc.constantFrom(null, '0', '250000000000000000000000'), names: fc.constantFrom([], ['confirm'], METHODS), to: fc.constantFrom(MS, MS, 'bob', 'Bad Id') }) },
    { weight: 4, arbitrary: op('DeleteKey', { k: keyIx }) },
  ] : [
    { weight: 4, arbitrary: op('AddMember', { m: memberArb }) },
    { weight: 4, arbitrary: op('DeleteMember', { m: memberArb }) },
    { weight: 1, arbitrary: op('AddKey', { k: fc.constantFrom(5, 6, 7), perm: fc.boolean(), allowance: fc.constantFrom(null, '0', '250000000000000000000000'), names: fc.constantFrom([], ['confirm'], METHODS), to: fc.constantFrom(MS, 'bob') }) },
  ]),
  { weight: 1, arbitrary: op('Transfer', { amount: amountArb(3n) }) },
  { weight: 4, arbitrary: selfCall },
);
const setArb = fc.oneof(
  { weight: 3, arbitrary: op('SetNumConfirmations', { n: fc.oneof({ weight: 8, arbitrary: fc.constantFrom(0, 1, 2, 3, 4, 5, 6, 20) }, { weight: 1, arbitrary: fc.constantFrom(256, 257, 258, 65536, 65537, 65538, 4294967295) }) }) },
  { weight: 1, arbitrary: op('SetActiveRequestsLimit', { n: fc.constantFrom(0, 1, 2, 3, 12, 13, 4294967295) }) },
);
const requestArb = (one) => fc.oneof(
  { weight: 6, arbitrary: fc.record({ to: fc.oneof({ weight: 6, arbitrary: pick(4) }, { weight: 1, arbitrary: pick(RECEIVERS.length) }), actions: some(payArb, 0, 4) }) },
  { weight: 5, arbitrary: fc.record({ to: fc.constant(-1), actions: some(adminArb(one), 1, 3) }) },
  { weight: 3, arbitrary: fc.record({ to: fc.constant(-1), actions: setArb.map((a) => [a]) }) },
  { weight: 1, arbitrary: fc.record({ to: fc.oneof(fc.constant(-1), pick(4)), actions: fc.array(fc.oneof(payArb, adminArb(one), setArb), { minLength: 1, maxLength: 3, size: 'max' }) }) },
);
const userArb = fc.oneof(
  { weight: 5, arbitrary: fc.record({ k: pick(4) }) },
  { weight: 5, arbitrary: fc.record({ a: pick(3) }) },
  { weight: 1, arbitrary: fc.record({ k: pick(8) }) },
  { weight: 1, arbitrary: fc.record({ a: pick(5) }) },
  { weight: 1, arbitrary: fc.record({ a: pick(5), evil: fc.constant(true) }) }, // through a contract
);
const userArb1 = fc.oneof({ weight: 12, arbitrary: fc.record({ k: pick(4) }) }, { weight: 1, arbitrary: fc.record({ k: pick(8) }) },
  { weight: 2, arbitrary: fc.oneof(fc.record({ a: pick(5) }), fc.record({ a: pick(5), evil: fc.constant(true) }), fc.record({ k: pick(5), evil: fc.constant(true) })) });
const gas = fc.constantFrom(300, 300, 300, 100, 20);
// C54: gas enough for what is asked for.
const ample = (c) => JSON.parse(JSON.stringify(c), (k, v) => (k !== 'gas' ? v : typeof v === 'number' ? 300 : BigInt(v) > 10n * TGAS ? (v === '20000000000000' || v === '100000000000000' ? '100000000000000' : '10000000000000') : v));
export const arb = (job) => (job.prop === 'C54' ? arbFor(job).map(ample) : arbFor(job));
const arbFor = (job) => {
  const one = v1(job), user = one ? userArb1 : userArb;
  const rid = fc.oneof({ weight: 8, arbitrary: fc.nat({ max: 12 }) }, { weight: 1, arbitrary: fc.constantFrom(99, 4294967295) });
  return fc.record({
    k: fc.oneof({ weight: 8, arbitrary: fc.integer({ min: 1, max: 4 }) }, { weight: 1, arbitrary: fc.constantFrom(0, 5, 8, 257, 258, 65538, 4294967295) }),
    // a large membership, and as large a number of confirmations
    crowd: fc.oneof({ weight: 11, arbitrary: fc.constant(null) }, { weight: 1, arbitrary: fc.record({ n: fc.constantFrom(6, 9, 14, 20), less: fc.integer({ min: 0, max: 4 }) }) }),
    members: fc.oneof({ weight: 4, arbitrary: fc.constant([{ a: 0 }, { a: 1 }, { k: 0 }, { k: 1 }]) },
      { weight: 2, arbitrary: fc.uniqueArray(memberArb, { minLength: 0, maxLength: 6, selector: (m) => JSON.stringify(m) }) }, { weight: 1, arbitrary: fc.array(memberArb, { maxLength: 5 }) }),
    full: fc.constant(one && job.prop === 'C43'), // a full access key, without which nothing can be attached
    relay: fc.boolean(), ...upArb(job), limit: fc.constantFrom(null, null, null, 2, 3),
    delayed: fc.oneof({ weight: 2, arbitrary: fc.constant(false) }, { weight: 1, arbitrary: fc.constant(true) }),
    steps: seq(ops([
      [6, op('add', { u: user, req: requestArb(one), gas })],
      [5, op('addConfirm', { u: user, req: requestArb(one), gas })],
      [12, op('confirm', { u: user, r: rid, gas })],
      [5, op('everyone', { r: rid, from: pick(8), n: fc.integer({ min: 1, max: 8 }) })],
      [3, op('delete', { u: user, r: rid })],
      [boost(job, 0.6, 'C20'), op('leaves', { u: pick(8), n: fc.constantFrom(0, 1, 2, 4, 8, 12) })],
      [2, op('time', { ns: fc.constantFrom('1', '899999999999', '900000000000', '900000000001', '1', '450000000000') })],
      [1, op('burst', { u: user, n: fc.integer({ min: 2, max: 14 }) })],
      [boost(job, 0.5, 'C43'), op('deposit', { u: fc.record({ a: fc.oneof(pick(2), pick(5)) }), m: fc.constantFrom(...METHODS), r: rid, late: fc.boolean() })],
      [boost(job, 0.5, 'C41'), op('init', { u: user, k: pick(5) })],
      [4, op('deliver', { i: fc.nat({ max: 6 }) })],
    ]), 6, job.tier === 'thorough' ? 60 : 36),
  });
};

// ---- the model -----------------------------------------------------------------------------------------
class Refused extends Error { constructor(props, msg) { super(msg); this.props = props; } }
class Model {
  constructor(one, P) { this.one = one; this.P = P; this.k = 0; this.nonce = 0; this.limit = 12; this.reqs = new Map(); this.counts = new Map(); this.members = new Set(); }
  copy() {
    const m = new Model(this.one, this.P);
    Object.assign(m, this);
    m.reqs = new Map([...this.reqs].map(([id, r]) => [id, { ...r, conf: new Set(r.conf) }]));
    m.counts = new Map(this.counts); m.members = new Set(this.members);
    return m;
  }
  who(pred, pk) {
    const { quorum } = this.P;
    if (this.one) { if (pred !== MS) throw new Refused(quorum, 'not the account itself'); return pk; }
    const w = pred === MS ? JSON.stringify({ public_key: pk }) : JSON.stringify({ account_id: pred });
    if (!this.members.has(w)) throw new Refused(quorum, 'not a member');
    return w;
  }
  add(who, request, time) {
    const n = (this.counts.get(who) ?? 0) + 1;
    if (n > this.limit) throw new Refused(this.P.limits, 'too many active requests');
    this.counts.set(who, n);
    this.reqs.set(this.nonce, { request, who, time, conf: new Set() });
    return this.nonce++;
  }
  drop(id) {
    const r = this.reqs.get(id);
    this.reqs.delete(id);
    this.counts.set(r.who, Math.max(0, (this.counts.get(r.who) ?? 0) - 1));
    return r;
  }
  find(id) {
    if (!this.reqs.has(id)) throw new Refused(this.P.exec, 'no such request');
    return this.reqs.get(id);
  }
  del(id, time) {
    const r = this.find(id);
    if (!(time > r.time + COOLDOWN)) throw new Refused(this.P.limits, 'too soon to delete');
    this.drop(id);
    return r.request;
  }
  // Adds the confirmation; returns what has to be sent when it is the last one needed.
  confirm(who, id, env) {
    const r = this.find(id);
    if (r.conf.has(who)) throw new Refused(this.P.quorum, 'confirmed twice');
    if (r.conf.size + 1 < this.k) { r.conf.add(who); return null; }
    this.drop(id);
    env.executed = { confirmations: r.conf.size + 1, request: r.request };
    return this.execute(r.request, env);
  }
  forget(who) {
    for (const [id, r] of [...this.reqs]) if (r.who === who) { this.reqs.delete(id); this.event = 'requests of a removed member dropped'; }
    this.counts.delete(who);
  }
  execute(q, env) {
    const { exec, admin, members } = this.P;
    const out = [];
    let set = false;
    const self = () => { if (q.receiver_id !== MS) throw new Refused(admin, 'administration for another account'); };
    if (!validAccountId(q.receiver_id)) throw new Refused(exec, 'bad receiver');
    for (const a of q.actions) {
      switch (a.type) {
        case 'Transfer': out.push({ t: 'transfer', deposit: BigInt(a.amount) }); break;
        case 'CreateAccount': out.push({ t: 'create' }); break;
        case 'DeployContract': out.push({ t: 'deploy', code: new Uint8Array(Buffer.from(a.code, 'base64')) }); break;
        case 'FunctionCall':
          if (a.method_name === '') throw new Refused(exec, 'no method');
          out.push({ t: 'call', method: a.method_name, args: new Uint8Array(Buffer.from(a.args, 'base64')), deposit: BigInt(a.deposit), gas: BigInt(a.gas) });
          break;
        case 'AddKey':
          self();
          if (a.permission && !validAccountId(a.permission.receiver_id)) throw new Refused(exec, 'bad receiver in a permission');
          out.push({ t: 'addkey', pk: a.public_key, permission: a.permission ? { receiver: a.permission.receiver_id, methods: a.permission.method_names, allowance: BigInt(a.permission.allowance ?? 0) } : 'full' });
          break;
        case 'DeleteKey':
          self();
          this.forget(a.public_key);
          out.push({ t: 'delkey', pk: a.public_key });
          break;
        case 'AddMember':
          self();
          this.members.add(JSON.stringify(a.member));
          if (a.member.public_key) out.push({ t: 'addkey', pk: a.member.public_key, permission: { receiver: MS, methods: METHODS, allowance: 0n } });
          break;
        case 'DeleteMember': {
          self();
          if (this.members.size - 1 < this.k) throw new Refused(members, 'fewer members than confirmations');
          const w = JSON.stringify(a.member);
          this.forget(w);
          this.members.delete(w);
          if (a.member.public_key) out.push({ t: 'delkey', pk: a.member.public_key });
          break;
        }
        case 'SetNumConfirmations': case 'SetActiveRequestsLimit':
          self();
          if (q.actions.length !== 1) throw new Refused(admin, 'setting bundled with other actions');
          set = true;
          if (a.type === 'SetActiveRequestsLimit') this.limit = a.active_requests_limit;
          else {
            if (!this.one && this.members.size < a.num_confirmations) throw new Refused(members, 'more confirmations than members');
            this.k = a.num_confirmations;
          }
      }
    }
    if (set) return { to: q.receiver_id, actions: [] };
    let dep = 0n, g = 0n;
    for (const x of out) { dep += x.deposit ?? 0n; g += x.gas ?? 0n; }
    if (g > env.gas) throw new Refused(exec, 'more gas than there is');
    if (dep > env.balance) throw new Refused(exec, 'more than the balance');
    env.balance -= dep; env.gas -= g;
    return { to: q.receiver_id, actions: out };
  }
}
const parses = (q, one) => one || (validAccountId(q.receiver_id) && q.actions.every((a) => !a.permission || validAccountId(a.permission.receiver_id)));

// ---- running a case --------------------------------------------------------------------------------------
export const make = (one) => {
  const P = one ? { quorum: ['C15'], exec: ['C16'], limits: ['C17'], admin: ['C17'], members: ['C17'], keys: ['C17'], shown: ['C49'] }
    : { quorum: ['C18'], exec: ['C19'], limits: ['C21'], admin: ['C19', 'C20'], members: ['C20'], keys: ['C22'], shown: ['C49'] };
  const ALL = [...new Set(Object.values(P).flat())];
  return { contracts: [one ? 'multisig' : 'multisig2'], arb, run: (c, rec) => run(c, rec, one, P, ALL) };
};

function run(c, rec, one, P, ALL) {
  const chain = new Chain();
  if (rec.keep) chain.trace = rec.log;
  const crowd = c.crowd ? CROWD.slice(0, c.crowd.n).map((_, i) => ({ c: i })) : [];
  const k0 = c.crowd ? c.crowd.n - c.crowd.less : c.k;
  const keyPerm = { receiver: MS, methods: METHODS, allowance: 0n };
  chain.addAccount(MS, 120n * NEAR, { code: codeFor(c, one ? 'multisig' : 'multisig2'),
    keys: one ? [...[0, 1, 2, 3].map((i) => ({ pk: KEYS[i], permission: keyPerm })), ...crowd.map((u) => ({ pk: CROWDKEYS[u.c], permission: keyPerm })), ...(c.full ? [{ pk: KEYS[7], permission: 'full' }] : [])] : [{ pk: KEYS[5], permission: 'full' }] });
  for (const a of [...ACCOUNTS, ...(one ? [] : crowd.map((u) => CROWD[u.c]))]) chain.addAccount(a, 50n * NEAR);
  chain.addAccount('target.near', 5n * NEAR, { code: jsCode('target', { work: () => 1, fail: () => { throw new WebAssembly.RuntimeError('no'); } }) });
  chain.addAccount('evil.near', 5n * NEAR, { code: jsCode('evil', { poke: (env, a) => { env.jsReturn(env.jsCall(MS, a.method, a.args, 0n, 100n * TGAS)); } }) });

  const member = (m) => m.a !== undefined ? { account_id: ACCOUNTS[m.a] } : { public_key: KEYS[m.k] };
  const ids = () => [...model.reqs.keys()];
  const ridOf = (r) => { const l = ids(); return r > 12 ? r : l.length && r < 11 ? l[r % l.length] : r; };
  const build = (req) => ({
    receiver_id: req.to < 0 ? MS : RECEIVERS[req.to],
    actions: req.actions.map((a) => {
      switch (a.t) {
        case 'Transfer': return { type: a.t, amount: a.amount };
        case 'CreateAccount': return { type: a.t };
        case 'DeployContract': return req.to < 0 ? { type: 'CreateAccount' } : { type: a.t, code: b64(a.code) };
        case 'FunctionCall': return { type: a.t, method_name: a.method_name, args: b64(a.args), deposit: a.deposit, gas: a.gas };
        case 'SelfCall': {
          const args = a.m.startsWith('add') ? { request: { receiver_id: 'bob', actions: [{ type: 'Transfer', amount: '1' }] } } : { request_id: ridOf(a.r) };
          return { type: 'FunctionCall', method_name: a.m, args: b64(JSON.stringify(args)), deposit: a.deposit, gas: a.gas };
        }
        case 'AddKey': return { type: a.t, public_key: KEYS[a.k], ...(a.perm ? { permission: { allowance: a.allowance, receiver_id: a.to, method_names: a.names } } : {}) };
        case 'DeleteKey': return { type: a.t, public_key: KEYS[a.k] };
        case 'AddMember': case 'DeleteMember': return { type: a.t, member: member(a.m) };
        case 'SetNumConfirmations': return { type: a.t, num_confirmations: a.n };
        case 'SetActiveRequestsLimit': return { type: a.t, active_requests_limit: a.n };
      }
    }),
  });

  // -- initialisation
  rec.check(['C41'], !chain.call(MS, MS, 'add_request', { request: { receiver_id: 'bob', actions: [] } }, { pk: KEYS[one ? 0 : 5] }).ok, 'used before initialisation');
  const names = [...c.members.map(member), ...crowd.map((u) => ({ account_id: CROWD[u.c] }))];
  const distinct = new Set(names.map((x) => JSON.stringify(x)));
  let model = new Model(one, P);
  let sent = [];
  chain.onReceipt = (r, err, created) => { sent.push(...created.filter((x) => x.actions.length)); };
  paidInit(chain, rec, ACCOUNTS[3], MS, one ? { num_confirmations: k0 } : { members: names, num_confirmations: k0 });
  const r0 = chain.call(ACCOUNTS[3], MS, 'new', one ? { num_confirmations: k0 } : { members: names, num_confirmations: k0 });
  const wantInit = one || distinct.size >= k0;
  rec.eq(one ? P.quorum : P.members, r0.ok, wantInit, () => `initialisation with ${show(names)} and ${k0} confirmations`);
  if (!wantInit) { rec.hit('initialisation refused'); rec.mark(...P.members); return; }
  model.k = k0;
  if (!one) {
    for (const x of distinct) model.members.add(x);
    const added = sent.flatMap((x) => x.actions);
    const pks = [...distinct].map((x) => JSON.parse(x).public_key).filter(Boolean);
    rec.eq(P.keys, [...new Set(added.map((a) => a.pk))].sort(), pks.sort(), 'keys added by the initialisation');
    for (const a of added) rec.eq(P.keys, [a.t, a.permission], ['addkey', keyPerm], () => 'access key of member ' + a.pk);
    rec.eq(P.keys, sent.every((x) => x.receiver === MS), true, 'the receiver of what the initialisation sent');
  }
  if (c.relay) chain.relay = [[MS, KEYS[0]], [MS, KEYS[1]], ...ACCOUNTS];
  const observe = (what, tags = []) => rec.all(() => {
    const v = (m, a) => chain.view(MS, m, a ?? {}).value;
    rec.eq([...P.exec, ...P.shown, ...tags], v('list_request_ids')?.slice().sort((a, b) => a - b), ids().sort((a, b) => a - b), () => `open requests after ${what}`);
    for (const [id, r] of model.reqs) {
      if (!r.seen || rec.wants('C49')) { r.seen = true; rec.eq([...P.exec, ...P.shown], v('get_request', { request_id: id }), r.request, () => `request ${id} after ${what}`); }
      rec.eq([...P.quorum, ...P.shown], v('get_confirmations', { request_id: id })?.slice().sort(), [...r.conf].sort(), () => `confirmations of request ${id} after ${what}`);
    }
    if (model.reqs.size > 1 && model.nonce > model.reqs.size) { rec.hit('several requests open after others are gone'); rec.mark('C49'); }
    // A request that is gone left nothing behind: neither itself nor its confirmations.
    for (let id = Math.max(0, model.nonce - 4); id < model.nonce; id++) {
      if (model.reqs.has(id)) continue;
      for (const m of ['get_request', 'get_confirmations']) rec.check([...P.exec, ...P.shown, ...tags], !chain.view(MS, m, { request_id: id }).ok, () => `${m} still answers for request ${id}, which is gone, after ${what}`);
    }
    rec.eq([...P.quorum, ...P.members], v('get_num_confirmations'), model.k, () => `confirmations needed after ${what}`);
    rec.eq([...P.exec, ...P.quorum, ...P.shown], v('get_request_nonce'), model.nonce, () => `next request number after ${what}`);
    for (let i = 0; i < 5; i++) {
      const w = one ? KEYS[i] : JSON.stringify({ public_key: KEYS[i] });
      rec.eq(P.limits, v(...(one ? ['get_num_requests_pk', { public_key: KEYS[i] }] : ['get_num_requests_per_member', { member: JSON.parse(w) }])), model.counts.get(w) ?? 0, () => `active requests of ${w} after ${what}`);
    }
    if (!one) {
      for (const a of ACCOUNTS) rec.eq(P.limits, v('get_num_requests_per_member', { member: { account_id: a } }), model.counts.get(JSON.stringify({ account_id: a })) ?? 0, () => `active requests of ${a} after ${what}`);
      rec.eq(P.members, v('get_members').map((x) => JSON.stringify(x)).sort(), [...model.members].sort(), () => `members after ${what}`);
    }
  });
  const checkKeys = () => {
    if (one) return;
    for (const [pk, p] of chain.acc(MS).keys) if (KEYS.indexOf(pk) < 5) rec.eq(P.keys, p, keyPerm, () => 'access key ' + pk);
  };

  // -- every call that reaches the contract
  const apply = (m, r, x, env) => {
    let args;
    try { args = JSON.parse(Buffer.from(x.args).toString()); } catch { args = null; }
    if (METHODS.includes(x.method) && x.deposit > 0n) throw new Refused(['C43'], 'deposit');
    const q = args?.request, id = args?.request_id;
    switch (x.method) {
      case 'add_request': case 'add_request_and_confirm': {
        if (!parses(q, one)) throw new Refused(P.exec, 'bad account id');
        const who = m.who(r.predecessor, r.signerPk);
        const n = m.add(who, q, chain.time);
        return { value: n, out: x.method === 'add_request' ? null : m.confirm(who, n, env) };
      }
      case 'confirm': { const who = m.who(r.predecessor, r.signerPk); return { out: m.confirm(who, id, env) }; }
      case 'delete_request': { m.who(r.predecessor, r.signerPk); const q = m.del(id, chain.time); return one ? { out: null, value: q } : { out: null }; }
      case 'new': throw new Refused(['C41'], 'initialised twice');
      case 'get_num_confirmations': return { out: null, value: m.k };
      default: throw new Refused(P.quorum, 'unknown method');
    }
  };
  chain.onReceipt = (r, err, created) => rec.all(() => {
    if (r.receiver !== MS || !r.actions.some((x) => x.t === 'call')) return;
    const what = `${r.actions.map((x) => x.t === 'call' ? x.method : x.t).join('+')} by ${r.predecessor} (${KEYS.indexOf(r.signerPk)})`;
    const out = created.filter((x) => x.actions.length);
    const m = model.copy();
    let outflow = 0n;
    for (const x of out) outflow += depositOf(x);
    let refused = null;
    const expected = [], done = [];
    let value;
    let balance = chain.balance(MS) + outflow;
    for (const x of r.actions) {
      if (x.t !== 'call') continue;
      const env = { gas: x.gas - chain.burn, balance };
      try { const res = apply(m, r, x, env); value = res.value; if (res.out) expected.push(res.out); } catch (e) { if (!(e instanceof Refused)) throw e; refused = e; break; }
      balance = env.balance;
      if (env.executed) done.push(env.executed);
    }
    const single = r.actions.length === 1;
    if (refused) {
      rec.check(refused.props, err !== null, () => `${what} accepted although: ${refused.message}`);
      rec.hit('refused: ' + refused.message);
      if (refused.message === 'confirmed twice' || refused.message === 'not a member' || refused.message === 'not the account itself') rec.mark(...P.quorum);
      if (refused.props === P.limits) rec.mark(...P.limits);
      if (refused.props === P.members) rec.mark(...P.members);
      if (refused.props === P.exec || refused.props === P.admin) rec.mark(...P.exec);
      if (refused.props[0] === 'C43') rec.mark('C43');
    } else if (err !== null) {
      const excuse = !single || /LackBalanceForState/.test(err);
      const meth = r.actions.find((x) => x.t === 'call').method;
      rec.check(meth === 'delete_request' ? P.limits : done.length ? [...P.exec, ...P.admin, ...P.members] : [...P.quorum, ...P.limits], excuse, () => `${what} refused: ${err}`);
    } else {
      model = m;
      if (model.event) { rec.hit(model.event); rec.mark(...P.limits); model.event = null; }
      for (const d of done) {
        rec.hit('executed with ' + (d.confirmations > 8 ? 'more than 8' : Math.min(d.confirmations, 4)) + ' confirmations');
        if (d.confirmations > 1) rec.mark(...P.quorum);
        if (d.request.actions.length > 1) rec.mark(...P.exec);
        if (d.request.actions.length > 4) rec.hit('executed more than 4 actions');
        for (const a of d.request.actions) { rec.hit('executed ' + a.type); if (/Member|SetNum/.test(a.type)) rec.mark(...P.members); }
        if (one && /Key|Set/.test(d.request.actions[0]?.type)) rec.mark('C17');
      }
      if (single && value !== undefined && chain.first(r.id).status === 'value') rec.eq(value?.receiver_id ? P.limits : P.exec, parse(chain.first(r.id).value), value, () => `value returned by ${what}`);
      const want = expected.filter((x) => x.actions.length);
      if (!want.length) rec.check(done.length ? P.exec : P.quorum, out.length === 0, () => `${what} sent ${show(out.map((x) => [x.receiver, x.actions]))} with ${done.length ? 'nothing to send' : 'no request confirmed'}`);
      else {
        rec.check(P.exec, out.length === want.length, () => `${what} sent ${out.length} receipts, expected ${want.length}`);
        out.forEach((x, i) => rec.check([...P.exec, ...(want[i].actions.some((y) => y.t === 'addkey') ? P.keys : [])], x.receiver === want[i].to && same(norm(x.actions), norm(want[i].actions)),
          () => `${what} sent ${x.receiver} ${show(norm(x.actions))}, the request was for ${want[i].to} ${show(norm(want[i].actions))}`));
      }
    }
    observe(what, done.some((d) => d.request.actions.some((a) => /^Delete/.test(a.type))) ? [...P.members, ...P.limits] : []);
  });
  observe('initialisation');

  const settle = () => { if (!c.delayed) chain.settle(); };
  const act = (u, method, args, g = 300) => {
    if (u.c !== undefined) {
      chain.send(one ? MS : CROWD[u.c], MS, method, args, { gas: BigInt(g) * TGAS, ...(one ? { pk: CROWDKEYS[u.c] } : {}) });
    } else if (u.evil) {
      chain.send(u.a !== undefined ? ACCOUNTS[u.a] : MS, 'evil.near', 'poke', { method, args }, { gas: 250n * TGAS, pk: null });
      rec.hit('through another contract');
    } else if (u.a !== undefined) chain.send(ACCOUNTS[u.a], MS, method, args, { gas: BigInt(g) * TGAS });
    else {
      const pk = KEYS[u.k];
      const id = chain.send(MS, MS, method, args, { gas: BigInt(g) * TGAS, pk });
      if (id === null) {
        rec.hit('access key refused');
        const isMember = model.members.has(JSON.stringify({ public_key: pk }));
        rec.check(P.keys, one || !isMember || !chain.acc(MS).keys.has(pk) || METHODS.indexOf(method) < 0, () => `the key of member ${pk} cannot call ${method}`);
      } else if (!one && u.k < 5) { rec.mark(...P.keys); rec.hit('call with a member key: ' + method); }
    }
    settle();
  };
  if (c.limit !== null && !c.crowd) {
    // lower the limit through the front door
    const q = build({ to: -1, actions: [{ t: 'SetActiveRequestsLimit', n: c.limit }] });
    let n = null;
    for (const u of one ? [0, 1, 2, 3].map((k) => ({ k })) : c.members) {
      if (n === null) { n = model.nonce; act(u, 'add_request_and_confirm', { request: q }); chain.settle(); }
      else if (model.reqs.has(n)) { act(u, 'confirm', { request_id: n }); chain.settle(); }
    }
    if (model.limit === c.limit) rec.hit('limit lowered');
  }
  const everybody = () => (one ? [...[0, 1, 2, 3].map((k) => ({ k })), ...crowd] : [...model.members].map((x) => JSON.parse(x)).map((x) => x.account_id ? ACCOUNTS.includes(x.account_id) ? { a: ACCOUNTS.indexOf(x.account_id) } : { c: CROWD.indexOf(x.account_id) } : { k: KEYS.indexOf(x.public_key) }));
  for (const [at, s] of c.steps.entries()) {
    upgrade(c, rec, chain, MS, one ? 'multisig' : 'multisig2', at);
    switch (s.t) {
      case 'add': act(s.u, 'add_request', { request: build(s.req) }, s.gas); break;
      case 'addConfirm': act(s.u, 'add_request_and_confirm', { request: build(s.req) }, s.gas); break;
      case 'confirm': act(s.u, 'confirm', { request_id: ridOf(s.r) }, s.gas); break;
      case 'leaves': { // someone with open requests is removed by the others
        const all = everybody(), who = all[s.u % all.length], rest = all.filter((x) => x !== who);
        if (!rest.length) break;
        for (let i = 0; i < s.n; i++) act(who, 'add_request', { request: { receiver_id: 'bob', actions: [{ type: 'Transfer', amount: String(i) }] } });
        chain.settle();
        const id = model.nonce, pk = who.c === undefined ? KEYS[who.k] : CROWDKEYS[who.c];
        act(rest[0], 'add_request', { request: { receiver_id: MS, actions: [one ? { type: 'DeleteKey', public_key: pk } : { type: 'DeleteMember', member: who.k !== undefined ? { public_key: pk } : { account_id: who.a !== undefined ? ACCOUNTS[who.a] : CROWD[who.c] } }] } });
        chain.settle();
        for (const u of rest) if (model.reqs.has(id)) { act(u, 'confirm', { request_id: id }); chain.settle(); }
        if (!model.reqs.has(id)) rec.hit(`removed with up to ${s.n} open requests`);
        break;
      }
      case 'everyone': {
        const id = ridOf(s.r);
        const all = everybody();
        for (let i = 0; i < Math.min(c.crowd ? s.n * 4 : s.n, all.length); i++) if (model.reqs.has(id)) act(all[(s.from + i) % all.length], 'confirm', { request_id: id });
        break;
      }
      case 'delete': act(s.u, 'delete_request', { request_id: ridOf(s.r) }); break;
      case 'time': chain.time += BigInt(s.ns); break;
      case 'burst': for (let i = 0; i < s.n; i++) act(s.u, 'add_request', { request: { receiver_id: 'bob', actions: [{ type: 'Transfer', amount: String(i) }] } }); break;
      case 'deposit':
        if (s.late) chain.time += 900000000001n;
        chain.send(c.full ? MS : ACCOUNTS[s.u.a], MS, s.m, s.m.startsWith('add') ? { request: { receiver_id: 'bob', actions: [] } } : { request_id: ridOf(s.r) }, { deposit: 1n, ...(c.full ? { pk: KEYS[7] } : {}) });
        settle(); break;
      case 'init': act(s.u, 'new', one ? { num_confirmations: s.k } : { members: [{ account_id: 'mallory' }], num_confirmations: s.k ? 1 : 0 }); rec.mark('C41'); break;
      case 'deliver': chain.deliver(s.i); break;
    }
    checkKeys();
  }
  upgrade(c, rec, chain, MS, one ? 'multisig' : 'multisig2', c.steps.length);
  chain.settle();
  checkKeys();
  observe('everything');
}
const parse = (b) => { try { return JSON.parse(Buffer.from(b).toString()); } catch { return undefined; } };
const norm = (actions) => actions.map((a) => a.t === 'call' ? { t: 'call', method: a.method, args: Buffer.from(a.args).toString('hex'), deposit: a.deposit, gas: a.gas }
  : a.t === 'deploy' ? { t: 'deploy', code: Buffer.from(a.code).toString('hex') } : a);
