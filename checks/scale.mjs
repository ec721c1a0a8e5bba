// What others have stored does not matter: the same calls in a contract that holds little and in one that holds much
// have the same outcomes and touch about as much storage (C52); and what is over has left nothing stored (C53).
import { Chain, NEAR, testKey, jsCode } from '../sim/near.mjs';
import { fc, wasm, op, ops, seq, pick, OtherProperty } from '../sim/harness.mjs';

export const contracts = ['staking-pool', 'w-near', 'whitelist', 'multisig', 'multisig2', 'staking-pool-factory', 'lockup'];
const FEW = 6, MANY = [150, 200, 260];
const RICH = 10n ** 33n;
const CYCLES = 4;
const USERS = ['alice', 'bob', 'carol.near', '98793cd91a3f870fb126f66285808c7e094afcfc4eda8a970f6648cdf0dbd6de'];
const turn = (k) => (k ? USERS.map((x) => (x.length > 60 ? x.slice(0, 60) + '000' + k : x[0] + k + x.slice(2))) : USERS); // other users for each turn, with names as long
const near = (n) => String(BigInt(n) * NEAR);
const u = pick(USERS.length), nearAmt = fc.integer({ min: 1, max: 40 });
const hex = (i) => i.toString(16).padStart(64, '0');
const other = (i) => (i % 4 === 1 ? hex(i) : 'other' + i + '.near');
const KEY = (i) => testKey('scale-' + i);
const b64 = (s) => Buffer.from(s).toString('base64');

// Each kind: the account, the world with n others, the steps of the users, how a step runs and how everything ends.
// `who` in a step: a user, or (C52) one of the first others. A step returns what it came to.
const pk = (k) => 'pool' + k + '.near';
const KINDS = {
  pool: {
    id: 'pool.factory',
    world(chain, n) {
      chain.addAccount(this.id, 50n * NEAR, { code: wasm('staking_pool') });
      chain.addAccount('owner.near', RICH);
      need(chain.call('owner.near', this.id, 'new', { owner_id: 'owner.near', stake_public_key: KEY(0), reward_fee_fraction: { numerator: 1, denominator: 10 } }));
      for (let i = 0; i < n; i++) {
        chain.addAccount(other(i), RICH);
        need(chain.call(other(i), this.id, i % 3 ? 'deposit_and_stake' : 'deposit', {}, { deposit: 20n * NEAR }));
        if (i % 3 === 1) need(chain.call(other(i), this.id, 'unstake', { amount: near(5) }));
      }
    },
    prep(w) { for (const x of w.users.slice(1)) { w.chain.call(x, this.id, 'deposit', {}, { deposit: 60n * NEAR }); w.chain.call(x, this.id, 'stake', { amount: near(40) }); } },
    steps: (leave) => [
      [4, op('deposit', { u, n: nearAmt })], [4, op('deposit_and_stake', { u, n: nearAmt })],
      [3, op('stake', { u, n: nearAmt })], [3, op('unstake', { u, n: nearAmt })], [2, op('withdraw', { u, n: nearAmt })],
      [2, op('stake_all', { u })], [3, op('unstake_all', { u })], [2, op('withdraw_all', { u })], [1, op('ping', { u })],
      [2, op('epoch', { k: fc.integer({ min: 1, max: 5 }), r: fc.constantFrom(0, 0, 1, 7) })],
      [1, op('fee', { n: pick(20) })], [1, op('key', { k: pick(3) })], [1, op('pause', { on: fc.boolean() })],
      [leave ? 0 : 3, op('other', { i: pick(FEW), m: fc.constantFrom('unstake_all', 'withdraw_all', 'stake_all', 'ping') })],
      [leave ? 0 : 2, op('look', { u, m: fc.constantFrom('get_account', 'get_account_total_balance', 'get_account_staked_balance', 'get_account_unstaked_balance', 'is_account_unstaked_balance_available') })],
      [leave ? 0 : 2, op('list', { from: pick(FEW - 1) })],
      [leave ? 0 : 1, op('sum', { m: fc.constantFrom('get_total_staked_balance', 'get_number_of_accounts', 'get_reward_fee_fraction', 'get_owner_id', 'get_staking_key', 'is_staking_paused') })],
    ],
    run(w, s) {
      const { chain } = w, who = w.users[s.u];
      switch (s.t) {
        case 'deposit': case 'deposit_and_stake': return chain.call(who, this.id, s.t, {}, { deposit: BigInt(s.n) * NEAR });
        case 'stake': case 'unstake': case 'withdraw': return chain.call(who, this.id, s.t, { amount: near(s.n) });
        case 'stake_all': case 'unstake_all': case 'withdraw_all': case 'ping': return chain.call(who, this.id, s.t, {});
        case 'epoch': for (let i = 0; i < s.k; i++) chain.advanceEpoch({ [this.id]: BigInt(s.r) * NEAR }); if (s.r) w.loose = true; return null;
        case 'fee': return chain.call('owner.near', this.id, 'update_reward_fee_fraction', { reward_fee_fraction: { numerator: s.n, denominator: 20 } });
        case 'key': return chain.call('owner.near', this.id, 'update_staking_key', { stake_public_key: KEY(s.k) });
        case 'pause': return chain.call('owner.near', this.id, s.on ? 'pause_staking' : 'resume_staking', {});
        case 'other': return chain.call(other(s.i), this.id, s.m, {});
        case 'look': return chain.view(this.id, s.m, { account_id: who });
        case 'list': return chain.view(this.id, 'get_accounts', { from_index: w.n - FEW + s.from, limit: FEW - 1 - s.from });
        case 'sum': return chain.view(this.id, s.m, {});
      }
    },
    end(w) {
      const { chain } = w;
      for (const x of w.users) chain.call(x, this.id, 'unstake_all', {});
      for (let i = 0; i < 6; i++) { chain.advanceEpoch({}); chain.call('owner.near', this.id, 'ping', {}); }
      for (const x of w.users) chain.call(x, this.id, 'withdraw_all', {});
      chain.call('owner.near', this.id, 'resume_staking', {});
      chain.call('owner.near', this.id, 'update_staking_key', { stake_public_key: KEY(0) });
      return w.users.every((x) => chain.view(this.id, 'get_account_total_balance', { account_id: x }).value === '0');
    },
  },
  wnear: {
    id: 'wrap.near',
    world(chain, n) {
      chain.addAccount(this.id, 10n * NEAR, { code: wasm('w_near') });
      need(chain.call('alice', this.id, 'new', {}));
      const code = jsCode('half', { ft_on_transfer: (env, a) => String(BigInt(a.amount) / 2n) });
      chain.addAccount('recv.near', RICH, { code });
      need(chain.call('recv.near', this.id, 'near_deposit', {}, { deposit: NEAR }));
      for (let i = 0; i < n; i++) {
        chain.addAccount(other(i), RICH);
        need(chain.call(other(i), this.id, 'near_deposit', {}, { deposit: 5n * NEAR }));
      }
    },
    prep(w) { for (const x of w.users.slice(1)) w.chain.call(x, this.id, 'near_deposit', {}, { deposit: 60n * NEAR }); },
    steps: (leave) => [
      [5, op('near_deposit', { u, n: nearAmt })], [2, op('near_withdraw', { u, n: nearAmt })],
      [3, op('ft_transfer', { u, v: pick(leave ? USERS.length : USERS.length + FEW), n: nearAmt })],
      [3, op('ft_transfer_call', { u, n: nearAmt })],
      [2, op('storage_deposit', { u, v: u })], [2, op('storage_unregister', { u, force: fc.boolean() })],
      [leave ? 0 : 2, op('look', { v: pick(USERS.length + FEW), m: fc.constantFrom('ft_balance_of', 'storage_balance_of') })],
      [leave ? 0 : 1, op('sum', { m: fc.constantFrom('ft_total_supply', 'ft_metadata', 'storage_balance_bounds', 'storage_minimum_balance') })],
    ],
    run(w, s) {
      const { chain } = w, who = w.users[s.u], v = s.v === undefined ? null : s.v < USERS.length ? w.users[s.v] : other(s.v - USERS.length);
      switch (s.t) {
        case 'near_deposit': return chain.call(who, this.id, s.t, {}, { deposit: BigInt(s.n) * NEAR });
        case 'near_withdraw': return chain.call(who, this.id, s.t, { amount: near(s.n) }, { deposit: 1n });
        case 'ft_transfer': return chain.call(who, this.id, s.t, { receiver_id: v, amount: near(s.n) }, { deposit: 1n });
        case 'ft_transfer_call': return chain.call(who, this.id, s.t, { receiver_id: 'recv.near', amount: near(s.n), msg: '' }, { deposit: 1n });
        case 'storage_deposit': return chain.call(who, this.id, s.t, { account_id: v }, { deposit: NEAR });
        case 'storage_unregister': return chain.call(who, this.id, s.t, { force: s.force }, { deposit: 1n });
        case 'look': return chain.view(this.id, s.m, { account_id: v });
        case 'sum': return chain.view(this.id, s.m, {});
      }
    },
    end(w) {
      for (const x of w.users) w.chain.call(x, this.id, 'storage_unregister', { force: true }, { deposit: 1n });
      return w.users.every((x) => w.chain.view(this.id, 'storage_balance_of', { account_id: x }).value === null);
    },
  },
  whitelist: {
    id: 'wl.near',
    world(chain, n) {
      chain.addAccount(this.id, 10n * NEAR, { code: wasm('whitelist') });
      chain.addAccount('foundation.near', RICH);
      need(chain.call('alice', this.id, 'new', { foundation_account_id: 'foundation.near' }));
      for (let i = 0; i < n; i++) {
        need(chain.call('foundation.near', this.id, 'add_staking_pool', { staking_pool_account_id: other(i) }));
        if (i % 3 === 0) need(chain.call('foundation.near', this.id, 'add_factory', { factory_account_id: other(i) }));
      }
    },
    steps: (leave) => [
      [4, op('add_staking_pool', { u, v: u })], [2, op('remove_staking_pool', { v: pick(leave ? USERS.length : USERS.length + FEW) })],
      [4, op('add_factory', { v: u })], [2, op('remove_factory', { v: pick(leave ? USERS.length : USERS.length + FEW) })],
      [leave ? 0 : 3, op('look', { v: pick(USERS.length + FEW), m: fc.constantFrom('is_whitelisted', 'is_factory_whitelisted') })],
    ],
    run(w, s) {
      const v = s.v < USERS.length ? w.users[s.v] : other(s.v - USERS.length);
      const a = /factory/.test(s.t) || s.m === 'is_factory_whitelisted' ? { factory_account_id: v } : { staking_pool_account_id: v };
      return s.t === 'look' ? w.chain.view(this.id, s.m, a) : w.chain.call(s.u > 1 ? w.users[s.u] : 'foundation.near', this.id, s.t, a);
    },
    end(w) {
      for (const x of w.users) {
        w.chain.call('foundation.near', this.id, 'remove_staking_pool', { staking_pool_account_id: x });
        w.chain.call('foundation.near', this.id, 'remove_factory', { factory_account_id: x });
      }
      return true;
    },
  },
  multisig1: multisig(true),
  multisig2: multisig(false),
  lockup: { // for C53: there are no others in a lockup
    id: 'lock.near',
    world(chain) {
      chain.addAccount('wl.near', 10n * NEAR, { code: wasm('whitelist') });
      chain.addAccount('foundation.near', RICH);
      need(chain.call('alice', 'wl.near', 'new', { foundation_account_id: 'foundation.near' }));
      for (let k = 0; k < CYCLES; k++) {
        chain.addAccount(pk(k), 50n * NEAR, { code: wasm('staking_pool') });
        need(chain.call('alice', pk(k), 'new', { owner_id: 'alice', stake_public_key: KEY(k), reward_fee_fraction: { numerator: 1, denominator: 10 } }));
        need(chain.call('foundation.near', 'wl.near', 'add_staking_pool', { staking_pool_account_id: pk(k) }));
      }
      chain.addAccount(this.id, 10000n * NEAR, { code: wasm('lockup_contract') });
      need(chain.call('alice', this.id, 'new', { owner_account_id: 'bob', lockup_duration: '31536000000000000', transfers_information: { TransfersEnabled: { transfers_timestamp: '1600000000000000000' } },
        vesting_schedule: null, release_duration: null, staking_pool_whitelist_account_id: 'wl.near', foundation_account_id: null }));
    },
    steps: () => [
      [2, op('select_staking_pool', {})], [3, op('deposit_and_stake', { n: nearAmt })], [2, op('deposit_to_staking_pool', { n: nearAmt })],
      [2, op('stake', { n: nearAmt })], [3, op('unstake', { n: nearAmt })], [2, op('unstake_all', {})], [2, op('withdraw_from_staking_pool', { n: nearAmt })], [2, op('withdraw_all_from_staking_pool', {})],
      [1, op('refresh_staking_pool_balance', {})], [1, op('unselect_staking_pool', {})], [1, op('check_transfers_vote', {})], [2, op('epoch', { k: fc.integer({ min: 1, max: 5 }), r: fc.constantFrom(0, 0, 3) })],
    ],
    run(w, s) {
      const p = pk(w.spare - 900);
      if (s.t === 'epoch') { for (let i = 0; i < s.k; i++) w.chain.advanceEpoch({ [p]: BigInt(s.r) * NEAR }); return null; }
      return w.chain.call('bob', this.id, s.t, s.t.startsWith('select') ? { staking_pool_account_id: p } : s.n ? { amount: near(s.n) } : {});
    },
    end(w) {
      const p = pk(w.spare - 900), { chain } = w;
      chain.call('bob', this.id, 'select_staking_pool', { staking_pool_account_id: p });
      chain.call('bob', this.id, 'unstake_all', {});
      for (let i = 0; i < 6; i++) { chain.advanceEpoch({}); chain.call('alice', p, 'ping', {}); }
      chain.call('bob', this.id, 'withdraw_all_from_staking_pool', {});
      chain.call('bob', this.id, 'unselect_staking_pool', {});
      return chain.view(this.id, 'get_staking_pool_account_id', {}).value === null;
    },
  },
  factory: {
    id: 'pool.near',
    world(chain, n) {
      chain.addAccount('wl.near', 10n * NEAR, { code: wasm('whitelist') });
      chain.addAccount('foundation.near', RICH);
      chain.addAccount(this.id, 50n * NEAR, { code: wasm('staking_pool_factory') });
      need(chain.call('alice', 'wl.near', 'new', { foundation_account_id: 'foundation.near' }));
      need(chain.call('alice', this.id, 'new', { staking_pool_whitelist_account_id: 'wl.near' }));
      need(chain.call('foundation.near', 'wl.near', 'add_factory', { factory_account_id: this.id }));
      chain.invalidStakeKeys.add(KEY(9));
      for (let i = 0; i < n; i++) need(create(chain, this.id, 'p' + i, 'alice', 0));
    },
    steps: (leave) => [
      [3, op('create', { u, name: leave ? fc.constantFrom('n1', 'n2') : pick(9).map((i) => (i < FEW ? 'p' + i : 'n' + i)), k: leave ? fc.constant(9) : fc.constantFrom(0, 1, 9), dep: fc.constantFrom(30, 30, 40, 29) })],
      [leave ? 0 : 1, op('sum', { m: fc.constantFrom('get_number_of_staking_pools_created', 'get_min_attached_balance') })],
    ],
    run(w, s) { return s.t === 'create' ? create(w.chain, this.id, s.name, w.users[s.u], s.k, s.dep) : w.chain.view(this.id, s.m, {}); },
    end() { return true; },
  },
};
const create = (chain, fac, name, owner, k, dep = 30) => chain.call(owner, fac, 'create_staking_pool', { staking_pool_id: name, owner_id: owner, stake_public_key: KEY(k), reward_fee_fraction: { numerator: 1, denominator: 10 } }, { deposit: BigInt(dep) * NEAR });
class NoWorld extends Error {}
const need = (r) => { if (!r.ok) throw new NoWorld(r.err); };

function multisig(one) {
  const id = 'ms.near', perm = { receiver: id, methods: ['add_request', 'delete_request', 'confirm', 'add_request_and_confirm'], allowance: 0n };
  // The members: four users; the others of the world. Version 1 knows keys only, here used from the account itself.
  const opt = one ? (i) => ({ pk: KEY(i) }) : () => ({});
  const by = (i) => (one ? id : i < USERS.length ? USERS[i] : i >= 900 ? 'new' + i + '.near' : other(i - USERS.length));
  const call = (w, i, m, a) => w.chain.call(by(i), id, m, a, opt(i));
  const pay = { receiver_id: 'bob', actions: [{ type: 'Transfer', amount: '1' }] };
  const admin = (add, spare) => ({ receiver_id: id, actions: [one ? (add ? { type: 'AddKey', public_key: KEY(spare), permission: { allowance: null, receiver_id: id, method_names: perm.methods } } : { type: 'DeleteKey', public_key: KEY(spare) })
    : { type: add ? 'AddMember' : 'DeleteMember', member: { account_id: by(spare) } }] });
  const there = (w) => (one ? w.chain.acc(id).keys.has(KEY(w.spare)) : w.chain.view(id, 'get_members', {}).value.some((m) => m.account_id === by(w.spare)));
  const decide = (w, req) => { const r = call(w, 0, 'add_request_and_confirm', { request: req }); return r.ok ? call(w, 1, 'confirm', { request_id: r.value }) : r; };
  return {
    id,
    world(chain, n) {
      const keys = one ? [0, 1, 2, 3].map((i) => ({ pk: KEY(i), permission: perm })) : [];
      if (one) for (let i = 0; i < n; i++) keys.push({ pk: KEY(4 + i), permission: perm });
      chain.addAccount(id, 1000n * NEAR, { code: wasm(one ? 'multisig' : 'multisig2'), keys });
      if (!one) { for (let i = 0; i < n; i++) chain.addAccount(other(i), RICH); for (let i = 0; i < CYCLES; i++) chain.addAccount(by(900 + i), RICH); }
      need(chain.call('alice', id, 'new', one ? { num_confirmations: 2 } : { num_confirmations: 2, members: [...USERS, ...Array.from({ length: n }, (_, i) => other(i))].map((a) => ({ account_id: a })) }));
      for (let i = 0; i < n; i++) need(call({ chain }, 4 + i, i % 2 ? 'add_request' : 'add_request_and_confirm', { request: pay }));
      chain.time += 10n ** 12n;
    },
    // r: one of the users' own requests, or (below FEW) one of the others'
    steps: (leave) => [
      [5, op('add', { u, q: pick(4), sure: fc.boolean() })], [6, op('confirm', { u, r: fc.nat({ max: 12 }), mine: leave ? fc.constant(true) : fc.boolean() })],
      [3, op('delete', { u, r: fc.nat({ max: 12 }), mine: leave ? fc.constant(true) : fc.boolean() })],
      [1, op('time', {})], [leave ? 2 : 1, op('member', { add: leave ? fc.boolean() : fc.constant(true) })], [leave ? 2 : 1, op('spare', { sure: fc.boolean(), n: fc.constantFrom(1, 1, 3, 8) })],
      [leave ? 0 : 2, op('look', { r: fc.nat({ max: 12 }), mine: fc.boolean(), m: fc.constantFrom('get_request', 'get_confirmations') })],
      [leave ? 0 : 1, op('count', { u })], [leave ? 0 : 1, op('sum', { m: fc.constantFrom('get_num_confirmations', 'get_request_nonce') })],
    ],
    run(w, s) {
      const r = s.r === undefined ? 0 : !s.mine ? s.r % FEW : w.mine.length ? w.mine[s.r % w.mine.length] : 0;
      switch (s.t) {
        case 'add': case 'spare': {
          const req = { receiver_id: s.q === 3 ? id : 'bob', actions: s.q === 3 ? [{ type: 'SetActiveRequestsLimit', active_requests_limit: 12 }] : Array.from({ length: (s.q ?? 0) + 1 }, () => ({ type: 'Transfer', amount: '1' })) };
          for (let i = 1; i < (s.n ?? 1); i++) { const x = call(w, w.spare, 'add_request', { request: pay }); if (x.ok) w.mine.push(x.value); }
          const x = call(w, s.t === 'spare' ? w.spare : s.u, s.sure ? 'add_request_and_confirm' : 'add_request', { request: req });
          if (x.ok) { w.mine.push(x.value); return { ok: true }; }
          return x;
        }
        case 'confirm': case 'delete': {
          const x = call(w, s.u, s.t === 'delete' ? 'delete_request' : 'confirm', { request_id: r });
          return x;
        }
        case 'time': w.chain.time += 901n * 10n ** 9n; return null;
        case 'member': return decide(w, admin(s.add, w.spare));
        case 'look': return w.chain.view(id, s.m, { request_id: r });
        case 'count': return w.chain.view(id, ...(one ? ['get_num_requests_pk', { public_key: KEY(s.u) }] : ['get_num_requests_per_member', { member: { account_id: USERS[s.u] } }]));
        case 'sum': { const x = w.chain.view(id, s.m, {}); return s.m === 'get_request_nonce' ? { ok: x.ok } : x; }
      }
    },
    end(w) {
      w.chain.time += 10n ** 12n;
      const open = new Set(w.chain.view(id, 'list_request_ids', {}).value);
      for (const r of w.mine) if (open.has(r)) call(w, 0, 'delete_request', { request_id: r });
      w.mine = [];
      // Every cycle ends with the same members, whose counts are all known by then.
      for (let i = 0; i < USERS.length; i++) { const r = call(w, i, 'add_request', { request: pay }); if (!r.ok) return false; w.chain.time += 10n ** 12n; if (!call(w, i, 'delete_request', { request_id: r.value }).ok) return false; }
      if (there(w) && !decide(w, admin(false, w.spare)).ok) return false;
      return !there(w);
    },
  };
}

export const arb = (job) => {
  const leave = job.prop === 'C53';
  const kinds = Object.keys(KINDS).filter((k) => leave || k !== 'lockup');
  return fc.oneof(...kinds.map((k) => ({ weight: k === 'factory' || k === 'whitelist' ? 1 : 2, arbitrary: fc.record({
    kind: fc.constant(k), prep: fc.boolean(), leave: fc.constant(leave), many: fc.constantFrom(...(leave ? [FEW] : MANY)),
    steps: seq(ops(KINDS[k].steps(leave)), 3, (job.tier === 'thorough' ? 40 : 24) >> (k === 'factory' ? 1 : 0)),
  }) })));
};

const worlds = new Map();
function world(rec, kind, n) {
  const k = kind + n;
  if (!worlds.has(k)) {
    const chain = new Chain();
    for (let k = 0; k < CYCLES; k++) for (const x of turn(k)) chain.addAccount(x, RICH);
    let err = null;
    try { KINDS[kind].world(chain, n); } catch (e) { if (!(e instanceof NoWorld)) throw e; err = e.message; }
    worlds.set(k, err ?? chain);
  }
  if (typeof worlds.get(k) === 'string') {
    if (n > FEW && typeof worlds.get(kind + FEW) !== 'string') rec.check(['C52'], false, `${kind}: no room for ${n} others: ${worlds.get(k)}`);
    throw new OtherProperty('setting up: ' + worlds.get(k));
  }
  return { chain: worlds.get(k).clone(), mine: [], loose: false, n, users: USERS, spare: 900 };
}
const brief = (r) => (r === null ? 'done' : r.ok ? 'ok' : 'refused');

export function run(c, rec) {
  const K = KINDS[c.kind];
  rec.hit(c.kind);
  if (c.leave) {
    const w = world(rec, c.kind, FEW), used = [];
    if (rec.keep) w.chain.trace = rec.log;
    let did = 0;
    for (let cycle = 0; cycle < CYCLES; cycle++) {
      w.users = turn(cycle); w.spare = 900 + cycle;
      for (const s of c.steps) { const r = K.run(w, s); if (r?.ok) did++; }
      const most = w.chain.acc(K.id).usage;
      if (!K.end(w)) { rec.hit('not brought to its end'); return; }
      used.push(w.chain.acc(K.id).usage);
      if (cycle > 1) {
        rec.check(['C53'], used[cycle] <= used[cycle - 1] || used[cycle] <= used[cycle - 2], () => `${c.kind}: after the same calls and the same end, ${used.join(', ')} bytes are used: each time more`);
        if (most > used[cycle]) { rec.hit('storage was used and is free again'); if (did > 3) rec.mark('C53'); }
      }
    }
    return;
  }
  const few = world(rec, c.kind, FEW), many = world(rec, c.kind, c.many);
  if (rec.keep) { few.chain.trace = rec.log; }
  if (c.prep) for (const w of [few, many]) K.prep?.(w);
  let did = 0;
  for (const [i, s] of c.steps.entries()) {
    const out = [few, many].map((w) => {
      w.chain.touch = { id: K.id, n: 0, bytes: 0 };
      const r = K.run(w, s), t = w.chain.touch;
      w.chain.touch = null;
      return { r, t };
    });
    const [a, b] = out;
    const what = () => `${c.kind}, step ${i}: ${JSON.stringify(s)}, with ${FEW} and with ${c.many} others`;
    if (!few.loose) {
      rec.check(['C52'], brief(a.r) === brief(b.r), () => `${what()}: ${brief(a.r)} ${a.r?.err ?? ''}, and ${brief(b.r)} ${b.r?.err ?? ''}`);
    } else if (brief(a.r) !== brief(b.r)) { rec.hit('the price made a difference'); return; }
    rec.check(['C52'], b.t.n <= a.t.n + 60 && b.t.bytes <= a.t.bytes + 1200, () => `${what()}: ${a.t.n} accesses of ${a.t.bytes} bytes, and ${b.t.n} of ${b.t.bytes}`);
    if (a.r?.ok) did++;
    rec.hit(`${s.t} ${brief(a.r)}`);
  }
  if (did > 2) rec.mark('C52');
}
