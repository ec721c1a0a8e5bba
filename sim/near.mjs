// nearsim: a small model of the NEAR runtime that executes the real contract wasm.
// Accounts, access keys, action receipts with rollback and refunds, data receipts / callbacks,
// staking action semantics, epochs, storage staking, view calls.  The caller owns the schedule:
// `deliver(i)` executes any of the runnable receipts, `settle()` executes all of them first-in first-out.
import { createHash } from 'node:crypto';
import { keccak256, keccak512 } from './keccak.mjs';
import { instrument, COUNTER } from './meter.mjs';

export const NEAR = 10n ** 24n;
export const TGAS = 10n ** 12n;
export const STORAGE_BYTE_COST = 10n ** 19n;
const CALL_BURN = 2n * TGAS; // flat approximation of the gas burnt by executing one method
const U64MAX = (1n << 64n) - 1n;
const U128MAX = (1n << 128n) - 1n;
const ACCOUNT_RE = /^(([a-z\d]+[-_])*[a-z\d]+\.)*([a-z\d]+[-_])*[a-z\d]+$/;
export const validAccountId = (s) => s.length >= 2 && s.length <= 64 && ACCOUNT_RE.test(s);
export const isImplicit = (s) => /^[0-9a-f]{64}$/.test(s);

export class HostError extends Error {}
export class SimError extends Error {} // the simulator itself is at fault: never a verdict

const te = new TextEncoder();
const td = new TextDecoder('utf-8', { fatal: true });
const EMPTY = new Uint8Array(0);
const bin = (u8) => Buffer.from(u8.buffer, u8.byteOffset, u8.byteLength).latin1Slice();

export const B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
export function b58encode(u8) {
  let n = 0n;
  for (const b of u8) n = (n << 8n) | BigInt(b);
  let s = '';
  while (n > 0n) { s = B58[Number(n % 58n)] + s; n /= 58n; }
  for (const b of u8) { if (b !== 0) break; s = '1' + s; }
  return s;
}
export function b58decode(s) {
  let n = 0n;
  for (const c of s) { const i = B58.indexOf(c); if (i < 0) throw new SimError('b58'); n = n * 58n + BigInt(i); }
  const out = [];
  while (n > 0n) { out.unshift(Number(n & 255n)); n >>= 8n; }
  for (const c of s) { if (c !== '1') break; out.unshift(0); }
  return Uint8Array.from(out);
}
// A deterministic public key, by small number: ed25519 unless curve = 1 (secp256k1). 'bad' ed25519 keys are
// decided by the chain (see Chain.invalidStakeKeys).
const testKeys = new Map();
export function testKey(i, curve = 0) {
  const id = `${curve}-${i}`;
  if (!testKeys.has(id)) testKeys.set(id, makeKey(i, curve));
  return testKeys.get(id);
}
function makeKey(i, curve) {
  const h = createHash('sha256').update(`key-${curve}-${i}`).digest();
  if (curve === 0) return 'ed25519:' + b58encode(h);
  return 'secp256k1:' + b58encode(Buffer.concat([h, createHash('sha256').update(h).digest()]));
}
export function keyBytes(s) {
  const [c, d] = s.includes(':') ? s.split(':') : ['ed25519', s];
  return Uint8Array.from([c === 'secp256k1' ? 1 : 0, ...b58decode(d)]);
}
const encoded = new Map();
export function keyFromBytes(u8) {
  const id = bin(u8);
  if (!encoded.has(id)) encoded.set(id, makeKeyText(u8));
  return encoded.get(id);
}
function makeKeyText(u8) {
  return (u8[0] === 1 ? 'secp256k1:' : 'ed25519:') + b58encode(u8.subarray(1));
}

class Account {
  constructor(id) {
    this.id = id; this.amount = 0n; this.locked = 0n; this.code = null; this.codeLen = 0;
    this.storage = new Map(); this.keys = new Map(); this.usage = 100;
    this.stakeWanted = 0n; this.stakeHistory = []; this.stakeKey = null;
  }
  clone() {
    const a = new Account(this.id);
    Object.assign(a, this);
    a.storage = new Map(this.storage); a.keys = new Map(this.keys); a.stakeHistory = this.stakeHistory.slice();
    return a;
  }
}

// The module with its one mutable global, the stack pointer, exported as well (so that an instance can be used again
// after a trap); unchanged when it does not look like that.
const SP = '__sp_of_the_simulator';
function withStackPointer(bytes) {
  const src = Buffer.from(bytes);
  let at = 8;
  const leb = (p) => { let v = 0, sh = 0, b; do { b = src[p++]; v += (b & 127) * 2 ** sh; sh += 7; } while (b & 128); return [v, p]; };
  const put = (v) => { const o = []; do { let b = v & 127; v >>>= 7; if (v) b |= 128; o.push(b); } while (v); return Buffer.from(o); };
  let mutable = [], exp = null, imported = false;
  while (at < src.length) {
    const id = src[at];
    const [len, body] = leb(at + 1);
    if (id === 2) imported = WebAssembly.Module.imports(new WebAssembly.Module(bytes)).some((x) => x.kind === 'global');
    if (id === 6) {
      let [n, p] = leb(body);
      for (let i = 0; i < n; i++) {
        if (src[p + 2] !== 0x41) return bytes; // i32.const only
        if (src[p + 1] === 1) mutable.push(i);
        p = leb(p + 3)[1];
        if (src[p++] !== 0x0b) return bytes;
      }
    }
    if (id === 7) exp = { at, body, end: body + len };
    at = body + len;
  }
  if (imported || mutable.length !== 1 || !exp) return bytes;
  const [n, p] = leb(exp.body);
  const sec = Buffer.concat([put(n + 1), src.subarray(p, exp.end), put(SP.length), Buffer.from(SP), Buffer.from([3]), put(mutable[0])]);
  return Buffer.concat([src.subarray(0, exp.at), Buffer.from([7]), put(sec.length), sec, src.subarray(exp.end)]);
}
// code object: {hash, module, len}
const codeCache = new Map();
export function codeOf(bytes) {
  const h = createHash('sha256').update(bytes).digest('hex');
  let c = codeCache.get(h);
  if (!c) {
    let module = null, methods = new Set(), c0 = {};
    try {
      const full = withStackPointer(bytes);
      module = new WebAssembly.Module(full);
      if (full !== bytes) c0.metered = () => withCounter(c, full);
      methods = new Set(WebAssembly.Module.exports(module).filter((e) => e.kind === 'function').map((e) => e.name));
    } catch (e) { module = null; }
    c = { hash: h, module, len: bytes.length, methods, ...c0 };
    codeCache.set(h, c);
  }
  return c;
}
// The same code with a counter of instructions.
function withCounter(code, bytes) {
  code.withCounter ??= { module: new WebAssembly.Module(instrument(bytes)) };
  return code.withCounter;
}
// A contract written in JS, for stand-ins of third parties. methods: name -> (env, args) => value
export function jsCode(name, methods, len = 1000) {
  return { hash: 'js-' + name, js: methods, len, methods: new Set(Object.keys(methods)) };
}

// Gas by these prices (see meter.mjs) in all chains made from now on; null: a flat price for each call.
let metering = null, flat = CALL_BURN;
export const metered = { calls: 0, callbacks: 0 };
export function setMeter(prices, call = CALL_BURN) { metering = prices; flat = call; metered.calls = metered.callbacks = 0; }

export class Chain {
  static first = null; // the first chain made since this was last set to null
  constructor() {
    Chain.first ??= this;
    this.accounts = new Map();
    this.pending = [];       // runnable action receipts
    this.waiting = new Map();// id -> receipt lacking input data
    this.dataTo = new Map(); // dataId -> receipt id
    this.nextId = 1;
    this.outcomes = new Map();
    this.epoch = 1; this.time = 1600000000000000000n; this.height = 1n;
    this.minStake = 0n;
    this.validators = new Map(); // for voting
    this.invalidStakeKeys = new Set();
    this.relay = null; this.relayed = 0;
    this.failNext = null; // (receipt) => bool : injected failure
    this.trace = null;
    this.onReceipt = null;
    this.burn = flat;
    this.minted = 0n; // everything created by addAccount / rewards, less anything destroyed
    this.logs = false;
    this.meter = metering; // null: a flat price for each call
    this.touch = null; // {id, n, bytes}: what calls of this account read and write
  }
  clone() {
    const c = new Chain();
    Object.assign(c, this);
    c.accounts = new Map([...this.accounts].map(([k, a]) => [k, a.clone()]));
    c.pending = this.pending.map(cloneReceipt);
    c.waiting = new Map([...this.waiting].map(([k, r]) => [k, cloneReceipt(r)]));
    c.dataTo = new Map(this.dataTo);
    c.outcomes = new Map(this.outcomes);
    c.validators = new Map(this.validators);
    c.invalidStakeKeys = new Set(this.invalidStakeKeys);
    c.onReceipt = null; c.trace = null; c.failNext = null;
    c.meter = metering; c.burn = flat;
    return c;
  }
  // ---- set-up -------------------------------------------------------------------------------------
  addAccount(id, amount, { code = null, keys = [] } = {}) {
    if (!validAccountId(id)) throw new SimError('bad account id ' + id);
    if (this.accounts.has(id)) throw new SimError('duplicate account ' + id);
    const a = new Account(id);
    a.amount = amount; this.minted += amount;
    if (code) { a.code = code; a.codeLen = code.len; a.usage += code.len; }
    for (const k of keys) this._addKey(a, k.pk ?? k, k.permission ?? 'full');
    this.accounts.set(id, a);
    return a;
  }
  acc(id) { return this.accounts.get(id); }
  balance(id) { const a = this.accounts.get(id); return a ? a.amount : 0n; }
  total(id) { const a = this.accounts.get(id); return a ? a.amount + a.locked : 0n; }
  // All tokens: on accounts, locked, and in flight. Invariant: equals this.minted.
  supply() {
    let s = 0n;
    for (const a of this.accounts.values()) s += a.amount + a.locked;
    for (const r of this.pending) s += depositOf(r);
    for (const r of this.waiting.values()) s += depositOf(r);
    return s;
  }
  inFlightTo(id) {
    let s = 0n;
    for (const r of [...this.pending, ...this.waiting.values()]) if (r.receiver === id) s += depositOf(r);
    return s;
  }
  _addKey(a, pk, permission) {
    a.keys.set(pk, permission);
    a.usage += 100;
  }
  // ---- transactions -------------------------------------------------------------------------------
  // Returns a receipt id, or null when the transaction is refused (access key, balance).
  // With `results` the receipt is a callback that the sender, a contract, scheduled after promises which ended so
  // (null: failed). With `this.relay` every call without a named key is made by a contract at the sender's account,
  // while the transaction behind it was signed by someone else, in turn.
  tx(signer, receiver, actions, { pk = null, results = null } = {}) {
    const a = this.accounts.get(signer);
    if (!a) return null;
    if (pk !== null) {
      const perm = a.keys.get(pk);
      if (perm === undefined) return null;
      if (perm !== 'full') {
        if (actions.length !== 1 || actions[0].t !== 'call') return null;
        if (actions[0].deposit > 0n || perm.receiver !== receiver) return null;
        if (perm.methods.length && !perm.methods.includes(actions[0].method)) return null;
      }
    }
    let dep = 0n;
    for (const x of actions) dep += x.deposit ?? 0n;
    if (a.amount < dep) return null;
    if (a.amount - dep + a.locked < BigInt(a.usage) * STORAGE_BYTE_COST) return null;
    a.amount -= dep;
    const r = { id: this.nextId++, predecessor: signer, receiver, signer, signerPk: pk ?? testKey('of-' + signer),
      actions, inputs: [], data: new Map(), outputs: [], refund: false, born: this.epoch };
    if (results) for (const v of results) { const d = this.nextId++; r.inputs.push(d); r.data.set(d, v === null ? null : te.encode(v)); }
    if (this.relay && pk === null && signer !== receiver && actions[0].t === 'call') {
      const by = this.relay[this.relayed++ % this.relay.length];
      [r.signer, r.signerPk] = Array.isArray(by) ? by : [by, testKey('of-' + by)];
    }
    this.pending.push(r);
    return r.id;
  }
  // Enqueue one function call.
  send(signer, receiver, method, args, { deposit = 0n, gas = 300n * TGAS, pk = null, results = null } = {}) {
    const u8 = args instanceof Uint8Array ? args : typeof args === 'string' ? te.encode(args) : te.encode(JSON.stringify(args ?? {}));
    return this.tx(signer, receiver, [{ t: 'call', method, args: u8, deposit, gas }], { pk, results });
  }
  // Enqueue and run everything to quiescence.
  call(signer, receiver, method, args, opt) {
    const id = this.send(signer, receiver, method, args, opt);
    if (id === null) return { ok: false, rejected: true, err: 'transaction refused', value: null };
    this.settle();
    return this.result(id);
  }
  // Final outcome of a receipt, following returned promises. null: still running.
  result(id) {
    for (;;) {
      const o = this.outcomes.get(id);
      if (!o) return null;
      if (o.status === 'receipt') { id = o.id; continue; }
      if (o.status === 'fail') return { ok: false, err: o.err, value: null };
      return { ok: true, bytes: o.value, value: parseValue(o.value) };
    }
  }
  first(id) { return this.outcomes.get(id); }
  view(receiver, method, args) {
    const a = this.accounts.get(receiver);
    if (!a || !a.code) return { ok: false, err: 'no contract' };
    const u8 = args instanceof Uint8Array ? args : te.encode(JSON.stringify(args ?? {}));
    const env = new Env(this, a, { receiver, predecessor: 'system', signer: 'system', signerPk: testKey(0), id: 0, data: new Map(), inputs: [] },
      { method, args: u8, deposit: 0n, gas: 300n * TGAS }, true, []);
    try {
      env.run();
      return { ok: true, value: parseValue(env.ret ?? EMPTY), bytes: env.ret ?? EMPTY };
    } catch (e) {
      if (isContractFailure(e)) return { ok: false, err: e.message };
      throw e;
    } finally {
      env.rollback();
    }
  }
  // ---- schedule -----------------------------------------------------------------------------------
  settle(limit = 2000) {
    while (this.pending.length) {
      if (limit-- <= 0) throw new SimError('receipts do not end');
      this.deliver(0);
    }
  }
  // Receipts that may run next: any order, but first-in first-out between the same two accounts.
  // Refunds come at once: the protocol never lets a callback overtake the refund of the receipt it waits for.
  eligible() {
    const refunds = this.pending.filter((r) => r.refund);
    if (refunds.length) return refunds;
    const seen = new Set(), out = [];
    for (const r of this.pending) {
      const k = r.predecessor + '>' + r.receiver;
      if (!seen.has(k)) { seen.add(k); out.push(r); }
    }
    return out;
  }
  deliver(i) {
    if (!this.pending.length) return null;
    const el = i === 0 ? this.pending : this.eligible();
    return this.run(el[i % el.length]);
  }
  run(r) {
    this.pending.splice(this.pending.indexOf(r), 1);
    this._execute(r);
    return r;
  }
  _enqueue(r) {
    r.born = this.bornNow;
    for (const d of r.inputs) if (!r.data.has(d)) { this.waiting.set(r.id, r); return; }
    this.pending.push(r);
  }
  _sendData(outputs, value) {
    for (const { dataId } of outputs) {
      const rid = this.dataTo.get(dataId);
      const r = this.waiting.get(rid);
      if (!r) throw new SimError('data without a receipt');
      this.dataTo.delete(dataId);
      r.data.set(dataId, value);
      if (r.inputs.every((d) => r.data.has(d))) { this.waiting.delete(rid); this.pending.push(r); }
    }
  }
  _execute(r) {
    this.height += 1n;
    this.bornNow = r.born ?? this.epoch;
    const undo = [];
    const had = this.accounts.get(r.receiver);
    const snap = had ? scalar(had) : null;
    let actor = r.predecessor, err = null, ret = { value: EMPTY }, created = [];
    let acct = had;
    const calls = [];
    try {
      if (this.failNext && !r.refund && this.failNext(r)) throw new HostError('injected failure');
      for (const x of r.actions) {
        const last = x === r.actions[r.actions.length - 1];
        acct = this.accounts.get(r.receiver);
        if (!acct && x.t !== 'create') {
          if (x.t === 'transfer' && isImplicit(r.receiver) && r.actions.length === 1) {
            acct = new Account(r.receiver);
            const kb = new Uint8Array(33); kb.set(Buffer.from(r.receiver, 'hex'), 1);
            this._addKey(acct, keyFromBytes(kb), 'full');
            this.accounts.set(r.receiver, acct);
          } else throw new HostError('AccountDoesNotExist ' + r.receiver);
        }
        if (['deploy', 'stake', 'addkey', 'delkey', 'delete'].includes(x.t) && actor !== r.receiver)
          throw new HostError('ActorNoPermission');
        ret = { value: EMPTY };
        switch (x.t) {
          case 'create': {
            if (acct) throw new HostError('AccountAlreadyExists');
            if (isImplicit(r.receiver)) throw new HostError('OnlyImplicitAccountCreationAllowed');
            const dot = r.receiver.indexOf('.');
            if (dot < 0 ? (r.receiver.length < 32 && r.predecessor !== 'registrar') : r.receiver.slice(dot + 1) !== r.predecessor)
              throw new HostError('CreateAccountNotAllowed');
            acct = new Account(r.receiver);
            this.accounts.set(r.receiver, acct);
            actor = r.receiver;
            break;
          }
          case 'deploy': {
            const code = codeOf(x.code);
            acct.usage += code.len - acct.codeLen; acct.code = code; acct.codeLen = code.len;
            break;
          }
          case 'transfer': acct.amount += x.deposit; break;
          case 'call': {
            acct.amount += x.deposit;
            if (!acct.code) throw new HostError('CodeDoesNotExist');
            calls.push(x.method);
            const env = new Env(this, acct, r, x, false, undo, last);
            env.run();
            created.push(...env.receipts);
            ret = env.retReceipt !== null ? { receipt: env.retReceipt } : { value: env.ret ?? EMPTY };
            break;
          }
          case 'stake': {
            const inc = x.stake > acct.locked ? x.stake - acct.locked : 0n;
            if (acct.amount < inc) throw new HostError('TriesToStake');
            if (acct.locked === 0n && x.stake === 0n) throw new HostError('TriesToUnstake');
            if (x.stake > 0n && x.stake < this.minStake) throw new HostError('InsufficientStake');
            acct.stakeWanted = x.stake; acct.stakeKey = x.pk;
            if (x.stake > acct.locked) { acct.amount -= inc; acct.locked = x.stake; }
            break;
          }
          case 'addkey':
            if (acct.keys.has(x.pk)) throw new HostError('AddKeyAlreadyExists');
            undo.push(() => { acct.keys.delete(x.pk); });
            this._addKey(acct, x.pk, x.permission);
            break;
          case 'delkey': {
            if (!acct.keys.has(x.pk)) throw new HostError('DeleteKeyDoesNotExist');
            const old = acct.keys.get(x.pk);
            undo.push(() => { acct.keys.set(x.pk, old); });
            acct.keys.delete(x.pk); acct.usage -= 100;
            break;
          }
          case 'delete': {
            if (acct.locked > 0n) throw new HostError('DeleteAccountStaking');
            const old = acct;
            undo.push(() => { this.accounts.set(old.id, old); });
            if (acct.amount > 0n)
              created.push({ id: this.nextId++, predecessor: 'system', receiver: x.beneficiary, signer: r.signer, signerPk: r.signerPk,
                actions: [{ t: 'transfer', deposit: acct.amount }], inputs: [], data: new Map(), outputs: [], refund: true });
            acct.amount = 0n;
            this.accounts.delete(acct.id);
            break;
          }
          default: throw new SimError('action ' + x.t);
        }
      }
      acct = this.accounts.get(r.receiver);
      if (acct && !r.refund && acct.amount + acct.locked < BigInt(acct.usage) * STORAGE_BYTE_COST
          && !(acct.usage <= 770 && !acct.code))
        throw new HostError('LackBalanceForState');
    } catch (e) {
      if (!isContractFailure(e)) throw e;
      err = e.message;
    }
    if (err !== null) {
      while (undo.length) undo.pop()();
      if (!had) this.accounts.delete(r.receiver);
      else { Object.assign(had, snap); this.accounts.set(r.receiver, had); }
      const dep = depositOf(r);
      if (dep > 0n) {
        if (r.refund || !this.accounts.has(r.predecessor)) this.minted -= dep; // burnt, as the protocol does
        else this.pending.push({ id: this.nextId++, predecessor: 'system', receiver: r.predecessor, signer: r.signer, signerPk: r.signerPk,
          actions: [{ t: 'transfer', deposit: dep }], inputs: [], data: new Map(), outputs: [], refund: true });
      }
      this.outcomes.set(r.id, { status: 'fail', err });
      this._sendData(r.outputs, null);
    } else {
      let target = null;
      if (ret.receipt) { target = ret.receipt; target.outputs.push(...r.outputs); }
      for (const n of created) {
        for (const d of n.inputs) this.dataTo.set(d, n.id);
        this._enqueue(n);
      }
      if (target) this.outcomes.set(r.id, { status: 'receipt', id: target.id });
      else { this.outcomes.set(r.id, { status: 'value', value: ret.value }); this._sendData(r.outputs, ret.value); }
    }
    if (this.trace) this.trace.push(describe(r, err, ret));
    if (this.onReceipt) this.onReceipt(r, err, err === null ? created : []);
  }
  // Finish whatever began before the present epoch.
  settleOld(limit = 2000) {
    for (;;) {
      const r = this.pending.find((x) => (x.born ?? 0) < this.epoch);
      if (!r) return;
      if (limit-- <= 0) throw new SimError('receipts do not end');
      // keep first-in first-out between the same two accounts
      this.run(this.pending.find((x) => x.predecessor === r.predecessor && x.receiver === r.receiver));
    }
  }
  // ---- epochs -------------------------------------------------------------------------------------
  // One epoch passes; rewards: account -> amount, credited to its locked balance when it has one.
  advanceEpoch(rewards = {}) {
    this.epoch += 1; this.height += 1000n;
    for (const a of this.accounts.values()) {
      if (a.locked === 0n && a.stakeWanted === 0n) { a.stakeHistory = []; continue; }
      const rw = a.locked > 0n ? (rewards[a.id] ?? 0n) : 0n;
      if (rw) {
        a.locked += rw; this.minted += rw;
        if (a.stakeWanted > 0n) a.stakeWanted += rw;
        a.stakeHistory = a.stakeHistory.map((x) => x + (x > 0n ? rw : 0n));
      }
      a.stakeHistory.push(a.stakeWanted);
      if (a.stakeHistory.length > 3) a.stakeHistory.shift();
      if (a.stakeHistory.length === 3) {
        const m = a.stakeHistory.reduce((x, y) => (x > y ? x : y));
        if (m < a.locked) { a.amount += a.locked - m; a.locked = m; }
      }
    }
  }
}

const scalar = (a) => ({ amount: a.amount, locked: a.locked, code: a.code, codeLen: a.codeLen, usage: a.usage,
  stakeWanted: a.stakeWanted, stakeKey: a.stakeKey });
const cloneReceipt = (r) => ({ ...r, data: new Map(r.data), outputs: r.outputs.slice(), inputs: r.inputs.slice() });
export const depositOf = (r) => { let s = 0n; for (const x of r.actions) s += x.deposit ?? 0n; return s; };
function parseValue(b) {
  if (!b || b.length === 0) return null;
  try { return JSON.parse(td.decode(b)); } catch { return undefined; }
}
function isContractFailure(e) {
  return e instanceof HostError || e instanceof WebAssembly.RuntimeError ||
    (e instanceof RangeError && /call stack/i.test(e.message));
}
export function describe(r, err, ret) {
  const acts = r.actions.map((x) => x.t === 'call' ? `${x.method}(${showArgs(x.args)})${x.deposit ? '+' + x.deposit : ''}`
    : x.t === 'transfer' ? `transfer ${x.deposit}` : x.t === 'stake' ? `stake ${x.stake}` : x.t);
  const out = err !== null ? 'FAIL ' + err.slice(0, 160) : ret?.value?.length ? 'ok ' + showArgs(ret.value) : 'ok';
  return `${r.predecessor} -> ${r.receiver}: ${acts.join(', ')} => ${out}`;
}
const showArgs = (b) => { const s = Buffer.from(b.buffer, b.byteOffset, b.byteLength).toString('utf8'); return s.length > 200 ? s.slice(0, 200) + '…' : s; };

// ---- one contract execution ---------------------------------------------------------------------------
class Env {
  constructor(chain, account, receipt, call, isView, undo) {
    Object.assign(this, { chain, account, receipt, call, isView, undo });
    this.undoMark = undo.length;
    this.regs = new Map(); this.promises = []; this.receipts = []; this.ret = null; this.retReceipt = null;
    this.used = chain.burn; this.logs = [];
    this.m = chain.meter && account.code.metered ? chain.meter : null;
    if (this.m) { this.used = 0n; this.ops = 0n; metered.calls++; if (receipt.inputs.length) metered.callbacks++; }
    if (!isView && call.gas < this.used) throw new HostError('Exceeded the prepaid gas');
  }
  rollback() { while (this.undo.length > this.undoMark) this.undo.pop()(); }
  run() {
    const code = this.account.code;
    if (!code.methods.has(this.call.method)) throw new HostError('MethodNotFound ' + this.call.method);
    if (code.js) { this.runJs(code); return; }
    if (!code.module) throw new HostError('CompilationError');
    if (this.m) this.pay(this.m.load + this.m.loadByte * BigInt(code.len));
    return this.runWasm(this.m ? code.metered() : code);
  }
  runWasm(code) {
    // An instance is used again, with its memory and stack pointer reset.
    let slot = code.free;
    code.free = null;
    if (!slot) {
      const inst = new WebAssembly.Instance(code.module, this.m ? METERED : IMPORTS);
      const mem = inst.exports.memory;
      if (!code.pristine) {
        // What a call can have changed: the data and heap, and the upper part of the stack, which lies below them
        // (a Rust program never reads what it has not written there, so the depth is no matter of correctness).
        code.pristine = new Uint8Array(mem.buffer).slice();
        const first = code.pristine.findIndex((b) => b !== 0);
        code.resetFrom = first < 0 ? 0 : Math.max(0, (first & ~0xffff) - (64 << 10));
        code.image = code.pristine.subarray(code.resetFrom);
      }
      const sp = inst.exports[SP];
      slot = { inst, mem, sp, top: sp?.value, counter: inst.exports[COUNTER] };
    }
    this.mem = slot.mem; this.counter = slot.counter;
    const f = slot.inst.exports[this.call.method];
    if (typeof f !== 'function' || f.length !== 0) { code.free = slot; throw new HostError('MethodInvalidSignature'); }
    const outer = e;
    e = this;
    let clean = false;
    try { f(); clean = true; if (this.m) this.tick(); } finally {
      e = outer; this.mem = null;
      if (clean || slot.sp) this.recycle(code, slot);
    }
  }
  recycle(code, slot) {
    if (slot.sp) slot.sp.value = slot.top;
    if (slot.counter) slot.counter.value = 0n;
    // Pages the call added are never handed out again, so they need no reset; bound their number.
    if (slot.mem.buffer.byteLength <= code.pristine.length + (4 << 20)) {
      new Uint8Array(slot.mem.buffer).set(code.image, code.resetFrom);
      code.free = slot;
    }
  }
  runJs(code) {
    let args;
    try { args = JSON.parse(td.decode(this.call.args)); } catch { args = {}; }
    const v = code.js[this.call.method](this, args);
    if (this.retReceipt === null) this.ret = v === undefined ? EMPTY : v instanceof Uint8Array ? v : te.encode(JSON.stringify(v));
  }
  // helpers for JS contracts
  jsPromise(receiver) { const p = this.newReceipt(receiver, []); this.promises.push({ receipt: p }); return this.promises.length - 1; }
  jsTransfer(receiver, amount) { const i = this.jsPromise(receiver); this.deduct(amount); this.act(i, { t: 'transfer', deposit: amount }); return i; }
  jsCall(receiver, method, args, deposit = 0n, gas = 50n * TGAS) {
    const i = this.jsPromise(receiver); this.deduct(deposit); this.gas(gas);
    this.act(i, { t: 'call', method, args: te.encode(JSON.stringify(args)), deposit, gas }); return i;
  }
  jsReturn(i) { this.retReceipt = this.promises[i].receipt; }

  noView(n) { if (this.isView) throw new HostError('ProhibitedInView ' + n); }
  u8(len, ptr) {
    len = BigInt.asUintN(64, len);
    if (len === U64MAX) {
      const r = this.regs.get(ptr);
      if (!r) throw new HostError('InvalidRegisterId');
      if (this.m) this.each(this.m.readReg, this.m.readRegByte, r.length);
      return r;
    }
    const p = Number(ptr), l = Number(len);
    if (this.m) this.each(this.m.readMem, this.m.readMemByte, l);
    if (p + l > this.mem.buffer.byteLength) throw new HostError('MemoryAccessViolation');
    return new Uint8Array(this.mem.buffer, p, l).slice();
  }
  str(len, ptr) {
    len = BigInt.asUintN(64, len);
    if (len === U64MAX && !this.regs.has(ptr)) { // nul-terminated
      const m = new Uint8Array(this.mem.buffer); let e = Number(ptr); while (m[e]) e++;
      return td.decode(m.slice(Number(ptr), e));
    }
    try { const b = this.u8(len, ptr); if (this.m) this.each(this.m.utf8, this.m.utf8Byte, b.length); return td.decode(b); } catch (e) { if (e instanceof HostError) throw e; throw new HostError('BadUTF8'); }
  }
  u128(ptr) {
    const v = new DataView(this.mem.buffer);
    const p = Number(ptr);
    if (this.m) this.each(this.m.readMem, this.m.readMemByte, 16);
    return v.getBigUint64(p, true) | (v.getBigUint64(p + 8, true) << 64n);
  }
  put128(ptr, x) {
    if (this.m) this.each(this.m.writeMem, this.m.writeMemByte, 16);
    const v = new DataView(this.mem.buffer);
    v.setBigUint64(Number(ptr), x & U64MAX, true); v.setBigUint64(Number(ptr) + 8, x >> 64n, true);
  }
  reg(id, u8) { if (this.m) this.each(this.m.writeReg, this.m.writeRegByte, u8.length); this.regs.set(id, u8); }
  // Gas for what has been executed since the last time.
  tick() { const n = this.counter.value; const d = n - this.ops; this.ops = n; this.pay(d * this.m.op); }
  pay(g) { this.gas(g); }
  each(base, byte, n) { this.gas(base + byte * BigInt(n)); }
  gas(g) {
    this.used += g;
    if (this.used > this.call.gas) throw new HostError('Exceeded the prepaid gas');
  }
  deduct(x) {
    if (this.account.amount < x) throw new HostError('BalanceExceeded');
    this.account.amount -= x;
  }
  touched(k, v, old) {
    const t = this.chain.touch;
    if (t.id === this.account.id) { t.n++; t.bytes += k.length + (v?.length ?? 0) + (old?.length ?? 0); }
  }
  accountId(len, ptr) {
    const s = this.str(len, ptr);
    if (!validAccountId(s)) throw new HostError('InvalidAccountId ' + s);
    return s;
  }
  newReceipt(receiver, after) {
    if (this.m) this.pay(this.m.receipt + this.m.data * BigInt(after.length));
    const r = { id: this.chain.nextId++, predecessor: this.account.id, receiver, signer: this.receipt.signer, signerPk: this.receipt.signerPk,
      actions: [], inputs: [], data: new Map(), outputs: [], refund: false };
    for (const dep of after) {
      const dataId = this.chain.nextId++;
      dep.outputs.push({ dataId, receiver });
      r.inputs.push(dataId);
    }
    this.receipts.push(r);
    return r;
  }
  promise(i) {
    const p = this.promises[Number(i)];
    if (!p) throw new HostError('InvalidPromiseIndex');
    return p;
  }
  receiptsOf(p) { return p.joint ?? [p.receipt]; }
  act(i, a) {
    const p = this.promise(i);
    if (p.joint) throw new HostError('CannotAppendActionToJointPromise');
    if (this.m) this.pay(this.m.action(a));
    p.receipt.actions.push(a);
  }
}

// Shared by every instance; `e` is the execution under way (contract calls never nest).
let e = null;
const IMPORTS = { env: makeImports() };
const METERED = { env: Object.fromEntries(Object.entries(IMPORTS.env).map(([n, f]) => [n, (...a) => { e.tick(); e.pay(e.m.base); return f(...a); }])) };
function makeImports() {
  const s = (v) => te.encode(v);
  const newP = (p) => { e.promises.push(p); return BigInt(e.promises.length - 1); };
  const pcreate = (al, ap) => newP({ receipt: e.newReceipt(e.accountId(al, ap), []) });
  const pthen = (i, al, ap) => newP({ receipt: e.newReceipt(e.accountId(al, ap), e.receiptsOf(e.promise(i))) });
  const fcall = (i, ml, mp, argl, argp, amt, g64) => {
    const gas = BigInt.asUintN(64, g64);
    const method = e.str(ml, mp);
    if (!method) throw new HostError('EmptyMethodName');
    const args = e.u8(argl, argp);
    e.act(i, { t: 'call', method, args, deposit: amt, gas });
    e.gas(gas); e.deduct(amt);
  };
  const sizeOf = (k, v) => 40 + k.length + v.length;
  return {
    read_register: (id, ptr) => {
      const d = e.regs.get(id);
      if (!d) throw new HostError('InvalidRegisterId');
      if (e.m) { e.each(e.m.readReg, e.m.readRegByte, d.length); e.each(e.m.writeMem, e.m.writeMemByte, d.length); }
      new Uint8Array(e.mem.buffer).set(d, Number(ptr));
    },
    register_len: (id) => { const d = e.regs.get(id); return d ? BigInt(d.length) : U64MAX; },
    write_register: (id, l, p) => { e.reg(id, e.u8(l, p)); },
    current_account_id: (id) => e.reg(id, s(e.account.id)),
    signer_account_id: (id) => { e.noView('signer'); e.reg(id, s(e.receipt.signer)); },
    signer_account_pk: (id) => { e.noView('signer_pk'); e.reg(id, keyBytes(e.receipt.signerPk)); },
    predecessor_account_id: (id) => { e.noView('predecessor'); e.reg(id, s(e.receipt.predecessor)); },
    input: (id) => e.reg(id, e.call.args),
    block_index: () => e.chain.height,
    block_timestamp: () => e.chain.time,
    epoch_height: () => BigInt(e.chain.epoch),
    storage_usage: () => BigInt(e.account.usage),
    account_balance: (p) => e.put128(p, e.account.amount),
    account_locked_balance: (p) => e.put128(p, e.account.locked),
    attached_deposit: (p) => { e.noView('attached_deposit'); e.put128(p, e.call.deposit); },
    prepaid_gas: () => { e.noView('prepaid_gas'); return e.call.gas; },
    used_gas: () => { e.noView('used_gas'); return e.used; },
    random_seed: (id) => e.reg(id, new Uint8Array(32)),
    sha256: (l, p, id) => e.reg(id, new Uint8Array(createHash('sha256').update(e.u8(l, p)).digest())),
    keccak256: (l, p, id) => e.reg(id, keccak256(e.u8(l, p))),
    keccak512: (l, p, id) => e.reg(id, keccak512(e.u8(l, p))),
    value_return: (l, p) => { e.ret = e.u8(l, p); e.retReceipt = null; if (e.m) e.each(0n, e.m.dataByte, e.ret.length * (e.receipt.outputs?.length ?? 0)); },
    panic: () => { throw new HostError('explicit panic'); },
    panic_utf8: (l, p) => { throw new HostError('panic: ' + e.str(l, p)); },
    abort: () => { throw new HostError('abort'); },
    log_utf8: (l, p) => { const t = e.str(l, p); if (e.m) e.each(e.m.log, e.m.logByte, t.length); if (e.chain.logs) e.logs.push(t); },
    log_utf16: () => {},
    promise_create: (al, ap, ml, mp, argl, argp, amtp, gas) => {
      e.noView('promise'); const amt = e.u128(amtp); const i = pcreate(al, ap); fcall(i, ml, mp, argl, argp, amt, gas); return i;
    },
    promise_then: (i, al, ap, ml, mp, argl, argp, amtp, gas) => {
      e.noView('promise'); const amt = e.u128(amtp); const j = pthen(i, al, ap); fcall(j, ml, mp, argl, argp, amt, gas); return j;
    },
    promise_and: (ptr, n) => {
      e.noView('promise');
      const v = new DataView(e.mem.buffer); const joint = [];
      for (let i = 0; i < Number(n); i++) joint.push(...e.receiptsOf(e.promise(v.getBigUint64(Number(ptr) + 8 * i, true))));
      return newP({ joint });
    },
    promise_batch_create: (al, ap) => { e.noView('promise'); return pcreate(al, ap); },
    promise_batch_then: (i, al, ap) => { e.noView('promise'); return pthen(i, al, ap); },
    promise_batch_action_create_account: (i) => e.act(i, { t: 'create' }),
    promise_batch_action_deploy_contract: (i, l, p) => e.act(i, { t: 'deploy', code: e.u8(l, p) }),
    promise_batch_action_function_call: (i, ml, mp, argl, argp, amtp, gas) => fcall(i, ml, mp, argl, argp, e.u128(amtp), gas),
    promise_batch_action_transfer: (i, amtp) => { const d = e.u128(amtp); e.act(i, { t: 'transfer', deposit: d }); e.deduct(d); },
    promise_batch_action_stake: (i, amtp, l, p) => {
      const pk = keyFromBytes(e.u8(l, p));
      if (e.chain.invalidStakeKeys.has(pk)) throw new HostError('InvalidPublicKey');
      e.act(i, { t: 'stake', stake: e.u128(amtp), pk });
    },
    promise_batch_action_add_key_with_full_access: (i, l, p, nonce) => e.act(i, { t: 'addkey', pk: keyFromBytes(e.u8(l, p)), permission: 'full' }),
    promise_batch_action_add_key_with_function_call: (i, l, p, nonce, allp, rl, rp, ml, mp) => {
      const methods = e.str(ml, mp);
      const allowance = e.u128(allp);
      const receiver = e.accountId(rl, rp);
      e.act(i, { t: 'addkey', pk: keyFromBytes(e.u8(l, p)),
        permission: { receiver, methods: methods === '' ? [] : methods.split(','), allowance } });
    },
    promise_batch_action_delete_key: (i, l, p) => e.act(i, { t: 'delkey', pk: keyFromBytes(e.u8(l, p)) }),
    promise_batch_action_delete_account: (i, l, p) => e.act(i, { t: 'delete', beneficiary: e.accountId(l, p) }),
    promise_results_count: () => { e.noView('promise'); return BigInt(e.receipt.inputs.length); },
    promise_result: (i, id) => {
      e.noView('promise');
      if (i >= BigInt(e.receipt.inputs.length)) throw new HostError('InvalidPromiseResultIndex');
      const d = e.receipt.data.get(e.receipt.inputs[Number(i)]);
      if (d === null) return 2n;
      e.reg(id, d); return 1n;
    },
    promise_return: (i) => {
      e.noView('promise');
      const p = e.promise(i);
      if (p.joint) throw new HostError('CannotReturnJointPromise');
      e.retReceipt = p.receipt;
    },
    storage_write: (kl, kp, vl, vp, id) => {
      e.noView('storage_write');
      const k = bin(e.u8(kl, kp)), v = e.u8(vl, vp), old = e.account.storage.get(k);
      if (e.chain.touch) e.touched(k, v, old);
      if (e.m) e.pay(e.m.write(k.length, v.length, old?.length ?? 0));
      const st = e.account.storage;
      e.undo.push(() => { if (old === undefined) st.delete(k); else st.set(k, old); });
      e.account.storage.set(k, v);
      if (old !== undefined) { e.account.usage += v.length - old.length; e.reg(id, old); return 1n; }
      e.account.usage += sizeOf(k, v); return 0n;
    },
    storage_read: (kl, kp, id) => {
      const k = bin(e.u8(kl, kp)), v = e.account.storage.get(k);
      if (e.chain.touch) e.touched(k, v);
      if (e.m) e.pay(e.m.read(k.length, v?.length ?? 0));
      if (v === undefined) return 0n;
      e.reg(id, v); return 1n;
    },
    storage_remove: (kl, kp, id) => {
      e.noView('storage_remove');
      const k = bin(e.u8(kl, kp)), old = e.account.storage.get(k);
      if (e.chain.touch) e.touched(k, old);
      if (e.m) e.pay(e.m.remove(k.length, old?.length ?? 0));
      if (old === undefined) return 0n;
      const st = e.account.storage;
      e.undo.push(() => { st.set(k, old); });
      e.account.storage.delete(k); e.account.usage -= sizeOf(k, old);
      e.reg(id, old); return 1n;
    },
    storage_has_key: (kl, kp) => { const k = bin(e.u8(kl, kp)); if (e.chain.touch) e.touched(k); if (e.m) e.pay(e.m.has(k.length)); return e.account.storage.has(k) ? 1n : 0n; },
    validator_stake: (l, p, sp) => { if (e.m) e.pay(e.m.validator); e.put128(sp, e.chain.validators.get(e.str(l, p)) ?? 0n); },
    validator_total_stake: (sp) => { if (e.m) e.pay(e.m.validator); let t = 0n; for (const v of e.chain.validators.values()) t += v; e.put128(sp, t); },
  };
}
