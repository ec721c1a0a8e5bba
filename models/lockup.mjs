// Reference model of the lockup contract, applied to each call that reaches it. Everything in BigInt.
import { createHash } from 'node:crypto';
import { validAccountId } from '../sim/near.mjs';

export const STORAGE = 3500000000000000000000000n;
const U64 = (1n << 64n) - 1n;
const min = (a, b) => (a < b ? a : b);
const max = (a, b) => (a > b ? a : b);
const sub = (a, b) => (a > b ? a - b : 0n);

export class Refused extends Error { constructor(tag, msg) { super(msg); this.tag = tag; } }

export function scheduleHash(vs, salt) {
  const b = Buffer.alloc(28 + salt.length);
  b.writeBigUInt64LE(BigInt(vs.start_timestamp), 0);
  b.writeBigUInt64LE(BigInt(vs.cliff_timestamp), 8);
  b.writeBigUInt64LE(BigInt(vs.end_timestamp), 16);
  b.writeUInt32LE(salt.length, 24);
  Buffer.from(salt).copy(b, 28);
  return createHash('sha256').update(b).digest('base64');
}
export function unvestedOf(vs, amount, now) {
  const [s, c, e] = [BigInt(vs.start_timestamp), BigInt(vs.cliff_timestamp), BigInt(vs.end_timestamp)];
  if (now < c) return amount;
  if (now >= e) return 0n;
  return (amount * (e - now)) / (e - s);
}

export class LockupModel {
  // args: the JSON arguments of the initialisation
  constructor(id, args, amount) {
    this.id = id; this.owner = args.owner_account_id; this.amount = amount; this.withdrawn = 0n;
    this.duration = BigInt(args.lockup_duration); this.release = args.release_duration == null ? null : BigInt(args.release_duration);
    this.lockupTs = BigInt(args.lockup_timestamp ?? 0);
    this.transfers = args.transfers_information.TransfersEnabled ? BigInt(args.transfers_information.TransfersEnabled.transfers_timestamp) : null;
    this.poll = args.transfers_information.TransfersDisabled?.transfer_poll_account_id ?? null;
    this.whitelist = args.staking_pool_whitelist_account_id; this.foundation = args.foundation_account_id ?? null;
    const v = args.vesting_schedule;
    this.vesting = v == null ? { t: 'none' } : v.VestingHash !== undefined ? { t: 'hash', hash: v.VestingHash } : { t: 'schedule', vs: v.VestingSchedule };
    this.pool = null; this.busy = false; this.known = 0n;
  }
  static accepts(a) {
    const v = a.vesting_schedule;
    if (!validAccountId(a.owner_account_id) || !validAccountId(a.staking_pool_whitelist_account_id)) return false;
    if (a.transfers_information.TransfersDisabled && !validAccountId(a.transfers_information.TransfersDisabled.transfer_poll_account_id)) return false;
    if (v == null) return a.foundation_account_id == null;
    if (a.foundation_account_id == null || !validAccountId(a.foundation_account_id)) return false;
    const s = v.VestingSchedule;
    if (s) { const [x, y, z] = [s.start_timestamp, s.cliff_timestamp, s.end_timestamp].map(BigInt); return x <= y && y <= z && x < z; }
    return true;
  }
  copy() { const m = Object.create(LockupModel.prototype); Object.assign(m, this); m.vesting = { ...this.vesting }; return m; }
  terminating() { return this.vesting.t === 'terminating'; }
  start() { return max(min(this.transfers + this.duration, U64), this.lockupTs); }
  unvested(vs, now) {
    if (this.terminating()) return this.vesting.unvested;
    if (this.vesting.t === 'none') return 0n;
    return unvestedOf(vs, this.amount, now);
  }
  locked(now) {
    if (this.transfers === null || now < this.start()) return this.amount - this.withdrawn;
    let unreleased = 0n;
    if (this.release !== null) {
      const end = min(this.start() + this.release, U64);
      if (now < end) unreleased = (this.amount * (end - now)) / this.release;
    }
    const unvested = this.vesting.t === 'schedule' ? unvestedOf(this.vesting.vs, this.amount, now) : this.terminating() ? this.vesting.unvested : 0n;
    return max(sub(unreleased, this.withdrawn), unvested);
  }
  owners(bal, now) { return sub(bal + this.known, this.locked(now)); }
  liquid(bal, now) { return min(this.owners(bal, now), sub(bal, STORAGE)); }

  // -- calls. x: {method, pred, args, bal, now, results:[null | Buffer]}. Returns the promises to others, in order:
  // [receiver, method | 'transfer' | 'addkey', args | key, deposit].
  // this.says is what the call answers with: true or false, 'callback' or 'promise' (whatever those will say),
  // undefined where it says nothing.
  call(x) {
    this.says = undefined;
    const { method: m, args: a, bal, now } = x;
    const owner = () => { if (x.pred !== this.owner) throw new Refused('owner', 'not the owner'); };
    const foundation = () => { if (this.foundation === null || x.pred !== this.foundation) throw new Refused('foundation', 'not the foundation'); };
    const self = () => { if (x.pred !== this.id) throw new Refused('private', 'a callback called from outside'); };
    const noTermination = () => { if (this.terminating()) throw new Refused('termination', 'blocked by the termination'); };
    const idle = () => {
      if (this.pool === null) throw new Refused('pool', 'no staking pool');
      if (this.busy) throw new Refused('busy', 'busy with another operation');
    };
    const amount = () => { const n = BigInt(a.amount); if (n <= 0n) throw new Refused('amount', 'nothing'); return n; };
    const begin = () => { this.says = 'callback'; owner(); if (/^(stake|unstake|withdraw_from_staking_pool|deposit_.*)$/.test(m)) amount(); idle(); noTermination(); };
    const ok = x.results[0] != null;
    const answer = () => { if (!ok) throw new Refused('private', 'no answer to go by'); return JSON.parse(x.results[0]); };
    const done = () => { self(); this.busy = false; this.says = ok; };
    const valid = (id) => { if (!validAccountId(id)) throw new Refused('amount', 'bad account id'); };
    switch (m) {
      case 'new': throw new Refused('init', 'initialised twice');
      case 'select_staking_pool':
        owner(); valid(a.staking_pool_account_id);
        if (this.pool !== null) throw new Refused('pool', 'a staking pool is selected already');
        noTermination();
        this.says = 'callback';
        return [[this.whitelist, 'is_whitelisted', { staking_pool_account_id: a.staking_pool_account_id }, 0n]];
      case 'unselect_staking_pool':
        owner(); idle(); noTermination();
        if (this.known !== 0n) throw new Refused('pool', 'there is still a deposit');
        this.pool = null;
        return [];
      case 'deposit_to_staking_pool': case 'deposit_and_stake': {
        begin();
        const n = amount();
        if (sub(bal, STORAGE) < n) throw new Refused('funds', 'more than the balance');
        this.busy = true;
        return [[this.pool, m === 'deposit_and_stake' ? m : 'deposit', {}, n]];
      }
      case 'refresh_staking_pool_balance': begin(); this.busy = true; return [[this.pool, 'get_account_total_balance', { account_id: this.id }, 0n]];
      case 'withdraw_all_from_staking_pool': begin(); this.busy = true; return [[this.pool, 'get_account_unstaked_balance', { account_id: this.id }, 0n]];
      case 'withdraw_from_staking_pool': case 'stake': case 'unstake':
        begin(); this.busy = true;
        return [[this.pool, m.split('_')[0], { amount: String(amount()) }, 0n]];
      case 'unstake_all': begin(); this.busy = true; return [[this.pool, m, {}, 0n]];
      case 'check_transfers_vote':
        owner();
        if (this.transfers !== null) throw new Refused('vote', 'transfers are enabled already');
        noTermination();
        this.says = 'callback';
        return [[this.poll, 'get_result', {}, 0n]];
      case 'transfer': {
        owner(); const n = amount(); valid(a.receiver_id);
        if (this.transfers === null) throw new Refused('vote', 'transfers are disabled');
        if (this.busy) throw new Refused('busy', 'busy with another operation');
        noTermination();
        if (this.liquid(bal, now) < n) throw new Refused('locked', 'more than is liquid');
        this.says = 'promise';
        return [[a.receiver_id, 'transfer', null, n]];
      }
      case 'add_full_access_key':
        owner();
        if (this.transfers === null) throw new Refused('key', 'transfers are disabled');
        if (this.busy) throw new Refused('key', 'busy with another operation');
        if (this.terminating()) throw new Refused('key', 'blocked by the termination');
        if (this.locked(now) !== 0n) throw new Refused('key', 'tokens are still locked');
        this.says = 'promise';
        return [[this.id, 'addkey', a.new_public_key, 0n]];
      case 'terminate_vesting': {
        foundation();
        const given = a?.vesting_schedule_with_salt ?? null;
        let vs;
        if (this.vesting.t === 'hash') {
          if (!given) throw new Refused('hash', 'the schedule is private');
          if (scheduleHash(given.vesting_schedule, Buffer.from(given.salt, 'base64')) !== this.vesting.hash) throw new Refused('hash', 'not the schedule that was hashed');
          vs = given.vesting_schedule;
        } else if (this.vesting.t === 'schedule') {
          if (given) throw new Refused('hash', 'the schedule is public');
          vs = this.vesting.vs;
        } else throw new Refused('terminate', 'no vesting');
        const unvested = unvestedOf(vs, this.amount, now);
        if (unvested === 0n) throw new Refused('terminate', 'fully vested');
        this.vesting = { t: 'terminating', unvested, status: unvested > sub(bal, STORAGE) && this.pool !== null ? 'VestingTerminatedWithDeficit' : 'ReadyToWithdraw' };
        return [];
      }
      case 'termination_prepare_to_withdraw': {
        foundation(); idle();
        const s = this.terminating() ? this.vesting.status : null;
        this.says = 'callback';
        if (s === 'VestingTerminatedWithDeficit') { this.vesting.status = 'UnstakingInProgress'; this.busy = true; return [[this.pool, 'get_account_staked_balance', { account_id: this.id }, 0n]]; }
        if (s === 'EverythingUnstaked') { this.vesting.status = 'WithdrawingFromStakingPoolInProgress'; this.busy = true; return [[this.pool, 'get_account_unstaked_balance', { account_id: this.id }, 0n]]; }
        throw new Refused('stage', 'not the stage for it: ' + s);
      }
      case 'termination_withdraw': {
        foundation(); valid(a.receiver_id);
        if (!this.terminating() || this.vesting.status !== 'ReadyToWithdraw') throw new Refused('stage', 'not ready to withdraw');
        const n = min(this.vesting.unvested, sub(bal, STORAGE));
        if (n === 0n) throw new Refused('stage', 'nothing to withdraw');
        this.vesting.status = 'WithdrawingFromAccountInProgress'; this.says = 'callback';
        return [[a.receiver_id, 'transfer', null, n]];
      }
      // callbacks
      case 'on_whitelist_is_whitelisted':
        self();
        if (!ok || JSON.parse(x.results[0]) !== true) throw new Refused('pool', 'not whitelisted');
        if (this.pool !== null) throw new Refused('pool', 'a staking pool is selected already');
        noTermination();
        this.pool = a.staking_pool_account_id; this.busy = false; this.known = 0n; this.says = true;
        return [];
      case 'on_staking_pool_deposit': case 'on_staking_pool_deposit_and_stake': done(); if (ok) this.known += BigInt(a.amount); return [];
      case 'on_staking_pool_withdraw': done(); if (ok) this.known = sub(this.known, BigInt(a.amount)); return [];
      case 'on_staking_pool_stake': case 'on_staking_pool_unstake': case 'on_staking_pool_unstake_all': done(); return [];
      case 'on_get_account_total_balance': done(); this.says = undefined; this.known = BigInt(answer()); return [];
      case 'on_get_account_unstaked_balance_to_withdraw_by_owner': case 'on_get_account_unstaked_balance_to_withdraw': {
        self();
        const n = BigInt(answer());
        this.says = n > 0n ? 'callback' : true;
        if (n > 0n) return [[this.pool, 'withdraw', { amount: String(n) }, 0n]];
        this.busy = false;
        if (m === 'on_get_account_unstaked_balance_to_withdraw') this.vesting.status = 'ReadyToWithdraw';
        return [];
      }
      case 'on_get_result_from_transfer_poll': {
        self();
        if (this.transfers !== null) throw new Refused('vote', 'transfers are enabled already');
        const r = ok ? JSON.parse(x.results[0]) : null;
        this.says = r !== null;
        if (r !== null) this.transfers = BigInt(r);
        return [];
      }
      case 'on_get_account_staked_balance_to_unstake': {
        self();
        const n = BigInt(answer());
        this.says = n > 0n ? 'callback' : true;
        if (n > 0n) return [[this.pool, 'unstake', { amount: String(n) }, 0n]];
        this.busy = false; this.vesting.status = 'EverythingUnstaked';
        return [];
      }
      case 'on_staking_pool_unstake_for_termination': done(); this.vesting.status = ok ? 'EverythingUnstaked' : 'VestingTerminatedWithDeficit'; return [];
      case 'on_staking_pool_withdraw_for_termination':
        done(); this.vesting.status = ok ? 'ReadyToWithdraw' : 'EverythingUnstaked';
        if (ok) this.known = sub(this.known, BigInt(a.amount));
        return [];
      case 'on_withdraw_unvested_amount': {
        self();
        const n = BigInt(a.amount);
        this.says = ok;
        if (!ok) { this.vesting.status = 'ReadyToWithdraw'; return []; }
        this.withdrawn += n;
        if (this.vesting.unvested > n) { this.vesting.unvested -= n; this.vesting.status = 'ReadyToWithdraw'; }
        else { this.vesting = { t: 'none' }; this.foundation = null; }
        return [];
      }
      default: return null; // unknown to the model
    }
  }
}
