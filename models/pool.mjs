// Reference model of a staking pool: what its documentation says each call does, over BigInt.
export const GUARANTEE = 10n ** 12n;
export const UNLOCK_EPOCHS = 4;
const ceilDiv = (a, b) => (a + b - 1n) / b;

export class PoolModel {
  constructor({ owner, key, fee, balance, epoch }) {
    this.owner = owner; this.key = key; this.fee = fee;
    this.lastEpoch = epoch; this.lastTotal = balance;
    this.staked = balance - GUARANTEE; this.shares = this.staked;
    this.accounts = new Map(); this.paused = false;
  }
  clone() {
    const m = Object.create(PoolModel.prototype);
    Object.assign(m, this);
    m.accounts = new Map([...this.accounts].map(([k, a]) => [k, { ...a }]));
    return m;
  }
  get(u) { return this.accounts.get(u) ?? { unstaked: 0n, shares: 0n, avail: 0 }; }
  put(u, a) { if (a.unstaked > 0n || a.shares > 0n) this.accounts.set(u, a); else this.accounts.delete(u); }
  stakedOf(u) { return (this.staked * this.get(u).shares) / this.shares; }
  totalOf(u) { return this.stakedOf(u) + this.get(u).unstaked; }
  view(u, epoch) {
    const a = this.get(u);
    return { account_id: u, unstaked_balance: String(a.unstaked), staked_balance: String(this.stakedOf(u)), can_withdraw: a.avail <= epoch };
  }
  // A new epoch's rewards. total: everything the pool holds, without the deposit of the call under way.
  ping(epoch, total) {
    if (epoch === this.lastEpoch) return { changed: false, reward: 0n };
    this.lastEpoch = epoch;
    const reward = total - this.lastTotal;
    if (reward > 0n) {
      const fee = (reward * BigInt(this.fee.numerator)) / BigInt(this.fee.denominator);
      this.staked += reward - fee;
      const sh = (this.shares * fee) / this.staked;
      if (sh > 0n) { const a = { ...this.get(this.owner) }; a.shares += sh; this.put(this.owner, a); this.shares += sh; }
      this.staked += fee;
    }
    this.lastTotal = total;
    return { changed: true, reward };
  }
  // Applies one call. env: {epoch, total (without the deposit), liquid}. Returns null when the call has to fail.
  apply(u, method, args, deposit, env) {
    const before = this.clone();
    const out = this._apply(u, method, args, deposit, env);
    if (out === null) { Object.assign(this, before); return null; }
    return out;
  }
  _apply(u, method, args, deposit, env) {
    const payable = ['deposit', 'deposit_and_stake'].includes(method);
    if (deposit > 0n && !payable) return null;
    const out = { restake: false, stakeZero: false, pay: 0n, reward: 0n };
    const ping = () => { const p = this.ping(env.epoch, env.total); out.reward = p.reward; out.pinged = p.changed; if (p.changed) out.restake = true; };
    switch (method) {
      case 'ping': ping(); break;
      case 'deposit': ping(); this._deposit(u, deposit); break;
      case 'deposit_and_stake': ping(); this._deposit(u, deposit); if (!this._stake(u, deposit)) return null; out.restake = true; break;
      case 'withdraw_all': ping(); if (!this._withdraw(u, this.get(u).unstaked, env, out)) return null; break;
      case 'withdraw': ping(); if (!this._withdraw(u, args, env, out)) return null; break;
      case 'stake_all': ping(); if (!this._stake(u, this.get(u).unstaked)) return null; out.restake = true; break;
      case 'stake': ping(); if (!this._stake(u, args)) return null; out.restake = true; break;
      case 'unstake_all': ping(); if (!this._unstake(u, this.stakedOf(u), env)) return null; out.restake = true; break;
      case 'unstake': ping(); if (!this._unstake(u, args, env)) return null; out.restake = true; break;
      case 'update_staking_key': if (u !== this.owner) return null; ping(); this.key = args; out.restake = true; break;
      case 'update_reward_fee_fraction':
        if (u !== this.owner || args.denominator === 0 || args.numerator > args.denominator) return null;
        ping(); this.fee = args; break;
      case 'vote': if (u !== this.owner) return null; break;
      case 'pause_staking': if (u !== this.owner || this.paused) return null; ping(); this.paused = true; out.stakeZero = true; break;
      case 'resume_staking': if (u !== this.owner || !this.paused) return null; ping(); this.paused = false; out.restake = true; break;
      default: return null;
    }
    if (this.paused) out.restake = false;
    return out;
  }
  _deposit(u, amount) { const a = { ...this.get(u) }; a.unstaked += amount; this.put(u, a); this.lastTotal += amount; }
  _withdraw(u, amount, env, out) {
    const a = { ...this.get(u) };
    if (amount <= 0n || a.unstaked < amount || a.avail > env.epoch) return false;
    a.unstaked -= amount; this.put(u, a); out.pay = amount; this.lastTotal -= amount;
    return true;
  }
  _stake(u, amount) {
    if (amount <= 0n) return false;
    const a = { ...this.get(u) };
    const sh = (this.shares * amount) / this.staked;
    if (sh === 0n) return false;
    const charge = (this.staked * sh) / this.shares;
    if (a.unstaked < charge) return false;
    a.unstaked -= charge; a.shares += sh; this.put(u, a);
    const add = ceilDiv(this.staked * sh, this.shares);
    this.staked += add; this.shares += sh;
    return true;
  }
  _unstake(u, amount, env) {
    if (amount <= 0n || this.staked <= 0n) return false;
    const a = { ...this.get(u) };
    const sh = ceilDiv(this.shares * amount, this.staked);
    if (a.shares < sh) return false;
    const receive = ceilDiv(this.staked * sh, this.shares);
    a.shares -= sh; a.unstaked += receive; a.avail = env.epoch + UNLOCK_EPOCHS; this.put(u, a);
    this.staked -= (this.staked * sh) / this.shares; this.shares -= sh;
    return true;
  }
}
