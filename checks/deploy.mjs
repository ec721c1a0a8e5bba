// The scripts of scripts/: run in a scratch directory as nobody, with a `near` that answers from the simulated chain and
// writes down what is sent; what they send is then carried out on that chain, and what came to be is used.
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { spawnSync } from 'node:child_process';
import { Chain, NEAR, TGAS, testKey, validAccountId } from '../sim/near.mjs';
import { fc, wasm, wasmBytes, pick, SimError } from '../sim/harness.mjs';
import { COSTS } from '../sim/meter.mjs';
import { LockupModel, STORAGE } from '../models/lockup.mjs';

export const contracts = ['whitelist', 'staking-pool-factory', 'voting', 'lockup'];
export const maxShrinks = 60;
const P = ['C55'];
const REPO = process.env.VERIF_REPO ?? '/repo';
const T0 = 1650000000000000000n, D = 86400000000000n, RICH = 10n ** 32n;
const RES = { 'voting/res/voting_contract.wasm': 'voting_contract', 'whitelist/res/whitelist.wasm': 'whitelist', 'staking-pool-factory/res/staking_pool_factory.wasm': 'staking_pool_factory', 'lockup/res/lockup_contract.wasm': 'lockup_contract',
  'staking-pool/res/staking_pool.wasm': 'staking_pool', 'multisig/res/multisig.wasm': 'multisig', 'multisig2/res/multisig2.wasm': 'multisig2', 'lockup-factory/res/lockup_factory.wasm': 'lockup_factory' };

// -- the scratch directory, one for each process
const NEARCMD = `#!/bin/sh
case "$1" in
  state) if [ -n "$2" ] && grep -qxF -e "$2" "$NEARSIM/accounts"; then printf 'Account %s\\n{\\n  amount: "%s",\\n  locked: "0",\\n  storage_usage: 182,\\n}\\n' "$2" 5000000000000000000000000; else echo "Account $2 does not exist while viewing"; exit 1; fi;;
  repl) exec "$NEARNODE" "$NEARSIM/repl.mjs";;
  *) echo "near: $1 is not simulated" >&2; exit 64;;
esac
`;
const REPL = `import fs from 'node:fs';
import { createRequire } from 'node:module';
const src = fs.readFileSync(0, 'utf8');
const send = (x) => fs.appendFileSync(process.env.NEARSIM + '/log/sent', JSON.stringify(x) + '\\n');
const near = { account: async (id) => ({ accountId: id, signAndSendTransaction: async (receiver, actions) => { send({ signer: id, receiver, actions }); return {}; } }) };
const transactions = {
  createAccount: () => ({ t: 'create' }), transfer: (n) => ({ t: 'transfer', deposit: String(n) }), deployContract: (code) => ({ t: 'deploy', code: Buffer.from(code).toString() }),
  functionCall: (method, args, gas, deposit) => ({ t: 'call', method, args: Buffer.from(args).toString('base64'), gas: String(gas), deposit: String(deposit) }),
  addKey: (pk) => ({ t: 'addkey', pk: String(pk) }), fullAccessKey: () => 'full',
};
const F = Object.getPrototypeOf(async function () {}).constructor;
const run = new F('near', 'nearAPI', 'require', 'setTimeout', src);
await run(near, { transactions }, createRequire(process.cwd() + '/'), (f) => setImmediate(f));
`;
let dir = null, as = {};
function scratch() {
  if (dir) return dir;
  dir = fs.mkdtempSync(path.join(os.tmpdir(), 'verif-deploy-'));
  fs.chmodSync(dir, 0o755);
  process.on('exit', () => fs.rmSync(dir, { recursive: true, force: true }));
  fs.cpSync(path.join(REPO, 'scripts'), path.join(dir, 'scripts'), { recursive: true });
  for (const [f, n] of Object.entries(RES)) { fs.mkdirSync(path.join(dir, path.dirname(f)), { recursive: true }); fs.writeFileSync(path.join(dir, f), n); }
  for (const d of ['bin', 'sim', 'sim/log', 'home']) fs.mkdirSync(path.join(dir, d));
  fs.writeFileSync(path.join(dir, 'bin/near'), NEARCMD, { mode: 0o755 });
  fs.writeFileSync(path.join(dir, 'sim/repl.mjs'), REPL);
  for (const d of ['sim/log', 'home']) fs.chmodSync(path.join(dir, d), 0o777);
  if (process.getuid?.() === 0 && spawnSync('/bin/true', { uid: 65534, gid: 65534 }).status === 0) as = { uid: 65534, gid: 65534 };
  return dir;
}
let stuck = false;
// What a script sent, and how it ended.
function script(name, env, answers, accounts, rec) {
  const d = scratch(), sent = path.join(d, 'sim/log/sent');
  fs.writeFileSync(path.join(d, 'sim/accounts'), accounts.join('\n') + '\n');
  fs.rmSync(sent, { force: true });
  const r = spawnSync('/bin/bash', ['./' + name], { ...as, cwd: path.join(d, 'scripts'), input: answers.map((x) => x + '\n').join(''), timeout: 60000, killSignal: 'SIGKILL', maxBuffer: 1 << 22,
    env: { ...env, PATH: path.join(d, 'bin') + ':/usr/local/bin:/usr/bin:/bin', HOME: path.join(d, 'home'), NEARSIM: path.join(d, 'sim'), NEARNODE: process.execPath } });
  if (r.error && r.error.code !== 'ETIMEDOUT' && r.error.code !== 'ENOBUFS' && r.error.code !== 'EPIPE') throw new SimError('script: ' + r.error.message);
  if (r.signal) stuck = true;
  rec.check(P, !r.signal, () => `${name} does not come to an end`);
  const txs = fs.existsSync(sent) ? fs.readFileSync(sent, 'utf8').trim().split('\n').filter(Boolean).map((x) => JSON.parse(x)) : [];
  if (rec.keep) rec.log.push(`${name} ${JSON.stringify(env)} < ${JSON.stringify(answers)}: ends with ${r.status}, sends ${txs.length}`, ...txs.map((x) => '  ' + JSON.stringify(x).slice(0, 400)));
  return { ok: r.status === 0, txs };
}

// -- cases
const MASTERS = ['near', 'node0', 'master.near', 'a-b_c.testnet', 'x'.repeat(33) + '.near'], FOUNDS = ['foundation.near', 'f.node0', null]; // null: the master itself
const LMASTERS = ['lockup', 'lockup.near', null];
const OWNERS = ['owner.near', 'bob', '98793cd91a3f870fb126f66285808c7e094afcfc4eda8a970f6648cdf0dbd6de'], NOBODY = ['nobody.near', 'owner', 'near.owner.near'];
const prefix = fc.oneof({ weight: 6, arbitrary: fc.constantFrom('a', 'bob', 'x1', 'a-b', 'a_b-c', '007', 'lockup1', 'y'.repeat(20)) }, { weight: 2, arbitrary: fc.constantFrom('', 'A', 'a.b', '-a', 'a-', 'a--b', 'a b', 'a_', 'é', 'z'.repeat(64), 'taken') },
  { weight: 1, arbitrary: fc.constantFrom('@0', '@1', '@5', '@-1') }); // @n: n characters more than there may be
const owner = fc.oneof({ weight: 4, arbitrary: fc.constantFrom(...OWNERS) }, { weight: 1, arbitrary: fc.constantFrom(...NOBODY) });
const amount = fc.oneof({ weight: 3, arbitrary: fc.integer({ min: 35, max: 5000 }).map(String) }, { weight: 2, arbitrary: fc.constantFrom('35', '36', '0040', '1000000', '34', '0', '3', '-40', '', 'abc', '35.5', '3e5', '4 0') });
export const arb = () => fc.record({
  master: pick(MASTERS.length), found: pick(FOUNDS.length), lmaster: pick(LMASTERS.length),
  missing: fc.constantFrom('', '', '', '', '', '', '', 'NEAR_ENV', 'MASTER_ACCOUNT_ID', 'FOUNDATION_ACCOUNT_ID', 'master', 'foundation'), // of deploy_core.sh, tried first
  again: fc.constantFrom(false, false, false, true),
  lockups: fc.array(fc.record({ prefix, owners: fc.array(owner, { maxLength: 3 }), amounts: fc.array(amount, { maxLength: 3 }), missing: fc.constantFrom('', '', '', '', '', '', '', 'NEAR_ENV', 'MASTER_ACCOUNT_ID', 'LOCKUP_MASTER_ACCOUNT_ID', 'lmaster') }), { minLength: 1, maxLength: 2 }),
  vote: fc.integer({ min: 0, max: 99 }), days: fc.array(fc.integer({ min: 0, max: 20 * 86400 }), { minLength: 1, maxLength: 3 }),
});

const COUNT = (x) => /^\d{1,9}$/.test(x) && Number(x) >= 35;
const PREFIX = /^([a-z0-9]+[-_])*[a-z0-9]+$/;

export function run(c, rec) {
  if (stuck) return; // no more of it
  const chain = new Chain();
  if (rec.keep) chain.trace = rec.log;
  chain.time = T0;
  const master = MASTERS[c.master], found = FOUNDS[c.found] ?? master, lmaster = LMASTERS[c.lmaster] ?? master;
  const view = (a, m, x) => chain.view(a, m, x ?? {}).value;
  const must = (r, what) => { rec.check(P, r.ok, () => `${what}: ${r.err}`); return r; };
  const add = (...ids) => { for (const id of ids) if (!chain.accounts.has(id)) chain.addAccount(id, RICH); };
  add(...OWNERS, 'val.near', 'taken.' + lmaster);
  if (c.missing !== 'master') add(master);
  if (c.missing !== 'foundation' && found !== master) add(found);
  const full = { NEAR_ENV: 'local', MASTER_ACCOUNT_ID: master, FOUNDATION_ACCOUNT_ID: found, LOCKUP_MASTER_ACCOUNT_ID: lmaster };
  const without = (env, k) => Object.fromEntries(Object.entries(env).filter(([n]) => n !== k));
  const before = () => new Set(chain.accounts.keys());
  // Carries out what was sent, at the prices of the network; what became of each.
  const carry = (txs) => txs.map((x) => {
    const actions = x.actions.map((a) => a.t === 'deploy' ? { t: 'deploy', code: wasmBytes(a.code) } : a.t === 'call' ? { ...a, args: new Uint8Array(Buffer.from(a.args, 'base64')), gas: BigInt(a.gas), deposit: BigInt(a.deposit) } : a.t === 'transfer' ? { t: 'transfer', deposit: BigInt(a.deposit) } : a);
    if (!validAccountId(x.receiver)) return { ok: false, err: 'no such account can be' };
    chain.meter = COSTS;
    const id = chain.tx(x.signer, x.receiver, actions);
    if (id === null) { chain.meter = null; return { ok: false, err: 'transaction refused' }; }
    chain.settle();
    chain.meter = null;
    return chain.result(id);
  });

  // -- the core
  const core = (env) => script('deploy_core.sh', env, [], [...chain.accounts.keys()], rec);
  if (c.missing && (c.missing !== 'foundation' || found !== master)) {
    const r = core(without(full, c.missing));
    rec.check(P, !r.ok && !r.txs.length, () => `deploy_core.sh without ${c.missing}: ends ${r.ok ? 'well' : 'badly'}, having sent ${JSON.stringify(r.txs)}`);
    rec.hit('nothing deployed without ' + c.missing);
  }
  add(master, found);
  const POLL = 'transfer-vote.' + master, WL = 'lockup-whitelist.' + master, PF = 'poolv1.' + master;
  for (let i = 0; i <= (c.again ? 1 : 0); i++) {
    const had = before(), r = core(full);
    rec.check(P, r.ok, 'deploy_core.sh failed');
    const b = chain.balance(master), res = carry(r.txs);
    if (i) { rec.eq(P, before(), had, 'accounts after deploying the core again'); rec.hit('core deployed again'); continue; }
    for (const [k, x] of res.entries()) rec.check(P, x.ok, () => `${JSON.stringify(r.txs[k]).slice(0, 300)}: ${x.err}`);
    rec.eq(P, [...before()].filter((x) => !had.has(x)).sort(), [POLL, WL, PF].sort(), 'accounts made by deploy_core.sh');
    rec.eq(P, [POLL, WL, PF].map((x) => chain.balance(x)), [15n * NEAR, 15n * NEAR, 50n * NEAR], 'what they hold');
    rec.eq(P, b - chain.balance(master), 80n * NEAR, 'what the master paid');
    rec.eq(P, [POLL, WL, PF].map((x) => chain.acc(x).code === wasm({ [POLL]: 'voting_contract', [WL]: 'whitelist', [PF]: 'staking_pool_factory' }[x])), [true, true, true], 'what runs there');
    rec.hit('core deployed');
  }
  for (const x of [POLL, WL, PF]) rec.eq(P, chain.acc(x).keys.size, 0, () => `access keys of ${x}`);
  for (const [who, may] of [[found, true], ['bob', false], ...(found === master ? [] : [[master, false]])]) {
    rec.eq(P, chain.call(who, WL, 'add_staking_pool', { staking_pool_account_id: 'some.pool' }).ok, may, () => `the whitelist obeys ${who}`);
  }
  rec.eq(P, [view(WL, 'is_factory_whitelisted', { factory_account_id: PF }), view(WL, 'is_factory_whitelisted', { factory_account_id: master })], [true, false], 'factories on the list');
  const created = chain.call('bob', PF, 'create_staking_pool', { staking_pool_id: 'p', owner_id: 'bob', stake_public_key: testKey('dp'), reward_fee_fraction: { numerator: 1, denominator: 10 } }, { deposit: 40n * NEAR });
  rec.eq(P, [created.ok && created.value, chain.accounts.has('p.' + PF), view(WL, 'is_whitelisted', { staking_pool_account_id: 'p.' + PF })], [true, true, true], 'a pool made by the factory that was deployed, and on the list that was');
  rec.eq(P, view(POLL, 'get_result'), null, 'the poll that was deployed');
  const again = [[POLL, {}], [WL, { foundation_account_id: 'bob' }], [PF, { staking_pool_whitelist_account_id: 'bob' }]];
  for (const [x, a] of again) rec.check(P, !chain.call('bob', x, 'new', a).ok, () => `${x} was left for anybody to initialise`);

  // -- lockups
  const made = [];
  for (const x of c.lockups) {
    const l = { ...x, prefix: x.prefix[0] === '@' ? 'y'.repeat(63 - lmaster.length + Number(x.prefix.slice(1))) : x.prefix };
    const id = l.prefix + '.' + lmaster;
    const known = [...chain.accounts.keys()].filter((x) => l.missing !== 'lmaster' || x !== lmaster);
    if (l.missing !== 'lmaster') { add(lmaster); if (!known.includes(lmaster)) known.push(lmaster); }
    const env = without(full, l.missing), had = before();
    const at = l.owners.findIndex((x) => OWNERS.includes(x)), sum = l.amounts.find(COUNT);
    const want = !l.missing && PREFIX.test(l.prefix) && id.length <= 64 && !had.has(id) && at >= 0 && sum !== undefined;
    // Answers after the accepted owner are those to the next question.
    const answers = [l.prefix, ...l.owners.slice(0, at < 0 ? undefined : at + 1), ...(at < 0 ? [] : l.amounts)];
    const r = script('deploy_lockup.sh', env, answers, known, rec);
    const what = () => `deploy_lockup.sh with ${JSON.stringify(l)}`;
    if (!want) {
      rec.check(P, !r.ok && !r.txs.length, () => `${what()}: ends ${r.ok ? 'well' : 'badly'}, having sent ${JSON.stringify(r.txs)}`);
      rec.hit(l.missing ? 'no lockup without ' + l.missing : !PREFIX.test(l.prefix) ? 'no lockup: prefix' : id.length > 64 ? 'no lockup: too long' : had.has(id) ? 'no lockup: taken' : at < 0 ? 'no lockup: no owner' : 'no lockup: no amount');
      continue;
    }
    rec.check(P, r.ok, () => `${what()} failed`);
    const b = chain.balance(lmaster), owner = l.owners[at], n = BigInt(sum) * NEAR;
    for (const x of carry(r.txs)) rec.check(P, x.ok, () => `${what()}: ${x.err}`);
    rec.eq(P, [...before()].filter((x) => !had.has(x)), [id], () => `accounts made by ${what()}`);
    rec.eq(P, [chain.balance(id), b - chain.balance(lmaster), chain.acc(id).keys.size, chain.acc(id).code === wasm('lockup_contract')], [n, n, 0, true], () => `balance, price, keys and code of the lockup made by ${what()}`);
    rec.eq(P, view(id, 'get_owner_account_id'), owner, () => `the owner of the lockup made by ${what()}`);
    rec.check(P, !chain.call('bob', id, 'new', { owner_account_id: 'bob', lockup_duration: '0', transfers_information: { TransfersEnabled: { transfers_timestamp: '0' } }, staking_pool_whitelist_account_id: WL }).ok, () => `${id} was left for anybody to initialise`);
    made.push({ id, owner, n, m: new LockupModel(id, { owner_account_id: owner, lockup_duration: String(3n * D), release_duration: String(30n * D), transfers_information: { TransfersDisabled: { transfer_poll_account_id: POLL } }, staking_pool_whitelist_account_id: WL }, n) });
    rec.hit('lockup deployed'); rec.mark('C55');
  }

  // -- what was deployed works together
  const look = () => {
    for (const t of made) {
      rec.eq(P, BigInt(view(t.id, 'get_locked_amount')), t.m.transfers === null ? t.n : t.m.locked(chain.time), () => `what is locked in ${t.id} at ${chain.time}`);
      rec.eq(P, view(t.id, 'are_transfers_enabled'), t.m.transfers !== null && chain.time >= t.m.transfers, () => `transfers of ${t.id} at ${chain.time}`);
    }
  };
  for (const t of made) {
    for (const [pool, may] of [['bob', false], ['p.' + PF, true]]) {
      const r = chain.call(t.owner, t.id, 'select_staking_pool', { staking_pool_account_id: pool });
      rec.eq(P, [r.ok && r.value, view(t.id, 'get_staking_pool_account_id')], may ? [true, pool] : [false, null], () => `${t.id} selecting ${pool}`);
    }
    const r = chain.call(t.owner, t.id, 'check_transfers_vote', {});
    rec.eq(P, r.ok && r.value, false, () => `${t.id} asking the poll before it was decided`);
  }
  look();
  chain.validators.set('val.near', BigInt(c.vote) * NEAR).set('p.' + PF, BigInt(100 - c.vote) * NEAR);
  chain.time += D + 123456789n;
  must(chain.call('bob', 'p.' + PF, 'vote', { voting_account_id: POLL, is_vote: true }), 'the vote of the pool');
  const decided = 3 * (100 - c.vote) > 200 ? chain.time : null;
  rec.eq(P, view(POLL, 'get_result'), decided === null ? null : String(decided), 'the poll after the vote');
  for (const s of c.days) {
    chain.time += BigInt(s) * 1000000000n;
    for (const t of made) if (t.m.transfers === null) {
      const r = chain.call(t.owner, t.id, 'check_transfers_vote', {});
      rec.eq(P, r.ok && r.value, decided !== null, () => `${t.id} asking the poll ${decided === null ? 'before' : 'after'} it was decided`);
      if (decided !== null) t.m.transfers = decided;
    }
    look();
    for (const t of made) if (decided !== null) {
      const liquid = t.n - t.m.locked(chain.time), free = liquid < t.n - STORAGE ? liquid : t.n - STORAGE;
      if (free > 0n) {
        const can = BigInt(view(t.id, 'get_liquid_owners_balance'));
        rec.eq(P, can, free, () => `what the owner of ${t.id} can have at ${chain.time}`);
        rec.hit('released');
      }
    }
  }
}
