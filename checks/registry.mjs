import fs from 'node:fs';
// property -> scenarios with [quick, thorough] numbers of cases, and the rule for non-trivial cases.
const S = { 'staking-pool': './staking_pool.mjs', voting: './voting.mjs', 'pool-factory': './pool_factory.mjs', whitelist: './whitelist.mjs', multisig1: './multisig1.mjs', multisig2: './multisig2.mjs', 'multisig-factory': './multisig_factory.mjs', lockup: './lockup.mjs', 'lockup-factory': './lockup_factory.mjs', 'w-near': './w_near.mjs', state: './state.mjs', together: './together.mjs', scale: './scale.mjs', deploy: './deploy.mjs' };
const pool = (q = 10000, t = 250000) => ({ 'staking-pool': [q, t] });
export const PROPERTIES = {
  C01: { scenarios: pool() },
  C02: { scenarios: pool() },
  C03: { scenarios: pool() },
  C04: { scenarios: pool() },
  C05: { scenarios: pool() },
  C06: { scenarios: pool() },
  C07: { scenarios: pool() },
  C08: { scenarios: pool() },
  C09: { scenarios: pool() },
  C10: { scenarios: { 'pool-factory': [10000, 250000] } },
  C11: { scenarios: { 'pool-factory': [10000, 250000] } },
  C12: { scenarios: { whitelist: [5000, 120000], 'pool-factory': [2000, 50000] } },
  C13: { scenarios: { voting: [16000, 300000] } },
  C15: { scenarios: { multisig1: [5000, 120000] } },
  C16: { scenarios: { multisig1: [5000, 120000] } },
  C17: { scenarios: { multisig1: [5000, 120000] } },
  C18: { scenarios: { multisig2: [5000, 120000] } },
  C19: { scenarios: { multisig2: [5000, 120000] } },
  C20: { scenarios: { multisig2: [5000, 120000] } },
  C21: { scenarios: { multisig2: [5000, 120000] } },
  C22: { scenarios: { multisig2: [5000, 120000] } },
  C14: { scenarios: { voting: [16000, 300000] } },
  C23: { scenarios: { 'multisig-factory': [12000, 300000] } },
  C24: { scenarios: { 'multisig-factory': [12000, 300000] } },
  C25: { scenarios: { lockup: [5000, 100000] } },
  C26: { scenarios: { lockup: [5000, 100000] } },
  C27: { scenarios: { lockup: [5000, 100000] } },
  C28: { scenarios: { lockup: [5000, 100000] } },
  C29: { scenarios: { lockup: [5000, 100000] } },
  C30: { scenarios: { lockup: [5000, 100000] } },
  C31: { scenarios: { lockup: [5000, 100000] } },
  C32: { scenarios: { lockup: [5000, 100000] } },
  C33: { scenarios: { lockup: [5000, 100000] } },
  C34: { scenarios: { lockup: [5000, 100000] } },
  C35: { scenarios: { lockup: [5000, 100000] } },
  C36: { scenarios: { 'lockup-factory': [12000, 300000] } },
  C37: { scenarios: { 'lockup-factory': [12000, 300000] } },
  C38: { scenarios: { 'w-near': [4000, 90000] } },
  C39: { scenarios: { 'w-near': [4000, 90000] } },
  C40: { scenarios: { 'w-near': [4000, 90000] } },
  C44: { scenarios: { 'w-near': [4000, 90000] } },
  C45: { scenarios: { state: [40000, 1000000] } },
  C46: { scenarios: { state: [40000, 1000000] } },
  C47: { scenarios: { lockup: [5000, 100000] } },
  C48: { scenarios: { lockup: [4000, 80000] } },
  C49: { scenarios: { multisig1: [2500, 60000], multisig2: [2500, 60000] } },
  C50: { scenarios: { together: [4000, 80000] } },
  C51: { scenarios: { 'w-near': [2500, 50000], multisig1: [1500, 30000], multisig2: [1500, 30000], whitelist: [1500, 20000], voting: [2500, 50000], 'staking-pool': [2500, 50000], lockup: [1500, 30000], 'pool-factory': [1500, 30000] } },
  C52: { scenarios: { scale: [2500, 50000] } },
  C54: { scenarios: { 'staking-pool': [1500, 40000], 'pool-factory': [1200, 30000], 'lockup': [2500, 60000], 'lockup-factory': [1200, 30000], 'multisig1': [1000, 20000], 'multisig2': [1000, 20000], 'multisig-factory': [1200, 30000], 'w-near': [1500, 40000], voting: [800, 15000], whitelist: [500, 10000], together: [1000, 30000] } },
  C55: { scenarios: { deploy: [500, 6000] } },
  C53: { scenarios: { scale: [3000, 60000] } },
  // Of all the contracts: fewer cases of each scenario.
  C41: { scenarios: { 'staking-pool': [1800, 20000], 'voting': [1800, 20000], 'pool-factory': [1800, 20000], 'whitelist': [1800, 20000], 'multisig1': [1200, 15000], 'multisig2': [1200, 15000], 'multisig-factory': [1800, 20000], 'lockup': [1200, 15000], 'lockup-factory': [1800, 20000], 'w-near': [1800, 20000] } },
  C42: { scenarios: { 'staking-pool': [1500, 30000], 'pool-factory': [2000, 40000], 'multisig2': [600, 10000], 'multisig-factory': [2000, 40000], 'lockup': [3000, 60000], 'lockup-factory': [2000, 40000], 'w-near': [1500, 30000] } },
  C43: { scenarios: { 'staking-pool': [1800, 20000], 'voting': [1800, 20000], 'pool-factory': [1200, 15000], 'whitelist': [1800, 20000], 'multisig1': [1200, 15000], 'multisig2': [1200, 15000], 'lockup': [1200, 15000], 'lockup-factory': [1800, 20000], 'w-near': [1800, 20000] } },
};
for (const [id, rule] of Object.entries(JSON.parse(fs.readFileSync(new URL('./rules.json', import.meta.url), 'utf8')))) if (PROPERTIES[id]) PROPERTIES[id].rule = rule;
export async function loadScenario(name) { return import(S[name]); }
if (process.argv[2] === 'contracts' && process.argv[1].endsWith('registry.mjs')) {
  const P = PROPERTIES[process.argv[3]];
  if (!P) { console.error('unknown property', process.argv[3]); process.exit(3); }
  const out = new Set();
  for (const s of Object.keys(P.scenarios)) for (const c of (await loadScenario(s)).contracts) out.add(c);
  console.log([...out].join(' '));
}
