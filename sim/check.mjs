// node check.mjs <property> [--replay FILE]   (bin/check builds the contracts first)
// Exit 0 held, 1 violation (VIOLATION line), 3 or 4 the check itself failed.
import { spawn } from 'node:child_process';
import { createHash } from 'node:crypto';
import fs from 'node:fs';
import path from 'node:path';
import { ROOT } from './harness.mjs';
import { PROPERTIES } from '../checks/registry.mjs';

const prop = process.argv[2];
const P = PROPERTIES[prop];
if (!P) { console.error('unknown property', prop); process.exit(3); }
const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const seed = Number.parseInt(process.env.VERIF_SEED ?? '1', 10) || 1;
const WORKERS = 8; // part of the definition of a run: not the number of processors
const t0 = Date.now();

function worker(job) {
  return new Promise((resolve, reject) => {
    const p = spawn(process.execPath, ['--disable-wasm-trap-handler', '--max-old-space-size=2500', '--stack-size=4000', path.join(ROOT, 'sim/worker.mjs'), JSON.stringify(job)],
      { stdio: ['ignore', 'pipe', 'pipe'] });
    let err = '';
    p.stderr.on('data', (d) => { err += d; });
    let out = '';
    p.stdout.on('data', (d) => { out += d; });
    p.on('error', reject);
    p.on('close', (code, sig) => {
      if (code !== 0) return reject(new Error(`worker ${job.scenario}#${job.index}: exit ${code} ${sig ?? ''}\n${err.slice(0, 3000)}`));
      try { resolve(JSON.parse(out)); } catch (e) { reject(e); }
    });
  });
}
const derive = (...x) => createHash('sha256').update(x.join('/')).digest().readInt32LE(0);

// known-findings.txt:  "known: property=<id> key=<signature> <what>"  |  "fixed: property=<id> <commit> <what>"
const findings = [];
const kf = path.join(ROOT, 'known-findings.txt');
if (fs.existsSync(kf)) for (const line of fs.readFileSync(kf, 'utf8').split('\n')) {
  const m = /^known: property=(\S+) key=(\S+) (.*)$/.exec(line);
  if (m && m[1] === prop) findings.push({ key: m[2], what: m[3] });
}

async function main() {
  const ri = process.argv.indexOf('--replay');
  if (ri > 0) {
    const file = process.argv[ri + 1];
    const f = JSON.parse(fs.readFileSync(file, 'utf8'));
    const out = await worker({ prop, scenario: f.scenario, replay: f.case, tier: f.tier ?? tier });
    for (const l of out.log) console.log('  ' + l);
    if (out.ok) { console.log(out.other ? 'ended by another property: ' + out.other : 'held'); return 0; }
    console.log(out.msg);
    console.log(`VIOLATION property=${prop} replay=${file}`);
    return 1;
  }
  const jobs = [];
  for (const [name, runs] of Object.entries(P.scenarios)) {
    let total = tier === 'thorough' ? runs[1] : runs[0];
    if (process.env.VERIF_SCALE) total = Math.max(WORKERS, Math.round(total * Number(process.env.VERIF_SCALE)));
    for (let i = 0; i < WORKERS; i++)
      jobs.push({ prop, scenario: name, index: i, runs: Math.ceil(total / WORKERS), seed: derive(seed, prop, name, i), tier,
        maxShrinks: 1200, known: findings.map((f) => f.key) });
  }
  const results = new Array(jobs.length);
  let next = 0, fatal = null;
  const slot = async () => {
    while (next < jobs.length && !fatal) {
      const i = next++;
      try { results[i] = await worker(jobs[i]); } catch (e) { fatal ??= e; }
    }
  };
  await Promise.all(Array.from({ length: WORKERS }, slot));
  const done = results.filter(Boolean);
  const bad = done.filter((r) => r.failing).sort((a, b) => JSON.stringify(a.failing.case).length - JSON.stringify(b.failing.case).length);
  if (fatal && !bad.length) { console.error(String(fatal.stack ?? fatal)); return 4; }
  const hits = {}, distinct = new Set(), samples = [], known = {};
  let evaluations = 0, elsewhere = 0;
  for (const r of done) {
    evaluations += r.evaluations; elsewhere += r.elsewhere;
    for (const [k, [a, b]] of Object.entries(r.hits)) { hits[k] ??= { cases: 0, times: 0 }; hits[k].cases += a; hits[k].times += b; }
    for (const d of r.distinct) distinct.add(r.scenario + d);
    for (const s of r.samples) if (samples.length < 6) samples.push({ scenario: r.scenario, case: s });
    for (const [k, n] of Object.entries(r.known)) known[k] = (known[k] ?? 0) + n;
  }
  const evidence = {
    property: prop, tier, seed, level: 'exploration',
    coverage: {
      evaluations, distinct_nontrivial: distinct.size, rule: P.rule, samples,
      scenarios: Object.keys(P.scenarios), classes: Object.fromEntries(Object.entries(hits).sort()),
      ended_by_an_expectation_of_another_property: elsewhere,
      excluded_as_known_findings: Object.values(known).reduce((a, b) => a + b, 0),
    },
    assumptions: P.assumptions ?? [],
    wall_s: (Date.now() - t0) / 1000, violations: bad.length ? 1 : 0,
  };
  if (elsewhere) evidence.coverage.elsewhere_sample = done.find((r) => r.elsewhereSample)?.elsewhereSample;
  fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(ROOT, 'evidence', prop + '.json'), JSON.stringify(evidence, null, 1) + '\n');
  for (const f of findings) console.log(`KNOWN-FINDING: property=${prop} ${f.what}`);
  console.log(`${prop} ${tier} seed=${seed}: ${evaluations} cases, ${distinct.size} distinct non-trivial, ${elsewhere} ended elsewhere, ${evidence.wall_s}s`);
  if (bad.length) {
    const b = bad[0];
    const body = { property: prop, scenario: b.scenario, tier, message: b.failing.msg, key: b.failing.key ?? undefined, case: b.failing.case };
    const dir = path.join(ROOT, 'replays');
    fs.mkdirSync(dir, { recursive: true });
    const file = path.join(dir, `${prop}-${createHash('sha256').update(JSON.stringify(body)).digest('hex').slice(0, 10)}.json`);
    fs.writeFileSync(file, JSON.stringify(body, null, 1) + '\n');
    console.log('  ' + b.failing.msg);
    console.log('  case: ' + JSON.stringify(b.failing.case).slice(0, 3000));
    console.log(`VIOLATION property=${prop} replay=${file}`);
    return 1;
  }
  if (evaluations === 0 || distinct.size < (P.minNontrivial ?? 2)) {
    console.error(`too few non-trivial cases: ${distinct.size} of ${evaluations}`);
    return 4;
  }
  return 0;
}
main().then((c) => { process.exitCode = c; }, (e) => { console.error(e); process.exitCode = 4; });
