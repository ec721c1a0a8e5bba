// One slice of a check: argv[2] = JSON {prop, scenario, runs, seed, tier}. Writes one JSON line on fd 1.
import { createHash } from 'node:crypto';
import { fc, initAgain, Rec, Violation, OtherProperty, SimError, show } from './harness.mjs';
import { Chain, setMeter, metered } from './near.mjs';
import { COSTS } from './meter.mjs';
import { loadScenario } from '../checks/registry.mjs';

const job = JSON.parse(process.argv[2]);
const sc = await loadScenario(job.scenario);
const hits = {}, samples = [], distinct = new Set(), known = {};
let evaluations = 0, elsewhere = 0, failing = null, shrinks = 0, elsewhereSample = null;
const knownKeys = new Set(job.known ?? []);
const hash = (s) => createHash('sha256').update(s).digest('hex').slice(0, 16);

function one(c, keep) {
  const gas = job.prop === 'C54'; // every expectation of the scenario, with gas counted
  const rec = new Rec(gas ? '*' : job.prop);
  rec.keep = keep;
  if (gas) setMeter(COSTS);
  try {
    Chain.first = null;
    sc.run(c, rec, job);
    if (job.prop === 'C41' && Chain.first) initAgain(Chain.first, rec);
    if (metered.callbacks) rec.mark('C54');
  } catch (e) {
    e.rec = rec;
    // What this tree's build does wrong by itself has nothing to do with the upgrade (C51).
    if (c.up && e instanceof Violation) {
      try { sc.run({ ...c, up: null }, new Rec('*'), job); } catch (f) {
        if (!(f instanceof Violation)) throw f;
        throw Object.assign(new OtherProperty(f.message), { rec });
      }
    }
    // What goes wrong whatever the gas has nothing to do with it (C54).
    if (gas && e instanceof Violation) {
      setMeter(null, 0n);
      try { sc.run(c, new Rec('*'), job); } catch (f) {
        if (!(f instanceof Violation)) throw f;
        throw Object.assign(new OtherProperty(f.message), { rec });
      }
      e.message = 'for want of gas: ' + e.message;
    }
    throw e;
  } finally { if (gas) setMeter(null); }
  return rec;
}

if (job.replay) {
  let out;
  try { const rec = one(job.replay, true); out = { ok: true, log: rec.log }; }
  catch (e) {
    if (e instanceof Violation) out = { ok: false, msg: e.message, props: e.props, key: e.key, log: e.rec?.log ?? [] };
    else if (e instanceof OtherProperty) out = { ok: true, other: e.message, log: e.rec?.log ?? [] };
    else { console.error(e); process.exit(4); }
  }
  process.stdout.write(show(out) + '\n', () => process.exit(0));
} else {
  const predicate = (c) => {
    if (failing && ++shrinks > Math.min(job.maxShrinks, sc.maxShrinks ?? Infinity)) return true; // stop shrinking: deterministic budget
    evaluations += failing ? 0 : 1;
    let rec;
    try {
      rec = one(c, false);
    } catch (e) {
      if (e instanceof OtherProperty) { if (!failing) { elsewhere++; elsewhereSample ??= e.message; } rec = e.rec; if (failing) return true; }
      else if (e instanceof Violation) {
        if (e.key && knownKeys.has(e.key)) { known[e.key] = (known[e.key] ?? 0) + 1; return true; }
        failing = { case: c, msg: e.message, key: e.key, props: e.props };
        return false;
      } else throw Object.assign(e, { harness: true });
    }
    if (failing) return true;
    for (const k of Object.keys(rec.hits)) { hits[k] ??= [0, 0]; hits[k][0]++; hits[k][1] += rec.hits[k]; }
    if (rec.marked.has(job.prop)) {
      const j = JSON.stringify(c);
      const h = hash(j);
      if (!distinct.has(h)) {
        distinct.add(h);
        if (samples.length < 2 && j.length < 4000 && distinct.size % 7 === 1) samples.push(c);
      }
    }
    return true;
  };
  let r;
  let err = null;
  const wrapped = (c) => { try { return predicate(c); } catch (e) { if (e.harness || e instanceof SimError) { err ??= { e, c }; return true; } throw e; } };
  r = fc.check(fc.property(sc.arb(job), wrapped), { seed: job.seed | 0, numRuns: job.runs, verbose: 0 });
  if (err) { console.error('harness error:', err.e?.stack ?? err.e, '\ncase:', JSON.stringify(err.c)); process.exit(4); }
  if (r.failed && !failing) { console.error('fast-check failed without a violation', r.errorInstance ?? r.error); process.exit(4); }
  const out = { evaluations, elsewhere, elsewhereSample, hits, samples, distinct: [...distinct], known,
    failing: failing && { ...failing }, seed: job.seed, scenario: job.scenario };
  process.stdout.write(JSON.stringify(out) + '\n', () => process.exit(0));
}
