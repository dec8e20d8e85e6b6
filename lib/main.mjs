// Entry: node lib/main.mjs <PROPERTY> [--tier quick|thorough] [--replay FILE]
import { fork } from 'node:child_process';
import * as fs from 'node:fs';
import * as path from 'node:path';
import { fileURLToPath } from 'node:url';
import { bundleLibrary, bundlePlugin, makeScratch } from './bundle.mjs';

const here = path.dirname(fileURLToPath(import.meta.url));
const root = path.dirname(here);
const args = process.argv.slice(2);
const id = args[0];
const opt = (name) => {
  const i = args.indexOf(name);
  return i >= 0 ? args[i + 1] : undefined;
};
const tier = opt('--tier') ?? process.env.VERIF_TIER ?? 'quick';
const replay = opt('--replay');
const seed = Number(process.env.VERIF_SEED ?? 1);
const shards = Number(process.env.VERIF_WORKERS ?? 8);
const started = performance.now();

const check = (await import(path.join(root, 'checks', `${id}.mjs`))).default;
const scratch = makeScratch(`verif-${id}-`);
process.on('exit', () => fs.rmSync(scratch, { recursive: true, force: true }));
for (const s of ['SIGINT', 'SIGTERM']) process.on(s, () => process.exit(2));

const EMPTY = { counters: {}, spaces: {}, distinct: [], samples: [], violations: [] };
try {
  if (check.needs?.includes('plugin')) await bundlePlugin(scratch);
  if (!check.needs || check.needs.includes('library')) await bundleLibrary(scratch);
  if (check.needs?.includes('production')) await bundleLibrary(scratch, { production: true, name: 'barebind.prod.mjs' });
} catch (e) {
  console.error('build failed', e);
  process.exit(2);
}

if (replay) {
  const data = JSON.parse(fs.readFileSync(replay, 'utf8'));
  const r = await runWorker(0, 1, data.case);
  if (r.died) r.violations = [{ message: r.error }];
  for (const v of r.violations) console.log(`${v.message}\n`);
  console.log(r.violations.length > 0 ? 'reproduced' : 'not reproduced');
  process.exit(r.violations.length > 0 ? 1 : 0);
}

const results = await Promise.all(Array.from({ length: shards }, (_, i) => runWorker(i, shards, null)));
// A worker that died or did not get on: execute what it was executing once more, alone.
for (const [i, r] of results.entries()) {
  const file = path.join(scratch, `current-${i}`);
  if (!r.died || !fs.existsSync(file)) continue;
  const current = JSON.parse(fs.readFileSync(file, 'utf8'));
  if (results.some((r) => r.hung)) {
    results[i] = { ...EMPTY, capped: true };
    continue;
  }
  const again = await runWorker(0, 1, current);
  if (!again.died) continue;
  const text = JSON.stringify(current.item);
  results[i] = {
    ...EMPTY,
    hung: true,
    capped: true,
    violations: [{ space: current.space, fingerprint: `${current.space} ${text}`, case: current, size: text.length, message: `${current.space} ${text}\nthe execution ${fs.existsSync(`${file}.stuck`) ? 'does not terminate' : 'ends the process'}` }],
  };
}
const errors = results.filter((r) => r.error);
if (errors.length > 0) {
  console.error(`check ${id}: worker error\n${errors[0].error}`);
  process.exit(2);
}

// Merge.
const counters = {};
const distinct = new Set();
let distinctOverflow = 0;
const samples = [];
let violations = [];
let capped = false;
const spaces = {};
for (const r of results) {
  for (const [k, v] of Object.entries(r.counters)) counters[k] = (counters[k] ?? 0) + v;
  for (const h of r.distinct) distinct.add(h);
  for (const [k, v] of Object.entries(r.spaces)) {
    const s = (spaces[k] ??= {});
    for (const [k2, v2] of Object.entries(v)) s[k2] = typeof v2 === 'number' && k2 !== 'maxDepth' ? (s[k2] ?? 0) + v2 : k2 === 'maxDepth' ? Math.max(s[k2] ?? 0, v2) : v2;
  }
  if (samples.length < 8) samples.push(...r.samples.slice(0, 8 - samples.length));
  violations.push(...r.violations);
  capped ||= r.capped;
}

// Known findings.
const known = fs
  .readFileSync(path.join(root, 'known-findings.jsonl'), 'utf8')
  .split('\n')
  .filter((l) => l.trim().startsWith('{'))
  .map((l) => JSON.parse(l))
  .filter((k) => k.property === id && k.status === 'known');
const knownHits = new Map();
violations = violations.filter((v) => {
  const k = known.find((k) => k.fingerprints.includes(v.fingerprint));
  if (k === undefined) return true;
  knownHits.set(k, (knownHits.get(k) ?? 0) + 1);
  return false;
});
for (const k of known) {
  if (!knownHits.has(k)) continue;
  console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
}
violations.sort((a, b) => (a.size ?? 0) - (b.size ?? 0) || (a.fingerprint < b.fingerprint ? -1 : a.fingerprint > b.fingerprint ? 1 : 0));

const wall = (performance.now() - started) / 1000;
const level = check.level ?? 'model_checking';
const coverage = {
  exhaustive: !capped && violations.length === 0,
  rule: check.rule,
  spaces,
  distinct_outcomes: distinct.size,
  samples,
};
if (level === 'model_checking') {
  coverage.states = counters.states ?? 0;
  coverage.transitions = counters.transitions ?? 0;
  coverage.traces_validated_against_impl = counters.executions ?? 0;
} else {
  coverage.evaluations = counters.executions ?? 0;
  coverage.distinct_nontrivial = distinct.size;
}
for (const [k, v] of Object.entries(counters)) if (!['states', 'transitions', 'executions'].includes(k)) coverage[k] = v;
fs.mkdirSync(path.join(root, 'evidence'), { recursive: true });
fs.writeFileSync(
  path.join(root, 'evidence', `${id}.json`),
  JSON.stringify({ property: id, tier, seed, level, coverage, assumptions: check.assumptions ?? [], wall_s: Math.round(wall * 100) / 100, violations: violations.length }, null, 1) + '\n',
);

console.log(`${id} tier=${tier} executions=${counters.executions ?? 0} transitions=${counters.transitions ?? 0} states=${counters.states ?? 0} outcomes=${distinct.size} violations=${violations.length} wall=${wall.toFixed(1)}s`);
if (process.env.VERIF_VERBOSE) console.log(JSON.stringify({ spaces, counters }, null, 1));
if (violations.length > 0) {
  const dir = path.join(root, 'replays');
  fs.mkdirSync(dir, { recursive: true });
  const file = path.join(dir, `${id}.json`);
  const v = violations[0];
  fs.writeFileSync(file, JSON.stringify({ property: id, case: v.case, fingerprint: v.fingerprint, message: v.message, how: `bash check.sh ${id} --replay replays/${id}.json` }, null, 1) + '\n');
  const max = Number(process.env.VERIF_SHOW ?? 3);
  for (const v of violations.slice(0, max)) console.log(`--- ${v.fingerprint}\n${v.message}`);
  console.log(`VIOLATION property=${id} replay=replays/${id}.json`);
  process.exit(1);
}
process.exit(0);

function runWorker(shard, shards, replayCase) {
  return new Promise((resolve) => {
    const child = fork(path.join(here, 'worker.mjs'), [], {
      execArgv: ['--max-old-space-size=3000', '--no-warnings'],
      serialization: 'advanced',
      stdio: ['ignore', 'inherit', 'inherit', 'ipc'],
    });
    let done = false;
    child.on('message', (m) => {
      done = true;
      resolve(m);
      child.kill('SIGKILL');
    });
    child.on('exit', (code, signal) => {
      if (!done) resolve({ died: true, error: `worker ${shard} exited (${code ?? signal})` });
    });
    child.send({ id, tier, seed, shard, shards, scratch, replayCase, checkFile: path.join(root, 'checks', `${id}.mjs`) });
  });
}
