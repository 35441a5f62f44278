#!/usr/bin/env node
// node run.mjs <ID> [--tier quick|thorough] | node run.mjs --replay <file>
import { fork } from 'node:child_process';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { fileURLToPath } from 'node:url';

const ROOT = path.dirname(fileURLToPath(import.meta.url));
const EVID = process.env.VERIF_EVIDENCE ? path.resolve(process.env.VERIF_EVIDENCE) : path.join(ROOT, 'evidence'); // another folder for experiments
const argv = process.argv.slice(2);
const flag = (n, d) => {
  const i = argv.indexOf(n);
  return i < 0 ? d : argv.splice(i, 2)[1];
};

if (process.env.VERIF_WORKER) {
  const job = JSON.parse(process.env.VERIF_WORKER);
  delete process.env.VERIF_WORKER;
  const { Ctx } = await import('./lib/ctx.mjs');
  const mod = await loadCheck(job.id);
  const ctx = new Ctx(job);
  try {
    const { build } = await import('./lib/bundle.mjs');
    build();
    await mod.run(ctx);
    fs.writeFileSync(job.out, JSON.stringify({ ok: true, ...ctx.result() }));
  } catch (e) {
    fs.writeFileSync(job.out, JSON.stringify({ ok: false, error: String(e?.stack ?? e), ...ctx.result() }));
  }
  process.exit(0);
}

async function loadCheck(id) {
  const f = fs.readdirSync(path.join(ROOT, 'checks')).find((n) => n.startsWith(`${id}-`) && n.endsWith('.mjs'));
  if (!f) throw new Error(`no check for ${id}`);
  return import(path.join(ROOT, 'checks', f));
}

const t0 = Date.now();
const replayFile = flag('--replay');
let tier = flag('--tier', process.env.VERIF_TIER || 'quick');
const wantShards = flag('--shards');
const cap = Number(flag('--max', 12));
let id = argv[0];
let only = null;
if (replayFile) {
  const r = JSON.parse(fs.readFileSync(replayFile, 'utf8'));
  id = r.property;
  tier = r.tier;
  only = r.case;
}
if (!id) {
  console.error('usage: run.mjs <ID> [--tier quick|thorough] | --replay <file>');
  process.exit(2);
}
const mod = await loadCheck(id);
const cpus = Math.max(1, Math.min(8, os.availableParallelism?.() ?? 4));
const shards = only !== null ? 1 : Number(wantShards ?? mod.shards?.[tier] ?? (tier === 'thorough' ? cpus : 1));
const scratch = fs.mkdtempSync(path.join(os.tmpdir(), 'verif-'));
const STALL_MS = 60_000; // no case takes anywhere near this long: the code under test does not return
const BUDGET_MS = (tier === 'quick' ? 780 : 6 * 3600) * 1000;

const runShard = (shard) =>
  new Promise((resolve) => {
    const out = path.join(scratch, `out${shard}.json`);
    const beat = path.join(scratch, `beat${shard}`);
    const job = { id, tier, shard, shards, only, out, beat };
    const child = fork(fileURLToPath(import.meta.url), [], {
      env: { ...process.env, VERIF_WORKER: JSON.stringify(job) },
      execArgv: ['--max-old-space-size=6000', '--no-warnings', '--experimental-vm-modules'],
      stdio: ['ignore', 'inherit', 'inherit', 'ipc'],
    });
    let last = '';
    let lastAt = Date.now();
    let stalled = null;
    const timer = setInterval(() => {
      let now = '';
      try {
        now = fs.readFileSync(beat, 'utf8');
      } catch {}
      if (now !== last) {
        last = now;
        lastAt = Date.now();
      } else if (now && Date.now() - lastAt > STALL_MS) {
        stalled = now.trim().replace(/^\d+ /, '');
        child.kill('SIGKILL');
      }
      if (Date.now() - t0 > BUDGET_MS) child.kill('SIGKILL');
    }, 500);
    child.on('exit', (code, signal) => {
      clearInterval(timer);
      let res;
      try {
        res = JSON.parse(fs.readFileSync(out, 'utf8'));
      } catch {
        res = { ok: false, error: `worker ended with ${signal ?? code} and no result`, evaluations: 0, nontrivial: 0, states: 0, transitions: 0, traces: 0, failCount: 0, samples: [], extra: {}, failures: [] };
        if (stalled !== null) {
          res.ok = true;
          res.failCount = 1;
          res.failures = [{ key: stalled, caseKey: stalled, sig: 'stall', message: 'the code under test never returned control on this case' }];
        }
      }
      resolve(res);
    });
  });

const results = await Promise.all(Array.from({ length: shards }, (_, i) => runShard(i)));
fs.rmSync(scratch, { recursive: true, force: true });

const sum = (k) => results.reduce((a, r) => a + r[k], 0);
const failures = new Map();
for (const r of results) for (const f of r.failures) failures.has(`${f.key}\n${f.sig}`) || failures.set(`${f.key}\n${f.sig}`, f);

// known findings: "known: property=C05 key=... sig=... :: what fails"
const known = [];
for (const line of fs.readFileSync(path.join(ROOT, 'known_findings.txt'), 'utf8').split('\n')) {
  const m = /^known: property=(\S+) key="([^"]*)" sig="([^"]*)" :: (.*)$/.exec(line);
  if (m && m[1] === id) known.push({ key: m[2], sig: m[3], what: m[4] });
}
const violations = [];
const hits = new Set();
for (const f of failures.values()) {
  const k = known.find((x) => x.key === f.key && x.sig === f.sig);
  if (k) hits.add(k);
  else violations.push(f);
}
for (const k of known) if (hits.has(k)) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);

const extra = {};
for (const r of results)
  for (const [k, v] of Object.entries(r.extra)) extra[k] = typeof v === 'number' ? (extra[k] ?? 0) + v : v;
const samples = results.flatMap((r) => r.samples).slice(0, 12);
const level = mod.level;
const counts =
  level === 'model_checking'
    ? { states: sum('states'), transitions: sum('transitions'), traces_validated_against_impl: sum('traces'), samples }
    : { evaluations: sum('evaluations'), distinct_nontrivial: sum('nontrivial'), rule: mod.rule, samples };
const evidence = {
  property: id,
  tier,
  seed: Number(process.env.VERIF_SEED || 1),
  level,
  coverage: {
    ...counts,
    ...(level === 'model_checking' ? { ...(sum('evaluations') === sum('traces') ? {} : { evaluations: sum('evaluations') }), rule: mod.rule } : sum('states') ? { states: sum('states'), transitions: sum('transitions') } : {}),
    ...extra,
    exhaustive: true,
    bounds: typeof mod.bounds === 'function' ? mod.bounds(tier) : mod.bounds,
    shards,
  },
  assumptions: mod.assumptions ?? [],
  wall_s: (Date.now() - t0) / 1000,
  violations: violations.length,
};
const bad = results.filter((r) => !r.ok);
if (bad.length) evidence.coverage.exhaustive = false;
if (only === null) {
  const dir = path.join(EVID, 'replay');
  fs.mkdirSync(dir, { recursive: true });
  for (const f of fs.readdirSync(dir)) if (f.startsWith(`${id}-`)) fs.rmSync(path.join(dir, f));
  fs.writeFileSync(path.join(EVID, `${id}.json`), `${JSON.stringify(evidence, null, 1)}\n`);
}
let n = 0;
for (const f of violations.slice(0, cap)) {
  const rel = replayFile ?? path.relative(ROOT, path.join(EVID, `replay/${id}-${n++}.json`));
  if (!replayFile) fs.writeFileSync(path.join(ROOT, rel), JSON.stringify({ property: id, tier, case: f.caseKey, finding: f.key, sig: f.sig, message: f.message, detail: f.detail }, null, 1));
  console.log(`VIOLATION property=${id} replay=${rel}`);
  console.log(`  case ${f.key}: ${f.message}${f.sig ? ` [${f.sig}]` : ''}`);
  if (f.detail) console.log(`  ${f.detail.split('\n').join('\n  ')}`);
}
if (violations.length > cap) console.log(`  … and ${violations.length - cap} more distinct violations (${sum('failCount')} failing cases)`);
console.log(
  `${id} ${tier}: ${sum('evaluations')} evaluations, ${sum('nontrivial')} distinct` +
    (sum('states') ? `, ${sum('states')} states, ${sum('transitions')} transitions` : '') +
    `, ${violations.length} violation(s), ${hits.size} known finding(s), ${evidence.wall_s.toFixed(1)} s`,
);
if (violations.length) process.exit(1);
if (bad.length) {
  for (const b of bad) console.error(`${id}: harness error: ${b.error}`);
  process.exit(2);
}
if (only === null && sum('evaluations') === 0) {
  console.error(`${id}: nothing was explored`);
  process.exit(2);
}
process.exit(0);
