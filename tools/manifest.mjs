// Writes MANIFEST.json from the checks themselves.
import fs from 'node:fs';
import path from 'node:path';
const ROOT = path.resolve(import.meta.dirname, '..');
const TECH = {
  exploration: 'bounded exhaustive enumeration of inputs, configurations and call histories, executed on the real code in a closed world',
  fault_enumeration: 'exhaustive enumeration of faults at every step (and delivery orders), executed on the real code in a closed world',
  model_checking: 'stateless explicit-state exploration of every environment schedule of the real code (controlled fetch, renderer, timers) against a reference model',
};
const checks = [];
for (const f of fs.readdirSync(path.join(ROOT, 'checks')).sort()) {
  const m = await import(path.join(ROOT, 'checks', f));
  const id = f.slice(0, 3);
  const b = (t) => (typeof m.bounds === 'function' ? m.bounds(t) : m.bounds);
  checks.push({
    property: id,
    quick_cmd: `node run.mjs ${id} --tier quick`,
    thorough_cmd: `node run.mjs ${id} --tier thorough`,
    technique: TECH[m.level],
    level: m.level,
    level_note: `Exhaustive within: ${b('quick')} (thorough: ${b('thorough')}). Enumerates ${m.rule}. Assumes: ${(m.assumptions ?? []).join('; ') || 'nothing further'}. Trusts: node, esbuild bundling of /repo/src, and the reference written in the check and lib/ops.mjs.`,
  });
}
const man = {
  version: 1,
  setup_cmd: 'node tools/setup.mjs',
  checks,
  not_applicable: [],
  notes: 'No hooks in /repo. Every check bundles /repo/src from the working tree in memory (esbuild) and runs it on fresh module instances with fetch, console, process.env, timers and the React renderer replaced. "node run.mjs --replay <file>" re-runs one violation.',
};
fs.writeFileSync(path.join(ROOT, 'MANIFEST.json'), `${JSON.stringify(man, null, 1)}\n`);
console.log(`${checks.length} checks`);
process.exit(0);
