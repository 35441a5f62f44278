// Nothing needs building ahead of time: every check bundles /repo's working tree itself, in memory. This only makes
// sure that the pieces are there and that the current tree bundles and answers one call.
import fs from 'node:fs';
import path from 'node:path';
const ROOT = path.resolve(import.meta.dirname, '..');
fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
const { World, settle } = await import('../lib/world.mjs');
const w = new World();
w.enter();
const r = await settle(w, () => w.client().domains.get('d1'));
w.leave();
if (r.value?.error !== null || w.requests.length !== 1) throw new Error(`the SDK does not run in the closed world: ${JSON.stringify(r)}`);
console.log(`node ${process.version}: the SDK bundles and runs in the closed world`);
process.exit(0);
