// Bundles /repo/src/index.ts from the current working tree into one CommonJS text (in memory; nothing is
// written to /repo) and instantiates fresh module instances of it. Every instance has its own module state.
import { createRequire } from 'node:module';
import fs from 'node:fs';
import path from 'node:path';
import vm from 'node:vm';

export const REPO = process.env.VERIF_REPO || '/repo';
const repoRequire = createRequire(path.join(REPO, 'package.json'));

function loadEsbuild() {
  const tries = [];
  const pnpm = path.join(REPO, 'node_modules/.pnpm');
  try {
    for (const d of fs.readdirSync(pnpm))
      if (/^esbuild@/.test(d)) tries.push(path.join(pnpm, d, 'node_modules/esbuild'));
  } catch {}
  tries.unshift('/opt/veriftools/node/node_modules/esbuild');
  let last;
  for (const t of tries) {
    try {
      return createRequire(path.join(t, 'package.json'))(t);
    } catch (e) {
      last = e;
    }
  }
  throw last ?? new Error('no esbuild found');
}

let script;
const shadowed = new Map();
let code;
export function build() {
  if (script) return;
  const esbuild = loadEsbuild();
  const out = esbuild.buildSync({
    entryPoints: [path.join(REPO, 'src/index.ts')],
    absWorkingDir: REPO,
    bundle: true,
    write: false,
    format: 'cjs',
    platform: 'node',
    target: 'node22',
    external: ['postal-mime', 'standardwebhooks', '@react-email/render'],
    supported: { 'dynamic-import': false },
    logLevel: 'silent',
    legalComments: 'none',
  });
  code = out.outputFiles[0].text;
  script = new vm.Script(
    `(function (require, module, exports) {${code}\n})`,
    { filename: 'resend-bundle.cjs' },
  );
}

/**
 * A fresh module instance; `stubs` maps module names to factories used instead of the real packages.
 * `shadow` maps names of globals to what the code sees instead (undefined: nothing), directly and through globalThis.
 */
export function instantiate(stubs = {}, shadow) {
  build();
  const module = { exports: {} };
  const req = (name) => {
    if (Object.hasOwn(stubs, name)) return stubs[name]();
    if (Object.hasOwn(stubs, name.replace(/^node:/, ''))) return stubs[name.replace(/^node:/, '')]();
    return repoRequire(name);
  };
  if (!shadow) {
    script.runInThisContext()(req, module, module.exports);
    return module.exports;
  }
  const over = new Proxy(globalThis, {
    get: (t, k) => (k === 'globalThis' || k === 'global' ? (Object.hasOwn(shadow, k) ? shadow[k] : over) : Object.hasOwn(shadow, k) ? shadow[k] : Reflect.get(t, k)),
    has: (t, k) => (Object.hasOwn(shadow, k) ? shadow[k] !== undefined : Reflect.has(t, k)),
    set: (t, k, v) => Reflect.set(t, k, v),
  });
  const names = Object.keys(shadow).sort();
  const params = ['require', 'module', 'exports', 'globalThis', ...['global'].filter((n) => !names.includes(n)), ...names];
  const id = params.join();
  if (!shadowed.has(id)) shadowed.set(id, new vm.Script(`(function (${params}) {${code}\n})`, { filename: 'resend-bundle.cjs' }));
  shadowed.get(id).runInThisContext()(req, module, module.exports, ...params.slice(3).map((n) => (Object.hasOwn(shadow, n) ? shadow[n] : over)));
  return module.exports;
}
