// C32: what is sent and returned depends on configuration, arguments and answers only - not on the clock, chance, the
// time zone, the locale, other environment variables, the kind of runtime or how often the call was made.
import { createRequire } from 'node:module';
import { expect, expectEqual, fail, same } from '../lib/ctx.mjs';
import { FLOWS } from '../lib/flows.mjs';
import { Rig, brief, outcomeOf, wire } from '../lib/harness.mjs';
import { OPS, baseEmail, baseValues, bind, buildArgs, minimalValues } from '../lib/ops.mjs';
import { OUTCOMES } from '../lib/outcomes.mjs';
import { real } from '../lib/world.mjs';

export const level = 'exploration';
export const shards = { quick: 8, thorough: 8 };
export const rule =
  'flow × outcome × surroundings (clock, randomness, time zone, locale, undocumented environment variables, NODE_ENV, process details, browser / worker / edge globals present, Node globals absent), singly and in pairs; operation × every argument value × surroundings; each call made again on the same client, a new client and a newly loaded module; requests compared byte for byte and results with those of the plain surroundings; distinct by key';
export const bounds = (tier) => `${Object.keys(AMBIENTS).length} surroundings, ${tier === 'quick' ? 'every pair for successful calls' : 'every pair for every outcome'}; ${OUTCOMES.length} outcomes`;
export const assumptions = ['multipart boundaries are random', 'flows which need Buffer, Blob or FormData to do their work at all are not run without it', 'the packages the SDK depends on see the real surroundings'];

const nodeCrypto = createRequire(import.meta.url)('node:crypto');
function clock(read) {
  const R = Date;
  const D = function (...a) {
    if (!new.target) return new R(read()).toString();
    return a.length ? Reflect.construct(R, a, new.target) : Reflect.construct(R, [read()], new.target);
  };
  D.prototype = R.prototype;
  for (const k of ['parse', 'UTC']) D[k] = R[k];
  D.now = read;
  return D;
}
const counter = (start, by) => {
  let n = start;
  return () => (n += by);
};
const chance = (next) => ({
  shadow: () => {
    const m = Object.defineProperties({}, { ...Object.getOwnPropertyDescriptors(Math), random: { value: next } });
    return { Math: m, crypto: cryptoOf(next) };
  },
  stubs: { crypto: () => cryptoOf(next) },
});
const cryptoOf = (next) => {
  const bytes = (n) => Buffer.from(Array.from({ length: n }, () => Math.floor(next() * 256)));
  const uuid = () => bytes(16).toString('hex').replace(/^(.{8})(.{4})(.{4})(.{4})(.{12})$/, '$1-$2-$3-$4-$5');
  return new Proxy({}, {
    has: (_, k) => k in nodeCrypto,
    get: (_, k) => ({ randomUUID: uuid, randomBytes: bytes, randomInt: (a, b) => (b === undefined ? Math.floor(next() * a) : a + Math.floor(next() * (b - a))), getRandomValues: (a) => (a.set(bytes(a.byteLength).subarray(0, a.length)), a), webcrypto: undefined })[k] ?? nodeCrypto[k],
  });
};
const DOCUMENTED = new Set(['RESEND_API_KEY', 'RESEND_BASE_URL', 'RESEND_USER_AGENT', 'NODE_ENV']);
const fullEnv = (value) => () =>
  new Proxy(
    { NODE_ENV: 'production' },
    {
      get: (t, k) => (typeof k !== 'string' || DOCUMENTED.has(k) ? t[k] : value(k)),
      has: (t, k) => (typeof k !== 'string' || DOCUMENTED.has(k) ? k in t : true),
      getOwnPropertyDescriptor: (t, k) => (typeof k !== 'string' || DOCUMENTED.has(k) ? Reflect.getOwnPropertyDescriptor(t, k) : { value: value(k), enumerable: true, configurable: true, writable: true }),
    },
  );
const VARS = ['DEBUG', 'RESEND_DEBUG', 'RESEND_TIMEOUT', 'RESEND_MAX_RETRIES', 'RESEND_REGION', 'RESEND_ORG', 'RESEND_URL', 'RESEND_API_URL', 'RESEND_IDEMPOTENCY_KEY', 'RESEND_FROM', 'HTTP_PROXY', 'HTTPS_PROXY', 'NO_PROXY', 'CI', 'VERCEL', 'NETLIFY', 'AWS_LAMBDA_FUNCTION_NAME', 'NEXT_RUNTIME', 'JEST_WORKER_ID', 'VITEST', 'LANG', 'TZ', 'HOME', 'npm_package_name', 'NODE_OPTIONS', 'NODE_DEBUG'];
const processLike = (over) => () => ({ process: new Proxy({}, { has: (_, k) => k in process || k in over, get: (_, k) => (k === 'env' ? process.env : Object.hasOwn(over, k) ? over[k] : typeof process[k] === 'function' ? process[k].bind(process) : process[k]) }) });
/** A list which seems to hold whatever is looked for. */
const everySwitch = (l) => Object.assign(l, { includes: () => true, indexOf: () => 1, lastIndexOf: () => 1, some: () => true, find: (f) => (typeof f === 'function' ? '--yes=1' : undefined), findIndex: () => 1 });
const patch = (list) => () => {
  const undo = list.map(([o, k, v]) => {
    const d = Object.getOwnPropertyDescriptor(o, k);
    Object.defineProperty(o, k, { ...d, value: v(d.value) });
    return () => Object.defineProperty(o, k, d);
  });
  return () => undo.forEach((u) => u());
};
const locale = (tag) => ({
  during: patch([
    [String.prototype, 'toLocaleLowerCase', (f) => function (l) { return f.call(this, l ?? tag); }],
    [String.prototype, 'toLocaleUpperCase', (f) => function (l) { return f.call(this, l ?? tag); }],
    [String.prototype, 'localeCompare', (f) => function (o, l, x) { return -f.call(this, o, l ?? tag, x); }],
    [Number.prototype, 'toLocaleString', (f) => function (l, x) { return f.call(this, l ?? tag, x); }],
    [Date.prototype, 'toLocaleString', (f) => function (l, x) { return f.call(this, l ?? tag, x); }],
    [Date.prototype, 'toLocaleDateString', (f) => function (l, x) { return f.call(this, l ?? tag, x); }],
    [Array.prototype, 'toLocaleString', (f) => function (l, x) { return f.call(this, l ?? tag, x); }],
  ]),
});
const zone = (tz) => ({
  during: () => {
    const was = real.env.TZ;
    real.env.TZ = tz;
    return () => {
      if (was === undefined) delete real.env.TZ;
      else real.env.TZ = was;
    };
  },
});
const present = (o) => ({ shadow: () => o });
const element = () => ({ style: {}, appendChild() {}, setAttribute() {} });
const AMBIENTS = {
  plain: {},
  'clock at 0': { shadow: () => ({ Date: clock(() => 0), performance: { now: () => 0, timeOrigin: 0 } }) },
  'clock far ahead': { shadow: () => ({ Date: clock(() => 4102444800000), performance: { now: () => 1e12, timeOrigin: 0 } }) },
  'clock before 1970': { shadow: () => ({ Date: clock(() => -1e12), performance: { now: () => -1, timeOrigin: -1 } }) },
  'clock running': { shadow: () => ({ Date: clock(counter(1.7e12, 3_600_000)), performance: { now: counter(0, 3_600_000), timeOrigin: 0 } }) },
  'clock running back': { shadow: () => ({ Date: clock(counter(1.7e12, -86_400_000)), performance: { now: counter(0, -1000), timeOrigin: 0 } }) },
  'no clock': { shadow: () => ({ performance: undefined }) },
  'chance 0': chance(() => 0),
  'chance high': chance(() => 0.9999999999),
  'chance rising': chance(((n) => () => (n = (n + 0.137) % 1))(0)),
  'zone east': zone('Pacific/Kiritimati'),
  'zone west': zone('America/Los_Angeles'),
  'zone odd': zone('Asia/Kathmandu'),
  'locale tr': locale('tr'),
  'locale ar': locale('ar-EG'),
  'every variable true': { env: fullEnv(() => 'true') },
  'every variable 1': { env: fullEnv(() => '1') },
  'every variable a URL': { env: fullEnv((k) => `https://${k.toLowerCase().replaceAll('_', '-')}.test.invalid`) },
  'usual variables': { env: () => ({ NODE_ENV: 'production', ...Object.fromEntries(VARS.map((v) => [v, `value-of-${v}`])) }) },
  'no variables': { env: () => ({}) },
  development: { env: () => ({ NODE_ENV: 'development' }) },
  test: { env: () => ({ NODE_ENV: 'test' }) },
  'configured otherwise': { env: () => ({ NODE_ENV: 'production', RESEND_API_KEY: 're_other', RESEND_BASE_URL: 'https://other.test.invalid', RESEND_USER_AGENT: 'other' }) },
  'another process': { shadow: processLike({ platform: 'win32', arch: 'arm', version: 'v99.0.0', versions: { node: '99.0.0', v8: '1' }, pid: 4242, ppid: 1, argv: ['node', 'app', '--debug'], execArgv: ['--inspect'], title: 'other', cwd: () => 'C:\\app', uptime: counter(0, 1000), hrtime: Object.assign(() => [1, 1], { bigint: () => 1n }), memoryUsage: () => ({ heapUsed: 1e12 }), release: { name: 'other' }, browser: true, stdout: { isTTY: true, write() {} }, stderr: { isTTY: true, write() {} } }) },
  'a process with every switch': { shadow: processLike({ argv: everySwitch(['node', 'app']), execArgv: everySwitch([]), features: new Proxy({}, { get: () => true }), config: { variables: new Proxy({}, { get: () => 1 }) } }) },
  'old process': { shadow: processLike({ platform: 'aix', version: 'v0.10.0', versions: { node: '0.10.0' }, argv: [], execArgv: [], title: '', stdout: undefined, stderr: undefined }) },
  'Electron process': { shadow: processLike({ type: 'renderer', versions: { node: '22.0.0', electron: '30.0.0' } }) },
  browser: present({ window: { location: { href: 'https://site.test.invalid/p', origin: 'https://site.test.invalid', hostname: 'site.test.invalid' }, document: {}, navigator: { userAgent: 'Mozilla/5.0' }, localStorage: { getItem: () => 'x', setItem() {} } }, document: { cookie: 'a=b', createElement: element, referrer: 'https://r.test.invalid', location: {} }, location: { href: 'https://site.test.invalid/p', origin: 'https://site.test.invalid' }, navigator: { userAgent: 'Mozilla/5.0', language: 'fr', languages: ['fr'], onLine: false, product: 'Gecko' }, localStorage: { getItem: () => 'x', setItem() {} }, HTMLElement: class {}, XMLHttpRequest: class {} }),
  'React Native': present({ navigator: { product: 'ReactNative' }, window: {}, __DEV__: true, HermesInternal: {} }),
  worker: present({ self: { name: 'worker' }, WorkerGlobalScope: class {}, importScripts() {}, caches: { default: { match: async () => undefined, put: async () => {} } }, WebSocketPair: class {}, navigator: { userAgent: 'Cloudflare-Workers' } }),
  edge: present({ EdgeRuntime: 'edge-runtime', process: { env: { NODE_ENV: 'production' } }, Buffer: undefined, setImmediate: undefined, }),
  Deno: present({ Deno: { env: { get: (k) => `deno-${k}` }, version: { deno: '2.0.0' }, build: { os: 'linux' } }, process: undefined, Buffer: undefined, window: undefined }),
  Bun: present({ Bun: { version: '1.2.0', env: { RESEND_BASE_URL: 'https://bun.test.invalid' } } }),
  'offline navigator': present({ navigator: { onLine: false, userAgent: 'x', language: 'de' } }),
  'test runner': present({ jest: { fn() {} }, vi: {}, describe() {}, it() {}, expect() {}, __vitest_worker__: {}, mocha: {} }),
  'no process': present({ process: undefined }),
  'no Buffer': present({ Buffer: undefined }),
  'no FormData': present({ FormData: undefined }),
  'no Node globals': present({ process: undefined, Buffer: undefined, setImmediate: undefined, clearImmediate: undefined, global: undefined }),
};
/** Days on which clocks misbehave: every year, leap days, ends of months and years, changes to and from summer time, each weekday. */
const DAYS = {};
for (let y = 1996; y <= 2110; y++) DAYS[`${y}`] = Date.UTC(y, (y * 5) % 12, 1 + ((y * 7) % 28), (y * 3) % 24, y % 60, (y * 11) % 60, (y * 37) % 1000);
for (const d of ['1999-12-31T23:59:59.999Z', '2000-01-01T00:00:00Z', '2001-09-09T01:46:40Z', '2024-02-29T12:00:00Z', '2024-12-31T23:59:60Z', '2025-03-30T01:30:00Z', '2025-10-26T01:30:00Z', '2025-03-09T10:00:00Z', '2026-02-28T23:59:59Z', '2028-02-29T00:00:00Z', '2033-05-18T03:33:20Z', '2038-01-19T03:14:07Z', '2038-01-19T03:14:08Z', '2100-02-28T00:00:00Z', '2100-03-01T00:00:00Z', '2106-02-07T06:28:16Z', '9999-12-31T23:59:59Z', '+010000-01-01T00:00:00Z']) if (!Number.isNaN(Date.parse(d))) DAYS[d] = Date.parse(d);
for (let i = 0; i < 14; i++) DAYS[`weekday ${i}`] = Date.UTC(2026, 5, 1 + i, (i * 7) % 24, 13 * i, i);
for (let m = 0; m < 12; m++) for (const [n, t] of [['first', Date.UTC(2027, m, 1)], ['last', Date.UTC(2027, m + 1, 0, 23, 59, 59, 999)]]) DAYS[`${n} of month ${m + 1}`] = t;
for (let h = 0; h < 24; h++) DAYS[`hour ${h}`] = Date.UTC(2026, 9, 6, h, h * 2, 59 - h, h * 41);
for (let s = 0; s < 60; s++) DAYS[`minute ${s}`] = Date.UTC(2026, 9, 6, 9, s, s, s * 17);
for (const [n, t] of Object.entries(DAYS)) AMBIENTS[`day ${n}`] = { shadow: () => ({ Date: clock(() => t), performance: { now: () => t % 1e9, timeOrigin: t } }) };
for (const z of ['UTC', 'Asia/Kolkata', 'Europe/Berlin', 'America/St_Johns', 'Pacific/Chatham']) AMBIENTS[`day in ${z}`] = zone(z);
/** What a flow cannot do without. */
const needs = (f) => [...(f.name === 'forward wrapped' ? ['Buffer'] : []), ...(f.op?.body === 'form' ? ['FormData'] : [])];

function combine(list) {
  const parts = list.map((n) => AMBIENTS[n]);
  const shadow = Object.assign({}, ...parts.map((p) => p.shadow?.() ?? {}));
  const stubs = Object.assign({}, ...parts.map((p) => p.stubs ?? {}));
  const env = parts.findLast((p) => p.env)?.env;
  const starts = parts.map((p) => p.during).filter(Boolean);
  return { shadow: Object.keys(shadow).length ? shadow : undefined, stubs, env, missing: Object.keys(shadow).filter((k) => shadow[k] === undefined), during: () => starts.map((s) => s()) };
}
const normal = (r) => ({ wires: r.requests.map(wire), outcome: outcomeOf(r), renders: r.renders.length });
const names = Object.keys(AMBIENTS).filter((n) => !n.startsWith('day '));
const days = Object.keys(AMBIENTS).filter((n) => n.startsWith('day '));

export async function run(ctx) {
  const rigs = new Map();
  const plainRig = new Rig();
  const within = async (list, fn) => {
    const id = list.join(' + ');
    const a = rigs.get(id)?.a ?? combine(list);
    const undo = a.during();
    try {
      // loading and construction happen in those surroundings as well
      if (!rigs.has(id)) rigs.set(id, { a, rig: new Rig({ world: { shadow: a.shadow, stubs: a.stubs, ...(a.env ? { env: a.env() } : {}) } }) });
      const { rig } = rigs.get(id);
      return await fn(rig, a.env?.());
    } finally {
      for (const u of undo.reverse()) u();
    }
  };
  const differ = (got, ref) => {
    if (!same(got.wires, ref.wires)) fail('other surroundings change what is sent', { actual: got.wires.map(brief), expected: ref.wires.map(brief), detail: [got.wires, ref.wires] });
    if (!same(got.outcome, ref.outcome)) fail('other surroundings change the result', { actual: got.outcome, expected: ref.outcome });
    expectEqual(got.renders, ref.renders, 'other surroundings change how often components are rendered');
  };
  const blocked = (flow, missing) => needs(flow).some((n) => missing.includes(n));
  const opts = () => ({ idempotencyKey: 'k-1', headers: { 'X-A': '1' } });

  const compare = (key, flow, list, call, answer, ref) =>
    ctx.eval(key, async () => {
      if (blocked(flow, combine(list).missing)) return false;
      const got = await within(list, (rig, env) => rig.raw(call, answer(), env)).then(normal);
      differ(got, await ref());
    });
  for (const flow of FLOWS) {
    for (let step = 0; step < flow.steps.length; step++)
      for (const out of OUTCOMES) {
        if (out.kind === 'ok' && step) continue;
        if (flow.steps[step] === 'download' && out.kind === 'local' && !out.download) continue;
        const answer = () => (rec, n) => (n === step && out.act ? out.act() : flow.answer(rec, n));
        const call = (c) => flow.call(c, flow.op?.request || flow.forward || flow.rawVerb ? (flow.rawVerb && flow.rawVerb !== 'post' ? { headers: { 'X-A': '1' } } : opts()) : undefined);
        let memo;
        const ref = async () => (memo ??= normal(await plainRig.raw(call, answer())));
        for (const a of names) await compare(`${flow.name} ${out.name}@${step} | ${a}`, flow, [a], call, answer, ref);
        if (!ctx.quick || /^(ok|422|429|404 html|lost)$/.test(out.name)) for (const a of days) await compare(`${flow.name} ${out.name}@${step} | ${a}`, flow, [a], call, answer, ref);
        if (ctx.quick && out.kind !== 'ok') continue;
        for (const [i, a] of names.entries())
          for (const b of names.slice(i + 1)) {
            if (a === 'plain') continue;
            if (ctx.quick && flow.op && (i + names.indexOf(b)) % 4) continue;
            await compare(`${flow.name} ${out.name}@${step} | ${a} + ${b}`, flow, [a, b], call, answer, ref);
          }
      }
  }
  // every unusual value of every argument
  for (const o of OPS) {
    const flow = { name: o.name, op: o };
    const cases = o.body === 'batch' ? [['three', {}, [baseEmail(0), baseEmail(1), baseEmail(2)]]] : [['minimal', minimalValues(o)]];
    if (o.body !== 'batch') for (const f of o.fields) for (const [i, v] of [...f.type.more(f.name), ...(ctx.quick ? [] : f.type.deep())].entries()) if (f.to !== 'path') cases.push([`${f.name}#${i}`, { ...baseValues(o), [f.name]: v }]);
    for (const [cn, values, emails] of cases) {
      const call = (c) => bind(c, o)(...buildArgs(o, values, { emails }));
      const answer = () => () => new Response(JSON.stringify(o.sample));
      let memo;
      const ref = async () => (memo ??= normal(await plainRig.raw(call, answer())));
      for (const a of ctx.quick ? names.filter((_, i) => i % 3 === 1 || /locale|zone|chance r|clock running$|variable 1|no Node/.test(names[i])) : names) await compare(`${o.name} ${cn} | ${a}`, flow, [a], call, answer, ref);
    }
  }

  // made again, it sends the very same bytes
  for (const flow of FLOWS)
    for (const out of OUTCOMES) {
      if (flow.steps[0] === 'download') continue;
      await ctx.eval(`${flow.name} ${out.name} made again`, async () => {
        const answer = (rec, n) => (n === 0 && out.act ? out.act() : flow.answer(rec, n));
        const call = (c) => flow.call(c, flow.op?.request || flow.forward ? opts() : undefined);
        const rig = new Rig();
        const first = normal(await rig.raw(call, answer));
        for (let i = 0; i < (ctx.quick ? 4 : 40); i++) differ(normal(await rig.raw(call, answer)), first);
        differ(normal(await rig.raw((c) => call(new rig.world.module.Resend(c.key, { baseUrl: c.baseUrl, userAgent: c.userAgent })), answer)), first);
        differ(normal(await new Rig().raw(call, answer)), first);
        // after other calls
        for (const other of FLOWS) await rig.raw((c) => other.call(c), (rec, n) => other.answer(rec, n));
        differ(normal(await rig.raw(call, answer)), first);
      });
    }
  // and the same arguments objects may be used again
  for (const o of OPS)
    await ctx.eval(`${o.name} the same arguments again`, async () => {
      const args = buildArgs(o, o.body === 'batch' ? {} : baseValues(o), { request: o.request ? opts() : undefined, emails: o.body === 'batch' ? [baseEmail(0), baseEmail(1)] : undefined });
      const go = () => plainRig.raw((c) => bind(c, o)(...args), () => new Response(JSON.stringify(o.sample))).then(normal);
      const first = await go();
      expect(first.wires.length === 1, 'not exactly one request');
      for (let i = 0; i < 3; i++) differ(await go(), first);
    });
}
