// C29: loading the library, creating clients and making calls leave the process as they found it.
import { expect, fail } from '../lib/ctx.mjs';
import { REPO } from '../lib/bundle.mjs';
import { explore } from '../lib/explore.mjs';
import { FLOW, FLOWS, RAW, echoServer, react, received, toResponse } from '../lib/flows.mjs';
import { COUNTS, HUGE, LENGTHS, deep, resized, text, wide } from '../lib/alphabet.mjs';
import { OPS, baseEmail, baseValues, bind, buildArgs } from '../lib/ops.mjs';
import { ERROR_NAMES, RESPONSE_HEADERS, outcomesFor } from '../lib/outcomes.mjs';
import { BASE, World, jsonResponse, quiesce, settle, textResponse } from '../lib/world.mjs';
import { createRequire } from 'node:module';

export const level = 'model_checking';
export const shards = { quick: 8, thorough: 8 };
export const rule =
  'flow × step at which it goes wrong × outcome (success, API error, HTML error, garbage, lost connection, hostile JSON) × environment, each from loading the module to the end of the call; hostile arguments; every interleaving of pairs of flows; before and after (and, in the interleavings, at every state) all globals, the own properties of every built-in class and prototype, process listeners, environment variables and pending timers are compared; distinct by key';
export const bounds = (tier) => `every flow; ${tier === 'quick' ? 8 : 14} flows pairwise in every order of events with one failure; runs of ${tier === 'quick' ? 12 : 200} calls`;
export const assumptions = ['dependencies (postal-mime, standardwebhooks) and lazily created host globals are loaded beforehand', 'executions are on the implementation itself; one in 64 is repeated and must give the same trace'];

const require = createRequire(`${REPO}/package.json`);
for (const m of ['postal-mime', 'standardwebhooks']) {
  try {
    require(m);
  } catch {}
}
// touch what the host creates on first use
for (const k of Reflect.ownKeys(globalThis)) {
  try {
    globalThis[k];
  } catch {}
}
new Request('http://x.invalid', { method: 'POST', body: new FormData() });
await new Response('x').text();
await new Blob(['x']).arrayBuffer();
new URL('http://x.invalid').searchParams.set('a', 'b');
structuredClone({});
AbortSignal.timeout; // (ours)

const ROOTS = [];
for (const n of ['Object', 'Function', 'Array', 'String', 'Number', 'Boolean', 'Symbol', 'BigInt', 'Date', 'RegExp', 'Error', 'TypeError', 'SyntaxError', 'Promise', 'Map', 'Set', 'WeakMap', 'WeakSet', 'ArrayBuffer', 'Uint8Array', 'DataView', 'URL', 'URLSearchParams', 'Headers', 'Request', 'Response', 'FormData', 'Blob', 'File', 'AbortController', 'AbortSignal', 'ReadableStream', 'TextEncoder', 'TextDecoder', 'Buffer', 'DOMException', 'Event', 'EventTarget']) {
  const f = globalThis[n];
  if (!f) continue;
  ROOTS.push([n, f]);
  if (f.prototype) ROOTS.push([`${n}.prototype`, f.prototype]);
}
for (const n of ['JSON', 'Math', 'Reflect', 'Atomics', 'Intl', 'console', 'process', 'performance']) if (globalThis[n]) ROOTS.push([n, globalThis[n]]);
ROOTS.push(['TypedArray', Object.getPrototypeOf(Uint8Array)], ['TypedArray.prototype', Object.getPrototypeOf(Uint8Array.prototype)], ['%IteratorPrototype%', Object.getPrototypeOf(Object.getPrototypeOf([][Symbol.iterator]()))], ['AsyncFunction.prototype', Object.getPrototypeOf(async () => {})], ['globalThis', globalThis]);
const VOLATILE = new Set(['globalThis.process', 'process.env', 'process.domain', 'process._exiting', 'process.exitCode']);
const show = (k) => (typeof k === 'symbol' ? k.toString() : k);

/** Everything a library could leave behind, as a flat map. */
function snapshot(world) {
  const m = new Map();
  for (const [n, o] of ROOTS) {
    m.set(`${n} [[Prototype]]`, Object.getPrototypeOf(o));
    m.set(`${n} extensible`, Object.isExtensible(o));
    for (const k of Reflect.ownKeys(o)) {
      const label = `${n}.${show(k)}`;
      if (VOLATILE.has(label)) continue;
      if (n === 'RegExp' && /^(\$|input|last|leftContext|rightContext)/.test(String(k))) continue;
      if (n === 'process' && (k === '_events' || k === '_eventsCount')) continue; // compared as listeners
      const d = Object.getOwnPropertyDescriptor(o, k);
      m.set(label, 'value' in d ? d.value : d.get);
      m.set(`${label} kind`, `${d.writable ? 'w' : ''}${d.enumerable ? 'e' : ''}${d.configurable ? 'c' : ''}`);
    }
  }
  for (const e of process.eventNames()) m.set(`listeners of ${show(e)}`, process.listenerCount(e));
  m.set('process.env object', process.env);
  for (const [k, v] of Object.entries(process.env)) m.set(`env ${k}`, v);
  m.set('exit code', process.exitCode);
  m.set('cwd', process.cwd());
  m.set('title', process.title);
  for (const [i, t] of world.timers.entries()) m.set(`timer ${i}`, t);
  const handles = process.getActiveResourcesInfo().filter((h) => !/Immediate|TickObject|FSReq|^Timeout$|Microtask|PROMISE/i.test(h)).sort();
  m.set('handles', handles.join());
  for (const type of ['mark', 'measure']) m.set(`performance ${type}s`, performance.getEntriesByType(type).length);
  return m;
}
function compare(before, after) {
  for (const [k, v] of before) {
    if (!after.has(k)) fail(`${k} is gone`, { was: String(typeof v === 'symbol' ? v.toString() : v).slice(0, 80) });
    if (!Object.is(after.get(k), v)) fail(`${k} was changed`, { was: String(v).slice(0, 80), is: String(after.get(k)).slice(0, 80) });
  }
  for (const k of after.keys()) if (!before.has(k)) fail(`${k} was added`);
}
const HOSTILE = [
  '{"__proto__":{"polluted":1},"id":"x"}',
  '{"constructor":{"prototype":{"polluted":1}},"id":"x"}',
  '{"id":"__proto__","data":[{"__proto__":{"polluted":1},"id":"__proto__","key":"__proto__"}],"object":"list"}',
  '{"id":"x","data":{"__proto__":{"polluted":1}},"toString":1,"then":1,"hasOwnProperty":1}',
];
const OUTCOME = {
  ok: null,
  422: () => jsonResponse(422, { name: 'validation_error', message: 'm', statusCode: 422 }),
  'hostile error': () => textResponse(400, '{"__proto__":{"polluted":1},"name":"__proto__","message":"constructor"}'),
  html: () => textResponse(502, '<html>'),
  garbage: () => textResponse(200, '{"id":'),
  lost: () => ({ reject: new TypeError('fetch failed') }),
  thrown: () => ({ reject: 'a string' }),
  ...Object.fromEntries(HOSTILE.map((t, i) => [`hostile ${i}`, () => textResponse(200, t, { 'content-type': 'application/json' })])),
};
const ENVS = { production: { NODE_ENV: 'production' }, development: { NODE_ENV: 'development', RESEND_API_KEY: 're_env' }, bare: {} };

export async function run(ctx) {
  const alone = (key, body, { answer, env = ENVS.production, render } = {}) =>
    ctx.eval(key, async () => {
      const world = new World({ answer: answer ?? ((rec) => toResponse(echoServer(rec))), controlTimers: true, env: { ...env }, ...(render ? { render } : {}) });
      world.enter();
      try {
        const before = snapshot(world);
        await settle(world, () => body(world)).catch(() => {});
        await quiesce();
        compare(before, snapshot(world));
      } finally {
        world.leave();
      }
    });
  for (const [en, env] of Object.entries(ENVS)) {
    await alone(`load ${en}`, (w) => w.load(), { env });
    await alone(`load twice ${en}`, (w) => [w.load(), w.load()], { env });
    for (const [an, args] of Object.entries({ key: ['re_a'], options: ['re_a', { baseUrl: BASE, userAgent: 'u' }], none: [] }))
      await alone(`construct ${an} ${en}`, (w) => [1, 2, 3].map(() => new (w.load().Resend)(...args)), { env });
  }
  for (const flow of FLOWS)
    for (let step = 0; step < flow.steps.length; step++)
      for (const [on, act] of Object.entries(OUTCOME))
        for (const [en, env] of Object.entries(ENVS)) {
          if (!act && step) continue;
          await alone(`${flow.name} ${act ? `${on} at ${step}` : 'ok'} ${en}`, (w) => flow.call(w.client()), { answer: (rec, n) => (act && n === step ? act() : flow.answer(rec, n)), env });
        }
  // every kind of answer, and every header field an answer may have
  for (const flow of FLOWS)
    for (let step = 0; step < flow.steps.length; step++)
      for (const o of outcomesFor(flow.steps[step]).filter((x) => x.act)) await alone(`${flow.name} ${o.name} at ${step} (any)`, (w) => flow.call(w.client()), { answer: (rec, n) => (n === step ? o.act() : flow.answer(rec, n)) });
  for (const [fn, at] of [['emails.get', 0], ['emails.send', 0], ['forward passthrough', 1]]) {
    const flow = FLOW[fn];
    for (const [label, headers] of RESPONSE_HEADERS)
      for (const status of [200, 409, 429, 503]) await alone(`${fn} ${status} ${label}`, (w) => flow.call(w.client()), { answer: (rec, n) => (n === at ? new Response(status === 200 ? (at ? RAW : '{"id":"x"}') : '{"name":"rate_limit_exceeded","message":"m"}', { status, headers }) : flow.answer(rec, n)) });
    for (const name of ERROR_NAMES) for (const status of [400, 401, 403, 404, 409, 422, 429, 500, 503]) await alone(`${fn} ${status} ${name}`, (w) => flow.call(w.client()), { answer: (rec, n) => (n === at ? jsonResponse(status, { name, message: 'm', statusCode: status }) : flow.answer(rec, n)) });
  }
  await alone('rendering fails', (w) => FLOW['emails.send(react)'].call(w.client()), {
    render: () => {
      throw new Error('x');
    },
  });
  // hostile names and values in arguments
  const BAD = ['__proto__', 'constructor', 'prototype', 'toString', '../../etc', 'then'];
  for (const o of OPS)
    for (const bad of BAD) {
      await alone(`${o.name} arguments ${bad}`, (w) => {
        const values = Object.fromEntries(Object.entries(baseValues(o)).map(([k, v]) => [k, typeof v === 'string' ? bad : v]));
        return bind(w.client(), o)(...buildArgs(o, values, { emails: o.body === 'batch' ? [{ ...baseEmail(0), subject: bad, headers: JSON.parse(`{"${bad}":{"polluted":1}}`) }] : undefined }));
      });
      for (const f of o.fields.filter((x) => x.to === 'body' && x.type.base(x.name) !== null && typeof x.type.base(x.name) === 'object' && !(x.type.base(x.name) instanceof Blob) && !Array.isArray(x.type.base(x.name))))
        await alone(`${o.name} ${f.name} with ${bad}`, (w) => bind(w.client(), o)(...buildArgs(o, { ...baseValues(o), [f.name]: JSON.parse(`{"${bad}":{"polluted":1},"properties":{"${bad}":{"column":"polluted"}},"variables":{"${bad}":"polluted"}}`) })));
    }
  // values that cannot be serialised, or do something while they are
  const loop = {};
  loop.self = loop;
  const ODD = {
    bigint: () => 1n,
    loop: () => loop,
    symbol: () => Symbol('s'),
    function: () => () => 1,
    date: () => new Date(0),
    map: () => new Map([['a', 1]]),
    'invalid date': () => new Date(NaN),
    'throwing toJSON': () => ({
      toJSON() {
        throw new Error('toJSON');
      },
    }),
    'throwing getter': () => ({
      get a() {
        throw new Error('getter');
      },
    }),
    'null prototype': () => Object.assign(Object.create(null), { a: 1 }),
    nan: () => Number.NaN,
    sparse: () => [, 1],
  };
  for (const o of OPS)
    for (const f of o.fields.filter((x) => x.to === 'body' || x.to === 'query'))
      for (const [n, v] of Object.entries(ODD)) {
        await alone(`${o.name} ${f.name} as ${n}`, (w) => bind(w.client(), o)(...buildArgs(o, { ...baseValues(o), [f.name]: v() })));
        await alone(`${o.name} ${f.name} holding ${n}`, (w) => bind(w.client(), o)(...buildArgs(o, { ...baseValues(o), [f.name]: { a: v(), b: [v()] } })));
      }
  for (const verb of ['get', 'post', 'put', 'patch', 'delete'])
    for (const [n, v] of Object.entries(ODD)) {
      await alone(`client.${verb} ${n}`, (w) => w.client()[verb]('/raw', v()));
      await alone(`client.${verb} holding ${n}`, (w) => w.client()[verb]('/raw', { a: v(), b: [v()] }));
    }
  for (const [n, v] of Object.entries(ODD)) await alone(`batch with ${n}`, (w) => w.client().batch.send([{ ...baseEmail(0), tags: [{ name: 'a', value: v() }] }]));
  for (const o of OPS.filter((x) => x.request))
    for (const bad of BAD) await alone(`${o.name} header ${bad}`, (w) => bind(w.client(), o)(...buildArgs(o, o.body === 'batch' ? {} : baseValues(o), { request: { headers: JSON.parse(`{"${bad.replace(/\W/g, 'x')}":"v"}`), idempotencyKey: bad } })));
  await alone('a forwarded message with hostile headers', (w) => FLOW['forward passthrough'].call(w.client()), {
    answer: (rec, n) => (n === 0 ? jsonResponse(200, received()) : n === 1 ? new Response(`__proto__: polluted\r\nconstructor: x\r\n${RAW}`) : jsonResponse(200, { id: 's' })),
  });
  for (const secret of ['whsec_MfKQ9r8GKYqrTwjUPD8ILPZIo2LaLaSw', 'bad secret', ''])
    for (const payload of ['{}', '{"__proto__":{"polluted":1}}', 'not json'])
      await alone(`verify ${secret} ${payload}`, (w) => {
        try {
          w.client().webhooks.verify({ payload, headers: { id: 'i', timestamp: String(Math.floor(Date.now() / 1000)), signature: 'v1,x' }, webhookSecret: secret });
        } catch {}
      });
  // many calls: nothing accumulates
  const n = ctx.quick ? 12 : 200;
  for (const flow of FLOWS)
    for (const [on, act] of Object.entries({ ok: null, 500: () => textResponse(500, 'x'), lost: OUTCOME.lost }))
      await alone(
        `${n} × ${flow.name} ${on}`,
        async (w) => {
          const c = w.client();
          for (let i = 0; i < n; i++) await Promise.resolve(flow.call(c)).catch(() => {});
        },
        { answer: (rec, i) => (act ? act() : flow.answer(rec, i % flow.steps.length)), env: ENVS.development },
      );

  // every size: of what is rendered, of what is sent, of what comes back
  const big = ctx.quick ? [1001, 8193, 65537, 131073, 1100003] : [...LENGTHS.quick, ...HUGE.quick];
  for (const n of big) {
    for (const flow of FLOWS.filter((f) => /react/.test(f.name))) await alone(`${flow.name} rendering ${n} characters`, (w) => flow.call(w.client()), { render: () => text(n), answer: flow.answer });
    for (const flow of FLOWS)
      for (let step = 0; step < flow.steps.length; step++)
        for (const status of [200, 422]) {
          const act = () => (flow.steps[step] === 'download' ? new Response(RAW + text(n), { status }) : jsonResponse(status, { ...flow.scripted({}, step).json, big: text(n), name: 'x', message: text(n) }));
          await alone(`${flow.name} ${status} of length ${n} at ${step}`, (w) => flow.call(w.client()), { answer: (rec, i) => (i === step ? act() : flow.answer(rec, i)), env: ENVS.development });
        }
  }
  for (const o of OPS)
    for (const f of o.fields.filter((x) => x.to === 'body' && !x.type.fixed))
      for (const [label, v] of resized(f.type.base(f.name), 'quick', f.type.closed)) {
        const size = Number(/(\d+)$/.exec(label)?.[1]);
        if (ctx.quick && ![64, 101, 1001, 8193, 131073, 1100003].includes(size)) continue;
        await alone(`${o.name} ${f.name} with ${label}`, (w) => bind(w.client(), o)(...buildArgs(o, { ...baseValues(o), [f.name]: v }, {})));
      }
  for (const k of ctx.quick ? [101, 1001] : COUNTS.quick) {
    await alone(`batch of ${k}`, (w) => w.client().batch.send(Array.from({ length: k }, (_, i) => baseEmail(i))));
    await alone(`list of ${k}`, (w) => w.client().emails.list(), { answer: () => jsonResponse(200, { object: 'list', data: Array.from({ length: k }, (_, i) => ({ id: `e${i}`, ...wide(3) })), has_more: true }) });
    await alone(`answer ${Math.min(k, 300)} deep`, (w) => w.client().emails.get('1'), { answer: () => jsonResponse(200, deep(Math.min(k, 300))) });
  }
  // two calls in every interleaving, looked at in every state
  const reps = ['emails.send(react)', 'templates.create().publish', 'forward passthrough', 'contacts.imports.create', 'batch.send(react)', 'emails.list', 'domains.remove', 'contactProperties.list', 'forward wrapped', 'broadcasts.create(react)', 'emails.metrics', 'client.post', 'contacts.topics.update(id)', 'webhooks.create'].map((x) => FLOW[x]);
  const list = ctx.quick ? reps.slice(0, 8) : reps;
  for (const [i, a] of list.entries())
    for (const b of list.slice(i))
      await explore(
        ctx,
        {
          key: `${a.name} ∥ ${b.name}`,
          make() {
            const world = new World({
              scheduleRender: true,
              env: { NODE_ENV: 'development' },
              answers: (rec) => [
                { ...echoServer(rec), label: 'ok', atomic: a.steps.length + b.steps.length > 3 },
                { label: '500', status: 500, text: '<html>', atomic: true },
                { label: 'lost', reject: new TypeError('fetch failed') },
              ],
            });
            let before;
            let client;
            const start = (f, tag) => {
              client ??= world.client();
              return f.call(client, undefined, tag);
            };
            return {
              world,
              programs: [
                { name: 'a', body: () => start(a, '_a') },
                { name: 'b', body: () => start(b, '_b') },
              ],
              // a call in flight may wait on a timer of its own, but must not touch anything else
              step(run) {
                if (!before) {
                  before = snapshot({ timers: [] });
                  return;
                }
                try {
                  compare(before, snapshot({ timers: [] }));
                } catch (e) {
                  run.trace ??= e;
                }
              },
              final(run) {
                if (run.trace) throw run.trace;
                expect(world.timers.length === 0, 'a timer is left behind', world.timers.length);
              },
            };
          },
        },
        { maxRuns: 200000, cost: (ev, x) => (/^(ok|body|)$/.test(x.label ?? '') ? 0 : 1), bound: 1 },
      );
}
