// C30: requests and reports go through the global fetch and console in force at that moment, whatever conforming
// implementation of fetch it is.
import { expect, expectEqual, fail } from '../lib/ctx.mjs';
import { explore } from '../lib/explore.mjs';
import { FLOW, FLOWS, echoServer, toResponse } from '../lib/flows.mjs';
import { ERROR_NAMES, RESPONSE_HEADERS, outcomesFor } from '../lib/outcomes.mjs';
import { BASE, KEY, World, jsonResponse, quiesce, settle, textResponse } from '../lib/world.mjs';

export const level = 'model_checking';
export const shards = { quick: 8, thorough: 8 };
export const rule =
  'flow × outcome × the moment global fetch and console.error are replaced (before loading, after loading, after construction, k microtasks into the call, while answering request n, and every set of those moments in pairs), the same as every interleaving of replacements with one or two flows; flow × outcome × implementation of fetch (foreign Response class, foreign Headers class, other realm, thenable promise) against the native one; distinct by key';
export const bounds = (tier) => `every flow; up to ${tier === 'quick' ? 12 : 40} microtasks; two replacements per execution; ${tier === 'quick' ? 6 : 12} flows pairwise with one replacement`;
export const assumptions = ['a conforming fetch returns an object with the whole standard Response interface', 'executions are on the implementation itself; one in 64 is repeated and must give the same trace'];

const ground = { fetch: globalThis.fetch, error: console.error };

/** Installs numbered implementations; every use of one that is not the latest, or with a foreign `this`, is a violation. */
function ambient(impl = (input, init) => ground.fetch(input, init)) {
  const a = { n: 0, used: [], trouble: null };
  const complain = (m, d) => (a.trouble ??= { message: m, detail: d });
  a.install = () => {
    const n = ++a.n;
    globalThis.fetch = function fetch(input, init) {
      a.used.push(n);
      if (a.n !== n) complain(`a request went through a fetch that had been replaced`, { used: n, inForce: a.n });
      if (this !== undefined && this !== globalThis) complain('fetch was called as a method of another object, which browsers and workers refuse (Illegal invocation)');
      return impl(input, init);
    };
    console.error = function error(...args) {
      if (a.n !== n) complain('a failure was reported through a console.error that had been replaced', { used: n, inForce: a.n });
      a.reported = (a.reported ?? 0) + 1;
      return ground.error(...args);
    };
  };
  a.restore = () => {
    globalThis.fetch = ground.fetch;
    console.error = ground.error;
  };
  a.check = () => a.trouble && fail(a.trouble.message, a.trouble.detail);
  return a;
}
const OUTCOME = {
  ok: null,
  422: () => jsonResponse(422, { name: 'validation_error', message: 'm', statusCode: 422 }),
  html: () => textResponse(502, '<html>'),
  lost: () => ({ reject: new TypeError('fetch failed') }),
};

// ---- conforming implementations that are not the host's own classes -------------------------------------
class ForeignHeaders {
  #l;
  constructor(h) {
    this.#l = [...h.entries()];
  }
  get(n) {
    return this.#l.find(([k]) => k === String(n).toLowerCase())?.[1] ?? null;
  }
  has(n) {
    return this.get(n) !== null;
  }
  getSetCookie() {
    return this.#l.filter(([k]) => k === 'set-cookie').map(([, v]) => v);
  }
  forEach(f, t) {
    for (const [k, v] of this.#l) f.call(t, v, k, this);
  }
  *entries() {
    for (const [k, v] of this.#l) yield [k, v];
  }
  *keys() {
    for (const [k] of this.#l) yield k;
  }
  *values() {
    for (const [, v] of this.#l) yield v;
  }
  [Symbol.iterator]() {
    return this.entries();
  }
}
class ForeignResponse {
  #r;
  #h;
  constructor(r, headers) {
    this.#r = r;
    this.#h = headers;
  }
  get ok() {
    return this.#r.ok;
  }
  get status() {
    return this.#r.status;
  }
  get statusText() {
    return this.#r.statusText;
  }
  get headers() {
    return this.#h;
  }
  get url() {
    return this.#r.url;
  }
  get redirected() {
    return false;
  }
  get type() {
    return 'basic';
  }
  get body() {
    return this.#r.body;
  }
  get bodyUsed() {
    return this.#r.bodyUsed;
  }
  clone() {
    return new ForeignResponse(this.#r.clone(), this.#h);
  }
  text() {
    return this.#r.text();
  }
  json() {
    return this.#r.json();
  }
  blob() {
    return this.#r.blob();
  }
  arrayBuffer() {
    return this.#r.arrayBuffer();
  }
  bytes() {
    return this.arrayBuffer().then((b) => new Uint8Array(b));
  }
  formData() {
    return this.#r.formData();
  }
}
const IMPL = {
  'foreign Response': (p) => p.then((r) => new ForeignResponse(r, r.headers)),
  'foreign Response and Headers': (p) => p.then((r) => new ForeignResponse(r, new ForeignHeaders(r.headers))),
  'frozen Response': (p) => p.then((r) => Object.freeze(new ForeignResponse(r, Object.freeze(new ForeignHeaders(r.headers))))),
  // biome-ignore lint: deliberately a thenable
  thenable: (p) => ({ then: (f, g) => p.then(f, g), catch: (g) => p.catch(g), finally: (f) => p.finally(f) }),
  slow: async (p) => {
    for (let i = 0; i < 5; i++) await null;
    return p;
  },
  'own properties': (p) =>
    p.then((r) => {
      const h = [...r.headers.entries()];
      return {
        ok: r.ok,
        status: r.status,
        statusText: r.statusText,
        url: r.url,
        type: 'default',
        redirected: false,
        bodyUsed: false,
        body: r.body,
        headers: new Headers(h),
        text: () => r.text(),
        json: () => r.json(),
        blob: () => r.blob(),
        arrayBuffer: () => r.arrayBuffer(),
        bytes: () => r.arrayBuffer().then((b) => new Uint8Array(b)),
        formData: () => r.formData(),
        clone: () => r.clone(),
      };
    }),
};
const ANSWERS = {
  ok: null,
  empty: () => jsonResponse(200, {}),
  list: () => jsonResponse(200, { object: 'list', has_more: false, data: [] }, { 'x-a': '1', 'x-b': '' }),
  headers: () => jsonResponse(200, { id: 'x', data: [] }, { 'x-ratelimit': '1', 'set-cookie': 'a=b', 'X-Upper': 'V' }),
  422: () => jsonResponse(422, { name: 'validation_error', message: 'm', statusCode: 422 }, { 'x-a': '1' }),
  429: () => jsonResponse(429, { name: 'rate_limit_exceeded', message: 'm', statusCode: 429 }, { 'retry-after': '1' }),
  '500 empty': () => textResponse(500, ''),
  html: () => textResponse(502, '<html>'),
  garbage: () => textResponse(200, '{"id":'),
  lost: () => ({ reject: new TypeError('fetch failed') }),
};

export async function run(ctx) {
  const depth = ctx.quick ? 12 : 40;
  for (const flow of FLOWS)
    for (const [on, act] of Object.entries(OUTCOME))
      for (let step = 0; step < (act ? flow.steps.length : 1); step++) {
        const moments = ['load', 'construct', 'call', ...Array.from({ length: depth + 1 }, (_, i) => `tick ${i}`), ...flow.steps.map((_, i) => `answer ${i}`), 'second call'];
        const sets = [[], ...moments.map((m) => [m])];
        if (!ctx.quick || !flow.op || ['emails.send', 'emails.list', 'contacts.create', 'domains.remove'].includes(flow.name)) for (let i = 0; i < moments.length; i++) for (let j = i + 1; j < moments.length; j++) sets.push([moments[i], moments[j]]);
        for (const set of sets)
          await ctx.eval(`${flow.name} ${on} at ${step}, replaced at ${set.join(' and ')}`, async () => {
            const amb = ambient();
            const world = new World({
              answer: (rec, n) => {
                if (set.includes(`answer ${n}`)) amb.install();
                return act && n === step ? act() : flow.answer(rec, n % flow.steps.length);
              },
              env: { NODE_ENV: 'development' },
            });
            world.enter();
            try {
              amb.install();
              const at = (m) => set.includes(m) && amb.install();
              world.module = world.load();
              at('load');
              const client = new world.module.Resend(KEY, { baseUrl: BASE, userAgent: 'Verif-Agent/1.0 (Mixed; CASE)' });
              at('construct');
              const p = settle(world, () => flow.call(client));
              at('call');
              for (let i = 0; i <= depth; i++) {
                await null;
                at(`tick ${i}`);
              }
              await p;
              await quiesce();
              amb.check();
              expect(world.requests.length === amb.used.length && world.requests.length === (act ? step + 1 : flow.steps.length), 'not every documented request went through the global fetch', { seen: amb.used, requests: world.requests.length });
              if (set.includes('second call')) {
                amb.install();
                const [inForce, before] = [amb.n, amb.used.length];
                await settle(world, () => flow.call(client));
                await quiesce();
                amb.check();
                expect(world.requests.length === amb.used.length, 'a request of the second call bypassed the global fetch');
                expect(amb.used[before] === inForce, 'the second call made no request through the fetch in force');
              }
            } finally {
              amb.restore();
              world.leave();
            }
          });
      }

  // whatever the answer, the replacements made after loading, and again after construction, are the ones used
  const through = (key, flow, step, act) =>
    ctx.eval(key, async () => {
      const amb = ambient();
      const world = new World({ answer: (rec, n) => (n === step ? act() : flow.answer(rec, n % flow.steps.length)), env: { NODE_ENV: 'development' } });
      world.enter();
      try {
        amb.install();
        world.module = world.load();
        amb.install();
        const client = new world.module.Resend(KEY, { baseUrl: BASE });
        amb.install();
        const r = await settle(world, () => flow.call(client));
        await quiesce();
        amb.check();
        expect(world.requests.length === amb.used.length && world.requests.length > step, 'not every request went through the global fetch', { seen: amb.used, requests: world.requests.length });
        expectEqual(amb.reported ?? 0, world.console.filter((l) => l.method === 'error').length, 'a report bypassed console.error');
        if ('value' in r && r.value?.error && flow.steps[step] !== 'download') expect(amb.reported, 'a failure was not reported through the console.error in force', r.value.error);
      } finally {
        amb.restore();
        world.leave();
      }
    });
  const some = ctx.quick ? ['emails.send', 'emails.get', 'contacts.list', 'domains.remove', 'forward passthrough', 'templates.create().publish', 'client.put'].map((n) => FLOW[n]) : FLOWS;
  for (const flow of FLOWS) for (let step = 0; step < flow.steps.length; step++) for (const o of outcomesFor(flow.steps[step]).filter((x) => x.act)) await through(`${flow.name} ${o.name} at ${step} (any)`, flow, step, o.act);
  for (const flow of some)
    for (let step = 0; step < flow.steps.length; step++) {
      for (let status = 300; status < 600; status++)
        for (const [bn, body] of Object.entries({ json: JSON.stringify({ name: 'x', message: 'x', statusCode: status }), html: '<h1>', empty: '', message: '{"message":"x"}' })) {
          if (status === 304 && bn !== 'empty') continue;
          await through(`${flow.name} status ${status} ${bn} at ${step}`, flow, step, () => new Response(status === 304 ? null : body, { status }));
        }
      for (const [label, headers] of RESPONSE_HEADERS) for (const status of [200, 429, 503]) await through(`${flow.name} ${status} ${label} at ${step}`, flow, step, () => new Response(status === 200 ? JSON.stringify(flow.scripted({}, step).json ?? {}) : '{"name":"x","message":"m"}', { status, headers }));
      for (const name of ERROR_NAMES) for (const status of [400, 401, 403, 404, 409, 422, 429, 500]) await through(`${flow.name} ${status} ${name} at ${step}`, flow, step, () => jsonResponse(status, { name, message: 'm', statusCode: status }));
    }

  // any conforming fetch gives the result the host's own gives
  for (const flow of FLOWS)
    for (const [an, act] of Object.entries(ANSWERS))
      for (let step = 0; step < (act ? flow.steps.length : 1); step++)
        for (const [name, wrap] of Object.entries(IMPL))
          await ctx.eval(`${flow.name} ${an} at ${step} by ${name}`, async () => {
            const once = async (impl) => {
              const world = new World({ answer: (rec, n) => (act && n === step ? act() : flow.answer(rec, n)), env: { NODE_ENV: 'development' } });
              const amb = ambient(impl);
              world.enter();
              amb.install();
              try {
                const out = await settle(world, () => flow.call(world.client()));
                await quiesce();
                return { out, sent: world.requests.map((r) => [r.method, r.origin + r.path + r.search, { ...r.headers, 'content-type': r.headers['content-type']?.replace(/boundary=.*/, 'boundary') }, r.text]), reports: world.console.map((c) => [c.method, JSON.stringify(c.args)]) };
              } finally {
                amb.restore();
                world.leave();
              }
            };
            const native = await once(undefined);
            const other = await once((i, o) => wrap(ground.fetch(i, o)));
            expect(!other.out.threw && !('rejected' in other.out) === !('rejected' in native.out), 'the call ends differently', { native: native.out, other: other.out });
            expectEqual(JSON.parse(JSON.stringify(other.out)), JSON.parse(JSON.stringify(native.out)), 'the result depends on whose Response it is');
            expectEqual(JSON.parse(JSON.stringify(other.sent)), JSON.parse(JSON.stringify(native.sent)), 'the requests depend on whose Response it is');
            expectEqual(other.reports, native.reports, 'the reports depend on whose Response it is');
          });

  // replacements in every interleaving with one or two flows
  const reps = ['emails.send(react)', 'templates.create().publish', 'forward passthrough', 'contacts.imports.create', 'emails.list', 'batch.send(react)', 'forward wrapped', 'domains.remove', 'contactProperties.list', 'broadcasts.create(react)', 'client.post', 'templates.create(react).publish'].map((x) => FLOW[x]);
  const list = ctx.quick ? reps.slice(0, 6) : reps;
  const scen = (flows, swaps) => ({
    key: `${flows.map((f) => f.name).join(' ∥ ')} ∥ ${swaps} replaced`,
    make() {
      const world = new World({
        scheduleRender: true,
        env: { NODE_ENV: 'development' },
        answers: (rec) => [
          { ...echoServer(rec), label: 'ok', atomic: flows.length > 1 },
          { label: '500', status: 500, text: '<html>', atomic: true },
          { label: 'lost', reject: new TypeError('fetch failed') },
        ],
      });
      const amb = ambient();
      amb.install();
      const leave = world.leave.bind(world);
      world.leave = () => {
        amb.restore();
        leave();
      };
      let client;
      return {
        world,
        programs: [
          ...flows.map((f, i) => ({
            name: `f${i}`,
            body: (api) => {
              client ??= world.client();
              return f.call(client, undefined, `_${i}`, undefined, api);
            },
          })),
          ...Array.from({ length: swaps }, (_, i) => ({ name: `replace ${i}`, body: async () => amb.install() })),
        ],
        final() {
          amb.check();
          expect(amb.used.length === world.requests.length, 'a request bypassed the global fetch');
        },
      };
    },
  });
  const opts = { maxRuns: 200000, cost: (ev, x) => (/^(ok|body|)$/.test(x.label ?? '') ? 0 : 1), bound: 1 };
  for (const f of FLOWS) await explore(ctx, scen([f], 2), { ...opts, gaps: [0, 1, 2, 3] });
  for (const [i, a] of list.entries()) for (const b of list.slice(i)) await explore(ctx, scen([a, b], 1), opts);
}
