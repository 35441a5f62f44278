// C34: every response body is read to its end or cancelled, so that no connection stays occupied by a finished call.
import { COUNTS, LENGTHS, text } from '../lib/alphabet.mjs';
import { expect, fail } from '../lib/ctx.mjs';
import { explore } from '../lib/explore.mjs';
import { FLOW, FLOWS, RAW, echoServer } from '../lib/flows.mjs';
import { RESPONSE_HEADERS } from '../lib/outcomes.mjs';
import { BASE, KEY, World, quiesce, settle } from '../lib/world.mjs';

export const level = 'model_checking';
export const shards = { quick: 8, thorough: 8 };
export const rule =
  'flow × step × status × body (document, error, HTML, garbage, empty, cut by an error) × way of arriving (one piece, bytes, pieces, pieces later) × header fields of the answer × what the other steps do; sizes; pairs of flows in every order of events; after each call every response that carried a body is asked whether it was exhausted, cancelled or had failed; distinct by key';
export const bounds = (tier) => `every flow; ${STATUSES.length} statuses, ${Object.keys(BODIES).length} bodies, ${Object.keys(WAYS).length} ways of arriving; up to ${COUNTS[tier].at(-1)} pieces; ${tier === 'quick' ? 6 : 12} flows pairwise with up to two failures`;
export const assumptions = ['a response without a body (204, null) needs nothing done', 'bodies end eventually'];

const STATUSES = [200, 201, 299, 300, 304, 400, 401, 404, 409, 422, 429, 500, 502, 503];
const BODIES = {
  good: null,
  error: '{"name":"validation_error","message":"m","statusCode":422}',
  html: '<html><body>Bad gateway</body></html>',
  garbage: '{"id":',
  empty: '',
  primitive: 'null',
  list: '[]',
};
const enc = new TextEncoder();
const cutAt = (t, n) => Array.from({ length: Math.ceil(t.length / n) || 0 }, (_, i) => t.slice(i * n, i * n + n));
const WAYS = {
  'in one piece': (t) => [t],
  'byte by byte': (t) => cutAt(t, 1),
  'in pieces with empty ones': (t) => ['', ...cutAt(t, 7), ''],
  later: (t) => cutAt(t, 16),
  'cut at once': () => [new Error('reset')],
  'cut half way': (t) => [t.slice(0, t.length >> 1), new Error('reset')],
};

/** A response with a tracked body. */
function tracked(log, status, pieces, headers, slow) {
  if ([204, 205, 304].includes(status)) return new Response(null, { status, headers });
  const entry = { status, state: 'open' };
  log.push(entry);
  const queue = [...pieces];
  const stream = new ReadableStream(
    {
      async pull(c) {
        if (slow) for (let i = 0; i < 5; i++) await null;
        if (!queue.length) {
          entry.state = 'exhausted';
          c.close();
          return;
        }
        const p = queue.shift();
        if (p instanceof Error) {
          entry.state = 'failed';
          c.error(p);
          return;
        }
        const b = enc.encode(p);
        if (b.byteLength) c.enqueue(b);
        else c.enqueue(new Uint8Array(0));
      },
      cancel() {
        entry.state = 'cancelled';
      },
    },
    { highWaterMark: 0 },
  );
  return new Response(stream, { status, headers });
}
const measured = (p) => ({ ...p, headers: { 'content-type': 'application/json', 'content-length': String(enc.encode(p.body).byteLength) } });
const textOf = (a) => (a.json !== undefined ? JSON.stringify(a.json) : a.text);

export async function run(ctx) {
  const one = (key, flow, plan, times = 1) =>
    ctx.eval(key, async () => {
      const log = [];
      let n = 0;
      const world = new World({
        controlTimers: true,
        answer: (rec) => {
          const step = n++ % flow.steps.length;
          const good = flow.scripted(rec, step);
          const p = plan(step, good) ?? {};
          return tracked(log, p.status ?? good.status, (p.way ?? WAYS['in one piece'])(p.body ?? textOf(good)), p.headers ?? good.headers ?? { 'content-type': 'application/json' }, p.slow);
        },
      });
      world.enter();
      try {
        const client = new (world.load().Resend)(KEY, { baseUrl: BASE });
        for (let i = 0; i < times; i++) {
          n = 0;
          const r = await settle(world, () => flow.call(client, undefined, String(i)));
          if (r.hung) fail('the call never settled');
          await quiesce();
          for (const [j, e] of log.entries()) expect(e.state !== 'open', `the body of response ${j} (${e.status}) is neither read nor cancelled`, log);
        }
      } finally {
        world.leave();
      }
    });
  for (const flow of FLOWS)
    for (let step = 0; step < flow.steps.length; step++)
      for (const status of STATUSES)
        for (const [bn, body] of Object.entries(BODIES))
          for (const [wn, way] of Object.entries(WAYS)) {
            if (ctx.quick && flow.steps.length === 1 && flow.op && wn !== 'in one piece' && ![200, 422, 500].includes(status)) continue;
            await one(`${flow.name} ${status} ${bn} ${wn} at ${step}`, flow, (i) => (i === step ? { status, body: body ?? undefined, way, slow: wn === 'later' } : {}));
          }
  // whatever else the answer says about itself
  for (const flow of FLOWS)
    for (let step = 0; step < flow.steps.length; step++)
      for (const status of ctx.quick ? [200, 422, 502] : STATUSES)
        for (const bn of status === 200 ? ['good'] : ['error', 'html'])
          for (const [label, headers] of RESPONSE_HEADERS) await one(`${flow.name} ${status} ${bn} ${label} at ${step}`, flow, (i, good) => (i === step ? { status, body: BODIES[bn] ?? undefined, headers: { ...good.headers, ...headers } } : {}));
  for (const flow of ctx.quick ? FLOWS.filter((f) => f.steps.length > 1 || /^(emails\.(send|get)|domains\.(list|remove)|client\.put|contacts\.imports\.create|batch\.send)$/.test(f.name)) : FLOWS)
    for (let step = 0; step < flow.steps.length; step++)
      for (const status of [200, 201, 206, 300, 302, 307, 400, 401, 403, 404, 405, 408, 409, 410, 413, 415, 418, 422, 429, 451, 500, 501, 502, 503, 504, 520, 524, 599])
        for (const [label, headers] of RESPONSE_HEADERS) {
          if (!/^(content-|transfer|connection|retry-after|location|etag|server|x-error|x-should|cf-mit|status)/.test(label)) continue;
          await one(`${flow.name} ${status} ${label} at ${step} (page)`, flow, (i, good) => (i === step ? { status, body: status < 300 ? undefined : BODIES.html, headers: { ...good.headers, ...headers } } : {}));
        }
  // small bodies which say how small they are
  for (const flow of FLOWS)
    for (let step = 0; step < flow.steps.length; step++)
      for (const status of [200, 201, 202, 203, 206, 207, 226, 299, 400, 404, 422, 500, 503])
        for (const body of ['{}', '[]', '0', '""', 'null', 'true', '{ }', '\n', 'OK', '{"a":1}', '{"id":"x"}', '{"data":[]}', '{"message":"m"}', '<p>', 'Not Found'])
          for (const label of ['measured', ...(status === 200 || status === 201 || status === 404 ? ['chunked', 'plain'] : [])])
            await one(`${flow.name} ${status} ${JSON.stringify(body)} ${label} at ${step}`, flow, (i) => (i !== step ? {} : label === 'measured' ? measured({ status, body }) : { status, body, headers: label === 'chunked' ? { 'transfer-encoding': 'chunked', 'content-type': 'application/json' } : {} }));
  // two steps of one behaviour going wrong in different ways
  for (const flow of FLOWS.filter((f) => f.steps.length > 1))
    for (const s1 of STATUSES)
      for (const s2 of STATUSES)
        for (const wn of Object.keys(WAYS)) await one(`${flow.name} ${s1} then ${s2} ${wn}`, flow, (i) => (i === 0 ? { status: s1 } : { status: s2, way: WAYS[wn], body: s2 < 300 ? undefined : BODIES.html }));
  // bodies of every size and number of pieces
  const some = ['emails.send', 'emails.get', 'domains.list', 'forward passthrough', 'forward wrapped', 'templates.create().publish', 'contactProperties.list', 'client.delete'].map((n) => FLOW[n]);
  for (const flow of some)
    for (let step = 0; step < flow.steps.length; step++)
      for (const status of [200, 404, 503]) {
        for (const n of COUNTS[ctx.tier].filter((x) => x <= 1100)) await one(`${flow.name} ${status} in ${n} pieces at ${step}`, flow, (i, good) => (i === step ? { status, way: () => (status === 200 && flow.steps[step] !== 'download' ? [...Array(n).fill(' '), textOf(good)] : Array(n).fill('piece ')) } : {}));
        for (const n of LENGTHS[ctx.tier]) await one(`${flow.name} ${status} of length ${n} at ${step}`, flow, (i) => (i === step ? measured({ status, body: status === 200 && flow.steps[step] !== 'download' ? JSON.stringify({ id: 'x', raw: null, v: text(n) }) : flow.steps[step] === 'download' ? RAW + text(n) : text(n) }) : {}));
      }
  for (const flow of FLOWS) for (const status of [200, 404, 500]) await one(`${ctx.quick ? 5 : 60} × ${flow.name} ${status}`, flow, (i) => ({ status: i === flow.steps.length - 1 || status === 200 ? status : 200, body: status === 200 ? undefined : BODIES.html }), ctx.quick ? 5 : 60);

  // two calls at once, in every order of their requests and answers
  const reps = ['forward passthrough', 'forward wrapped', 'emails.send', 'emails.list', 'templates.create().publish', 'contacts.imports.create', 'domains.remove', 'batch.send', 'contactProperties.list', 'client.get', 'client.put', 'events.send'].map((x) => FLOW[x]).filter(Boolean);
  const list = ctx.quick ? reps.slice(0, 6) : reps;
  for (const [i, a] of list.entries())
    for (const b of list.slice(i))
      await explore(
        ctx,
        {
          key: `${a.name} ∥ ${b.name}`,
          make() {
            const log = [];
            const world = new World({
              answers: (rec) => {
                const good = echoServer(rec);
                return [
                  { ...good, label: 'ok' },
                  { label: '404', status: 404, text: '<html>' },
                  { label: '500', status: 500, text: '{"name":"x","message":"m"}' },
                  { label: 'lost', reject: new TypeError('fetch failed') },
                ];
              },
            });
            // the response is tracked when it is made, its body arrives at once
            world._stagedResponse = (m) => tracked(log, m.status, [m.json !== undefined ? JSON.stringify(m.json) : m.text], m.headers ?? {});
            let client;
            const start = (f, tag) => {
              client ??= world.client();
              return f.call(client, undefined, tag);
            };
            return {
              world,
              programs: [
                { name: 'a', body: () => start(a, '_a') },
                { name: 'b', body: () => start(b, '_b') },
              ],
              final() {
                for (const [j, e] of log.entries()) expect(e.state !== 'open', `the body of response ${j} (${e.status}) is neither read nor cancelled`, log);
              },
            };
          },
        },
        { maxRuns: 400000, cost: (ev, x) => (/^(ok|body|)$/.test(x.label ?? '') ? 0 : 1), bound: ctx.quick ? 1 : 2 },
      );
}
