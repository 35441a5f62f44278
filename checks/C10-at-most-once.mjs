// C10: no request of a call is ever repeated by the SDK.
import { expect, fail } from '../lib/ctx.mjs';
import { COUNTS, HUGE, LENGTHS, text } from '../lib/alphabet.mjs';
import { Rig } from '../lib/harness.mjs';
import { FLOWS } from '../lib/flows.mjs';
import { ERROR_NAMES, OUTCOMES, RESPONSE_HEADERS } from '../lib/outcomes.mjs';
import { baseValues } from '../lib/ops.mjs';
import { explore } from '../lib/explore.mjs';
import { World, jsonResponse } from '../lib/world.mjs';

export const level = 'fault_enumeration';
export const shards = { quick: 4, thorough: 8 };
export const rule =
  'flow × step × (status × Retry-After form, any header field of the answer, connection fault × thrown value, body fault, answer, or the rest of a body, held back until every timer has fired then delivered or lost; every documented error name) × with/without idempotency key; every timer the SDK leaves is fired; any further request is answered well, so a retry would be seen to succeed; distinct by key';
export const bounds = 'one fault per step; answers and payloads of every size; 130 (thorough 1030) failures in a row; all statuses 400–599 at step 0 of 4 write operations, 14 statuses elsewhere; 60 timer firings';
export const assumptions = ['timers are observed through setTimeout, setInterval and AbortSignal.timeout'];

const STATUSES = [301, 400, 401, 403, 404, 408, 409, 421, 422, 425, 429, 500, 502, 503, 504, 529];
const RETRY = [undefined, '0', '1', 'Wed, 21 Oct 2015 07:28:00 GMT'];
const ENVS = {
  'another key': { NODE_ENV: 'production', RESEND_API_KEY: 're_other' },
  'another address': { NODE_ENV: 'production', RESEND_BASE_URL: 'https://fallback.test.invalid' },
  'all other': { NODE_ENV: 'development', RESEND_API_KEY: 're_other', RESEND_BASE_URL: 'https://fallback.test.invalid', RESEND_USER_AGENT: 'other/1' },
  nothing: {},
  'retry settings': { NODE_ENV: 'test', RESEND_MAX_RETRIES: '3', RESEND_RETRIES: '3', RESEND_RETRY: 'true', RESEND_TIMEOUT: '1', RESEND_DEBUG: '1' },
};
const reset = (code) => Object.assign(new TypeError('fetch failed'), { cause: Object.assign(new Error(code), { code }) });
const LOST = {
  TypeError: () => new TypeError('fetch failed'),
  ECONNRESET: () => reset('ECONNRESET'),
  ETIMEDOUT: () => reset('ETIMEDOUT'),
  ENOTFOUND: () => reset('ENOTFOUND'),
  UND_ERR_SOCKET: () => reset('UND_ERR_SOCKET'),
  AbortError: () => new DOMException('aborted', 'AbortError'),
  TimeoutError: () => new DOMException('timeout', 'TimeoutError'),
  string: () => 'socket hang up',
};
const cut = (status, partial) =>
  new Response(
    new ReadableStream({
      pull(c) {
        if (partial) {
          partial = false;
          c.enqueue(new TextEncoder().encode('{"id":'));
        } else c.error(reset('ECONNRESET'));
      },
    }),
    { status, headers: { 'content-type': 'application/json' } },
  );
const ELAPSED = { '1 ms': 1, '0.1 s': 100, '1 s': 1000, '5 s': 5001, '10 s': 10001, '30 s': 30001, '1 min': 60001, '2 min': 120001, '5 min': 300001, '1 h': 3600001, '1 d': 86400001, 'minus 1 s': -1000, 'minus 1 d': -86400000 };
/** A clock that stands still but for the time a request takes. */
const clockOf = (at) => () => {
  const R = Date;
  const D = function (...a) {
    return new.target ? (a.length ? Reflect.construct(R, a, new.target) : Reflect.construct(R, [at.ms], new.target)) : new R(at.ms).toString();
  };
  D.prototype = R.prototype;
  Object.assign(D, { parse: R.parse, UTC: R.UTC, now: () => at.ms });
  const hrtime = Object.assign(() => [Math.floor(at.ms / 1000), (at.ms % 1000) * 1e6], { bigint: () => BigInt(at.ms) * 1000000n });
  return { Date: D, performance: { now: () => at.ms - 1.7e12, timeOrigin: 1.7e12, mark() {}, measure() {} }, process: new Proxy(process, { get: (t, k) => (k === 'hrtime' ? hrtime : k === 'uptime' ? () => at.ms / 1000 : Reflect.get(t, k)) }) };
};
const idOf = (q) => `${q.method} ${q.origin}${q.path}${q.search} ${q.bodyKind === 'text' ? q.text : q.bodyKind}`;
const atMostOnce = (flow, requests) => {
  const seen = new Set();
  for (const q of requests) {
    if (q.invalid) continue;
    expect(!seen.has(idOf(q)), 'the same request was sent twice for one call', () => requests.map((x) => `${x.method} ${x.path}`));
    seen.add(idOf(q));
  }
  expect(requests.length <= flow.steps.length, 'more requests than the operation documents', () => requests.map((x) => `${x.method} ${x.path}`));
};

export async function run(ctx) {
  const rig = new Rig({ drain: true, world: { controlTimers: true } });
  const held = new Rig({ drain: true, world: { controlTimers: true } });
  const faults = (all) => {
    const l = [];
    for (const s of all ? Array.from({ length: 200 }, (_, i) => 400 + i) : STATUSES)
      for (const ra of STATUSES.includes(s) ? RETRY : ['1'])
        l.push([`status ${s} retry-after ${ra}`, () => jsonResponse(s, { name: 'x', message: 'm', statusCode: s }, { ...(ra !== undefined ? { 'retry-after': ra, 'ratelimit-reset': '1' } : {}) })]);
    for (const s of [429, 503]) l.push([`status ${s} html`, () => new Response('<html>', { status: s })]);
    for (const [n, mk] of Object.entries(LOST)) l.push([`lost ${n}`, () => ({ reject: mk() })]);
    for (const s of [200, 500]) for (const p of [false, true]) l.push([`cut ${s} ${p}`, () => cut(s, p)]);
    for (const t of ['', '{"id', '<html>']) l.push([`garbled 200 ${t}`, () => new Response(t, { status: 200 })]);
    l.push(['good', null]);
    return l;
  };
  const slow = [['lost TypeError', () => ({ reject: LOST.TypeError() })], ['lost ECONNRESET', () => ({ reject: LOST.ECONNRESET() })], ['lost TimeoutError', () => ({ reject: LOST.TimeoutError() })], ...[408, 429, 500, 503, 504].map((s) => [`${s}`, () => jsonResponse(s, { name: 'x', message: 'm', statusCode: s }, { 'retry-after': '1' })]), ['cut 200', () => cut(200, true)], ['cut 500', () => cut(500, false)], ['garbled', () => new Response('<html>', { status: 200 })]];
  const clockAt = { ms: 1.7e12 };
  const timed = new Rig({ drain: true, world: { controlTimers: true, shadow: clockOf(clockAt)() } });
  for (const flow of FLOWS) {
    const options = flow.op?.request || flow.rawVerb || flow.forward ? [undefined, { idempotencyKey: 'idem-1', headers: { 'X-A': '1' } }] : [undefined];
    for (const request of options)
      for (let step = 0; step < flow.steps.length; step++)
        for (const [name, act] of faults(['emails.send', 'batch.send', 'domains.create', 'contacts.update(id)'].includes(flow.name) || !ctx.quick)) {
          const key = `${flow.name}${request ? '+key' : ''} step ${step} ${name}`;
          if (!ctx.want(key)) continue;
          await ctx.eval(key, async () => {
            const r = await rig.raw((c) => flow.call(c, request), (rec, n) => (n === step && act ? act() : flow.answer(rec, n % flow.steps.length)));
            if (r.hung) fail('the call never settled');
            atMostOnce(flow, r.requests);
            return r.requests.length > step;
          });
        }
    // however long it took to fail
    for (const request of options)
      for (let step = 0; step < flow.steps.length; step++)
        for (const [en, ms] of Object.entries(ELAPSED))
          for (const [name, act] of slow)
            await ctx.eval(`${flow.name}${request ? '+key' : ''} step ${step} ${name} after ${en}`, async () => {
              clockAt.ms = 1.7e12;
              const r = await timed.raw((c) => flow.call(c, request), (rec, n) => {
                if (n !== step) return flow.answer(rec, n % flow.steps.length);
                clockAt.ms += ms;
                return act();
              });
              if (r.hung) fail('the call never settled');
              atMostOnce(flow, r.requests);
            });
    // whatever header fields the answer has
    for (const request of options)
      for (let step = 0; step < flow.steps.length; step++)
        for (const [label, h] of RESPONSE_HEADERS)
          for (const status of ctx.quick ? [429, 503] : [202, 307, 401, 408, 409, 425, 429, 500, 502, 503, 504])
            await ctx.eval(`${flow.name}${request ? '+key' : ''} step ${step} ${status} ${label}`, async () => {
              const r = await rig.raw((c) => flow.call(c, request), (rec, n) => (n === step ? new Response(status === 503 ? '<html>' : '{"name":"x","message":"m","id":"x"}', { status, headers: h }) : flow.answer(rec, n % flow.steps.length)));
              if (r.hung) fail('the call never settled');
              atMostOnce(flow, r.requests);
            });
    // every documented error name, with its usual and with other statuses
    for (const request of options)
      for (let step = 0; step < flow.steps.length; step++)
        for (const name of ERROR_NAMES)
          for (const status of ctx.quick ? [404, 409, 429, 500] : [400, 401, 403, 404, 405, 409, 422, 423, 429, 451, 500, 503])
            await ctx.eval(`${flow.name}${request ? '+key' : ''} step ${step} error ${name} ${status}`, async () => {
              const r = await rig.raw((c) => flow.call(c, request), (rec, n) => (n === step ? jsonResponse(status, { name, message: `m ${name}`, statusCode: status }) : flow.answer(rec, n % flow.steps.length)));
              if (r.hung) fail('the call never settled');
              atMostOnce(flow, r.requests);
            });
    // another key, address or agent in the environment is no reason to try again
    for (const request of options)
      for (let step = 0; step < flow.steps.length; step++)
        for (const out of OUTCOMES)
          for (const [en, env] of Object.entries(ENVS)) {
            if (out.kind === 'local') continue;
            await ctx.eval(`${flow.name}${request ? '+key' : ''} step ${step} ${out.name} env ${en}`, async () => {
              const r = await rig.raw((c) => flow.call(c, request), (rec, n) => (n === step && out.act ? out.act() : flow.answer(rec, n % flow.steps.length)), env);
              if (r.hung) fail('the call never settled');
              atMostOnce(flow, r.requests);
            });
          }
    // errors, answers, payloads and Retry-After values of every size
    for (let step = 0; step < flow.steps.length; step++)
      for (const n of [...LENGTHS[ctx.tier].filter((x) => !ctx.quick || x % 5 === 0), ...HUGE[ctx.tier]])
        await ctx.eval(`${flow.name} step ${step} answers of size ${n}`, async () => {
          for (const act of [
            () => jsonResponse(429, { name: 'rate_limit_exceeded', message: text(n), statusCode: 429 }, { 'retry-after': String(n) }),
            () => new Response(text(n), { status: 503, headers: { 'retry-after': '1' } }),
            () => jsonResponse(200, { id: text(n), raw: { download_url: 'https://files.test.invalid/raw' } }),
          ]) {
            const r = await rig.raw((c) => flow.call(c), (rec, i) => (i === step ? act() : flow.answer(rec, i % flow.steps.length)));
            if (r.hung) fail('the call never settled');
            atMostOnce(flow, r.requests);
          }
        });
    const long = flow.op?.fields.find((f) => f.to === 'body' && !f.type.fixed && typeof f.type.base(f.name) === 'string');
    if (long)
      for (const n of [...LENGTHS[ctx.tier].filter((x) => !ctx.quick || x % 5 === 0), ...HUGE[ctx.tier]])
        for (const status of [200, 408, 413, 429, 500, 503, 'lost'])
          await ctx.eval(`${flow.name} payload of size ${n} answered ${status}`, async () => {
            const r = await rig.call(flow.op, { ...baseValues(flow.op), [long.name]: text(n) }, { answer: (rec, i) => (i ? jsonResponse(200, {}) : status === 'lost' ? { reject: reset('ECONNRESET') } : jsonResponse(status, { name: 'x', message: 'm', id: 'x' })) });
            if (r.hung) fail('the call never settled');
            atMostOnce(flow, r.requests);
          });
    // the body stalls for longer than any timer the SDK may set
    for (let step = 0; step < flow.steps.length; step++)
      for (const [start, partial] of [['', false], ['{"id":', true]])
        for (const status of [200, 500])
          for (const late of ['good', 'cut'])
            await ctx.eval(`${flow.name} step ${step} body ${status} stalled ${partial}, then ${late}`, async () => {
              const waiting = [];
              held.onIdle = () => waiting.shift()?.();
              const r = await held.raw(
                (c) => flow.call(c),
                (rec, n) => {
                  if (n !== step) return flow.answer(rec, n % flow.steps.length);
                  return new Response(
                    new ReadableStream({
                      start(c) {
                        if (partial) c.enqueue(new TextEncoder().encode(start));
                        waiting.push(() => {
                          if (late === 'cut') return c.error(reset('ECONNRESET'));
                          c.enqueue(new TextEncoder().encode(partial ? '"x"}' : '{"id":"x"}'));
                          c.close();
                        });
                      },
                    }),
                    { status, headers: { 'content-type': 'application/json' } },
                  );
                },
              );
              if (r.hung) fail('the call never settled');
              atMostOnce(flow, r.requests);
            });
    // the answer takes longer than any timer the SDK may set
    for (let step = 0; step < flow.steps.length; step++)
      for (const late of ['good', 'lost', '503'])
        await ctx.eval(`${flow.name} step ${step} held back, then ${late}`, async () => {
          const waiting = [];
          held.onIdle = () => waiting.shift()?.();
          const r = await held.raw(
            (c) => flow.call(c),
            (rec, n) =>
              n === step
                ? new Promise((res, rej) => waiting.push(() => (late === 'lost' ? rej(reset('ETIMEDOUT')) : res(late === 'good' ? flow.answer(rec, n) : jsonResponse(503, { name: 'x', message: 'm' })))))
                : flow.answer(rec, n % flow.steps.length),
          );
          if (r.hung) fail('the call never settled');
          atMostOnce(flow, r.requests);
        });
  }
  // failures one after the other on one client
  for (const flow of FLOWS)
    await ctx.eval(`${flow.name} failing ${ctx.quick ? 130 : 1030} times in a row`, async () => {
      for (let i = 0; i < (ctx.quick ? 130 : 1030); i++) {
        const r = await rig.raw((c) => flow.call(c), () => jsonResponse([429, 500, 503][i % 3], { name: 'rate_limit_exceeded', message: 'm', statusCode: 429 }, { 'retry-after': '1' }));
        if (r.hung) fail('the call never settled');
        atMostOnce(flow, r.requests);
        expect(r.requests.length <= 1, 'the flow went on after a failed request');
      }
    });
  // scheduled: renders, answers, bodies and their failures in every order
  for (const flow of FLOWS.filter((f) => f.steps.length > 1 || f.scheduled))
    await explore(
      ctx,
      {
        key: `scheduled ${flow.name}`,
        make() {
          const world = new World({
            scheduleRender: true,
            renderAnswers: (n) => [{ label: 'ok', value: `<html>${n.label}</html>` }, { label: 'fails', error: new Error('render') }],
            answers: (rec, n) => [
              { ...flow.scripted(rec, Math.min(n, flow.steps.length - 1)), label: 'ok', bodyFaults: [{ label: 'cut', error: () => reset('ECONNRESET') }] },
              { label: '429', status: 429, json: { name: 'rate_limit_exceeded', message: 'm', statusCode: 429 }, headers: { 'retry-after': '1' }, atomic: true },
              { label: 'reject', reject: reset('ECONNRESET') },
            ],
          });
          return { world, programs: [{ name: 'p', immediate: true, body: () => flow.call(world.client()) }], final: (run) => atMostOnce(flow, run.world.requests) };
        },
      },
      { maxRuns: 20000 },
    );
}
