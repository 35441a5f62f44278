// C07: every network/server fault at every step settles the call with an error envelope.
import { expect, expectEqual, fail } from '../lib/ctx.mjs';
import { HUGE, LENGTHS, text } from '../lib/alphabet.mjs';
import { Rig } from '../lib/harness.mjs';
import { FLOWS } from '../lib/flows.mjs';
import { RESPONSE_HEADERS } from '../lib/outcomes.mjs';
import { quiesce, unhandled } from '../lib/world.mjs';
import { explore } from '../lib/explore.mjs';
import { World } from '../lib/world.mjs';

export const level = 'fault_enumeration';
export const shards = { quick: 4, thorough: 8 };
export const rule =
  'flow (every operation, forwarding in both modes, template chains, React variants) × step of the flow × fault at that step (connection failure × thrown value, synchronous throw, body failure before/after partial data × status × thrown value, unparsable body, error statuses); plus scheduled exploration of when the body fails; distinct by key';
export const bounds = 'one fault per execution at each step (a fault ends the flow, so no second one is reachable); 9 thrown values at every place and some 80 further ones; broken, garbled and error bodies of every length; statuses 200, 201, 400, 404, 429, 500, 503';
export const assumptions = ['2xx answers that are JSON of an undocumented shape are outside the fault set'];

const abort = () => new DOMException('aborted', 'AbortError');
const THROWN = {
  TypeError: () => new TypeError('fetch failed'),
  'Error with cause': () => new Error('boom', { cause: Object.assign(new Error('ECONNRESET'), { code: 'ECONNRESET' }) }),
  'Error without message': () => new Error(''),
  SyntaxError: () => new SyntaxError('Unexpected token'),
  AbortError: abort,
  string: () => 'plain string',
  undefined: () => undefined,
  null: () => null,
  object: () => ({ code: 'ETIMEDOUT' }),
};
// what else a runtime, a proxy, a mock or a wrapper around fetch may come up with
const DOM = ['TimeoutError', 'NetworkError', 'NotAllowedError', 'InvalidStateError', 'SyntaxError', 'DataCloneError', 'QuotaExceededError', 'SecurityError', 'NotSupportedError', 'UnknownError', 'EncodingError', 'AbortError', 'Error'];
const CODES = ['ENOTFOUND', 'EAI_AGAIN', 'ECONNREFUSED', 'ECONNABORTED', 'EPIPE', 'ETIMEDOUT', 'EHOSTUNREACH', 'ENETUNREACH', 'EADDRNOTAVAIL', 'EMFILE', 'UND_ERR_SOCKET', 'UND_ERR_CONNECT_TIMEOUT', 'UND_ERR_HEADERS_TIMEOUT', 'UND_ERR_BODY_TIMEOUT', 'UND_ERR_ABORTED', 'UND_ERR_REQ_CONTENT_LENGTH_MISMATCH', 'CERT_HAS_EXPIRED', 'DEPTH_ZERO_SELF_SIGNED_CERT', 'ERR_TLS_CERT_ALTNAME_INVALID', 'ERR_INVALID_URL', 'ERR_INVALID_ARG_TYPE', 'ABORT_ERR', 'HPE_INVALID_CONSTANT'];
const RARE = {
  ...Object.fromEntries(DOM.map((n) => [`DOMException ${n}`, () => new DOMException('m', n)])),
  ...Object.fromEntries(CODES.flatMap((code) => [[`cause ${code}`, () => new TypeError('fetch failed', { cause: Object.assign(new Error(code), { code, errno: -1, syscall: 'connect' }) })], [`code ${code}`, () => Object.assign(new Error(code), { code })]])),
  ...Object.fromEntries(['RangeError', 'ReferenceError', 'EvalError', 'URIError'].map((n) => [n, () => new globalThis[n]('m')])),
  AggregateError: () => new AggregateError([new Error('a'), new Error('b')], 'all failed'),
  'cause AggregateError': () => new TypeError('fetch failed', { cause: Object.assign(new AggregateError([new Error('v6'), new Error('v4')]), { code: 'ETIMEDOUT' }) }),
  'cause of itself': () => { const e = new TypeError('fetch failed'); e.cause = e; return e; },
  'named TimeoutError': () => Object.assign(new Error('m'), { name: 'TimeoutError' }),
  'named AbortError': () => Object.assign(new Error('m'), { name: 'AbortError' }),
  'named like an API error': () => Object.assign(new Error('m'), { name: 'rate_limit_exceeded', statusCode: 429 }),
  'with a status': () => Object.assign(new Error('m'), { status: 503, statusCode: 503, response: { status: 503, data: {} } }),
  'without a stack': () => Object.assign(new Error('m'), { stack: undefined }),
  frozen: () => Object.freeze(new Error('m')),
  'without a prototype': () => Object.assign(Object.create(null), { message: 'm' }),
  'like an error': () => ({ name: 'Error', message: 'm', stack: '' }),
  response: () => new Response('{}', { status: 500 }),
  number: () => 0, boolean: () => false, bigint: () => 1n, symbol: () => Symbol('s'), function: () => () => 1, array: () => [], 'empty string': () => '',
};
const broken = (status, err, partial) =>
  new Response(
    new ReadableStream({
      start(c) {
        if (partial) c.enqueue(new TextEncoder().encode('{"id":"par'));
        else c.error(err);
      },
      pull(c) {
        c.error(err);
      },
    }),
    { status, headers: { 'content-type': 'application/json' } },
  );

const FAULTS = [];
for (const [n, mk] of Object.entries(THROWN)) {
  FAULTS.push({ name: `connection ${n}`, local: true, act: () => ({ reject: mk(), isReject: true }) });
  FAULTS.push({
    name: `fetch throws ${n}`,
    local: true,
    act: () => {
      throw { sync: true, value: mk() };
    },
  });
  for (const status of [200, 500, 404])
    for (const partial of [false, true]) FAULTS.push({ name: `body ${status} ${partial ? 'partial ' : ''}${n}`, local: true, status, act: () => broken(status, mk(), partial) });
}
for (const [n, mk] of Object.entries(RARE)) {
  FAULTS.push({ name: `connection ${n}`, local: true, act: () => ({ reject: mk(), isReject: true }) });
  FAULTS.push({
    name: `fetch throws ${n}`,
    local: true,
    act: () => {
      throw { sync: true, value: mk() };
    },
  });
  for (const status of [200, 503]) FAULTS.push({ name: `body ${status} ${n}`, local: true, status, act: () => broken(status, mk(), status === 200) });
}
for (const status of [200, 201])
  for (const [n, t] of Object.entries({ empty: '', html: '<html>ok</html>', truncated: '{"id":"x', text: 'OK' }))
    FAULTS.push({ name: `unparsable ${status} ${n}`, local: true, unparsable: true, act: () => new Response(t, { status }) });
FAULTS.push({ name: 'no content 204', local: true, unparsable: true, act: () => new Response(null, { status: 204 }) });
for (const status of [400, 404, 429, 500, 503])
  for (const [n, t] of Object.entries({ json: '{"name":"some_error","message":"m","statusCode":400}', empty: '', html: '<b>x</b>', null: 'null', truncated: '{"name":"x' }))
    FAULTS.push({ name: `status ${status} ${n}`, status, act: () => new Response(t, { status }) });

for (const [label, headers] of RESPONSE_HEADERS)
  for (const [status, n, t] of [[200, 'empty', ''], [202, 'html', '<html>ok</html>'], [503, 'html', '<html>'], [422, 'json', '{"name":"some_error","message":"m","statusCode":422}']])
    FAULTS.push({ name: `${n} ${status} with ${label}`, local: status < 300, unparsable: status < 300, status: status < 300 ? undefined : status, act: () => new Response(t, { status, headers }) });
for (const status of [200, 201, 202, 400, 500, 503])
  for (const [n, t] of Object.entries({ empty: '', blank: ' ', html: '<html>' })) FAULTS.push({ name: `${n} ${status} with its length`, local: status < 300, unparsable: status < 300, status: status < 300 ? undefined : status, act: () => new Response(t, { status, headers: { 'content-length': String(t.length), 'content-type': 'application/json' } }) });

const cutAfter = (status, n) => {
  let sent = false;
  return new Response(
    new ReadableStream({
      pull(c) {
        if (sent) return c.error(new TypeError('terminated'));
        sent = true;
        c.enqueue(new TextEncoder().encode(`{"id":"${text(n)}`));
      },
    }),
    { status, headers: { 'content-type': 'application/json' } },
  );
};
const sizedFaults = (tier) => {
  const out = [];
  for (const n of [...LENGTHS[tier].filter((x) => tier !== 'quick' || x % 5 === 0), ...HUGE[tier]]) {
    for (const status of [200, 422]) out.push({ name: `body ${status} cut after ${n}`, local: true, status, act: () => cutAfter(status, n) });
    out.push({ name: `unparsable 200 of length ${n}`, local: true, unparsable: true, act: () => new Response(`{"id":"${text(n)}`, { status: 200 }) });
    out.push({ name: `status 502 html of length ${n}`, status: 502, act: () => new Response(text(n), { status: 502 }) });
    out.push({ name: `connection message of length ${n}`, local: true, act: () => ({ reject: new TypeError(text(n)), isReject: true }) });
  }
  return out;
};

export async function run(ctx) {
  const rig = new Rig();
  FAULTS.push(...sizedFaults(ctx.tier));
  for (const flow of FLOWS)
    for (let step = 0; step < flow.steps.length; step++)
      for (const f of FAULTS) {
        // the raw download is bytes: any 2xx body is a valid message, so "unparsable" is no fault there
        if (flow.steps[step] === 'download' && f.unparsable) continue;
        const key = `${flow.name} step ${step} ${f.name}`;
        if (!ctx.want(key)) continue;
        await ctx.eval(key, async () => {
          unhandled.length = 0;
          const r = await rig.raw(
            (c) => flow.call(c),
            (rec, n) => {
              if (n < step) return flow.answer(rec, n);
              if (n > step) fail('the flow went on after a failed step', `${rec.method} ${rec.path}`);
              return f.act();
            },
            { NODE_ENV: ctx.evaluations % 2 ? 'production' : 'development' },
          );
          await quiesce();
          expect(unhandled.length === 0, 'an unhandled rejection was left behind', unhandled[0]);
          if (r.threw) fail('the call threw synchronously', r.threw);
          if ('rejected' in r) fail('the call rejected', r.rejected);
          if (r.hung) fail('the call never settled');
          expect(r.requests.length === step + 1, 'wrong number of requests for this fault', r.requests.map((q) => `${q.method} ${q.path}`));
          const v = r.value;
          expect(v && typeof v === 'object', 'the result is not an envelope', v);
          expectEqual(v.data, null, 'data is not null');
          expect(v.error && typeof v.error === 'object' && !Array.isArray(v.error), 'no error object', v);
          expect(typeof v.error.name === 'string' && v.error.name !== '', 'the error has no name', v.error);
          expect(typeof v.error.message === 'string', 'the error has no message', v.error);
          if (f.local) expectEqual(v.error.name, 'application_error', 'wrong error name');
          expect('statusCode' in v.error && (v.error.statusCode === null || typeof v.error.statusCode === 'number'), 'the status of the error is neither a number nor null', v.error);
          expect('headers' in v && (v.headers === null || typeof v.headers === 'object'), 'the headers are neither given nor null', v);
          if (f.status >= 400 && flow.steps[step] !== 'chain') expect(v.error.statusCode === f.status || /json/.test(f.name), 'the error does not name the HTTP status', v.error);
        });
      }
  // the same with body delivery and failure as separately scheduled events
  for (const flow of FLOWS.filter((f) => f.steps.length > 1 || f.scheduled))
    await explore(
      ctx,
      {
        key: `scheduled ${flow.name}`,
        make() {
          const world = new World({
            scheduleRender: true,
            answers: (rec, n) => {
              const good = flow.scripted(rec, n);
              const err = () => new TypeError('terminated');
              return [
                { ...good, label: 'ok', bodyFaults: [{ label: 'cut', error: err }, { label: 'partial', partial: true, error: err }] },
                { label: '500', status: 500, text: 'oops', bodyFaults: [{ label: 'cut', error: err }] },
                { label: 'reject', reject: new TypeError('fetch failed') },
              ];
            },
          });
          return {
            world,
            programs: [{ name: 'p', immediate: true, body: () => flow.call(world.client()) }],
            final(run) {
              const o = run.outcomes.p;
              expect(o && !('rejected' in o), 'the call rejected', o?.rejected);
              const faulted = run.log.some((l) => /500|reject|body-fault/.test(l));
              const v = o.value;
              expect(v && typeof v === 'object', 'no envelope', v);
              if (faulted) {
                expectEqual(v.data, null, 'data is not null after a fault');
                expect(v.error && typeof v.error === 'object' && v.error.name === 'application_error', 'no error after a fault', v);
              } else expect(v.error === null && v.data, 'no data without a fault', v);
            },
          };
        },
      },
      { maxRuns: 20000 },
    );
}
