// C06: the response envelope discriminates success and failure and carries the API's answer.
import { expect, expectEqual, fail } from '../lib/ctx.mjs';
import { Rig, brief } from '../lib/harness.mjs';
import { DOCS, WRAPPERS, COUNTS, DEPTHS, HUGE, LENGTHS, NUMBERS, STR, deep, text, wide, word } from '../lib/alphabet.mjs';
import { OPS, apiProp, baseValues, buildArgs } from '../lib/ops.mjs';
import { ERROR_NAMES, RESPONSE_HEADERS } from '../lib/outcomes.mjs';
import { NULL_BODY } from '../lib/world.mjs';

export const level = 'fault_enumeration';
export const shards = { quick: 4, thorough: 8 };
export const rule =
  'operation × HTTP status × body text × header set; every case is one real SDK call against that answer, compared with the reference envelope; distinct by key';
export const bounds = (tier) =>
  `24 body kinds; every status 200–599 for ${tier === 'quick' ? '8 representative operations, 16 statuses for every operation' : 'every operation'}; 5 header sets; answers and header sets of every size up to 1 MB`;
export const assumptions = [
  'a 2xx answer whose body is not JSON only has to be an error (C07)',
  'contact property reads are given well-formed 2xx bodies (or null); set-cookie repetition is outside the header map',
];

const BODIES = [
  '{"name":"validation_error","message":"bad","statusCode":422}',
  '{"message":"only message"}',
  '{}',
  '{"statusCode":429,"name":"rate_limit_exceeded","message":"slow","extra":{"nested":[1,null]},"__proto__":{"x":1}}',
  '{"error":null,"data":{"id":"x"}}',
  '{"data":null,"error":{"name":"inner"}}',
  ' \n{"id":"ws"}\t',
  '{"message":"","name":null}',
  '[]',
  '[{"name":"x","message":"y"}]',
  'null',
  'true',
  'false',
  '0',
  '12.5',
  '""',
  '"text"',
  '',
  ' ',
  '<html><body>502 Bad Gateway</body></html>',
  '{"name":"trunc","mess',
  'undefined',
  '{"a":1}{"b":2}',
  'NaN',
];
const HEADERS = [
  { 'content-type': 'application/json' },
  {},
  { 'Content-Type': 'text/html; charset=utf-8', 'Retry-After': '3', 'X-RateLimit-Remaining': '0' },
  [
    ['content-type', 'application/json'],
    ['X-Multi', 'a'],
    ['x-multi', 'b'],
    ['x-empty', ''],
    ['data', 'd'],
    ['error', 'e'],
  ],
  Object.fromEntries([['content-length', '7'], ...Array.from({ length: 30 }, (_, i) => [`x-h${i}`, String(i)])]),
];
const STATUSES = [200, 201, 202, 204, 299, 300, 304, 400, 401, 404, 409, 422, 429, 500, 503, 599];
const isJSON = (t) => {
  try {
    JSON.parse(t);
    return true;
  } catch {
    return false;
  }
};

export async function run(ctx) {
  const rig = new Rig();
  const test = async (invoke, status, text, headers, mapData) => {
    const empty = NULL_BODY.has(status);
    const body = empty ? '' : text;
    let sent;
    const r = await invoke(() => {
      sent = new Response(empty ? null : text, { status, headers });
      return new Response(empty ? null : text, { status, headers });
    });
    if (r.rejected || r.threw) fail('the call rejected', r.rejected ?? r.threw);
    if (r.hung) fail('the call never settled');
    const v = r.value;
    expect(v !== null && typeof v === 'object', 'the result is not an envelope', v);
    const h = Object.fromEntries(sent.headers.entries());
    const ok = status >= 200 && status < 300;
    if (ok && isJSON(body)) {
      expectEqual(v.error, null, 'a 2xx answer was reported as an error');
      expectEqual(v.data, mapData(JSON.parse(body)), 'the data is not the answer');
      expectEqual(v.headers, h, 'response headers are not carried');
      return;
    }
    expectEqual(v.data, null, 'data is not null for a failed request');
    expect(v.error !== null && typeof v.error === 'object' && !Array.isArray(v.error), 'error is not an object for a failed request', v);
    if (ok) {
      expectEqual(v.error.name, 'application_error', 'wrong error for an unparsable answer');
      return;
    }
    expectEqual(v.headers, h, 'response headers are not carried');
    const parsed = isJSON(body) ? JSON.parse(body) : undefined;
    if (parsed !== null && typeof parsed === 'object' && !Array.isArray(parsed)) expectEqual(v.error, parsed, 'the error is not the API’s own');
    else {
      expectEqual(v.error.name, 'application_error', 'wrong error name');
      expectEqual(v.error.statusCode, status, 'the error does not carry the HTTP status');
      expect(typeof v.error.message === 'string', 'the error has no message', v.error);
    }
  };
  const REPR = new Set(['emails.send', 'emails.get', 'emails.list', 'emails.update', 'domains.remove', 'batch.send', 'contactProperties.get', 'contacts.imports.create']);
  const targets = OPS.map((o) => [o.name, (answer) => rig.call(o, o.body === 'batch' ? {} : baseValues(o), { answer }), o]);
  for (const [verb, args] of [
    ['get', ['/x']],
    ['post', ['/x', { a: 1 }]],
    ['put', ['/x', { a: 1 }]],
    ['patch', ['/x', { a: 1 }]],
    ['delete', ['/x']],
    ['fetchRequest', ['/x', { method: 'GET' }]],
  ])
    targets.push([`client.${verb}`, (answer) => rig.raw((c) => c[verb](...args), answer), { name: `client.${verb}`, mapData: (d) => d }]);
  for (const [name, invoke, o] of targets) {
    const special = /^contactProperties\.(list|get)$/.test(name);
    const all = REPR.has(name) || !ctx.quick;
    const statuses = all ? Array.from({ length: 400 }, (_, i) => 200 + i) : STATUSES;
    const bodies = [...BODIES, ...(special ? [JSON.stringify(o.sample)] : [])];
    for (const status of statuses)
      for (const [b, text] of bodies.entries()) {
        if (special && status >= 200 && status < 300 && isJSON(text) && text !== 'null' && text !== bodies.at(-1)) continue;
        const hs = STATUSES.includes(status) ? HEADERS.keys() : [b % HEADERS.length];
        for (const h of hs) {
          const key = `${name} ${status} body#${b} headers#${h}`;
          if (!ctx.want(key)) continue;
          await ctx.eval(key, () => test(invoke, status, text, HEADERS[h], special && text === 'null' ? (d) => d : o.mapData), `${status} ${brief(text)}`);
        }
      }
  }
  // answers of every size
  const many = (n) => Array.from({ length: n }, (_, i) => ({ id: `x${(n - i) * 7}`, name: i % 2 ? 'e\u0301' : null, n: i }));
  for (const [name, invoke, o] of targets) {
    if (!ctx.quick || REPR.has(name) || /^client\./.test(name)) {
      // the full sweep on a few operations, the quick one on the others
      const tier = REPR.has(name) || /^client\./.test(name) ? ctx.tier : 'quick';
      const special = /^contactProperties\.(list|get)$/.test(name);
      const sized = [
        ...COUNTS[tier].flatMap((n) => [[`${n} entries`, { object: 'list', has_more: n % 2 > 0, data: many(n) }], [`${n} fields`, wide(n)]]),
        ...[...LENGTHS[tier], ...HUGE[tier]].map((n) => [`a text of ${n}`, { id: 'x', html: text(n), after: 'y' }]),
        ...DEPTHS[tier].map((n) => [`depth ${n}`, { id: 'x', deep: deep(n) }]),
      ];
      for (const [label, v] of sized) {
        if (!special) await ctx.eval(`${name} 200 with ${label}`, () => test(invoke, 200, JSON.stringify(v), HEADERS[0], o.mapData));
        await ctx.eval(`${name} 422 with ${label}`, () => test(invoke, 422, JSON.stringify({ name: 'validation_error', message: 'm', statusCode: 422, ...v }), HEADERS[0], o.mapData));
      }
      for (const n of [...LENGTHS[tier], ...HUGE[tier]]) {
        await ctx.eval(`${name} 422 with a message of ${n}`, () => test(invoke, 422, JSON.stringify({ name: 'validation_error', message: text(n), statusCode: 422 }), HEADERS[0], o.mapData));
        await ctx.eval(`${name} 502 with ${n} characters of HTML`, () => test(invoke, 502, `<html>${text(n)}`, HEADERS[0], o.mapData));
        await ctx.eval(`${name} 400 with ${n} blanks around`, () => test(invoke, 400, `${' '.repeat(n)}{"name":"x","message":"m"}${'\n'.repeat(n)}`, HEADERS[0], o.mapData));
      }
      for (const n of COUNTS[tier].filter((x) => x <= 1100))
        for (const status of [200, 422]) await ctx.eval(`${name} ${status} with ${n} headers`, () => test(invoke, status, JSON.stringify(special ? o.sample : { id: 'x' }), Object.fromEntries(Array.from({ length: n }, (_, i) => [`x-h${n - i}`, String(i)])), o.mapData));
      for (const n of LENGTHS[tier].filter((x) => x > 0 && x < 20000))
        for (const status of [200, 422]) await ctx.eval(`${name} ${status} with a header of ${n}`, () => test(invoke, status, JSON.stringify(special ? o.sample : { id: 'x' }), { 'x-long': word(n), [`x-${word(Math.min(n, 200)).toLowerCase()}`]: 'v' }, o.mapData));
    }
  }
  // whatever the answer says: every text as a value, as a key and as a list entry, every number as it may be written
  for (const [name, invoke, o] of targets)
    for (const [d, doc] of DOCS.entries())
      for (const status of [200, 422]) {
        if (status === 200 && /^contactProperties\.(list|get)$/.test(name)) continue;
        if (ctx.quick && d < STR.length * 3 && doc.length > 3000) continue;
        await ctx.eval(`${name} ${status} document#${d}`, () => test(invoke, status, doc, HEADERS[0], o.mapData), brief(doc));
      }
  // members that look like a wrapper or a verdict
  for (const [t, [name, invoke, o]] of targets.entries())
    for (const [d, doc] of WRAPPERS.entries())
      for (const status of [200, 422, ...(ctx.quick ? [] : [201, 404, 429, 500])]) {
        if (status < 300 && /^contactProperties\.(list|get)$/.test(name)) continue;
        if (ctx.quick && !REPR.has(name) && d % 4 !== t % 4) continue;
        await ctx.eval(`${name} ${status} wrapper#${d}`, () => test(invoke, status, doc, HEADERS[0], o.mapData), doc);
      }
  // whatever header fields the answer has
  for (const [name, invoke, o] of targets)
    for (const [label, h] of RESPONSE_HEADERS)
      for (const [status, body] of [
        [200, JSON.stringify(o.sample ?? { id: 'x' })],
        [422, BODIES[0]],
        [429, BODIES[3]],
        [500, '<html>'],
      ])
        await ctx.eval(`${name} ${status} ${label}`, () => test(invoke, status, body, h, o.mapData));
  for (const [name, invoke, o] of targets)
    for (const status of STATUSES)
      for (const body of ['', ' ', '<html>', BODIES[0], '[]'])
        for (const h of [{}, { 'content-type': 'application/json' }, { 'content-type': 'text/html' }, { 'retry-after': '1' }]) if (status >= 300 || !/contactProperties/.test(name) || !/^[[{]/.test(body)) await ctx.eval(`${name} ${status} ${brief(body)} with its length ${Object.values(h)}`, () => test(invoke, status, body, { ...h, 'content-length': String(body.length) }, o.mapData));
  // every documented error name with every plausible status
  for (const [name, invoke, o] of targets)
    for (const error of ERROR_NAMES)
      for (const status of ctx.quick ? [400, 404, 409, 429, 500] : [300, 400, 401, 403, 404, 405, 409, 410, 422, 423, 429, 451, 500, 503])
        for (const [ei, extra] of [{}, { statusCode: status }, { statusCode: null, code: error }].entries())
          await ctx.eval(`${name} ${status} error ${error} #${ei}`, () => test(invoke, status, JSON.stringify({ name: error, message: `m ${error}`, ...extra }), HEADERS[0], o.mapData));
}
