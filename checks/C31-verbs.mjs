// C31: the client's own get/post/put/patch/delete send exactly what they are given and return what came back.
import { expect, expectEqual, fail, same } from '../lib/ctx.mjs';
import { COUNTS, DEPTHS, HUGE, LENGTHS, STR, T, deep, text, wide, word } from '../lib/alphabet.mjs';
import { Rig, brief } from '../lib/harness.mjs';
import { OUTCOMES } from '../lib/outcomes.mjs';
import { BASE, KEY, canonicalRequest, jsonBody, jsonResponse } from '../lib/world.mjs';

export const level = 'exploration';
export const shards = { quick: 4, thorough: 8 };
export const rule =
  'verb × path × entity × options, every entity and path of every size, verb × entity × outcome, every ordered pair of calls on one client; the request is compared with the one the arguments describe, the result with the answer; distinct by key';
export const bounds = (tier) => `5 verbs, ${PATHS.length} paths, ${Object.keys(ENTITIES).length} entities, ${Object.keys(OPTIONS).length} options, sizes up to ${HUGE[tier].at(-1)}; every ordered pair of (verb, entity, options) calls`;
export const assumptions = ['what a Request makes of method, URL, headers and body is what reaches the wire'];

const VERBS = ['get', 'post', 'put', 'patch', 'delete'];
const PATHS = [
  '/', '/a', '/a/b/c', '/a/', '//a//b', '/a?b=c', '/a?b=c&b=d&e=', '/a?x=1?y=2', '/a?q=a+b%20c%2Bd', '/a%2Fb', '/a%20b/%C3%A9', '/é/日本', '/a b', '/a?t=2024-01-01T00:00:00%2B02:00', '/a#frag', '/A/bC', '/a;v=1', '/a:b@c', "/a'b(c)*!~", '/%7B%7B', '/a?limit=1&after=x', '/a?b[]=1&b[]=2', '/emails', '/emails/batch', '/undefined', '/null', '/a?b', '/a?', '/a/%2e%2e%2fb', '/0',
];
class Model {
  constructor() {
    this.own = 1;
  }
  get derived() {
    return 2;
  }
}
/** Everything JSON can carry, the ways to spell it, and the ways to leave it out. */
const ENTITIES = {
  undefined: () => undefined,
  null: () => null,
  true: () => true,
  false: () => false,
  zero: () => 0,
  number: () => -1.5e21,
  nan: () => Number.NaN,
  'empty text': () => '',
  text: () => 'text "q" é \u2028',
  'json text': () => '{"a":1}',
  'empty list': () => [],
  list: () => [3, null, 'a', [undefined, { b: undefined }], { c: 1 }],
  'empty object': () => ({}),
  object: () => ({ camelCase: 1, snake_case: 'v', replyTo: 'x', reply_to: 'y', nul: null, undef: undefined, f: false, e: '' }),
  nested: () => ({ a: { b: { c: [{ d: null }] } }, headers: { 'x-a': 1 }, method: 'GET', body: 'b', idempotencyKey: 'in-body', query: { q: 1 } }),
  proto: () => JSON.parse('{"__proto__":{"a":1},"constructor":"c","toString":"t","then":"n"}'),
  'numeric keys': () => ({ 10: 'a', 2: 'b', '-1': 'c', '': 'd' }),
  'key order': () => ({ z: 1, a: 2, m: 3 }),
  toJSON: () => ({ hidden: 1, toJSON: () => ({ shown: [1] }) }),
  date: () => ({ at: new Date(86400000), on: [new Date(0)] }),
  class: () => new Model(),
  'null prototype': () => Object.assign(Object.create(null), { a: 1 }),
  'map and set': () => ({ m: new Map([[1, 2]]), s: new Set([1]), u: new Uint8Array([1, 2]) }),
  buffer: () => ({ content: Buffer.from([0, 255]) }),
  'functions and symbols': () => ({ f: () => 1, s: Symbol('s'), l: [() => 1, Symbol('s')], k: 1, [Symbol('x')]: 2 }),
  frozen: () => Object.freeze({ a: Object.freeze([1]) }),
  strings: () => T.str.more(),
  numbers: () => [0, -0, 1e21, 5e-324, Number.MAX_SAFE_INTEGER, 0.1, -1],
  boxed: () => ({ n: new Number(1), s: new String('s'), b: new Boolean(false) }),
  ...Object.fromEntries(
    Object.entries({
      URLSearchParams: () => new URLSearchParams('a=1&b=2'),
      Map: () => new Map([['a', 1]]),
      Set: () => new Set([1]),
      Date: () => new Date(86400000),
      Blob: () => new Blob(['b']),
      File: () => new File(['b'], 'f.txt'),
      ArrayBuffer: () => new ArrayBuffer(3),
      Uint8Array: () => new Uint8Array([1, 2]),
      DataView: () => new DataView(new ArrayBuffer(2)),
      Buffer: () => Buffer.from('hi'),
      Headers: () => new Headers({ a: '1' }),
      Error: () => Object.assign(new Error('m'), { code: 'c' }),
      RegExp: () => /x/g,
      URL: () => new URL('https://u.example/p?q=1'),
      Number: () => new Number(1),
      String: () => new String('boxed'),
      Boolean: () => new Boolean(false),
      Promise: () => Promise.resolve(1),
      iterator: () => [1, 2].values(),
      generator: () => (function* () { yield 1; })(),
      ReadableStream: () => new ReadableStream({ start(c) { c.close(); } }),
      AbortSignal: () => new AbortController().signal,
      thenable: () => ({ a: 1, then: 'not a function' }),
      'array with members': () => Object.assign([1, 2], { extra: 1 }),
      'sparse list': () => { const l = [1]; l[3] = 2; return l; },
      proxy: () => new Proxy({ a: 1 }, {}),
      getter: () => ({ get a() { return 1; } }),
      'hidden member': () => Object.defineProperty({ a: 1 }, 'b', { value: 2, enumerable: false }),
      arguments: () => (function () { return arguments; })(1, 2),
      'like a request': () => ({ method: 'DELETE', headers: { Authorization: 'x' }, body: 'b', url: 'https://elsewhere.test.invalid', signal: null }),
      'like FormData': () => ({ append: 'a', entries: [], get: 1 }),
      'like a stream': () => ({ pipe: 1, getReader: 2 }),
    }).map(([n, f]) => [`a ${n}`, f]),
  ),
  surrogate: () => ({ '\ud83d': '\ude00', s: '\ud83d' }),
};
const OPTIONS = {
  absent: [],
  undefined: [undefined],
  empty: [{}],
  headers: [{ headers: { 'X-One': '1', 'x-two': 'two' } }],
  'header pairs': [{ headers: [['X-One', '1'], ['x-two', 'two']] }],
  Headers: [() => ({ headers: new Headers({ 'X-One': '1', 'x-two': 'two' }) })],
  'undefined headers': [{ headers: undefined }],
  key: [{ idempotencyKey: 'idem-1' }],
  'key and headers': [{ idempotencyKey: 'idem-1', headers: { 'X-One': '1', 'x-two': 'two' } }],
};
const optionsOf = (name) => OPTIONS[name].map((o) => (typeof o === 'function' ? o() : o));
const SERVER = { object: 'thing', id: 'srv', nested: { a: [1, null] }, camelCase: true, snake_case: false };

/** Arguments for one call, and what it must look like on the wire. */
function invoke(client, verb, path, entity, opts) {
  if (verb === 'get') return client.get(path, ...opts);
  return client[verb](path, ...(entity === undefined && !opts.length ? [] : [entity, ...opts]));
}
function check(r, verb, path, entity, oname) {
  if (r.threw || 'rejected' in r || r.hung) fail('the call did not resolve', r.threw ?? r.rejected);
  expectEqual(r.requests.length, 1, 'not exactly one request');
  const q = r.requests[0];
  if (q.invalid) fail('the request could not be formed', q.invalid);
  expectEqual(q.method, verb.toUpperCase(), 'wrong verb');
  const u = new URL(`${BASE}${path}`);
  expectEqual(`${q.origin}${q.path}${q.search}`, `${u.origin}${u.pathname}${u.search}`, 'the request went somewhere else');
  const json = verb === 'get' ? undefined : JSON.stringify(entity);
  if (json === undefined) expectEqual(q.bodyKind, 'none', 'a body nobody gave');
  else {
    expectEqual(q.bodyKind, 'text', 'the entity was not sent as JSON text');
    const parsed = jsonBody(q);
    const expected = JSON.parse(json);
    if (!same(parsed, expected)) fail('the body is not the given entity', { actual: brief(q.text), expected: brief(json) });
    expectEqual(order(parsed), order(expected), 'the order of the keys changed');
  }
  const headers = { authorization: `Bearer ${KEY}`, 'user-agent': 'Verif-Agent/1.0 (Mixed; CASE)', 'content-type': 'application/json' };
  if (/eaders$|pairs/.test(oname) && !/undefined/.test(oname)) Object.assign(headers, { 'x-one': '1', 'x-two': 'two' });
  if (/^key/.test(oname) && verb === 'post') headers['idempotency-key'] = 'idem-1';
  expectEqual(q.headers, headers, 'wrong headers');
  return q;
}
const order = (v) => (Array.isArray(v) ? v.map(order) : v && typeof v === 'object' ? Object.keys(v).map((k) => [k, order(v[k])]) : null);

export async function run(ctx) {
  const rig = new Rig();
  const ok = () => jsonResponse(200, SERVER, { 'x-server': 'yes' });
  const one = (verb, path, entity, oname = 'absent') =>
    rig.raw((c) => invoke(c, verb, path, entity, optionsOf(oname)), ok).then((r) => {
      check(r, verb, path, entity, oname);
      expectEqual(r.value, { data: SERVER, error: null, headers: { 'content-type': 'application/json', 'x-server': 'yes' } }, 'the result is not the answer');
    });
  const names = Object.keys(ENTITIES);

  for (const verb of VERBS) {
    for (const path of PATHS)
      for (const en of verb === 'get' ? ['undefined'] : ctx.quick ? ['undefined', 'object', 'list', 'null', 'nested'] : names)
        for (const on of Object.keys(OPTIONS)) {
          if (/^key/.test(on) && verb !== 'post') continue;
          await ctx.eval(`${verb} ${path} ${en} ${on}`, () => one(verb, path, ENTITIES[en](), on));
        }
    if (verb !== 'get')
      for (const en of names)
        for (const on of Object.keys(OPTIONS)) {
          if (/^key/.test(on) && verb !== 'post') continue;
          await ctx.eval(`${verb} entity ${en} ${on}`, () => one(verb, '/raw', ENTITIES[en](), on));
        }
    // the same object sent again is sent the same, and is left alone
    if (verb !== 'get')
      for (const en of names)
        await ctx.eval(`${verb} ${en} twice`, async () => {
          const e = ENTITIES[en]();
          const before = JSON.stringify(e);
          await one(verb, '/raw', e);
          await one(verb, '/raw', e);
          expectEqual(JSON.stringify(e), before, 'the entity was modified');
        });

    // sizes
    for (const n of [...LENGTHS[ctx.tier], 20011]) {
      await ctx.eval(`${verb} path of length ${n}`, () => one(verb, `/${word(n)}`, undefined));
      await ctx.eval(`${verb} query of length ${n}`, () => one(verb, `/raw?q=${encodeURIComponent(text(Math.min(n, 20000)))}&z=1`, undefined));
    }
    for (const n of COUNTS[ctx.tier].filter((x) => x < 1200)) {
      await ctx.eval(`${verb} ${n} path segments`, () => one(verb, `/x${'/seg'.repeat(n)}`, undefined));
      await ctx.eval(`${verb} ${n} query parameters`, () => one(verb, `/raw?${Array.from({ length: n }, (_, i) => `p${i % 7}=${n - i}`).join('&')}`, undefined));
      await ctx.eval(`${verb} ${n} headers`, async () => {
        const headers = Object.fromEntries(Array.from({ length: n }, (_, i) => [`x-h${n - i}`, `v${i}`]));
        const r = await rig.raw((c) => invoke(c, verb, '/raw', verb === 'get' ? undefined : { a: 1 }, [{ headers }]), ok);
        const q = r.requests[0];
        if (!q || q.invalid) fail('no request', q?.invalid ?? r);
        for (const k of Object.keys(headers)) expectEqual(q.headers[k], headers[k], 'a header is missing');
        expectEqual(Object.keys(q.headers).length, n + 3, 'wrong number of headers');
      });
    }
    if (verb === 'get') continue;
    for (const n of [...LENGTHS[ctx.tier], ...HUGE[ctx.tier]]) {
      await ctx.eval(`${verb} text of length ${n}`, () => one(verb, '/raw', text(n)));
      await ctx.eval(`${verb} a value of length ${n}`, () => one(verb, '/raw', { a: { b: [text(n)] } }));
    }
    for (const n of COUNTS[ctx.tier]) {
      await ctx.eval(`${verb} list of ${n}`, () => one(verb, '/raw', Array.from({ length: n }, (_, i) => ({ n: n - i }))));
      await ctx.eval(`${verb} object of ${n}`, () => one(verb, '/raw', wide(n)));
    }
    for (const n of DEPTHS[ctx.tier]) await ctx.eval(`${verb} depth ${n}`, () => one(verb, '/raw', { d: deep(n) }));

    // what JSON cannot carry is not sent at all
    const loop = {};
    loop.self = { loop };
    const THROWN = { bigint: { n: 1n }, loop, getter: Object.defineProperty({}, 'x', { enumerable: true, get: () => { throw new Error('getter'); } }), toJSON: { toJSON: () => { throw new Error('toJSON'); } } };
    for (const [n, v] of Object.entries(THROWN))
      await ctx.eval(`${verb} unserialisable ${n}`, async () => {
        const r = await rig.raw((c) => c[verb]('/raw', v), ok);
        if (r.threw) fail('the call threw synchronously', r.threw);
        expect(!r.hung, 'the call never settled');
        expectEqual(r.requests.length, 0, 'a request was sent for an entity that cannot be');
        expect('rejected' in r || r.value?.error, 'the call reports success', r.value);
      });
  }

  // a form is sent as it is, with its own content type
  for (const n of COUNTS[ctx.tier].filter((x) => x <= 300))
    for (const on of Object.keys(OPTIONS))
      await ctx.eval(`post form of ${n} ${on}`, async () => {
        const form = new FormData();
        for (let i = 0; i < n; i++) i % 2 ? form.append(`f${i % 5}`, `v${i}`) : form.append('file', new Blob([`c${i}`], { type: 'text/csv' }), `n${i}.csv`);
        const entries = [...form.entries()];
        const r = await rig.raw((c) => c.post('/raw', form, ...optionsOf(on)), ok);
        if (r.threw || 'rejected' in r || r.hung) fail('the call did not resolve', r.threw ?? r.rejected);
        const q = r.requests[0];
        expectEqual(q?.bodyKind, 'form', 'the form was not sent as one');
        expect(/^multipart\/form-data; boundary=/.test(q.headers['content-type']), 'wrong content type', q.headers['content-type']);
        expectEqual(q.form.length, entries.length, 'wrong number of entries');
        for (const [i, [k, v]] of entries.entries()) {
          expectEqual(q.form[i][0], k, 'wrong entry');
          if (typeof v === 'string') expectEqual(q.form[i][1], v, 'wrong value');
          else {
            expectEqual([q.form[i][1].name, q.form[i][1].type], [v.name, v.type], 'wrong file');
            expectEqual(await q.form[i][1].text(), await v.text(), 'wrong file content');
          }
        }
        if (/^key/.test(on)) expectEqual(q.headers['idempotency-key'], 'idem-1', 'no idempotency key');
        expectEqual(q.headers.authorization, `Bearer ${KEY}`, 'no key');
      });

  // what comes back
  for (const verb of VERBS)
    for (const o of OUTCOMES)
      for (const en of verb === 'get' ? ['undefined'] : names)
        await ctx.eval(`${verb} ${en} ${o.name}`, async () => {
          const entity = ENTITIES[en]();
          const r = await rig.raw((c) => invoke(c, verb, '/raw?a=b', entity, []), () => (o.act ? o.act() : ok()));
          check(r, verb, '/raw?a=b', entity, 'absent');
          const v = r.value;
          if (o.kind === 'ok') expectEqual(v.data, SERVER, 'wrong data');
          else {
            expect(v.data === null && v.error && typeof v.error.message === 'string', 'not an error result', v);
            if (o.kind === 'api') expectEqual(v.error, o.error, 'not the error of the API');
            if (o.status) expect(v.headers !== null, 'the headers of the answer are missing', v);
            if (o.status && o.kind !== 'api') expectEqual(v.error.statusCode, o.status, 'wrong status');
          }
        });
  for (const [en, make] of Object.entries(ENTITIES)) {
    const json = JSON.stringify(make());
    if (json === undefined) continue;
    for (const verb of VERBS)
      await ctx.eval(`${verb} returns ${en}`, async () => {
        const r = await rig.raw((c) => invoke(c, verb, '/raw', undefined, []), () => new Response(json, { status: 200 }));
        if (!('value' in r)) fail('the call did not resolve', r);
        const data = JSON.parse(json);
        // a bare null carries no information; every other document is the data
        if (data === null) return false;
        expectEqual(r.value?.error ?? null, null, 'an error for a good answer');
        if (!same(r.value.data, data)) fail('the data is not the answer', { actual: brief(r.value.data), expected: brief(json) });
      });
  }
  for (const n of [...LENGTHS[ctx.tier], ...HUGE[ctx.tier]])
    for (const verb of VERBS)
      await ctx.eval(`${verb} returns length ${n}`, async () => {
        const r = await rig.raw((c) => invoke(c, verb, '/raw', undefined, []), () => jsonResponse(200, { v: text(n) }));
        expectEqual(r.value?.data?.v, JSON.parse(JSON.stringify(text(n))), 'the data is not the answer');
      });

  // the URL is the base URL followed by the path, whatever either looks like
  const bases = ['https://api.test.invalid', 'https://api.test.invalid/', 'https://api.test.invalid/v1', 'https://api.test.invalid/v1/', 'https://api.test.invalid/v1//', 'https://api.test.invalid/p?q=', 'https://api.test.invalid/a%20b', 'http://API.test.invalid:80'];
  const rigs = bases.map((b) => new Rig({ key: KEY, opts: { baseUrl: b, userAgent: 'Verif-Agent/1.0 (Mixed; CASE)' } }));
  for (const [i, base] of bases.entries())
    for (const path of [...PATHS, 'emails', 'emails/a?b=c', '?q=1', '', ':8080/x', '/..', '/../x', './x', '/a/./b', '//host.test.invalid/x', 'https://other.test.invalid/x', '\\a', '/a\\b', ' /a ', '/a\tb', '/%zz', ...STR.map((x) => `/${x}`), ...STR.map((x) => `/q?x=${x}`)])
      for (const verb of VERBS)
        for (const on of ['absent', 'headers'])
          await ctx.eval(`${verb} ${base} + ${JSON.stringify(path).slice(0, 80)} ${on}`, async () => {
            const r = await rigs[i].raw((c) => invoke(c, verb, path, verb === 'get' ? undefined : { a: 1 }, optionsOf(on)), ok);
            if (r.threw || 'rejected' in r || r.hung) fail('the call did not resolve', r.threw ?? r.rejected);
            expectEqual(r.requests.length, 1, 'not exactly one request');
            const q = r.requests[0];
            const formed = canonicalRequest(`${base}${path}`, {});
            if (formed.invalid) return expect(q.invalid && r.value?.error, 'a request to a place nobody named', q);
            if (q.invalid) fail('the request could not be formed', q.invalid);
            expectEqual([q.method, `${q.origin}${q.path}${q.search}`], [verb.toUpperCase(), `${formed.origin}${formed.path}${formed.search}`], 'the request went somewhere else');
            expectEqual(r.value.data, SERVER, 'the result is not the answer');
          });

  // one call leaves nothing for the next
  const kinds = [];
  for (const verb of VERBS)
    for (const en of verb === 'get' ? ['undefined'] : ctx.quick ? ['undefined', 'null', 'object', 'list'] : ['undefined', 'null', 'false', 'object', 'list', 'text', 'nested', 'empty object'])
      for (const on of ctx.quick ? ['absent', verb === 'post' ? 'key and headers' : 'headers'] : Object.keys(OPTIONS).filter((x) => verb === 'post' || !/^key/.test(x))) kinds.push([verb, en, on]);
  for (const a of kinds)
    for (const b of kinds)
      await ctx.eval(`${a.join(' ')} then ${b.join(' ')}`, async () => {
        await one(a[0], '/first?x=1', ENTITIES[a[1]](), a[2]);
        await one(b[0], '/second', ENTITIES[b[1]](), b[2]);
      });
}
