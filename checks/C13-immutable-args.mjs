// C13: arguments are never modified and may be deeply frozen.
import { isDeepStrictEqual } from 'node:util';
import { expect, expectEqual, fail } from '../lib/ctx.mjs';
import { Rig, brief, outcomeOf, wire } from '../lib/harness.mjs';
import { FLOW, FLOWS, react } from '../lib/flows.mjs';
import { COUNTS, resized } from '../lib/alphabet.mjs';
import { OPS, baseEmail, baseValues, bind, buildArgs, emailFieldList, minimalValues } from '../lib/ops.mjs';
import { jsonResponse } from '../lib/world.mjs';

export const level = 'exploration';
export const shards = { quick: 4, thorough: 8 };
export const rule =
  'operation × arguments (full, minimal, each field at each value of its alphabet, pairs of deviating fields; React and option variants) × outcome (success, API error, connection lost); each case is three calls: plain arguments, the same objects again, deeply frozen equal ones - the arguments are compared with a deep copy after every call and all three must send and return the same; distinct by key';
export const bounds = (tier) => `full field alphabets; lists and records of every size (batches up to 1025 mails); field pairs: ${tier === 'quick' ? 'first two values' : 'all values'} of each; 3 outcomes for base arguments, 1 for deviations`;
export const assumptions = ['binary contents (Buffer, Blob) cannot be frozen by the language; they are compared instead'];

const plain = (v) => v !== null && typeof v === 'object' && !ArrayBuffer.isView(v) && !(v instanceof Blob) && !(v instanceof Headers) && !(v instanceof FormData) && !(v instanceof Date);
const copy = (v) => {
  if (v instanceof Headers) return { __headers: [...v.entries()] };
  if (v instanceof FormData) return { __form: [...v.entries()] };
  if (ArrayBuffer.isView(v)) return Buffer.from(v);
  if (!plain(v)) return v;
  const r = Array.isArray(v) ? new Array(v.length) : Object.create(Object.getPrototypeOf(v));
  for (const k of Reflect.ownKeys(v)) if (!(Array.isArray(v) && k === 'length')) Object.defineProperty(r, k, { value: copy(v[k]), enumerable: true, writable: true, configurable: true });
  return r;
};
const freeze = (v) => {
  if (!plain(v) || Object.isFrozen(v)) return v;
  Object.freeze(v);
  for (const k of Reflect.ownKeys(v)) freeze(v[k]);
  return v;
};
/** What objects are beside their members' values: state, hidden and symbol members, attributes, accessors, identity. */
const shape = (v, out = [], at = '', seen = new Set()) => {
  if (v === null || (typeof v !== 'object' && typeof v !== 'function') || seen.has(v)) return out;
  seen.add(v);
  out.push([at, v, Object.getPrototypeOf(v), Object.isExtensible(v), Object.isSealed(v), Object.isFrozen(v)]);
  if (ArrayBuffer.isView(v)) return out;
  for (const k of Reflect.ownKeys(v)) {
    const d = Object.getOwnPropertyDescriptor(v, k);
    out.push([at, k, d.enumerable, d.configurable, d.writable, d.get, d.set, 'value' in d ? d.value : undefined]);
    if ('value' in d && !(v instanceof Headers || v instanceof FormData || v instanceof Blob)) shape(d.value, out, `${at}.${String(k)}`, seen);
  }
  return out;
};
const sameShape = (a, b) => a.length === b.length && a.every((x, i) => x.length === b[i].length && x.every((y, j) => Object.is(y, b[i][j])));
const deepSame = (a, b) => isDeepStrictEqual(copy(a), b) && isDeepStrictEqual(Object.keys(a), Object.keys(b));

export async function run(ctx) {
  const rig = new Rig();
  const OUT = {
    ok: (answer) => answer,
    422: () => () => jsonResponse(422, { name: 'validation_error', message: 'm', statusCode: 422 }),
    lost: () => () => ({ reject: new TypeError('fetch failed') }),
  };
  /** build() makes a fresh, equal argument list each time. */
  const test = async (key, build, invoke, answer, outcomes) => {
    for (const o of outcomes) {
      const k = `${key} ${o}`;
      if (!ctx.want(k)) continue;
      await ctx.eval(k, async () => {
        const a = OUT[o](answer);
        const args = build();
        const before = copy(args);
        const form = shape(args);
        const go = async (x) => {
          const r = await rig.raw((c) => invoke(c, x), a);
          if (r.hung) fail('the call never settled');
          return { wires: r.requests.map(wire), outcome: outcomeOf(r) };
        };
        const first = await go(args);
        expect(deepSame(args, before), 'the call modified its arguments', { before, after: args });
        expect(sameShape(shape(args), form), 'the call changed what its arguments are (frozen, hidden members, attributes, replaced objects)', { before, after: args });
        const second = await go(args);
        expectEqual(second, first, 'calling again with the same objects does something else');
        expect(deepSame(args, before), 'the second call modified its arguments', { before, after: args });
        expect(sameShape(shape(args), form), 'the second call changed what its arguments are', { before, after: args });
        const cold = freeze(build());
        const third = await go(cold);
        expectEqual(third, first, 'frozen arguments give another request or result');
        expect(deepSame(cold, before), 'frozen arguments were modified', { before, after: cold });
        return first.wires.length > 0;
      });
    }
  };
  const REQS = {
    none: () => undefined,
    full: () => ({ idempotencyKey: 'k', headers: { 'X-A': '1', authorization: 'Bearer z' } }),
    pairs: () => ({ headers: [['X-A', '1'], ['x-a', '2']] }),
    headers: () => ({ idempotencyKey: 'k', headers: new Headers({ 'X-A': '1' }) }),
    batch: () => ({ batchValidation: 'permissive', headers: {} }),
  };
  const all = Object.keys(OUT);
  for (const o of OPS) {
    const invoke = (c, args) => bind(c, o)(...args);
    const answer = () => jsonResponse(200, o.sample);
    for (const [rn, mk] of Object.entries(REQS)) {
      if (rn !== 'none' && !o.request) continue;
      for (const [vn, vals] of [
        ['full', () => baseValues(o)],
        ['minimal', () => minimalValues(o)],
      ])
        await test(`${o.name} ${vn} options ${rn}`, () => buildArgs(o, copy(vals()), { request: mk() }), invoke, answer, all);
    }
    const fields = o.fields.filter((f) => f.to !== 'path');
    for (const f of fields)
      for (const [i, v] of f.type.more(f.name).entries()) {
        await test(`${o.name} ${f.name}#${i}=${brief(v)}`, () => buildArgs(o, copy({ ...baseValues(o), [f.name]: v })), invoke, answer, ['ok']);
        if (plain(v)) await test(`${o.name} only ${f.name}#${i}=${brief(v)}`, () => buildArgs(o, copy({ ...minimalValues(o), [f.name]: v })), invoke, answer, all);
      }
    // lists and records of every size
    for (const f of fields) {
      if (f.type.fixed) continue;
      const value = f.type.base(f.name);
      if (!plain(value)) continue;
      for (const [label, v] of resized(value, ctx.tier, f.type.closed)) {
        const key = `${o.name} ${f.name} ${label}`;
        if (ctx.want(`${key} ok`)) await test(key, () => buildArgs(o, copy({ ...minimalValues(o), [f.name]: v })), invoke, answer, ['ok']);
      }
    }
    for (let i = 0; i < fields.length; i++)
      for (let j = i + 1; j < fields.length; j++) {
        const cut = ctx.quick ? 2 : 99;
        for (const [a, va] of fields[i].type.more(fields[i].name).slice(0, cut).entries())
          for (const [b, vb] of fields[j].type.more(fields[j].name).slice(0, cut).entries()) {
            const key = `${o.name} pair ${fields[i].name}#${a} ${fields[j].name}#${b}`;
            if (ctx.want(`${key} ok`)) await test(key, () => buildArgs(o, copy({ ...baseValues(o), [fields[i].name]: va, [fields[j].name]: vb })), invoke, answer, ['ok']);
          }
      }
  }
  // React content, alone and in batches, with and without an html it replaces
  const batch = (c, args) => c.batch.send(...args);
  const mails = [
    () => ({ ...baseEmail(0), react: react('A') }),
    () => ({ from: 'a@x.io', to: 't@x.io', subject: 's', react: react('B') }),
    () => baseEmail(1),
    () => Object.fromEntries(emailFieldList.map((f) => [f.name, copy(f.type.base(f.name))])),
  ];
  for (let n = 0; n <= (ctx.quick ? 2 : 3); n++)
    for (let m = 0; m < mails.length ** n; m++)
      for (const [rn, mk] of Object.entries(REQS)) {
        const pick = Array.from({ length: n }, (_, i) => Math.floor(m / mails.length ** i) % mails.length);
        await test(`batch.send [${pick}] options ${rn}`, () => [pick.map((p) => mails[p]()), ...(rn === 'none' ? [] : [mk()])], batch, FLOW['batch.send'].answer, n < 2 ? all : ['ok', 'lost']);
      }
  for (const n of COUNTS[ctx.tier].filter((x) => x <= 1025)) {
    const key = `batch.send of ${n}`;
    if (ctx.want(`${key} ok`)) await test(key, () => [Array.from({ length: n }, (_, i) => mails[i % 2 ? 2 : n % 4 ? 1 : 2]())], batch, FLOW['batch.send'].answer, ['ok']);
  }
  const shared = () => {
    const e = { ...baseEmail(0), react: react('S') };
    return [[e, e]];
  };
  await test('batch.send same email twice', shared, batch, FLOW['batch.send'].answer, all);
  for (const [name, f] of [
    ['emails.send', (c, a) => c.emails.send(...a)],
    ['broadcasts.create', (c, a) => c.broadcasts.create(...a)],
    ['templates.create', (c, a) => c.templates.create(...a)],
    ['templates.create.publish', (c, a) => c.templates.create(...a).publish()],
  ])
    for (const html of [undefined, '<p>own</p>'])
      await test(`${name} react${html ? '+html' : ''}`, () => [{ ...baseValues(OPS.find((o) => o.name === name.replace('.publish', ''))), html, react: react('R') }], f, () => jsonResponse(200, { id: 'x' }), all);
  for (const html of [undefined, '<p>own</p>']) await test(`broadcasts.update react${html ? '+html' : ''}`, () => ['b', { html, react: react('R') }], (c, a) => c.broadcasts.update(...a), () => jsonResponse(200, { id: 'x' }), all);
  // forwarding
  for (const fw of FLOWS.filter((f) => f.forward))
    for (const [rn, mk] of Object.entries(REQS))
      for (const opts of [{}, { passthrough: false, text: 't', html: '<p>h</p>' }, { passthrough: true }, { passthrough: false }])
        await test(
          `${fw.name} ${JSON.stringify(opts)} options ${rn}`,
          () => [{ emailId: 'em_1', to: ['a@x.io', 'b@x.io'], from: 'f@x.io', ...opts }, ...(rn === 'none' ? [] : [mk()])],
          (c, a) => c.emails.receiving.forward(...a),
          fw.answer,
          all,
        );
  // raw verbs
  const ENTITIES = {
    object: () => ({ deep: { list: [1, { a: null }] } }),
    array: () => [3, 1, { b: [2] }, 1],
    'empty array': () => [],
    'empty object': () => ({}),
    string: () => 'text',
    null: () => null,
    number: () => 0,
    'array of objects': () => [{ z: 1, a: undefined }, { html: '', react: null }],
    'odd keys': () => ({ headers: { 'X-B': '2' }, method: 'GET', body: 'x', query: {}, idempotencyKey: 'other' }),
    form: () => {
      const f = new FormData();
      f.append('a', '1');
      f.append('a', '2');
      return f;
    },
  };
  for (const v of ['post', 'put', 'patch', 'delete', 'get'])
    for (const [rn, mk] of Object.entries(REQS))
      for (const [en, entity] of Object.entries(v === 'get' ? { '-': null } : ENTITIES))
        await test(`client.${v} ${en} options ${rn}`, () => ['/raw', ...(v === 'get' ? [] : [entity()]), ...(rn === 'none' ? [] : [mk()])], (c, a) => c[v](...a), () => jsonResponse(200, {}), all);
  // webhook verification
  await test('webhooks.verify', () => [{ payload: '{}', headers: { id: 'i', timestamp: '1', signature: 'v1,x' }, webhookSecret: 'whsec_c2VjcmV0' }], (c, a) => c.webhooks.verify(...a), () => jsonResponse(200, {}), ['ok']);
}
