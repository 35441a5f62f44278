// C33: how the argument objects are built, and which of two equivalent spellings is used, makes no difference.
import vm from 'node:vm';
import { expectEqual, fail, same } from '../lib/ctx.mjs';
import { FLOWS, react } from '../lib/flows.mjs';
import { Rig, brief, outcomeOf, subsets, wire } from '../lib/harness.mjs';
import { OPS, baseEmail, baseValues, bind, buildArgs, minimalValues } from '../lib/ops.mjs';
import { OUTCOMES } from '../lib/outcomes.mjs';
import { jsonResponse, textResponse } from '../lib/world.mjs';

export const level = 'exploration';
export const shards = { quick: 8, thorough: 8 };
export const rule =
  'operation × arguments (full, minimal, each field alone, each unusual value) × representation of every object and list in them (null prototype, class instance, accessors, frozen, proxied, other key order, other realm, list subclass, hidden members, shared references, combinations) × outcome; aliases of a method; requests and result compared with those of plain literals; distinct by key';
export const bounds = (tier) => `${Object.keys(FORMS).length} representations, applied to everything, to the top level only and below it only; ${tier === 'quick' ? 'two' : 'all'} outcomes`;
export const assumptions = ['every representation has the same own enumerable members with the same values', 'order of keys is compared nowhere'];

const plain = (v) => v && typeof v === 'object' && (Array.isArray(v) || Object.getPrototypeOf(v) === Object.prototype || Object.getPrototypeOf(v) === null) && !('$$typeof' in v);
/** Rebuild a value bottom-up, with make(kind, entries) for each object and list selected by `where`. */
function rebuild(v, form, where, depth = 0) {
  if (!plain(v)) return v;
  const isList = Array.isArray(v);
  const entries = Object.keys(v).map((k) => [k, rebuild(v[k], form, where, depth + 1)]);
  const here = where === 'all' || (where === 'top' ? depth === 0 : depth > 0);
  if (!here) {
    const r = isList ? new Array(v.length) : {};
    for (const [k, x] of entries) define(r, k, x);
    return r;
  }
  return isList ? (form.list ? form.list(entries.map((e) => e[1])) : entries.map((e) => e[1])) : form.object ? form.object(entries) : entries.reduce((o, [k, x]) => define(o, k, x), {});
}
const define = (o, k, value) => Object.defineProperty(o, k, { value, enumerable: true, writable: true, configurable: true });
const fill = (o, entries) => entries.reduce((r, [k, x]) => define(r, k, x), o);
class Dto {
  describe() {
    return 'method';
  }
  get derived() {
    return 'inherited accessor';
  }
}
class Sub extends Dto {}
class List extends Array {}
const foreign = vm.createContext({});
const ForeignObject = vm.runInContext('Object', foreign);
const ForeignArray = vm.runInContext('Array', foreign);
const proxied = (t) => new Proxy(t, { get: (o, k) => Reflect.get(o, k), has: (o, k) => Reflect.has(o, k), ownKeys: (o) => Reflect.ownKeys(o), getOwnPropertyDescriptor: (o, k) => Reflect.getOwnPropertyDescriptor(o, k) });
const FORMS = {
  literal: {},
  'null prototype': { object: (e) => fill(Object.create(null), e) },
  class: { object: (e) => fill(new Dto(), e) },
  subclass: { object: (e) => fill(new Sub(), e) },
  accessors: { object: (e) => e.reduce((o, [k, x]) => Object.defineProperty(o, k, { get: () => x, enumerable: true, configurable: true }), {}) },
  'final accessors': { object: (e) => Object.freeze(e.reduce((o, [k, x]) => Object.defineProperty(o, k, { get: () => x, enumerable: true }), {})) },
  'not writable': { object: (e) => e.reduce((o, [k, value]) => Object.defineProperty(o, k, { value, enumerable: true }), {}), list: (l) => Object.freeze(l) },
  frozen: { object: (e) => Object.freeze(fill({}, e)), list: (l) => Object.freeze(l) },
  sealed: { object: (e) => Object.seal(fill({}, e)), list: (l) => Object.seal(l) },
  'not extensible': { object: (e) => Object.preventExtensions(fill({}, e)), list: (l) => Object.preventExtensions(l) },
  proxy: { object: (e) => proxied(fill({}, e)), list: (l) => proxied(l) },
  'proxied class': { object: (e) => proxied(fill(new Dto(), e)) },
  'frozen null prototype': { object: (e) => Object.freeze(fill(Object.create(null), e)), list: (l) => Object.freeze(l) },
  'reversed keys': { object: (e) => fill({}, [...e].reverse()) },
  'sorted keys': { object: (e) => fill({}, [...e].sort((a, b) => (a[0] < b[0] ? -1 : 1))) },
  'rotated keys': { object: (e) => fill({}, [...e.slice(1), ...e.slice(0, 1)]) },
  'other realm': { object: (e) => fill(new ForeignObject(), e), list: (l) => fill(new ForeignArray(), l.map((x, i) => [i, x])) },
  'list subclass': { list: (l) => fill(new List(), l.map((x, i) => [i, x])) },
  'hidden members': {
    object: (e) => Object.defineProperty(fill({ [Symbol('x')]: 'symbol member' }, e), 'hidden', { value: 'hidden member', enumerable: false }),
    list: (l) => Object.defineProperty(l, 'note', { value: 'hidden', enumerable: false }),
  },
  'from JSON': { object: (e) => fill(JSON.parse('{}'), e) },
  'own methods hidden': { object: (e) => ['toString', 'hasOwnProperty', 'valueOf', 'propertyIsEnumerable', 'isPrototypeOf', 'toLocaleString'].filter((k) => !e.some((x) => x[0] === k)).reduce((o, k) => Object.defineProperty(o, k, { value: 'not a function', enumerable: false, configurable: true, writable: true }), fill({}, e)) },
};

const structuredCopy = (v) => (!plain(v) ? v : Array.isArray(v) ? v.map(structuredCopy) : Object.keys(v).reduce((o, k) => define(o, k, structuredCopy(v[k])), {}));
const normal = (r) => ({
  wires: r.requests.map((q) => {
    const w = wire(q);
    if (q.bodyKind === 'text') {
      try {
        w.body = JSON.parse(q.text);
      } catch {}
      delete w.headers['content-length'];
    }
    if (q.query) {
      w.url = `${q.origin}${q.path}`;
      w.query = q.query.map((e) => JSON.stringify(e)).sort();
    }
    if (Array.isArray(w.body) && q.bodyKind === 'form') w.body = w.body.map(([k, v]) => [k, canonical(v)]).sort((a, b) => (a[0] < b[0] ? -1 : 1));
    return w;
  }),
  outcome: outcomeOf(r),
});
/** A form field holding JSON is compared as JSON. */
function canonical(v) {
  try {
    return JSON.parse(v);
  } catch {
    return v;
  }
}

export async function run(ctx) {
  const rig = new Rig();
  const request = () => ({ idempotencyKey: 'k-1', headers: { 'X-Trace': 'one', 'x-other': 'two' } });
  const outs = [null, ...(ctx.quick ? [OUTCOMES[1]] : OUTCOMES.filter((o) => o.act))];
  const perform = (invoke, args, answer) => rig.raw((c) => invoke(c, args), answer);
  const compareAll = async (key, build, invoke, answer, forms = Object.keys(FORMS), wheres = ['all', 'top', 'below']) => {
    for (const out of outs) {
      const act = out ? (rec, n) => (n === 0 ? out.act() : answer(rec, n)) : answer;
      let ref;
      for (const fn of forms)
        for (const where of wheres) {
          if (fn === 'literal' && where !== 'all') continue;
          if (out && where !== 'all') continue;
          await ctx.eval(`${key} ${fn} ${where} ${out?.name ?? 'ok'}`, async () => {
            if (!ref) {
              const r = await perform(invoke, build(), act);
              if (r.threw || r.rejected || r.hung) fail('the call failed with plain arguments', r.threw ?? r.rejected);
              ref = normal(r);
            }
            // (the host's own Headers reads members that are not enumerable, so those are not added to header records)
            const args = build().map((a) => (/hidden/.test(fn) && plain(a) && 'headers' in a && !('from' in a) ? a : rebuild(a, FORMS[fn], where)));
            const got = normal(await perform(invoke, args, act));
            if (!same(got.wires, ref.wires)) fail('another representation of the same arguments is sent differently', { literal: brief(ref.wires), [fn]: brief(got.wires), actual: got.wires, expected: ref.wires });
            if (!same(got.outcome, ref.outcome)) fail('another representation of the same arguments gives another result', { actual: got.outcome, expected: ref.outcome });
          });
        }
    }
  };

  for (const o of OPS) {
    const answer = () => jsonResponse(200, o.sample);
    const invoke = (c, a) => {
      const f = bind(c, o);
      if (!f) fail(`the client has no operation ${o.name}`);
      return f(...a);
    };
    if (o.body === 'batch') {
      for (const emails of [[baseEmail(0)], [baseEmail(0), baseEmail(1)], [{ ...baseEmail(0), tags: [{ name: 'a', value: 'b' }], attachments: [{ filename: 'f', content: 'aGk=', contentType: 'text/plain' }], headers: { 'X-A': '1' } }, baseEmail(1), { ...baseEmail(2), template: { id: 't', variables: { a: 1 } } }]])
        await compareAll(`${o.name} ${emails.length}`, () => buildArgs(o, {}, { request: request(), emails }), invoke, answer);
      continue;
    }
    const build = (values) => () => buildArgs(o, values, { request: o.request ? request() : undefined });
    if (!build(baseValues(o))().some(plain)) continue;
    await compareAll(`${o.name} full`, build(baseValues(o)), invoke, answer);
    await compareAll(`${o.name} before`, build(baseValues(o, '', { cursor: 'before' })), invoke, answer);
    await compareAll(`${o.name} minimal`, build(minimalValues(o)), invoke, answer);
    for (const f of o.fields.filter((x) => x.to !== 'path')) {
      const base = baseValues(o);
      await compareAll(`${o.name} minimal+${f.name}`, build({ ...minimalValues(o), [f.name]: base[f.name] ?? f.type.base(f.name) }), invoke, answer);
      const cases = [...f.type.more(f.name), ...(ctx.quick ? f.type.deep().slice(0, 6) : f.type.deep())];
      for (const [i, v] of cases.entries()) {
        if (ctx.quick && !plain(v)) continue;
        await compareAll(`${o.name} ${f.name}#${i}`, build({ ...base, [f.name]: v }), invoke, answer, undefined, ctx.quick ? ['all'] : undefined);
      }
    }
  }

  // every set of contact identifiers, every way of writing the object
  const IDS = { id: 'c_id', email: 'c@example.com', audienceId: 'aud', contactId: 'c_cid', segmentId: 'seg', segments: [{ id: 's' }], topics: [{ id: 't', subscription: 'opt_in' }] };
  const REST = { unsubscribed: true, firstName: 'F', lastName: 'L', properties: { a: 1 }, limit: 3, after: 'cur' };
  for (const m of ['create', 'list', 'get', 'update', 'remove', 'segments.list', 'segments.add', 'segments.remove', 'topics.list', 'topics.update'])
    for (const ids of subsets(Object.keys(IDS)))
      await compareAll(`contacts.${m} {${ids}}`, () => [{ ...Object.fromEntries(ids.map((n) => [n, structuredClone(IDS[n])])), ...structuredClone(REST) }], (c, a) => m.split('.').reduce((x, n, i, l) => (i === l.length - 1 ? x[n](...a) : x[n]), c.contacts), () => jsonResponse(200, { id: 'c' }), undefined, ['all']);

  // behaviours of several steps, React, and the low-level verbs
  const mail = { from: 'f@x.io', to: ['t@x.io'], subject: 's' };
  const F = Object.fromEntries(FLOWS.map((f) => [f.name, f]));
  const more = (key, flow, build, invoke) => compareAll(key, build, invoke, (rec, n) => F[flow].answer(rec, n));
  await more('emails.send(react)', 'emails.send(react)', () => [{ ...mail, react: react('A'), replyTo: ['r@x.io'], tags: [{ name: 'a', value: 'b' }] }, request()], (c, a) => c.emails.send(...a));
  await more('batch.send(react)', 'batch.send(react)', () => [[{ ...mail, react: react('A') }, { ...mail, html: 'x' }, { ...mail, react: react('B') }], { ...request(), batchValidation: 'permissive' }], (c, a) => c.batch.send(...a));
  await more('broadcasts.create(react)', 'broadcasts.create(react)', () => [{ from: 'f@x.io', segmentId: 's', subject: 's', react: react('A'), replyTo: ['a@x.io', 'b@x.io'] }, request()], (c, a) => c.broadcasts.create(...a));
  await more('broadcasts.update(react)', 'broadcasts.update(react)', () => [{ subject: 's', react: react('A') }], (c, a) => c.broadcasts.update('b1', ...a));
  await more('templates.create(react).publish', 'templates.create(react).publish', () => [{ name: 'n', react: react('A'), variables: [{ key: 'k', type: 'string', fallbackValue: 'v' }] }], (c, a) => c.templates.create(...a).publish());
  await more('templates.create().publish', 'templates.create().publish', () => [{ name: 'n', html: 'x', variables: [{ key: 'k', type: 'number', fallbackValue: 0 }] }], (c, a) => c.templates.create(...a).publish());
  for (const [n, p] of Object.entries({ passthrough: {}, wrapped: { passthrough: false, text: 'see below', html: '<p>see</p>' } }))
    await more(`forward ${n}`, `forward ${n}`, () => [{ emailId: 'em_1', to: ['d@x.io', 'e@x.io'], from: 'm@x.io', ...p }, request()], (c, a) => c.emails.receiving.forward(...a));
  for (const verb of ['get', 'post', 'put', 'patch', 'delete'])
    await more(`client.${verb}`, 'client.post', () => ['/raw', ...(verb === 'get' ? [] : [{ a: { b: [1, { c: null }] }, d: 'e' }]), { ...(verb === 'post' ? { idempotencyKey: 'k' } : {}), headers: { 'X-A': '1' } }], (c, a) => c[verb](...a));
  // header pairs are lists of lists
  for (const flow of FLOWS.filter((f) => f.op?.request || f.forward))
    await compareAll(`${flow.name} header pairs`, () => [{ headers: [['X-A', '1'], ['x-b', '2']], idempotencyKey: 'k' }], (c, a) => flow.call(c, a[0]), (rec, n) => flow.answer(rec, n));
  // an answer that is spelled differently is the same answer
  for (const flow of FLOWS.filter((f) => f.steps.length === 1)) {
    const value = flow.scripted().json;
    const rev = (v) => (Array.isArray(v) ? v.map(rev) : v && typeof v === 'object' ? Object.fromEntries(Object.entries(v).reverse().map(([k, x]) => [k, rev(x)])) : v);
    const SPELL = { indented: JSON.stringify(value, null, 2), 'CRLF': JSON.stringify(value, null, '\t').replaceAll('\n', '\r\n'), padded: `\n  ${JSON.stringify(value)}\n\n`, reversed: JSON.stringify(rev(value)), escaped: JSON.stringify(value).replace(/[a-z]/g, (c, i, s) => (s[i - 1] === '\\' ? c : c)).replace(/"([a-z])/g, (_, c) => `"\\u00${c.charCodeAt(0).toString(16)}`) };
    const TYPES = [{ 'content-type': 'application/json' }, { 'content-type': 'application/json; charset=utf-8' }, { 'content-type': 'application/problem+json' }, { 'content-type': 'text/plain' }, { 'content-type': 'text/html' }, { 'content-type': 'application/octet-stream' }, { 'content-type': '' }, { 'Content-Type': 'APPLICATION/JSON' }, {}];
    for (const [sn, body] of Object.entries(SPELL))
      for (const [ti, headers] of TYPES.entries())
        for (const status of ti ? [200, 201, 202, 299] : [...Array(100).keys()].map((n) => 200 + n).filter((n) => n !== 204 && n !== 205))
          await ctx.eval(`${flow.name} answer ${sn} type ${ti} ${status}`, async () => {
            const ref = outcomeOf(await rig.raw((c) => flow.call(c), () => jsonResponse(200, value))).value;
            const got = outcomeOf(await rig.raw((c) => flow.call(c), () => textResponse(status, body, headers))).value;
            if (!got || got.error) fail('a good answer in another spelling is an error', got);
            if (!same({ data: got.data, error: got.error }, { data: ref.data, error: ref.error })) fail('another spelling of the same answer gives other data', { actual: got.data, expected: ref.data });
          });
    const error = { name: 'validation_error', message: 'bad `to` é', statusCode: 422 };
    for (const [sn, body] of Object.entries({ indented: JSON.stringify(error, null, 2), padded: `\r\n ${JSON.stringify(error)} \n`, reversed: JSON.stringify(rev(error)), escaped: JSON.stringify(error).replace('é', '\\u00e9') }))
      for (const [ti, headers] of TYPES.entries())
        await ctx.eval(`${flow.name} error ${sn} type ${ti}`, async () => {
          const got = outcomeOf(await rig.raw((c) => flow.call(c), () => textResponse(422, body, headers))).value;
          expectEqual(got?.error, error, 'another spelling of the same error is another error');
        });
  }

  // one object in several places is as good as several equal ones
  const share = (v, pool) => {
    if (!plain(v)) return v;
    const r = Array.isArray(v) ? v.map((x) => share(x, pool)) : Object.keys(v).reduce((o, k) => define(o, k, share(v[k], pool)), {});
    const key = JSON.stringify(r, (k, x) => (typeof x === 'symbol' || x === undefined ? String(x) : x));
    if (!pool.has(key)) pool.set(key, r);
    return pool.get(key);
  };
  const twice = async (key, build, invoke, answer) => {
    for (const out of outs)
      await ctx.eval(`${key} shared ${out?.name ?? 'ok'}`, async () => {
        const act = out ? (rec, n) => (n === 0 ? out.act() : answer(rec, n)) : answer;
        const ref = normal(await perform(invoke, build(), act));
        const pool = new Map();
        const got = normal(await perform(invoke, build().map((a) => share(a, pool)), act));
        if (!same(got.wires, ref.wires)) fail('an object that occurs twice is sent differently from two equal ones', { actual: got.wires, expected: ref.wires });
        if (!same(got.outcome, ref.outcome)) fail('an object that occurs twice gives another result than two equal ones', { actual: got.outcome, expected: ref.outcome });
      });
  };
  const MAILS = [() => baseEmail(0), () => baseEmail(1), () => ({ ...mail, react: react('A') }), () => ({ ...mail, template: { id: 't', variables: { a: 1 } } }), () => ({ ...mail, tags: [{ name: 'a', value: 'b' }, { name: 'a', value: 'b' }], attachments: [{ filename: 'f', content: 'aGk=' }, { filename: 'f', content: 'aGk=' }], headers: { 'X-A': '1' } })];
  for (let n = 2; n <= (ctx.quick ? 4 : 5); n++)
    for (let m = 0; m < MAILS.length ** n; m++) {
      const pick = Array.from({ length: n }, (_, i) => Math.floor(m / MAILS.length ** i) % MAILS.length);
      if (new Set(pick).size === n && !pick.includes(4)) continue;
      await twice(`batch.send [${pick}]`, () => [pick.map((p) => MAILS[p]())], (c, a) => c.batch.send(...a), (rec, i) => F['batch.send'].answer(rec, i));
    }
  for (const n of [10, 50, 99, 100, 101, 250]) await twice(`batch.send ×${n}`, () => [Array.from({ length: n }, () => baseEmail(0))], (c, a) => c.batch.send(...a), (rec, i) => F['batch.send'].answer(rec, i));
  for (const o of OPS) {
    if (o.body === 'batch') continue;
    const invoke = (c, a) => bind(c, o)(...a);
    const answer = () => jsonResponse(200, o.sample);
    await twice(`${o.name} full`, () => buildArgs(o, structuredCopy(baseValues(o)), {}), invoke, answer);
    for (const f of o.fields.filter((x) => x.to !== 'path')) {
      const v = f.type.base(f.name);
      if (!plain(v)) continue;
      const entries = Array.isArray(v) ? [v, ...f.type.more(f.name), ...f.type.deep(f.name)].flatMap((l) => (Array.isArray(l) ? l.slice(0, 8) : [])).filter((x) => x && typeof x === 'object') : [];
      const lists = Array.isArray(v) && v.length ? [[v[0], v[0]], [v[0], v[v.length - 1], v[0]], Array(40).fill(v[0]), ...entries.flatMap((x) => [[x, x], [x, v[0], x]])] : [];
      for (const [i, l] of [...lists, ...f.type.more(f.name).filter(plain)].entries()) await twice(`${o.name} ${f.name} repeated#${i}`, () => buildArgs(o, structuredCopy({ ...baseValues(o), [f.name]: l }), {}), invoke, answer);
    }
  }
  // two names of one thing
  const same2 = async (key, a, b, answer) => {
    for (const out of OUTCOMES)
      await ctx.eval(`${key} ${out.name}`, async () => {
        const act = out.act ? () => out.act() : answer;
        const x = normal(await rig.raw(a, act));
        const y = normal(await rig.raw(b, act));
        if (!same(x, y)) fail('the two spellings differ', { first: x, second: y });
      });
  };
  const id = () => jsonResponse(200, { id: 'x', data: [] });
  const full = (n) => buildArgs(OPS.find((o) => o.name === n), n === 'batch.send' ? {} : baseValues(OPS.find((o) => o.name === n)), { request: request(), ...(n === 'batch.send' ? { emails: [baseEmail(0), baseEmail(1)] } : {}) });
  const reactArgs = () => [{ ...mail, react: react('A') }, request()];
  await same2('emails.send is emails.create', (c) => c.emails.send(...full('emails.send')), (c) => c.emails.create(...full('emails.send')), id);
  await same2('emails.send is emails.create (react)', (c) => c.emails.send(...reactArgs()), (c) => c.emails.create(...reactArgs()), id);
  await same2('batch.send is batch.create', (c) => c.batch.send(...full('batch.send')), (c) => c.batch.create(...full('batch.send')), id);
  for (const [m, a] of [['create', [{ name: 'n' }]], ['list', []], ['list', [{ limit: 2, after: 'x' }]], ['get', ['s1']], ['remove', ['s1']]]) await same2(`segments.${m}/${a.length} is audiences.${m}`, (c) => c.segments[m](...a), (c) => c.audiences[m](...a), id);
  for (const [m, rest] of [['get', {}], ['remove', {}]])
    for (const who of ['c_1', 'c@example.com']) {
      const obj = who.includes('@') ? { email: who } : { id: who };
      await same2(`contacts.${m}(${who}) is contacts.${m}(${Object.keys(obj)})`, (c) => c.contacts[m](who), (c) => c.contacts[m]({ ...obj, ...rest }), id);
      await same2(`topics.${m}(${who}) is topics.${m}({id})`, (c) => c.topics[m](who), (c) => c.topics[m](who), id);
    }
}
