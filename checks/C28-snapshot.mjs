// C28: what a call sends and returns is decided by its arguments as they were when it was made.
import { expect, expectEqual, fail } from '../lib/ctx.mjs';
import { Rig, outcomeOf, subsets, wire } from '../lib/harness.mjs';
import { echoServer, react, toResponse } from '../lib/flows.mjs';
import { OPS, baseEmail, baseValues, bind, buildArgs, minimalValues } from '../lib/ops.mjs';
import { explore } from '../lib/explore.mjs';
import { World } from '../lib/world.mjs';

export const level = 'model_checking';
export const shards = { quick: 8, thorough: 8 };
export const rule =
  'call (every operation taking objects, forwarding, chains, React variants) × mutation (each top-level field of payload and request options replaced, deleted; each absent field added; all fields wiped; batch: list grown, shrunk, reordered, each e-mail’s fields) × moment (right after the call, after k microtasks, at every environment event in every order); the same over minimal, singly extended and unusual arguments and over every set of contact identifiers; requests and result compared with the undisturbed execution; distinct by schedule';
export const bounds = (tier) => `one mutation per execution (${tier === 'quick' ? 'and the wipe of everything' : 'or two, at independent moments'}); microtask offsets 0–${tier === 'quick' ? 6 : 12}; all event orders`;
export const assumptions = ['objects nested inside fields are not modified in place', 'the server is a function of the request'];

const R = (l) => react(l);
const request = () => ({ idempotencyKey: 'k-1', headers: { 'X-Trace': 'one' } });
const CALLS = [];
for (const o of OPS) {
  const build = () => buildArgs(o, o.body === 'batch' ? {} : baseValues(o), { request: o.request ? request() : undefined, emails: o.body === 'batch' ? [baseEmail(0), baseEmail(1)] : undefined });
  if (!build().some((a) => a && typeof a === 'object')) continue;
  CALLS.push({ name: o.name, build, invoke: (c, a) => bind(c, o)(...a), add: o.fields.map((f) => f.name), chain: o.chain });
}
// the same operations with other arguments: the least they need, one field more, unusual values, every identifier at once
const VARIANTS = [];
for (const o of OPS) {
  if (o.body === 'batch' || !o.args.some((a) => a.kind === 'obj')) continue;
  const add = (n, values) => VARIANTS.push({ name: `${o.name} ${n}`, build: () => buildArgs(o, values, { request: o.request ? request() : undefined }), invoke: (c, a) => bind(c, o)(...a), add: o.fields.map((f) => f.name) });
  add('minimal', minimalValues(o));
  for (const f of o.fields.filter((x) => x.to !== 'path')) {
    add(`minimal+${f.name}`, { ...minimalValues(o), [f.name]: baseValues(o)[f.name] ?? f.type.base(f.name) });
    for (const [i, v] of f.type.more(f.name).slice(0, 6).entries()) add(`${f.name}#${i}`, { ...baseValues(o), [f.name]: v });
  }
}
const IDS = { id: 'c_id', email: 'c@example.com', audienceId: 'aud', contactId: 'c_cid', segmentId: 'seg', segments: [{ id: 's' }], topics: [{ id: 't', subscription: 'opt_in' }] };
const REST = { unsubscribed: true, firstName: 'F', lastName: 'L', properties: { a: 1 }, limit: 3, after: 'cur' };
for (const m of ['create', 'list', 'get', 'update', 'remove', 'segments.list', 'segments.add', 'segments.remove', 'topics.list', 'topics.update'])
  for (const ids of subsets(Object.keys(IDS)))
    if (ids.length >= 1) {
      const pick = () => Object.fromEntries(ids.map((n) => [n, structuredClone(IDS[n])]));
      VARIANTS.push({ name: `contacts.${m} {${ids}}`, build: () => [{ ...pick(), ...structuredClone(REST) }], invoke: (c, a) => m.split('.').reduce((x, n, i, l) => (i === l.length - 1 ? x[n](...a) : x[n]), c.contacts), add: Object.keys(IDS) });
    }
const mail = { from: 'f@x.io', to: ['t@x.io'], subject: 's' };
const EXTRA = ['html', 'text', 'react', 'replyTo', 'cc', 'scheduledAt', 'headers', 'tags', 'attachments', 'topicId', 'template'];
const call = (name, build, invoke, o = {}) => CALLS.push({ name, build, invoke, add: EXTRA, scheduled: true, ...o });
call('emails.send(react)', () => [{ ...mail, react: R('A'), replyTo: 'r@x.io', scheduledAt: 'tomorrow' }, request()], (c, a) => c.emails.send(...a));
call('emails.create(react)', () => [{ ...mail, react: R('A') }, request()], (c, a) => c.emails.create(...a));
call('batch.send(react)', () => [[{ ...mail, react: R('A') }, { ...mail, html: '<p>' }, { ...mail, subject: 's3', react: R('B') }], { ...request(), batchValidation: 'permissive' }], (c, a) => c.batch.send(...a));
call('batch.create(react)', () => [[{ ...mail, html: 'x' }, { ...mail, react: R('B') }]], (c, a) => c.batch.create(...a));
const bc = () => ({ name: 'n', segmentId: 'seg', from: 'f@x.io', subject: 's', previewText: 'p', replyTo: 'r@x.io', topicId: 't', react: R('A') });
call('broadcasts.create(react)', () => [{ ...bc(), send: true, scheduledAt: 'later' }, request()], (c, a) => c.broadcasts.create(...a), { add: ['html', 'text', 'audienceId'] });
call('broadcasts.update(react)', () => [bc()], (c, a) => c.broadcasts.update('b1', ...a), { add: ['html', 'text', 'audienceId'] });
const tp = () => ({ name: 'n', subject: 's', from: 'f@x.io', replyTo: ['r@x.io'], alias: 'al', text: 't', variables: [{ key: 'k', type: 'string', fallbackValue: 'v' }] });
for (const [n, extra] of [
  ['react', () => ({ react: R('T') })],
  ['html', () => ({ html: '<p>' })],
]) {
  call(`templates.create(${n})`, () => [{ ...tp(), ...extra() }], (c, a) => c.templates.create(...a), { add: ['html', 'react'] });
  call(`templates.create(${n}).publish`, () => [{ ...tp(), ...extra() }], (c, a) => c.templates.create(...a).publish(), { add: ['html', 'react'] });
}
for (const [n, p] of [
  ['passthrough', {}],
  ['wrapped', { passthrough: false, text: 'see below', html: '<p>see</p>' }],
  ['wrapped text', { passthrough: false, text: 'see below' }],
])
  call(`forward ${n}`, () => [{ emailId: 'em_1', to: ['d@x.io'], from: 'm@x.io', ...p }, request()], (c, a) => c.emails.receiving.forward(...a), { add: ['passthrough', 'text', 'html'], forward: true });
for (const [verb, args] of [
  ['get', () => ['/raw', { headers: { 'X-A': '1' } }]],
  ['post', () => ['/raw', { a: 1, b: [2] }, request()]],
  ['put', () => ['/raw', { a: 1 }, { headers: { 'X-A': '1' } }]],
  ['patch', () => ['/raw', { a: 1 }, { headers: { 'X-A': '1' } }]],
  ['delete', () => ['/raw', { a: 1 }, { headers: { 'X-A': '1' } }]],
])
  CALLS.push({ name: `client.${verb}`, build: args, invoke: (c, a) => c[verb](...a), add: ['c'] });

/** Every mutation of an argument list, as [label, (args) => void]. */
function mutations(k) {
  const args = k.build();
  const out = [];
  const other = (name, v) => (typeof v === 'string' ? `mutated ${name}` : typeof v === 'boolean' ? !v : typeof v === 'number' ? v + 1 : Array.isArray(v) ? (name === 'to' || name === 'replyTo' ? ['mutated@x.io'] : []) : name === 'react' ? R('MUTATED') : name === 'headers' ? { 'X-Mutated': '1' } : v instanceof Blob ? new Blob(['mutated']) : { mutated: true });
  const ADD = { react: () => R('ADDED'), to: () => 'added@x.io', headers: () => ({ 'X-Added': '1' }), tags: () => [{ name: 'a', value: 'b' }], attachments: () => [{ filename: 'a', content: 'x' }], template: () => ({ id: 'added' }), passthrough: () => false, send: () => true, idempotencyKey: () => 'added', batchValidation: () => 'permissive' };
  const fields = (o, get, label, add) => {
    for (const n of Object.keys(o)) {
      out.push([`${label}.${n} replaced`, (a) => (get(a)[n] = other(n, o[n]))]);
      out.push([`${label}.${n} deleted`, (a) => delete get(a)[n]]);
    }
    for (const n of add) if (!Object.hasOwn(o, n)) out.push([`${label}.${n} added`, (a) => (get(a)[n] = ADD[n]?.() ?? 'added')]);
    out.push([`${label} wiped`, (a) => Object.keys(get(a)).forEach((n) => delete get(a)[n])]);
  };
  for (const [i, arg] of args.entries()) {
    if (Array.isArray(arg)) {
      out.push(['list grown', (a) => a[i].push({ ...mail, subject: 'grown' })], ['list emptied', (a) => (a[i].length = 0)], ['list shrunk', (a) => a[i].pop()], ['list reversed', (a) => a[i].reverse()], ['first replaced', (a) => (a[i][0] = { ...mail, subject: 'replaced' })], ['last replaced', (a) => (a[i][a[i].length - 1] = { ...mail, react: R('REPLACED') })], ['hole', (a) => delete a[i][0]]);
      const originals = new WeakMap();
      for (const [j, e] of arg.entries())
        fields(
          e,
          (a) => {
            if (!originals.has(a)) originals.set(a, [...a[i]]);
            return originals.get(a)[j];
          },
          `email ${j}`,
          ['html', 'text', 'react', 'cc', 'headers'],
        );
    } else if (arg && typeof arg === 'object' && !(arg instanceof Blob)) fields(arg, (a) => a[i], i ? `arg ${i}` : 'payload', i && k.build().length - 1 === i && arg.idempotencyKey ? ['batchValidation'] : k.add);
  }
  return out;
}

export async function run(ctx) {
  const rig = new Rig();
  const normal = (r) => ({ wires: r.requests.map(wire), outcome: outcomeOf(r) });
  const server = (rec) => toResponse(echoServer(rec));
  for (const k of CALLS) {
    const muts = mutations(k);
    let ref;
    const reference = async () => {
      if (!ref) {
        const r = await rig.raw((c) => k.invoke(c, k.build()), server);
        if (r.threw || r.rejected || r.hung) fail('the undisturbed call failed', r.threw ?? r.rejected);
        ref = normal(r);
      }
      return ref;
    };
    const maxK = ctx.quick ? 6 : 12;
    for (const [label, mutate] of muts)
      for (let m = 0; m <= maxK; m++)
        await ctx.eval(`${k.name}: ${label} after ${m} microtasks`, async () => {
          const want = await reference();
          const args = k.build();
          const r = await rig.raw((c) => {
            const p = k.invoke(c, args);
            if (m === 0) mutate(args);
            else
              (async () => {
                for (let i = 0; i < m; i++) await null;
                mutate(args);
              })();
            return p;
          }, server);
          expectEqual(normal(r), want, 'the call did not send or return what its arguments said when it was made');
        });
    // and while a request is in flight (before its answer)
    const steps = k.forward ? 3 : /publish/.test(k.name) ? 2 : 1;
    for (const [label, mutate] of muts)
      for (let s = 0; s < steps; s++)
        await ctx.eval(`${k.name}: ${label} during request ${s}`, async () => {
          const want = await reference();
          const args = k.build();
          const r = await rig.raw(
            (c) => k.invoke(c, args),
            (rec, n) => {
              if (n === s) mutate(args);
              return server(rec);
            },
          );
          expectEqual(normal(r), want, 'the call did not send or return what its arguments said when it was made');
        });
  }
  for (const k of VARIANTS) {
    const muts = mutations(k).filter(([l]) => / (replaced|added|wiped)$/.test(l));
    let want;
    for (const [label, mutate] of muts)
      for (const m of [0, 1, 2, 4])
        await ctx.eval(`${k.name}: ${label} after ${m} microtasks`, async () => {
          want ??= normal(await rig.raw((c) => k.invoke(c, k.build()), server));
          const args = k.build();
          const r = await rig.raw((c) => {
            const p = k.invoke(c, args);
            if (m === 0) mutate(args);
            else
              (async () => {
                for (let i = 0; i < m; i++) await null;
                mutate(args);
              })();
            return p;
          }, server);
          expectEqual(normal(r), want, 'the call did not send or return what its arguments said when it was made');
        });
  }
  // every order of rendering, requests, bodies and one or two mutations
  for (const k of CALLS.filter((x) => x.scheduled)) {
    const muts = mutations(k);
    const sets = muts.map((m) => [m]);
    if (!ctx.quick) for (const a of muts) for (const b of muts) if (a !== b && (/wiped|emptied|react/.test(a[0]) || /wiped|emptied|react/.test(b[0]))) sets.push([a, b]);
    let want;
    for (const set of sets)
      await explore(
        ctx,
        {
          key: `${k.name}: ${set.map((m) => m[0]).join(' + ')}`,
          make() {
            const world = new World({ scheduleRender: true, answers: (rec) => [{ ...echoServer(rec), label: 'ok' }] });
            const args = k.build();
            return {
              world,
              programs: [
                { name: 'p', immediate: true, body: () => k.invoke(world.client(), args) },
                ...set.map((m, i) => ({
                  name: `mutate ${i}`,
                  body: async () => {
                    try {
                      m[1](args);
                    } catch {}
                  },
                })),
              ],
              async final(run) {
                const o = run.outcomes.p;
                expect(o && !('rejected' in o), 'the call rejected', o?.rejected);
                const got = { wires: world.requests.map(wire), value: o.value };
                if (!want) {
                  const w2 = await rig.raw((c) => k.invoke(c, k.build()), server);
                  want = { wires: w2.requests.map(wire), value: w2.value };
                }
                expectEqual(got, want, 'the call did not send or return what its arguments said when it was made');
              },
            };
          },
        },
        { maxRuns: 20000 },
      );
  }
}
