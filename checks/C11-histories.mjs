// C11: a call behaves as on a fresh client whatever was called before.
import { expect, expectEqual } from '../lib/ctx.mjs';
import { Rig, outcomeOf, oneObject, overwrite, sameObjects, scramble, throughArguments, wire } from '../lib/harness.mjs';
import { FLOWS, FLOW, echoServer, toResponse } from '../lib/flows.mjs';
import { OPS, baseValues, buildArgs } from '../lib/ops.mjs';
import { BASE, KEY, World, jsonResponse, settle } from '../lib/world.mjs';

export const level = 'exploration';
export const shards = { quick: 8, thorough: 8 };
export const rule =
  'ordered pair (earlier flow, later flow) × outcome of the earlier one × same client / other client of the same module (with its own key, URL and agent), each on a fresh module instance, compared with the later flow alone on a fresh instance; plus all sequences of 3 (thorough: 4) over a representative set, homogeneous runs of every length, and equal calls around many different ones; distinct by key';
export const bounds = (tier) => `all ordered pairs of ${FLOWS.length + LOCAL.length} flows × 6 outcomes of the first (and × 6 outcomes of the second over a representative set); runs of every length up to ${tier === 'quick' ? 10 : 24} (and ${tier === 'quick' ? 33 : '33, 65, 101, 129'}); runs of ${tier === 'quick' ? 300 : 3000} calls with every call compared; up to ${tier === 'quick' ? 12 : 130} different resources between two equal calls; sequences of ${tier === 'quick' ? '3 over 8 flows × 3 outcomes' : '3 over 14 flows × 4 outcomes and 4 over 7 flows × 2 outcomes'}`;
export const assumptions = ['histories of concurrent calls are C12'];

// earlier calls that never reach the network also count as history
const LOCAL = [
  { name: 'webhooks.verify (rejected)', steps: [], call: (c) => c.webhooks.verify({ payload: '{}', headers: { id: 'a', timestamp: '1', signature: 'v1,x' }, webhookSecret: 'whsec_c2VjcmV0' }) },
  { name: 'contacts.get refused', steps: [], call: (c) => c.contacts.get({}) },
  { name: 'render failing', steps: [], failRender: true, call: (c) => c.emails.send({ from: 'f@x.io', to: 't@x.io', subject: 's', react: { fail: true } }) },
];
const NOISY = {
  etag: '"v1"',
  'set-cookie': 'sid=1',
  'retry-after': '120',
  'x-ratelimit-remaining': '0',
  'ratelimit-remaining': '0',
  'ratelimit-reset': '9999999999',
  location: 'https://elsewhere.test/',
  link: '</next>; rel="next"',
  'cache-control': 'max-age=3600',
};
const OUTCOMES = {
  plain: (f) => f.answer ?? (() => jsonResponse(200, {})),
  ok: (f) => (rec, n) => {
    const a = f.scripted ? f.scripted(rec, n) : { status: 200, json: {} };
    return a.json !== undefined ? jsonResponse(200, a.json, NOISY) : new Response(a.text, { status: 200, headers: NOISY });
  },
  // what the request alone determines, so that an answer meant for another request shows
  echo: () => (rec) => {
    const a = echoServer(rec);
    return toResponse({ ...a, headers: { ...a.headers, ...NOISY } });
  },
  401: () => () => jsonResponse(401, { name: 'invalid_api_key', message: 'API key is invalid', statusCode: 401 }, NOISY),
  429: () => () => jsonResponse(429, { name: 'rate_limit_exceeded', message: 'slow down', statusCode: 429 }, NOISY),
  503: () => () => new Response('<html>', { status: 503, headers: NOISY }),
  500: () => () => jsonResponse(500, { name: 'internal_server_error', message: 'm', statusCode: 500 }, NOISY),
  404: () => () => jsonResponse(404, { name: 'not_found', message: 'm', statusCode: 404 }, NOISY),
  lost: () => () => ({ reject: new TypeError('fetch failed') }),
  'bad body': () => () => new Response('{"id', { status: 200, headers: NOISY }),
};
const HISTORY = ['ok', '401', '429', '503', 'lost', 'bad body'];
const without = (v, f) => Object.fromEntries(Object.entries(v).filter(([k]) => k !== f.name));
const OTHER = ['re_SECOND', { baseUrl: 'https://other.test.invalid/v2', userAgent: 'second/9' }];

function run1(world, client, flow, answer) {
  world.requests = [];
  world.console = [];
  world.answer = answer;
  return settle(world, () => flow.call(client)).then((r) => ({ ...r, requests: world.requests }));
}
const fresh = () => {
  const w = new World({
    answer: (rec, n) => w.answer(rec, n),
    render: (node) => {
      if (node?.fail) throw new Error('render failed');
      return `<html>${node?.label}</html>`;
    },
  });
  return w;
};
const clientOf = (w, which) => (which === 'other' ? w.client(...OTHER) : w.client(KEY, { baseUrl: BASE, userAgent: 'Verif-Agent/1.0 (Mixed; CASE)' }));
const view = (r) => ({ wires: r.requests.map(wire), outcome: outcomeOf(r) });

export async function run(ctx) {
  const alone = new Map();
  const baseline = async (flow, which, final) => {
    const k = `${flow.name}|${which}|${final}`;
    if (!alone.has(k)) {
      const w = fresh();
      w.enter();
      try {
        alone.set(k, view(await run1(w, clientOf(w, which), flow, OUTCOMES[final](flow))));
      } finally {
        w.leave();
      }
      if (final === 'plain') expect(alone.get(k).wires.length === flow.steps.length, 'baseline run is incomplete', alone.get(k));
    }
    return alone.get(k);
  };
  // `final`: what becomes of the last call; the same on the fresh client and after the history
  const sequence = async (key, list, final = 'plain') => {
    if (!ctx.want(key)) return;
    await ctx.eval(key, async () => {
      const w = fresh();
      w.enter();
      try {
        const clients = { same: clientOf(w, 'same') };
        for (const [i, { flow, outcome, which }] of list.entries()) {
          const c = (clients[which] ??= clientOf(w, which));
          const last = i === list.length - 1;
          const r = await run1(w, c, flow, OUTCOMES[last ? final : outcome](flow));
          if (last) {
            w.leave();
            const b = await baseline(flow, which, final);
            w.enter();
            expectEqual(view(r), b, 'the call is not what it is on a fresh client');
          }
        }
      } finally {
        w.leave();
      }
    });
  };
  const earlier = [...FLOWS, ...LOCAL];
  for (const a of earlier)
    for (const outcome of LOCAL.includes(a) ? ['ok'] : HISTORY)
      for (const b of FLOWS)
        for (const [wa, wb] of [
          ['same', 'same'],
          ['other', 'same'],
          ['same', 'other'],
        ]) {
          if (wb === 'other' && ctx.quick && outcome !== 'ok') continue;
          const key = `${a.name} ${outcome} → ${b.name} (${wa}→${wb})`;
          if (ctx.want(key)) await sequence(key, [{ flow: a, outcome, which: wa }, { flow: b, which: wb }]);
        }
  // options given for one call are gone with it
  const OPTS = { all: { idempotencyKey: 'key-of-the-first', headers: { 'X-First': '1', Authorization: 'Bearer first', 'User-Agent': 'first/1', 'Content-Type': 'application/first+json', 'x-batch-validation': 'permissive' }, batchValidation: 'permissive' }, pairs: { headers: [['x-first', '1'], ['Accept', 'first']] }, object: { headers: new Headers({ 'X-First': '1', authorization: 'Bearer first' }) } };
  for (const a of FLOWS.filter((f) => f.op?.request || f.forward || f.rawVerb || /^(emails|batch|broadcasts)\..*\(react\)$/.test(f.name)))
    for (const [on, opts] of Object.entries(OPTS))
      for (const outcome of ['ok', '429', 'lost'])
        for (const b of FLOWS) {
          const key = `${a.name} with ${on} ${outcome} → ${b.name}`;
          if (ctx.want(key)) await sequence(key, [{ flow: { ...a, call: (c) => a.call(c, opts) }, outcome, which: 'same' }, { flow: b, which: 'same' }]);
        }
  const REPR = [
    'emails.send',
    'emails.get',
    'batch.send',
    'templates.create().publish',
    'forward passthrough',
    'contacts.imports.create',
    'emails.list',
    'emails.send(react)',
    'contacts.update(id)',
    'domains.remove',
    'contactProperties.list',
    'automations.create',
    'client.delete',
    'forward wrapped',
  ].map((n) => FLOW[n]);
  const set = ctx.quick ? REPR.slice(0, 8) : REPR;
  const outs = ctx.quick ? ['ok', '429', 'lost'] : ['ok', '401', '429', 'lost'];
  for (const a of set)
    for (const oa of outs)
      for (const b of set)
        for (const ob of outs)
          for (const c of set) {
            const key = `${a.name} ${oa} → ${b.name} ${ob} → ${c.name}`;
            if (ctx.want(key)) await sequence(key, [{ flow: a, outcome: oa, which: 'same' }, { flow: b, outcome: ob, which: 'same' }, { flow: c, which: 'same' }]);
          }
  if (!ctx.quick) {
    const s = REPR.slice(0, 7);
    for (const a of s) for (const b of s) for (const c of s) for (const d of s)
      for (const o of [['ok', 'ok', 'ok'], ['ok', '429', 'ok'], ['lost', 'ok', '429'], ['401', 'lost', 'ok'], ['429', '429', '429']]) {
        const key = `${a.name} ${o[0]} → ${b.name} ${o[1]} → ${c.name} ${o[2]} → ${d.name}`;
        if (ctx.want(key)) await sequence(key, [{ flow: a, outcome: o[0], which: 'same' }, { flow: b, outcome: o[1], which: 'same' }, { flow: c, outcome: o[2], which: 'same' }, { flow: d, which: 'same' }]);
      }
    // long runs of the same call (anything that counts or accumulates)
    for (const f of FLOWS)
      for (const outcome of HISTORY)
        await sequence(`${f.name} ${outcome} ×30 → ${f.name}`, [...Array.from({ length: 30 }, () => ({ flow: f, outcome, which: 'same' })), { flow: f, which: 'same' }]);
  }
  // the last call's answer is itself noisy or bad: what it means must not depend on what came before
  for (const a of ctx.quick ? REPR.concat(FLOW['emails.get'], FLOW['domains.get'], FLOW['templates.get']) : FLOWS)
    for (const outcome of HISTORY)
      for (const b of FLOWS)
        for (const final of ['ok', '401', '429', '503', 'lost', 'bad body']) {
          if (ctx.quick && final !== 'ok' && outcome !== 'ok' && outcome !== final) continue;
          await sequence(`${a.name} ${outcome} → ${b.name} ending ${final}`, [{ flow: a, outcome, which: 'same' }, { flow: b, which: 'same' }], final);
        }
  for (const a of FLOWS)
    for (const b of FLOWS) await sequence(`${a.name} echo → ${b.name} ending echo`, [{ flow: { ...a, call: (c) => a.call(c, undefined, '_v') }, outcome: 'echo', which: 'same' }, { flow: b, which: 'same' }], 'echo');
  // counters and accumulation: every length of a run of equal calls with equal outcomes, probed by the same call and
  // by others
  const K = ctx.quick ? 10 : 24;
  const probes = ['emails.send', 'emails.get'].map((n) => FLOW[n]);
  for (const f of FLOWS)
    for (const outcome of HISTORY)
      for (let k = 1; k <= K; k++) {
        if (ctx.quick && k > 3 && outcome !== 'lost' && outcome !== '429' && outcome !== 'ok' && !REPR.includes(f)) continue;
        const history = Array.from({ length: k }, () => ({ flow: f, outcome, which: 'same' }));
        await sequence(`${f.name} ${outcome} ×${k} → itself`, [...history, { flow: f, which: 'same' }]);
        if (REPR.includes(f)) {
          for (const p of probes) await sequence(`${f.name} ${outcome} ×${k} → ${p.name}`, [...history, { flow: p, which: 'same' }]);
          await sequence(`${f.name} ${outcome} ×${k} → itself, other client`, [...history, { flow: f, which: 'other' }]);
        }
      }
  for (const f of ctx.quick ? REPR : FLOWS)
    for (const outcome of ['ok', 'lost', '429'])
      for (const k of ctx.quick ? [33] : [33, 65, 101, 129])
        await sequence(`${f.name} ${outcome} ×${k} → itself`, [...Array.from({ length: k }, () => ({ flow: f, outcome, which: 'same' })), { flow: f, which: 'same' }]);
  // long histories of each outcome, then calls which are answered well
  for (const f of ctx.quick ? REPR : FLOWS)
    for (const outcome of [...HISTORY, '500', '404', 'plain'])
      for (const k of ctx.quick ? [12, 26, 55, 130] : [12, 17, 26, 33, 55, 65, 101, 130, 260, 520, 1030]) {
        const history = Array.from({ length: k }, () => ({ flow: f, outcome, which: 'same' }));
        for (const p of new Set([f, ...probes])) await sequence(`${f.name} ${outcome} ×${k} → ${p.name}, long`, [...history, { flow: p, which: 'same' }], p === f ? 'ok' : 'plain');
        await sequence(`${f.name} ${outcome} ×${k} → other client, long`, [...history, { flow: f, which: 'other' }]);
      }
  // long runs, every call of which is looked at
  for (const f of ctx.quick ? REPR : FLOWS)
    for (const outcome of ['ok', 'lost', '429'])
      for (const mixed of [false, true]) {
        const n = ctx.quick ? 300 : REPR.includes(f) ? 3000 : 600;
        await ctx.eval(`${f.name} ${outcome} ×${n}${mixed ? ' and other calls' : ''}, each like the first`, async () => {
          const others = mixed ? REPR : [];
          const w = fresh();
          w.enter();
          try {
            const c = clientOf(w, 'same');
            for (let i = 0; i < n; i++) {
              const g = others.length && i % 2 ? others[(i >> 1) % others.length] : f;
              const o = g === f ? outcome : 'ok';
              const r = await run1(w, c, g, OUTCOMES[o](g));
              w.leave();
              const b = await baseline(g, 'same', o);
              w.enter();
              expectEqual(view(r), b, `call ${i + 1} of the run is not what it is on a fresh client`);
            }
          } finally {
            w.leave();
          }
        });
      }
  // a result belongs to its caller: whatever is done to it, later results are as on a fresh client, and whatever is
  // called later, an earlier result stays as it was
  const REFUSED = {
    'contacts.get': (c) => c.contacts.get({}),
    "contacts.get('')": (c) => c.contacts.get(''),
    'contacts.update': (c) => c.contacts.update({}),
    'contacts.remove': (c) => c.contacts.remove({}),
    'contacts.create legacy': (c) => c.contacts.create({ audienceId: 'a', email: 'e@x.io', segments: [] }),
    'contacts.topics.list': (c) => c.contacts.topics.list({}),
    'contacts.topics.update': (c) => c.contacts.topics.update({ topics: [] }),
    'contacts.segments.list': (c) => c.contacts.segments.list({}),
    'contacts.segments.add': (c) => c.contacts.segments.add({ segmentId: 's' }),
    'contacts.segments.remove': (c) => c.contacts.segments.remove({ segmentId: 's' }),
    'contactProperties.get': (c) => c.contactProperties.get(''),
    'contactProperties.remove': (c) => c.contactProperties.remove(''),
    'contactProperties.update': (c) => c.contactProperties.update({ id: '' }),
    'topics.get': (c) => c.topics.get(''),
    'topics.remove': (c) => c.topics.remove(''),
    'topics.update': (c) => c.topics.update({ id: '' }),
    'suppressions.get': (c) => c.suppressions.get(''),
    'suppressions.remove': (c) => c.suppressions.remove(''),
  };
  const refusals = Object.entries(REFUSED).map(([name, call]) => ({ name: `refused ${name}`, steps: [], call }));
  // the same, where a later step of a flow fails, or what was fetched is of no use
  const lateFail = FLOWS.filter((f) => f.steps.length > 1).flatMap((f) =>
    f.steps.flatMap((kind, step) =>
      Object.entries({
        lost: () => ({ reject: new TypeError('fetch failed') }),
        503: () => new Response('<html>', { status: 503, headers: NOISY }),
        422: () => jsonResponse(422, { name: 'validation_error', message: 'm', statusCode: 422 }, NOISY),
        ...(f.forward && step === 0 ? { 'no raw': () => jsonResponse(200, { id: 'em_1', raw: null }) } : {}),
        ...(kind === 'download' ? { 'no mail': () => new Response('\0\0\0') } : {}),
      }).map(([on, act]) => ({ ...f, name: `${f.name} step ${step} ${on}`, answer: (rec, n) => (n === step ? act() : f.answer(rec, n)) })),
    ),
  );
  const owned = [...FLOWS.flatMap((f) => ['plain', ...HISTORY].map((o) => [f, o])), ...[...refusals, ...lateFail].map((f) => [f, 'own'])];
  const answerOf = (f, o) => (o === 'own' ? (f.answer ?? (() => jsonResponse(200, {}))) : OUTCOMES[o](f));
  const partners = [...REPR.flatMap((f) => ['plain', 'lost', '503'].map((o) => [f, o])), ...[...refusals, ...lateFail].filter((_, i) => i % 4 === 0).map((f) => [f, 'own'])];
  const single = new Map();
  for (const [a, oa] of owned)
    for (const [b, ob] of [[a, oa], ...partners]) {
      const key = `${a.name} ${oa}, its result scrambled → ${b.name} ${ob}`;
      if (!ctx.want(key)) continue;
      await ctx.eval(key, async () => {
        const bk = `${b.name} ${ob}`;
        const go = async (fn) => {
          const w = fresh();
          w.enter();
          try {
            return await fn(w, clientOf(w, 'same'));
          } finally {
            w.leave();
          }
        };
        if (!single.has(bk)) single.set(bk, await go(async (w, c) => structuredClone(view(await run1(w, c, b, answerOf(b, ob))))));
        const want = single.get(bk);
        await go(async (w, c) => {
          const r1 = await run1(w, c, a, answerOf(a, oa));
          scramble(r1.value);
          const mine = JSON.stringify(r1.value);
          const r2 = await run1(w, c, b, answerOf(b, ob));
          expectEqual(view(r2), want, 'the call is not what it is on a fresh client');
          expectEqual(JSON.stringify(r1.value), mine, 'a later call changed an earlier result');
          scramble(r2.value);
          const r3 = await run1(w, c, b, answerOf(b, ob));
          expectEqual(view(r3), want, 'the repeated call is not what it is on a fresh client');
        });
      });
    }
  // the objects of an earlier call used again, as they were or overwritten in place
  const wrap = (f, map, tag, opts) => ({ ...f, call: (c) => f.call(throughArguments(c, map), opts, tag) });
  for (const f of FLOWS)
    for (const outcome of HISTORY)
      for (const opts of f.op?.request || f.forward || f.rawVerb ? [undefined, { idempotencyKey: 'k', headers: { 'X-A': '1' } }] : [undefined]) {
        const key = `${f.name} ${outcome}${opts ? ' with options' : ''}`;
        const plainly = { ...f, name: `${f.name} plainly${opts ? ' with options' : ''}`, call: (c) => f.call(c, opts, '_q') };
        for (const [how, make, tags] of [
          ['the same objects again', oneObject, ['_q', '_q']],
          ['its objects overwritten', sameObjects, ['_p', '_q']],
          ['its objects overwritten twice', sameObjects, ['_q', '_p', '_q']],
        ]) {
          if (!ctx.want(`${key}, ${how}`)) continue;
          await ctx.eval(`${key}, ${how}`, async () => {
            const want = await baseline(plainly, 'same', 'plain');
            const w = fresh();
            w.enter();
            try {
              const [c, map] = [clientOf(w, 'same'), make(new Map())];
              let r;
              for (const [i, tag] of tags.entries()) r = await run1(w, c, wrap(f, map, tag, opts && { ...opts, headers: { ...opts.headers } }), i < tags.length - 1 ? OUTCOMES[outcome](f) : f.answer);
              expectEqual(view(r), want, 'the call is not what it is on a fresh client');
            } finally {
              w.leave();
            }
          });
        }
      }
  // one field changed, removed or added in the object of an earlier call
  const rig = new Rig();
  for (const o of OPS) {
    if (o.body === 'batch') continue;
    const base = baseValues(o);
    for (const f of o.fields)
      for (const [how, before, after] of [
        ['changed', base, { ...base, [f.name]: baseValues(o, '_other')[f.name] ?? base[f.name] }],
        ['removed', base, without(base, f)],
        ['added', without(base, f), base],
        ...(f.to === 'path' ? [] : f.type.more(f.name).slice(0, 6).map((v, i) => [`set to #${i}`, base, { ...base, [f.name]: v }])),
      ]) {
        if (f.req && how !== 'changed' && !how.startsWith('set')) continue;
        await ctx.eval(`${o.name} again, ${f.name} ${how} in the same object`, async () => {
          const [x, y, z] = [before, after, after].map((v) => buildArgs(o, v));
          if (x.length !== y.length) return false;
          const want = await new Rig().call(o, after, { args: z });
          await rig.call(o, before, { args: x });
          const again = x.map((v, i) => (typeof v === 'object' && v !== null && typeof y[i] === 'object' && y[i] !== null && !(v instanceof Blob) ? overwrite(v, y[i]) : y[i]));
          expectEqual(view(await rig.call(o, after, { args: again })), view(want), 'the call is not what it is on a fresh client');
        });
      }
  }
  // many different resources of the same kind (caches with a capacity, pools), then the first again
  for (const f of FLOWS)
    for (const k of ctx.quick ? [3, 12] : [3, 12, 40, 130]) {
      const variant = (i) => ({ ...f, call: (c) => f.call(c, undefined, `_v${i}`) });
      const first = { flow: f, outcome: 'echo', which: 'same' };
      await sequence(`${f.name} ${k} different → the first again`, [first, ...Array.from({ length: k }, (_, i) => ({ flow: variant(i), outcome: 'echo', which: 'same' })), first], 'echo');
    }
}
