// C12: concurrent calls never mix requests or results, under every interleaving.
import { expect, expectEqual, fail, same } from '../lib/ctx.mjs';
import { execute, explore } from '../lib/explore.mjs';
import { oneObject, outcomeOf, throughArguments, wire } from '../lib/harness.mjs';
import { FLOWS, FLOW, echoServer, hash, toResponse } from '../lib/flows.mjs';
import { BASE, KEY, World, settle } from '../lib/world.mjs';

export const level = 'model_checking';
export const shards = { quick: 8, thorough: 8 };
export const rule =
  'scenario = 2–4 concurrent calls on one client or two; every interleaving of call starts, renderings, answers and body completions (and of failures, where listed) is executed on the real SDK, statelessly by prefix replay on a fresh module instance; each call’s requests and result are compared with the same call run alone against the same answers';
export const bounds = (tier) =>
  tier === 'quick'
    ? 'every unordered pair of flows with atomic answers; 10 flows pairwise with separate body delivery and one failure, with both calls begun 0–6 microtasks apart (cold and warmed-up module), and with one pair of environment events 0–3 microtasks apart; triples over 6 flows; 4 sends; crowds of up to 101 calls in six families of orders'
    : 'every unordered pair of flows with separate body delivery, on one and two clients, and with one failure; 12 flows pairwise begun 0–14 microtasks apart, and with one pair of events 0–10 microtasks apart; triples over 12 flows; 4-call mixes; crowds of up to 257 calls in six families of orders';
export const assumptions = [
  'the SDK runs on one JavaScript thread, so the scheduling points are exactly the points where it waits for its environment; the explorer owns all of them (fetch, bodies, renderer, timers)',
  'executions are on the implementation itself, so no separate model needs validating; one execution in 64 is repeated and must give the same trace',
];

const CLIENTS = {
  one: [KEY, { baseUrl: BASE, userAgent: 'Verif-Agent/1.0 (Mixed; CASE)' }],
  two: ['re_SECOND', { baseUrl: 'https://other.test.invalid/v2', userAgent: 'second/9' }],
};
const keyOf = (rec) => hash(JSON.stringify(wire(rec)));
const FAULTS = {
  ok: (rec) => echoServer(rec),
  500: (rec) => ({ status: 500, json: { name: 'x', message: `failed ${keyOf(rec)}`, statusCode: 500 } }),
  lost: () => ({ reject: new TypeError('fetch failed') }),
};
const solo = new Map();
/** The call alone, on a fresh module, every request answered the way `labels` says. */
async function alone(p, labels, renderFails) {
  const k = JSON.stringify([p.flow.name, p.tag, p.idTag, p.client, p.request ?? null, [...labels.entries()].sort(), renderFails]);
  if (solo.has(k)) return solo.get(k);
  const world = new World({
    answer: (rec) => {
      const a = (FAULTS[labels.get(keyOf(rec)) ?? 'ok'] ?? FAULTS.ok)(rec);
      return 'reject' in a ? a : toResponse(a);
    },
    render: (n) => {
      if (renderFails.includes(n.label)) throw new Error(`render ${n.label}`);
      return `<html>${n.label}</html>`;
    },
  });
  world.enter();
  let r;
  try {
    r = await settle(world, () => p.flow.call(world.client(...CLIENTS[p.client]), p.request, p.tag, p.idTag));
  } finally {
    world.leave();
  }
  const v = { wires: world.requests.map(wire), outcome: outcomeOf(r) };
  solo.set(k, v);
  return v;
}

function scenario(key, calls, { bodies = false, failures = [], renderFailures = false, warm = [], together } = {}) {
  return {
    key,
    make() {
      const world = new World({
        scheduleRender: true,
        renderAnswers: (n) => [{ label: 'ok', value: `<html>${n.label}</html>` }, ...(renderFailures ? [{ label: 'fails', error: new Error(`render ${n.label}`) }] : [])],
        answers: (rec) => [{ ...FAULTS.ok(rec), label: 'ok', atomic: !bodies }, ...failures.map((f) => ({ ...FAULTS[f](rec), label: f, atomic: true }))],
      });
      const clients = {};
      const start = async (p, api) => {
        clients[p.client] ??= world.client(...CLIENTS[p.client]);
        return p.flow.call(clients[p.client], p.request, p.tag, p.idTag, api);
      };
      return {
        world,
        programs:
          together === undefined
            ? calls.map((p, i) => ({ name: `${i}`, body: (api) => start(p, api) }))
            : [
                {
                  // the calls begin in one breath (after the warm-up calls have ended), `together` microtasks apart
                  name: 'all',
                  immediate: true,
                  body: async (api) => {
                    for (const p of warm) await start(p);
                    if (warm.length) await api.point('warmed up');
                    return Promise.allSettled(
                      calls.map(async (p, i) => {
                        for (let g = 0; g < together * i; g++) await null;
                        return start(p, api);
                      }),
                    );
                  },
                },
              ],
        async final(run) {
          world.leave();
          if (together !== undefined) {
            expect(run.outcomes.all?.value, 'the calls did not settle', run.outcomes.all?.rejected);
            for (const [i, o] of run.outcomes.all.value.entries()) run.outcomes[i] = o.status === 'rejected' ? { rejected: o.reason } : { value: o.value };
          }
          const labels = new Map();
          const twins = new Map(); // identical requests (calls without distinguishable arguments), with all their answers
          for (const rec of run.world.requests) {
            if (rec.invalid) fail('a request could not be formed', rec.invalid);
            const k = keyOf(rec);
            labels.set(k, rec.answer);
            twins.set(k, [...(twins.get(k) ?? []), rec.answer]);
          }
          const conflict = new Set([...twins].filter(([, l]) => new Set(l).size > 1).map(([k]) => k));
          const renderFails = run.log.flatMap((l) => [...l.matchAll(/render\(([^)]*)\) → fails/g)].map((m) => m[1]));
          const sent = run.world.requests.map((r) => JSON.stringify(wire(r))).sort();
          const expected = [];
          for (const [i, p] of calls.entries()) {
            const a = await alone(p, labels, renderFails);
            expected.push(...a.wires.map((w) => JSON.stringify(w)));
            const o = run.outcomes[i];
            expect(o, 'a call did not settle');
            const got = outcomeOf('rejected' in o ? { rejected: o.rejected } : { value: o.value });
            const k = a.wires.length === 1 ? hash(JSON.stringify(a.wires[0])) : null;
            if (k && conflict.has(k)) {
              // any of the answers given to this very request may be ours; each is used up once
              const options = twins.get(k);
              let hit = -1;
              for (const [j, l] of options.entries()) if (hit < 0 && same(got, (await alone(p, new Map([...labels, [k, l]]), renderFails)).outcome)) hit = j;
              expect(hit >= 0, `call ${i} (${p.flow.name}) did not get an answer to its own request`, got);
              options.splice(hit, 1);
              continue;
            }
            expectEqual(got, a.outcome, `call ${i} (${p.flow.name}) did not get what it gets alone`);
          }
          for (const p of warm) expected.push(...(await alone(p, labels, [])).wires.map((w) => JSON.stringify(w)));
          expected.sort();
          expect(JSON.stringify(sent) === JSON.stringify(expected), 'the requests are not the ones the calls send alone', { sent, expected });
        },
      };
    },
  };
}

export async function run(ctx) {
  const go = (key, calls, o, limits = {}) => explore(ctx, scenario(key, calls, o), { maxRuns: 400000, cost: (ev, a) => (/^(ok|body|)$/.test(a.label ?? '') ? 0 : 1), bound: 1, ...limits });
  const c = (flow, tag, client = 'one', request, idTag) => ({ flow, tag, client, request, idTag });
  // every unordered pair of flows
  for (const [i, a] of FLOWS.entries())
    for (const b of FLOWS.slice(i)) {
      const two = a.steps.length > 1 || b.steps.length > 1;
      await go(`pair ${a.name} ∥ ${b.name}`, [c(a, '_a'), c(b, '_b')], { bodies: !ctx.quick && !two });
      if (!ctx.quick) {
        await go(`pair ${a.name} ∥ ${b.name} (two clients)`, [c(a, '_a'), c(b, '_b', 'two')], {});
        await go(`pair ${a.name} ∥ ${b.name} (one failure)`, [c(a, '_a'), c(b, '_b')], { failures: ['500', 'lost'] });
      }
    }
  // calls about one and the same resource, and equal calls
  for (const f of FLOWS) if (!f.op || f.op.body === 'batch') await go(`equal ${f.name} ×2`, [c(f, '_a'), c(f, '_a')], { failures: f.steps.length === 1 ? ['500', 'lost'] : [] });
  // the very same argument objects given to several calls at once
  const pools = new WeakMap();
  const sharing = (f) => ({
    ...f,
    call: (cl, ...rest) => {
      if (!pools.has(cl)) pools.set(cl, new Map());
      return f.call(throughArguments(cl, oneObject(pools.get(cl))), ...rest);
    },
  });
  for (const f of FLOWS) {
    const s = sharing(f);
    await go(`one object ${f.name} ×2`, [c(s, '_a'), c(s, '_a')], { failures: f.steps.length === 1 && !ctx.quick ? ['500', 'lost'] : [] });
    for (const m of ctx.quick ? [0, 1] : [0, 1, 2, 3, 4]) await go(`one object ${f.name} ×2 together +${m}`, [c(s, '_a'), c(s, '_a')], { together: m });
    if (!(f.op?.request || f.forward || f.rawVerb || /^(emails|batch|broadcasts)\..*\(react\)$/.test(f.name))) continue;
    const [ra, rb] = ['a', 'b'].map((t) => ({ idempotencyKey: `key-${t}`, headers: { 'X-Call': t } }));
    await go(`one payload, own options ${f.name} ×2`, [c(s, '_a', 'one', ra), c(s, '_a', 'one', rb)], {});
    for (const m of [0, 1]) await go(`one payload, own options ${f.name} ×2 together +${m}`, [c(s, '_a', 'one', ra), c(s, '_a', 'one', rb)], { together: m });
    await go(`own payloads, one options object ${f.name} ×2`, [c(s, '_a', 'one', ra), c(s, '_b', 'one', ra)], {});
    await go(`one payload, two clients ${f.name} ×2`, [c(s, '_a', 'one'), c(s, '_a', 'two')], {});
  }
  const kin = {};
  for (const f of FLOWS) if (f.op && f.op.body !== 'batch') (kin[f.op.name.split('.')[0]] ??= []).push(f);
  for (const group of Object.values(kin))
    for (const [i, a] of group.entries())
      for (const b of group.slice(i)) {
        await go(`same resource ${a.name} ∥ ${b.name}`, [c(a, '_a', 'one', undefined, '_r'), c(b, '_b', 'one', undefined, '_r')], { failures: ctx.quick ? [] : ['500', 'lost'] });
        if (a !== b) continue;
        await go(`equal ${a.name} ×2`, [c(a, '_a'), c(a, '_a')], { failures: ['500', 'lost'] });
        if (a.op.write) await go(`same resource ${a.name} ×3`, [c(a, '_a', 'one', undefined, '_r'), c(a, '_b', 'one', undefined, '_r'), c(a, '_c', 'one', undefined, '_r')], {});
        if (!ctx.quick) await go(`equal ${a.name} ×3`, [c(a, '_a'), c(a, '_a'), c(a, '_a')], { failures: ['500', 'lost'] });
      }
  const R = [
    'emails.send',
    'emails.send(react)',
    'emails.get',
    'batch.send(react)',
    'templates.create().publish',
    'forward wrapped',
    'contacts.update(email)',
    'contacts.imports.create',
    'contactProperties.get',
    'client.delete',
    'broadcasts.create(react)',
    'templates.create(react).publish',
  ].map((n) => FLOW[n]);
  const rep = ctx.quick ? R.slice(0, 10) : R;
  const light = (f) => f.steps.length === 1 && !/batch/.test(f.name);
  for (const [i, a] of rep.entries())
    for (const b of rep.slice(i)) {
      await go(`bodies ${a.name} ∥ ${b.name}`, [c(a, '_a'), c(b, '_b')], { bodies: light(a) || light(b) });
      await go(`failing ${a.name} ∥ ${b.name}`, [c(a, '_a'), c(b, '_b')], { failures: ['500', 'lost'], renderFailures: true });
      await go(`clients ${a.name} ∥ ${b.name}`, [c(a, '_a', 'one'), c(b, '_b', 'two')], {});
    }
  // calls beginning in one breath (0..n microtasks apart), on a cold and on a warmed-up module; and environment events
  // landing back to back, before the SDK has come to rest
  for (const a of FLOWS) for (const b of FLOWS) if (!ctx.quick || a.scheduled || b.scheduled || a.steps.length + b.steps.length === 3 || a === b) await go(`together ${a.name} ∥ ${b.name} +0`, [c(a, '_a'), c(b, '_b')], { together: 0 });
  for (const a of rep)
    for (const b of rep) {
      for (let m = 0; m <= (ctx.quick ? 6 : 14); m++) {
        if (m) await go(`together ${a.name} ∥ ${b.name} +${m}`, [c(a, '_a'), c(b, '_b')], { together: m });
        await go(`together ${a.name} ∥ ${b.name} +${m} warm`, [c(a, '_a'), c(b, '_b')], { together: m, warm: [c(a, '_w'), c(b, '_x')] });
      }
      await go(`together ${a.name} ∥ ${b.name} two clients`, [c(a, '_a', 'one'), c(b, '_b', 'two')], { together: 0, warm: [c(a, '_w', 'two'), c(b, '_x', 'one')] });
      await go(`tight ${a.name} ∥ ${b.name}`, [c(a, '_a'), c(b, '_b')], { bodies: light(a) && light(b) }, { gaps: ctx.quick ? [0, 1, 2, 3] : [0, 1, 2, 3, 4, 5, 6, 8, 10] });
      if (!ctx.quick) await go(`tight failing ${a.name} ∥ ${b.name}`, [c(a, '_a'), c(b, '_b')], { failures: ['500', 'lost'], renderFailures: true }, { gaps: [0, 1, 2, 3] });
    }
  // crowds: n calls at once, in families of orders (all interleavings of that many calls are out of reach)
  const isStart = (m) => m.ev.label.startsWith('start ');
  const firstOf = (menu, f) => menu.findIndex(f);
  const ORDERS = {
    'first in first out': (menu) => Math.max(0, firstOf(menu, isStart)),
    'last in first out': (menu) => (firstOf(menu, isStart) >= 0 ? firstOf(menu, isStart) : menu.length - 1),
    'from the middle': (menu) => (firstOf(menu, isStart) >= 0 ? firstOf(menu, isStart) : menu.length >> 1),
    'every third': (menu, d) => (firstOf(menu, isStart) >= 0 ? firstOf(menu, isStart) : (d * 3) % menu.length),
    'two out two in': (menu, d) => (d % 4 < 2 || !menu.some((m) => !isStart(m)) ? Math.max(0, firstOf(menu, isStart)) : firstOf(menu, (m) => !isStart(m))),
    'latest answer first, between starts': (menu, d) => (d % 3 < 2 && firstOf(menu, isStart) >= 0 ? firstOf(menu, isStart) : menu.length - 1 - [...menu].reverse().findIndex((m, i, l) => !isStart(m) || l.every(isStart))),
  };
  const sizes = ctx.quick ? [5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 21, 25, 26, 32, 33, 50, 51, 64, 65, 101] : [...Array.from({ length: 62 }, (_, i) => i + 5), 101, 129, 151, 201, 257];
  for (const n of sizes)
    for (const [mix, fl] of [...['emails.send', 'emails.get', 'emails.send(react)', 'contacts.update(email)', 'domains.remove', 'forward passthrough', 'templates.create().publish'].map((x) => [x, [FLOW[x]]]), ['mixed', R], ['two clients', R]])
      for (const [on, pick] of Object.entries(ORDERS)) {
        const key = `crowd of ${n} ${mix}, ${on}`;
        if (!ctx.want(key)) continue;
        await ctx.eval(key, async () => {
          const calls = Array.from({ length: n }, (_, i) => c(fl[i % fl.length], `_${(n - i) * 3}`, mix === 'two clients' && i % 3 === 1 ? 'two' : 'one'));
          const r = await execute(scenario(key, calls, {}), [], { maxSteps: 6 * n + 50, pick });
          if (r.hung || r.endless) fail('a call of the crowd never settled', r.log.slice(-20));
          if (r.unhandled.length) fail('an unhandled promise rejection escaped', r.unhandled[0]);
          await r.state.final(r);
        });
      }
  // the same crowds begun in one breath, answered at once, in reverse, or only when all have asked
  for (const n of ctx.quick ? [...sizes, 129, 257, 513] : [...sizes, 513, 1025, 2049])
    for (const [mix, fl] of [...['emails.send', 'emails.get', 'emails.send(react)', 'contacts.update(email)', 'domains.remove', 'forward passthrough', 'forward wrapped', 'templates.create().publish', 'batch.send', 'contactProperties.get', 'client.post', 'contacts.imports.create'].map((x) => [x, [FLOW[x]]]), ['mixed', R], ['two clients', R]])
      for (const when of ['at once', 'together', 'in reverse', 'as they come']) {
        if (ctx.quick && n > 129 && (mix === 'two clients' || when === 'at once')) continue;
        await ctx.eval(`breath of ${n} ${mix}, answered ${when}`, async () => {
          const calls = Array.from({ length: n }, (_, i) => c(fl[i % fl.length], `_${(n - i) * 3}`, mix === 'two clients' && i % 3 === 1 ? 'two' : 'one'));
          const waiting = [];
          const world = new World({
            answer: (rec) => {
              const res = () => toResponse(echoServer(rec));
              return when === 'at once' ? res() : new Promise((r) => waiting.push(() => r(res())));
            },
            render: (node) => `<html>${node.label}</html>`,
          });
          world.onIdle = () => {
            if (when === 'in reverse') waiting.reverse();
            for (const f of when === 'as they come' ? waiting.splice(0, 3) : waiting.splice(0)) f();
          };
          world.enter();
          let r;
          try {
            const clients = { one: world.client(...CLIENTS.one), two: world.client(...CLIENTS.two) };
            r = await settle(world, () => Promise.allSettled(calls.map((p) => p.flow.call(clients[p.client], p.request, p.tag))));
          } finally {
            world.leave();
          }
          if (!r.value) fail('the calls did not settle', r.rejected ?? r.threw);
          const expected = [];
          for (const [i, p] of calls.entries()) {
            const a = await alone(p, new Map(), []);
            expected.push(...a.wires.map((w) => JSON.stringify(w)));
            const o = r.value[i];
            expectEqual(outcomeOf(o.status === 'rejected' ? { rejected: o.reason } : { value: o.value }), a.outcome, `call ${i} (${p.flow.name}) did not get what it gets alone`);
          }
          const sent = world.requests.map((q) => JSON.stringify(wire(q))).sort();
          expected.sort();
          const at = sent.findIndex((x, i) => x !== expected[i]);
          expect(sent.length === expected.length && at < 0, 'the requests are not the ones the calls send alone', { sent: sent[at] ?? sent.length, expected: expected[at] ?? expected.length });
        });
      }
  // per-call options stay with their call
  for (const a of [R[0], R[1], R[3], R[5]])
    for (const b of [R[0], R[1], R[3]])
      await go(`options ${a.name} ∥ ${b.name}`, [c(a, '_a', 'one', { idempotencyKey: 'key-a', headers: { 'X-Call': 'a', Authorization: 'Bearer a' } }), c(b, '_b', 'one', { idempotencyKey: 'key-b', headers: { 'X-Call': 'b' } })], {});
  const accepts = FLOWS.filter((f) => f.op?.request || f.forward || f.rawVerb || /^(emails|batch|broadcasts)\..*\(react\)$/.test(f.name));
  const REQ = (t) => ({ idempotencyKey: `key-${t}`, headers: { 'X-Call': t, [`X-Only-${t}`]: '1', Authorization: `Bearer ${t}` } });
  for (const a of accepts)
    for (const b of new Set([...accepts, ...R])) {
      const heavy = a.steps.length > 1 || b.steps.length > 1;
      for (const m of heavy && ctx.quick ? [0, 1] : [0, 1, 2, 3]) {
        await go(`options ${a.name} ∥ none ${b.name} +${m}`, [c(a, '_a', 'one', REQ('a')), c(b, '_b')], { together: m });
        await go(`none ${b.name} ∥ options ${a.name} +${m}`, [c(b, '_b'), c(a, '_a', 'one', REQ('a'))], { together: m });
        if (accepts.includes(b)) await go(`both with options ${a.name} ∥ ${b.name} +${m}`, [c(a, '_a', 'one', REQ('a')), c(b, '_b', 'one', REQ('b'))], { together: m });
      }
      if (!ctx.quick || !heavy) await go(`options in any order ${a.name} ∥ ${b.name}`, [c(a, '_a', 'one', REQ('a')), c(b, '_b')], {});
    }
  const T = (ctx.quick ? ['emails.send', 'emails.send(react)', 'emails.get', 'contacts.update(email)', 'contactProperties.get', 'broadcasts.create(react)'] : R.map((f) => f.name)).map((n) => FLOW[n]).filter((f) => f.steps.length === 1 && !/batch/.test(f.name));
  for (const [i, a] of T.entries())
    for (const [j, b] of T.entries())
      for (const [k, d] of T.entries()) {
        if (j < i || k < j) continue;
        await go(`triple ${a.name} ∥ ${b.name} ∥ ${d.name}`, [c(a, '_a'), c(b, '_b', 'two'), c(d, '_c')], {});
      }
  if (!ctx.quick)
    for (const a of [FLOW['templates.create().publish'], FLOW['forward passthrough'], FLOW['batch.send(react)']])
      await go(`triple ${a.name} ×1 + 2 sends`, [c(a, '_a'), c(R[0], '_b'), c(R[2], '_c')], {});
  await go('four sends', [c(R[0], '_a'), c(R[0], '_b'), c(R[0], '_c'), c(R[0], '_d')], {});
  if (!ctx.quick) await go('four mixed', [c(R[0], '_a'), c(R[2], '_b', 'two'), c(R[6], '_c'), c(R[8], '_d', 'two')], {});
}
