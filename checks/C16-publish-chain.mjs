// C16: publish chained onto create/duplicate publishes exactly that template, after it succeeded.
import { expect, expectEqual, fail } from '../lib/ctx.mjs';
import { BLANK_IDS, COUNTS, LENGTHS, MEMBERS, ODD_IDS, SPACED_IDS, VALUES, word } from '../lib/alphabet.mjs';
import { explore } from '../lib/explore.mjs';
import { react } from '../lib/flows.mjs';
import { Rig } from '../lib/harness.mjs';
import { ERROR_NAMES, RESPONSE_HEADERS } from '../lib/outcomes.mjs';
import { BASE, World, jsonBody, jsonResponse } from '../lib/world.mjs';

export const level = 'model_checking';
export const shards = { quick: 8, thorough: 8 };
export const rule =
  'operation (create, create with React, duplicate) × program over the returned object (every sequence of await / then / publish / awaited publish / wait-then-act up to a length) × every answer, body outcome, render outcome and order of environment events; each execution of the real SDK is checked against a reference: one create, one publish per publish() after a successful create, none otherwise; plus every documented error name at either request, any number of publications of one template; and two chains on one client (and on two) in every interleaving of their actions and answers; distinct by schedule';
export const bounds = (tier) => `programs up to ${tier === 'quick' ? 3 : 4} actions; create answers: 3 ids, API error, HTML error, garbage, lost connection, cut body; up to ${tier === 'quick' ? 129 : 1025} publications of one template; publish answers: ok, API error, lost; at most ${tier === 'quick' ? 2 : 3} non-default environment choices per execution`;
export const assumptions = ['template ids are path-safe (C05)', 'executions are on the implementation itself; one in 64 is repeated and must give the same trace'];

const CREATE = (env) => [
  { label: 'ok', status: 200, json: { object: 'template', id: 'tmpl_new' }, headers: { 'content-type': 'application/json', 'x-step': 'create' }, bodyFaults: [{ label: 'cut', error: () => new TypeError('terminated') }] },
  { label: 'ok uuid', status: 201, json: { object: 'template', id: '3deaccfb-f47f-440a-8875-ea14b1716b43' }, atomic: true },
  { label: 'ok odd', status: 200, json: { id: 'publish' }, atomic: true },
  { label: '422', status: 422, json: { name: 'validation_error', message: 'bad', statusCode: 422 } },
  { label: '404 with id', status: 404, json: { name: 'not_found', message: 'm', statusCode: 404, id: 'tmpl_err' }, atomic: true },
  { label: '500', status: 500, text: '<html>', atomic: true },
  { label: 'garbage', status: 200, text: '{"id":"tm', atomic: true },
  { label: 'lost', reject: new TypeError('fetch failed') },
  ...(env ?? []),
];
const PUBLISH = [
  { label: 'ok', status: 200, json: { object: 'template', id: 'published_id' }, headers: { 'content-type': 'application/json', 'x-step': 'publish' }, atomic: true },
  { label: '409', status: 409, json: { name: 'conflict', message: 'm', statusCode: 409 }, atomic: true },
  { label: 'lost', reject: new TypeError('fetch failed') },
];
const ACTIONS = ['await', 'then', 'publish', 'await publish', 'pause'];
const MAKE = {
  create: [(c) => c.templates.create({ name: 'n', html: '<p>h</p>' }), '/templates', { name: 'n', html: '<p>h</p>' }],
  'create react': [(c) => c.templates.create({ name: 'n', react: react('T') }), '/templates', { name: 'n', html: '<html>T</html>' }],
  duplicate: [(c) => c.templates.duplicate('tmpl_old'), '/templates/tmpl_old/duplicate', undefined],
};

export async function run(ctx) {
  const max = ctx.quick ? 3 : 4;
  const rig = new Rig();
  const programs = [];
  for (let n = 1, level = [[]]; n <= max; n++) {
    level = level.flatMap((l) => ACTIONS.map((a) => [...l, a]));
    programs.push(...level.filter((l) => l.some((a) => a !== 'pause') && l.at(-1) !== 'pause'));
  }
  for (const [mn, [make, path, body]] of Object.entries(MAKE))
    for (const prog of programs)
      await explore(
        ctx,
        {
          key: `${mn}: ${prog.join(', ')}`,
          // a caller that does not look at the result of a failed rendering in time sees what any promise shows it
          mayLeaveUnhandled: mn === 'create react' && prog[0] === 'pause',
          make() {
            const isCreate = (rec) => rec.path === path;
            const world = new World({
              scheduleRender: true,
              renderAnswers: () => [{ label: 'ok', value: '<html>T</html>' }, { label: 'fails', error: new Error('render failed') }],
              answers: (rec) => (isCreate(rec) ? CREATE() : PUBLISH),
            });
            const got = { creates: [], publishes: [] };
            return {
              world,
              programs: [
                {
                  name: 'p',
                  immediate: true,
                  body: async (api) => {
                    const r = make(world.client());
                    const all = [];
                    const keep = (kind, p) => all.push(Promise.resolve(p).then((value) => got[kind].push({ value }), (error) => got[kind].push({ rejected: error })));
                    for (const [i, a] of prog.entries()) {
                      if (a === 'await') {
                        try {
                          got.creates.push({ value: await r });
                        } catch (e) {
                          got.creates.push({ rejected: e });
                        }
                      } else if (a === 'then') keep('creates', new Promise((y, n) => r.then(y, n)));
                      else if (a === 'publish') keep('publishes', r.publish());
                      else if (a === 'await publish') {
                        const p = r.publish();
                        keep('publishes', p);
                        await Promise.resolve(p).catch(() => {});
                      } else await api.point(`resume ${i}`);
                    }
                    await Promise.all(all);
                    return got;
                  },
                },
              ],
              step(run) {
                const c = world.requests.filter(isCreate);
                const done = c.length && c[0].answer && !world.pending.some((e) => e.label === `body[POST ${path}]`);
                if (world.requests.length > c.length && !done) run.early = true;
              },
              final(run) {
                if (run.outcomes.p && 'rejected' in run.outcomes.p) fail('the program failed', run.outcomes.p.rejected);
                const renderFailed = run.log.some((l) => /^render.*fails/.test(l));
                const wantP = prog.filter((a) => /publish/.test(a)).length;
                const wantC = prog.filter((a) => a === 'await' || a === 'then').length;
                expectEqual([got.creates.length, got.publishes.length], [wantC, wantP], 'not every result settled');
                if (renderFailed) {
                  expectEqual(world.requests.length, 0, 'a request after a failed rendering');
                  for (const x of [...got.creates, ...got.publishes]) expect('rejected' in x, 'a result although rendering failed', x);
                  return;
                }
                for (const x of [...got.creates, ...got.publishes]) if ('rejected' in x) fail('a result rejected', x.rejected);
                expect(!run.early, 'published before the template was created');
                const creates = world.requests.filter((q) => !q.invalid && isCreate(q));
                const others = world.requests.filter((q) => q.invalid || !isCreate(q));
                expectEqual(creates.length, 1, 'the create/duplicate was not sent exactly once');
                expectEqual([creates[0].method, creates[0].origin, jsonBody(creates[0])], ['POST', BASE, body], 'wrong create request');
                const a = CREATE().find((x) => x.label === creates[0].answer);
                const cut = run.log.some((l) => l.startsWith(`body[POST ${path}]`) && /cut/.test(l));
                const ok = /^ok/.test(a.label) && !cut;
                for (const { value: v } of got.creates) {
                  expect(v && typeof v === 'object', 'no envelope', v);
                  if (ok) expectEqual([v.data, v.error], [a.json, null], 'the awaited result is not the create’s answer');
                  else {
                    expectEqual(v.data, null, 'data after a failed create');
                    expect(v.error && typeof v.error.name === 'string', 'no error after a failed create', v);
                    if (/422|404/.test(a.label)) expectEqual(v.error, a.json, 'the error is not the API’s own');
                  }
                }
                if (!ok) {
                  expectEqual(others.length, 0, 'something was published after a failed create');
                  for (const { value: v } of got.publishes) {
                    expectEqual(v.data, null, 'publish data after a failed create');
                    expect(v.error && typeof v.error.name === 'string', 'publish gave no error after a failed create', v);
                    if (/422|404/.test(a.label)) expectEqual(v.error, a.json, 'publish did not return the create’s error');
                    if (got.creates.length) expectEqual(v.error, got.creates[0].value.error, 'publish did not return the create’s error');
                  }
                  return;
                }
                expectEqual(others.length, wantP, 'not one publish per publish()');
                for (const q of others) {
                  expectEqual([q.method, q.origin, q.path, q.search], ['POST', BASE, `/templates/${a.json.id}/publish`, ''], 'the wrong template was published');
                  expect(q.bodyKind === 'none', 'publish has no payload', q.text);
                }
                const kinds = others.map((q) => q.answer).sort();
                const seen = got.publishes
                  .map(({ value: v }) => {
                    expect(v && typeof v === 'object', 'no envelope', v);
                    if (v.error === null) {
                      expectEqual(v.data, PUBLISH[0].json, 'publish result is not its own answer');
                      expectEqual(v.headers?.['x-step'], 'publish', 'publish headers are not its own');
                      return 'ok';
                    }
                    expectEqual(v.data, null, 'data and error');
                    return v.error.name === 'conflict' ? '409' : 'lost';
                  })
                  .sort();
                expectEqual(seen, kinds, 'publish results do not match their answers');
              },
            };
          },
        },
        { maxRuns: 200000, bound: ctx.quick ? 2 : 3, cost: (ev, x) => (/^(ok|body|)$/.test(x.label ?? '') ? 0 : 1) },
      );
  // every documented error name, at the create and at the publish
  for (const [mn, [make, path]] of Object.entries(MAKE))
    for (const at of ['create', 'publish'])
      for (const name of ERROR_NAMES)
        for (const status of [400, 404, 409, 422, 429, 500, 503])
          await explore(ctx, {
            key: `${mn}: ${at} answered ${name} ${status}`,
            make() {
              const error = { name, message: `m ${name}`, statusCode: status };
              const world = new World({ answers: (rec) => [(rec.path === path) === (at === 'create') ? { label: 'error', status, json: error } : { label: 'ok', status: 200, json: { id: 'tmpl_new' }, atomic: true }] });
              return {
                world,
                programs: [{ name: 'p', immediate: true, body: () => make(world.client()).publish() }],
                final(run) {
                  expectEqual(world.requests.map((q) => q.path), at === 'create' ? [path] : [path, '/templates/tmpl_new/publish'], 'not one create and one publish');
                  expectEqual([run.outcomes.p.value?.data, run.outcomes.p.value?.error], [null, error], 'not the API’s own error');
                },
              };
            },
          });
  // whatever header fields the answers have
  for (const [mn, [make, path]] of Object.entries(MAKE))
    for (const at of ['create', 'publish'])
      for (const [label, headers] of RESPONSE_HEADERS)
        for (const [status, html] of [[200], [409], [503], [502, '<html>'], [200, '<html>'], [500, '']])
          await ctx.eval(`${mn}: ${at} answered ${status}${html === undefined ? '' : html ? ' page' : ' nothing'} ${label}`, async () => {
            const error = { name: 'x', message: 'm' };
            const r = await rig.raw((c) => make(c).publish(), (rec) => {
              const here = (rec.path === path) === (at === 'create');
              return new Response(here && html !== undefined ? html : JSON.stringify(here && status !== 200 ? error : { id: 'tmpl_new' }), { status: here ? status : 200, headers: here ? headers : {} });
            });
            const bad = status !== 200 || html !== undefined;
            // the result of a publication carries the header fields of its own answer
            if (at === 'publish' && r.value?.headers !== null && !(status === 200 && html)) {
              const sent = Object.fromEntries(new Response('', { headers }).headers.entries());
              for (const [k, v] of Object.entries(sent)) if (k !== 'content-type' || headers['content-type']) expectEqual(r.value.headers[k], v, `the ${k} header is missing`);
            }
            if (at === 'publish' && !(status === 200 && html)) expect(r.value?.headers, 'the headers of the answer are missing', r.value);
            if (html !== undefined) {
              expectEqual(r.requests.length, at === 'create' ? 1 : 2, 'not one create and one publish');
              expect(r.value?.data === null && r.value.error, 'no error for a page', r.value);
              return;
            }
            expectEqual(r.requests.map((q) => q.path), at === 'create' && bad ? [path] : [path, '/templates/tmpl_new/publish'], 'not one create and one publish');
            expectEqual([r.value?.data, r.value?.error], status === 200 ? [{ id: 'tmpl_new' }, null] : [null, error], 'not the API’s own answer');
          });
  // whatever the identifier is
  for (const [mn, [make, path]] of Object.entries(MAKE))
    for (const id of [...ODD_IDS.filter((x) => !/^\.+$/.test(x)), ...BLANK_IDS, ...SPACED_IDS, ' a', ' ', '  a', ...LENGTHS[ctx.tier].filter((n) => n > 0).map(word)])
      for (const how of ['directly', 'after awaiting'])
        await ctx.eval(`${mn}: id ${id.length > 60 ? `of length ${id.length}` : id} ${how}`, async () => {
          const r = await rig.raw(
            async (c) => {
              const t = make(c);
              if (how !== 'directly') await t;
              return t.publish();
            },
            (rec) => jsonResponse(200, rec.path === path ? { object: 'template', id } : { id: 'published', object: 'template' }),
          );
          expectEqual(r.requests.map((q) => [q.method, decodeURIComponent(q.path)]), [['POST', path], ['POST', `/templates/${id}/publish`]], 'not one create and one publish of it');
          expectEqual([r.value?.data?.id, r.value?.error], ['published', null], 'not the answer to the publication');
        });
  // whatever else the answer of the create has
  for (const [mn, [make, path]] of Object.entries(MAKE))
    for (const m of [...MEMBERS.filter((x) => x !== 'id'), 'publish', 'published', 'published_at', 'alias', 'version', 'current_version_id', 'has_unpublished_versions', 'template', 'template_id', 'templateId', 'identifier', 'uuid', 'slug', 'key', '_id', 'ID', 'Id', 'draft', 'created_at'])
      for (const value of [...VALUES, '"draft"', '"published"', '"tmpl_other"', '"2024-01-01T00:00:00Z"'])
        for (const doc of [`{"id":"tmpl_new","${m}":${value}}`, `{"${m}":${value},"object":"template","id":"tmpl_new"}`])
          for (const how of ['publish', 'await', 'await, publish', 'then', 'publish twice'])
            await ctx.eval(`${mn}: answer ${doc} ${how}`, async () => {
              const r = await rig.raw(
                async (c) => {
                  const t = make(c);
                  if (how === 'publish') return [await t.publish()];
                  if (how === 'await') return [await t];
                  if (how === 'then') return [await new Promise((y, n) => t.then(y, n))];
                  if (how === 'publish twice') return [await t.publish(), await t.publish()];
                  return [await t, await t.publish()];
                },
                (rec) => new Response(rec.path === path ? doc : '{"id":"published"}', { headers: { 'content-type': 'application/json' } }),
              );
              if (!('value' in r)) fail('the chain failed', r);
              const n = { publish: 1, await: 0, then: 0, 'publish twice': 2, 'await, publish': 1 }[how];
              expectEqual(r.requests.map((q) => [q.method, q.path]), [['POST', path], ...Array(n).fill(['POST', '/templates/tmpl_new/publish'])], 'not one create and one publish per publish()');
              for (const v of r.value) expectEqual(v.error, null, 'a good answer became an error');
              for (const v of r.value.slice(r.value.length - n)) if (n) expectEqual(v.data, { id: 'published' }, 'not the answer to the publication');
              if (/await|then/.test(how)) expectEqual(r.value[0].data, JSON.parse(doc), 'not the answer to the create');
            });
  // any number of publications of one template, one after the other or at once
  for (const [mn, [make, path]] of Object.entries(MAKE))
    for (const n of COUNTS[ctx.tier].filter((x) => x && x <= (ctx.quick ? 129 : 1025)))
      for (const how of ['in turn', 'at once', 'awaited before']) {
        const key = `${mn}: ${n} publications ${how}`;
        await ctx.eval(key, async () => {
          const r = await rig.raw(
            async (c) => {
              const t = make(c);
              const results = [];
              if (how === 'awaited before') await t;
              for (let i = 0; i < n; i++) results.push(how === 'in turn' ? await t.publish() : t.publish());
              return { all: await Promise.all(results), own: await t };
            },
            (rec, i) => jsonResponse(200, { id: rec.path === path ? 'tmpl_new' : `published ${i}` }),
          );
          if (r.threw || r.hung || 'rejected' in r) fail('the chain failed', r.threw ?? r.rejected);
          expectEqual(r.requests.map((q) => q.path), [path, ...Array(n).fill('/templates/tmpl_new/publish')], 'not one create and one publish per publish()');
          expectEqual(r.value.own.data, { id: 'tmpl_new' }, 'the awaited result is not the create’s answer');
          expectEqual(r.value.all.map((v) => [v.error, v.data?.id]).sort(), Array.from({ length: n }, (_, i) => [null, `published ${i + 1}`]).sort(), 'publish results do not match their answers');
        });
      }
  // several chains on one client, in every interleaving of their actions and of the answers: each publishes its own
  const PROGS = [
    ['publish'],
    ['await', 'pause', 'publish'],
    ['await publish', 'pause', 'publish'],
    ['pause', 'await', 'pause', 'await publish'],
    ...(ctx.quick ? [] : [['then', 'pause', 'publish', 'pause', 'publish'], ['publish', 'pause', 'await']]),
  ];
  const ids = (rec) => (jsonBody(rec)?.name ? `of_${jsonBody(rec).name}` : `of_${rec.path.split('/')[2]}`);
  const CHAINS = {
    create: (c, t) => c.templates.create({ name: t, html: '<p>h</p>' }),
    'create react': (c, t) => c.templates.create({ name: t, react: react(t) }),
    duplicate: (c, t) => c.templates.duplicate(t),
  };
  const kinds = Object.keys(CHAINS);
  for (const ka of kinds)
    for (const kb of kinds)
      for (const pa of PROGS)
        for (const pb of PROGS)
          for (const sameClient of [true, false]) {
            if (!sameClient && ctx.quick && (pa !== PROGS[1] || pb !== PROGS[1])) continue;
            // the executions grow exponentially with the actions of both programs
            const actions = pa.length + pb.length + (ka === 'create react') + (kb === 'create react');
            if (actions > (ctx.quick ? 8 : sameClient ? 9 : 8)) continue;
            await explore(
              ctx,
              {
                key: `${ka}: ${pa.join(', ')} ∥ ${kb}: ${pb.join(', ')}${sameClient ? '' : ' (two clients)'}`,
                make() {
                  const isPublish = (rec) => rec.path.endsWith('/publish');
                  const world = new World({
                    scheduleRender: true,
                    answers: (rec) =>
                      isPublish(rec)
                        ? [{ label: 'ok', status: 200, json: { id: `published ${rec.path}` }, atomic: true }]
                        : [
                            { label: 'ok', status: 200, json: { id: ids(rec) }, atomic: true },
                            { label: 'failed', status: 422, json: { name: 'validation_error', message: `no ${ids(rec)}`, statusCode: 422 }, atomic: true },
                          ],
                  });
                  let shared;
                  const program = (t, kind, prog) => ({
                    name: t,
                    body: async (api) => {
                      const c = sameClient ? (shared ??= world.client()) : world.client();
                      const r = CHAINS[kind](c, t);
                      const all = [];
                      for (const [i, a] of prog.entries()) {
                        if (a === 'await') all.push(['create', await r]);
                        else if (a === 'then') all.push(['create', new Promise((y, n) => r.then(y, n))]);
                        else if (a === 'publish') all.push(['publish', r.publish()]);
                        else if (a === 'await publish') all.push(['publish', await r.publish()]);
                        else await api.point(`resume ${t} ${i}`);
                      }
                      return Promise.all(all.map(async ([k, p]) => [k, await p]));
                    },
                  });
                  return {
                    world,
                    programs: [program('t1', ka, pa), program('t2', kb, pb)],
                    final(run) {
                      const expected = [];
                      for (const [t, prog] of [['t1', pa], ['t2', pb]]) {
                        const o = run.outcomes[t];
                        if (!o || 'rejected' in o) fail('the program failed', o?.rejected);
                        const creates = world.requests.filter((q) => !isPublish(q) && ids(q) === `of_${t}`);
                        expectEqual(creates.length, 1, 'the create/duplicate was not sent exactly once');
                        const ok = creates[0].answer === 'ok';
                        const path = `/templates/of_${t}/publish`;
                        for (const [kind, v] of o.value) {
                          if (!ok) expectEqual([v.data, v.error?.message], [null, `no of_${t}`], `${kind}: not the error of its own template`);
                          else expectEqual([v.data, v.error], [{ id: kind === 'create' ? `of_${t}` : `published ${path}` }, null], `${kind}: not the result of its own template`);
                        }
                        if (ok) for (const a of prog) if (/publish/.test(a)) expected.push(path);
                      }
                      expectEqual(world.requests.filter(isPublish).map((q) => q.path).sort(), expected.sort(), 'not the templates that were created were published');
                    },
                  };
                },
              },
              { maxRuns: 200000, bound: 1, cost: (ev, x) => (x.label === 'failed' ? 1 : 0) },
            );
          }
}
