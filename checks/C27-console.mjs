// C27: failed API requests are reported on the console outside production, never in production, at failure time.
import { inspect } from 'node:util';
import { expect, expectEqual, fail, same } from '../lib/ctx.mjs';
import { COUNTS, HUGE, LENGTHS, text } from '../lib/alphabet.mjs';
import { Rig, outcomeOf } from '../lib/harness.mjs';
import { FLOW, FLOWS, react } from '../lib/flows.mjs';
import { ERROR_NAMES, RESPONSE_HEADERS, outcomesFor } from '../lib/outcomes.mjs';
import { OPS, baseValues } from '../lib/ops.mjs';
import { BASE, World } from '../lib/world.mjs';
import { explore } from '../lib/explore.mjs';

export const level = 'fault_enumeration';
export const shards = { quick: 4, thorough: 8 };
export const rule =
  'flow × step × outcome of that step × NODE_ENV (production, development, test, unset, empty, other case) × no process / no env; the same with NODE_ENV switched at every scheduling point of the flow; console calls compared with: nothing in production or on success, otherwise exactly one console.error naming path, error and status; every status 300–599 × JSON/HTML/empty/null body and every documented error name × 8 statuses; distinct by key';
export const bounds = () => `errors of every length; 105 (thorough 1030) calls in a row, up to 200 at once; one failing step per flow (a failure ends it); ${Object.keys(ENVS).length} settings; one switch per schedule`;
export const assumptions = ['whether a failed raw download (not an API request) is reported is unspecified', 'a console.error argument may carry path, error and status in any shape'];

const ENVS = { production: { NODE_ENV: 'production' }, development: { NODE_ENV: 'development' }, test: { NODE_ENV: 'test' }, unset: {}, empty: { NODE_ENV: '' }, Production: { NODE_ENV: 'Production' }, staging: { NODE_ENV: 'staging' }, ...Object.fromEntries(['prod', 'prod-eu', 'production-eu', 'productions', 'producer', 'pre-production', 'nonproduction', 'PRODUCTION', 'production ', ' production', '"production"', 'production,debug', 'p', '1', '0', 'true', 'false', 'undefined', 'null', 'none', 'live', 'release', 'dev', 'debug', 'local', 'ci', 'testing'].map((v) => [JSON.stringify(v), { NODE_ENV: v }])), ...Object.fromEntries([['NODE_ENVIRONMENT', 'production'], ['ENV', 'production'], ['APP_ENV', 'production'], ['VERCEL_ENV', 'production'], ['CI', 'true'], ['VITEST', 'true'], ['DEBUG', '*'], ['LOG_LEVEL', 'silent'], ['RESEND_LOG', 'off'], ['RESEND_DEBUG', 'false'], ['NO_COLOR', '1'], ['SILENT', '1']].map(([k, v]) => [`${k}=${v}`, { [k]: v }])), ...Object.fromEntries([['DEBUG', '*'], ['DEBUG', 'resend'], ['RESEND_DEBUG', 'true'], ['RESEND_DEBUG', '1'], ['LOG_LEVEL', 'debug'], ['NODE_DEBUG', 'resend'], ['VERBOSE', '1'], ['CI', 'true'], ['VERCEL_ENV', 'preview'], ['APP_ENV', 'development']].map(([k, v]) => [`production ${k}=${v}`, { NODE_ENV: 'production', [k]: v }])) };

const walk = (v, f, seen = new Set()) => {
  if (f(v)) return true;
  if (typeof v !== 'object' || v === null || seen.has(v)) return false;
  seen.add(v);
  return Object.values(v).some((x) => walk(x, f, seen));
};
/** A report names the path, the error as returned, and the status when there was a response. */
function checkReport(lines, { path, error, status }) {
  expectEqual(lines.map((l) => l.method), ['error'], 'not exactly one console.error', { sig: undefined });
  const { args } = lines[0];
  const text = () => inspect(args, { depth: 8 });
  const mentions = (needle) => args.some((a) => walk(a, (x) => (typeof x === 'string' ? x.includes(needle) : false)));
  expect([path].flat().some(mentions), 'the report does not name the path', text);
  expect(args.some((a) => walk(a, (x) => same(x, error) || (typeof x === 'string' && x.includes(error.message ?? '') && x.includes(error.name ?? '')))), 'the report does not carry the error', { error, report: text() });
  if (status !== undefined)
    expect(args.some((a) => walk(a, (x) => x === status || (typeof x === 'string' && new RegExp(`(^|\\D)${status}(\\D|$)`).test(x)))), 'the report does not name the status', text);
}

export async function run(ctx) {
  const rig = new Rig();
  for (const flow of FLOWS)
    for (let step = 0; step < flow.steps.length; step++)
      for (const o of outcomesFor(flow.steps[step])) {
        if (o.kind === 'ok' && step) continue;
        let reference;
        for (const [en, env] of Object.entries(ENVS))
          await ctx.eval(`${flow.name} step ${step} ${o.name} NODE_ENV ${en}`, async () => {
            const once = (e) => rig.raw((c) => flow.call(c), (rec, n) => (n === step && o.act ? o.act() : flow.answer(rec, n)), e);
            reference ??= outcomeOf(await once({ NODE_ENV: 'production' }));
            const r = await once({ ...env });
            if (r.rejected || r.threw || r.hung) fail('the call did not settle with a result', r.rejected ?? r.threw);
            expect(same(outcomeOf(r), reference), 'the setting changed the result', { with: outcomeOf(r), production: reference });
            if (env.NODE_ENV === 'production' || o.kind === 'ok') {
              expectEqual(r.console.map((l) => [l.method, inspect(l.args)]), [], o.kind === 'ok' ? 'a successful call wrote to the console' : 'something was written to the console in production');
              return;
            }
            if (flow.steps[step] === 'download') return;
            const q = r.requests[step];
            checkReport(r.console, { path: q.path + q.search, error: r.value.error, status: o.status });
          });
      }

  // every status, with and without the API's own error
  // whatever header fields the answers have
  for (const flow of FLOWS)
    for (let step = 0; step < flow.steps.length; step++)
      for (const [label, headers] of RESPONSE_HEADERS)
        for (const status of [200, 422, 503]) {
          if (flow.steps[step] === 'download') continue;
          await ctx.eval(`${flow.name} step ${step} ${status} ${label}`, async () => {
            const good = flow.scripted({}, step);
            const error = { name: 'x', message: 'm', statusCode: 422 };
            const make = () => new Response(status === 200 ? JSON.stringify(good.json) : status === 422 ? JSON.stringify(error) : '<html>', { status, headers });
            for (const NODE_ENV of ['production', 'development']) {
              const r = await rig.raw((c) => flow.call(c), (rec, n) => (n === step ? make() : flow.answer(rec, n)), { NODE_ENV });
              if (status === 200 || NODE_ENV === 'production') expectEqual(r.console.map((l) => [l.method, inspect(l.args)]), [], status === 200 ? 'a successful call wrote to the console' : 'something was written to the console in production');
              else checkReport(r.console, { path: r.requests[step].path + r.requests[step].search, error: r.value.error, status });
            }
          });
        }
  const picks = FLOWS.filter((f) => !ctx.quick || /^(emails\.(send|get|list)|domains\.remove|contacts\.update\(id\)|batch\.send|templates\.create\(\)\.publish|forward wrapped|client\.put|contacts\.imports\.create)$/.test(f.name));
  for (const flow of picks)
    for (let step = 0; step < flow.steps.length; step++) {
      if (flow.steps[step] === 'download') continue;
      for (let status = 300; status <= 599; status++)
        for (const [bn, body] of [
          ['json', (e) => JSON.stringify(e)],
          ['html', () => '<h1>no</h1>'],
          ['empty', () => ''],
          ['null', () => 'null'],
        ]) {
          if (status === 304 && bn !== 'empty') continue;
          await ctx.eval(`${flow.name} step ${step} status ${status} ${bn}`, async () => {
            const error = { name: status === 404 ? 'not_found' : 'some_error', message: `told ${status}`, statusCode: status };
            const act = (rec, n) => (n === step ? new Response(status === 304 ? null : body(error), { status }) : flow.answer(rec, n));
            for (const env of [{ NODE_ENV: 'development' }, { NODE_ENV: 'production' }]) {
              const r = await rig.raw((c) => flow.call(c), act, env);
              if (r.rejected || r.threw || r.hung) fail('the call did not settle with a result', r.rejected ?? r.threw);
              if (env.NODE_ENV === 'production') expectEqual(r.console.map((l) => [l.method, inspect(l.args)]), [], 'something was written to the console in production');
              else checkReport(r.console, { path: r.requests[step].path + r.requests[step].search, error: r.value.error, status });
            }
          });
        }
    }
  // every operation with whatever ids and filters: the report names the path that was requested
  for (const op of OPS) {
    const base = { ...baseValues(op) };
    for (const f of op.fields.filter((x) => x.to === 'query')) base[f.name] ??= f.type.base(f.name);
    const cases = [['full', base]];
    for (const f of op.fields)
      if (f.to === 'query') {
        const usable = f.type.more(f.name).filter((v) => (f.keepsEmpty === false ? v !== '' && v !== 0 : true) && (v !== '' || f.keepsEmpty));
        for (const [i, v] of usable.entries()) cases.push([`${f.name}#${i}`, { ...base, [f.name]: v }]);
      } else if (f.to === 'path') for (const v of ['a b', 'é', 'a+b@x.io', 'A.b~c', 'x_1', '0', 'undefined']) cases.push([`${f.name}=${v}`, { ...base, [f.name]: v }]);
    for (const [label, values] of cases)
      for (const [on, act] of Object.entries({ 422: () => new Response('{"name":"x","message":"m","statusCode":422}', { status: 422 }), '503 html': () => new Response('<h1>', { status: 503 }), lost: () => ({ reject: new TypeError('fetch failed') }) }))
        await ctx.eval(`${op.name} ${label} ${on} path in the report`, async () => {
          const r = await rig.call(op, values, { answer: act, env: { NODE_ENV: 'development' } });
          const q = r.requests[0];
          if (!q || q.invalid) return false;
          checkReport(r.console, { path: [q.path + q.search, q.input.replace(BASE, '')], error: r.value.error, status: Number.parseInt(on, 10) || undefined });
        });
  }
  // every documented error name
  for (const name of ERROR_NAMES)
    for (const flow of [FLOW['emails.send'], FLOW['emails.get']])
      for (const status of [400, 401, 403, 404, 409, 422, 429, 500])
        await ctx.eval(`${flow.name} error ${name} ${status}`, async () => {
          const error = { name, message: `m ${name}`, statusCode: status };
          const r = await rig.raw((c) => flow.call(c), () => new Response(JSON.stringify(error), { status }), { NODE_ENV: 'development' });
          checkReport(r.console, { path: r.requests[0].path + r.requests[0].search, error: r.value.error, status });
        });

  // errors of every size, and any number of failures in a row, among successes
  for (const n of [...LENGTHS[ctx.tier], ...HUGE[ctx.tier]])
    for (const flow of [FLOW['emails.send'], FLOW['contacts.list'], FLOW['client.put']])
      for (const [bn, body] of Object.entries({ json: (e) => JSON.stringify(e), html: (e) => e.message }))
        for (const NODE_ENV of ['development', 'production'])
          await ctx.eval(`${flow.name} ${bn} error of length ${n} ${NODE_ENV}`, async () => {
            const error = { name: 'validation_error', message: text(n), statusCode: 422 };
            const r = await rig.raw((c) => flow.call(c), () => new Response(body(error), { status: 422 }), { NODE_ENV });
            if (NODE_ENV === 'production') expectEqual(r.console.length, 0, 'something was written to the console in production');
            else checkReport(r.console, { path: r.requests[0].path + r.requests[0].search, error: r.value.error, status: 422 });
          });
  for (const flow of FLOWS)
    for (const period of [1, 2, 3])
      await ctx.eval(`${flow.name} failing again and again, every ${period}`, async () => {
        for (let i = 0; i < (ctx.quick ? 105 : 1030); i++) {
          const failing = i % period === 0;
          const error = { name: 'rate_limit_exceeded', message: i % 4 ? 'again' : `m${i}`, statusCode: 429 };
          const r = await rig.raw((c) => flow.call(c), (rec, k) => (failing ? new Response(JSON.stringify(error), { status: 429 }) : flow.answer(rec, k)), { NODE_ENV: 'development' });
          if (!failing) expectEqual(r.console.length, 0, 'a successful call wrote to the console');
          else checkReport(r.console, { path: r.requests[0].path + r.requests[0].search, error: r.value.error, status: 429 });
        }
      });
  for (const n of COUNTS[ctx.tier].filter((x) => x > 0 && x <= 200))
    for (const env of ['development', 'production'])
      await ctx.eval(`${n} failures at once ${env}`, async () => {
        const r = await rig.raw((c) => Promise.all(Array.from({ length: n }, (_, i) => c.emails.get(`em_${i}`))), () => new Response('{"name":"not_found","message":"m","statusCode":404}', { status: 404 }), { NODE_ENV: env });
        if (env === 'production') expectEqual(r.console.length, 0, 'something was written to the console in production');
        else for (const q of r.requests) checkReport(r.console.filter((l) => inspect(l.args, { depth: 8 }).includes(`${q.path}'`) || inspect(l.args, { depth: 8 }).includes(`${q.path} `) || inspect(l.args, { depth: 8 }).endsWith(q.path)), { path: q.path, error: { name: 'not_found', message: 'm', statusCode: 404 }, status: 404 });
      });
  const bareRigs = Object.entries({ 'no process': undefined, 'no env': {}, 'null env': { env: null } }).map(([k, process]) => [k, new Rig({ world: { shadow: { process }, env: {} } })]);
  // no process, or one without an environment: nothing may break
  for (const flow of FLOWS)
    for (let step = 0; step < flow.steps.length; step++)
      for (const o of outcomesFor(flow.steps[step]).filter((x) => /^(ok|422|404 html|200 cut|lost|500 cut)$/.test(x.name)))
        for (const [kind, bare] of bareRigs) {
          if (o.kind === 'ok' && step) continue;
          await ctx.eval(`${flow.name} step ${step} ${o.name} ${kind}`, async () => {
            const act = (rec, n) => (n === step && o.act ? o.act() : flow.answer(rec, n));
            const want = outcomeOf(await rig.raw((c) => flow.call(c), act));
            const r = await bare.raw((c) => flow.call(c), act, {});
            expect(same(outcomeOf(r), want), 'the result differs without a process environment', { got: outcomeOf(r), want });
            if (o.kind === 'ok') expectEqual(r.console.length, 0, 'a successful call wrote to the console');
          });
        }

  // outcomes that are no API answers: rendering, refusals, verification - silent in production, and on success
  const mail = { from: 'f@x.io', to: 't@x.io', subject: 's' };
  const OTHER = {
    'render fails send': [(c) => c.emails.send({ ...mail, react: react('A') }), 'fails'],
    'render fails batch': [(c) => c.batch.send([{ ...mail, html: 'x' }, { ...mail, react: react('A') }]), 'fails'],
    'render fails broadcast': [(c) => c.broadcasts.create({ from: 'f@x.io', segmentId: 's', subject: 's', react: react('A') }), 'fails'],
    'render fails template': [(c) => c.templates.create({ name: 'n', react: react('A') }).publish(), 'fails'],
    'renderer missing': [(c) => c.emails.send({ ...mail, react: react('A') }), 'missing'],
    'contact without id': [(c) => c.contacts.get({})],
    'topic without id': [(c) => c.topics.get('')],
    'suppression without id': [(c) => c.suppressions.remove('')],
    'legacy with segments': [(c) => c.contacts.create({ audienceId: 'a', email: 'e@x.io', segments: [] })],
    'forged webhook': [async (c) => c.webhooks.verify({ payload: '{}', headers: { id: 'm', timestamp: '1', signature: 'v1,AAAA' }, webhookSecret: 'whsec_AAAA' })],
    'forward with unreadable mail': [(c) => c.emails.receiving.forward({ emailId: 'e', to: 't@x.io', from: 'f@x.io' }), undefined, (rec, n) => (n === 1 ? new Response('\0\0\0not mail') : FLOW['forward passthrough'].answer(rec, n))],
  };
  for (const [name, [invoke, mode, answer]] of Object.entries(OTHER))
    for (const env of [{ NODE_ENV: 'production' }])
      await ctx.eval(`silent ${name}`, async () => {
        const world = { renderModuleMissing: mode === 'missing', render: mode === 'fails' ? () => Promise.reject(new Error('render failed')) : undefined };
        const r = await new Rig({ world }).raw(invoke, answer, env);
        if (r.hung) fail('the call never settled');
        expectEqual(r.console.map((l) => [l.method, inspect(l.args)]), [], 'something was written to the console in production');
      });

  // the setting is read when the failure happens
  for (const flow of FLOWS.filter((f) => f.steps.length > 1 || f.scheduled || /^(emails\.send|contacts\.list|domains\.update|client\.get)$/.test(f.name)))
    for (const [from, to] of [
      ['production', 'development'],
      ['development', 'production'],
      [undefined, 'production'],
    ])
      await explore(ctx, {
        key: `switch ${from}→${to} ${flow.name}`,
        make() {
          const env = from === undefined ? {} : { NODE_ENV: from };
          const world = new World({
            env,
            scheduleRender: true,
            answers: (rec, n) => [
              { ...flow.scripted(rec, n), label: 'ok' },
              { label: '422', status: 422, json: { name: 'validation_error', message: 'bad', statusCode: 422 } },
              { label: '500', status: 500, text: 'oops', atomic: true },
              { label: 'reject', reject: new TypeError('fetch failed') },
            ],
          });
          return {
            world,
            programs: [
              { name: 'p', immediate: true, body: () => flow.call(world.client()) },
              {
                name: 'switch',
                body: async (api) => {
                  process.env.NODE_ENV = to;
                  void api;
                },
              },
            ],
            final(run) {
              const o = run.outcomes.p;
              expect(o && !('rejected' in o), 'the call rejected', o?.rejected);
              const failed = o.value.error;
              const last = world.requests.at(-1);
              const download = last && flow.steps[world.requests.length - 1] === 'download';
              if (!failed) return expectEqual(world.console.length, 0, 'a successful call wrote to the console');
              if (download) return;
              // the failure happens with the last environment step of the failed request
              const iSwitch = run.log.findIndex((l) => l.startsWith('start switch'));
              const iFail = run.log.findLastIndex((l) => /^(fetch|body)/.test(l));
              const setting = iSwitch < iFail ? to : from;
              if (setting === 'production') return expectEqual(world.console.map((l) => l.method), [], 'written to the console although NODE_ENV is production when the failure happens');
              checkReport(world.console, { path: last.path + last.search, error: failed, status: { 422: 422, 500: 500 }[last.answer] });
            },
          };
        },
      });
}
