// C08: client identity on every API request; per-request headers win, for that call only.
import { expect, expectEqual, fail } from '../lib/ctx.mjs';
import { Rig } from '../lib/harness.mjs';
import { COUNTS, HUGE, LENGTHS, STR, text, word } from '../lib/alphabet.mjs';
import { baseValues } from '../lib/ops.mjs';
import { FLOW, FLOWS } from '../lib/flows.mjs';
import { outcomesFor } from '../lib/outcomes.mjs';
import { BASE, KEY } from '../lib/world.mjs';

export const level = 'exploration';
export const shards = { quick: 4, thorough: 8 };
export const rule =
  'flow accepting request options × header set (all subsets of up to 3 of an 11-header pool: new names, defaults in several letter cases, empty values, repeated pairs) × header form (record, Headers, pair list) × companion options; each case is followed by the same call without options on the same client; plus every flow without options; distinct by key';
export const bounds = (tier) => `header subsets of size ≤ ${tier === 'quick' ? 2 : 3}; 3 forms; clients with 4 key/user-agent settings; header lists, header values and payloads of every size`;
export const assumptions = ['header values are valid for HTTP'];

const POOL = [
  ['X-Custom', 'one'],
  ['x-lower', ''],
  ['X-SPACED', '  padded value  '],
  ['Authorization', 'Bearer other_key'],
  ['AUTHORIZATION', 'Basic abc'],
  ['user-agent', 'caller-agent/2'],
  ['User-Agent', 'Caller'],
  ['content-type', 'application/json; charset=utf-8'],
  ['CONTENT-TYPE', 'application/vnd.custom+json'],
  ['X-Batch-Trace', 'a, b'],
  ['Accept-Language', 'é-latin1'],
];
const FORMS = {
  record: (l) => Object.fromEntries(l),
  headers: (l) => new Headers(l),
  pairs: (l) => l.map((p) => [...p]),
};
function* upTo(list, n, from = 0, acc = []) {
  if (acc.length) yield acc;
  if (acc.length === n) return;
  for (let i = from; i < list.length; i++) yield* upTo(list, n, i + 1, [...acc, list[i]]);
}

export async function run(ctx) {
  const clients = [
    ['default', [KEY, { baseUrl: BASE, userAgent: 'Verif-Agent/1.0 (Mixed; CASE)' }]],
    ['odd agent', ['re_OTHER', { baseUrl: BASE, userAgent: 'my app (v 2.0; +https://x.io)' }]],
    ['spaced', ['re_key with space', { baseUrl: BASE, userAgent: 'a' }]],
  ];
  const rigs = new Map(clients.map(([n, [key, opts]]) => [n, [new Rig({ key, opts }), key, opts.userAgent]]));
  const odd = new Map();
  const isUpload = (f) => f.op?.body === 'form';
  const want = (flow, key, ua) => ({ authorization: `Bearer ${key}`, 'user-agent': ua, ...(isUpload(flow) ? {} : { 'content-type': 'application/json' }) });
  const api = (flow, r) => {
    if (r.threw || 'rejected' in r || r.hung) fail('the call did not resolve', r.threw ?? r.rejected);
    const list = r.requests.filter((_, i) => flow.steps[i] !== 'download');
    expect(r.requests.length === flow.steps.length, 'wrong number of requests', r.requests.length);
    return list;
  };
  const contains = (q, exp, msg) => {
    for (const [k, v] of Object.entries(exp)) expect(q.headers[k] === v, msg, { header: k, actual: q.headers[k], expected: v, path: q.path });
  };
  const uploadOk = (flow, q) => isUpload(flow) && expect(/^multipart\/form-data;\s*boundary=/.test(q.headers['content-type'] ?? ''), 'an upload must be multipart', q.headers);

  for (const flow of FLOWS)
    for (const [cn, [rig, key, ua]] of rigs)
      await ctx.eval(`${flow.name} plain client ${cn}`, async () => {
        const r = await rig.raw((c) => flow.call(c), flow.answer);
        for (const q of api(flow, r)) {
          contains(q, want(flow, key, ua), 'client identity missing');
          expectEqual(q.origin, BASE, 'API request to another host');
          uploadOk(flow, q);
        }
      });

  // whatever becomes of a request, and whatever the environment says by then, every request of this call and of the
  // next ones bears the client's own identity
  for (const flow of FLOWS)
    for (let step = 0; step < flow.steps.length; step++)
      for (const out of outcomesFor(flow.steps[step]))
        for (const [en, env] of [
          ['none', undefined],
          ['other', { NODE_ENV: 'production', RESEND_API_KEY: 're_env', RESEND_BASE_URL: 'https://env.test.invalid', RESEND_USER_AGENT: 'env/1' }],
          ['other in development', { NODE_ENV: 'development', RESEND_API_KEY: 're_env', RESEND_USER_AGENT: 'env/1' }],
        ])
          for (const [cn, [rig, key, ua]] of rigs)
            await ctx.eval(`${flow.name} ${out.name}@${step} client ${cn} environment ${en}`, async () => {
              const opts = flow.op?.request || flow.forward ? { headers: { 'X-Own': 'mine' } } : undefined;
              for (const next of [flow, flow, FLOW['emails.get'], FLOW['emails.send']]) {
                const first = next === flow;
                const r = await rig.raw((c) => next.call(c, first ? opts : undefined), (rec, n) => (first && n === step && out.act ? out.act() : next.answer(rec, n % next.steps.length)), env);
                for (const q of r.requests.filter((_, i) => next.steps[i] !== 'download')) {
                  if (q.invalid) fail('a request could not be formed', q.invalid);
                  contains(q, want(next, key, ua), 'client identity missing or replaced');
                  expectEqual(q.origin, BASE, 'API request to another host');
                  if (!first) expect(q.headers['x-own'] === undefined, 'a header of one call was sent with another');
                }
              }
            });
  // the key and the agent are sent as they are, whatever they look like
  const headerSafe = [...STR.filter((x) => x && !/[^\t\x20-\x7e\x80-\xff]/.test(x)), '\u00a0', 'Bearer re_1', 'bearer re_1', 'BEARER', 'Basic dXNlcjpw', 're_a,re_b', '"re_quoted"', 'RE_UPPER', 're_', 'a\u0085b', 'x y z', 'resend-node:1', 'my resend-node:1', 'resend-node/1', 'resend-node', 'resend', 'Mozilla/5.0 (X11; Linux x86_64)', 'node', 'undici', 'curl/8', 're_test', 're_live_x', 're_xxxxxxxxx', 're_123456789', 'sk_live', 'key_1', 'whsec_1', 'a:b', 'a;b', '<re_1>', 're_1\u00ff', 'test', 'YOUR_API_KEY'];
  for (const flow of FLOWS)
    for (const [what, mk] of [['key', (v) => [v, 'Verif-Agent/1.0 (Mixed; CASE)']], ['agent', (v) => [KEY, v]]])
      for (const v of headerSafe)
        await ctx.eval(`${flow.name} plain, ${what} ${JSON.stringify(v).slice(0, 50)}`, async () => {
          const [k, u] = mk(v);
          const id = `${k}\u0001${u}`;
          if (!odd.has(id)) odd.set(id, new Rig({ key: k, opts: { baseUrl: BASE, userAgent: u } }));
          const sent = new Headers(want(flow, k, u));
          for (const q of api(flow, await odd.get(id).raw((c) => flow.call(c), flow.answer))) contains(q, Object.fromEntries(sent.entries()), 'client identity missing');
        });
  // a header given for one call is sent as it is, whatever its name or value
  const NAMES = ['Idempotency-Key', 'Accept', 'Accept-Encoding', 'Cache-Control', 'If-None-Match', 'X-Request-Id', 'traceparent', 'Cookie', 'Origin', 'Referer', 'X-Forwarded-For', 'X-Batch-Validation', 'x-batch-validations', 'Prefer', 'Range', 'X-HTTP-Method-Override', 'Resend-Version', 'X-Api-Key', 'X-Resend-Debug', '__proto__', 'constructor', 'Content-MD5', 'Date', 'From', 'Via', 'Warning'];
  const plainRig = rigs.get('default')[0];
  for (const flow of FLOWS.filter((f) => f.op?.request || f.rawVerb || f.forward))
    for (const [fname, form] of Object.entries(FORMS)) {
      for (const n of NAMES)
        await ctx.eval(`${flow.name} ${fname} header ${n}`, async () => {
          if (fname === 'record' && n === '__proto__') return false;
          const q = api(flow, await plainRig.raw((c) => flow.call(c, { headers: form([[n, 'given v/1; q=0.5']]) }), flow.answer)).at(-1);
          contains(q, { [n.toLowerCase()]: 'given v/1; q=0.5' }, 'a header of this call is missing or wrong');
        });
      for (const v of headerSafe)
        for (const n of ['X-Custom', 'Authorization', 'User-Agent'])
          await ctx.eval(`${flow.name} ${fname} ${n}: ${JSON.stringify(v).slice(0, 50)}`, async () => {
            const q = api(flow, await plainRig.raw((c) => flow.call(c, { headers: form([[n, v]]) }), flow.answer)).at(-1);
            contains(q, { [n.toLowerCase()]: new Headers([[n, v]]).get(n) }, 'a header of this call is missing or wrong');
          });
    }
  const [rig, key, ua] = rigs.get('default');
  const accepts = FLOWS.filter((f) => f.op?.request || f.rawVerb || f.forward || /^(emails\.send|batch\.send|broadcasts\.create)\(react\)$/.test(f.name));
  for (const flow of accepts) {
    // what this call sends without options, on this client, before anything else
    const baseline = api(flow, await rig.raw((c) => flow.call(c), flow.answer)).map((q) => ({ ...q.headers }));
    if (isUpload(flow)) for (const b of baseline) delete b['content-type'];
    const sets = [...upTo(POOL, ctx.quick ? 2 : 3)];
    for (const [i, set] of sets.entries())
      for (const [fname, form] of Object.entries(FORMS)) {
        const names = set.map(([n]) => n);
        if (fname === 'record' && new Set(names).size !== names.length) continue;
        const ck = `${flow.name} ${fname} {${names.join(',')}}`;
        if (!ctx.want(ck)) continue;
        const typed = names.some((n) => /content-type/i.test(n));
        await ctx.eval(ck, async () => {
          const extra = Object.fromEntries(new Headers(set).entries());
          const request = { headers: form(set), ...(i % 3 === 1 ? { query: undefined } : {}) };
          const r = await rig.raw((c) => flow.call(c, request), flow.answer);
          const list = api(flow, r);
          const last = list.at(-1);
          contains(last, { ...want(flow, key, ua), ...extra }, 'a header of this call is missing or wrong');
          if (!typed) uploadOk(flow, last);
          for (const q of list.slice(0, -1)) contains(q, want(flow, key, ua), 'client identity missing on an earlier step');
          // and it does not stick
          const again = api(flow, await rig.raw((c) => flow.call(c), flow.answer)).map((q) => ({ ...q.headers }));
          if (isUpload(flow)) for (const b of again) delete b['content-type'];
          expectEqual(again, baseline, 'headers of one call stayed on the client');
        }, () => set);
      }
  }
  // header lists, headers and payloads of every size
  for (const flow of accepts) {
    const check = async (request, extra, call = (c) => flow.call(c, request)) => {
      const list = api(flow, await rig.raw(call, flow.answer));
      contains(list.at(-1), { ...want(flow, key, ua), ...extra }, 'a header of this call is missing or wrong');
      for (const q of list.slice(0, -1)) contains(q, want(flow, key, ua), 'client identity missing on an earlier step');
    };
    for (const n of COUNTS[ctx.tier].filter((x) => x <= 600)) {
      const l = Array.from({ length: n }, (_, i) => [`X-H${n - i}`, `v${i}`]);
      for (const [fname, form] of Object.entries(FORMS)) await ctx.eval(`${flow.name} ${fname} of ${n} headers`, () => check({ headers: form(l) }, Object.fromEntries(l.map(([k, v]) => [k.toLowerCase(), v]))));
    }
    for (const n of LENGTHS[ctx.tier].filter((x) => x > 0 && x < 20000)) await ctx.eval(`${flow.name} header of length ${n}`, () => check({ headers: { 'X-Long': word(n), [`X-${word(Math.min(n, 200))}`]: 'v' } }, { 'x-long': word(n), [`x-${word(Math.min(n, 200)).toLowerCase()}`]: 'v' }));
    const f = flow.op?.fields.find((x) => x.to === 'body' && !x.type.fixed && typeof x.type.base(x.name) === 'string');
    for (const n of [...LENGTHS[ctx.tier], ...HUGE[ctx.tier]]) {
      if (f) await ctx.eval(`${flow.name} payload of length ${n}`, async () => contains(api(flow, await rig.call(flow.op, { ...baseValues(flow.op), [f.name]: text(n) }))[0], want(flow, key, ua), 'client identity missing on a large payload'));
      if (flow.rawVerb) await ctx.eval(`${flow.name} payload of length ${n}`, () => check(undefined, {}, (c) => c[flow.rawVerb]('/raw', ...(flow.rawVerb === 'get' ? [] : [{ a: text(n) }]))));
    }
  }
  // headers given for one call never reach another kind of call
  for (const a of accepts)
    for (const b of [FLOWS.find((f) => f.name === 'emails.get'), FLOWS.find((f) => f.name === 'batch.send'), FLOWS.find((f) => f.name === 'client.get')])
      await ctx.eval(`after ${a.name} with headers: ${b.name}`, async () => {
        const fresh = new Rig();
        const baseline = api(b, await fresh.raw((c) => b.call(c), b.answer)).map((q) => q.headers);
        const r2 = new Rig();
        await r2.raw((c) => a.call(c, { headers: { Authorization: 'Bearer leak', 'X-Leak': '1', 'user-agent': 'leak' } }), a.answer);
        const after = api(b, await r2.raw((c) => b.call(c), b.answer)).map((q) => q.headers);
        expectEqual(after, baseline, 'headers of another call leaked');
      });
}
