// C20: the API key travels only in the Authorization header of requests to the configured base URL.
import { inspect } from 'node:util';
import { expect, fail } from '../lib/ctx.mjs';
import { LENGTHS, word } from '../lib/alphabet.mjs';
import { Rig } from '../lib/harness.mjs';
import { FILES, FLOWS, RAW, received } from '../lib/flows.mjs';
import { OPS, baseValues } from '../lib/ops.mjs';
import { RESPONSE_HEADERS, outcomesFor } from '../lib/outcomes.mjs';
import { jsonResponse } from '../lib/world.mjs';

export const level = 'exploration';
export const shards = { quick: 4, thorough: 8 };
export const rule =
  'flow (every operation, forwarding, template chains, React variants, the five verbs) × step × outcome of that step × NODE_ENV × base URL form × caller options × one or two clients; every request, console argument, result and thrown value is searched for the key (plain, percent-encoded, base64, its distinctive tail); forwarding × adversarial download URLs; distinct by key';
export const bounds = (tier) => `one abnormal outcome per flow, at each step; ${tier === 'quick' ? 2 : 5} base URLs; 14 download URLs and every length of one; keys of every length`;
export const assumptions = ['a download URL on the API’s own host is outside the claim', 'the API does not send the key back'];

const SECRET = 'zQ7xK9vWb2';
const KEY = `re_live_${SECRET}`;
const OTHER = 're_live_other4Jt8Pm';
const forms = (k, tail) => [tail, Buffer.from(k).toString('base64').replace(/=+$/, ''), Buffer.from(`:${k}`).toString('base64').replace(/=+$/, ''), Buffer.from(`${k}:`).toString('base64').replace(/=+$/, ''), Buffer.from(k).toString('hex')].map((s) => s.toLowerCase());
const FORMS = forms(KEY, SECRET);
const has = (text) => {
  const t = String(text).toLowerCase();
  return FORMS.some((f) => t.includes(f));
};
const deep = (v) => {
  let s = inspect(v, { depth: 12, maxArrayLength: null, maxStringLength: null, getters: true, showHidden: true });
  // what inspect does not show: header lists, hidden and symbol-named properties of errors and results
  const seen = new Set();
  const walk = (x, d) => {
    if ((typeof x !== 'object' && typeof x !== 'function') || x === null || seen.has(x) || d > 8) return;
    seen.add(x);
    if (x instanceof Headers || x instanceof Map || x instanceof URLSearchParams) for (const [k, y] of x.entries()) s += `\n${k}: ${typeof y === 'string' ? y : ''}`;
    for (const k of Reflect.ownKeys(x)) {
      const y = Object.getOwnPropertyDescriptor(x, k)?.value;
      if (typeof y === 'string') s += `\n${y}`;
      else walk(y, d + 1);
    }
  };
  if (typeof v === 'object') walk(v, 0);
  try {
    s += JSON.stringify(v);
  } catch {}
  return s;
};

async function search(r, base) {
  for (const q of r.requests) {
    if (q.invalid) continue;
    const url = `${q.origin}${q.path}${q.search}`;
    expect(!has(url) && !has(safeDecode(url)), 'the key is in a URL', url);
    for (const [h, v] of Object.entries(q.headers)) {
      if (!has(v) && !has(h)) continue;
      expect(h === 'authorization', 'the key is in a header other than Authorization', { url, h });
      expect(url.startsWith(base), 'the key was sent to another place than the configured base URL', url);
    }
    if (!url.startsWith(base)) expect(q.headers.authorization === undefined, 'credentials were sent to another place than the configured base URL', url);
    let body = q.bodyKind === 'text' ? q.text : '';
    if (q.bodyKind === 'form') for (const [k, v] of q.form) body += `${k}\n${typeof v === 'string' ? v : `${v.name} ${v.type} ${await v.text()}`}\n`;
    if (q.bodyKind === 'bytes') body = await q.pendingText;
    expect(!has(body), 'the key is in a request body', url);
  }
  for (const l of r.console) expect(!l.args.some((a) => has(deep(a)) || has(a)), 'the key is on the console', l.method);
  if ('value' in r) expect(!has(deep(r.value)), 'the key is in a result', r.value);
  const e = r.rejected ?? r.threw;
  if (e !== undefined) expect(!has(deep(e)) && !has(e?.message) && !has(e?.stack), 'the key is in a thrown error', e);
}
const safeDecode = (u) => {
  try {
    return decodeURIComponent(u);
  } catch {
    return u;
  }
};

const BASES = ['https://api.test.invalid', 'https://proxy.test.invalid:8443/resend/v1', 'http://[::1]:3000', 'http://localhost:4010/', 'https://API.test.invalid/x'];
const canonical = (b) => {
  const u = new URL(b);
  return `${u.origin}${u.pathname === '/' ? '' : u.pathname}`;
};
const OPTIONS = [undefined, { idempotencyKey: 'idem-1' }, { headers: { 'X-Trace': 't', 'X-Request-Id': '1' } }, { headers: { Authorization: 'Bearer other', 'User-Agent': 'mine' } }];
const LEAKY = [
  { name: 'error mentions the headers', make: () => Object.assign(new TypeError(`request failed: authorization: Bearer ${KEY}`), { cause: new Error(`Bearer ${KEY}`), request: { headers: { authorization: `Bearer ${KEY}` } } }) },
];

export async function run(ctx) {
  const bases = ctx.quick ? BASES.slice(0, 2) : BASES;
  for (const base of bases) {
    const rig = new Rig({ key: KEY, opts: { baseUrl: base } });
    const second = new Rig({ key: OTHER, opts: { baseUrl: base } });
    for (const flow of FLOWS)
      for (let step = 0; step < flow.steps.length; step++)
        for (const o of outcomesFor(flow.steps[step])) {
          if (o.kind === 'ok' && step) continue;
          for (const NODE_ENV of ['production', 'development'])
            for (const [oi, opt] of OPTIONS.entries()) {
              if (oi && (ctx.quick ? o.kind !== 'ok' && o.name !== '422' : false)) continue;
              if (oi && !flow.op?.request && !flow.rawVerb && !flow.forward) continue;
              await ctx.eval(`${flow.name} step ${step} ${o.name} ${NODE_ENV} opt${oi} ${base}`, async () => {
                const act = (rec, n) => (n === step && o.act ? o.act() : flow.answer(rec, n));
                const r = await rig.raw((c) => flow.call(c, opt), act, { NODE_ENV });
                expect(r.requests.length >= 1 || r.rejected || r.threw, 'nothing was sent');
                await search(r, canonical(base));
                // another client must not see it either
                const s = await second.raw((c) => flow.call(c, opt), act, { NODE_ENV });
                for (const q of s.requests) for (const v of Object.values(q.headers ?? {})) expect(!has(v), 'another client’s key was used', q.path);
                await search(s, canonical(base));
              });
            }
        }
    // answers which ask for something
    if (base === bases[0])
      for (const flow of FLOWS)
        for (let step = 0; step < flow.steps.length; step++)
          for (const [label, headers] of RESPONSE_HEADERS)
            for (const status of [200, 302, 401])
              await ctx.eval(`${flow.name} step ${step} ${status} ${label}`, async () => {
                const r = await rig.raw((c) => flow.call(c), (rec, n) => (n === step ? new Response(status === 200 ? '{"id":"x"}' : '<html>', { status, headers }) : flow.answer(rec, n)), { NODE_ENV: 'development' });
                await search(r, canonical(base));
              });
    // failures whose own text carries the request
    for (const flow of FLOWS)
      for (let step = 0; step < flow.steps.length; step++)
        for (const l of LEAKY)
          for (const NODE_ENV of ['production', 'development'])
            await ctx.eval(`${flow.name} step ${step} ${l.name} ${NODE_ENV} ${base}`, async () => {
              const r = await rig.raw((c) => flow.call(c), (rec, n) => (n === step ? { reject: l.make() } : flow.answer(rec, n)), { NODE_ENV });
              await search(r, canonical(base));
            });
  }
  // identifiers and raw paths that look like addresses: still the API's host
  const LOOKALIKES = ['https://evil.example/x', 'http://evil.example', '//evil.example/x', '/evil.example', '@evil.example', '.evil.example', ':8443', '\\\\evil.example', 'x@evil.example:1', '../../evil.example', '%2F%2Fevil.example', '?u=https://evil.example', '#@evil.example'];
  for (const base of BASES) {
    const r2 = new Rig({ key: KEY, opts: { baseUrl: base } });
    for (const o of OPS)
      for (const id of LOOKALIKES)
        await ctx.eval(`${o.name} identifiers ${id} ${base}`, async () => {
          const values = { ...baseValues(o), ...Object.fromEntries(o.fields.filter((f) => f.to === 'path').map((f) => [f.name, id])) };
          const r = await r2.call(o, values, { emails: undefined });
          for (const q of r.requests) if (!q.invalid) expect(q.origin === new URL(base).origin, 'a request went to another host than the API', `${q.origin}${q.path}`);
          await search(r, new URL(base).origin);
        });
    for (const verb of ['get', 'post', 'put', 'patch', 'delete'])
      for (const path of LOOKALIKES.map((x) => (x.startsWith('/') ? x : `/${x}`)))
        await ctx.eval(`client.${verb} ${path} ${base}`, async () => {
          const r = await r2.raw((c) => c[verb](path, ...(verb === 'get' ? [] : [{ a: 1 }])));
          for (const q of r.requests) if (!q.invalid) expect(q.origin === new URL(base).origin, 'a request went to another host than the API', `${q.origin}${q.path}`);
          await search(r, new URL(base).origin);
        });
  }
  // keys of every length
  for (const n of LENGTHS[ctx.tier].filter((x) => x > 0 && x <= 16385)) {
    const long = new Rig({ key: `re_${word(n)}_${SECRET}`, opts: { baseUrl: BASES[0] } });
    for (const flow of FLOWS)
      for (const o of ['ok', '422', 'lost'])
        await ctx.eval(`${flow.name} ${o} with a key of length ${n}`, async () => {
          const r = await long.raw((c) => flow.call(c), (rec, i) => (o === 'ok' || i + 1 < flow.steps.length ? flow.answer(rec, i) : o === '422' ? jsonResponse(422, { name: 'validation_error', message: 'm', statusCode: 422 }) : { reject: new TypeError('fetch failed') }), { NODE_ENV: 'development' });
          await search(r, BASES[0]);
        });
  }
  // forwarding: where the message is downloaded from is the API's choice, and never gets the key
  const rig = new Rig({ key: KEY, opts: { baseUrl: BASES[0] } });
  const URLS = [
    `${FILES}/raw`,
    `${FILES}/raw?token=1&x=2#frag`,
    'https://api.test.invalid.evil.example/raw',
    'https://api.test.invalid@evil.example/raw',
    'http://evil.example/https://api.test.invalid/raw',
    'https://evil.example/?u=https://api.test.invalid/',
    'https://api.resend.com/raw',
    'https://inbound.resend.com/raw?sig=abc',
    'https://s3.amazonaws.com/resend/raw',
    'http://127.0.0.1:9/raw',
    'HTTPS://FILES.TEST.INVALID/RAW',
    'data:message/rfc822,hello',
    'not a url',
    '',
    ...LENGTHS[ctx.tier].filter((x) => x > 0 && (!ctx.quick || x % 4 === 0)).flatMap((n) => [`${FILES}/${word(n)}`, `https://api.test.invalid.${'x'.repeat(n % 50)}.evil.example/?sig=${word(n)}`]),
  ];
  for (const url of URLS)
    for (const passthrough of [undefined, true, false])
      for (const out of ['ok', '403', 'lost', 'redirect'])
        for (const NODE_ENV of ['production', 'development'])
          for (const [oi, opt] of OPTIONS.entries())
            await ctx.eval(`forward ${url} ${passthrough} ${out} ${NODE_ENV} opt${oi}`, async () => {
              const r = await rig.raw(
                (c) => c.emails.receiving.forward({ emailId: 'em_1', to: 'd@example.com', from: 'm@example.com', ...(passthrough === undefined ? {} : passthrough ? { passthrough } : { passthrough, text: 't' }) }, ...(opt ? [opt] : [])),
                (rec, n) => {
                  if (n === 0) return jsonResponse(200, received({ raw: { download_url: url, expires_at: 'x' } }));
                  if (rec.origin === BASES[0]) return jsonResponse(200, { id: 'sent' });
                  if (out === 'lost') return { reject: new TypeError(`fetch failed ${url}`) };
                  if (out === '403') return new Response('denied', { status: 403 });
                  if (out === 'redirect') return new Response('', { status: 302, headers: { location: 'https://evil.example/' } });
                  return new Response(RAW, { status: 200 });
                },
                { NODE_ENV },
              );
              if (r.hung) fail('the call never settled');
              await search(r, BASES[0]);
              const strangers = r.requests.filter((q) => !q.invalid && q.origin !== BASES[0]);
              for (const q of strangers) expect(q.method === 'GET' && q.bodyKind === 'none', 'something was sent to the download host', `${q.method} ${q.origin}`);
            });
}
