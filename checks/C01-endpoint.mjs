// C01: one call -> exactly one request, documented verb, base URL, path, identifiers in position.
import { expect, expectEqual } from '../lib/ctx.mjs';
import { Rig, brief, checkTarget, only } from '../lib/harness.mjs';
import { OPS, buildArgs, baseValues, minimalValues, bind } from '../lib/ops.mjs';
import { BLANK_IDS, LENGTHS, ODD_IDS, ODD_MAILS, SPACED_IDS, WORDS, word } from '../lib/alphabet.mjs';
import { KEY, World, jsonBody, jsonResponse, settle } from '../lib/world.mjs';

export const level = 'exploration';
export const shards = { quick: 4, thorough: 8 };
export const rule =
  'operation × argument form (full, minimal, optional arguments dropped) × identifier values (all combinations over the identifier positions) × base URL; every case is one real SDK call; distinct by its key';
export const bounds = 'every operation; identifiers from a 14-value alphabet of path-safe texts in every position, all pairs of values for two-identifier operations, some 75 unusual identifiers and addresses, and of every length around powers of two and round numbers up to 17000; 9 base URLs';
export const assumptions = ['identifiers with reserved characters are C05', 'contact addressing precedence is C23'];

const IDS = [
  'a',
  '0',
  'id-1_2.3~x',
  '550e8400-e29b-41d4-a716-446655440000',
  'undefined',
  'null',
  'send',
  'metrics',
  'batch',
  'imports',
  'receiving',
  'list',
  'A'.repeat(300),
  'UPPERlower',
];
const EMAILS = ['u@example.com', 'first.last@sub.example.co', 'UPPER@EXAMPLE.COM', 'a_b-c@x.io'];
const BASES = [
  'https://api.test.invalid',
  'http://localhost:3000',
  'https://api.resend.com',
  'https://user-proxy.example.com:8443',
  'https://proxy.example.com/resend',
  'https://proxy.example.com/v1/resend/api',
  'http://127.0.0.1:9999/x',
  'http://[::1]:8080',
  'https://xn--bcher-kva.example',
];

export async function run(ctx) {
  const rig = new Rig();
  const rigs = {};
  for (const o of OPS) {
    const paths = o.fields.filter((f) => f.to === 'path');
    const forms = [
      ['full', baseValues(o), {}],
      ['minimal', minimalValues(o), {}],
      ['dropped', minimalValues(o), { dropOptional: true }],
      ['full+request', baseValues(o), { request: { headers: { 'X-A': '1' } } }],
    ];
    for (const [form, values, opt] of forms) {
      if (form === 'full+request' && !o.request) continue;
      const combos = paths.reduce(
        (acc, f) => acc.flatMap((v) => [...(f.isEmail ? EMAILS : IDS)].map((x) => ({ ...v, [f.name]: x }))),
        [{}],
      );
      for (const c of combos)
        await ctx.eval(`${o.name} ${form} ${JSON.stringify(c).slice(0, 120)}`, async () => {
          const v = { ...values, ...c };
          const r = await rig.call(o, v, opt);
          const q = only(r);
          checkTarget(o, v, q);
          if (o.body === 'none') expectEqual(jsonBody(q), undefined, 'an operation documented without payload sent a body');
          else expect(q.bodyKind !== 'none', 'the payload was not sent');
          expect('value' in r && r.value !== undefined, 'no result');
        });
    }
    // identifiers and addresses unlike the usual ones, in each position and in all of them at once
    const odd = [...ODD_IDS, ...ODD_MAILS, ...BLANK_IDS, ...SPACED_IDS];
    for (const id of paths.length ? odd : [])
      for (const f of [...paths, ...(paths.length > 1 ? [null] : [])])
        for (const [form, values] of [['minimal', minimalValues(o)], ['full', baseValues(o)]])
          await ctx.eval(`${o.name} ${f?.name ?? 'everywhere'} ${form} odd ${id}`, async () => {
            const v = { ...values, ...Object.fromEntries((f ? [f] : paths).map((x) => [x.name, id])) };
            checkTarget(o, v, only(await rig.call(o, v)));
          });
    // no value of any other argument leads elsewhere
    for (const f of o.fields.filter((x) => x.to !== 'path')) {
      const base = f.type.base(f.name);
      const values = [...f.type.more(f.name), ...f.type.deep(f.name), ...(typeof base === 'string' ? [...(f.type.fixed ? [] : WORDS), '', null] : Array.isArray(base) && typeof base[0] === 'string' && !f.type.fixed ? WORDS.map((w) => [w]) : [])];
      for (const [i, value] of values.entries())
        for (const [form, b] of [['minimal', minimalValues(o)], ['full', baseValues(o)]])
          await ctx.eval(`${o.name} ${form} ${f.name}#${i} ${brief(value)}`, async () => {
            const v = { ...b, [f.name]: value };
            checkTarget(o, v, only(await rig.call(o, v)));
          });
    }
    // identifiers of every size, with and without a path in the base URL
    for (const f of paths)
      for (const n of LENGTHS[ctx.tier].filter((x) => x > 0 && x <= 17000))
        for (const base of ['https://api.test.invalid', 'https://proxy.example.com/v1/resend/api'])
          await ctx.eval(`${o.name} ${f.name} of ${n} characters at ${base}`, async () => {
            const r = rigs[base] ?? (rigs[base] = new Rig({ key: KEY, opts: { baseUrl: base } }));
            const v = { ...minimalValues(o), [f.name]: f.isEmail ? `${word(n)}@example.com` : word(n) };
            const q = only(await r.call(o, v));
            const prefix = new URL(base).pathname.replace(/\/$/, '');
            expect(q.origin === new URL(base).origin && q.path.startsWith(`${prefix}/`), 'base URL lost', q);
            checkTarget(o, v, { ...q, origin: 'https://api.test.invalid', path: q.path.slice(prefix.length) });
          });
    // every base URL form, with the path appended
    for (const base of BASES)
      await ctx.eval(`${o.name} base ${base}`, async () => {
        const w = new World({ answer: () => jsonResponse(200, o.sample) });
        w.module = rig.world.module;
        w.enter();
        try {
          const c = w.client(KEY, { baseUrl: base });
          const v = minimalValues(o);
          const r = await settle(w, () => bind(c, o)(...buildArgs(o, v)));
          const q = only({ ...r, requests: w.requests });
          const u = new URL(base);
          expectEqual(q.origin, u.origin, 'request went to another host');
          const prefix = u.pathname === '/' ? '' : u.pathname;
          expect(q.path.startsWith(`${prefix}/`), 'base URL path lost', { path: q.path, base });
          checkTarget(o, v, { ...q, origin: 'https://api.test.invalid', path: q.path.slice(prefix.length) });
        } finally {
          w.leave();
        }
      });
  }
  // aliases are interchangeable: same wire, same result
  for (const [a, b] of [
    ['emails.send', 'emails.create'],
    ['batch.send', 'batch.create'],
    ['segments.create', 'audiences.create'],
    ['segments.list', 'audiences.list'],
    ['segments.get', 'audiences.get'],
    ['segments.remove', 'audiences.remove'],
  ]) {
    const [oa, ob] = [a, b].map((n) => OPS.find((o) => o.name === n));
    for (const reqOpt of [undefined, { headers: { 'X-T': 'v' }, idempotencyKey: 'k-1' }])
      for (const status of [200, 422])
        await ctx.eval(`alias ${a}=${b} ${reqOpt ? 'request' : ''} ${status}`, async () => {
          const wires = [];
          for (const o of [oa, ob]) {
            const r = await rig.call(o, baseValues(o), { request: o.request ? reqOpt : undefined, answer: () => jsonResponse(status, { id: 's', message: 'm' }) });
            const q = only(r);
            wires.push({ m: q.method, p: q.path, s: q.search, h: q.headers, b: jsonBody(q), v: r.value });
          }
          expectEqual(wires[0], wires[1], 'aliases differ');
        });
  }
}
