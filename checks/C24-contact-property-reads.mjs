// C24: contact properties read back with values, order and paging intact; errors and headers pass through.
import { expect, expectEqual, fail } from '../lib/ctx.mjs';
import { COUNTS, HUGE, LENGTHS, text } from '../lib/alphabet.mjs';
import { Rig, brief, only } from '../lib/harness.mjs';
import { OUTCOMES } from '../lib/outcomes.mjs';
import { jsonResponse } from '../lib/world.mjs';

export const level = 'exploration';
export const shards = { quick: 4, thorough: 8 };
export const rule =
  'get: every combination of field values; list: every list up to a length over an alphabet of properties × paging flag × query × headers; error answers; every pair of reads on one client; the result compared with the reference mapping of the answer; distinct by key';
export const bounds = (tier) => `lists of every size, values of every length; all lists up to length ${tier === 'quick' ? 3 : 4} over 9 properties; 12 fallback values × 5 keys × 3 ids × 3 times × 2 types`;
export const assumptions = ['successful answers have the documented shape (unknown extra fields of a property are outside the claim)'];

const FALLBACK = ['text', '', '0', 'null', 'é日😀\u2028', 'x'.repeat(3000), null, 0, -1.5, 1e21, 9007199254740991, false];
const KEYS = ['plan', 'camelCase', 'snake_key', '', '__proto__'];
const IDS = ['cp_1', 'a-b-c', ''];
const TIMES = ['2023-04-08T00:11:13.110779+00:00', '2023-04-08 00:11:13.11', ''];
const TYPES = ['string', 'number'];
const api = (id, key, created_at, type, fallback_value) => ({ id, key, object: 'contact_property', created_at, type, ...(fallback_value === undefined ? {} : { fallback_value }) });
const sdk = (p) => ({ id: p.id, key: p.key, createdAt: p.created_at, type: p.type, fallbackValue: p.fallback_value });
const strip = (o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined));
const H = [{}, { 'x-request-id': 'r1', 'ratelimit-remaining': '0', 'X-Mixed': 'V' }];

export async function run(ctx) {
  const rig = new Rig();
  const envelope = (r, headers) => {
    const q = only(r);
    const v = r.value;
    expect(v && typeof v === 'object', 'no envelope', v);
    const want = { 'content-type': 'application/json', ...Object.fromEntries(Object.entries(headers).map(([k, x]) => [k.toLowerCase(), x])) };
    expectEqual(v.headers, want, 'wrong response headers');
    return [q, v];
  };
  const okGet = (r, p, headers) => {
    const [, v] = envelope(r, headers);
    expectEqual(v.error, null, 'error on success');
    expectEqual(strip(v.data), strip({ object: 'contact_property', ...sdk(p) }), 'the property differs from what the API sent');
  };
  const okList = (r, list, more, headers, extra = {}) => {
    const [, v] = envelope(r, headers);
    expectEqual(v.error, null, 'error on success');
    expect(Array.isArray(v.data?.data), 'no list', v);
    expectEqual([v.data.object, v.data.has_more], ['list', more], 'wrong paging fields');
    expectEqual(v.data.data.length, list.length, 'wrong number of properties');
    for (const [i, p] of list.entries()) expectEqual(strip(v.data.data[i]), strip(sdk(p)), `property ${i} differs from what the API sent`);
    const rest = { ...v.data };
    delete rest.data;
    expectEqual(rest, { object: 'list', has_more: more, ...extra }, 'the list’s other fields differ from what the API sent');
  };
  const getAnswer = (p, headers) => () => jsonResponse(200, p, headers);
  const listAnswer = (l, more, headers, extra = {}) => () => jsonResponse(200, { object: 'list', has_more: more, ...extra, data: l }, headers);

  for (const id of IDS)
    for (const key of KEYS)
      for (const t of TIMES)
        for (const type of TYPES)
          for (const fb of [...FALLBACK, undefined])
            for (const [hi, h] of H.entries()) {
              const p = api(id, key, t, type, fb);
              await ctx.eval(`get ${id} ${key} ${t} ${type} ${typeof fb} ${brief(fb)} h${hi}`, async () => okGet(await rig.raw((c) => c.contactProperties.get('cp_x'), getAnswer(p, h)), p, h));
              if (!hi) await ctx.eval(`list one ${id} ${key} ${t} ${type} ${typeof fb} ${brief(fb)}`, async () => okList(await rig.raw((c) => c.contactProperties.list(), listAnswer([p], false, h)), [p], false, h));
            }
  const ALPHA = [
    api('a', 'plan', TIMES[0], 'string', 'free'),
    api('b', 'plan', TIMES[0], 'string', ''),
    api('a', 'seats', TIMES[1], 'number', 0),
    api('c', 'n', '', 'number', null),
    api('d', 's', TIMES[0], 'string', null),
    api('e', 'toString', TIMES[0], 'string', 'false'),
    api('f', 'length', TIMES[0], 'number', -1),
    api('g', 'map', TIMES[0], 'string', 'x'),
    api('z', '', TIMES[0], 'number', 1e21),
  ];
  const max = ctx.quick ? 3 : 4;
  const OPTS = [undefined, {}, { limit: 2 }, { limit: 1, after: 'x' }];
  const walk = async (l, name) => {
    for (const more of [true, false])
      for (const [oi, o] of OPTS.entries()) {
        if (l.length > 2 && oi) continue;
        await ctx.eval(`list [${name}] more ${more} opt${oi}`, async () => okList(await rig.raw((c) => c.contactProperties.list(...(o ? [o] : [])), listAnswer(l, more, H[1])), l, more, H[1]));
      }
    if (l.length < max) for (const [i, p] of ALPHA.entries()) await walk([...l, p], `${name}${i}`);
  };
  await walk([], '');
  for (const [i, extra] of [{ total: 0 }, { next_cursor: null, previous: '' }, { url: '/x', error: null, headers: { a: 1 }, total: 3 }].entries())
    for (const l of [[], [ALPHA[0]], ALPHA])
      for (const more of [true, false]) await ctx.eval(`list of ${l.length} more ${more} with further fields #${i}`, async () => okList(await rig.raw((c) => c.contactProperties.list(), listAnswer(l, more, {}, extra)), l, more, {}, extra));
  for (const n of COUNTS[ctx.tier].filter((x) => x <= 6000))
    for (const more of [true, false])
      await ctx.eval(`list of ${n} properties more ${more}`, async () => {
        const l = Array.from({ length: n }, (_, i) => api(`p${n - i}`, `k${i % 97}`, TIMES[i % 2], i % 2 ? 'number' : 'string', i % 5 ? `v${i}` : null));
        okList(await rig.raw((c) => c.contactProperties.list(more ? { limit: n } : undefined), listAnswer(l, more, {})), l, more, {});
      });
  for (const n of [...LENGTHS[ctx.tier], ...HUGE[ctx.tier]])
    for (const [fn, p] of Object.entries({ id: api(text(n), 'k', TIMES[0], 'string', 'v'), key: api('i', text(n), TIMES[0], 'string', 'v'), 'fallback value': api('i', 'k', TIMES[0], 'string', text(n)) })) {
      await ctx.eval(`get ${fn} of length ${n}`, async () => okGet(await rig.raw((c) => c.contactProperties.get('cp_x'), getAnswer(p, {})), p, {}));
      await ctx.eval(`list ${fn} of length ${n}`, async () => okList(await rig.raw((c) => c.contactProperties.list(), listAnswer([ALPHA[0], p], true, {})), [ALPHA[0], p], true, {}));
    }
  const big = Array.from({ length: 100 }, (_, i) => api(`p${99 - i}`, `k${i}`, TIMES[i % 2], i % 2 ? 'number' : 'string', i % 2 ? i : `v${i}`));
  await ctx.eval('list of 100', async () => okList(await rig.raw((c) => c.contactProperties.list({ limit: 100 }), listAnswer(big, true, {})), big, true, {}));

  // errors pass through as for any other operation
  for (const [n, invoke] of Object.entries({ get: (c) => c.contactProperties.get('cp'), list: (c) => c.contactProperties.list() }))
    for (const o of OUTCOMES.filter((x) => x.kind !== 'ok'))
      await ctx.eval(`${n} ${o.name}`, async () => {
        const other = (c) => c.domains.get('d');
        const r = await rig.raw(invoke, o.act);
        if (r.threw || r.rejected) fail('the call rejected', r.threw ?? r.rejected);
        const v = r.value;
        expectEqual(v.data, null, 'data on failure');
        if (o.kind === 'api') expectEqual(v.error, o.error, 'the API’s error was changed');
        const ref = await rig.raw(other, o.act);
        expectEqual(v, ref.value, 'a failed read answers differently from other operations');
      });

  // reads do not influence each other
  const reads = [];
  for (const p of ALPHA) reads.push([`get ${p.id}${p.key}`, (c) => c.contactProperties.get('x'), getAnswer(p, {}), (r) => okGet(r, p, {})]);
  for (const l of [[], [ALPHA[0]], [ALPHA[2], ALPHA[3]], ALPHA]) reads.push([`list ${l.length}`, (c) => c.contactProperties.list(), listAnswer(l, !!l.length, {}), (r) => okList(r, l, !!l.length, {})]);
  for (const a of reads)
    for (const b of reads)
      await ctx.eval(`${a[0]} then ${b[0]}`, async () => {
        for (const x of [a, b]) x[3](await rig.raw(x[1], x[2]));
      });
}
