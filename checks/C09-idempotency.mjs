// C09: the idempotency key goes on exactly the write it names.
import { expect, expectEqual, fail } from '../lib/ctx.mjs';
import { LENGTHS, STR, WORDS, word } from '../lib/alphabet.mjs';
import { Rig } from '../lib/harness.mjs';
import { FLOWS, FLOW } from '../lib/flows.mjs';
import { baseEmail, baseValues, emailFieldList, minimalValues } from '../lib/ops.mjs';
import { jsonResponse } from '../lib/world.mjs';

export const level = 'exploration';
export const shards = { quick: 2, thorough: 8 };
export const rule =
  'flow accepting an idempotency key × key value × header of the same name (absent, in 3 letter cases, in 3 forms) × other options × outcome of the write; followed by a call of every other kind on the same client; and every flow without a key; distinct by key';
export const bounds = 'key alphabet of 12 (including undefined, empty and absent) and keys of every length up to 300 and around round numbers beyond; every ordered pair (keyed call, following plain call)';
export const assumptions = ['keys are valid header values without surrounding blanks (HTTP itself strips those)'];

const KEYS = ['k', 'order-123/attempt:1', 'with inner space', '0', 'false', 'null', 'undefined', 'A'.repeat(256), 'é-latin', 'a,b;c="d"', '550e8400-e29b-41d4-a716-446655440000', 'idempotency-key', '\u00a0', '\u00a0k', 'Bearer k', '"k"', '"k', 'k"', "'k'", '`k`', '""', '"a" "b"', '<k>', '[k]', '{k}', '(k)', 'k;', ';k', 'k,', ',k', 'a, b', 'k=', '=k', 'W/"k"', 'k%20k', '%22k%22', '%', 'k+k', 'a\\b', '\\"k\\"', 'k:', ':k', '.k.', '-', '--', '_', 'UPPER', 'MiXed', 'lower', 'K', 'k k', 'k  k', 'k\tk', 'a@b.c', 'key_', 'idem_k', 'retry-1', 're_k', 'sha256=abc', 'YWJj==', '1e3', '00', '-1', '123456789012345678901234567890', '{"k":1}', '\u00df', '\u00ff', ...WORDS, ...STR.filter((x) => x && x === x.trim() && !/[^\t\x20-\x7e\xa0-\xff]/.test(x))];
const NONE = [['absent', {}], ['undefined', { idempotencyKey: undefined }], ['empty', { idempotencyKey: '' }]];
const HDRS = [
  ['none', undefined],
  ['record', { 'Idempotency-Key': 'from-header' }],
  ['lower record', { 'idempotency-key': 'from-header', 'X-Other': '1' }],
  ['upper pairs', [['IDEMPOTENCY-KEY', 'from-header'], ['x-b', '2']]],
  ['headers', () => new Headers({ 'Idempotency-Key': 'from-header' })],
  ['unrelated', { 'X-Other': '1' }],
];
const H = 'idempotency-key';

export async function run(ctx) {
  const rig = new Rig();
  const keyed = FLOWS.filter((f) => f.op?.request?.idem || f.forward || f.name === 'client.post' || /^(emails\.send|batch\.send)\(react\)$/.test(f.name));
  const writeOf = (flow, r) => {
    if (r.threw || 'rejected' in r || r.hung) fail('the call did not resolve', r.threw ?? r.rejected);
    expect(r.requests.length === flow.steps.length, 'wrong number of requests', r.requests.length);
    return r.requests.at(-1);
  };
  for (const flow of keyed) {
    for (const [hn, h] of HDRS)
      for (const status of [200, 409, 500]) {
        const hv = () => (typeof h === 'function' ? h() : h);
        const answer = (rec, n) => (n === flow.steps.length - 1 && status !== 200 ? jsonResponse(status, { name: 'x', message: 'm', statusCode: status }) : flow.answer(rec, n));
        for (const k of KEYS)
          await ctx.eval(`${flow.name} key=${k.slice(0, 40)} header ${hn} ${status}`, async () => {
            const r = await rig.raw((c) => flow.call(c, { idempotencyKey: k, ...(h ? { headers: hv() } : {}) }), answer);
            const w = writeOf(flow, r);
            expectEqual(w.method, 'POST', 'the write is not a POST');
            expectEqual(w.headers[H], new Headers({ k }).get('k'), 'the write does not carry the key');
            for (const q of r.requests.slice(0, -1)) expect(!(H in q.headers), 'another request of the call carries the key', q.path);
            if (hn === 'lower record' || hn === 'unrelated') expectEqual(w.headers['x-other'], '1', 'other headers lost');
            // nothing but the header carries it
            expect(k === 'idempotency-key' || !`${w.path}${w.search}`.includes(k) || k.length < 6, 'the key is in the URL', w.path);
          });
        for (const [nn, o] of NONE)
          await ctx.eval(`${flow.name} no key (${nn}) header ${hn} ${status}`, async () => {
            const r = await rig.raw((c) => flow.call(c, { ...o, ...(h ? { headers: hv() } : {}) }), answer);
            const w = writeOf(flow, r);
            const exp = h && hn !== 'unrelated' ? 'from-header' : undefined;
            expectEqual(w.headers[H], exp, 'wrong idempotency header without a key');
            for (const q of r.requests.slice(0, -1)) expect(!(H in q.headers), 'an earlier request carries the key', q.path);
          });
      }
    for (const n of new Set([...Array.from({ length: 300 }, (_, i) => i + 1), ...LENGTHS[ctx.tier].filter((x) => x > 0 && x < 20000)]))
      await ctx.eval(`${flow.name} key of length ${n}`, async () => {
        const r = await rig.raw((c) => flow.call(c, { idempotencyKey: word(n) }), flow.answer);
        expectEqual(writeOf(flow, r).headers[H], word(n), 'the write does not carry the key');
      });
    // whatever is sent with it
    const o = flow.op;
    if (o && o.body !== 'batch') {
      const base = baseValues(o);
      for (const f of o.fields)
        for (const [i, v] of [...(f.to === 'path' ? [] : f.type.more(f.name)), ...(typeof base[f.name] === 'string' && f.to === 'body' && !f.type.fixed ? ['now', 'key-1', 'true'] : [])].entries())
          for (const [bn, b] of [['full', base], ['minimal', minimalValues(o)]])
            await ctx.eval(`${flow.name} key with ${bn} ${f.name}#${i}`, async () => {
              const r = await rig.call(o, { ...b, [f.name]: v }, { request: { idempotencyKey: 'key-1' } });
              expect(r.requests.length === 1, 'not exactly one request');
              expectEqual(r.requests[0].headers[H], 'key-1', 'the write does not carry the key');
            });
      for (const f of o.fields.filter((x) => !x.req)) {
        await ctx.eval(`${flow.name} key without ${f.name}`, async () => {
          const { [f.name]: _, ...b } = base;
          const r = await rig.call(o, b, { request: { idempotencyKey: 'key-1' } });
          expectEqual(r.requests[0]?.headers[H], 'key-1', 'the write does not carry the key');
        });
        await ctx.eval(`${flow.name} key with only ${f.name}`, async () => {
          const r = await rig.call(o, { ...minimalValues(o), [f.name]: base[f.name] }, { request: { idempotencyKey: 'key-1' } });
          expectEqual(r.requests[0]?.headers[H], 'key-1', 'the write does not carry the key');
        });
      }
    }
    if (o?.body === 'batch')
      for (const n of [0, 1, 2, 3, 10, 100, 101])
        for (const f of emailFieldList)
          await ctx.eval(`${flow.name} key with ${n} mails with ${f.name}`, async () => {
            const r = await rig.call(o, {}, { emails: Array.from({ length: n }, (_, i) => ({ ...baseEmail(i), [f.name]: f.type.base(f.name) })), request: { idempotencyKey: 'key-1' } });
            expectEqual(r.requests[0]?.headers[H], 'key-1', 'the write does not carry the key');
          });
    // no later call of any kind repeats it - after success, failure or a lost connection
    for (const [on, first] of [
      ['ok', (rec, n) => flow.answer(rec, n)],
      ['503', () => jsonResponse(503, { name: 'x', message: 'm' })],
      ['lost', () => ({ reject: new TypeError('fetch failed') })],
    ])
      for (const next of FLOWS)
        await ctx.eval(`${flow.name} ${on} then ${next.name}`, async () => {
          const opts = { idempotencyKey: 'used-once', headers: { 'X-A': '1' } };
          await rig.raw((c) => flow.call(c, opts), first);
          const r = await rig.raw((c) => next.call(c), next.answer);
          writeOf(next, r);
          for (const q of r.requests) expect(!(H in q.headers), 'a later call carries the key', `${q.method} ${q.path}`);
          expectEqual(opts, { idempotencyKey: 'used-once', headers: { 'X-A': '1' } }, 'the options were modified');
        });
    // two keyed calls each carry their own
    for (const next of keyed)
      await ctx.eval(`${flow.name} then keyed ${next.name}`, async () => {
        await rig.raw((c) => flow.call(c, { idempotencyKey: 'first-key' }), flow.answer);
        const r = await rig.raw((c) => next.call(c, { idempotencyKey: 'second-key' }), next.answer);
        expectEqual(writeOf(next, r).headers[H], 'second-key', 'wrong key on the second call');
      });
  }
  // the low-level POST, whatever its path and entity; an import, whose request options may carry a key too
  const form = () => {
    const f = new FormData();
    f.append('a', '1');
    f.append('file', new Blob(['x']), 'x.csv');
    return f;
  };
  const ENTITIES = { none: () => undefined, null: () => null, object: () => ({ a: 1 }), empty: () => ({}), list: () => [1], 'empty list': () => [], text: () => 'x', 'empty text': () => '', number: () => 0, false: () => false, form, 'empty form': () => new FormData(), date: () => new Date(0), scheduled: () => ({ scheduled_at: 'in 1 min' }), 'with a key of its own': () => ({ idempotencyKey: 'other', idempotency_key: 'other' }) };
  for (const path of ['/raw', '/emails', '/emails/batch', '/contacts/imports', '/x/y/z', '/raw?a=1', '', '/idempotency'])
    for (const [en, entity] of Object.entries(ENTITIES))
      for (const [hn, h] of HDRS)
        for (const k of ['k', 'Another Key/1'])
          await ctx.eval(`client.post ${path} ${en} key ${k} header ${hn}`, async () => {
            const r = await rig.raw((c) => c.post(path, entity(), { idempotencyKey: k, ...(h ? { headers: typeof h === 'function' ? h() : h } : {}) }));
            expectEqual(r.requests.length, 1, 'not exactly one request');
            expectEqual(r.requests[0].headers[H], k, 'the write does not carry the key');
          });
  for (const k of KEYS)
    await ctx.eval(`contacts.imports.create key=${k.slice(0, 40)}`, async () => {
      const r = await rig.raw((c) => c.contacts.imports.create({ file: new Blob(['x']), onConflict: 'skip' }, { idempotencyKey: k }));
      expectEqual(r.requests.length, 1, 'not exactly one request');
      expectEqual(r.requests[0].headers[H], new Headers({ k }).get('k'), 'the write does not carry the key');
    });
  // given as a header, it goes with any request that takes headers
  for (const flow of FLOWS.filter((f) => f.op?.request || f.forward || f.rawVerb))
    for (const k of KEYS)
      for (const name of ['Idempotency-Key', 'idempotency-key', 'IDEMPOTENCY-KEY'])
        for (const [fn, form] of Object.entries({ record: (v) => ({ [name]: v }), pairs: (v) => [[name, v]], headers: (v) => new Headers([[name, v]]) }))
          await ctx.eval(`${flow.name} ${name} ${fn} ${k.slice(0, 40)}`, async () => {
            const r = await rig.raw((c) => flow.call(c, { headers: form(k) }), flow.answer);
            expectEqual(writeOf(flow, r).headers[H], new Headers({ k }).get('k'), 'the header is missing');
            for (const q of r.requests.slice(0, -1)) expect(!(H in q.headers), 'another request of the call carries the key', q.path);
          });
  for (const flow of FLOWS)
    await ctx.eval(`${flow.name} without options`, async () => {
      const r = await rig.raw((c) => flow.call(c), flow.answer);
      writeOf(flow, r);
      for (const q of r.requests) expect(!(H in q.headers), 'an idempotency key nobody gave', q.path);
    });
}
void FLOW;
