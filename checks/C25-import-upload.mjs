// C25: a contact import is one multipart request: the file, and exactly one part per supplied setting.
import { expect, expectEqual, fail } from '../lib/ctx.mjs';
import { COUNTS, HUGE, LENGTHS, text, wide } from '../lib/alphabet.mjs';
import { Rig, only, subsets } from '../lib/harness.mjs';
import { BASE } from '../lib/world.mjs';

export const level = 'exploration';
export const shards = { quick: 6, thorough: 8 };
export const rule =
  'file (contents × type × name, Blob or File) × every subset of settings × every value of each setting’s alphabet (every subset of column map fields) × setting pairs × request options; the form that reaches fetch, and the form a server parses from the serialised request, are compared with the reference; pairs of imports on one client; distinct by key';
export const bounds = (tier) => `13 files, and files, names, lists and maps of every size; column maps: all 32 field subsets × 4 value sets; ${tier === 'quick' ? 'setting pairs' : 'all setting combinations'}`;
export const assumptions = ['the caller does not override the content type of the upload'];

const bytes = (f) => Uint8Array.from({ length: 512 }, (_, i) => f(i));
const FILES = {
  csv: () => new Blob(['email,name\na@example.com,A\n'], { type: 'text/csv' }),
  untyped: () => new Blob(['email\n']),
  empty: () => new Blob([]),
  binary: () => new Blob([bytes((i) => i & 255)], { type: 'application/octet-stream' }),
  'not utf8': () => new Blob([new Uint8Array([0xff, 0xfe, 0x65, 0, 0xc3, 0x28, 0x0d, 0x0a, 0x0d])], { type: 'text/csv;charset=utf-16' }),
  crlf: () => new Blob(['a\r\nb\rc\n\r\n--boundary--\r\n'], { type: 'text/csv' }),
  large: () => new Blob([new Uint8Array(300_000).map((_, i) => i * 7)], { type: 'text/csv' }),
  parts: () => new Blob(['a', new Blob(['b']), new Uint8Array([99])], { type: 'text/plain' }),
  file: () => new File(['email\n'], 'contacts.csv', { type: 'text/csv' }),
  'file unicode': () => new File(['email\n'], 'контакты é日.csv', { type: 'text/csv' }),
  'file path': () => new File(['x'], '../etc/passwd', { type: '' }),
  'file spaces': () => new File(['x'], 'my list (1).csv', { type: 'application/vnd.ms-excel' }),
  'file empty': () => new File([], 'e.csv', { type: 'text/csv' }),
};
const MAP_SETS = [
  { email: 'E-mail', firstName: 'First', lastName: 'Last', unsubscribed: 'Unsub', properties: { camelKey: { column: 'Col', type: 'number' }, snake_key: { column: '' }, firstName: { column: 'x', type: 'string' } } },
  { email: '', firstName: '', lastName: '', unsubscribed: '', properties: {} },
  { email: 'é日"\\\r\n', firstName: 'null', lastName: 'lastName', unsubscribed: '0', properties: JSON.parse('{"__proto__":{"column":"p"},"last_name":{"column":"c","type":"boolean"}}') },
  // what a caller may name a property, and where a column may be
  {
    email: ' E ',
    unsubscribed: 'UPPER',
    properties: Object.fromEntries([' plan', 'plan', 'Plan', 'plan ', '', 'a b', 'a.b', 'a-b', '1', '0', 'é日', 'x'.repeat(300), 'properties', 'column', 'email', 'first_name', 'constructor', 'toString'].map((k, i) => [k, [{ column: ` ${k} ` }, { column: k, type: 'string' }, { column: String(i), type: 'number' }, { column: 'same', type: 'boolean' }][i % 4]])),
  },
];
const mapWire = (m) => {
  const w = {};
  for (const [k, v] of Object.entries(m)) if (v !== undefined) w[{ firstName: 'first_name', lastName: 'last_name' }[k] ?? k] = v;
  return JSON.parse(JSON.stringify(w));
};
const SETTINGS = {
  columnMap: { wire: 'column_map', values: [MAP_SETS[0], {}, MAP_SETS[2], MAP_SETS[3]], conv: mapWire },
  onConflict: { wire: 'on_conflict', values: ['upsert', 'skip'], raw: true },
  segments: { wire: 'segments', values: [[{ id: 's1' }, { id: 's2' }], [], [{ id: '' }, { id: 's1' }, { id: 's1' }]] },
  topics: { wire: 'topics', values: [[{ id: 't1', subscription: 'opt_in' }], [], [{ id: 't2', subscription: 'opt_out' }, { id: 't1', subscription: 'opt_in' }]] },
};
const OPTIONS = { none: undefined, empty: {}, headers: { headers: { 'X-T': 'v', 'x-other': 'w' } }, idem: { idempotencyKey: 'key-1' } };

export async function run(ctx) {
  const rig = new Rig();
  const check = async (payload, file, opt) => {
    const r = await rig.raw((c) => c.contacts.imports.create(payload, ...(opt === undefined ? [] : [opt])));
    const q = only(r);
    expectEqual([q.method, q.origin, q.path, q.search], ['POST', BASE, '/contacts/imports', ''], 'wrong target');
    expect(q.bodyKind === 'form', 'not a form', q.bodyKind);
    const type = q.headers['content-type'] ?? '';
    expect(/^multipart\/form-data;\s*boundary=/.test(type), 'not declared as multipart', type);
    for (const [k, v] of Object.entries(opt?.headers ?? {})) expectEqual(q.headers[k.toLowerCase()], v, 'a caller header is missing');
    const expected = ['file'];
    for (const [n, s] of Object.entries(SETTINGS)) if (payload[n] !== undefined) expected.push(s.wire);
    let parsed;
    try {
      parsed = [...(await q.req.formData()).entries()];
    } catch (e) {
      fail('the serialised request is not a multipart form a server can read', e);
    }
    const original = new Uint8Array(await file.arrayBuffer());
    for (const [how, form] of [
      ['form', q.form],
      ['parsed', parsed],
    ]) {
      expectEqual(form.map(([k]) => k).sort(), expected.sort(), `wrong parts (${how})`);
      for (const [k, v] of form) {
        if (k === 'file') {
          expect(typeof v === 'object' && v !== null && typeof v.arrayBuffer === 'function', 'the file part is not a file', v);
          const got = new Uint8Array(await v.arrayBuffer());
          expect(got.length === original.length && got.every((b, i) => b === original[i]), 'the file bytes changed', { got: got.length, want: original.length });
          if (how === 'form') {
            expectEqual(v.type, file.type, 'the file type changed');
            if (file instanceof File) expectEqual(v.name, file.name, 'the file name changed');
          } else if (file.type && !/;/.test(file.type)) expectEqual(v.type, file.type, 'the file type changed');
          continue;
        }
        const [n, s] = Object.entries(SETTINGS).find(([, x]) => x.wire === k);
        expect(typeof v === 'string', 'a setting is not a text part', { k });
        if (s.raw) {
          expectEqual(v, payload[n], `wrong ${k} (${how})`);
          continue;
        }
        let value;
        try {
          value = JSON.parse(v);
        } catch {
          fail(`${k} is not JSON`, v);
        }
        expectEqual(value, s.conv ? s.conv(payload[n]) : JSON.parse(JSON.stringify(payload[n])), `wrong ${k} (${how})`);
      }
    }
  };
  const names = Object.keys(SETTINGS);
  for (const [fn, mk] of Object.entries(FILES)) {
    for (const sub of subsets(names))
      for (const [on, opt] of Object.entries(OPTIONS))
        for (const undef of [false, true]) {
          if (undef && sub.length === names.length) continue;
          if (fn === 'large' && (on !== 'none' || undef)) continue;
          await ctx.eval(`file ${fn} with ${sub} ${on}${undef ? ' undefined' : ''}`, async () => {
            const file = mk();
            const p = undef ? Object.fromEntries(names.map((n) => [n, undefined])) : {};
            for (const n of sub) p[n] = SETTINGS[n].values[0];
            await check({ file, ...p }, file, opt);
          });
        }
  }
  // every combination of setting values
  const combos = (i, p, key) =>
    i === names.length
      ? [[key, p]]
      : [undefined, ...SETTINGS[names[i]].values.keys()].flatMap((v) => combos(i + 1, v === undefined ? p : { ...p, [names[i]]: SETTINGS[names[i]].values[v] }, `${key}${v ?? '-'}`));
  for (const [key, p] of combos(0, {}, ''))
    for (const order of [0, 1])
      for (const fn of ctx.quick ? ['csv'] : ['csv', 'file', 'empty'])
        await ctx.eval(`values ${key} order ${order} ${fn}`, async () => {
          const file = FILES[fn]();
          await check(order ? { ...Object.fromEntries(Object.entries(p).reverse()), file } : { file, ...p }, file);
        });
  // every subset of column map fields
  for (const [si, set] of MAP_SETS.entries())
    for (const sub of subsets(Object.keys(set)))
      for (const undef of [false, true])
        await ctx.eval(`map ${si} ${sub}${undef ? ' undefined' : ''}`, async () => {
          const file = FILES.csv();
          const m = undef ? Object.fromEntries(Object.keys(set).map((k) => [k, undefined])) : {};
          for (const k of sub) m[k] = set[k];
          await check({ file, columnMap: m }, file);
        });
  // every size: file, file name, lists, column map
  const sized = (n, type = 'text/csv') => [new Uint8Array(n).map((_, i) => i * 131 + (i >> 7)), { type }];
  for (const n of [...LENGTHS[ctx.tier], ...HUGE[ctx.tier]]) {
    for (const kind of ['blob', 'file'])
      await ctx.eval(`${kind} of ${n} bytes`, async () => {
        const [b, o] = sized(n);
        const f = kind === 'blob' ? new Blob([b], o) : new File([b], 'ünï contacts.csv', o);
        await check({ file: f, onConflict: 'skip', segments: [{ id: 's' }] }, f);
      });
    if (n <= 20000 && n)
      await ctx.eval(`file name of length ${n}`, async () => {
        const f = new File(['email\n'], `${'n'.repeat(n)}.csv`, { type: 'text/csv' });
        await check({ file: f }, f);
      });
    if (n <= 300_007)
      await ctx.eval(`columns and identifiers of length ${n}`, async () => {
        const f = FILES.csv();
        const s = text(n);
        await check({ file: f, columnMap: { email: s, firstName: s, properties: { [s]: { column: s, type: 'string' } } }, segments: [{ id: s }], topics: [{ id: s, subscription: 'opt_in' }] }, f);
      });
  }
  for (const n of COUNTS[ctx.tier]) {
    const ids = Array.from({ length: n }, (_, i) => ({ id: `x${n - i}` }));
    await ctx.eval(`${n} segments, topics and properties`, async () => {
      const f = FILES.csv();
      await check({ file: f, segments: ids, topics: ids.map((x, i) => ({ ...x, subscription: i % 2 ? 'opt_in' : 'opt_out' })), columnMap: { email: 'E', properties: Object.fromEntries(Object.keys(wide(n)).map((k) => [k, { column: k, type: 'string' }])) } }, f);
    });
    await ctx.eval(`${n} lines`, async () => {
      const f = new Blob(['email\n', ...ids.map((x) => `${x.id}@x.io\n`)], { type: 'text/csv' });
      await check({ file: f, topics: [] }, f);
    });
  }
  // imports do not influence each other
  const reps = [{}, { onConflict: 'skip' }, { columnMap: MAP_SETS[0], segments: [], topics: [] }, { columnMap: MAP_SETS[1], onConflict: 'upsert', segments: [{ id: 's' }], topics: [{ id: 't', subscription: 'opt_in' }] }];
  for (const [i, a] of reps.entries())
    for (const [j, b] of reps.entries())
      for (const sameFile of [true, false])
        await ctx.eval(`pair ${i} ${j} ${sameFile}`, async () => {
          const f = FILES.csv();
          const g = sameFile ? f : FILES.file();
          await check({ file: f, ...a }, f);
          await check({ file: g, ...b }, g);
        });
}
