// C22: a missing identifier is refused locally and consistently; a present one always sends.
import { expect, expectEqual, fail } from '../lib/ctx.mjs';
import { BLANK_IDS, LENGTHS, ODD_IDS, ODD_MAILS, SPACED_IDS, WORDS, word } from '../lib/alphabet.mjs';
import { Rig, scramble } from '../lib/harness.mjs';

export const level = 'exploration';
export const shards = { quick: 2, thorough: 4 };
export const rule =
  'validating operation × every combination of (absent, undefined, null, empty, ordinary, look-alike) for each of its identifiers × audience/segment present or not × other options present or not × NODE_ENV; legacy creation × every combination of audience, segments, topics (absent, undefined, empty, filled) × other fields; all pairs of such calls on one client; distinct by key';
export const bounds = '6 values per identifier, and identifiers of every length; pairs of calls';
export const assumptions = ['the options object itself is given (only its identifiers may be missing)', 'null for segments/topics/audience of a creation is outside the types and not exercised'];

const ABSENT = Symbol('absent');
const VALUES = { absent: ABSENT, undefined: undefined, null: null, empty: '', id: 'id_1', falsy: '0', word: 'undefined' };
const present = (v) => typeof v === 'string' && v !== '';
const make = (o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== ABSENT));

const pair = (name, idField, invoke, others) => ({ name, idField, invoke, others });
const PAIRS = [
  pair('contacts.get', 'id', (c, o) => c.contacts.get(o), { audienceId: 'aud_1' }),
  pair('contacts.update', 'id', (c, o) => c.contacts.update(o), { audienceId: 'aud_1', firstName: 'F', unsubscribed: false, properties: { a: 1 } }),
  pair('contacts.remove', 'id', (c, o) => c.contacts.remove(o), { audienceId: 'aud_1' }),
  pair('contacts.topics.list', 'id', (c, o) => c.contacts.topics.list(o), { limit: 5, after: 'x' }),
  pair('contacts.topics.update', 'id', (c, o) => c.contacts.topics.update({ topics: [{ id: 't', subscription: 'opt_in' }], ...o }), { topics: [] }),
  pair('contacts.segments.list', 'contactId', (c, o) => c.contacts.segments.list(o), { limit: 5, before: 'x' }),
  pair('contacts.segments.add', 'contactId', (c, o) => c.contacts.segments.add({ segmentId: 'seg_1', ...o }), { segmentId: 'seg_2' }),
  pair('contacts.segments.remove', 'contactId', (c, o) => c.contacts.segments.remove({ segmentId: 'seg_1', ...o }), { segmentId: 'seg_2' }),
];
const SINGLE = {
  'contactProperties.get': (c, id) => c.contactProperties.get(id),
  'contactProperties.remove': (c, id) => c.contactProperties.remove(id),
  'topics.get': (c, id) => c.topics.get(id),
  'topics.remove': (c, id) => c.topics.remove(id),
  'suppressions.get': (c, id) => c.suppressions.get(id),
  'suppressions.remove': (c, id) => c.suppressions.remove(id),
};
const STRING = { 'contacts.get': (c, id) => c.contacts.get(id), 'contacts.remove': (c, id) => c.contacts.remove(id) };
const OBJECT = {
  'contactProperties.update': [(c, o) => c.contactProperties.update(o), { fallbackValue: 'x', key: 'k', type: 'string' }],
  'topics.update': [(c, o) => c.topics.update(o), { name: 'n', description: 'd' }],
};

export async function run(ctx) {
  const rig = new Rig();
  const check = async (invoke, sends, name, env) => {
    const r = await rig.raw(invoke, undefined, env);
    verdict(r, sends, name);
  };
  const verdict = (r, sends, name) => {
    if (r.threw || r.rejected) fail('the call did not answer with a result', r.threw ?? r.rejected);
    if (r.hung) fail('the call never settled');
    if (sends) {
      expectEqual(r.requests.length, 1, 'a call with its identifier present was not sent');
      expect(r.value?.error === null && r.value.data, 'a call with its identifier present failed', r.value);
      return;
    }
    expectEqual(r.requests.length, 0, 'a refused call was sent');
    refused(r.value, name);
  };
  const refused = (v, name) => {
    expect(v && typeof v === 'object', 'the refusal is not an envelope', v);
    expectEqual(Object.keys(v).sort(), ['data', 'error', 'headers'], 'wrong envelope keys');
    expectEqual([v.data, v.headers, v.error?.name], [null, null, name], 'wrong refusal');
    expect(typeof v.error.message === 'string' && v.error.message !== '', 'the refusal has no message', v.error);
  };
  const ENVS = [{ NODE_ENV: 'production' }, { NODE_ENV: 'development' }];
  const cases = []; // [key, invoke, sends, error name]
  const add = (...c) => cases.push(c);

  for (const p of PAIRS)
    for (const [idn, id] of Object.entries(VALUES))
      for (const [en, e] of Object.entries(VALUES)) {
        const names = Object.keys(p.others);
        for (let m = 0; m < 1 << names.length; m++) {
          const others = Object.fromEntries(names.filter((_, i) => m & (1 << i)).map((n) => [n, p.others[n]]));
          for (const order of [0, 1]) {
            const email = present(e) && e === 'id_1' ? 'user@example.com' : e;
            const o = () => make(order ? { ...others, email, [p.idField]: id } : { [p.idField]: id, email, ...others });
            add(`${p.name} id ${idn} email ${en} others ${m} order ${order}`, (c) => p.invoke(c, o()), present(id) || present(e), 'missing_required_field');
          }
        }
      }
  for (const [n, f] of Object.entries(SINGLE)) for (const [vn, v] of Object.entries(VALUES)) add(`${n} ${vn}`, (c) => (v === ABSENT ? f(c) : f(c, v)), present(v), 'missing_required_field');
  for (const [n, f] of Object.entries(STRING)) for (const v of ['', 'id_1', '0', 'undefined']) add(`${n} string '${v}'`, (c) => f(c, v), present(v), 'missing_required_field');
  for (const [n, [f, others]] of Object.entries(OBJECT)) {
    const names = Object.keys(others);
    for (const [vn, v] of Object.entries(VALUES))
      for (let m = 0; m < 1 << names.length; m++) {
        const extra = Object.fromEntries(names.filter((_, i) => m & (1 << i)).map((k) => [k, others[k]]));
        add(`${n} ${vn} others ${m}`, (c) => f(c, make({ id: v, ...extra })), present(v), 'missing_required_field');
      }
  }
  // creation in an audience cannot be combined with segments or topics
  const LISTS = { absent: ABSENT, undefined: undefined, empty: [], filled: [{ id: 'x', subscription: 'opt_in' }] };
  for (const [an, a] of Object.entries({ absent: ABSENT, undefined: undefined, id: 'aud_1' }))
    for (const [sn, s] of Object.entries(LISTS))
      for (const [tn, t] of Object.entries(LISTS))
        for (const others of [{}, { firstName: 'F', lastName: '', unsubscribed: true, properties: {} }])
          for (const opt of [undefined, { idempotencyKey: 'k' }])
            for (const order of [0, 1]) {
              const list = { segments: s, topics: t };
              const o = () => make(order ? { ...list, email: 'e@example.com', ...others, audienceId: a } : { audienceId: a, email: 'e@example.com', ...others, ...list });
              const legacy = a === 'aud_1';
              const both = legacy && (Array.isArray(s) || Array.isArray(t));
              add(`contacts.create audience ${an} segments ${sn} topics ${tn} ${Object.keys(others).length} ${opt ? 'opt' : ''} ${order}`, (c) => c.contacts.create(o(), ...(opt ? [opt] : [])), !both, 'invalid_parameter');
            }

  // identifiers of every size are present
  for (const n of LENGTHS[ctx.tier].filter((x) => x > 0)) {
    const id = word(n);
    for (const p of PAIRS) {
      add(`${p.name} id of length ${n}`, (c) => p.invoke(c, { [p.idField]: id }), true);
      add(`${p.name} email of length ${n}`, (c) => p.invoke(c, { email: `${id}@example.com` }), true);
    }
    for (const [m, f] of Object.entries({ ...SINGLE, ...STRING })) add(`${m} id of length ${n}`, (c) => f(c, id), true);
    for (const [m, [f]] of Object.entries(OBJECT)) add(`${m} id of length ${n}`, (c) => f(c, { id }), true);
  }
  // so are identifiers unlike the usual ones
  for (const id of new Set([...ODD_IDS, ...ODD_MAILS, ...BLANK_IDS, ...SPACED_IDS, ...WORDS, ' ', '  ', '\t', '\n', '\r\n', ' a', 'a '].filter((x) => !/^\.+$/.test(x)))) {
    for (const p of PAIRS) for (const [k, o] of [['id', { [p.idField]: id }], ['email', { email: id }], ['both', { [p.idField]: id, email: id }], ['empty email', { [p.idField]: id, email: '' }], ['empty id', { [p.idField]: '', email: id }]]) add(`${p.name} odd ${k} ${id}`, (c) => p.invoke(c, o), true);
    for (const [m, f] of Object.entries({ ...SINGLE, ...STRING })) add(`${m} odd ${id}`, (c) => f(c, id), true);
    for (const [m, [f]] of Object.entries(OBJECT)) add(`${m} odd ${id}`, (c) => f(c, { id }), true);
  }
  const enumerated = cases.filter((c) => !/ of length | odd /.test(c[0]));

  for (const [key, invoke, sends, name] of cases) for (const env of ENVS) await ctx.eval(`${key} ${env.NODE_ENV}`, () => check(invoke, sends, name, env));

  // a refusal does not influence the next call, and refusals are not shared objects
  const reps = [];
  const seen = new Map();
  for (const c of enumerated) {
    const g = `${c[0].split(' ')[0]} ${c[2]}`;
    const n = seen.get(g) ?? 0;
    if (n < (ctx.quick ? 2 : 8)) {
      seen.set(g, n + 1);
      reps.push(c);
    }
  }
  for (const a of reps)
    for (const b of reps)
      await ctx.eval(`${a[0]} then ${b[0]}`, async () => {
        const ra = await rig.raw(a[1]);
        verdict(ra, a[2], a[3]);
        // a caller may do what it likes with its result
        if (ra.value?.error) scramble(ra.value);
        verdict(await rig.raw(b[1]), b[2], b[3]);
      });
}
