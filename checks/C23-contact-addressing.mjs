// C23: contact operations address the contact, audience and segment the caller named.
import { expect, expectEqual } from '../lib/ctx.mjs';
import { COUNTS, LENGTHS, ODD_IDS, ODD_MAILS, text, wide, word } from '../lib/alphabet.mjs';
import { Rig, only, samePath } from '../lib/harness.mjs';
import { BASE, jsonBody } from '../lib/world.mjs';

export const level = 'exploration';
export const shards = { quick: 4, thorough: 8 };
export const rule =
  'contact operation × every combination of (absent, undefined, null, empty, value, second value) for id, e-mail, audience, segment × every subset of other options × property order; the request compared with the reference precedence; and all pairs/triples of differently addressed calls on one client; distinct by key';
export const bounds = (tier) => `6 values per identifier, identifiers and payloads of every size, all subsets of the other options; sequences of up to ${tier === 'quick' ? 2 : 3} differently addressed calls`;
export const assumptions = ['identifiers are path-safe (C05)', 'an empty or null audience on creation, and an empty segment next to an audience in a listing, are not exercised'];

const ABSENT = Symbol('absent');
const ids = (tag) => ({ absent: ABSENT, undefined: undefined, null: null, empty: '', value: `${tag}_1`, other: `${tag}-2-uuid` });
const mails = { absent: ABSENT, undefined: undefined, null: null, empty: '', value: 'user@example.com', other: 'first.last+tag@sub.example.com' };
const has = (v) => typeof v === 'string' && v !== '';
const make = (o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== ABSENT));
function* subsetsOf(o) {
  const names = Object.keys(o);
  for (let m = 0; m < 1 << names.length; m++) yield Object.fromEntries(names.filter((_, i) => m & (1 << i)).map((n) => [n, o[n]]));
}
const enc = encodeURIComponent;
const prune = (o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined));

// each: [op name, invoke, verb, path(identifiers), others, body(others), query(others)]
const contactBody = (o) => prune({ unsubscribed: o.unsubscribed, first_name: o.firstName, last_name: o.lastName, properties: o.properties });
const CONTACT = { firstName: 'Ada', lastName: null, unsubscribed: false, properties: { email: 'inner@example.com', id: 'inner' } };
const PAGE = { limit: 7, after: 'cur_a' };
const pageQuery = (o) => [...(o.limit !== undefined ? [['limit', String(o.limit)]] : []), ...(o.after !== undefined ? [['after', o.after]] : [])];
const scoped = (a, rest) => (has(a) ? `/audiences/${enc(a)}${rest}` : rest);

export async function run(ctx) {
  const rig = new Rig();
  const verify = (r, want) => {
    const q = only(r);
    expectEqual([q.method, q.origin], [want.verb, BASE], 'wrong verb or origin');
    expect(samePath(q.path, want.path), 'the request addresses something else', { actual: q.path, expected: want.path });
    expectEqual(q.query.map((e) => JSON.stringify(e)).sort(), (want.query ?? []).map((e) => JSON.stringify(e)).sort(), 'wrong query');
    expectEqual(jsonBody(q), want.body, 'wrong body');
  };
  const cases = [];
  const add = (key, invoke, want) => cases.push([key, invoke, want]);

  for (const [op, verb] of [
    ['get', 'GET'],
    ['update', 'PATCH'],
    ['remove', 'DELETE'],
  ])
    for (const [idn, id] of Object.entries(ids('con')))
      for (const [en, email] of Object.entries(mails)) {
        if (!has(id) && !has(email)) continue;
        for (const [an, audienceId] of Object.entries(ids('aud')))
          for (const others of op === 'update' ? subsetsOf(CONTACT) : [{}])
            for (const order of [0, 1]) {
              const o = () => make(order ? { audienceId, email, id, ...others } : { ...others, id, email, audienceId });
              add(`contacts.${op} id ${idn} email ${en} audience ${an} with ${Object.keys(others)} order ${order}`, (c) => c.contacts[op](o()), {
                verb,
                path: scoped(audienceId, `/contacts/${enc(has(email) ? email : id)}`),
                body: op === 'update' ? contactBody(others) : undefined,
              });
            }
      }
  for (const op of ['get', 'remove'])
    for (const s of ['con_1', 'user@example.com', 'audienceId', '{}'])
      if (s !== '{}') add(`contacts.${op} string ${s}`, (c) => c.contacts[op](s), { verb: op === 'get' ? 'GET' : 'DELETE', path: `/contacts/${enc(s)}` });
  // creation
  const CREATE = { firstName: 'Ada', lastName: '', unsubscribed: true, properties: { audienceId: 'inner' }, segments: [{ id: 's1' }], topics: [{ id: 't1', subscription: 'opt_in' }] };
  for (const [an, audienceId] of Object.entries({ absent: ABSENT, undefined: undefined, value: 'aud_1', other: 'aud-2-uuid' }))
    for (const others of subsetsOf(CREATE)) {
      if (has(audienceId) && (others.segments || others.topics)) continue;
      for (const order of [0, 1])
        for (const opt of [undefined, { idempotencyKey: 'k' }])
          add(
            `contacts.create audience ${an} with ${Object.keys(others)} order ${order} ${opt ? 'opt' : ''}`,
            (c) => c.contacts.create(make(order ? { ...others, audienceId, email: 'new@example.com' } : { email: 'new@example.com', audienceId, ...others }), ...(opt ? [opt] : [])),
            { verb: 'POST', path: scoped(audienceId, '/contacts'), body: { email: 'new@example.com', ...contactBody(others), ...prune({ segments: others.segments, topics: others.topics }) } },
          );
    }
  // listing
  for (const [sn, segmentId] of Object.entries(ids('seg')))
    for (const [an, audienceId] of Object.entries(ids('aud'))) {
      if (segmentId === '' && has(audienceId)) continue;
      const s = has(segmentId) ? segmentId : has(audienceId) ? audienceId : undefined;
      for (const others of subsetsOf(PAGE))
        for (const order of [0, 1])
          add(`contacts.list segment ${sn} audience ${an} with ${Object.keys(others)} order ${order}`, (c) => c.contacts.list(make(order ? { ...others, audienceId, segmentId } : { segmentId, audienceId, ...others })), {
            verb: 'GET',
            path: s ? `/segments/${enc(s)}/contacts` : '/contacts',
            query: pageQuery(others),
          });
    }
  add('contacts.list without options', (c) => c.contacts.list(), { verb: 'GET', path: '/contacts' });
  // segments and topics of a contact
  for (const [idn, id] of Object.entries(ids('con')))
    for (const [en, email] of Object.entries(mails)) {
      if (!has(id) && !has(email)) continue;
      const who = enc(has(email) ? email : id);
      for (const order of [0, 1]) {
        const o = (idField, extra = {}) => make(order ? { ...extra, email, [idField]: id } : { [idField]: id, email, ...extra });
        for (const [op, verb] of [
          ['add', 'POST'],
          ['remove', 'DELETE'],
        ])
          for (const segmentId of ['seg_1', 'con_1'])
            add(`contacts.segments.${op} id ${idn} email ${en} segment ${segmentId} order ${order}`, (c) => c.contacts.segments[op](o('contactId', { segmentId })), { verb, path: `/contacts/${who}/segments/${segmentId}` });
        for (const others of subsetsOf(PAGE)) {
          add(`contacts.segments.list id ${idn} email ${en} with ${Object.keys(others)} order ${order}`, (c) => c.contacts.segments.list(o('contactId', others)), { verb: 'GET', path: `/contacts/${who}/segments`, query: pageQuery(others) });
          add(`contacts.topics.list id ${idn} email ${en} with ${Object.keys(others)} order ${order}`, (c) => c.contacts.topics.list(o('id', others)), { verb: 'GET', path: `/contacts/${who}/topics`, query: pageQuery(others) });
        }
        for (const topics of [[], [{ id: 't1', subscription: 'opt_out' }], [{ id: 't2', subscription: 'opt_in' }, { id: 't1', subscription: 'opt_out' }]])
          add(`contacts.topics.update id ${idn} email ${en} ${topics.length} topics order ${order}`, (c) => c.contacts.topics.update(o('id', { topics })), { verb: 'PATCH', path: `/contacts/${who}/topics`, body: topics });
      }
    }

  // identifiers, addresses and payloads of every size
  for (const n of LENGTHS[ctx.tier].filter((x) => x > 0)) {
    const id = word(n);
    const email = `${word(n)}@example.com`;
    for (const [on, who, o] of [
      ['id', id, { id }],
      ['email', email, { email }],
      ['both', email, { id, email }],
    ])
      for (const [an, aud] of [['', {}], [' in an audience', { audienceId: `a${word(n)}` }]])
        for (const [op, verb] of [['get', 'GET'], ['update', 'PATCH'], ['remove', 'DELETE']])
          add(`contacts.${op} ${on} of length ${n}${an}`, (c) => c.contacts[op]({ ...o, ...aud }), { verb, path: scoped(aud.audienceId, `/contacts/${enc(who)}`), body: op === 'update' ? {} : undefined });
    for (const [on, who, o] of [['id', id, (k) => ({ [k]: id })], ['email', email, () => ({ email })]]) {
      add(`contacts.topics.list ${on} of length ${n}`, (c) => c.contacts.topics.list(o('id')), { verb: 'GET', path: `/contacts/${enc(who)}/topics` });
      add(`contacts.topics.update ${on} of length ${n}`, (c) => c.contacts.topics.update({ ...o('id'), topics: [] }), { verb: 'PATCH', path: `/contacts/${enc(who)}/topics`, body: [] });
      add(`contacts.segments.list ${on} of length ${n}`, (c) => c.contacts.segments.list(o('contactId')), { verb: 'GET', path: `/contacts/${enc(who)}/segments` });
      for (const [op, verb] of [['add', 'POST'], ['remove', 'DELETE']]) add(`contacts.segments.${op} ${on} of length ${n}`, (c) => c.contacts.segments[op]({ ...o('contactId'), segmentId: word(n) }), { verb, path: `/contacts/${enc(who)}/segments/${word(n)}` });
    }
    add(`contacts.list segment of length ${n}`, (c) => c.contacts.list({ segmentId: id }), { verb: 'GET', path: `/segments/${id}/contacts` });
    add(`contacts.create email of length ${n}`, (c) => c.contacts.create({ email, audienceId: id }), { verb: 'POST', path: `/audiences/${id}/contacts`, body: { email } });
    add(`contacts.update names of length ${n}`, (c) => c.contacts.update({ id: 'con_1', firstName: text(n), lastName: text(n) }), { verb: 'PATCH', path: '/contacts/con_1', body: { first_name: text(n), last_name: text(n) } });
  }
  // identifiers and addresses unlike the usual ones, alone and next to each other
  const pairs = [...ODD_IDS.map((id) => [{ id }, id]), ...ODD_MAILS.map((email) => [{ email }, email]), ...ODD_MAILS.map((email) => [{ id: 'con_1', email }, email]), ...ODD_IDS.map((id) => [{ id, email: 'user@example.com' }, 'user@example.com']), ...ODD_IDS.map((id) => [{ id, email: id }, id]), ...ODD_MAILS.map((id) => [{ id, email: '' }, id])];
  for (const [who, addressed] of pairs) {
    const label = `${Object.entries(who).map(([k, v]) => `${k} ${v}`).join(' and ')}`;
    const e = enc(addressed);
    const cw = 'id' in who ? { contactId: who.id, ...('email' in who ? { email: who.email } : {}) } : who;
    for (const aud of [undefined, 'aud_1', 'Odd.AUD', addressed]) {
      const a = aud === undefined ? {} : { audienceId: aud };
      for (const [op, verb] of [['get', 'GET'], ['update', 'PATCH'], ['remove', 'DELETE']]) add(`contacts.${op} odd ${label}${aud ? ` in ${aud}` : ''}`, (c) => c.contacts[op]({ ...a, ...who }), { verb, path: scoped(aud, `/contacts/${e}`), body: op === 'update' ? {} : undefined });
    }
    add(`contacts.topics.list odd ${label}`, (c) => c.contacts.topics.list(who), { verb: 'GET', path: `/contacts/${e}/topics` });
    add(`contacts.topics.update odd ${label}`, (c) => c.contacts.topics.update({ ...who, topics: [] }), { verb: 'PATCH', path: `/contacts/${e}/topics`, body: [] });
    add(`contacts.segments.list odd ${label}`, (c) => c.contacts.segments.list(cw), { verb: 'GET', path: `/contacts/${e}/segments` });
    for (const [op, verb] of [['add', 'POST'], ['remove', 'DELETE']])
      for (const segmentId of ['seg_1', addressed]) add(`contacts.segments.${op} odd ${label} segment ${segmentId}`, (c) => c.contacts.segments[op]({ ...cw, segmentId }), { verb, path: `/contacts/${e}/segments/${enc(segmentId)}` });
    if (Object.keys(who).length === 1) for (const [op, verb] of [['get', 'GET'], ['remove', 'DELETE']]) add(`contacts.${op} odd text ${addressed}`, (c) => c.contacts[op](addressed), { verb, path: `/contacts/${e}` });
  }
  for (const id of [...ODD_IDS, ...ODD_MAILS]) {
    for (const o of [{ segmentId: id }, { audienceId: id }, { segmentId: id, audienceId: 'aud_1' }]) add(`contacts.list odd ${JSON.stringify(o)}`, (c) => c.contacts.list(o), { verb: 'GET', path: `/segments/${enc(id)}/contacts` });
    add(`contacts.create odd audience ${id}`, (c) => c.contacts.create({ email: id, audienceId: id }), { verb: 'POST', path: `/audiences/${enc(id)}/contacts`, body: { email: id } });
    add(`contacts.create odd email ${id}`, (c) => c.contacts.create({ email: id }), { verb: 'POST', path: '/contacts', body: { email: id } });
  }
  for (const n of COUNTS[ctx.tier]) {
    const properties = wide(n);
    const topics = Array.from({ length: n }, (_, i) => ({ id: `t${n - i}`, subscription: i % 2 ? 'opt_in' : 'opt_out' }));
    const segments = topics.map(({ id }) => ({ id }));
    add(`contacts.update with ${n} properties`, (c) => c.contacts.update({ id: 'con_1', properties }), { verb: 'PATCH', path: '/contacts/con_1', body: { properties } });
    add(`contacts.create with ${n} properties, segments, topics`, (c) => c.contacts.create({ email: 'e@x.io', properties, segments, topics }), { verb: 'POST', path: '/contacts', body: { email: 'e@x.io', properties, segments, topics } });
    add(`contacts.topics.update with ${n} topics`, (c) => c.contacts.topics.update({ id: 'con_1', topics }), { verb: 'PATCH', path: '/contacts/con_1/topics', body: topics });
  }
  for (const [key, invoke, want] of cases) await ctx.eval(key, async () => verify(await rig.raw(invoke), want));

  // addressing is per call: sequences of differently addressed calls on one client
  const reps = [];
  const seen = new Map();
  for (const c of cases) {
    if (/of length|with \d+ | odd /.test(c[0])) continue;
    const kind = `${c[0].split(' ')[0]} ${c[2].path.replace(/[^/]*@[^/]*/g, 'EMAIL').replace(/_1|-2-uuid/g, '')}`;
    if (seen.has(kind)) continue;
    seen.set(kind, 1);
    reps.push(c);
  }
  const n = ctx.quick ? 2 : 3;
  const seq = async (list) => {
    if (list.length >= 2)
      await ctx.eval(list.map((c) => c[0]).join(' ⇒ '), async () => {
        for (const c of list) verify(await rig.raw(c[1]), c[2]);
      });
    if (list.length < n) for (const c of reps) await seq([...list, c]);
  };
  await seq([]);
}
