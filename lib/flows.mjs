// Every request-making behaviour of the SDK as a "flow": how to start it, the request sequence it documents
// (steps), and a good answer for each step. Single operations are one-step flows.
import { OPS, baseEmail, baseValues, bind, buildArgs } from './ops.mjs';
import { jsonResponse } from './world.mjs';
import { fail } from './ctx.mjs';

export const FILES = 'https://files.test.invalid';
export const RAW = 'From: a@example.com\r\nTo: b@example.com\r\nSubject: Orig\r\nContent-Type: text/plain\r\n\r\nhello\r\n';
export const received = (over = {}) => ({
  object: 'email',
  id: 'em_1',
  to: ['me@example.com'],
  from: 'sender@example.com',
  subject: 'Orig',
  html: null,
  text: 'hello',
  raw: { download_url: `${FILES}/raw/em_1?sig=abc`, expires_at: '2030-01-01' },
  attachments: [],
  ...over,
});
export const react = (label) => ({ $$typeof: Symbol.for('react.transitional.element'), type: 'div', props: {}, label });

const mail = (i, tag) => ({ ...baseEmail(i), subject: `Subject ${i}${tag}` });

export const FLOWS = [];
for (const o of OPS) {
  const ids = (tag) => Object.fromEntries(o.fields.filter((f) => f.to === 'path').map((f) => [f.name, f.isEmail ? `res${tag}@example.com` : `res${tag}`]));
  const values = (tag, idTag) => (o.body === 'batch' ? {} : { ...baseValues(o, tag), ...(idTag === undefined ? {} : ids(idTag)) });
  FLOWS.push({
    name: o.name,
    op: o,
    steps: ['op'],
    // tag: a short text that makes the arguments of this call distinguishable from those of another
    // idTag: when given, every resource identifier is named after it instead
    call: (c, request, tag = '', idTag = undefined) => {
      const f = bind(c, o);
      if (!f) fail(`the client has no operation ${o.name}`);
      return f(...buildArgs(o, values(tag, idTag), { request: o.request ? request : undefined, emails: o.body === 'batch' ? [mail(0, tag), mail(1, tag)] : undefined }));
    },
    scripted: () => ({ status: 200, json: o.sample }),
  });
}
const chained = (name, start, first) =>
  FLOWS.push({
    name,
    steps: ['op', 'op'],
    call: (c, _, tag = '') => start(c, tag).publish(),
    scripted: (_, n) => (n === 0 ? { status: 200, json: { object: 'template', id: 'tmpl_srv' } } : { status: 200, json: { object: 'template', id: 'tmpl_srv', published: true } }),
    first,
  });
chained('templates.create().publish', (c, tag) => c.templates.create({ name: `n${tag}`, html: '<p>h</p>' }));
chained('templates.duplicate().publish', (c, tag) => c.templates.duplicate(`tmpl_0${tag}`));
chained('templates.create(react).publish', (c, tag) => c.templates.create({ name: `n${tag}`, react: react(`T${tag}`) }));
const fwd = (name, opts, over) =>
  FLOWS.push({
    name,
    forward: true,
    steps: ['op', 'download', 'op'],
    call: (c, request, tag = '') => c.emails.receiving.forward({ emailId: `em_1${tag}`, to: 'dest@example.com', from: 'me@example.com', ...opts }, ...(request ? [request] : [])),
    scripted: (_, n) =>
      n === 0
        ? { status: 200, json: received(over) }
        : n === 1
          ? { status: 200, text: RAW, headers: { 'content-type': 'message/rfc822' } }
          : { status: 200, json: { id: 'sent_1' } },
  });
fwd('forward passthrough', {});
fwd('forward wrapped', { passthrough: false, text: 'see below', html: '<p>see below</p>' });
FLOWS.push({
  // the caller waits for the new template, does something else, and publishes it later
  name: 'templates.create(), later publish',
  steps: ['op', 'op'],
  later: true,
  call: async (c, _, tag = '', __, api) => {
    const chain = c.templates.create({ name: `later${tag}`, html: '<p>h</p>' });
    const created = await chain;
    if (created.error) return created;
    await api?.point(`publish ${tag}`);
    return chain.publish();
  },
  scripted: (_, n) => (n === 0 ? { status: 200, json: { object: 'template', id: 'tmpl_srv' } } : { status: 200, json: { object: 'template', id: 'tmpl_srv', published: true } }),
});
FLOWS.push({
  name: 'emails.send(react)',
  steps: ['op'],
  scheduled: true,
  call: (c, request, tag = '') => c.emails.send({ from: 'f@x.io', to: 't@x.io', subject: `s${tag}`, react: react(`A${tag}`) }, ...(request ? [request] : [])),
  scripted: () => ({ status: 200, json: { id: 'e1' } }),
});
FLOWS.push({
  name: 'batch.send(react)',
  steps: ['op'],
  scheduled: true,
  call: (c, request, tag = '') => c.batch.send([{ ...mail(0, tag), html: undefined, react: react(`A${tag}`) }, mail(1, tag), { ...mail(2, tag), react: react(`B${tag}`) }], ...(request ? [request] : [])),
  scripted: () => ({ status: 200, json: { data: [{ id: 'e1' }, { id: 'e2' }, { id: 'e3' }] } }),
});
FLOWS.push({
  name: 'broadcasts.create(react)',
  steps: ['op'],
  scheduled: true,
  call: (c, request, tag = '') => c.broadcasts.create({ from: 'f@x.io', segmentId: 's', subject: `s${tag}`, react: react(`A${tag}`) }, ...(request ? [request] : [])),
  scripted: () => ({ status: 200, json: { id: 'b1' } }),
});
FLOWS.push({
  name: 'broadcasts.update(react)',
  steps: ['op'],
  scheduled: true,
  call: (c, _, tag = '') => c.broadcasts.update(`b${tag}`, { react: react(`A${tag}`) }),
  scripted: () => ({ status: 200, json: { id: 'b1' } }),
});
for (const [verb, args] of [
  ['get', ['/raw']],
  ['post', ['/raw', { a: 1 }]],
  ['put', ['/raw', { a: 1 }]],
  ['patch', ['/raw', { a: 1 }]],
  ['delete', ['/raw']],
])
  FLOWS.push({
    name: `client.${verb}`,
    steps: ['op'],
    rawVerb: verb,
    call: (c, request, tag = '') => {
      const a = [args[0] + tag, ...args.slice(1)];
      return c[verb](...(request ? [...a, ...Array((verb === 'get' ? 1 : 2) - a.length).fill(undefined), request] : a));
    },
    scripted: () => ({ status: 200, json: { ok: true } }),
  });
for (const f of FLOWS)
  f.answer = (rec, n) => {
    const a = f.scripted(rec, n);
    return a.json !== undefined ? jsonResponse(a.status, a.json, a.headers) : new Response(a.text, { status: a.status, headers: a.headers });
  };
export const FLOW = Object.fromEntries(FLOWS.map((f) => [f.name, f]));

/** A stateless stand-in API: the answer to a request is a function of the request alone. */
export function echoServer(rec) {
  const h = hash(`${rec.method} ${rec.origin}${rec.path}${rec.search} ${rec.headers.authorization} ${rec.bodyKind === 'text' ? rec.text : rec.bodyKind}`);
  if (rec.origin === FILES) return { status: 200, text: RAW.replace('hello', `hello ${h}`), headers: { 'content-type': 'message/rfc822' } };
  const id = rec.path.split('/').at(-1);
  if (rec.method === 'GET' && /\/emails\/receiving\/[^/]+$/.test(rec.path)) return { status: 200, json: received({ id, subject: `Orig ${h}`, raw: { download_url: `${FILES}/raw/${h}`, expires_at: '2030' } }), headers: { 'content-type': 'application/json', 'x-echo': h } };
  return {
    status: 200,
    json: { object: 'echo', id: `id_${h}`, key: `key_${h}`, type: 'string', created_at: h, fallback_value: h, has_more: true, data: [{ id: `a_${h}`, key: 'k', object: 'contact_property', created_at: h, type: 'string', fallback_value: h }] },
    headers: { 'content-type': 'application/json', 'x-echo': h },
  };
}
export function hash(s) {
  let a = 0x811c9dc5;
  let b = 0x1234567;
  for (let i = 0; i < s.length; i++) {
    a = Math.imul(a ^ s.charCodeAt(i), 0x01000193);
    b = Math.imul(b + s.charCodeAt(i), 0x85ebca6b) ^ (b >>> 13);
  }
  return (a >>> 0).toString(16).padStart(8, '0') + (b >>> 0).toString(16).padStart(8, '0');
}
export const toResponse = (a) => (a.json !== undefined ? jsonResponse(a.status, a.json, a.headers) : new Response(a.text, { status: a.status, headers: a.headers }));
