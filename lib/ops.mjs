// The reference interface: what each SDK operation means on the wire, written down independently of the
// implementation (from the README, the public types and Resend's API reference). Every check compares the real
// code with this table; nothing here is derived from /repo at run time.
import { T } from './alphabet.mjs';

// ---- field descriptors ----------------------------------------------------------------------------------
// {name, to: 'body'|'query'|'path', wire, type, req, enc}
const parse = (s) => {
  const req = s.endsWith('!');
  const [name, wire] = s.replace(/!$/, '').split(':');
  return { name, wire: wire ?? name, req };
};
const B = (s, type, extra = {}) => ({ ...parse(s), to: 'body', type, ...extra });
const Q = (s, type, extra = {}) => ({ ...parse(s), to: 'query', type, ...extra });
const P = (s, extra = {}) => ({ ...parse(s), to: 'path', type: T.id, req: true, ...extra });

const pagination = (strictEmpty = true) => [
  Q('limit', T.limit, { keepsEmpty: strictEmpty }),
  Q('after', T.cursor, { keepsEmpty: strictEmpty, group: 'cursor' }),
  Q('before', T.cursor, { keepsEmpty: strictEmpty, group: 'cursor' }),
];

// ---- deep conversions ------------------------------------------------------------------------------------
const renameKeys = (o, map) => {
  if (o === null || typeof o !== 'object') return o;
  const r = {};
  for (const k of Object.keys(o)) if (o[k] !== undefined) r[map[k] ?? k] = o[k];
  return r;
};
const each = (f) => (v) => (Array.isArray(v) ? v.map(f) : v);
const attachment = (a) => renameKeys(a, { contentType: 'content_type', contentId: 'content_id' });
const variable = (v) => renameKeys(v, { fallbackValue: 'fallback_value' });
const stepMaps = {
  trigger: { eventName: 'event_name' },
  send_email: { replyTo: 'reply_to' },
  wait_for_event: { eventName: 'event_name', filterRule: 'filter_rule' },
  contact_update: { firstName: 'first_name', lastName: 'last_name' },
  add_to_segment: { segmentId: 'segment_id' },
};
export const convStep = (s) => ({ key: s.key, type: s.type, config: renameKeys(s.config, stepMaps[s.type] ?? {}) });

// ---- bodies ----------------------------------------------------------------------------------------------
const emailFields = () => [
  B('from', T.address),
  B('to', T.recipients),
  B('subject', T.str),
  B('html', T.str),
  B('text', T.str),
  B('cc', T.recipients),
  B('bcc', T.recipients),
  B('replyTo:reply_to', T.recipients),
  B('headers', T.record),
  B('tags', T.tags),
  B('attachments', T.attachments, { conv: each(attachment) }),
  B('scheduledAt:scheduled_at', T.str),
  B('topicId:topic_id', T.nstr),
  B('template', T.templateRef),
];
const templateFields = () => [
  B('name', T.str),
  B('subject', T.nstr),
  B('html', T.str),
  B('text', T.nstr),
  B('alias', T.nstr),
  B('from', T.nstr),
  B('replyTo:reply_to', T.recipients),
  B('variables', T.variables, { conv: each(variable) }),
];
const domainTracking = () => [
  B('clickTracking:click_tracking', T.bool),
  B('openTracking:open_tracking', T.bool),
];
const broadcastFields = () => [
  B('name', T.str),
  B('segmentId:segment_id', T.str),
  B('audienceId:audience_id', T.str),
  B('previewText:preview_text', T.str),
  B('from', T.address),
  B('html', T.str),
  B('replyTo:reply_to', T.recipients),
  B('subject', T.str),
  B('text', T.str),
  B('topicId:topic_id', T.nstr),
];
const contactFields = (nullable) => [
  B('unsubscribed', T.bool),
  B('firstName:first_name', nullable ? T.nstr : T.str),
  B('lastName:last_name', nullable ? T.nstr : T.str),
  B('properties', T.record),
];

// ---- table -----------------------------------------------------------------------------------------------
// args: positional arguments. {kind:'id', field} | {kind:'obj', fields, optional} | {kind:'request', idem}
const id = (name = 'id', extra = {}) => ({ kind: 'id', field: P(name, extra) });
const obj = (fields, o = {}) => ({ kind: 'obj', fields, ...o });
const request = (idem = false) => ({ kind: 'request', idem });

export const OPS = [];
const op = (name, verb, path, args = [], o = {}) => {
  const fields = args.flatMap((a) => (a.kind === 'id' ? [a.field] : a.kind === 'obj' ? a.fields : []));
  OPS.push({
    name,
    verb,
    path,
    args,
    fields,
    body: o.body ?? (fields.some((f) => f.to === 'body') ? 'object' : 'none'),
    request: args.find((a) => a.kind === 'request'),
    write: verb !== 'GET',
    sample: o.sample ?? { object: name, id: 'srv_id_1', nested: { some_key: [1, null, 'x'] } },
    mapData: o.mapData ?? ((d) => d),
    ...o,
  });
};

const email = () => obj(emailFields(), { react: true });
op('emails.send', 'POST', '/emails', [email(), request(true)]);
op('emails.create', 'POST', '/emails', [email(), request(true)]);
op('emails.get', 'GET', '/emails/:id', [id()]);
op('emails.list', 'GET', '/emails', [obj(pagination(), { optional: true })]);
op('emails.update', 'PATCH', '/emails/:id', [obj([P('id'), B('scheduledAt:scheduled_at', T.str)])]);
op('emails.cancel', 'POST', '/emails/:id/cancel', [id()]);
op('emails.share', 'POST', '/emails/:id/share', [id(), obj([B('expiresIn:expires_in', T.str)], { optional: true })]);
op('emails.metrics', 'GET', '/emails/metrics', [
  obj(
    [
      Q('startDate:start_date', T.qstr),
      Q('endDate:end_date', T.qstr),
      Q('timezone', T.qstr),
      Q('granularity', T.qenum('hourly', 'daily', 'weekly', 'monthly')),
      Q('metrics', T.qlist('received', 'delivered', 'bounced')),
      Q('dimensions', T.qlist('period', 'domain', 'email')),
      Q('domainId:domain_id', T.qlist('dom_1', 'dom_2', 'dom 3+/')),
      Q('emailId:email_id', T.qlist('em_1', 'em_2', 'em&3')),
      Q('broadcastId:broadcast_id', T.qlist('br_1', 'br_2', 'br=3')),
    ],
    { optional: true },
  ),
]);
op('emails.attachments.get', 'GET', '/emails/:emailId/attachments/:id', [obj([P('emailId'), P('id')])]);
op('emails.attachments.list', 'GET', '/emails/:emailId/attachments', [obj([P('emailId'), ...pagination()])]);
op('emails.receiving.get', 'GET', '/emails/receiving/:id', [
  id(),
  obj([Q('html_format', T.qenum('data_uri', 'cid'))], { optional: true }),
]);
op('emails.receiving.list', 'GET', '/emails/receiving', [obj(pagination(), { optional: true })]);
op('emails.receiving.attachments.get', 'GET', '/emails/receiving/:emailId/attachments/:id', [obj([P('emailId'), P('id')])]);
op('emails.receiving.attachments.list', 'GET', '/emails/receiving/:emailId/attachments', [obj([P('emailId'), ...pagination()])]);

op('batch.send', 'POST', '/emails/batch', [{ kind: 'batch' }, request(true)], { body: 'batch', react: true });
op('batch.create', 'POST', '/emails/batch', [{ kind: 'batch' }, request(true)], { body: 'batch', react: true });

op('broadcasts.create', 'POST', '/broadcasts', [
  obj([...broadcastFields(), B('send', T.bool), B('scheduledAt:scheduled_at', T.str)], { react: true }),
  request(),
]);
op('broadcasts.send', 'POST', '/broadcasts/:id/send', [id(), obj([B('scheduledAt:scheduled_at', T.str)], { optional: true })]);
op('broadcasts.list', 'GET', '/broadcasts', [obj(pagination(), { optional: true })]);
op('broadcasts.get', 'GET', '/broadcasts/:id', [id()]);
op('broadcasts.recipients', 'GET', '/broadcasts/:id/recipients', [
  id(),
  obj([
    Q('type!', T.qenum('delivered', 'bounced', 'clicked')),
    Q('email', T.qstr, { keepsEmpty: true }),
    Q('bounceType:bounce_type', T.qenum('permanent', 'transient')),
    ...pagination(),
  ]),
]);
op('broadcasts.clickedLinks', 'GET', '/broadcasts/:id/clicked-links', [id(), obj(pagination(), { optional: true })]);
op('broadcasts.remove', 'DELETE', '/broadcasts/:id', [id()]);
op('broadcasts.cancel', 'POST', '/broadcasts/:id/cancel', [id()]);
op('broadcasts.update', 'PATCH', '/broadcasts/:id', [id(), obj(broadcastFields(), { react: true })]);

op('contacts.create', 'POST', '/contacts', [
  obj([B('email', T.address), ...contactFields(), B('segments', T.idList), B('topics', T.topicList)]),
  request(),
]);
op('contacts.create(legacy)', 'POST', '/audiences/:audienceId/contacts', [
  obj([P('audienceId'), B('email', T.address), ...contactFields()]),
  request(),
]);
op('contacts.list', 'GET', '/contacts', [obj(pagination(), { optional: true })]);
op('contacts.list(segment)', 'GET', '/segments/:segmentId/contacts', [obj([P('segmentId'), ...pagination()])]);
op('contacts.list(audience)', 'GET', '/segments/:audienceId/contacts', [obj([P('audienceId'), ...pagination()])]);
for (const [m, verb, body] of [
  ['get', 'GET', false],
  ['update', 'PATCH', true],
  ['remove', 'DELETE', false],
]) {
  const f = () => (body ? contactFields(true) : []);
  if (!body) op(`contacts.${m}(string)`, verb, '/contacts/:id', [id()]);
  const o = body ? { body: 'object' } : {};
  op(`contacts.${m}(id)`, verb, '/contacts/:id', [obj([P('id'), ...f()])], o);
  op(`contacts.${m}(email)`, verb, '/contacts/:email', [obj([P('email', { isEmail: true }), ...f()])], o);
  op(`contacts.${m}(audience,id)`, verb, '/audiences/:audienceId/contacts/:id', [obj([P('audienceId'), P('id'), ...f()])], o);
  op(`contacts.${m}(audience,email)`, verb, '/audiences/:audienceId/contacts/:email', [obj([P('audienceId'), P('email', { isEmail: true }), ...f()])], o);
}
op('contacts.imports.create', 'POST', '/contacts/imports', [
  obj([B('file!', T.file), B('columnMap:column_map', T.columnMap, { conv: (m) => renameKeys(m, { firstName: 'first_name', lastName: 'last_name' }) }), B('onConflict:on_conflict', T.qenum('upsert', 'skip')), B('segments', T.idList), B('topics', T.topicList)]),
  request(),
], { body: 'form' });
op('contacts.imports.list', 'GET', '/contacts/imports', [
  obj([...pagination(), Q('status', T.qenum('queued', 'completed', 'failed'))], { optional: true }),
]);
op('contacts.imports.get', 'GET', '/contacts/imports/:id', [id()]);
for (const [how, f] of [
  ['id', 'contactId'],
  ['email', 'email'],
]) {
  const p = () => P(f, { isEmail: how === 'email' });
  op(`contacts.segments.list(${how})`, 'GET', `/contacts/:${f}/segments`, [obj([p(), ...pagination()])]);
  op(`contacts.segments.add(${how})`, 'POST', `/contacts/:${f}/segments/:segmentId`, [obj([p(), P('segmentId')])]);
  op(`contacts.segments.remove(${how})`, 'DELETE', `/contacts/:${f}/segments/:segmentId`, [obj([p(), P('segmentId')])]);
}
for (const f of ['id', 'email']) {
  const p = () => P(f, { isEmail: f === 'email' });
  op(`contacts.topics.list(${f})`, 'GET', `/contacts/:${f}/topics`, [obj([p(), ...pagination()])]);
  op(`contacts.topics.update(${f})`, 'PATCH', `/contacts/:${f}/topics`, [obj([p(), B('topics!', T.topicList)])], { body: 'topicsArray' });
}

const propFromApi = (p) => ({
  id: p.id,
  key: p.key,
  createdAt: p.created_at,
  type: p.type,
  fallbackValue: p.fallback_value,
});
export const apiProp = (n = 1, over = {}) => ({
  id: `cp_${n}`,
  key: `key_${n}`,
  object: 'contact_property',
  created_at: `2023-0${n}-01T00:00:00Z`,
  type: 'string',
  fallback_value: `fb_${n}`,
  ...over,
});
op('contactProperties.create', 'POST', '/contact-properties', [
  obj([B('key!', T.str), B('type', T.qenum('string', 'number')), B('fallbackValue:fallback_value', T.scalar)]),
]);
op('contactProperties.list', 'GET', '/contact-properties', [obj(pagination(), { optional: true })], {
  sample: { object: 'list', has_more: true, data: [apiProp(1), apiProp(2, { type: 'number', fallback_value: 0 })] },
  mapData: (d) => ({ ...d, data: d.data.map(propFromApi) }),
});
op('contactProperties.get', 'GET', '/contact-properties/:id', [id()], {
  sample: apiProp(3),
  mapData: (d) => ({ object: 'contact_property', ...propFromApi(d) }),
});
op('contactProperties.update', 'PATCH', '/contact-properties/:id', [
  obj([P('id'), B('fallbackValue:fallback_value', T.scalar)]),
]);
op('contactProperties.remove', 'DELETE', '/contact-properties/:id', [id()]);

op('domains.create', 'POST', '/domains', [
  obj([
    B('name', T.str),
    B('region', T.qenum('us-east-1', 'eu-west-1')),
    B('customReturnPath:custom_return_path', T.str),
    B('capabilities', T.capabilities),
    ...domainTracking(),
    B('tls', T.qenum('enforced', 'opportunistic')),
    B('trackingSubdomain:tracking_subdomain', T.str),
  ]),
  request(),
]);
op('domains.list', 'GET', '/domains', [obj(pagination(), { optional: true })]);
op('domains.get', 'GET', '/domains/:id', [id()]);
op('domains.update', 'PATCH', '/domains/:id', [
  obj([
    P('id'),
    ...domainTracking(),
    B('tls', T.qenum('enforced', 'opportunistic')),
    B('capabilities', T.capabilities),
    B('trackingSubdomain:tracking_subdomain', T.str),
  ]),
]);
op('domains.remove', 'DELETE', '/domains/:id', [id()]);
op('domains.verify', 'POST', '/domains/:id/verify', [id()]);
op('domains.claims.create', 'POST', '/domains/claim', [
  obj([
    B('name', T.str),
    B('region', T.qenum('us-east-1', 'eu-west-1')),
    B('customReturnPath:custom_return_path', T.str),
    ...domainTracking(),
    B('trackingSubdomain:tracking_subdomain', T.str),
  ]),
  request(),
]);
op('domains.claims.get', 'GET', '/domains/:domainId/claim', [id('domainId')]);
op('domains.claims.verify', 'POST', '/domains/:domainId/claim/verify', [id('domainId')]);

op('events.send', 'POST', '/events/send', [
  obj([B('event', T.str), B('contactId:contact_id', T.str), B('email', T.address), B('payload', T.record)]),
]);
op('events.create', 'POST', '/events', [obj([B('name', T.str), B('schema', T.nrecord)])]);
op('events.get', 'GET', '/events/:identifier', [id('identifier')]);
op('events.list', 'GET', '/events', [obj(pagination(), { optional: true })]);
op('events.update', 'PATCH', '/events/:identifier', [id('identifier'), obj([B('schema', T.nrecord)])]);
op('events.remove', 'DELETE', '/events/:identifier', [id('identifier')]);

op('logs.list', 'GET', '/logs', [obj(pagination(), { optional: true })]);
op('logs.get', 'GET', '/logs/:id', [id()]);

op('oauthGrants.list', 'GET', '/oauth/grants', [obj(pagination(), { optional: true })]);
op('oauthGrants.revoke', 'DELETE', '/oauth/grants/:id', [id()]);

for (const alias of ['segments', 'audiences']) {
  op(`${alias}.create`, 'POST', '/segments', [obj([B('name', T.str)]), request()]);
  op(`${alias}.list`, 'GET', '/segments', [obj(pagination(), { optional: true })]);
  op(`${alias}.get`, 'GET', '/segments/:id', [id()]);
  op(`${alias}.remove`, 'DELETE', '/segments/:id', [id()]);
}

op('suppressions.add', 'POST', '/suppressions', [obj([B('email', T.address)])]);
op('suppressions.list', 'GET', '/suppressions', [
  obj([...pagination(), Q('origin', T.qenum('bounce', 'complaint', 'manual'))], { optional: true }),
]);
op('suppressions.get', 'GET', '/suppressions/:idOrEmail', [id('idOrEmail')]);
op('suppressions.remove', 'DELETE', '/suppressions/:idOrEmail', [id('idOrEmail')]);
op('suppressions.batch.add', 'POST', '/suppressions/batch/add', [obj([B('emails', T.list)])]);
op('suppressions.batch.remove', 'POST', '/suppressions/batch/remove', [obj([B('emails', T.list), B('ids', T.list)])]);

op('templates.create', 'POST', '/templates', [obj(templateFields(), { react: true })], { chain: true });
op('templates.list', 'GET', '/templates', [obj(pagination(false), { optional: true })]);
op('templates.get', 'GET', '/templates/:identifier', [id('identifier')]);
op('templates.update', 'PATCH', '/templates/:identifier', [id('identifier'), obj(templateFields())]);
op('templates.remove', 'DELETE', '/templates/:identifier', [id('identifier')]);
op('templates.duplicate', 'POST', '/templates/:identifier/duplicate', [id('identifier')], { chain: true });
op('templates.publish', 'POST', '/templates/:identifier/publish', [id('identifier')]);

op('topics.create', 'POST', '/topics', [
  obj([B('name', T.str), B('description', T.str), B('defaultSubscription:default_subscription', T.qenum('opt_in', 'opt_out'))]),
]);
op('topics.list', 'GET', '/topics', []);
op('topics.get', 'GET', '/topics/:id', [id()]);
op('topics.update', 'PATCH', '/topics/:id', [obj([P('id', { mayEcho: true }), B('name', T.str), B('description', T.str)])], { body: 'object' });
op('topics.remove', 'DELETE', '/topics/:id', [id()]);

op('webhooks.create', 'POST', '/webhooks', [obj([B('endpoint', T.str), B('events', T.list)]), request()]);
op('webhooks.get', 'GET', '/webhooks/:id', [id()]);
op('webhooks.list', 'GET', '/webhooks', [obj(pagination(), { optional: true })]);
op('webhooks.update', 'PATCH', '/webhooks/:id', [
  id(),
  obj([B('endpoint', T.str), B('events', T.list), B('status', T.qenum('enabled', 'disabled'))]),
]);
op('webhooks.remove', 'DELETE', '/webhooks/:id', [id()]);

op('apiKeys.create', 'POST', '/api-keys', [
  obj([B('name', T.str), B('permission', T.qenum('full_access', 'sending_access')), B('domain_id', T.str)]),
  request(),
]);
op('apiKeys.list', 'GET', '/api-keys', [obj(pagination(), { optional: true })]);
op('apiKeys.update', 'PATCH', '/api-keys/:id', [id(), obj([B('name', T.str)])]);
op('apiKeys.remove', 'DELETE', '/api-keys/:id', [id()]);

op('automations.create', 'POST', '/automations', [
  obj([B('name', T.str), B('status', T.qenum('enabled', 'disabled')), B('steps!', T.steps, { conv: each(convStep) }), B('connections!', T.connections)]),
]);
op('automations.list', 'GET', '/automations', [
  obj([...pagination(), Q('status', T.qenum('enabled', 'disabled'))], { optional: true }),
]);
op('automations.get', 'GET', '/automations/:id', [id()]);
op('automations.remove', 'DELETE', '/automations/:id', [id()]);
op('automations.update', 'PATCH', '/automations/:id', [
  id(),
  obj([B('name', T.str), B('status', T.qenum('enabled', 'disabled')), B('steps', T.steps, { conv: each(convStep) }), B('connections', T.connections)]),
]);
op('automations.duplicate', 'POST', '/automations/:id/duplicate', [id()]);
op('automations.stop', 'POST', '/automations/:id/stop', [id()]);
op('automations.runs.get', 'GET', '/automations/:automationId/runs/:runId', [obj([P('automationId'), P('runId')])]);
op('automations.runs.list', 'GET', '/automations/:automationId/runs', [
  obj([P('automationId'), ...pagination(), Q('status', T.qenumOrList('running', 'completed', 'failed', 'cancelled'))]),
]);

export const BY_NAME = Object.fromEntries(OPS.map((o) => [o.name, o]));
export const methodPath = (o) => o.name.replace(/\(.*$/, '').split('.');

/** The bound SDK method, or null when the client has no such operation. */
export function bind(client, o) {
  const parts = methodPath(o);
  let self = client;
  for (const p of parts.slice(0, -1)) self = self?.[p];
  const f = self?.[parts.at(-1)];
  return typeof f === 'function' ? f.bind(self) : null;
}

/** A deep copy of plain data: what the SDK is given must not be what the oracle reads afterwards. */
export function detach(v) {
  if (v === null || typeof v !== 'object') return v;
  if (Buffer.isBuffer(v)) return Buffer.from(v);
  if (!Array.isArray(v)) {
    const proto = Object.getPrototypeOf(v);
    if ((proto !== Object.prototype && proto !== null) || '$$typeof' in v) return v;
  }
  const r = Array.isArray(v) ? new Array(v.length) : {};
  for (const k of Object.keys(v)) Object.defineProperty(r, k, { value: detach(v[k]), enumerable: true, writable: true, configurable: true });
  return r;
}

/** values: {fieldName: value}. Positional argument list for the call. */
export function buildArgs(o, values, { request: req, emails, dropOptional } = {}) {
  const args = [];
  for (const a of o.args) {
    if (a.kind === 'id') args.push(values[a.field.name]);
    else if (a.kind === 'batch') args.push(emails ? detach(emails) : [baseEmail(0)]);
    else if (a.kind === 'request') {
      if (req !== undefined) args.push(req);
    } else {
      const p = {};
      for (const f of a.fields) if (Object.hasOwn(values, f.name)) p[f.name] = detach(values[f.name]);
      for (const k of ['react']) if (a.react && Object.hasOwn(values, k)) p[k] = values[k];
      if (a.optional && dropOptional && Object.keys(p).length === 0) continue;
      args.push(p);
    }
  }
  return args;
}

/** Full base values: one distinct, valid value for every field. */
export function baseValues(o, tag = '', { cursor = 'after' } = {}) {
  const v = {};
  for (const f of o.fields) {
    if (f.group === 'cursor' && f.name !== cursor) continue;
    v[f.name] = f.to === 'path' ? `${f.isEmail ? 'user.' : ''}${f.name}_${tag || '1'}${f.isEmail ? '@example.com' : ''}` : f.type.base(f.name + tag);
  }
  return v;
}
export function minimalValues(o, tag = '') {
  const v = baseValues(o, tag);
  for (const f of o.fields) if (!f.req) delete v[f.name];
  return v;
}
export const emailFieldList = emailFields();
export function baseEmail(i) {
  return { from: `from${i}@example.com`, to: [`to${i}@example.com`], subject: `Subject ${i}`, html: `<p>${i}</p>`, replyTo: `r${i}@example.com` };
}

export function expectedPath(o, values) {
  return o.path.replace(/:([A-Za-z]+)/g, (_, n) => encodeURIComponent(values[n]));
}
/** JSON value as it would arrive. */
export const viaJSON = (v) => (v === undefined ? undefined : JSON.parse(JSON.stringify(v)));

export function expectedFields(fields, values) {
  const b = {};
  for (const f of fields) {
    if (f.to !== 'body' || !Object.hasOwn(values, f.name) || values[f.name] === undefined) continue;
    b[f.wire] = f.conv ? f.conv(values[f.name]) : values[f.name];
  }
  return viaJSON(b);
}
export function expectedBody(o, values) {
  switch (o.body) {
    case 'none':
      return undefined;
    case 'topicsArray':
      return viaJSON(values.topics);
    default:
      return expectedFields(o.fields, values);
  }
}
export function expectedQuery(o, values) {
  const q = [];
  for (const f of o.fields) {
    if (f.to !== 'query') continue;
    const v = values[f.name];
    if (v === undefined) continue;
    q.push([f.wire, Array.isArray(v) ? v.join(',') : String(v)]);
  }
  return q;
}
