// C03: explicit undefined is the same as absent.
import { expectEqual, fail } from '../lib/ctx.mjs';
import { Rig, hasQueryFields, subsets } from '../lib/harness.mjs';
import { OPS, baseEmail, baseValues, buildArgs, emailFieldList } from '../lib/ops.mjs';
import { jsonBody, jsonResponse } from '../lib/world.mjs';

export const level = 'exploration';
export const shards = { quick: 4, thorough: 8 };
export const rule =
  'operation × presence of the other optional fields × every subset of optional fields set to undefined, and optional arguments or request options given as undefined; each case makes two real calls (undefined versus absent) and compares requests and results';
export const bounds = (tier) =>
  `every operation; n ≤ 7 optional fields: all 3^n present/absent/undefined assignments; larger n: all 2^n undefined subsets with the rest ${tier === 'quick' ? 'present' : 'present and with the rest absent'}; trailing arguments undefined; request options undefined, {}, and each member undefined`;
export const assumptions = ['required fields are always given'];

const wire = (r) => {
  if (r.threw) fail('threw', r.threw);
  if (r.rejected) fail('rejected', r.rejected);
  if (r.hung) fail('hung');
  return {
    requests: r.requests.map((q) => ({
      m: q.method,
      u: `${q.origin}${q.path}`,
      q: q.query.map((e) => e.join('=')).sort(),
      h: Object.fromEntries(Object.entries(q.headers).filter(([k]) => k !== 'content-type' || q.bodyKind !== 'form')),
      b: q.bodyKind === 'form' ? q.form.map(([k, v]) => [k, typeof v === 'string' ? v : v.size]) : jsonBody(q) ?? null,
    })),
    value: r.value,
  };
};

export async function run(ctx) {
  const rig = new Rig();
  const compare = async (o, withUndef, without, opt = {}) => {
    const answer = () => jsonResponse(200, o.sample);
    const b = wire(await rig.call(o, without, { ...opt, answer }));
    const a = wire(await rig.call(o, withUndef, { ...opt, answer }));
    expectEqual(a, b, 'explicit undefined is not the same as absent');
  };
  for (const o of OPS) {
    if (o.body === 'batch') continue;
    const optional = o.fields.filter((f) => !f.req);
    const base = baseValues(o);
    if (!base.after && optional.some((f) => f.name === 'after')) base.after = 'cur';
    const req = Object.fromEntries(o.fields.filter((f) => f.req).map((f) => [f.name, base[f.name]]));
    const names = optional.map((f) => f.name);
    if (o.args.some((a) => a.react)) names.push('react');
    const val = (n) => (n === 'before' ? 'bcur' : n === 'react' ? { label: 'R' } : base[n]);
    if (names.length && names.length <= 7) {
      for (let m = 0; m < 3 ** names.length; m++) {
        const v = { ...req };
        const w = { ...req };
        let undef = 0;
        let x = m;
        for (const n of names) {
          const s = x % 3;
          x = Math.floor(x / 3);
          if (s === 1) v[n] = w[n] = val(n);
          else if (s === 2) {
            v[n] = undefined;
            undef++;
          }
        }
        if (!undef) continue;
        const key = `${o.name} 3^n#${m}`;
        if (ctx.want(key)) await ctx.eval(key, () => compare(o, v, w), Object.keys(v).join(','));
      }
    } else {
      for (const rest of ctx.quick ? [true] : [true, false])
        for (const s of subsets(names)) {
          if (!s.length) continue;
          const key = `${o.name} undefined{${s}} rest=${rest ? 'present' : 'absent'}`;
          if (!ctx.want(key)) continue;
          const w = { ...req };
          if (rest) for (const n of names) if (!s.includes(n)) w[n] = val(n);
          const v = { ...w, ...Object.fromEntries(s.map((n) => [n, undefined])) };
          await ctx.eval(key, () => compare(o, v, w));
        }
    }
    // whole trailing arguments
    const call = (args) => rig.call(o, {}, { args, answer: () => jsonResponse(200, o.sample) });
    const min = buildArgs(o, req, { dropOptional: true });
    for (let extra = 1; extra <= 2; extra++)
      if (min.length + extra <= o.args.length)
        await ctx.eval(`${o.name} ${extra} trailing undefined`, async () => {
          expectEqual(wire(await call([...min, ...Array(extra).fill(undefined)])), wire(await call(min)), 'an undefined argument is not the same as none');
        });
    if (o.args.some((a) => a.optional))
      await ctx.eval(`${o.name} {} options`, async () => {
        const a = buildArgs(o, req, { dropOptional: false });
        expectEqual(wire(await call(a)), wire(await call(min)), 'empty options differ from none');
      });
  }
  // alternative addressing members and nested members given as undefined
  const GHOSTS = {
    'contacts.create': ['audienceId'],
    'contacts.create(legacy)': ['segments', 'topics'],
    'contacts.list': ['segmentId', 'audienceId'],
    'contacts.list(segment)': ['audienceId'],
    'contacts.list(audience)': ['segmentId'],
    'contacts.segments.list(id)': ['email'],
    'contacts.segments.list(email)': ['contactId'],
    'contacts.segments.add(id)': ['email'],
    'contacts.segments.add(email)': ['contactId'],
    'contacts.segments.remove(id)': ['email'],
    'contacts.segments.remove(email)': ['contactId'],
    'contacts.topics.list(id)': ['email'],
    'contacts.topics.list(email)': ['id'],
    'contacts.topics.update(id)': ['email'],
    'contacts.topics.update(email)': ['id'],
    'suppressions.batch.add': ['ids'],
    'templates.create': ['react'],
    'emails.send': ['react'],
    'emails.create': ['react'],
    'broadcasts.create': ['react'],
    'broadcasts.update': ['react'],
  };
  for (const m of ['get', 'update', 'remove']) {
    GHOSTS[`contacts.${m}(id)`] = ['email', 'audienceId'];
    GHOSTS[`contacts.${m}(email)`] = ['id', 'audienceId'];
    GHOSTS[`contacts.${m}(audience,id)`] = ['email'];
    GHOSTS[`contacts.${m}(audience,email)`] = ['id'];
  }
  for (const o of OPS.filter((x) => GHOSTS[x.name])) {
    const at = o.args.findIndex((a) => a.kind === 'obj');
    const optional = o.fields.filter((f) => !f.req);
    for (const s of subsets(GHOSTS[o.name])) {
      if (!s.length) continue;
      for (const present of subsets(optional.slice(0, 7)))
        await ctx.eval(`${o.name} unaddressed{${s}} with{${present.map((f) => f.name)}}`, async () => {
          const base = baseValues(o);
          const v = Object.fromEntries(o.fields.filter((f) => f.req || present.includes(f)).map((f) => [f.name, base[f.name]]));
          const args = buildArgs(o, v);
          const ghost = args.map((a, i) => (i === at ? { ...a, ...Object.fromEntries(s.map((n) => [n, undefined])) } : a));
          const answer = () => jsonResponse(200, o.sample);
          const b = wire(await rig.call(o, {}, { args, answer }));
          const a = wire(await rig.call(o, {}, { args: ghost, answer }));
          expectEqual(a, b, 'explicit undefined is not the same as absent');
        });
    }
  }
  const NESTED = {
    attachments: [(x) => x[0], ['content', 'filename', 'path', 'contentType', 'contentId']],
    template: [(x) => x, ['variables']],
    variables: [(x) => x[0], ['fallbackValue']],
    capabilities: [(x) => x, ['sending', 'receiving']],
    connections: [(x) => x[0], ['type']],
    columnMap: [(x) => x, ['email', 'firstName', 'lastName', 'unsubscribed', 'properties']],
    tags: [(x) => x[0], ['value']],
  };
  for (const o of OPS)
    for (const f of o.fields.filter((x) => NESTED[x.name]))
      for (const s of subsets(NESTED[f.name][1])) {
        if (!s.length) continue;
        await ctx.eval(`${o.name} nested ${f.name}{${s}}`, async () => {
          const mk = (drop) => {
            const v = baseValues(o);
            const t = NESTED[f.name][0](v[f.name]);
            for (const n of s) drop ? delete t[n] : (t[n] = undefined);
            return v;
          };
          await compare(o, mk(false), mk(true));
        });
      }
  const CONFIGS = {
    trigger: { eventName: 'e' },
    delay: { duration: 'd' },
    send_email: { template: { id: 't', variables: { a: 1 } }, subject: 's', from: 'f', replyTo: 'r' },
    wait_for_event: { eventName: 'e', timeout: 't', filterRule: { type: 'and', rules: [] } },
    condition: { type: 'rule', field: 'f', operator: 'eq', value: 1 },
    contact_update: { firstName: 'a', lastName: 'b', unsubscribed: true, properties: { p: 1 } },
    contact_delete: {},
    add_to_segment: { segmentId: 's' },
  };
  for (const o of OPS.filter((x) => /^automations\.(create|update)$/.test(x.name)))
    for (const [type, config] of Object.entries(CONFIGS))
      for (const s of subsets(Object.keys(config))) {
        if (!s.length) continue;
        await ctx.eval(`${o.name} step ${type}{${s}}`, async () => {
          const mk = (drop) => {
            const v = baseValues(o);
            const c = structuredClone(config);
            for (const n of s) drop ? delete c[n] : (c[n] = undefined);
            v.steps = [{ key: 'k', type, config: c }];
            return v;
          };
          await compare(o, mk(false), mk(true));
        });
      }
  // forwarding
  const fwdAnswer = (rec, n) =>
    n === 0
      ? jsonResponse(200, { id: 'em', subject: 'S', raw: { download_url: 'https://files.test.invalid/raw' } })
      : n === 1
        ? new Response('Subject: S\r\n\r\nhello')
        : jsonResponse(200, { id: 'sent' });
  for (const [mode, base, names] of [
    ['through', { emailId: 'e', to: 't@x.io', from: 'f@x.io' }, ['passthrough', 'text', 'html']],
    ['wrapped', { emailId: 'e', to: 't@x.io', from: 'f@x.io', passthrough: false, text: 'T' }, ['html']],
    ['wrapped-html', { emailId: 'e', to: 't@x.io', from: 'f@x.io', passthrough: false, html: 'H' }, ['text']],
    ['wrapped-none', { emailId: 'e', to: 't@x.io', from: 'f@x.io', passthrough: false }, ['text', 'html']],
  ])
    for (const s of subsets(names))
      for (const req of [[], [undefined], [{ headers: undefined, idempotencyKey: undefined }]])
        await ctx.eval(`forward ${mode} undefined{${s}} request ${JSON.stringify(req)}`, async () => {
          const b = wire(await rig.raw((c) => c.emails.receiving.forward(base), fwdAnswer));
          const a = wire(await rig.raw((c) => c.emails.receiving.forward({ ...base, ...Object.fromEntries(s.map((n) => [n, undefined])) }, ...req), fwdAnswer));
          expectEqual(a, b, 'explicit undefined is not the same as absent');
        });
  for (const [name, args] of Object.entries({ 'options undefined': [undefined], 'options empty': [{}], 'member undefined': [{ html_format: undefined }] }))
    await ctx.eval(`emails.receiving.get ${name}`, async () => {
      const b = wire(await rig.raw((c) => c.emails.receiving.get('i')));
      expectEqual(wire(await rig.raw((c) => c.emails.receiving.get('i', ...args))), b, 'explicit undefined is not the same as absent');
    });
  // raw verbs of the client
  for (const [verb, args] of [
    ['get', ['/x']],
    ['post', ['/x', { a: 1 }]],
    ['put', ['/x', { a: 1 }]],
    ['patch', ['/x', { a: 1 }]],
    ['delete', ['/x']],
  ])
    for (const opts of [undefined, {}, { headers: undefined }])
      await ctx.eval(`client.${verb} options ${JSON.stringify(opts)} ${opts && 'headers' in opts}`, async () => {
        const b = wire(await rig.raw((c) => c[verb](...args)));
        const full = verb === 'get' ? [...args, opts] : [...args, ...Array(2 - args.length).fill(undefined), opts];
        expectEqual(wire(await rig.raw((c) => c[verb](...full))), b, 'explicit undefined is not the same as absent');
      });

  // request options
  for (const o of OPS.filter((x) => x.request)) {
    const base = o.body === 'batch' ? {} : baseValues(o);
    for (const [name, request] of Object.entries({
      empty: {},
      'headers undefined': { headers: undefined },
      'key undefined': { idempotencyKey: undefined },
      'both undefined': { headers: undefined, idempotencyKey: undefined },
      'query undefined': { query: undefined },
      'validation undefined': { batchValidation: undefined },
    })) {
      if (name.startsWith('validation') && o.body !== 'batch') continue;
      await ctx.eval(`${o.name} request options ${name}`, () => compare2(o, base, request));
    }
  }
  async function compare2(o, base, request) {
    const clean = (r) => {
      const w = wire(r);
      return w;
    };
    const a = clean(await rig.call(o, base, { request }));
    const b = clean(await rig.call(o, base, {}));
    expectEqual(a, b, 'undefined request options are not the same as none');
  }
  // batch entries
  for (const o of OPS.filter((x) => x.body === 'batch')) {
    const names = [...emailFieldList.map((f) => f.name), 'react'];
    const full = Object.fromEntries(emailFieldList.map((f) => [f.name, f.type.base(f.name)]));
    for (const s of subsets(names)) {
      if (!s.length) continue;
      const key = `${o.name} entry undefined{${s}}`;
      if (!ctx.want(key)) continue;
      await ctx.eval(key, async () => {
        const w = { ...full };
        for (const n of s) delete w[n];
        const v = { ...w, ...Object.fromEntries(s.map((n) => [n, undefined])) };
        const a = wire(await rig.call(o, {}, { emails: [v, baseEmail(1)] }));
        const b = wire(await rig.call(o, {}, { emails: [w, baseEmail(1)] }));
        expectEqual(a, b, 'explicit undefined is not the same as absent');
      });
    }
  }
}
