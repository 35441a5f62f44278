// C18: a batch is one-to-one and ordered, each entry as it would be sent alone; validation mode header.
import { expect, expectEqual, fail } from '../lib/ctx.mjs';
import { explore } from '../lib/explore.mjs';
import { COUNTS, HUGE, LENGTHS, text } from '../lib/alphabet.mjs';
import { Rig } from '../lib/harness.mjs';
import { baseEmail, emailFieldList, expectedFields } from '../lib/ops.mjs';
import { World, jsonBody, jsonResponse } from '../lib/world.mjs';

export const level = 'model_checking';
export const shards = { quick: 8, thorough: 8 };
export const rule =
  'batch = every list up to a length over an alphabet of mail kinds (plain, minimal, full, template, React, React+html, falsy fields, shared object); entries compared with what emails.send puts on the wire for the same mail and with the reference; every order of rendering completions (schedules of the real SDK); option sets: validation mode × header form, case and value × idempotency key; distinct by key';
export const bounds = (tier) => `lists up to length ${tier === 'quick' ? 3 : 4} over 9 kinds, plus batches of every size up to 2049 and contents of every length; rendering orders of every pattern of plain/React mails up to ${tier === 'quick' ? 4 : 6}`;
export const assumptions = ['a caller header named X-Batch-Validation wins over the option, as every per-request header does'];

const el = (label) => ({ $$typeof: Symbol.for('react.transitional.element'), type: 'div', props: {}, label });
const full = (i) => Object.fromEntries(emailFieldList.map((f) => [f.name, f.type.base(`${f.name}${i}`)]));
const KINDS = {
  plain: (i) => baseEmail(i),
  minimal: (i) => ({ to: `t${i}@x.io` }),
  full,
  template: (i) => ({ from: 'f@x.io', to: `t${i}@x.io`, template: { id: `tm${i}`, variables: { camelCase: i, z: null } } }),
  react: (i) => ({ from: 'f@x.io', to: `t${i}@x.io`, subject: `s${i}`, react: el(`R${i}`) }),
  'react+html': (i) => ({ ...baseEmail(i), html: `own${i}`, text: `txt${i}`, react: el(`R${i}`) }),
  falsy: (i) => ({ from: '', to: [], subject: `${i}`, html: '', text: '', headers: {}, tags: [], attachments: [], topicId: null, react: null }),
  attachments: (i) => ({ ...baseEmail(i), attachments: [{ filename: `f${i}`, content: Buffer.from([i, 255]), contentType: 'x/y', contentId: `c${i}` }] }),
  scheduled: (i) => ({ ...baseEmail(i), scheduledAt: `in ${i} min`, cc: [], bcc: undefined, replyTo: undefined }),
};
const reference = (m) => {
  const { react, ...rest } = m;
  return expectedFields(emailFieldList, react ? { ...rest, html: `<html>${react.label}</html>` } : rest);
};

export async function run(ctx) {
  const rig = new Rig({ world: { render: (n) => `<html>${n.label}</html>` } });
  const sent = async (fn) => {
    const r = await rig.raw(fn, () => jsonResponse(200, { data: [] }));
    if (r.threw || 'rejected' in r || r.hung) fail('the call did not resolve', r.threw ?? r.rejected);
    expectEqual(r.requests.length, 1, 'not exactly one request');
    return r.requests[0];
  };
  const alone = new Map();
  const single = async (kind, i) => {
    const k = `${kind}|${i}`;
    if (!alone.has(k)) alone.set(k, jsonBody(await sent((c) => c.emails.send(KINDS[kind](i)))));
    return alone.get(k);
  };
  const names = Object.keys(KINDS);
  // numbers[i] says which mail of its kind entry i is; `one`: equal mails are one object
  const test = async (kinds, method = 'send', numbers = kinds.map((_, i) => i), one = false) => {
    const pool = {};
    const mails = kinds.map((k, i) => (one ? (pool[`${k} ${numbers[i]}`] ??= KINDS[k](numbers[i])) : KINDS[k](numbers[i])));
    const q = await sent((c) => c.batch[method](mails));
    expectEqual([q.method, q.path], ['POST', '/emails/batch'], 'wrong endpoint');
    const b = jsonBody(q);
    expect(Array.isArray(b), 'the body is not a list', b);
    expectEqual(b.length, mails.length, 'not one entry per mail');
    for (const [i, k] of kinds.entries()) {
      expectEqual(b[i], reference(KINDS[k](numbers[i])), `entry ${i} is not mail ${i}`);
      const lone = await single(k, numbers[i]);
      expectEqual(b[i], lone, `entry ${i} differs from the mail sent alone`);
    }
    expectEqual(q.headers['x-batch-validation'], 'strict', 'the default validation mode is strict');
  };
  let level = [[]];
  for (let n = 0; n <= (ctx.quick ? 3 : 4); n++) {
    for (const l of level) {
      const key = `[${l.join(', ')}]`;
      if (ctx.want(key)) await ctx.eval(key, () => test(l));
      if (n < 3) await ctx.eval(`create ${key}`, () => test(l, 'create'));
    }
    level = level.flatMap((l) => names.map((k) => [...l, k]));
  }
  // equal mails: every pattern of repetition
  let patterns = [[0]];
  for (let n = 2; n <= (ctx.quick ? 4 : 6); n++) {
    patterns = patterns.flatMap((p) => Array.from({ length: Math.max(...p) + 2 }, (_, x) => [...p, x]));
    for (const p of patterns) {
      if (new Set(p).size === p.length) continue;
      for (const a of names)
        for (const b of n < 4 || !ctx.quick ? names : [a])
          for (const one of [false, true]) {
            const kinds = p.map((_, i) => (i % 2 ? b : a));
            await ctx.eval(`pattern ${p} of ${a}/${b}${one ? ', equal mails one object' : ''}`, () => test(kinds, 'send', p, one));
            await ctx.eval(`pattern ${p} of ${a} then ${b}${one ? ', equal mails one object' : ''}`, () => test(p.map((x) => (x % 2 ? b : a)), 'send', p, one));
          }
    }
  }
  // mails which differ in one field only
  for (const f of emailFieldList)
    for (const v of [undefined, ...f.type.more(f.name)])
      for (const order of [[0, 1], [1, 0], [0, 1, 0], [1, 0, 0, 1, 1]])
        await ctx.eval(`${f.name} alone differs #${f.type.more(f.name).indexOf(v)} in order ${order}`, async () => {
          const mails = order.map((x) => (x ? { ...full(0), [f.name]: v } : full(0)));
          expectEqual(jsonBody(await sent((c) => c.batch.send(mails))), mails.map(reference), 'entries differ from the mails');
        });
  for (const n of [10, 33, 100, 101, 257])
    for (const k of names) for (const one of [false, true]) await ctx.eval(`${n} equal mails ${k}${one ? ', one object' : ''}`, () => test(Array(n).fill(k), 'send', Array(n).fill(0), one));
  for (const n of COUNTS[ctx.tier].filter((x) => x <= 2049))
    for (const shift of names.keys()) await ctx.eval(`size ${n} from ${shift}`, () => test(Array.from({ length: n }, (_, i) => names[(i * 7 + shift) % names.length])));
  for (const n of [...LENGTHS[ctx.tier], ...HUGE[ctx.tier]])
    for (const at of [0, 1])
      for (const f of ['html', 'text', 'subject', 'react'])
        await ctx.eval(`${f} of length ${n} in mail ${at}`, async () => {
          const mails = [baseEmail(0), baseEmail(1)];
          mails[at] = { ...mails[at], ...(f === 'react' ? { react: el(text(n)) } : { [f]: text(n) }) };
          expectEqual(jsonBody(await sent((c) => c.batch.send(mails))), mails.map(reference), 'entries differ from the mails');
        });
  await ctx.eval('the same mail object several times', async () => {
    const a = baseEmail(0);
    const b = { ...baseEmail(1), react: el('B') };
    const q = await sent((c) => c.batch.send([a, b, a, b, a]));
    expectEqual(jsonBody(q), [a, b, a, b, a].map(reference), 'repeated mails are not repeated');
  });

  // rendering times: every order in which renderings can complete
  const maxLen = ctx.quick ? 4 : 6;
  for (let n = 1; n <= maxLen; n++)
    for (let m = 0; m < 2 ** n; m++) {
      const pat = Array.from({ length: n }, (_, i) => ((m >> i) & 1 ? 'R' : 'P'));
      if (!pat.includes('R')) continue;
      await explore(
        ctx,
        {
          key: `rendering ${pat.join('')}`,
          make() {
            const world = new World({ scheduleRender: true, answers: () => [{ label: 'ok', status: 200, json: { data: [] } }] });
            const mails = pat.map((k, i) => KINDS[k === 'R' ? (i % 2 ? 'react+html' : 'react') : 'plain'](i));
            return {
              world,
              programs: [{ name: 'p', immediate: true, body: () => world.client().batch.send(mails) }],
              final(run) {
                expect(!('rejected' in run.outcomes.p), 'the call rejected', run.outcomes.p.rejected);
                expectEqual(world.requests.length, 1, 'not exactly one request');
                expectEqual(jsonBody(world.requests[0]), mails.map(reference), 'entries mixed up');
              },
            };
          },
        },
        { maxRuns: 50000 },
      );
    }

  // options
  const MODES = [undefined, 'strict', 'permissive'];
  const HDRS = {
    none: () => undefined,
    empty: () => ({}),
    record: () => ({ 'X-Other': 'o' }),
    headers: () => new Headers({ 'X-Other': 'o' }),
    pairs: () => [['X-Other', 'o']],
    'record+mode': () => ({ 'X-Other': 'o', 'X-Batch-Validation': 'permissive' }),
    'lower record+mode': () => ({ 'X-Other': 'o', 'x-batch-validation': 'strict' }),
    'headers+mode': () => new Headers({ 'X-Other': 'o', 'x-batch-validation': 'permissive' }),
    'pairs+mode': () => [['X-BATCH-VALIDATION', 'permissive'], ['X-Other', 'o']],
    auth: () => ({ Authorization: 'Bearer z', 'X-Other': 'o' }),
  };
  for (const method of ['send', 'create'])
    for (const mode of MODES)
      for (const explicit of [false, true])
        for (const [hn, h] of Object.entries(HDRS))
          for (const key of [undefined, 'idem-1'])
            for (const kind of ['plain', 'react'])
              await ctx.eval(`${method} mode ${mode}${explicit ? '!' : ''} headers ${hn} key ${key} ${kind}`, async () => {
                const hv = h();
                const o = { ...(mode || explicit ? { batchValidation: mode } : {}), ...(hv ? { headers: hv } : {}), ...(key ? { idempotencyKey: key } : {}) };
                const q = await sent((c) => (Object.keys(o).length || explicit ? c.batch[method]([KINDS[kind](0)], o) : c.batch[method]([KINDS[kind](0)])));
                const given = hv ? new Headers(hv).get('x-batch-validation') : null;
                expectEqual(q.headers['x-batch-validation'], given ?? mode ?? 'strict', 'wrong validation mode');
                expectEqual(q.headers['idempotency-key'], key, 'wrong idempotency key');
                expectEqual(q.headers['x-other'], hv && new Headers(hv).get('x-other') ? 'o' : undefined, 'other headers lost');
                expectEqual(q.headers.authorization, hn === 'auth' ? 'Bearer z' : 'Bearer re_TESTKEY_c0ffee', 'wrong authorization');
                expectEqual(jsonBody(q), [reference(KINDS[kind](0))], 'wrong body');
              });
}
