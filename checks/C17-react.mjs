// C17: React content is rendered before sending, or nothing is sent.
import { expect, expectEqual, fail } from '../lib/ctx.mjs';
import { explore } from '../lib/explore.mjs';
import { Rig, subsets } from '../lib/harness.mjs';
import { COUNTS, HUGE, LENGTHS, text } from '../lib/alphabet.mjs';
import { BY_NAME, baseValues, bind, buildArgs, emailFieldList, expectedFields, expectedPath } from '../lib/ops.mjs';
import { World, jsonBody, jsonResponse } from '../lib/world.mjs';

export const level = 'model_checking';
export const shards = { quick: 8, thorough: 8 };
export const rule =
  'operation taking React content × payload (subsets of the other fields, html given or not) × React value kind × rendering outcome (markup kinds, thrown values, renderer missing); and exploration of every order of rendering completions, failures and answers for single payloads and batches on the real SDK; distinct by key';
export const bounds = (tier) => `field subsets: ${tier === 'quick' ? 'all of size ≤ 2 and their complements' : 'all'}; 9 markups, and markups of every size; batches of up to 1025 mails; 6 failures; batches of up to 3 React mails in every position pattern`;
export const assumptions = ['the renderer is a stand-in module that records the element it is given; React itself is not run', 'mails of a batch may be rendered one after the other or at once'];

const el = (label) => ({ $$typeof: Symbol.for('react.transitional.element'), type: 'div', key: null, props: { children: 'SECRET-PROP', style: { a: 1 } }, label });
const MARKUP = ['<html>R</html>', '', ' ', '<p>é 日本 😀</p>', '<b>"q" \\ \n\t</b>', 'plain', '{{{var}}}', 'X'.repeat(50000), '<!DOCTYPE html><!--$--><p>0</p><!--/$-->'];
const THROWN = { Error: () => new Error('render failed'), TypeError: () => new TypeError('x is not a function'), SyntaxError: () => new SyntaxError('s'), string: () => 'thrown text', undefined: () => undefined, object: () => ({ digest: 1 }) };
const KINDS = {
  element: () => el('R'),
  'frozen element': () => Object.freeze(el('R')),
  array: () => [el('R'), 'text'],
  'text node': () => 'just text',
  number: () => 7,
  'component-like': () => Object.assign(() => null, { label: 'R' }),
};
const FALSY = [undefined, null, false, '', 0];

export async function run(ctx) {
  let renderer;
  const rig = new Rig({ world: { render: (n, i) => renderer(n, i) } });
  const noRenderer = new Rig({ world: { renderModuleMissing: true } });
  const OPSR = ['emails.send', 'emails.create', 'broadcasts.create', 'broadcasts.update', 'templates.create', 'batch.send', 'batch.create'].map((n) => BY_NAME[n]);
  const isBatch = (o) => o.body === 'batch';
  const fieldsOf = (o) => (isBatch(o) ? emailFieldList : o.fields).filter((f) => f.to === 'body' && f.name !== 'html');
  const argsFor = (o, values) => (isBatch(o) ? buildArgs(o, {}, { emails: [values] }) : buildArgs(o, values));
  const pathValues = (o) => Object.fromEntries(o.fields.filter((f) => f.to === 'path').map((f) => [f.name, 'id_1']));
  const bodyOf = (o, q) => (isBatch(o) ? jsonBody(q)?.[0] : jsonBody(q));
  const call = (o, values, r = rig, answer) => r.raw((c) => bind(c, o)(...argsFor(o, values)), answer ?? (() => jsonResponse(200, { id: 'x' })));
  const sentOk = (o, values, html, r) => {
    if (r.threw || 'rejected' in r || r.hung) fail('the call did not resolve', r.threw ?? r.rejected);
    expectEqual(r.requests.length, 1, 'not exactly one request');
    const q = r.requests[0];
    expectEqual([q.method, q.path], [o.verb, expectedPath(o, values)], 'wrong endpoint');
    const rest = { ...values };
    delete rest.react;
    delete rest.html;
    const exp = expectedFields(isBatch(o) ? emailFieldList : o.fields, { ...rest, ...(html === undefined ? {} : { html }) });
    expectEqual(bodyOf(o, q), exp, 'the body is not the payload with the rendered html');
    expect(!/SECRET-PROP|\$\$typeof/.test(q.text), 'the element itself is on the wire');
    expect(r.value && r.value.error === null, 'no result', r.value);
  };
  for (const o of OPSR) {
    const fields = fieldsOf(o);
    const base = { ...pathValues(o), ...Object.fromEntries(fields.map((f) => [f.name, f.type.base(f.name)])) };
    const pick = (s) => ({ ...pathValues(o), ...Object.fromEntries(s.map((f) => [f.name, base[f.name]])) });
    // field subsets
    for (const s of subsets(fields)) {
      if (ctx.quick && s.length > 2 && s.length < fields.length - 2) continue;
      for (const html of [undefined, '<p>own</p>']) {
        const key = `${o.name} {${s.map((f) => f.name)}} html ${html !== undefined}`;
        if (!ctx.want(key)) continue;
        await ctx.eval(key, async () => {
          renderer = (n) => `<html>${n.label}</html>`;
          const e = el(`R${s.length}`);
          const v = { ...pick(s), ...(html === undefined ? {} : { html }), react: e };
          const r = await call(o, v);
          sentOk(o, v, `<html>R${s.length}</html>`, r);
          expect(r.renders.length >= 1 && r.renders.every((x) => x === e), 'not the given element was rendered', r.renders.length);
        });
      }
    }
    for (const [kn, mk] of Object.entries(KINDS))
      for (const [i, m] of MARKUP.entries())
        for (const html of [undefined, '', '<p>own</p>'])
          await ctx.eval(`${o.name} ${kn} markup#${i} html ${JSON.stringify(html)}`, async () => {
            renderer = () => m;
            const v = { ...base, ...(html === undefined ? {} : { html }), react: mk() };
            sentOk(o, v, m, await call(o, v));
          });
    for (const n of [...LENGTHS[ctx.tier], ...HUGE[ctx.tier]])
      for (const html of [undefined, '<p>own</p>'])
        await ctx.eval(`${o.name} markup of length ${n} html ${html !== undefined}`, async () => {
          const m = text(n);
          renderer = () => m;
          const v = { ...base, ...(html === undefined ? {} : { html }), react: el('R') };
          sentOk(o, v, m, await call(o, v));
        });
    if (isBatch(o))
      for (const n of COUNTS[ctx.tier].filter((x) => x && x <= 1025))
        for (const pattern of [(i) => true, (i) => i % 2, (i) => i === n - 1, (i) => i === 0])
          await ctx.eval(`${o.name} of ${n} mails ${pattern}`, async () => {
            const mails = Array.from({ length: n }, (_, i) => ({ from: 'f@x.io', to: 't@x.io', subject: `s${i}`, ...(pattern(i) ? { react: el(`R${i}`) } : { html: `own${i}` }) }));
            renderer = (x) => `<html>${x.label}</html>`;
            const r = await rig.raw((c) => bind(c, o)(mails));
            if (r.threw || 'rejected' in r || r.hung) fail('the call did not resolve', r.threw ?? r.rejected);
            expectEqual(r.requests.length, 1, 'not exactly one request');
            expectEqual(jsonBody(r.requests[0]), mails.map(({ react, ...m }, i) => ({ ...m, html: react ? `<html>R${i}</html>` : `own${i}` })), 'the body is not the payload with the rendered html');
          });
    // nothing to render
    for (const react of FALSY)
      for (const html of [undefined, '', '<p>own</p>'])
        await ctx.eval(`${o.name} react ${String(react)} html ${JSON.stringify(html)}`, async () => {
          renderer = () => fail('something was rendered');
          const v = { ...base, ...(html === undefined ? {} : { html }), react };
          const r = await call(o, v);
          sentOk(o, v, html, r);
          expectEqual(r.renders.length, 0, 'something was rendered');
        });
    // failures
    for (const [tn, mk] of Object.entries(THROWN))
      for (const how of ['rejects', 'throws'])
        for (const html of [undefined, '<p>own</p>'])
          await ctx.eval(`${o.name} renderer ${how} ${tn} html ${html !== undefined}`, async () => {
            renderer = () => {
              if (how === 'throws') throw mk();
              return Promise.reject(mk());
            };
            const r = await call(o, { ...base, ...(html ? { html } : {}), react: el('R') });
            expectEqual(r.requests.length, 0, 'a request was made although rendering failed');
            expect('rejected' in r, 'the call did not reject although rendering failed', r);
          });
    for (const [kn, mk] of Object.entries(KINDS))
      for (const html of [undefined, '<p>own</p>'])
        await ctx.eval(`${o.name} renderer missing ${kn} html ${html !== undefined}`, async () => {
          const r = await call(o, { ...base, ...(html ? { html } : {}), react: mk() }, noRenderer);
          expectEqual(r.requests.length, 0, 'a request was made without a renderer');
          expect('rejected' in r, 'the call did not reject without a renderer', r);
        });
    await ctx.eval(`${o.name} renderer missing, no react`, async () => {
      const r = await call(o, { ...base, html: '<p>own</p>' }, noRenderer);
      sentOk(o, { ...base }, '<p>own</p>', r);
    });
    // chain
    if (o.name === 'templates.create')
      for (const bad of [false, true])
        await ctx.eval(`templates.create(react).publish ${bad}`, async () => {
          renderer = () => {
            if (bad) throw new Error('render failed');
            return '<html>R</html>';
          };
          const r = await rig.raw((c) => c.templates.create({ name: 'n', react: el('R') }).publish());
          if (bad) {
            expectEqual(r.requests.length, 0, 'a request was made although rendering failed');
            expect('rejected' in r, 'publish did not reject although rendering failed', r);
          } else expectEqual(r.requests.map((q) => q.path), ['/templates', '/templates/srv/publish'], 'wrong requests');
        });
    // every order of renderings, failures and answers
    const patterns = isBatch(o) ? ['R', 'RR', 'RP', 'PR', 'RPR', 'PRR', 'RRP', 'RRR'] : ['R'];
    for (const pat of patterns)
      for (const html of [false, true])
        await explore(
          ctx,
          {
            key: `scheduled ${o.name} ${pat}${html ? ' +html' : ''}`,
            make() {
              const world = new World({
                scheduleRender: true,
                renderAnswers: (n) => [{ label: 'ok', value: `<html>${n.label}</html>` }, { label: 'empty', value: '' }, { label: 'fails', error: new Error('render failed') }, { label: 'fails oddly', error: undefined }],
                answers: () => [
                  { label: 'ok', status: 200, json: { id: 'x' } },
                  { label: '422', status: 422, json: { name: 'e', message: 'm' }, atomic: true },
                  { label: 'lost', reject: new TypeError('x') },
                ],
              });
              const mails = [...pat].map((k, i) => ({ subject: `s${i}`, ...(k === 'P' || html ? { html: `own${i}` } : {}), ...(k === 'R' ? { react: el(`R${i}`) } : {}) }));
              const args = isBatch(o) ? [mails] : buildArgs(o, { ...pathValues(o), ...mails[0] });
              return {
                world,
                programs: [{ name: 'p', immediate: true, body: () => bind(world.client(), o)(...args) }],
                step(run) {
                  const ready = run.log.filter((l) => /^render.*→ (ok|empty)$/.test(l)).length;
                  if (world.requests.length && ready < [...pat].filter((k) => k === 'R').length) run.early = true;
                },
                final(run) {
                  const out = run.outcomes.p;
                  const bad = run.log.some((l) => /^render.*→ fails/.test(l));
                  expect(!run.early, 'a request was made before rendering had finished');
                  if (bad) {
                    expectEqual(world.requests.length, 0, 'a request was made although rendering failed');
                    expect('rejected' in out, 'the call did not reject although rendering failed', out);
                    return;
                  }
                  expect(!('rejected' in out), 'the call rejected', out.rejected);
                  expectEqual(world.requests.length, 1, 'not exactly one request');
                  const b = jsonBody(world.requests[0]);
                  const exp = [...pat].map((k, i) => {
                    const how = run.log.find((l) => l.startsWith(`render(R${i})`));
                    return { subject: `s${i}`, html: k === 'P' ? `own${i}` : /empty/.test(how) ? '' : `<html>R${i}</html>` };
                  });
                  expectEqual(isBatch(o) ? b : [b], exp, 'wrong content');
                },
              };
            },
          },
          { maxRuns: 100000 },
        );
  }
}
