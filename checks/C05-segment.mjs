// C05: an identifier stays in its own path segment. Pinned known findings: operations that interpolate raw.
import { expect, fail } from '../lib/ctx.mjs';
import { Rig, brief, checkBody, checkQuery, only, samePath } from '../lib/harness.mjs';
import { LENGTHS, ODD_IDS, ODD_MAILS } from '../lib/alphabet.mjs';
import { OPS, baseValues, expectedPath, minimalValues } from '../lib/ops.mjs';
import { BASE, jsonResponse } from '../lib/world.mjs';

export const level = 'exploration';
export const rule =
  'operation × identifier position × adversarial identifier × (full, minimal) other arguments; every case is one real SDK call whose wire path is split into segments and decoded; distinct by key';
export const bounds = (tier) => `all identifier positions of all operations; ${tier === 'quick' ? 'a ${ALPHABET.length}-value alphabet, adversarial and unusual, and every length around powers of two and round numbers' : 'the alphabet plus every string of length ≤ 2 over 24 reserved and ordinary characters'}`;
export const assumptions = ['raw interpolation at a listed call site is a known finding; any other deviation there is still a violation'];

const ALPHABET = [
  'a/b', '/', '//x', 'a/', '/a', '../x', './a', '...', 'a/../b', '../../api-keys',
  'a?b', '?', 'a?limit=1&x', 'a#b', '#', 'a%2Fb', 'a%b', '%', '%%', '%2e%2e', 'a%20b', '%zz',
  'a b', ' a', 'a ', 'a\tb', 'a\nb', 'a\\b', '\\..\\x', 'a;b=c', 'a&b=c', 'a+b', 'a:b', 'https://evil.example', '@evil.example',
  ...ODD_IDS, ...ODD_MAILS,
  'é', '日本/語', '😀', "o'hara+x@example.com", '"quoted local"@example.com', 'a"b<c>|^`{}[]', 'A'.repeat(2000) + '/z',
];
const CHARS = ['a', '0', '.', '/', '?', '#', '%', '&', '=', '+', ' ', ':', ';', '@', '\\', '\n', '"', '<', '{', '[', '^', '~', 'é', '2'];
const ALL2 = ['', ...CHARS].flatMap((a) => CHARS.map((b) => a + b));

const SIZED = (tier) => LENGTHS[tier].filter((n) => n > 10 && n <= 10001 && (tier !== 'quick' || n % 2)).map((n) => `a/b?c#d%e f${'x'.repeat(n - 11)}`);

const rawPath = (o, v) => o.path.replace(/:([A-Za-z]+)/g, (_, n) => v[n]);
const wireOf = (path, query) => {
  try {
    const u = new URL(`${BASE}${path}${query.length ? `?${new URLSearchParams(query)}` : ''}`);
    return `${u.pathname}${u.search}`;
  } catch {
    return null;
  }
};

export async function run(ctx) {
  const rig = new Rig();
  for (const o of OPS)
    for (const f of o.fields.filter((x) => x.to === 'path'))
      for (const [form, base] of [
        ['minimal', minimalValues(o)],
        ['full', baseValues(o)],
      ])
        for (const id of new Set([...ALPHABET, ...(form === 'minimal' ? SIZED(ctx.tier) : []), ...(ctx.quick ? [] : ALL2)])) {
          if (id === '.' || id === '..') continue; // no URL path can carry a bare dot segment
          const v = { ...base, [f.name]: id };
          await ctx.eval(`${o.name} ${f.name}=${JSON.stringify(brief(id))} ${form}`, async () => {
            const q = only(await rig.call(o, v));
            let ok = samePath(q.path, expectedPath(o, v)) && q.path.split('/').length === o.path.split('/').length && q.origin === BASE && q.method === o.verb;
            let why;
            if (ok)
              try {
                checkQuery(o, v, q);
                checkBody(o, v, q);
              } catch (e) {
                ok = false;
                why = e;
              }
            if (ok) return;
            // which deviation is it? The query the operation builds itself is independent of the identifier
            const clean = only(await rig.call(o, base));
            const extra = clean.query;
            const got = `${q.path}${q.search}`;
            const site = { finding: `${o.name} ${f.name}` };
            const sameRest = q.origin === BASE && q.method === o.verb;
            if (sameRest && got === wireOf(rawPath(o, v), extra)) fail('the identifier escaped its path segment', { identifier: id, wire: got }, { ...site, sig: 'raw-interpolation' });
            fail('the identifier escaped its path segment', { identifier: id, wire: got, origin: q.origin, why }, { finding: `${o.name} ${f.name} ${brief(id)}`, sig: 'other' });
          });
        }
  for (const id of new Set([...ALPHABET, ...SIZED(ctx.tier), ...(ctx.quick ? [] : ALL2)])) {
    if (id === '.' || id === '..') continue;
    for (const passthrough of [true, false])
      await ctx.eval(`forward emailId=${JSON.stringify(brief(id))} ${passthrough}`, async () => {
        const q = only(
          await rig.raw(
            (c) => c.emails.receiving.forward({ emailId: id, to: 't@x.io', from: 'f@x.io', passthrough, text: 't' }),
            () => jsonResponse(404, { name: 'not_found', message: 'no' }),
          ),
        );
        if (q.origin === BASE && q.search === '' && samePath(q.path, `/emails/receiving/${encodeURIComponent(id)}`)) return;
        const got = `${q.path}${q.search}`;
        fail('the identifier escaped its path segment', { identifier: id, wire: got }, got === wireOf(`/emails/receiving/${id}`, []) ? { finding: 'emails.receiving.forward emailId', sig: 'raw-interpolation' } : { sig: 'other' });
      });
  }
}
