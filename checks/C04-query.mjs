// C04: pagination cursors and filters round-trip through the query string.
import { Rig, brief, checkBody, checkQuery, checkTarget, hasQueryFields, only, subsets } from '../lib/harness.mjs';
import { COUNTS, LENGTHS, stretch, text } from '../lib/alphabet.mjs';
import { OPS, baseValues } from '../lib/ops.mjs';
import { expectEqual } from '../lib/ctx.mjs';

export const level = 'exploration';
export const rule =
  'listing/metrics operation × every subset of its filters present × adversarial values of one and of two filters; every case is one real SDK call whose decoded query multiset is compared with the supplied filters';
export const bounds = (tier) =>
  `every operation with a query; filters of every size; all 2^n filter subsets; all single deviations in full and minimal option sets; all pairs of deviations${tier === 'quick' ? '' : ' in every 1-filter-removed context'}`;
export const assumptions = ['after and before are also tried together although the API documents them as exclusive', 'empty enum filters are not valid inputs'];

export async function run(ctx) {
  const rig = new Rig();
  const go = async (o, v) => {
    const q = only(await rig.call(o, v));
    checkTarget(o, v, q);
    checkQuery(o, v, q);
    expectEqual(q.bodyKind, 'none', 'a listing sent a body');
  };
  for (const o of OPS.filter(hasQueryFields)) {
    const fields = o.fields.filter((f) => f.to === 'query');
    const base = { ...baseValues(o) };
    for (const f of fields) base[f.name] ??= f.type.base(f.name);
    const fixed = Object.fromEntries(Object.entries(base).filter(([k]) => !fields.some((f) => f.name === k && !f.req)));
    const vals = new Map(
      fields.map((f) => [f, f.type.more(f.name).filter((v) => (f.keepsEmpty === false ? v !== '' && v !== 0 : true) && (v !== '' || f.keepsEmpty))]),
    );
    for (const s of subsets(fields.filter((f) => !f.req)))
      await ctx.eval(`${o.name} {${s.map((f) => f.name)}}`, () => go(o, { ...fixed, ...Object.fromEntries(s.map((f) => [f.name, base[f.name]])) }));
    for (const f of fields)
      for (const [i, v] of vals.get(f).entries())
        for (const [n, b] of [
          ['full', base],
          ['minimal', fixed],
        ])
          await ctx.eval(`${o.name} ${n} ${f.name}#${i}=${brief(v)}`, () => go(o, { ...b, [f.name]: v }), v);
    for (const f of fields) {
      const b = base[f.name];
      // lists: every sequence of the documented values, repeated ones included, and every size
      const lists = [b, ...f.type.more(f.name)].filter(Array.isArray);
      if (lists.length) {
        const atoms = [...new Set([b, ...f.type.more(f.name)].flat())].filter((x) => typeof x === 'string');
        const grow = (l, n) => (n === 0 ? [l] : [l, ...atoms.slice(0, 8).flatMap((a) => grow([...l, a], n - 1))]);
        for (const l of grow([], ctx.quick ? 4 : 5)) if (l.length) await ctx.eval(`${o.name} ${f.name} [${l}]`, () => go(o, { ...fixed, [f.name]: l }));
        for (const n of COUNTS[ctx.tier].filter((x) => x > 0 && x <= 2500)) await ctx.eval(`${o.name} ${f.name} with ${n} of its values`, () => go(o, { ...base, [f.name]: Array.from({ length: n }, (_, i) => atoms[(i * 7) % atoms.length]) }));
      }
      if (Array.isArray(b)) for (const n of COUNTS[ctx.tier].filter((x) => x > 0 && x <= 2500)) await ctx.eval(`${o.name} ${f.name} with ${n} entries`, () => go(o, { ...fixed, [f.name]: stretch(b, n) }));
      if (typeof b === 'string' && !f.type.fixed) for (const n of LENGTHS[ctx.tier].filter((x) => x > 0 && x <= 8200)) await ctx.eval(`${o.name} ${f.name} of length ${n}`, () => go(o, { ...fixed, [f.name]: text(n) }));
      if (f.name === 'limit') for (let n = 1; n <= (ctx.quick ? 260 : 3000); n++) await ctx.eval(`${o.name} limit ${n}`, () => go(o, { ...fixed, limit: n }));
    }
    for (let i = 0; i < fields.length; i++)
      for (let j = i + 1; j < fields.length; j++)
        for (const [a, va] of vals.get(fields[i]).entries())
          for (const [b, vb] of vals.get(fields[j]).entries()) {
            const contexts = ctx.quick ? [[null, base]] : [[null, base], ['-', fixed], ...fields.filter((f) => !f.req).map((f) => [f.name, Object.fromEntries(Object.entries(base).filter(([k]) => k !== f.name))])];
            for (const [cn, c] of contexts)
              await ctx.eval(`${o.name} pair ${fields[i].name}#${a} ${fields[j].name}#${b} ${cn ?? ''}`, () => go(o, { ...c, [fields[i].name]: va, [fields[j].name]: vb }));
          }
  }
}
