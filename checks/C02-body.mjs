// C02: the JSON body is exactly the supplied options under wire names.
import { Rig, brief, checkBody, checkTarget, hasBodyFields, only, subsets } from '../lib/harness.mjs';
import { HUGE, LENGTHS, WORDS, resized } from '../lib/alphabet.mjs';
import { OPS, baseValues, emailFieldList, expectedFields } from '../lib/ops.mjs';
import { jsonBody } from '../lib/world.mjs';
import { expect, expectEqual } from '../lib/ctx.mjs';

export const level = 'exploration';
export const shards = { quick: 8, thorough: 8 };
export const rule =
  'operation × (every subset of its body fields present) and × (every single value of each field’s alphabet, in full and in minimal payloads) and × (pairs of deviating fields); every case is one real SDK call whose parsed body is compared with the reference conversion; distinct by key';
export const bounds = (tier) =>
  `all 2^n field subsets of every operation (n ≤ 14); all single-field value deviations in full and in minimal payloads; every field in every size (text lengths, list lengths, key counts, nesting depths around powers of two and round numbers, up to 1 MB); pairs of deviating fields: ${tier === 'quick' ? 'first three values of each field' : 'all value pairs of all field pairs'}`;
export const assumptions = ['attachments given as Buffer are compared after JSON encoding of the Buffer', 'React payloads are C17, batches of several mails C18, form uploads C25, step graphs in depth C26'];

export async function run(ctx) {
  const rig = new Rig();
  const one = async (o, values) => {
    const r = await rig.call(o, values);
    const q = only(r);
    checkTarget(o, values, q);
    checkBody(o, values, q);
  };
  const batchOne = async (o, values) => {
    const r = await rig.call(o, {}, { emails: [values] });
    const q = only(r);
    const b = jsonBody(q);
    expect(Array.isArray(b) && b.length === 1, 'batch body is not a one-entry list', b);
    expectEqual(b[0], expectedFields(emailFieldList, values), 'the batch entry differs from what was supplied');
  };
  for (const o of OPS) {
    const batch = o.body === 'batch';
    if (!batch && (!hasBodyFields(o) || o.body === 'form')) continue;
    const fields = batch ? emailFieldList : o.fields.filter((f) => f.to === 'body');
    const go = batch ? batchOne : one;
    const base = batch ? Object.fromEntries(fields.map((f) => [f.name, f.type.base(f.name)])) : baseValues(o);
    const rest = Object.fromEntries(Object.entries(base).filter(([k]) => !fields.some((f) => f.name === k)));
    const opt = fields.filter((f) => !f.req);
    const req = Object.fromEntries(fields.filter((f) => f.req).map((f) => [f.name, base[f.name]]));
    for (const s of subsets(opt)) {
      const key = `${o.name} fields{${s.map((f) => f.name).join(',')}}`;
      if (ctx.want(key)) await ctx.eval(key, () => go(o, { ...rest, ...req, ...Object.fromEntries(s.map((f) => [f.name, base[f.name]])) }), s.length ? undefined : 'minimal');
    }
    const vals = new Map(fields.map((f) => [f, f.type.more(f.name)]));
    for (const f of fields)
      for (const [i, v] of vals.get(f).entries())
        for (const [ctxName, b] of [
          ['full', base],
          ['minimal', { ...rest, ...req }],
        ])
          await ctx.eval(`${o.name} ${ctxName} ${f.name}#${i}=${brief(v)}`, () => go(o, { ...b, [f.name]: v }), v);
    // words that programs like to give a meaning of their own
    for (const f of fields.filter((x) => !x.type.fixed)) {
      const texts = typeof base[f.name] === 'string' ? WORDS : Array.isArray(base[f.name]) && typeof base[f.name][0] === 'string' ? WORDS.flatMap((w) => [[w], [w, ...base[f.name]]]) : [];
      for (const v of texts) {
        await ctx.eval(`${o.name} minimal ${f.name} word ${brief(v)}`, () => go(o, { ...rest, ...req, [f.name]: v }));
        await ctx.eval(`${o.name} full ${f.name} word ${brief(v)}`, () => go(o, { ...base, [f.name]: v }));
      }
    }
    for (const f of fields)
      for (const [i, v] of f.type.deep(f.name).entries())
        for (const [ctxName, b] of [
          ['full', base],
          ['minimal', { ...rest, ...req }],
        ])
          await ctx.eval(`${o.name} ${ctxName} ${f.name} item#${i}=${brief(v)}`, () => go(o, { ...b, [f.name]: v }), v);
    // the same value in two fields, in all of them, and lists which overlap
    const texts = (f) => !f.type.fixed && !f.type.closed && (typeof base[f.name] === 'string' || f.type.more(f.name).some((v) => typeof v === 'string'));
    const lists = (f) => [base[f.name], ...f.type.more(f.name)].some((v) => Array.isArray(v) && v.length && v.every((x) => typeof x === 'string'));
    const LISTS = [['a@b.c'], ['a@b.c', 'd@e.f'], ['d@e.f', 'a@b.c'], ['d@e.f', 'g@h.i'], ['a@b.c', 'a@b.c']];
    const sorts = (f) => [...(texts(f) ? ['a@b.c', 'Same Text', '<p>same</p>', '1'] : []), ...(lists(f) ? LISTS : [])];
    for (const [i, f] of fields.entries())
      for (const g of fields.slice(i + 1))
        for (const v of sorts(f))
          for (const w of sorts(g)) {
            const overlap = v === w || (Array.isArray(v) ? v : [v]).some((x) => (Array.isArray(w) ? w : [w]).includes(x));
            if (!overlap) continue;
            const key = `${o.name} ${f.name}=${brief(v)} ${g.name}=${brief(w)} overlapping`;
            await ctx.eval(`${key}, minimal`, () => go(o, { ...rest, ...req, [f.name]: v, [g.name]: w }));
            await ctx.eval(`${key}, full`, () => go(o, { ...base, [f.name]: v, [g.name]: w }));
          }
    for (const v of ['a@b.c', 'Same Text', '1', ...LISTS]) {
      const all = fields.filter((f) => (Array.isArray(v) ? lists(f) : texts(f)));
      if (all.length > 1) await ctx.eval(`${o.name} every possible field ${brief(v)}`, () => go(o, { ...base, ...Object.fromEntries(all.map((f) => [f.name, v])) }));
    }
    // every field in every size
    for (const f of fields) {
      if (f.type.fixed) continue;
      // in the style of the base value and, where texts and lists are both accepted, in the other one
      const other = f.type.more(f.name).find((v) => (typeof v === 'string') !== (typeof base[f.name] === 'string') && (typeof v === 'string' || Array.isArray(v)) && v.length && typeof (v[0] ?? '') === 'string' && (typeof base[f.name] === 'string' || Array.isArray(base[f.name])));
      const sizes = [...resized(base[f.name], ctx.tier, f.type.closed), ...(other === undefined ? [] : [...resized(other, ctx.tier)].map(([l, v]) => [`${l} (${typeof other})`, v]))];
      if (typeof other === 'string' || (other && typeof base[f.name] === 'string')) for (const n of [3, 5, 10, 51, 101]) sizes.push([`${n} joined`, Array.from({ length: n }, (_, i) => `r${n - i}@x.io`).join(n % 2 ? ', ' : ',')]);
      for (const [label, v] of sizes) {
        const key = `${o.name} ${f.name} with ${label}`;
        if (ctx.want(key)) await ctx.eval(key, () => go(o, { ...rest, ...req, [f.name]: v }));
        if (ctx.quick) continue;
        const full = `${key} beside all others`;
        if (ctx.want(full)) await ctx.eval(full, () => go(o, { ...base, [f.name]: v }));
      }
    }
    // attachments of bytes, of every size
    if (fields.some((f) => f.name === 'attachments'))
      for (const n of [...LENGTHS[ctx.tier].filter((x) => !ctx.quick || x < 200000), ...(ctx.quick ? [300007] : HUGE[ctx.tier].filter((x) => x < 1200000))]) {
        const bytes = () => Buffer.from(Array.from({ length: n }, (_, i) => (i * 31 + (i >> 8)) & 255));
        for (const [label, v] of [
          ['bytes', () => [{ filename: 'a.bin', content: bytes() }]],
          ['bytes among others', () => [{ filename: 'first', content: 'aGk=' }, { content: bytes(), contentType: 'application/pdf', contentId: 'c' }, { filename: 'last', path: 'https://f.example.com/x' }]],
        ])
          await ctx.eval(`${o.name} attachments ${label} ${n}`, () => go(o, { ...rest, ...req, attachments: v() }));
      }
    // each value beside exactly one other field, and with exactly one other field missing
    for (const f of fields)
      for (const [i, v] of vals.get(f).entries())
        for (const g of opt) {
          if (f === g) continue;
          const { [g.name]: _, ...without } = base;
          const a = `${o.name} ${f.name}#${i} with only ${g.name}`;
          if (ctx.want(a)) await ctx.eval(a, () => go(o, { ...rest, ...req, [g.name]: base[g.name], [f.name]: v }));
          const b = `${o.name} ${f.name}#${i} without ${g.name}`;
          if (ctx.want(b)) await ctx.eval(b, () => go(o, { ...without, [f.name]: v }));
        }
    for (let i = 0; i < fields.length; i++)
      for (let j = i + 1; j < fields.length; j++) {
        const [f, g] = [fields[i], fields[j]];
        const cut = ctx.quick ? 3 : 99;
        for (const [a, va] of vals.get(f).slice(0, cut).entries())
          for (const [b, vb] of vals.get(g).slice(0, cut).entries()) {
            const key = `${o.name} pair ${f.name}#${a} ${g.name}#${b}`;
            if (ctx.want(key)) await ctx.eval(key, () => go(o, { ...base, [f.name]: va, [g.name]: vb }));
          }
      }
  }
}
