// C26: automation steps and connections arrive in order, one-to-one, with every configuration value.
import { expectEqual } from '../lib/ctx.mjs';
import { COUNTS, DEPTHS, HUGE, LENGTHS, deep, text, wide } from '../lib/alphabet.mjs';
import { Rig, brief, only, samePath, shared, subsets } from '../lib/harness.mjs';
import { convStep, detach, viaJSON } from '../lib/ops.mjs';
import { expect } from '../lib/ctx.mjs';
import { jsonBody } from '../lib/world.mjs';

export const level = 'exploration';
export const shards = { quick: 6, thorough: 8 };
export const rule =
  'create and update × step type × every subset of its configuration fields × each field at each value of its alphabet (and pairs of fields) × position; every step list up to a length over an alphabet of steps; every connection list up to a length over an alphabet of connections; every subset of update parts incl. empty lists; compared with the reference wire form; distinct by key';
export const bounds = (tier) => `every number of steps, connections, rules, variables, every length of text and depth of nesting; all step lists up to length ${tier === 'quick' ? 3 : 4} over 15 steps; connection lists up to length ${tier === 'quick' ? 3 : 5} over 8 connections; condition trees over every operator, rule lists up to length ${tier === 'quick' ? 3 : 5}, nesting depth 3; variable and property values: pairs over 18 kinds`;
export const assumptions = ['steps have the documented types and fields'];

const STR = ['', '0', 'null', 'é日😀', 'eventName', '{"a":1}', 'x'.repeat(2000)];
const RULES = [
  { type: 'rule', field: 'firstName', operator: 'eq', value: null },
  { type: 'rule', field: 'event_name', operator: 'neq', value: false },
  { type: 'rule', field: 'a.b', operator: 'gte', value: 0 },
  { type: 'rule', field: '', operator: 'contains', value: '' },
  { type: 'rule', field: 'f', operator: 'is_empty' },
  { type: 'and', rules: [] },
  { type: 'or', rules: [{ type: 'rule', field: 'replyTo', operator: 'eq', value: 'x' }, { type: 'and', rules: [{ type: 'rule', field: 'segmentId', operator: 'lt', value: -1.5 }, { type: 'or', rules: [] }] }] },
];
const OPERATORS = { eq: ['x', 0, true, null, ''], neq: [false, -1, null], gt: [0, 1.5], gte: [-1], lt: [1e21], lte: [0], contains: ['', 'é'], starts_with: ['a'], ends_with: ['z '], exists: [], is_empty: [] };
const LEAVES = Object.entries(OPERATORS).flatMap(([operator, vs]) => (vs.length ? vs.map((value) => ({ type: 'rule', field: 'contact.firstName', operator, value })) : [{ type: 'rule', field: 'f', operator }]));
/** every list of up to n rules (in every order, with repetitions) */
const lists = (rules, n) => {
  let out = [[]];
  for (let k = 0, level = [[]]; k < n; k++) out = out.concat((level = level.flatMap((l) => rules.map((r) => [...l, r]))));
  return out;
};
const SMALL = [LEAVES[1], LEAVES.at(-1), { type: 'and', rules: [] }, { type: 'or', rules: [LEAVES[0]] }];
const TREES = (max) => [
  ...LEAVES,
  ...['and', 'or'].flatMap((type) => lists(SMALL, max).map((rules) => ({ type, rules }))),
  ...['and', 'or'].flatMap((type) => ['and', 'or'].flatMap((inner) => lists(SMALL, 2).map((rules) => ({ type, rules: [SMALL[1], { type: inner, rules }, SMALL[0]] })))),
];
const TEMPLATES = [
  { id: 't' },
  { id: '', variables: {} },
  { id: 't', variables: { replyTo: { var: 'contact.firstName' }, eventName: 'y', snake_key: 0, flag: false, list: ['a', 1, { filterRule: 'z' }], obj: { segmentId: 's', n: 0 } } },
  { id: 't', variables: JSON.parse('{"__proto__":"p","empty":""}') },
];
const NAME = [null, '', 'Ada', { var: 'event.firstName' }];
// type -> {field: [required?, values]}
const TYPES = {
  trigger: { eventName: [true, ['user.created', ...STR]] },
  delay: { duration: [true, ['1 hour', ...STR]] },
  send_email: { template: [true, TEMPLATES], subject: [false, ['Hi', ...STR]], from: [false, ['a@example.com', ...STR]], replyTo: [false, ['r@example.com', ...STR]] },
  wait_for_event: { eventName: [true, ['e', ...STR]], timeout: [false, ['3 days', ...STR]], filterRule: [false, RULES] },
  contact_update: { firstName: [false, ['Ada', ...NAME]], lastName: [false, ['L', ...NAME]], unsubscribed: [false, [true, false, { var: 'x' }]], properties: [false, [{ firstName: 0, segmentId: null, t: true, e: '', v: { var: 'eventName' } }, {}]] },
  contact_delete: {},
  add_to_segment: { segmentId: [true, ['seg', ...STR]] },
};

export async function run(ctx) {
  const rig = new Rig();
  const conv = (p) => viaJSON({ ...p, ...(p.steps ? { steps: p.steps.map(convStep) } : {}), ...(p.connections ? { connections: p.connections.map(({ from, to, type }) => ({ from, to, type })) } : {}) });
  const check = async (how, payload) => {
    const want = conv(payload);
    const given = detach(payload);
    // one object in several places is as good as several equal ones
    const pool = new Map();
    const one = shared(given, pool);
    payload = null;
    await checkOne(how, given, want);
    if (pool.reused) await checkOne(how, one, want);
  };
  const checkOne = async (how, given, want) => {
    const r = await rig.raw((c) => (how === 'create' ? c.automations.create(given) : c.automations.update('auto_1', given)));
    const q = only(r);
    expectEqual(q.method, how === 'create' ? 'POST' : 'PATCH', 'wrong verb');
    expect(samePath(q.path, how === 'create' ? '/automations' : '/automations/auto_1') && q.search === '', 'wrong path', q.path);
    expectEqual(jsonBody(q), want, 'the automation differs from what was supplied');
  };
  const both = async (key, steps, connections = []) => {
    await ctx.eval(`create ${key}`, () => check('create', { name: 'n', status: 'enabled', steps, connections }));
    await ctx.eval(`update ${key}`, () => check('update', { steps, connections }));
  };
  const filler = { key: 'f', type: 'delay', config: { duration: '1 day' } };

  for (const [type, fields] of Object.entries(TYPES)) {
    const names = Object.keys(fields);
    for (const sub of subsets(names)) {
      if (names.some((n) => fields[n][0] && !sub.includes(n))) continue;
      const base = Object.fromEntries(sub.map((n) => [n, fields[n][1][0]]));
      const at = async (key, config) => {
        const step = { key: 'k', type, config };
        for (const [pos, list] of Object.entries({ only: [step], first: [step, filler], last: [filler, step] })) await both(`${type} ${pos} ${key}`, list);
      };
      await at(`{${sub}}`, base);
      // fields given as undefined are as good as absent
      await at(`{${sub}} rest undefined`, { ...Object.fromEntries(names.map((n) => [n, undefined])), ...base });
      for (const n of sub) for (const [i, v] of fields[n][1].entries()) await at(`{${sub}} ${n}=${i} ${brief(v)}`, { ...base, [n]: v });
      for (const [a, n] of sub.entries())
        for (const m of sub.slice(a + 1))
          for (const [i, v] of fields[n][1].entries()) for (const [j, w] of fields[m][1].entries()) await both(`${type} {${sub}} ${n}=${i} ${m}=${j}`, [{ key: 'k', type, config: { ...base, [n]: v, [m]: w } }]);
    }
  }
  for (const [i, rule] of RULES.entries()) await both(`condition ${i}`, [{ key: 'c', type: 'condition', config: rule }, filler]);
  for (const [i, tree] of TREES(ctx.quick ? 3 : 5).entries()) {
    await both(`condition tree ${i}`, [{ key: 'c', type: 'condition', config: tree }]);
    await both(`wait for tree ${i}`, [{ key: 'w', type: 'wait_for_event', config: { eventName: 'e', filterRule: tree } }]);
  }
  // every kind of value a template variable or a contact property can take, alone and next to another
  const VALUES = ['x', '', '0', 0, -1.5, 1e21, true, false, null, { var: 'contact.firstName' }, { var: '' }, {}, { a: 'b', n: 0, f: false }, [], ['b', 'a', 'b'], [0, true, ''], [{ eventName: 'x' }, { b: 0 }], { var: 'x', other: 1 }];
  const VNAMES = ['name', 'firstName', 'reply_to', ' pad ', '', '1', 'var', 'constructor'];
  for (const [i, v] of VALUES.entries()) {
    for (const n of VNAMES) {
      await both(`variable ${n}=${i}`, [{ key: 's', type: 'send_email', config: { template: { id: 't', variables: { [n]: v } } } }]);
      await both(`property ${n}=${i}`, [{ key: 'u', type: 'contact_update', config: { properties: { [n]: v } } }]);
    }
    for (const [j, w] of VALUES.entries()) {
      await both(`variables ${i},${j}`, [{ key: 's', type: 'send_email', config: { template: { id: 't', variables: { zeta: v, alpha: w } } } }]);
      await both(`properties ${i},${j}`, [{ key: 'u', type: 'contact_update', config: { properties: { zeta: v, alpha: w } } }]);
    }
  }
  for (const key of STR) await both(`key ${brief(key)}`, [{ key, type: 'trigger', config: { eventName: 'e' } }, { key, type: 'contact_delete', config: {} }]);

  // step lists
  const STEPS = [
    { key: 'a', type: 'trigger', config: { eventName: 'e1' } },
    { key: 'b', type: 'trigger', config: { eventName: 'e2' } },
    { key: 'a', type: 'delay', config: { duration: '1 hour' } },
    { key: 'c', type: 'send_email', config: { template: { id: 't' } } },
    { key: 'c', type: 'send_email', config: { template: TEMPLATES[2], subject: '', from: 'f@x.io', replyTo: '' } },
    { key: 'd', type: 'wait_for_event', config: { eventName: 'w' } },
    { key: 'd', type: 'wait_for_event', config: { eventName: 'w', timeout: '', filterRule: RULES[6] } },
    { key: 'e', type: 'condition', config: RULES[0] },
    { key: 'e', type: 'condition', config: RULES[6] },
    { key: 'g', type: 'contact_update', config: {} },
    { key: 'g', type: 'contact_update', config: { firstName: null, lastName: '', unsubscribed: false, properties: {} } },
    { key: 'h', type: 'contact_delete', config: {} },
    { key: 'i', type: 'add_to_segment', config: { segmentId: 's1' } },
    { key: '', type: 'add_to_segment', config: { segmentId: '' } },
    { key: 'constructor', type: 'delay', config: { duration: '' } },
  ];
  const maxS = ctx.quick ? 3 : 4;
  const steps = async (l, name) => {
    await both(`steps [${name}]`, l);
    if (l.length < maxS) for (const [i, s] of STEPS.entries()) await steps([...l, s], `${name}${name ? ',' : ''}${i}`);
  };
  await steps([], '');
  const many = Array.from({ length: 60 }, (_, i) => ({ ...STEPS[(i * 7) % STEPS.length], key: `k${59 - i}` }));
  await both('60 steps', many, many.slice(1).map((s, i) => ({ from: many[i].key, to: s.key })));

  // connection lists
  const CONNS = [
    { from: 'a', to: 'b' },
    { from: 'b', to: 'a' },
    { from: 'a', to: 'b', type: 'default' },
    { from: 'a', to: 'c', type: 'condition_met' },
    { from: 'a', to: 'c', type: 'condition_not_met' },
    { from: 'a', to: 'a', type: 'timeout' },
    { from: '', to: '', type: 'event_received' },
    { from: 'a', to: 'b', type: undefined },
  ];
  const maxC = ctx.quick ? 3 : 5;
  const conns = async (l, name) => {
    await both(`connections [${name}]`, [filler], l);
    if (l.length < maxC) for (const [i, s] of CONNS.entries()) await conns([...l, s], `${name}${i}`);
  };
  await conns([], '');

  // every size: steps, connections (also repeated ones), keys, configuration values, variables, rules, nesting
  for (const n of COUNTS[ctx.tier].filter((x) => x <= 2049)) {
    const l = Array.from({ length: n }, (_, i) => ({ ...STEPS[(i * 7) % STEPS.length], key: `k${n - i}` }));
    await both(`${n} steps`, l);
    await both(`${n} steps in a row`, l, l.slice(1).map((s, i) => ({ from: l[i].key, to: s.key })));
    await both(`${n} connections`, [filler], Array.from({ length: n }, (_, i) => ({ from: `a${n - i}`, to: `b${(i * 31) % 17}`, ...(i % 3 ? { type: ['default', 'timeout', 'event_received', 'condition_met', 'condition_not_met'][i % 5] } : {}) })));
    await both(`${n} equal connections`, [filler], Array.from({ length: n }, () => ({ from: 'a', to: 'b' })));
    await both(`${n} steps with one key`, Array.from({ length: n }, (_, i) => ({ key: 'same', type: 'delay', config: { duration: `${i} hours` } })));
    await both(`${n} rules`, [{ key: 'c', type: 'condition', config: { type: 'and', rules: Array.from({ length: n }, (_, i) => LEAVES[(i * 5) % LEAVES.length]) } }]);
    await both(`${n} variables and properties`, [
      { key: 's', type: 'send_email', config: { template: { id: 't', variables: wide(n) } } },
      { key: 'u', type: 'contact_update', config: { properties: wide(n) } },
    ]);
    await both(`list of ${n} in a variable`, [{ key: 's', type: 'send_email', config: { template: { id: 't', variables: { list: Array.from({ length: n }, (_, i) => n - i) } } } }]);
  }
  for (const n of [...LENGTHS[ctx.tier], ...HUGE[ctx.tier]]) {
    const s = text(n);
    await both(`key of length ${n}`, [{ key: s, type: 'trigger', config: { eventName: 'e' } }, filler], [{ from: s, to: 'f' }]);
    for (const [type, fields] of Object.entries(TYPES))
      for (const [f, [, vs]] of Object.entries(fields)) {
        if (typeof vs[0] !== 'string') continue;
        if (n > 400_000 && f !== 'subject') continue;
        await both(`${type} ${f} of length ${n}`, [{ key: 'k', type, config: { ...Object.fromEntries(Object.entries(fields).filter(([, [req]]) => req).map(([k, [, v]]) => [k, v[0]])), [f]: s } }]);
      }
    await both(`variable of length ${n}`, [{ key: 's', type: 'send_email', config: { template: { id: s, variables: { v: s, list: ['x', s], obj: { s } } } } }]);
    await both(`property of length ${n}`, [{ key: 'u', type: 'contact_update', config: { properties: { v: s } } }]);
    await both(`rule value of length ${n}`, [{ key: 'c', type: 'condition', config: { type: 'rule', field: s, operator: 'eq', value: s } }]);
  }
  for (const n of DEPTHS[ctx.tier]) {
    let rule = LEAVES[0];
    for (let i = 0; i < n; i++) rule = { type: i % 2 ? 'and' : 'or', rules: [LEAVES[i % LEAVES.length], rule] };
    await both(`rules nested ${n} deep`, [{ key: 'c', type: 'condition', config: rule }, { key: 'w', type: 'wait_for_event', config: { eventName: 'e', filterRule: rule } }]);
    await both(`variable nested ${n} deep`, [{ key: 's', type: 'send_email', config: { template: { id: 't', variables: { tree: deep(n) } } } }]);
  }

  // an update sends exactly the supplied parts
  const PARTS = { name: ['n', '', undefined], status: ['enabled', 'disabled', undefined], steps: [[STEPS[0]], [], undefined], connections: [[CONNS[0]], [], undefined] };
  const parts = async (names, p, key) => {
    if (!names.length) return ctx.eval(`parts ${key}`, () => check('update', p));
    const [n, ...rest] = names;
    await parts(rest, p, `${key}-`);
    for (const [i, v] of PARTS[n].entries()) await parts(rest, { ...p, [n]: v }, `${key}${i}`);
  };
  await parts(Object.keys(PARTS), {}, '');
  const cparts = async (names, p, key) => {
    if (!names.length) return ctx.eval(`create parts ${key}`, () => check('create', { ...p, name: 'n' }));
    const [n, ...rest] = names;
    if (n === 'status') await cparts(rest, p, `${key}-`);
    for (const [i, v] of PARTS[n].entries()) if (v !== undefined || n === 'status') await cparts(rest, { ...p, [n]: v }, `${key}${i}`);
  };
  await cparts(['status', 'steps', 'connections'], {}, '');
}
