// Shared driving code for the input-enumeration checks: call one operation of the real SDK in a closed world and
// compare what reached the wire with the reference table.
import { expect, expectEqual, fail, same } from './ctx.mjs';
import { bind, buildArgs, expectedBody, expectedPath, expectedQuery } from './ops.mjs';
import { BASE, World, jsonBody, jsonResponse, quiesce, settle } from './world.mjs';

/** A reusable client in a reusable world: `call` resets the recordings. For input enumeration only. */
export class Rig {
  constructor({ key, opts, world, drain } = {}) {
    this.drain = drain;
    this.world = new World({ ...(world ?? {}), answer: (rec, n) => this.answer(rec, n) });
    this.world.enter();
    try {
      this.client = this.world.client(...[key, opts].filter((x) => x !== undefined));
    } finally {
      this.world.leave();
    }
  }
  async raw(fn, answer, env) {
    const w = this.world;
    w.requests = [];
    w.console = [];
    w.renders = [];
    w.timers = [];
    w.timersFired = 0;
    w.onIdle = this.onIdle;
    w.env = env ?? { NODE_ENV: 'production' };
    this.answer = answer ?? (() => jsonResponse(200, { id: 'srv' }));
    w.enter();
    let outcome;
    try {
      outcome = await settle(w, () => fn(this.client));
      if (this.drain) {
        // let any leftover work show itself: microtasks, immediates and every pending timer
        await quiesce();
        for (let i = 0; i < 40 && w.fireTimer(); i++) await quiesce();
      }
    } finally {
      w.leave();
    }
    if (w.oracleFailure) {
      const e = w.oracleFailure;
      w.oracleFailure = undefined;
      throw e;
    }
    return { ...outcome, requests: w.requests, console: w.console, renders: w.renders };
  }
  async call(op, values, o = {}) {
    const args = o.args ?? buildArgs(op, values, o);
    const r = await this.raw(
      (c) => {
        const f = bind(c, op);
        if (!f) fail(`the client has no operation ${op.name}`);
        return f(...args);
      },
      o.answer ?? (() => jsonResponse(200, op.sample)),
      o.env,
    );
    r.args = args;
    return r;
  }
}

/** The single request an operation makes; fails when there is none or more than one. */
export function only(r) {
  if (r.threw) fail('the call threw synchronously', r.threw);
  if (r.rejected) fail('the call rejected', r.rejected);
  if (r.hung) fail('the call never settled');
  expect(r.requests.length === 1, `expected exactly one request, saw ${r.requests.length}`, () => r.requests.map((q) => `${q.method} ${q.path}${q.search}`));
  const q = r.requests[0];
  if (q.invalid) fail('the request could not be formed', q.invalid);
  return q;
}

/** A path where every segment decodes to the same text as in the expected one. */
export function samePath(actual, expected) {
  if (actual === expected) return true;
  const a = actual.split('/');
  const b = expected.split('/');
  if (a.length !== b.length) return false;
  try {
    return a.every((s, i) => decodeURIComponent(s) === decodeURIComponent(b[i]));
  } catch {
    return false;
  }
}
export function checkTarget(op, values, q) {
  expectEqual(q.method, op.verb, 'wrong verb');
  expectEqual(q.origin, BASE, 'wrong origin');
  expect(samePath(q.path, expectedPath(op, values)), 'wrong path', { actual: q.path, expected: expectedPath(op, values) });
}
const sorted = (q) => q.map((e) => JSON.stringify(e)).sort();
export function checkQuery(op, values, q) {
  expectEqual(sorted(q.query), sorted(expectedQuery(op, values)), 'wrong query parameters');
}
export function checkBody(op, values, q, expected = expectedBody(op, values)) {
  if (op.body === 'form') return;
  const actual = jsonBody(q);
  if (same(actual, expected)) return;
  // an update may repeat its identifier in the body
  if (actual && expected && typeof actual === 'object' && !Array.isArray(actual))
    for (const f of op.fields)
      if (f.mayEcho && Object.hasOwn(actual, f.wire) && same(actual, { ...expected, [f.wire]: values[f.name] })) return;
  fail('the body differs from what was supplied', { actual, expected });
}
export function checkRequest(op, values, q) {
  checkTarget(op, values, q);
  checkQuery(op, values, q);
  checkBody(op, values, q);
}
export const hasBodyFields = (op) => op.fields.some((f) => f.to === 'body');
export const hasQueryFields = (op) => op.fields.some((f) => f.to === 'query');
export function* subsets(list) {
  for (let m = 0; m < 1 << list.length; m++) yield list.filter((_, i) => m & (1 << i));
}
export const brief = (v) => {
  const s = typeof v === 'string' ? v : (JSON.stringify(v) ?? String(v));
  return s.length > 60 ? `${s.slice(0, 57)}…${s.length}` : s;
};
/** Everything observable about a request, comparable with `same` (multipart boundaries are random). */
export function wire(q) {
  if (q.invalid) return { invalid: String(q.invalid) };
  const headers = { ...q.headers };
  if (q.bodyKind === 'form') headers['content-type'] = (headers['content-type'] ?? '').replace(/boundary=.*/, 'boundary=*');
  return {
    method: q.method,
    url: `${q.origin}${q.path}${q.search}`,
    headers,
    body: q.bodyKind === 'form' ? q.form.map(([k, v]) => [k, typeof v === 'string' ? v : `${v.name}|${v.type}|${v.size}`]) : q.bodyKind === 'text' ? q.text : q.bodyKind,
  };
}
/** The same value with every two equal objects in it being one object; pool.reused says whether there were any. */
export function shared(v, pool) {
  if (typeof v !== 'object' || v === null || !(Array.isArray(v) || Object.getPrototypeOf(v) === Object.prototype)) return v;
  const r = Array.isArray(v) ? v.map((x) => shared(x, pool)) : Object.keys(v).reduce((o, k) => Object.defineProperty(o, k, { value: shared(v[k], pool), enumerable: true, writable: true, configurable: true }), {});
  const key = JSON.stringify(r, (k, x) => (typeof x === 'symbol' || x === undefined ? String(x) : x));
  if (pool.has(key)) pool.reused = true;
  else pool.set(key, r);
  return pool.get(key);
}
/** What a caller may do to a result it was given: overwrite, add to and empty every object in it. */
export function scramble(v, seen = new Set()) {
  if (typeof v !== 'object' || v === null || seen.has(v)) return;
  seen.add(v);
  for (const k of Reflect.ownKeys(v)) {
    const d = Object.getOwnPropertyDescriptor(v, k);
    if ('value' in d) scramble(d.value, seen);
    if (Array.isArray(v) && k === 'length') continue;
    try {
      v[k] = 'scrambled';
    } catch {}
  }
  try {
    if (Array.isArray(v)) v.push('added');
    else v.added = 'added';
  } catch {}
}
/** Comparable outcome of a settled call. */
export const outcomeOf = (r) => ('value' in r ? { value: r.value } : 'rejected' in r ? { rejected: String(r.rejected?.message ?? r.rejected) } : 'threw' in r ? { threw: String(r.threw?.message ?? r.threw) } : { hung: true });
const plain = (v) => typeof v === 'object' && v !== null && (Array.isArray(v) || Object.getPrototypeOf(v) === Object.prototype);
/** The client as seen by a program which puts every argument through `map(argument, 'emails.send', position)`. */
export function throughArguments(client, map, path = '') {
  return new Proxy(client, {
    get(t, k) {
      const v = Reflect.get(t, k, t);
      const at = path ? `${path}.${String(k)}` : String(k);
      if (typeof v === 'function') return (...a) => v.apply(t, a.map((x, i) => map(x, at, i)));
      return typeof v === 'object' && v !== null && typeof k === 'string' ? throughArguments(v, map, at) : v;
    },
  });
}
const likeness = (v) => JSON.stringify(v, (_, x) => (typeof x === 'symbol' || typeof x === 'function' || x === undefined ? String(x) : x));
/** Equal arguments are one and the same object. */
export const oneObject = (pool) => (v) => {
  if (!plain(v)) return v;
  const k = likeness(v);
  if (!pool.has(k)) pool.set(k, v);
  return pool.get(k);
};
/** Writes `from` into `to` in place, as far down as both are of one kind. */
export function overwrite(to, from) {
  if (to === from) return to;
  if (Array.isArray(to)) {
    to.length = Math.min(to.length, from.length);
    for (const [i, v] of from.entries()) to[i] = plain(to[i]) && plain(v) && Array.isArray(to[i]) === Array.isArray(v) ? overwrite(to[i], v) : v;
    return to;
  }
  const old = Object.assign(Object.create(null), Object.fromEntries(Object.entries(to)));
  for (const k of Reflect.ownKeys(to)) delete to[k];
  for (const k of Reflect.ownKeys(from)) {
    const value = plain(old[k]) && plain(from[k]) && Array.isArray(old[k]) === Array.isArray(from[k]) && k !== 'react' ? overwrite(old[k], from[k]) : from[k];
    Object.defineProperty(to, k, { value, enumerable: true, writable: true, configurable: true });
  }
  return to;
}
/** The objects of an earlier call are used again by the next one, overwritten with the new contents. */
export const sameObjects = (pool) => (v, at, i) => {
  const k = `${at}/${i}`;
  const old = pool.get(k);
  if (plain(v) && plain(old) && Array.isArray(v) === Array.isArray(old)) return overwrite(old, v);
  if (plain(v)) pool.set(k, v);
  return v;
};
