// Per-check context inside one worker: case selection (shard / replay), counting, failure collection.
import fs from 'node:fs';
import { isDeepStrictEqual, inspect } from 'node:util';

export class Fail extends Error {
  constructor(message, detail, extra = {}) {
    super(message);
    this.detail = detail;
    Object.assign(this, extra);
  }
}
function fnv(s) {
  let h = 0x811c9dc5;
  for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 0x01000193);
  return h >>> 0;
}
export const show = (v, n = 700) => {
  const s = typeof v === 'string' ? v : inspect(v, { depth: 8, breakLength: 160, maxStringLength: 200, maxArrayLength: 20 });
  return s.length > n ? `${s.slice(0, n)}…` : s;
};

export class Ctx {
  constructor({ id, tier, shard = 0, shards = 1, only = null, beat = null, maxFailures = 3000 }) {
    Object.assign(this, { id, tier, shard, shards, only, maxFailures });
    this.quick = tier === 'quick';
    this.evaluations = 0;
    this.nontrivial = 0;
    this.states = 0;
    this.transitions = 0;
    this.traces = 0;
    this.failures = new Map();
    this.failCount = 0;
    this.samples = [];
    this.keys = new Set();
    this.extra = {};
    this.beatFd = beat ? fs.openSync(beat, 'w') : null;
    this.sampleEvery = 1;
  }
  beat(key) {
    if (this.beatFd === null) return;
    const b = Buffer.alloc(400, 32);
    b.write(`${this.evaluations} ${key}`.slice(0, 399));
    fs.writeSync(this.beatFd, b, 0, 400, 0);
  }
  want(key) {
    if (this.only !== null) return key === this.only;
    if (this.shards > 1) return fnv(key) % this.shards === this.shard;
    return true;
  }
  count(name, n = 1) {
    this.extra[name] = (this.extra[name] ?? 0) + n;
  }
  /** One enumerated case. fn may throw Fail (a violation) or return false (the case was trivial). */
  async eval(key, fn, sample) {
    if (!this.want(key)) return;
    this.beat(key);
    this.evaluations++;
    let r;
    try {
      r = await fn(this);
    } catch (e) {
      this.record(key, e);
      return;
    }
    this.note(key, r !== false, sample);
  }
  note(key, nontrivial, sample) {
    if (nontrivial && !this.keys.has(key)) {
      this.keys.add(key);
      this.nontrivial++;
      if (this.nontrivial === this.sampleEvery && this.samples.length < 12) {
        this.samples.push({ case: key, ...(sample ? { input: show(typeof sample === 'function' ? sample() : sample) } : {}) });
        this.sampleEvery = this.sampleEvery * 3 + 1;
      }
    }
  }
  /** Register a violation (never throws). */
  record(key, e) {
    this.failCount++;
    const fkey = e instanceof Fail && e.finding ? e.finding : key;
    const sig = e instanceof Fail ? e.sig ?? '' : '';
    const id = `${fkey}\n${sig}`;
    if (this.failures.has(id) || this.failures.size >= this.maxFailures) return;
    this.failures.set(id, {
      key: fkey,
      caseKey: key,
      sig,
      message: e instanceof Fail ? e.message : `unexpected ${e?.stack ?? e}`,
      detail: e instanceof Fail && e.detail !== undefined ? show(e.detail, 4000) : undefined,
    });
  }
  result() {
    const { evaluations, nontrivial, states, transitions, traces, failCount, samples, extra } = this;
    return { evaluations, nontrivial, states, transitions, traces, failCount, samples, extra, failures: [...this.failures.values()] };
  }
}
export const fail = (message, detail, extra) => {
  throw new Fail(message, detail, extra);
};
export function expect(cond, message, detail, extra) {
  if (!cond) fail(message, typeof detail === 'function' ? detail() : detail, extra);
}
export function expectEqual(actual, expected, message, extra) {
  if (!same(actual, expected)) fail(message, { actual, expected }, extra);
}
/** Deep equality on JSON-like values, ignoring key order and prototypes. */
export function same(a, b) {
  if (Object.is(a, b)) return true;
  if (typeof a !== 'object' || typeof b !== 'object' || a === null || b === null) return a === b;
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  if (a instanceof Uint8Array || b instanceof Uint8Array || a instanceof Date) return isDeepStrictEqual(a, b);
  if (Array.isArray(a)) return a.length === b.length && a.every((x, i) => same(x, b[i]));
  const ka = Object.keys(a);
  const kb = Object.keys(b);
  return ka.length === kb.length && ka.every((k) => Object.hasOwn(b, k) && same(a[k], b[k]));
}
