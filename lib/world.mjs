// The closed environment the SDK runs in: fetch, console, process.env, timers and the React renderer are all ours.
// Two modes: "direct" (an answer function is called synchronously for each request - input enumeration) and
// "scheduled" (every environment step is a pending event the explorer fires in the order it chooses).
import { instantiate } from './bundle.mjs';

const real = {
  setImmediate: globalThis.setImmediate,
  setTimeout: globalThis.setTimeout,
  clearTimeout: globalThis.clearTimeout,
  fetch: globalThis.fetch,
  console: { ...globalThis.console },
  env: process.env,
  dateNow: Date.now,
};
export { real };

let active = null; // current World
let outstanding = 0; // host-side async operations (Blob reads) not yet settled
let activity = 0;

// ---- patches (installed once; dispatch on `active`) ---------------------------------------------------
const wrapBlob = (name) => {
  const orig = Blob.prototype[name];
  if (!orig) return;
  Blob.prototype[name] = function (...a) {
    outstanding++;
    const p = orig.apply(this, a);
    const done = () => {
      outstanding--;
      activity++;
    };
    p.then(done, done);
    return p;
  };
};
wrapBlob('arrayBuffer');
wrapBlob('text');

globalThis.fetch = function fetch(input, init) {
  if (!active) return Promise.reject(new TypeError('fetch outside a world'));
  return active._fetch(input, init);
};
for (const m of ['log', 'error', 'warn', 'info', 'debug', 'trace', 'dir', 'table']) {
  const orig = globalThis.console[m];
  globalThis.console[m] = (...args) => {
    if (!active) return orig.apply(globalThis.console, args);
    active.console.push({ method: m, args });
  };
}
const wrapTimer = (name, repeat) => {
  const orig = globalThis[name];
  globalThis[name] = function (fn, ms, ...args) {
    if (!active || !active.controlTimers) return orig.call(globalThis, fn, ms, ...args);
    return active._timer(fn, ms, args, repeat);
  };
};
wrapTimer('setTimeout', false);
wrapTimer('setInterval', true);
const origClear = globalThis.clearTimeout;
globalThis.clearTimeout = globalThis.clearInterval = (h) => {
  if (h && h.__world) {
    h.__world.timers = h.__world.timers.filter((t) => t !== h);
    return;
  }
  return origClear(h);
};

const origAbortTimeout = AbortSignal.timeout;
AbortSignal.timeout = function timeout(ms) {
  if (!active || !active.controlTimers) return origAbortTimeout.call(AbortSignal, ms);
  const c = new AbortController();
  active._timer(() => c.abort(new DOMException('The operation was aborted due to timeout', 'TimeoutError')), ms, []);
  return c.signal;
};

// stdout/stderr writes by the code under test count as console output
export const out = process.stdout.write.bind(process.stdout);
export const err = process.stderr.write.bind(process.stderr);
process.stdout.write = (s, ...r) => {
  if (active) {
    active.console.push({ method: 'stdout', args: [String(s)] });
    return true;
  }
  return out(s, ...r);
};
process.stderr.write = (s, ...r) => {
  if (active) {
    active.console.push({ method: 'stderr', args: [String(s)] });
    return true;
  }
  return err(s, ...r);
};

export const unhandled = [];
process.on('unhandledRejection', (e) => {
  unhandled.push(e);
});

// ---- requests ------------------------------------------------------------------------------------------
/** What goes on the wire for fetch(input, init), or {invalid} when fetch itself would refuse it. */
export function canonicalRequest(input, init) {
  let r;
  try {
    r = new Request(input, init && init.body && init.body instanceof ReadableStream ? { duplex: 'half', ...init } : init);
  } catch (e) {
    return { invalid: e };
  }
  const u = new URL(r.url);
  const rec = {
    method: r.method,
    input: typeof input === 'string' ? input : String(input?.url ?? input),
    origin: u.origin,
    path: u.pathname,
    search: u.search,
    query: [...u.searchParams.entries()],
    headers: Object.fromEntries(r.headers.entries()),
    bodyKind: 'none',
    signal: init?.signal,
  };
  const body = init?.body ?? (input instanceof Request ? input.body : undefined);
  if (body === undefined || body === null) return rec;
  if (typeof body === 'string') {
    rec.bodyKind = 'text';
    rec.text = body;
  } else if (body instanceof FormData) {
    rec.bodyKind = 'form';
    rec.form = [...body.entries()];
    rec.req = r;
  } else {
    rec.bodyKind = 'bytes';
    rec.pendingText = r.clone().text();
  }
  return rec;
}
const NOJSON = Symbol('not json');
/** Parsed JSON body (undefined when there is no body; NOJSON marker when it does not parse). */
export function jsonBody(rec) {
  if (rec.bodyKind === 'none') return undefined;
  if (rec.bodyKind !== 'text') return { [NOJSON]: true, kind: rec.bodyKind };
  try {
    return JSON.parse(rec.text);
  } catch {
    return { [NOJSON]: true, text: rec.text };
  }
}

export const NULL_BODY = new Set([101, 103, 204, 205, 304]);
export function jsonResponse(status, value, headers = {}) {
  return textResponse(status, JSON.stringify(value), { 'content-type': 'application/json', ...headers });
}
export function textResponse(status, text, headers = {}) {
  return new Response(NULL_BODY.has(status) ? null : text, { status, headers });
}

// ---- world ---------------------------------------------------------------------------------------------
export const KEY = 're_TESTKEY_c0ffee';
export const BASE = 'https://api.test.invalid';

export class World {
  /**
   * @param {object} o
   * @param {(req, n) => any} [o.answer]   direct mode: returns Response | {reject: Error}
   * @param {(req, n) => Array} [o.answers] scheduled mode: the menu of answers for a request; each
   *   {label, status, text|bytes, headers, bodyFault?} or {label, reject}
   */
  constructor(o = {}) {
    this.o = o;
    this.requests = [];
    this.console = [];
    this.renders = [];
    this.pending = [];
    this.timers = [];
    this.seq = 0;
    this.controlTimers = o.controlTimers ?? !!o.answers;
    this.env = o.env ?? { NODE_ENV: 'production' };
  }
  bump() {
    activity++;
  }
  get activity() {
    return activity;
  }
  enter() {
    if (active) throw new Error('nested world');
    active = this;
    process.env = this.env;
    return this;
  }
  leave() {
    active = null;
    process.env = real.env;
  }
  stubs() {
    return {
      ...this.o.stubs,
      '@react-email/render': () => {
        if (this.o.renderModuleMissing) throw Object.assign(new Error("Cannot find module '@react-email/render'"), { code: 'MODULE_NOT_FOUND' });
        return { __esModule: true, render: (node, ...rest) => this._render(node, rest) };
      },
    };
  }
  load() {
    return instantiate(this.stubs(), this.o.shadow);
  }
  client(key = KEY, opts = { baseUrl: BASE, userAgent: 'Verif-Agent/1.0 (Mixed; CASE)' }) {
    this.module ??= this.load();
    return new this.module.Resend(key, opts);
  }
  _render(node) {
    activity++;
    this.renders.push(node);
    if (!this.o.scheduleRender) {
      const f = this.o.render ?? ((n) => `<html>${typeof n === 'object' && n ? n.label ?? '' : n}</html>`);
      try {
        const v = f(node, this.renders.length - 1);
        return Promise.resolve(v);
      } catch (e) {
        return Promise.reject(e);
      }
    }
    return new Promise((resolve, reject) => {
      const label = `render(${node?.label ?? node})`;
      const menu = this.o.renderAnswers
        ? this.o.renderAnswers(node)
        : [{ label: 'ok', value: `<html>${node?.label}</html>` }];
      this.addEvent(
        label,
        menu.map((m) => ({ label: m.label, fire: () => ('error' in m ? reject(m.error) : resolve(m.value)) })),
      );
    });
  }
  _fetch(input, init) {
    activity++;
    const rec = canonicalRequest(input, init);
    if (rec.invalid) {
      this.requests.push(rec);
      return Promise.reject(rec.invalid);
    }
    const n = this.requests.length;
    rec.n = n;
    this.requests.push(rec);
    if (this.o.answers) return this._scheduled(rec, n);
    try {
      if (rec.signal?.aborted) return Promise.reject(rec.signal.reason);
      const a = this.o.answer ? this.o.answer(rec, n) : jsonResponse(200, { id: 'x' });
      if (a && !(a instanceof Response) && 'reject' in a) return Promise.reject(a.reject);
      if (a instanceof Response) return Promise.resolve(a);
      // an answer that is still outstanding: honour the request's own abort signal
      return new Promise((resolve, reject) => {
        rec.signal?.addEventListener?.('abort', () => reject(rec.signal.reason));
        Promise.resolve(a).then(resolve, reject);
      });
    } catch (e) {
      if (e && e.sync) throw e.value; // a fetch implementation that throws synchronously
      if (e instanceof Error && e.constructor.name === 'Fail') this.oracleFailure ??= e;
      return Promise.reject(e);
    }
  }
  addEvent(label, answers) {
    this.pending.push({ id: this.seq++, label, answers });
  }
  _scheduled(rec, n) {
    return new Promise((resolve, reject) => {
      const name = this.o.nameRequest ? this.o.nameRequest(rec, n) : `${rec.method} ${rec.path}`;
      const menu = this.o.answers(rec, n);
      if (rec.signal?.aborted) {
        rec.answer = 'aborted';
        return reject(rec.signal.reason);
      }
      let answered = false;
      const id = this.seq;
      rec.signal?.addEventListener?.('abort', () => {
        if (answered) return;
        rec.answer = 'aborted';
        this.pending = this.pending.filter((e) => e.id !== id);
        activity++;
        reject(rec.signal.reason);
      });
      this.addEvent(
        `fetch[${name}]`,
        menu.map((m) => ({
          label: m.label,
          fire: () => {
            answered = true;
            rec.answer = m.label;
            if ('reject' in m) return reject(m.reject);
            resolve(this._stagedResponse(m, name, rec.signal));
          },
        })),
      );
    });
  }
  _stagedResponse(m, name, signal) {
    const bytes = m.bytes ?? new TextEncoder().encode(m.text ?? (m.json === undefined ? '' : JSON.stringify(m.json)));
    const headers = m.headers ?? { 'content-type': 'application/json' };
    if (NULL_BODY.has(m.status)) return new Response(null, { status: m.status, headers });
    if (m.atomic) return new Response(bytes, { status: m.status, headers });
    const world = this;
    let eventId = -1;
    const stream = new ReadableStream(
      {
        start(controller) {
          signal?.addEventListener?.('abort', () => {
            world.pending = world.pending.filter((e) => e.id !== eventId);
            activity++;
            try {
              controller.error(signal.reason);
            } catch {}
          });
        },
        pull(controller) {
          return new Promise((res) => {
            const opts = [];
            const faults = m.bodyFaults ?? [];
            opts.push({
              label: 'body',
              fire: () => {
                if (bytes.byteLength) controller.enqueue(bytes);
                controller.close();
                res();
              },
            });
            for (const f of faults)
              opts.push({
                label: `body-fault:${f.label}`,
                fire: () => {
                  if (f.partial && bytes.byteLength > 1) controller.enqueue(bytes.subarray(0, bytes.byteLength >> 1));
                  controller.error(f.error());
                  res();
                },
              });
            eventId = world.seq;
            world.addEvent(`body[${name}]`, opts);
          });
        },
      },
      { highWaterMark: 0 },
    );
    return new Response(stream, { status: m.status, headers });
  }
  _timer(fn, ms, args, repeat) {
    activity++;
    const t = { __world: this, due: (this.clock ?? 0) + (Number(ms) || 0), fn, args, unref() { return this; }, ref() { return this; }, hasRef: () => true, [Symbol.toPrimitive]: () => 1 };
    t.repeat = repeat ? Number(ms) || 1 : 0;
    this.timers.push(t);
    return t;
  }
  /** Fire the earliest controlled timer, if any. */
  fireTimer() {
    if (!this.timers.length) return false;
    this.timers.sort((a, b) => a.due - b.due);
    const t = this.timers[0];
    this.clock = t.due;
    if (t.repeat) t.due += t.repeat;
    else this.timers.shift();
    this.timersFired = (this.timersFired ?? 0) + 1;
    t.fn(...t.args);
    return true;
  }
}

const tick = () => new Promise((r) => real.setImmediate(r));
/** Wait until nothing moves any more without a new environment step. */
export async function quiesce(idle = 2) {
  let calm = 0;
  let last = activity;
  while (calm < idle) {
    await tick();
    if (outstanding > 0 || activity !== last) {
      calm = 0;
      last = activity;
    } else calm++;
  }
}
export { tick };

/** Settle a promise-like in direct mode, firing controlled timers if it needs them; never hangs. */
export async function settle(world, thunk, { maxMs = 5000 } = {}) {
  let res;
  let p;
  try {
    p = thunk();
  } catch (e) {
    return { threw: e };
  }
  let done = false;
  Promise.resolve(p).then(
    (value) => {
      res = { value };
      done = true;
      activity++;
    },
    (error) => {
      res = { rejected: error };
      done = true;
      activity++;
    },
  );
  for (let i = 0; i < 12 && !done; i++) await null;
  if (done) return res;
  const t0 = real.dateNow();
  while (!done) {
    await tick();
    if (done) break;
    if (outstanding === 0 && world.timers.length && (world.timersFired ?? 0) < 400) {
      await quiesce();
      if (!done) world.fireTimer();
    } else if (outstanding === 0 && world.onIdle) {
      await quiesce();
      if (!done && !(world.timers.length && (world.timersFired ?? 0) < 400)) world.onIdle();
    }
    if (real.dateNow() - t0 > maxMs) return { hung: true };
  }
  return res;
}
