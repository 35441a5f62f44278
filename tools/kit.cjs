// Small helper for the demonstrations: the built library of the current directory, with a scripted server.
const path = require('node:path');
const assert = require('node:assert/strict');
const mod = require(path.join(process.cwd(), 'dist/index.cjs'));
const calls = [];
const tick = (n = 1) => new Promise((r) => setTimeout(r, n));

/** Installs fetch; `handler(request, index)` gives (or throws) the answer of each request. */
function serve(handler) {
  calls.length = 0;
  globalThis.fetch = async (input, init = {}) => {
    const url = typeof input === 'string' ? input : (input.url ?? String(input));
    const r = new Request(url, { ...init, headers: init.headers ?? (typeof input === 'object' ? input.headers : undefined) });
    const text = init.body === undefined || typeof init.body === 'string' ? (init.body ?? '') : null;
    const req = {
      url,
      path: url.replace(/^https?:\/\/[^/]+/, ''),
      method: r.method,
      headers: Object.fromEntries(r.headers.entries()),
      raw: init.body,
      get body() {
        return text ? JSON.parse(text) : undefined;
      },
    };
    calls.push(req);
    return handler(req, calls.length - 1);
  };
  return calls;
}
const json = (body, status = 200, headers = {}) =>
  new Response(status === 204 ? null : JSON.stringify(body), { status, headers: { 'content-type': 'application/json', ...headers } });

function run(fn) {
  const logs = [];
  console.error = (...a) => logs.push(a);
  setTimeout(() => {
    console.log('FAIL: timed out');
    process.exit(1);
  }, 60000).unref();
  Promise.resolve()
    .then(() => fn(logs))
    .then(
      () => {
        console.log('ok');
        process.exit(0);
      },
      (e) => {
        console.log(`FAIL: ${e && e.stack ? e.stack : e}`);
        process.exit(1);
      },
    );
}
module.exports = { ...mod, assert, calls, serve, json, tick, run };
