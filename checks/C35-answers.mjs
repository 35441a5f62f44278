// C35: an answer counts by its status and its body. Header fields, the reason phrase, redirection and the like are
// handed over or ignored; they change neither the result, nor what is sent, now or later, nor when.
import { LENGTHS } from '../lib/alphabet.mjs';
import { expect, expectEqual, fail, same } from '../lib/ctx.mjs';
import { FLOW, FLOWS, toResponse } from '../lib/flows.mjs';
import { Rig, brief, wire } from '../lib/harness.mjs';
import { OUTCOMES, RESPONSE_HEADERS } from '../lib/outcomes.mjs';

export const level = 'exploration';
export const shards = { quick: 8, thorough: 8 };
export const rule =
  'flow × step × outcome × what else the answer carries (each header field and value, reason phrases, redirected, url, type; pairs of them), followed by the same call and another one on the same client; requests, results apart from their headers, number of log lines, timers and waiting compared with those of an answer with nothing else; the headers of the result compared with those sent; distinct by key';
export const bounds = (tier) => `${RESPONSE_HEADERS.length} header fields and ${EXTRAS.length} other attributes; pairs for ${tier === 'quick' ? 'four flows' : 'twelve flows'}; lengths to ${LENGTHS[tier].at(-1)}`;
export const assumptions = ['a content-length tells the truth', 'the headers member of a result is the concern of C06, and null where a multi-request behaviour ends early', 'bodies have been decoded by fetch'];

const EXTRAS = [
  ...['', 'OK', 'Created', 'No Content', 'Bad Gateway', 'Not Modified', 'x'.repeat(2000), 'application_error', '{}'].map((statusText) => [`reason ${statusText.slice(0, 20)}`, {}, { statusText }]),
  ['redirected', {}, { redirected: true }],
  ['redirected elsewhere', {}, { redirected: true, url: 'https://elsewhere.test.invalid/login' }],
  ['url of the API', {}, { url: 'https://api.resend.com/x' }],
  ...['basic', 'cors', 'default', 'opaqueredirect'].map((type) => [`type ${type}`, {}, { type }]),
];
/** What a service in front of the API, or the API, adds all at once. */
const limited = (remaining, reset) => ({ 'ratelimit-limit': '2', 'ratelimit-remaining': remaining, 'ratelimit-reset': reset, 'ratelimit-policy': '2;w=1', 'x-ratelimit-limit': '2', 'x-ratelimit-remaining': remaining, 'x-ratelimit-reset': reset });
const SETS = {
  'plenty left': limited('99', '1'),
  'one left': limited('1', '1'),
  'none left': limited('0', '1'),
  'none left for long': limited('0', '3600'),
  'none left until then': limited('0', '4102444800'),
  'none left, retry': { ...limited('0', '1'), 'retry-after': '1' },
  'none left, retry at a time': { ...limited('0', '60'), 'retry-after': 'Fri, 31 Dec 2100 23:59:59 GMT' },
  'quota used up': { 'x-resend-daily-quota': '100', 'x-resend-monthly-quota': '3000', 'retry-after': '86400' },
  moved: { location: 'https://elsewhere.test.invalid/v2', 'content-type': 'text/html' },
  cached: { etag: '"a"', 'last-modified': 'Wed, 21 Oct 2015 07:28:00 GMT', 'cache-control': 'public, max-age=3600', age: '10', expires: 'Fri, 31 Dec 2100 23:59:59 GMT', 'x-cache': 'HIT', vary: 'authorization' },
  'weakly cached': { etag: 'W/"a"', 'cache-control': 'private, must-revalidate' },
  CDN: { server: 'cloudflare', 'cf-ray': '8a-FRA', 'cf-cache-status': 'DYNAMIC', 'set-cookie': '__cf_bm=x; path=/', 'alt-svc': 'h3=":443"', nel: '{}', 'report-to': '{}' },
  challenge: { server: 'cloudflare', 'cf-mitigated': 'challenge', 'content-type': 'text/html; charset=UTF-8', 'set-cookie': '__cf_bm=x; path=/' },
  gateway: { server: 'awselb/2.0', 'content-type': 'text/html', connection: 'close', via: '1.1 x' },
  deprecated: { deprecation: 'true', sunset: 'Fri, 31 Dec 2100 23:59:59 GMT', link: '<https://elsewhere.test.invalid>; rel="successor-version"', warning: '299 - "old"' },
  replayed: { 'idempotent-replayed': 'true', 'idempotency-key': 'k-0' },
  signed: { digest: 'sha-256=AAAA', 'content-md5': 'AAAA', signature: 'x' },
  traced: { 'x-request-id': 'r', traceparent: '00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01', baggage: 'a=b', 'server-timing': 'db;dur=1' },
  paged: { link: '</emails?after=x>; rel="next"', 'x-next-cursor': 'x', 'x-total-count': '1000', 'x-has-more': 'true' },
};
/** Answers which have a value for whatever header field is asked for by name. */
class AnyHeaders extends Headers {
  constructor(init, value) {
    super(init);
    this.any = value;
  }
  get(name) {
    return super.get(name) ?? this.any;
  }
  has() {
    return true;
  }
}
const ANY = ['1', '0', 'true', 'false', '', 'x', '60', '-1', 'Fri, 31 Dec 2100 23:59:59 GMT', 'Wed, 21 Oct 2015 07:28:00 GMT', 'https://elsewhere.test.invalid/v2', 'application/json', 'text/html', 'error', '{}', '0.5', '1e3'].map((v) => [`any field: ${v}`, {}, { any: v }]);
const ALL = [...ANY, ...RESPONSE_HEADERS.map(([l, h]) => [l, h, {}]), ...EXTRAS];

/** The same answer carrying something else as well. */
const dress = async (res, headers, over) => {
  const h = new Headers(res.headers);
  for (const [n, v] of Object.entries(headers)) h.set(n, v);
  const body = res.body ? new Uint8Array(await res.arrayBuffer()) : null;
  const r = new Response(body, { status: res.status, headers: h, statusText: over.statusText });
  if ('any' in over) Object.defineProperty(r, 'headers', { value: new AnyHeaders(h, over.any) });
  for (const k of ['redirected', 'url', 'type']) if (k in over) Object.defineProperty(r, k, { value: over[k] });
  return r;
};

export async function run(ctx) {
  let timers = 0;
  const rig = new Rig({ world: { controlTimers: true } });
  /** One call and, on the same client, the calls after it. */
  const perform = async (flow, step, out, extra, after) => {
    const seen = [];
    let client;
    let last = null;
    const go = async (f, i) => {
      const r = await rig.raw(
        (c) => f.call((client ??= new rig.world.module.Resend(c.key, { baseUrl: c.baseUrl, userAgent: c.userAgent })), f.op?.request || f.forward ? { idempotencyKey: `k-${i}` } : undefined),
        async (rec, n) => {
          let res = i === 0 && n === step && out.act ? out.act() : f.answer(rec, n);
          if (res && typeof res === 'object' && 'reject' in res) return res;
          if (!(res instanceof Response)) res = toResponse(res);
          if (i === 0 && n === step && extra) {
            res = await dress(res, ...extra);
            last = res;
          }
          return res;
        },
      );
      if (r.threw || r.rejected || r.hung) fail('the call did not settle with a result', r.threw ?? r.rejected);
      const { headers, ...value } = r.value ?? {};
      seen.push({ wires: r.requests.map(wire), value, timers: rig.world.timersFired ?? 0, lines: r.console.length });
      return { headers, requests: r.requests.length };
    };
    const first = await go(flow, 0);
    for (const [i, f] of after.entries()) await go(f, i + 1);
    timers += rig.world.timers.length;
    return { seen, first, last };
  };
  const outs = OUTCOMES.filter((o) => ['ok', 'api', 'status'].includes(o.kind) || /^200 (garbage|empty)$/.test(o.name));
  const others = [FLOW['domains.list'], FLOW['emails.send']];
  const test = async (key, flow, step, out, extra, memo) =>
    ctx.eval(key, async () => {
      const after = [flow, others[flow.name === 'emails.send' ? 0 : 1]];
      memo.ref ??= await perform(flow, step, out, undefined, after);
      const got = await perform(flow, step, out, extra, after);
      for (const [i, g] of got.seen.entries()) {
        const ref = memo.ref.seen[i];
        const when = i ? ' of a later call' : '';
        if (!same(g.wires, ref.wires)) fail(`what else an answer carries changes the requests${when}`, { actual: g.wires.map(brief), expected: ref.wires.map(brief), detail: [g.wires, ref.wires] });
        if (!same(g.value, ref.value)) fail(`what else an answer carries changes the result${when}`, { actual: g.value, expected: ref.value });
        expectEqual(g.timers, ref.timers, `what else an answer carries makes the SDK wait${when}`);
        expectEqual(g.lines, ref.lines, `what else an answer carries changes what is logged${when}`);
      }
      if (got.first.headers && got.last && step === got.first.requests - 1) expectEqual(got.first.headers, Object.fromEntries(got.last.headers.entries()), 'the headers of the answer are not handed over');
    });
  for (const flow of FLOWS)
    for (let step = 0; step < flow.steps.length; step++)
      for (const out of outs) {
        if (flow.steps[step] === 'download' && out.kind === 'local') continue;
        const memo = {};
        for (const [label, ...extra] of ALL) await test(`${flow.name} ${out.name}@${step} | ${label}`, flow, step, out, extra, memo);
      }
  // two of them together
  const some = ['emails.send', 'domains.list', 'forward passthrough', 'templates.create().publish', 'batch.send', 'contacts.get', 'client.delete', 'contacts.imports.create', 'forward wrapped', 'contactProperties.get', 'emails.send(react)', 'webhooks.create'].map((n) => FLOW[n]).filter(Boolean);
  const firsts = ALL.filter(([l], i) => ALL.findIndex(([m]) => m.split(/[: ]/)[0] === l.split(/[: ]/)[0]) === i);
  for (const flow of ctx.quick ? some.slice(0, 4) : some)
    for (let step = 0; step < flow.steps.length; step++)
      for (const out of ctx.quick ? outs.filter((o) => /^(ok|429|404 html)$/.test(o.name)) : outs) {
        if (flow.steps[step] === 'download' && out.kind === 'local') continue;
        const memo = {};
        const list = ctx.quick && step ? firsts.filter((_, i) => i % 2) : firsts;
        for (const [i, a] of list.entries()) for (const b of list.slice(i + 1)) await test(`${flow.name} ${out.name}@${step} | ${a[0]} + ${b[0]}`, flow, step, out, [{ ...a[1], ...b[1] }, { ...a[2], ...b[2] }], memo);
      }
  // what makes clients wait, follow or remember, in every combination of values
  const FAMILIES = [/^(retry-after|ratelimit-|x-ratelimit-|x-should-retry|retry-after-ms)/, /^(location|refresh|link|content-location|x-base-url|redirected)/, /^(etag|last-modified|cache-control|expires|age|date|vary|x-cache|set-cookie)/, /^(content-|transfer-encoding|connection|digest)/, /^(deprecation|sunset|warning|x-warning|x-deprecated|x-api-version|x-min)/, /^(status|data|error|message|x-error|x-message|reason)/];
  for (const flow of some)
    for (let step = 0; step < flow.steps.length; step++)
      for (const out of outs.filter((o) => /^(ok|429|503 empty)$/.test(o.name)))
        for (const family of FAMILIES) {
          const members = ALL.filter(([l]) => family.test(l));
          const memo = {};
          for (const [i, a] of members.entries()) for (const b of members.slice(i + 1)) if (Object.keys(a[1])[0] !== Object.keys(b[1])[0]) await test(`${flow.name} ${out.name}@${step} | ${a[0]} with ${b[0]}`, flow, step, out, [{ ...a[1], ...b[1] }, { ...a[2], ...b[2] }], memo);
        }
  for (const flow of FLOWS)
    for (let step = 0; step < flow.steps.length; step++)
      for (const out of outs.filter((o) => /^(ok|422|429|503 empty)$/.test(o.name))) {
        const memo = {};
        for (const [name, headers] of Object.entries(SETS)) await test(`${flow.name} ${out.name}@${step} | ${name}`, flow, step, out, [headers, {}], memo);
      }
  // a true length of small answers of every status
  for (const flow of FLOWS)
    for (let step = 0; step < flow.steps.length; step++) {
      if (flow.steps[step] === 'download') continue;
      for (const status of ctx.quick && !some.includes(flow) ? [200, 201, 202, 404] : [200, 201, 202, 203, 206, 207, 226, 299, 400, 401, 404, 422, 429, 500, 503])
        for (const body of ['{}', '[]', '0', '""', 'true', '{ }', '\n', '', 'OK', '{"a":1}', '{"id":"x"}', '{"data":[]}', '{"message":"m"}', '{"name":"n","message":"m"}']) {
          // this one reads the documented shape
          if (/^contactProperties\.(list|get)/.test(flow.name) && status < 300 && body !== '{"data":[]}') continue;
          const answer = (rec, k) => (k === step ? new Response(body, { status }) : toResponse(flow.scripted(rec, k)));
          const memo = {};
          for (const [label, h] of Object.entries({ 'its length': { 'content-length': String(body.length) }, 'its length and type': { 'content-length': String(body.length), 'content-type': 'application/json; charset=utf-8' }, chunked: { 'transfer-encoding': 'chunked' } }))
            await test(`${flow.name} ${status} ${JSON.stringify(body)}@${step} | ${label}`, { ...flow, answer }, step, { name: 'small', kind: 'ok' }, [h, {}], memo);
        }
    }
  // a true length, of every size
  for (const flow of some)
    for (let step = 0; step < flow.steps.length; step++)
      for (const [on, status, make] of [
        ['ok', 200, (good, n) => good + ' '.repeat(n)],
        ['error', 422, (_, n) => `{"name":"validation_error","message":"m"${' '.repeat(n)}}`],
        ['page', 502, (_, n) => `<html>${'x'.repeat(n)}`],
        ['nothing', 500, () => ''],
        ['nothing good', 200, () => ''],
      ])
        for (const n of /nothing/.test(on) ? [0] : LENGTHS[ctx.tier]) {
          if (flow.steps[step] === 'download' && status === 200) continue;
          const answer = (rec, k) => {
            const good = flow.scripted(rec, k);
            return k === step ? new Response(make(JSON.stringify(good.json), n), { status }) : toResponse(good);
          };
          const name = `${on} of ${n}`;
          const fake = { ...flow, answer };
          await test(`${flow.name} ${name}@${step} | its length`, fake, step, { name, kind: 'ok' }, [{ 'content-length': String(make(JSON.stringify(flow.scripted({}, step).json) ?? '', n).length) }, {}], {});
        }
  expectEqual(timers, 0, 'timers were left behind');
}
