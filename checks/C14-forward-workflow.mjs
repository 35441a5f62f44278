// C14: forwarding is fetch → download → send, ordered and fail-stop, under every fault and schedule.
import { expect, expectEqual, fail } from '../lib/ctx.mjs';
import { explore } from '../lib/explore.mjs';
import { Rig } from '../lib/harness.mjs';
import { FILES, RAW, received } from '../lib/flows.mjs';
import { COUNTS, HUGE, LENGTHS, STR, WORDS, text, word } from '../lib/alphabet.mjs';
import { RESPONSE_HEADERS } from '../lib/outcomes.mjs';
import { BASE, KEY, World, jsonBody, jsonResponse } from '../lib/world.mjs';

export const level = 'model_checking';
export const shards = { quick: 8, thorough: 8 };
export const rule =
  'forward options (mode × text/html × recipients form × request options) × stored email variants; per scenario every answer/fault choice at each of the three steps and every body delivery outcome is executed on the real SDK and each execution is checked step by step against a reference state machine (fetch → download → send → done, any failure → failed); plus all subjects × modes, all download URLs × modes, every HTTP status at every step; distinct by key';
export const bounds = 'full product of 17 email answers × 12 download answers × 7 send answers × body outcomes per option set; 30 subjects; subjects, recipients, senders, identifiers, download URLs, contents and error texts of every size; statuses 200–599 per step';
export const assumptions = ['a stored email has the documented shape; malformed 2xx JSON is outside the fault set', 'executions are on the implementation itself; the reference machine is the oracle, compared on every step of every execution'];

const E = (over) => ({ status: 200, json: received(over) });
const EMAIL = [
  ['ok', E({}), 'ok'],
  ['no raw (null)', E({ raw: null }), 'unavailable'],
  ['404', { status: 404, json: { name: 'not_found', message: 'Email not found', statusCode: 404 } }, 'api'],
  ['500 html', { status: 500, text: '<html>' }, 'app'],
  ['lost', { reject: new TypeError('fetch failed') }, 'app'],
  ['200 garbage', { status: 200, text: '{"object":"em' }, 'app'],
  ['no raw (absent)', E({ raw: undefined }), 'unavailable'],
  ['empty url', E({ raw: { download_url: '', expires_at: 'x' } }), 'unavailable'],
  ['401', { status: 401, json: { name: 'missing_api_key', message: 'm', statusCode: 401 } }, 'api'],
  ['429', { status: 429, json: { name: 'rate_limit_exceeded', message: 'm', statusCode: 429 }, headers: { 'retry-after': '1', 'content-type': 'application/json' } }, 'api'],
  ['null error', { status: 400, text: 'null' }, 'app'],
  ['302', { status: 302, text: '' }, 'app'],
  ['ok, no html', E({ html: null, text: null, subject: null }), 'ok'],
  ['ok, with attachments', E({ attachments: [{ id: 'att_1', filename: 'a.pdf', content_type: 'application/pdf' }] }), 'ok'],
  ['ok, 201', { ...E({}), status: 201 }, 'ok'],
  ['no url', E({ raw: { expires_at: 'x' } }), 'unavailable'],
  ['null url', E({ raw: { download_url: null } }), 'unavailable'],
];
const DOWN = [
  ['ok', { status: 200, text: RAW, headers: { 'content-type': 'message/rfc822' } }, true],
  ['ok 206', { status: 206, text: RAW, headers: {} }, true],
  ['ok empty', { status: 200, text: '', headers: {} }, true],
  ['204', { status: 204 }, true],
  ['403 expired', { status: 403, text: '<Error>expired</Error>', headers: {} }, false],
  ['404', { status: 404, text: RAW, headers: {} }, false],
  ['410', { status: 410, json: { name: 'gone', message: 'm' } }, false],
  ['304', { status: 304 }, false],
  ['500', { status: 500, text: '', headers: {} }, false],
  ['503', { status: 503, text: RAW, headers: {} }, false],
  ['lost', { reject: new TypeError('fetch failed') }, false],
  ['lost (string)', { reject: 'ECONNRESET' }, false],
];
const SEND = [
  ['ok', { status: 200, json: { id: 'sent_1' }, headers: { 'content-type': 'application/json', 'x-send': 'yes' } }, 'ok'],
  ['422', { status: 422, json: { name: 'validation_error', message: 'bad', statusCode: 422 } }, 'api'],
  ['409', { status: 409, json: { name: 'invalid_idempotent_request', message: 'm', statusCode: 409 } }, 'api'],
  ['429', { status: 429, json: { name: 'rate_limit_exceeded', message: 'm', statusCode: 429 } }, 'api'],
  ['500', { status: 500, text: '<html>' }, 'app'],
  ['lost', { reject: new TypeError('fetch failed') }, 'app'],
  ['200 garbage', { status: 200, text: 'OK' }, 'app'],
];
const CUT = [
  { label: 'cut', error: () => new TypeError('terminated') },
  { label: 'partial', partial: true, error: () => 'reset' },
];
const subjectFor = (s, wrapped) => {
  const base = s || '(no subject)';
  return wrapped && !base.startsWith('Fwd:') ? `Fwd: ${base}` : base;
};
const isStep = [
  (q) => q.method === 'GET' && q.origin === BASE && q.path === '/emails/receiving/em_1' && q.search === '',
  (q, url) => q.method === 'GET' && `${q.origin}${q.path}${q.search}` === url,
  (q) => q.method === 'POST' && q.origin === BASE && q.path === '/emails' && q.search === '',
];
const errorOf = (v) => {
  expect(v && typeof v === 'object', 'the result is not an envelope', v);
  expectEqual(v.data, null, 'data is not null after a failure');
  expect(v.error && typeof v.error === 'object' && typeof v.error.name === 'string' && typeof v.error.message === 'string', 'no error object after a failure', v);
  return v.error;
};
function checkSend(q, opts, email) {
  const b = jsonBody(q);
  const wrapped = opts.passthrough === false;
  expectEqual(b.from, opts.from, 'wrong sender');
  expectEqual(b.to, opts.to, 'wrong recipients');
  expectEqual(b.subject, subjectFor(email.subject, wrapped), 'wrong subject');
  const allowed = new Set(['from', 'to', 'subject', 'text', 'html', 'attachments']);
  for (const k of Object.keys(b)) expect(allowed.has(k), 'the send carries an undocumented field', k);
  if (wrapped) {
    expectEqual(b.text, opts.text, 'wrong text');
    expectEqual(b.html, opts.html, 'wrong html');
    expect(Array.isArray(b.attachments) && b.attachments.length === 1, 'a wrapped forward has one attachment', b.attachments);
  }
}

export async function run(ctx) {
  const emails = EMAIL;
  const OPTIONS = [
    ['passthrough', { to: 'd@x.io', from: 'f@x.io' }],
    ['passthrough explicit', { to: ['d@x.io', 'e@x.io'], from: 'f@x.io', passthrough: true }],
    ['wrapped', { to: 'd@x.io', from: 'f@x.io', passthrough: false }],
    ['wrapped text+html', { to: ['d@x.io'], from: 'f@x.io', passthrough: false, text: 't', html: '<p>h</p>' }],
  ];
  const REQ = [
    ['', undefined],
    ['+options', { idempotencyKey: 'k', headers: { 'X-A': '1' } }],
  ];
  for (const [on, o] of OPTIONS)
    for (const [rn, req] of REQ)
      for (const [en, email, ekind] of emails)
        await explore(
          ctx,
          {
            key: `${on}${rn} email ${en}`,
            make() {
              const opts = { emailId: 'em_1', ...o };
              const url = email.json?.raw?.download_url;
              const body = (x) => ({ ...x, bodyFaults: 'reject' in x ? [] : CUT });
              const world = new World({
                env: { NODE_ENV: 'development' },
                answers: (rec, n) => {
                  if (n === 0) return [{ label: en, ...body(email) }];
                  if (n === 1) return DOWN.map(([label, a]) => ({ label, ...body(a) }));
                  return SEND.map(([label, a]) => ({ label, ...body(a) }));
                },
              });
              const delivered = () => {
                // how many steps have been completely and successfully answered so far
                let k = 0;
                for (const [i, rec] of world.requests.entries()) {
                  if (!rec.answer || world.pending.some((e) => e.label === `body[${rec.method} ${rec.path}]`)) break;
                  if (i === 0 && ekind !== 'ok') break;
                  if (i === 1 && !DOWN.find(([l]) => l === rec.answer)[2]) break;
                  k++;
                }
                return k;
              };
              return {
                world,
                programs: [{ name: 'p', immediate: true, body: () => world.client(KEY).emails.receiving.forward(opts, ...(req ? [req] : [])) }],
                step(run) {
                  const n = world.requests.length;
                  if (n > 3) run.tooMany = true;
                  // a request beyond what has been completed and succeeded: started too early
                  if (n > delivered() + 1) run.early ??= `${n} requests with ${delivered()} completed steps`;
                },
                final(run) {
                  if (run.early) fail('a step started before the previous one succeeded', run.early);
                  expect(!run.tooMany, 'more than three requests');
                  const qs = world.requests;
                  expect(qs.length >= 1 && qs.length <= 3, 'wrong number of requests', qs.length);
                  for (const [i, q] of qs.entries()) expect(!q.invalid && isStep[i](q, url), `step ${i} is not the documented request`, { q: `${q.method} ${q.origin}${q.path}${q.search}` });
                  const out = run.outcomes.p;
                  expect(out && !('rejected' in out), 'the call rejected', out?.rejected);
                  const v = out.value;
                  // which step failed, according to the reference machine
                  const fault = (i) => run.log.some((l) => l.startsWith('body[') && /body-fault/.test(l)) && faultStep(run.log) === i;
                  let stop = null;
                  if (ekind !== 'ok' || fault(0)) stop = 0;
                  else if (qs.length < 2) fail('the download never started');
                  else if (!DOWN.find(([l]) => l === qs[1].answer)[2] || fault(1)) stop = 1;
                  else if (qs.length < 3) fail('nothing was sent although fetching and downloading succeeded', { result: v });
                  else if (SEND.find(([l]) => l === qs[2].answer)[2] !== 'ok' || fault(2)) stop = 2;
                  expectEqual(qs.length, stop === null ? 3 : stop + 1, 'requests after a failed step');
                  if (qs.length === 3) checkSend(qs[2], opts, email.json);
                  if (stop === null) {
                    expectEqual(v, { data: { id: 'sent_1' }, error: null, headers: { 'content-type': 'application/json', 'x-send': 'yes' } }, 'the result is not the send’s own');
                    return;
                  }
                  const e = errorOf(v);
                  if (fault(stop)) return;
                  if (stop === 0 && ekind === 'api') expectEqual(e, email.json, 'the fetch error is not the API’s own');
                  if (stop === 0 && ekind === 'app') expectEqual(e.name, 'application_error', 'wrong error');
                  if (stop === 2) {
                    const [, a, kind] = SEND.find(([l]) => l === qs[2].answer);
                    if (kind === 'api') expectEqual(e, a.json, 'the send error is not the API’s own');
                    else expectEqual(e.name, 'application_error', 'wrong error');
                  }
                },
              };
            },
          },
          { maxRuns: 50000 },
        );

  // subjects and recipients, URLs, statuses: exhaustive over their alphabets, direct mode
  const rig = new Rig();
  const SUBJECTS = ['Hello', '', null, undefined, ' ', 'Fwd: x', 'Fwd:', 'Fwd:x', 'fwd: x', 'FWD: x', ' Fwd: x', 'Fw: x', 'Fwd x', 'Re: Fwd: x', 'Fwd: Fwd: x', 'Fwd', 'FwD: y', '(no subject)', 'Fwd: (no subject)', 'ünïcödé 日本 😀', 'a\r\nBcc: x@y', 'X'.repeat(998), '0', 'null', 'false', 'Fwd\u00a0: x', 'Re: hi', '=?utf-8?q?x?=', 'Fwd:\t', 'undefined'];
  const go = (opts, over, req, answers = {}) =>
    rig.raw(
      (c) => c.emails.receiving.forward(opts, ...(req ? [req] : [])),
      (rec, n) => {
        if (answers[n]) return answers[n]();
        return n === 0 ? jsonResponse(200, received(over)) : n === 1 ? new Response(RAW) : jsonResponse(200, { id: 'sent_1' });
      },
    );
  const BODIES = [{}, { text: 't' }, { html: '<p>' }, { text: '', html: '' }, { text: undefined, html: 'h' }];
  for (const [i, subject] of SUBJECTS.entries())
    for (const mode of [undefined, true, false])
      for (const [bi, extra] of (mode === false ? BODIES : [{}]).entries())
        for (const to of ['d@x.io', ['a@x.io', 'b@x.io', 'a@x.io'], []])
          await ctx.eval(`subject#${i} mode ${mode} body#${bi} to ${JSON.stringify(to)}`, async () => {
            const opts = { emailId: 'em_1', to, from: 'Name <f@x.io>', ...(mode === undefined ? {} : { passthrough: mode }), ...extra };
            const r = await go(opts, { subject });
            expect('value' in r && r.value.error === null, 'a good forward failed', r);
            expectEqual(r.requests.length, 3, 'wrong number of requests');
            checkSend(r.requests[2], opts, { subject });
          });
  // every size: subject, recipients, sender, content, identifier, download URL, error text
  const good = async (opts, over) => {
    const r = await go(opts, over);
    expect('value' in r && r.value.error === null, 'a good forward failed', r);
    expectEqual(r.requests.length, 3, 'wrong number of requests');
    checkSend(r.requests[2], opts, received(over));
    return r.requests;
  };
  for (const mode of [true, false]) {
    const o = { emailId: 'em_1', to: 'd@x.io', from: 'f@x.io', passthrough: mode };
    for (const n of LENGTHS[ctx.tier]) {
      await ctx.eval(`subject of length ${n} mode ${mode}`, () => good(o, { subject: text(n) }));
      await ctx.eval(`prefixed subject of length ${n} mode ${mode}`, () => good(o, { subject: `Fwd: ${text(n)}` }));
      if (n) await ctx.eval(`sender of length ${n} mode ${mode}`, () => good({ ...o, from: `${word(n)} <f@x.io>` }, {}));
      if (n)
        await ctx.eval(`identifier of length ${n} mode ${mode}`, async () => {
          const qs = await good({ ...o, emailId: word(n) }, {});
          expectEqual(qs[0].path, `/emails/receiving/${word(n)}`, 'another email was fetched');
        });
      if (n)
        await ctx.eval(`download URL of length ${n} mode ${mode}`, async () => {
          const qs = await good(o, { raw: { download_url: `${FILES}/raw?sig=${word(n)}` } });
          expectEqual([qs[1].origin, qs[1].path, qs[1].search], [FILES, '/raw', `?sig=${word(n)}`], 'another URL was downloaded');
        });
      for (const step of [0, 2])
        await ctx.eval(`step ${step} error of length ${n} mode ${mode}`, async () => {
          const error = { name: 'validation_error', message: text(n), statusCode: 422 };
          const r = await go(o, {}, undefined, { [step]: () => jsonResponse(422, error) });
          expectEqual(r.requests.length, step + 1, 'requests after a failed step');
          expectEqual(errorOf(r.value), error, 'the error is not the API’s own');
        });
    }
    for (const n of COUNTS[ctx.tier]) {
      await ctx.eval(`${n} recipients mode ${mode}`, () => good({ ...o, to: Array.from({ length: n }, (_, i) => `r${n - i}@x.io`) }, {}));
      await ctx.eval(`${n} stored attachments mode ${mode}`, () => good(o, { attachments: Array.from({ length: n }, (_, i) => ({ id: `att_${i}`, filename: `${n - i}.pdf` })) }));
      await ctx.eval(`${n} stored recipients and headers mode ${mode}`, () => good(o, { to: Array.from({ length: n }, (_, i) => `o${i}@x.io`), headers: Object.fromEntries(Array.from({ length: n }, (_, i) => [`x-${i}`, 'v'])) }));
    }
    for (const n of [...LENGTHS[ctx.tier].filter((x) => x % 2), ...HUGE[ctx.tier]]) {
      if (!mode) for (const k of ['text', 'html']) await ctx.eval(`${k} of length ${n}`, () => good({ ...o, [k]: text(n) }, {}));
      await ctx.eval(`stored content of length ${n} mode ${mode}`, () => good(o, { html: text(n), text: text(n) }));
    }
  }
  // the caller's own arguments, each beside each other: what they name is what is sent
  const ADDRESSES = ['f@x.io', 'd@x.io', 'F@X.IO', 'Name <f@x.io>', 'Name <d@x.io>', 'me@example.com', 'sender@example.com', '', ' ', 'em_1', 'Orig', 'null', 'x'];
  const TO = [...ADDRESSES, ...ADDRESSES.map((a) => [a]), [], ['d@x.io', 'f@x.io'], ['f@x.io', 'd@x.io'], ['d@x.io', 'd@x.io'], ['d@x.io', 'D@X.IO', 'Name <d@x.io>'], ['d@x.io', ''], ['me@example.com', 'd@x.io', 'sender@example.com'], 'd@x.io, e@x.io', ['d@x.io, e@x.io', 'f@x.io']];
  const TEXTS = [undefined, '', 'hello', 'Orig', '<p>same</p>', 'd@x.io'];
  for (const mode of [true, false, undefined]) {
    for (const [i, to] of TO.entries()) for (const from of [...ADDRESSES, ...(i < 3 ? WORDS : [])]) await ctx.eval(`to#${i} from ${from} mode ${mode}`, () => good({ emailId: 'em_1', to, from, ...(mode === undefined ? {} : { passthrough: mode }) }, {}));
    for (const w of [...WORDS, ...STR]) for (const to of [w, [w], ['d@x.io', w]]) await ctx.eval(`to ${JSON.stringify(to).slice(0, 60)} mode ${mode}`, () => good({ emailId: 'em_1', to, from: 'f@x.io', ...(mode === undefined ? {} : { passthrough: mode }) }, {}));
  }
  for (const [i, t] of [...TEXTS, ...WORDS, ...STR].entries())
    for (const h of [...TEXTS, t])
      for (const to of ['d@x.io', ['d@x.io', 'f@x.io']])
        await ctx.eval(`text#${i} html ${String(h).slice(0, 30)} to ${to}${h === t ? ' the same' : ''}`, () => good({ emailId: 'em_1', to, from: 'f@x.io', passthrough: false, ...(t === undefined ? {} : { text: t }), ...(h === undefined ? {} : { html: h }) }, {}));
  // nothing else the stored email says decides about the workflow
  const DATES = [undefined, null, '', 'x', '1970-01-01T00:00:00Z', '2020-01-01', '2023-12-31T23:59:59.999Z', '2024-01-01 00:00:00+00', '2026-11-20T00:00:00Z', '2030-01-01', '9999-12-31T23:59:59Z', 'Mon, 01 Jan 2024 00:00:00 GMT', 0, 1, 1700000000, 1700000000000];
  const OTHER = {
    created_at: DATES, updated_at: DATES, deleted_at: DATES, received_at: DATES, expires_at: DATES,
    ...Object.fromEntries(['id', 'object', 'from', 'message_id', 'last_event', 'status', 'direction', 'type', 'name', 'error', 'message', 'statusCode', 'spam', 'virus', 'spam_verdict', 'deleted', 'forwarded', 'size', 'html', 'text', 'thread_id', 'in_reply_to', 'references', 'domain', 'data'].map((k) => [k, [undefined, null, '', 0, -1, 1e12, true, false, ...WORDS, 'spam', 'bounced', 'deleted', 'failed', 'error', 'd@x.io', 'f@x.io', 'em_1', 'me@example.com', [], ['x'], {}, { message: 'in' }]])),
    ...Object.fromEntries(['to', 'cc', 'bcc', 'reply_to', 'received_for'].map((k) => [k, [undefined, null, [], ['d@x.io'], ['f@x.io'], ['d@x.io', 'd@x.io'], ['Name <d@x.io>'], 'd@x.io', '', ['']]])),
    headers: [undefined, null, {}, { 'auto-submitted': 'auto-generated' }, { 'Auto-Submitted': 'auto-replied', Precedence: 'bulk' }, { 'x-spam-flag': 'YES' }, { 'X-Forwarded-To': 'd@x.io', 'Delivered-To': 'd@x.io' }, { 'content-type': 'multipart/report' }, { 'x-resend-forwarded': 'true', received: 'x' }, { subject: 'other', from: 'f@x.io', to: 'd@x.io' }, [], [['a', 'b']], ...STR.map((s) => ({ 'x-any': s }))],
    attachments: [undefined, null, [], [{}], [null], [{ id: 'att_1', filename: null, size: 0 }], [{ size: 1e12 }], [{ content_disposition: 'inline', content_id: '<a>' }]],
  };
  for (const mode of [true, false]) {
    const o = { emailId: 'em_1', to: 'd@x.io', from: 'f@x.io', passthrough: mode };
    for (const [k, values] of Object.entries(OTHER)) for (const [i, v] of values.entries()) await ctx.eval(`stored ${k}#${i} mode ${mode}`, () => good(o, { [k]: v }));
    for (const [i, a] of DATES.entries()) for (const [j, b] of DATES.entries()) await ctx.eval(`expires#${i} created#${j} mode ${mode}`, () => good(o, { created_at: b, raw: { download_url: `${FILES}/raw/em_1`, expires_at: a } }));
    for (const k of ['id', 'size', 'content_type', 'contentType', 'status', 'error', 'url', 'checksum', 'encoding', 'filename', 'expired', 'expires_in', 'ttl', 'created_at'])
      for (const v of [null, '', 0, -1, 1e12, true, false, 'x', 'expired', 'text/html', 'message/rfc822', `${FILES}/other`]) await ctx.eval(`raw ${k} ${v} mode ${mode}`, () => good(o, { raw: { download_url: `${FILES}/raw/em_1`, expires_at: '2030-01-01', [k]: v } }));
  }
  const URLS = [`${FILES}/a`, `${FILES}/raw/x?X-Amz-Signature=ab%2Fcd%3D%3D&b=1+2`, `${FILES}:8443/p/%E2%82%AC?q=%20`, 'http://files.test.invalid/plain', `${BASE}/emails/receiving/em_1/raw`, 'https://user-content.example/a//b/../c?x=1&x=2', `${FILES}/x?u=https://evil.example/#`];
  for (const u of URLS)
    for (const mode of [true, false])
      await ctx.eval(`download ${u} mode ${mode}`, async () => {
        const r = await go({ emailId: 'em_1', to: 'd@x.io', from: 'f@x.io', passthrough: mode }, { raw: { download_url: u } });
        expectEqual(r.requests.length, 3, 'wrong number of requests');
        const q = r.requests[1];
        const x = new URL(u);
        expectEqual([q.method, q.origin, q.path, q.search], ['GET', x.origin, x.pathname, x.search], 'another URL was downloaded');
      });
  for (const step of [0, 1, 2])
    for (const mode of [true, false])
      for (const [label, headers] of RESPONSE_HEADERS)
        for (const status of [200, 403, 503])
          await ctx.eval(`step ${step} ${status} ${label} mode ${mode}`, async () => {
            const body = status === 200 ? [JSON.stringify(received()), RAW, '{"id":"sent_1"}'][step] : '{"name":"err","message":"m","statusCode":1}';
            const r = await go({ emailId: 'em_1', to: 'd@x.io', from: 'f@x.io', passthrough: mode }, {}, undefined, { [step]: () => new Response(body, { status, headers }) });
            expect('value' in r, 'the call did not resolve', r);
            expectEqual(r.requests.length, status === 200 ? 3 : step + 1, 'wrong number of requests');
            if (status !== 200) return void errorOf(r.value);
            expectEqual([r.value.data, r.value.error], [{ id: 'sent_1' }, null], 'a good forward failed');
            checkSend(r.requests[2], { to: 'd@x.io', from: 'f@x.io', passthrough: mode }, received());
          });
  for (const step of [0, 1, 2])
    for (let status = 200; status < 600; status++)
      for (const mode of [true, false])
        await ctx.eval(`step ${step} status ${status} mode ${mode}`, async () => {
          const ok = status >= 200 && status < 300;
          const nobody = [204, 205, 304].includes(status);
          const good = step === 0 ? JSON.stringify(received()) : step === 1 ? RAW : '{"id":"sent_1"}';
          const r = await go({ emailId: 'em_1', to: 'd@x.io', from: 'f@x.io', passthrough: mode }, {}, undefined, {
            [step]: () => new Response(nobody ? null : ok ? good : '{"name":"err","message":"m","statusCode":1}', { status }),
          });
          expect('value' in r, 'the call did not resolve', r);
          const pass = ok && (!nobody || step === 1);
          expectEqual(r.requests.length, pass ? 3 : step + 1, 'wrong number of requests');
          if (pass) expectEqual([r.value.data, r.value.error], [{ id: 'sent_1' }, null], 'a good forward failed');
          else {
            const e = errorOf(r.value);
            if (!ok && step !== 1 && !nobody) expectEqual(e, { name: 'err', message: 'm', statusCode: 1 }, 'the error is not the API’s own');
          }
        });
}
/** The step whose body fault is in the log. */
function faultStep(log) {
  let step = -1;
  for (const l of log) {
    if (l.startsWith('fetch[')) step++;
    if (/body-fault/.test(l)) return step;
  }
  return -1;
}
