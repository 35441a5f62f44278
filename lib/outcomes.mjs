// A small menu of what can become of one request, for checks that combine outcomes with something else.
import { jsonResponse } from './world.mjs';

const cut = (status, partial) => {
  const err = new TypeError('terminated');
  return new Response(
    new ReadableStream({
      start(c) {
        if (partial) c.enqueue(new TextEncoder().encode('{"id":"par'));
        else c.error(err);
      },
      pull(c) {
        c.error(err);
      },
    }),
    { status, headers: { 'content-type': 'application/json' } },
  );
};
/** kind: 'ok' | 'api' (the API's own JSON error) | 'status' (an error status without one) | 'local' */
export const OUTCOMES = [
  { name: 'ok', kind: 'ok' },
  { name: '422', kind: 'api', status: 422, error: { name: 'validation_error', message: 'bad `to`', statusCode: 422 }, act: () => jsonResponse(422, { name: 'validation_error', message: 'bad `to`', statusCode: 422 }, { 'x-h': 'v' }) },
  { name: '429', kind: 'api', status: 429, error: { name: 'rate_limit_exceeded', message: 'slow', statusCode: 429 }, act: () => jsonResponse(429, { name: 'rate_limit_exceeded', message: 'slow', statusCode: 429 }, { 'retry-after': '1' }) },
  { name: '500 json', kind: 'api', status: 500, error: { name: 'internal_server_error', message: 'oops' }, act: () => jsonResponse(500, { name: 'internal_server_error', message: 'oops' }) },
  { name: '400 saying 422', kind: 'api', status: 400, error: { name: 'validation_error', message: 'bad', statusCode: 422 }, act: () => jsonResponse(400, { name: 'validation_error', message: 'bad', statusCode: 422 }) },
  { name: '401 saying little', kind: 'api', status: 401, error: { message: '', extra: { n: 1.5, list: [null] } }, act: () => jsonResponse(401, { message: '', extra: { n: 1.5, list: [null] } }) },
  { name: '404 html', kind: 'status', status: 404, act: () => new Response('<h1>Not here</h1>', { status: 404 }) },
  { name: '503 empty', kind: 'status', status: 503, act: () => new Response('', { status: 503 }) },
  { name: '400 null', kind: 'status', status: 400, act: () => new Response('null', { status: 400 }) },
  { name: '302', kind: 'status', status: 302, act: () => new Response('', { status: 302, headers: { location: 'https://elsewhere.test.invalid/' } }) },
  { name: '500 cut', kind: 'cut', status: 500, act: () => cut(500, true) },
  { name: '401 lost body', kind: 'cut', status: 401, act: () => cut(401, false) },
  { name: '200 cut', kind: 'local', download: true, act: () => cut(200, true) },
  { name: '200 garbage', kind: 'local', act: () => new Response('<html>', { status: 200 }) },
  { name: '200 empty', kind: 'local', act: () => new Response('', { status: 200 }) },
  { name: '204', kind: 'local', act: () => new Response(null, { status: 204 }) },
  { name: 'lost', kind: 'local', download: true, act: () => ({ reject: new TypeError('fetch failed') }) },
  { name: 'lost string', kind: 'local', download: true, act: () => ({ reject: 'gone' }) },
  { name: 'aborted', kind: 'local', download: true, act: () => ({ reject: new DOMException('aborted', 'AbortError') }) },
  {
    name: 'sync throw',
    kind: 'local',
    download: true,
    act: () => {
      throw { sync: true, value: new TypeError('bad') };
    },
  },
];
/** Outcomes that make sense for a step of a flow (the raw download is bytes: any 2xx body is a message). */
export const outcomesFor = (step) => OUTCOMES.filter((o) => step !== 'download' || o.kind !== 'local' || o.download);

/** The documented error names, and two which are not. */
export const ERROR_NAMES = [
  'invalid_idempotency_key', 'validation_error', 'missing_api_key', 'restricted_api_key', 'invalid_api_key', 'not_found', 'method_not_allowed',
  'invalid_idempotent_request', 'concurrent_idempotent_requests', 'invalid_attachment', 'invalid_from_address', 'invalid_access', 'invalid_parameter',
  'invalid_region', 'missing_required_field', 'monthly_quota_exceeded', 'daily_quota_exceeded', 'rate_limit_exceeded', 'security_error',
  'application_error', 'internal_server_error', 'something_new', '',
];

/** Response headers a server, a gateway or a CDN may add to any answer: [name, values]. */
const FIELDS = {
  'content-type': ['application/json', 'application/json; charset=utf-8', 'application/json; charset=iso-8859-1', 'application/problem+json', 'text/html', 'text/html; charset=utf-8', 'text/plain', 'text/event-stream', 'application/octet-stream', 'application/x-ndjson', 'application/xml', 'multipart/mixed; boundary=x', 'message/rfc822', 'garbage', ''],
  'content-encoding': ['gzip', 'br', 'identity'],
  'content-language': ['de'],
  'content-location': ['/elsewhere'],
  'content-disposition': ['attachment; filename="a.json"', 'inline'],
  'content-range': ['bytes 0-10/200'],
  'content-md5': ['Q2hlY2sgSW50ZWdyaXR5IQ=='],
  digest: ['sha-256=AAAA'],
  'transfer-encoding': ['chunked'],
  trailer: ['x-end'],
  connection: ['close', 'keep-alive', 'upgrade'],
  'keep-alive': ['timeout=1, max=1'],
  upgrade: ['h2c'],
  'alt-svc': ['h3=":443"'],
  'retry-after': ['0', '1', '120', '-1', 'Wed, 21 Oct 2015 07:28:00 GMT', 'Fri, 31 Dec 2100 23:59:59 GMT', 'soon'],
  'retry-after-ms': ['1', '5000'],
  'x-should-retry': ['true', 'false'],
  'ratelimit-limit': ['2', '2;w=1'],
  'ratelimit-remaining': ['0', '1', '-1'],
  'ratelimit-reset': ['0', '1', '4102444800'],
  'ratelimit-policy': ['2;w=1'],
  'x-ratelimit-remaining': ['0'],
  'x-ratelimit-reset': ['60'],
  'x-resend-daily-quota': ['0', '100'],
  'x-resend-monthly-quota': ['0', '3000'],
  location: ['/elsewhere', 'https://elsewhere.test.invalid/'],
  refresh: ['0; url=/elsewhere'],
  link: ['</elsewhere?page=2>; rel="next"'],
  etag: ['"abc"', 'W/"abc"'],
  'last-modified': ['Wed, 21 Oct 2015 07:28:00 GMT'],
  date: ['Thu, 01 Jan 1970 00:00:00 GMT', 'Fri, 31 Dec 2100 23:59:59 GMT', 'junk'],
  age: ['86400'],
  expires: ['0', 'Fri, 31 Dec 2100 23:59:59 GMT'],
  'cache-control': ['no-store', 'public, max-age=31536000, immutable'],
  vary: ['*'],
  'x-cache': ['HIT', 'MISS'],
  'cf-cache-status': ['HIT'],
  'cf-ray': ['8a-FRA'],
  'cf-mitigated': ['challenge'],
  server: ['cloudflare', 'nginx'],
  via: ['1.1 proxy'],
  warning: ['199 - "stale"'],
  'set-cookie': ['session=abc; Path=/; HttpOnly'],
  'clear-site-data': ['"*"'],
  'www-authenticate': ['Bearer error="invalid_token"', 'Basic realm="x"'],
  'proxy-authenticate': ['Basic realm="x"'],
  authorization: ['Bearer re_from_server'],
  'idempotency-key': ['from-server'],
  'idempotent-replayed': ['true'],
  'x-idempotent-replayed': ['true'],
  'x-request-id': ['req_1'],
  'request-id': ['req_1'],
  'x-trace-id': ['t'],
  traceparent: ['00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01'],
  deprecation: ['true', '@1688169599'],
  sunset: ['Wed, 21 Oct 2015 07:28:00 GMT'],
  'x-deprecated': ['true'],
  'x-api-version': ['2', '1999-01-01'],
  'x-min-sdk-version': ['99.0.0'],
  'x-maintenance': ['true'],
  'x-error': ['true', 'boom'],
  'x-error-code': ['validation_error'],
  'x-error-message': ['boom'],
  'x-message': ['boom'],
  'x-has-more': ['true'],
  'x-total-count': ['1000'],
  'x-next-cursor': ['abc'],
  'x-region': ['eu-west-1'],
  'x-base-url': ['https://elsewhere.test.invalid'],
  'x-resend-region': ['eu-west-1'],
  'x-resend-api-key': ['re_from_server'],
  'user-agent': ['from-server'],
  'x-debug': ['1'],
  'x-warning': ['careful'],
  'access-control-allow-origin': ['https://site.test.invalid'],
  'strict-transport-security': ['max-age=0'],
  'x-content-type-options': ['nosniff'],
  'x-amz-meta-charset': ['utf-16'],
  'x-amz-storage-class': ['GLACIER'],
  'preference-applied': ['return=minimal'],
  status: ['200', '500 Internal Server Error'],
  ':status': [],
  data: ['d'],
  error: ['e'],
  message: ['m'],
};
/** [label, { name: value }] for every one of them. */
export const RESPONSE_HEADERS = Object.entries(FIELDS).flatMap(([n, vs]) => vs.map((v) => [`${n}: ${v}`, { [n]: v }]));
