// Small, adversarial value alphabets. base(name) is one valid, distinct value; more(name) are the deviations.
export const STR = [
  '',
  ' ',
  '  padded\t',
  '0',
  'null',
  'undefined',
  'false',
  'ünïcödé 日本語 😀 \u2028\u00a0',
  'a&b=c?d#e/f%20+"q"\\\'<b>{{{x}}}',
  'line1\r\nline2\ttab\u0000nul',
  '{"a":[1]}',
  '__proto__',
  '2024-02-30T25:00:00Z',
  'X'.repeat(4000),
  'e\u0301 \ufeffBOM \ufb01 ﷽', // not in normal form C
  '\ud83d', // half of a surrogate pair
  '  <!doctype html><html><body><!-- c --><p> a  b </p><script>1<2</script></body></html>\n',
  'UPPER Mixed case',
  '12345678901234567890',
  '1e3',
  'true',
  '2024-08-05T11:52:01.858+02:00',
  '2024-08-05',
  'in 1 min',
  '2024-08-05T11:52:01',
  'id:123456789012345678, n: 0.10, {"n":12345678901234567890,"d":"2024-01-01T00:00:00Z"}',
  'a, b; c|d\te',
  'Bearer token',
  'https://u:p@host.example:8080/p/?q=1&r=%20#f',
  'user@example.com',
  'null prototype: [object Object]',
  '${HOME} %s {{name}} {0} #{x} $1 $& \\1',
];
/** Identifiers and addresses which need no quoting in a path and yet are unlike the usual ones. */
export const ODD_IDS = ['Tmpl_A', 'UPPER', 'MiXeD-Case', '0', '00012', '-1', '1e3', '123456789012345678901234567890', '3DEACCFB-F47F-440A-8875-EA14B1716B43', 'a.b', 'a..b', '...', '.a', '~a', '_', '__proto__', 'constructor', 'toString', 'undefined', 'null', 'true', 'false', 'NaN', 'publish', 'duplicate', 'send', 'cancel', 'metrics', 'receiving', 'contacts', 'topics', 'segments', 'imports', 'batch', 'a:b', 'a@b', '@', 'a+b', 'a,b', 'a;b', 'a=b', 'a!b', "o'b", 'a*b', '(a)', 'a$b', '$&', 'a$1', 're_123', 'welcome-email', 'welcome_email'];
/** Identifiers which are blank or contain blanks and letters of other scripts: also present, also carried as they are. */
export const BLANK_IDS = ['\u200b', '\u00a0', '\u2003', '\ufeff', '\u00a0a', 'a\u00a0', 'a\u200b', '\u200ba', 'a\u00a0b', '\u202fa\u202f', '\u3000', 'é', 'e\u0301', 'ÜBER', '日本語', 'ß', 'İ', 'ﬁ', '😀', '\u00ad', '\u2028'];
/** The same with spaces, inside of other text only (a URL does not end in one). */
export const SPACED_IDS = ['a b', 'a  b', 'Welcome Mail', 'a b c', 'a \u00a0b'];
/** Words that programs like to give a meaning of their own. */
export const WORDS = ['0', '0s', '0 days', '00', '-1', '1', '1s', '7d', '24h', '999999d', 'now', 'Now', 'never', 'none', 'None', 'nil', 'all', 'any', 'auto', 'default', 'draft', 'test', 'live', 'true', 'false', 'yes', 'no', 'on', 'off', 'enabled', 'disabled', 'null', 'undefined', 'NaN', 'Infinity', 'today', 'tomorrow', 'immediately', 'asap', 'cancel', 'delete', 'remove', 'publish', 'publish_now', 'dry-run', 'preview', 'latest', 'first', 'last', 'self', 'me', 'root', 'admin', 'full_access', 'sending_access', 'us-east-1', 'eu-west-1', 'opportunistic', 'enforced', 'opt_in', 'opt_out', 'upsert', 'skip', '*', '**', '?', '/', '//', '.', '-', '--', '_', '#', '@', '$', '%', '&', '+', '=', '~', '!', '1970-01-01T00:00:00Z', '1970-01-01', '2000-01-01T00:00:00.000Z', '2020-02-29', '9999-12-31T23:59:59Z', '1700000000', '1700000000000', '+1 day', 'P1D', 'PT0S', 'in 0 min', 'in 1 hour', 'every day', 'delivered@resend.dev', 'bounced@resend.dev', 'complained@resend.dev', 'onboarding@resend.dev', 'resend.dev', 'example.com', 'localhost', 'noreply@example.com', 'postmaster@example.com', 'undisclosed-recipients:;', 'Fwd:', 'Re:', 'RE: ', '[TEST]', 'unsubscribe', '{{{RESEND_UNSUBSCRIBE_URL}}}', '{{{FIRST_NAME|there}}}', '<>', '<p></p>', '<html></html>', '&nbsp;', 'string', 'number', 'boolean', 'email.sent', 'email.*', 'sent', 'delivered', 'bounced', 'v1', 'application/json', 'text/html', 'data:text/plain,', 'mailto:a@example.com', 'http://', 'https://example.com/', 'file:///x', 'javascript:0', 'inbound'];
/** Addresses: as people write them. */
export const ODD_MAILS = ['local', 'UPPER@EXAMPLE.COM', 'First.Last@Example.com', 'a@localhost', 'a+tag@b.io', "o'neil@x.io", 'a@[127.0.0.1]', '@x.io', 'a@', 'a@@b', 'a@b@c', 'a.b.c@d.e.f.g', '1@2.3', '_@x.io', '~@x.io', 'a@xn--bcher-kva.example', 'unsubscribe@x.io', 'a$b@x.io', 'a!b@x.io', 'a=b@x.io', 'a*@x.io', 'con_1'];
export const NUMBERS = [0, -0, 1, -1, 1.5, 0.1, 0.1 + 0.2, 1.23456, 1234567.891, 1e21, 1e-7, 5e-324, 1.7976931348623157e308, 2 ** 31, 2 ** 32, 2 ** 53 - 1, 2 ** 53 + 2, -(2 ** 53) - 2, 123456789012345680000, 1700000000, 1700000000000];
/** JSON documents as a server may write them. */
export const DOCS = [
  ...STR.flatMap((s) => [{ id: s, message: s }, { id: 'x', [s]: s }, { object: 'list', data: [s, { html: s, text: null }, s] }].map((v) => JSON.stringify(v))),
  ...NUMBERS.map((n) => JSON.stringify({ id: 'x', n, list: [n, { n }], text: `n:${n}` })),
  ...['0.10', '1.0', '-0', '-0.0', '1E5', '1e+2', '12345678901234567890', '-12345678901234567890', '0.1234567890123456789', '1e400', '-1e400', '1e-400', '9007199254740993', '123456789012345678901234567890.5'].flatMap((n) => [`{"id":${n}}`, `{"id": ${n} ,"t":":${n}","a":[${n},${n}]}`, `[${n}]`]),
  '{"id":"\\u00e9\\/\\ud83d\\ude00\\ud83d"}', '{"\\u0069d":1}', '{"a":1,"a":2,"A":3}', '{"z":1,"a":{"z":1,"a":2},"1":0}', '{\r\n\t"id" : "x" ,\r\n "l" : [ ]\r\n}\r\n', '{"toJSON":1,"then":2,"constructor":{"prototype":{}},"__proto__":null,"hasOwnProperty":0,"length":0}', '{"data":{"id":"inner"},"error":null,"headers":{}}', '{"data":null,"error":{"message":"x"},"headers":null}', '{"statusCode":422,"name":"validation_error","message":"m"}', '{"created_at":"2024-01-01 00:00:00+00","scheduled_at":null,"camelCase":1,"snake_case":2}', '{"id":null}', '{"id":""}', '{"id":0}', '{"error":"x"}', '{"errors":[]}', '{"success":false}', '{"status":"error"}', '{"status":500}', '{"ok":false}', '{"message":"x"}', '{"name":"not_found","message":"m"}', '{"name":"application_error"}', '{"deleted":false}', '{"object":"error"}', '{"warnings":["w"]}', '{"has_more":true,"data":[]}',
];
/** Documents whose members look like envelopes, wrappers or verdicts: each such name with each kind of value. */
export const MEMBERS = ['data', 'error', 'errors', 'result', 'results', 'object', 'message', 'messages', 'name', 'code', 'statusCode', 'status', 'status_code', 'detail', 'details', 'description', 'reason', 'issues', 'success', 'ok', 'meta', 'type', 'title', 'stack', 'cause', 'headers', 'body', 'payload', 'response', 'items', 'emails', 'email', 'value', 'warnings', 'deprecated', 'deprecation', 'next', 'retry', 'retryable', 'retry_after', 'request_id', 'requestId', 'deleted', 'has_more', 'hasMore', 'count', 'total', 'url', 'raw', 'id', 'toString', 'toJSON', 'then', 'valueOf', 'constructor', 'length'];
export const VALUES = ['null', 'true', 'false', '0', '1', '500', '""', '"x"', '"1"', '"error"', '{}', '{"id":"in"}', '{"message":"in"}', '{"name":"n","message":"in","statusCode":400}', '[]', '["x"]', '[{"id":"in"}]', '[{"name":"n","message":"in"}]', '[{"id":"a"},{"id":"b"}]', '{"data":{"id":"in"}}', '{"error":{"message":"in"}}'];
export const WRAPPERS = MEMBERS.flatMap((m) => VALUES.flatMap((v) => [`{"${m}":${v}}`, `{"${m}":${v},"name":"n","message":"m"}`, `{"id":"x","${m}":${v},"object":"thing"}`]));
/** Texts a URL can carry (half a surrogate pair cannot be), for queries. */
const QSTR = STR.filter((s) => s && !/\ud83d(?!\ude00)/.test(s) && s !== '0' && s !== 'undefined' && s !== ' ');
const REC = [
  {},
  { camelCaseKey: 'v', snake_key: 's', 'with space': '', firstName: 'not renamed', event_name: 'e' },
  { n: 0, neg: -1.5, t: true, f: false, nul: null, s: '', big: 9007199254740991 },
  { deep: { eventName: 'x', reply_to: [{ replyTo: null }, [], 0] } },
  JSON.parse('{"__proto__":{"polluted":"yes"},"constructor":"c","toString":"t"}'),
  Object.fromEntries(Array.from({ length: 60 }, (_, i) => [`k${i}`, i])),
  { 'X-Entity-Ref-ID': '1', 'x-entity-ref-id': '2', 'Reply-To': 'r@example.com', 'List-Unsubscribe': '<https://u.example.com/a?b=c&d>', From: 'f@example.com', Subject: 's', 'Message-ID': '<1@x>', 'In-Reply-To': '<0@x>', 'Content-Type': 'text/plain', Bcc: 'b@example.com' },
  { id: 'i', email: 'e@example.com', type: 'x', key: 'k', key_2: 'k', FIRST_NAME: 'F', first_name: 'f', first_Name: 'g', contactId: 'c', contact_id: 'd', payload: { payload: 1 } },
  { 0: 'zero', 10: 'ten', 2: 'two', '-1': 'minus', '': 'empty' },
  Object.fromEntries(NUMBERS.map((n, i) => [`n${i}`, Object.is(n, -0) ? 0 : n])),
  { nested: { list: [0.12345, -1e-9, 12345678901234567890] } },
  { list: [3, 1, 2, 1], dates: ['2024-01-01'], html: '<b>&amp;</b>', num: '007', pad: ' x ' },
];
const closed = (t) => ({ ...t, closed: true });
const type = (base, more, deep) => ({ base, more: typeof more === 'function' ? more : () => more, deep: deep ?? (() => []) });

/** Every object with, for each key, one of the given values or (null slot) no such key. */
export function combos(spec) {
  let out = [{}];
  for (const [k, vs] of Object.entries(spec)) out = out.flatMap((o) => vs.map((v) => (v === ABSENT ? o : { ...o, [k]: v })));
  return out;
}
export const ABSENT = Symbol('absent');
const one = (spec) => () => combos(spec).map((o) => [o]);

const many = (n, f) => Array.from({ length: n }, (_, i) => f(i));

export const T = {
  id: type((n) => `${n}_1`, []),
  str: type((n) => `value of ${n}`, STR),
  nstr: type((n) => `value of ${n}`, [null, ...STR]),
  address: type((n) => `${n}@example.com`, ['no-at-sign', 'a@b.c, d@e.f', 'Ünï <u@example.com>', 'x@e\u0301.example', 'Name <a+b@example.com>', '"Quoted, Name" <q@example.com>', 'é@exämple.com', ' a@b.c ', '', 'UPPER@EXAMPLE.COM']),
  recipients: type((n) => [`${n}1@example.com`, `${n}2@example.com`], [
    'one@example.com',
    'a@example.com, b@example.com',
    '',
    [],
    ['only@example.com'],
    ['dup@example.com', 'z@example.com', 'dup@example.com', 'DUP@example.com'],
    ['Name, With Comma <x@example.com>', ''],
    many(60, (i) => `r${59 - i}@example.com`),
  ]),
  list: type((n) => [`${n}.a`, `${n}.b`], [[], ['one'], ['b', 'a', 'b', ''], many(60, (i) => `i${59 - i}`)]),
  bool: type(() => true, [false]),
  record: type((n) => ({ [`${n}Key`]: `v-${n}`, snake_key: 'two' }), REC),
  nrecord: type((n) => ({ [`${n}Key`]: 'string', other_key: 'number' }), [null, ...REC]),
  scalar: type((n) => `fallback ${n}`, [null, ...NUMBERS.filter((n) => !Object.is(n, -0)), false, true, ...STR]),
  tags: type((n) => [{ name: 'category', value: n }], [
    [],
    [{ name: 'a', value: '' }, { name: 'a', value: 'b' }, { name: 'a', value: '' }],
    many(60, (i) => ({ name: `t${59 - i}`, value: String(i) })),
    [{ name: 'Bad Name é!', value: 'a b\u00e9/&' }, { name: ' pad ', value: ' pad ' }, { name: 'UP', value: 'UP' }],
    [{ name: 'n', value: 'x'.repeat(300) }],
  ], one({ name: [ABSENT, 'n', ''], value: [ABSENT, 'v', '', '0'] })),
  attachments: type(
    (n) => [{ filename: `${n}.txt`, content: 'aGk=', contentType: 'text/plain', contentId: 'cid-1' }],
    () => [
      [],
      [{ path: 'https://files.example.com/a.pdf', filename: 'a.pdf' }],
      [{ filename: 'inline.png', content: Buffer.from([0, 255, 10, 13, 128]), contentType: 'image/png', contentId: 'logo' }],
      [{ filename: false, content: '' }],
      [{ content: 'x', filename: '' }, { content: 'y' }, { path: '' }],
      [{ filename: 'no-id.bin', content: Buffer.alloc(0) }, { contentId: 'only-id' }, { contentType: 'only/type' }],
      many(12, (i) => ({ filename: `f${11 - i}`, content: String(i), contentId: `c${i}`, contentType: 'text/x' })),
      [{ filename: 'dup.txt', content: 'aGk=' }, { filename: 'dup.txt', content: 'aGk=' }, { filename: 'dup.txt', content: 'aGk=' }],
      [{ filename: 'cid.png', content: 'aGk=', contentId: '<logo@x>' }, { filename: 'not base64 at all: é', content: 'é ~~ \n' }, { filename: 'url', content: 'data:text/plain;base64,aGk=' }],
    ],
    one({
      filename: [ABSENT, 'a b/ü.txt', '', false],
      content: [ABSENT, 'aGk=', '', Buffer.from([0, 200, 10]), Buffer.alloc(0)],
      path: [ABSENT, 'https://files.example.com/a b?c=d', ''],
      contentType: [ABSENT, 'text/html; charset=UTF-8', ''],
      contentId: [ABSENT, '<logo>', ''],
    }),
  ),
  templateRef: closed(type((n) => ({ id: `tmpl_${n}`, variables: { userName: 'Ada', snake_count: 3 } }), [
    { id: 'tmpl_only' },
    { id: '', variables: {} },
    { id: 't', variables: { zero: 0, empty: '', camelCase: 'x', snake_case: -1.5 } },
    { id: 't2', variables: JSON.parse('{"__proto__":"p","id":"inner"}') },
    { id: ' T3 ', variables: Object.fromEntries(Array.from({ length: 60 }, (_, i) => [`k${59 - i}`, i])) },
    { id: 'alias/x', variables: { a: '  padded ', b: '0', UPPER: 'true', nul: null, 'with space': 'x', n: 1e21 } },
  ])),
  variables: type(() => [{ key: 'firstName', type: 'string', fallbackValue: 'there' }], [
    [],
    [{ key: 'n', type: 'number', fallbackValue: 0 }],
    [{ key: 's', type: 'string', fallbackValue: '' }, { key: 's', type: 'string', fallbackValue: null }, { key: 'u', type: 'number' }],
    many(25, (i) => ({ key: `v${24 - i}`, type: i % 2 ? 'string' : 'number', fallbackValue: i % 2 ? `f${i}` : i })),
    [{ key: 'dup', type: 'string', fallbackValue: 'a' }, { key: 'dup', type: 'string', fallbackValue: 'a' }],
  ], one({ key: [ABSENT, 'camelKey', '', 'UP_case', ' sp '], type: [ABSENT, 'string', 'number'], fallbackValue: [ABSENT, null, 0, '', '0', -1.5, ' x ', '007', 'null'] })),
  idList: type(() => [{ id: 'seg_1' }, { id: 'seg_2' }], [[], [{ id: '' }], [{ id: 'z' }, { id: 'a' }, { id: 'z' }], many(40, (i) => ({ id: `s${39 - i}` })), [{ id: ' Mixed/Case ' }]]),
  topicList: type(() => [{ id: 'top_1', subscription: 'opt_in' }, { id: 'top_2', subscription: 'opt_out' }], [
    [],
    [{ id: 't', subscription: 'opt_out' }],
    [{ id: 't', subscription: 'opt_out' }, { id: 'a', subscription: 'opt_in' }, { id: 't', subscription: 'opt_in' }],
    many(40, (i) => ({ id: `t${39 - i}`, subscription: i % 2 ? 'opt_in' : 'opt_out' })),
  ], one({ id: [ABSENT, 't', '', ' T '], subscription: [ABSENT, 'opt_in', 'opt_out'] })),
  capabilities: type(() => ({ sending: 'enabled', receiving: 'disabled' }), [{}, { sending: 'disabled' }, { receiving: 'enabled' }], () => combos({ sending: [ABSENT, 'enabled', 'disabled'], receiving: [ABSENT, 'enabled', 'disabled'] })),
  columnMap: closed(type(() => ({ email: 'E-mail', firstName: 'First', lastName: 'Last', unsubscribed: 'Unsub', properties: { camelKey: { column: 'Col', type: 'number' }, snake_key: { column: '' } } }), [
    {},
    { email: '' },
    { firstName: 'First', lastName: '' },
    { properties: {} },
    { unsubscribed: 'u', properties: { firstName: { column: 'x', type: 'boolean' } } },
  ])),
  file: type(() => new Blob(['email\na@example.com\n'], { type: 'text/csv' }), []),
  steps: type(
    () => [
      { key: 's1', type: 'trigger', config: { eventName: 'user.created' } },
      { key: 's2', type: 'delay', config: { duration: '1 hour' } },
    ],
    () => [
      [],
      [{ key: 'only', type: 'contact_delete', config: {} }],
      [
        { key: 'k', type: 'send_email', config: { template: { id: 't', variables: { replyTo: { var: 'x' }, eventName: 'y' } }, subject: '', from: 'f@example.com', replyTo: 'r@example.com' } },
        { key: 'k', type: 'wait_for_event', config: { eventName: 'e', timeout: '3 days', filterRule: { type: 'and', rules: [{ type: 'rule', field: 'eventName', operator: 'eq', value: null }, { type: 'or', rules: [] }] } } },
        { key: 'c', type: 'condition', config: { type: 'rule', field: 'firstName', operator: 'eq', value: false } },
        { key: 'u', type: 'contact_update', config: { firstName: null, lastName: '', unsubscribed: false, properties: { firstName: 0, segmentId: null } } },
        { key: 'a', type: 'add_to_segment', config: { segmentId: 'seg' } },
      ],
      [
        { key: 'z', type: 'condition', config: { type: 'or', rules: [{ type: 'rule', field: 'z', operator: 'neq', value: 0 }, { type: 'and', rules: [{ type: 'rule', field: 'b', operator: 'exists' }, { type: 'or', rules: [] }, { type: 'rule', field: 'a', operator: 'lt', value: 1 }] }, { type: 'rule', field: 'a', operator: 'is_empty' }] } },
        { key: 'y', type: 'contact_update', config: { properties: { z: null, a: { var: 'x' }, m: '' } } },
        { key: 'x', type: 'send_email', config: { template: { id: 't', variables: { z: ['b', 'a'], a: [], o: { z: 1, a: 0 } } } } },
        { key: 'b', type: 'delay', config: { duration: '2 days' } },
        { key: 'a', type: 'trigger', config: { eventName: 'late' } },
      ],
    ],
  ),
  connections: type(() => [{ from: 's1', to: 's2' }], [
    [],
    [{ from: 's1', to: 's2', type: 'default' }, { from: 's1', to: 's3', type: 'condition_met' }, { from: 's1', to: 's2', type: 'default' }],
    [{ from: '', to: '', type: 'timeout' }],
    [{ from: 'c', to: 'x', type: 'condition_met' }, { from: 'c', to: 'x', type: 'condition_not_met' }, { from: 'x', to: 'x' }, { from: 'ghost', to: 'c' }],
  ], one({ from: ['a', '', ' s '], to: ['b', 'a', ''], type: [ABSENT, 'default', 'condition_met', 'condition_not_met', 'timeout', 'event_received'] })),
  // query types
  limit: type(() => 10, [1, 2, 20, 50, 99, 100, 101, 250, 500, 1000, 100000, 0, -1, 1.5, 1e21]),
  cursor: type((n) => `cur_${n}`, ['', ' ', '0', 'a b+c', 'x&limit=5', 'a=b', '50%', '%2F', 'ü/日本?#', 'eyJpZCI6MX0=', 'a,b;c', 'undefined', ...QSTR]),
  qstr: type((n) => `${n}-v`, ['2024-01-01T00:00:00+02:00', 'Europe/Paris', 'a b+c', 'x&limit=5', 'a=b#h', '50%', 'é日', "o'brien+tag@example.com", '0', ...QSTR]),
  qenum: (...v) => ({ ...type(() => v[0], v.slice(1)), fixed: true }),
  qlist: (...v) => type(() => [v[0], v[1]], [[v[0]], [v[2], v[0]], [v[1], v[1]], v]),
  qenumOrList: (...v) => ({ fixed: true, ...type(() => v[0], [v[1], [v[0]], [v[1], v[0]], v]) }),
};

// ---- sizes: around every power of two, round number and likely limit -------------------------------------
const around = (...l) => l.flatMap((n) => [n - 1, n, n + 1]);
const sortU = (l) => [...new Set(l)].filter((n) => n >= 0).sort((a, b) => a - b);
export const COUNTS = {
  quick: sortU([...many(22, (i) => i), ...around(25, 32, 40, 50, 64, 100, 128, 200, 250, 256, 300, 500, 512, 1000, 1024), 2001, 5001]),
  thorough: sortU([...many(140, (i) => i), ...around(150, 200, 250, 256, 300, 400, 500, 512, 600, 750, 800, 1000, 1024, 1500, 2000, 2048, 2500, 4096, 5000, 8192, 10000), 20001]),
};
export const LENGTHS = {
  quick: sortU([...around(10, 16, 20, 32, 50, 64, 70, 76, 78, 80, 100, 128, 150, 200, 250, 255, 320, 500, 512, 998, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000), 16385, 32769, 65537, 100001, 131073]),
  thorough: sortU([...many(300, (i) => i), ...around(320, 400, 500, 512, 600, 750, 900, 998, 1000, 1024, 1500, 2000, 2048, 2500, 3000, 4000, 4096, 5000, 8000, 8192, 10000, 16000, 16384, 20000, 25000, 30000, 32768, 40000, 50000, 64000, 65536, 75000, 80000, 90000, 100000, 102400, 131072, 200000, 250000, 262144)]),
};
export const HUGE = { quick: [300007, 1100003], thorough: [300007, 524289, 600011, 1000001, 1048577, 1100003, 2097153, 2621441, 5000011, 10485761] };
const UNIT = '<b>é e\u0301</b> \r\n <i>&amp; {{{x}}}</i>  "q"\\ 😀 UPPER lower a@b.c, d=%20+/? \u2028\t';
/** A text of n UTF-16 units in which anything that normalises, trims or cuts leaves a mark. */
export const text = (n) => (n <= 0 ? '' : `${UNIT.repeat(Math.ceil(n / UNIT.length)).slice(0, n - 1).replace(/[\ud800-\udbff]$/, '~')}!`);
/** A path-safe text of n characters. */
export const word = (n) => (n <= 0 ? '' : `${'aB0-_.~'.repeat(Math.ceil(n / 7)).slice(0, n - 1)}z`);
/** n distinct entries in the style of the given ones, not sorted. */
export const stretch = (list, n) =>
  many(n, (i) => {
    const e = list[i % list.length];
    const tag = (n - i) * 7;
    if (typeof e === 'string') return `${e}${tag}`;
    const k = Object.keys(e)[0];
    return { ...e, [k]: typeof e[k] === 'string' ? `${e[k]}${tag}` : e[k] };
  });
export const wide = (n, key = (i) => `k_${n - i}Key`) => Object.fromEntries(many(n, (i) => [key(i), i % 3 ? `v${i}` : i]));
export const deep = (n) => {
  let v = { eventName: 'leaf', n: 0 };
  for (let i = 0; i < n; i++) v = i % 2 ? { nested: v, replyTo: i } : { list: [v, null] };
  return v;
};
export const DEPTHS = { quick: [4, 5, 6, 8, 10, 16, 20, 32, 33, 64, 100], thorough: [...many(70, (i) => i + 4), 100, 101, 128, 200, 256, 300, 500] };
/** Every resized version of a value in the style of the base value: [label, value]. */
export function* resized(base, tier, closedType = false) {
  if (typeof base === 'string') for (const n of [...LENGTHS[tier], ...HUGE[tier]]) yield [`length ${n}`, text(n)];
  else if (Array.isArray(base)) {
    for (const n of COUNTS[tier]) yield [`count ${n}`, stretch(base, n)];
    for (const n of [257, 1025, 65537, ...HUGE[tier]]) {
      if (typeof base[0] === 'string') yield [`an entry of length ${n}`, [base[0], text(n), base[1] ?? 'x']];
      else for (const k of Object.keys(base[0]).filter((x) => x !== 'type' && typeof base[0][x] === 'string')) yield [`an entry with ${k} of length ${n}`, [{ ...base[0], [k]: text(n) }, ...base.slice(1)]];
    }
  } else if (base && typeof base === 'object' && Object.getPrototypeOf(base) === Object.prototype) {
    for (const [where, put] of [...(closedType ? [] : [['', (v) => ({ ...base, ...v })]]), ...Object.keys(base).filter((k) => base[k] && typeof base[k] === 'object').map((k) => [`${k} `, (v) => ({ ...base, [k]: { ...base[k], ...v } })])]) {
      for (const n of COUNTS[tier]) yield [`${where}keys ${n}`, put(wide(n))];
      for (const n of [65, 129, 257, 1025]) yield [`${where}key of length ${n}`, put({ [text(n)]: 'v' })];
      for (const n of [...LENGTHS[tier].filter((x) => x > 100 && x % 2), ...HUGE[tier]]) yield [`${where}value of length ${n}`, put({ long_Value: text(n) })];
      for (const n of DEPTHS[tier]) yield [`${where}depth ${n}`, put({ deep: deep(n) })];
    }
  }
}
