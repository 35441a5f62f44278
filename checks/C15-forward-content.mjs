// C15: forwarding delivers the original content intact. Messages are generated from known parts, so the oracle is
// what went into the message, not another MIME parser.
import { expect, expectEqual, fail } from '../lib/ctx.mjs';
import { Rig } from '../lib/harness.mjs';
import { received } from '../lib/flows.mjs';
import { COUNTS, HUGE, LENGTHS, STR, text as sized } from '../lib/alphabet.mjs';
import { RESPONSE_HEADERS } from '../lib/outcomes.mjs';
import { jsonBody, jsonResponse } from '../lib/world.mjs';

export const level = 'exploration';
export const shards = { quick: 8, thorough: 8 };
export const rule =
  'wrapped: every byte string up to length 2, every length-3 string over 24 telling bytes, size sweeps around base64/chunk boundaries, every split of a body into two network chunks; passed through: message grammar (structure × text charset × transfer encoding × text content × html content) and every attachment list up to a length over an alphabet of attachments × structure; all downloads go through the real SDK; distinct by key';
export const bounds = (tier) => `attachment lists up to length ${tier === 'quick' ? 2 : 3} over 16 attachments; up to 513 attachments (thorough 2001); attachments and bodies of every size; 10 charsets × 4 encodings × 18 texts; nesting depth 3`;
export const assumptions = [
  'the MIME parser may normalise line endings of calendar invitations and of content that travelled without a transfer encoding, and add a final line break to text encodings',
  'messages have at most one text and one html body part',
];

const CRLF = '\r\n';
// ---- encoders written here, from the runtime's decoders ----------------------------------------------------
const tables = new Map();
function encodeCharset(text, charset) {
  if (/^utf-?8$/i.test(charset)) return Buffer.from(text, 'utf8');
  if (/utf-16le/i.test(charset)) return Buffer.from(text, 'utf16le');
  if (/us-ascii/i.test(charset)) return [...text].every((c) => c.charCodeAt(0) < 128) ? Buffer.from(text, 'latin1') : null;
  if (!tables.has(charset)) {
    const d = new TextDecoder(charset, { fatal: true });
    const t = new Map();
    const add = (bytes) => {
      try {
        const c = d.decode(Uint8Array.from(bytes));
        if ([...c].length === 1 && !t.has(c)) t.set(c, bytes);
      } catch {}
    };
    for (let a = 0; a < 256; a++) add([a]);
    if (/shift_jis|gb18030|euc-kr|big5/i.test(charset)) for (let a = 0x81; a < 0xff; a++) for (let b = 0x40; b < 0xff; b++) add([a, b]);
    tables.set(charset, t);
  }
  const t = tables.get(charset);
  const out = [];
  for (const c of text) {
    const b = t.get(c);
    if (!b) return null;
    out.push(...b);
  }
  return Buffer.from(out);
}
const b64 = (bytes) => (bytes.toString('base64').match(/.{1,76}/g) ?? []).join(CRLF);
function qp(bytes) {
  let out = '';
  let line = 0;
  for (const b of bytes) {
    const s = (b >= 33 && b <= 126 && b !== 61) ? String.fromCharCode(b) : `=${b.toString(16).toUpperCase().padStart(2, '0')}`;
    if (line + s.length > 73) {
      out += `=${CRLF}`;
      line = 0;
    }
    out += s;
    line += s.length;
  }
  return `${out}`;
}
const part = (headers, body) => Buffer.concat([Buffer.from(headers.map((h) => h + CRLF).join('') + CRLF, 'latin1'), Buffer.isBuffer(body) ? body : Buffer.from(body, 'latin1')]);
let serial = 0;
const multi = (type, parts) => {
  const b = `=_b${serial++ % 7}_${type}`;
  return part([`Content-Type: multipart/${type}; boundary="${b}"`], Buffer.concat([...parts.flatMap((p) => [Buffer.from(`--${b}${CRLF}`), p, Buffer.from(CRLF)]), Buffer.from(`--${b}--${CRLF}`)]));
};
const textPart = (sub, text, charset, enc) => {
  const bytes = encodeCharset(text, charset);
  if (!bytes || (/utf-16/.test(charset) && enc !== 'base64')) return null; // MIME carries UTF-16 in base64 only
  const h = [`Content-Type: text/${sub}; charset=${charset}`];
  if (enc === 'base64') return part([...h, 'Content-Transfer-Encoding: base64'], b64(bytes));
  if (enc === 'quoted-printable') return part([...h, 'Content-Transfer-Encoding: quoted-printable'], qp(bytes));
  if (enc === '7bit') return bytes.every((b) => b < 128 && b !== 0) ? part(h, bytes) : null;
  return part([...h, 'Content-Transfer-Encoding: 8bit'], bytes);
};
const message = (root) => Buffer.concat([Buffer.from(['From: Sender <s@example.com>', 'To: me@example.com', 'Subject: Orig', 'Date: Tue, 1 Jul 2025 10:52:37 +0000', 'Message-ID: <m@x>', 'MIME-Version: 1.0'].join(CRLF) + CRLF), root]);
const lines = (s) => (s ?? '').replace(/\r\n?/g, '\n').replace(/\n+$/, '');

// ---- attachments -------------------------------------------------------------------------------------------
const allBytes = Buffer.from(Array.from({ length: 256 }, (_, i) => i));
const A = [
  { filename: 'a.pdf', type: 'application/pdf', bytes: Buffer.from('%PDF-1.4\n\x00\xff\r\n', 'latin1'), enc: 'base64' },
  { filename: 'all.bin', type: 'application/octet-stream', bytes: allBytes, enc: 'base64' },
  { filename: 'inline.png', type: 'image/png', bytes: Buffer.from([0x89, 0x50, 0x4e, 0x47, 13, 10, 26, 10]), enc: 'base64', cid: 'logo@x', inline: true },
  { filename: 'plain.txt', type: 'text/plain', bytes: Buffer.from('not the body\nsecond'), enc: '7bit' },
  { filename: 'page.html', type: 'text/html', bytes: Buffer.from('<p>not the html</p>'), enc: 'base64' },
  { filename: 'data.csv', type: 'text/csv; charset=iso-8859-1', mime: 'text/csv', bytes: Buffer.from('caf\xe9;1\r\nx;2', 'latin1'), enc: 'quoted-printable' },
  { filename: 'ünï cödé 日本.txt', type: 'application/octet-stream', bytes: Buffer.from([0]), enc: 'base64', rfc2231: true },
  { filename: 'a.pdf', type: 'application/pdf', bytes: Buffer.from('other file, same name'), enc: 'base64' },
  { filename: 'quoted "name"; x=1.bin', type: 'application/octet-stream', bytes: Buffer.from('=3D not decoded twice'), enc: 'quoted-printable' },
  { filename: undefined, type: 'image/gif', bytes: Buffer.from('GIF89a'), enc: 'base64', cid: 'no-name', inline: true },
  { filename: 'inner.eml', type: 'message/rfc822', bytes: Buffer.from('From: q@x.io\nSubject: inner\n\ninner text'), enc: '7bit' },
  { filename: 'empty.bin', type: 'application/octet-stream', bytes: Buffer.alloc(0), enc: 'base64' },
  { filename: 'utf16.txt', type: 'text/plain; charset=utf-16le', mime: 'text/plain', bytes: Buffer.from('hé', 'utf16le'), enc: 'base64' },
  { filename: 'b64 of b64.txt', type: 'application/octet-stream', bytes: Buffer.from(Buffer.from('twice').toString('base64')), enc: 'base64' },
  { filename: 'invite.ics', type: 'text/calendar; method=REQUEST', mime: 'text/calendar', bytes: Buffer.from('BEGIN:VCALENDAR\r\nEND:VCALENDAR'), enc: 'base64' },
  { filename: 'big.bin', type: 'application/zip', bytes: Buffer.from(Array.from({ length: 70001 }, (_, i) => (i * 31 + (i >> 8)) & 255)), enc: 'base64' },
];
const IDENTITY = [];
for (const type of ['application/pdf', 'image/png', 'audio/ogg', 'application/pgp-signature', 'text/plain', 'text/html', 'message/rfc822'])
  for (const disposition of ['attachment', 'inline', 'none'])
    for (const naming of ['cd', 'ct', 'both', 'none', 'rfc2231', 'encoded'])
      for (const cid of [undefined, 'x@y', 'plain-no-at', 'a.b$c@host.example'])
        for (const enc of ['base64', 'quoted-printable']) {
          if (/^text|^message/.test(type) && disposition !== 'attachment') continue; // those are bodies, not attachments
          if (type === 'message/rfc822' && enc !== 'base64') continue;
          if ((naming === 'cd' || naming === 'both' || naming === 'rfc2231' || naming === 'encoded') && disposition === 'none') continue;
          const filename = naming === 'none' ? undefined : naming === 'rfc2231' || naming === 'encoded' ? 'prés ent.dat' : 'present.dat';
          IDENTITY.push({ filename, naming, type, disposition, cid, enc, bytes: Buffer.from('\x00\x01\xfe\xff=3D', 'latin1') });
        }
const attachmentPart = (a) => {
  if (a.naming) {
    const cd =
      a.naming === 'cd' || a.naming === 'both'
        ? `; filename="${a.filename}"`
        : a.naming === 'rfc2231'
          ? `; filename*=UTF-8''${encodeURIComponent(a.filename)}`
          : a.naming === 'encoded'
            ? `; filename="=?UTF-8?B?${Buffer.from(a.filename).toString('base64')}?="`
            : '';
    return part(
      [
        `Content-Type: ${a.type}${a.naming === 'ct' || a.naming === 'both' ? `; name="${a.filename}"` : ''}`,
        ...(a.disposition === 'none' ? [] : [`Content-Disposition: ${a.disposition}${cd}`]),
        ...(a.cid ? [`Content-ID: <${a.cid}>`] : []),
        `Content-Transfer-Encoding: ${a.enc}`,
      ],
      a.enc === 'base64' ? b64(a.bytes) : qp(a.bytes),
    );
  }
  const name = a.filename === undefined ? '' : a.rfc2231 ? `; filename*=UTF-8''${encodeURIComponent(a.filename)}` : `; filename="${a.filename.replace(/(["\\])/g, '\\$1')}"`;
  const h = [`Content-Type: ${a.type}`, `Content-Disposition: ${a.inline ? 'inline' : 'attachment'}${name}`, ...(a.cid ? [`Content-ID: <${a.cid}>`] : [])];
  if (a.enc === 'base64') return part([...h, 'Content-Transfer-Encoding: base64'], b64(a.bytes));
  if (a.enc === 'quoted-printable') return part([...h, 'Content-Transfer-Encoding: quoted-printable'], qp(a.bytes));
  return part(h, Buffer.from(a.bytes.toString('latin1').replace(/\n/g, CRLF), 'latin1'));
};

export async function run(ctx) {
  const rig = new Rig();
  const send = async (opts, bytes, chunks, headers = { 'content-type': 'message/rfc822' }) => {
    const r = await rig.raw(
      (c) => c.emails.receiving.forward({ emailId: 'em_1', to: 'd@x.io', from: 'f@x.io', ...opts }),
      (rec, n) =>
        n === 0
          ? jsonResponse(200, received({ text: 'stored text', html: '<p>stored html</p>', attachments: [{ id: 'a', filename: 'stored.pdf' }] }))
          : n === 1
            ? new Response(
                chunks
                  ? new ReadableStream({
                      start(c) {
                        for (const x of chunks) c.enqueue(new Uint8Array(x));
                        c.close();
                      },
                    })
                  : bytes,
                { headers },
              )
            : jsonResponse(200, { id: 'sent_1' }),
    );
    if (!('value' in r) || r.value.error) fail('the forward failed', r.rejected ?? r.value);
    expectEqual(r.requests.length, 3, 'wrong number of requests');
    return jsonBody(r.requests[2]);
  };
  const decode = (s) => {
    expect(typeof s === 'string' && s.length % 4 === 0 && /^[A-Za-z0-9+/]*={0,2}$/.test(s), 'attachment content is not base64', String(s).slice(0, 80));
    return Buffer.from(s, 'base64');
  };

  // ---- wrapped ---------------------------------------------------------------------------------------------
  const wrapped = async (bytes, opts = { text: 't', html: '<p>h</p>' }, chunks, headers) => {
    const b = await send({ passthrough: false, ...opts }, bytes, chunks, headers);
    expectEqual(b.text, opts.text, 'the text is not the caller’s');
    expectEqual(b.html, opts.html, 'the html is not the caller’s');
    expect(Array.isArray(b.attachments) && b.attachments.length === 1, 'not exactly one attachment', b.attachments?.length);
    const a = b.attachments[0];
    expectEqual(a.content_type, 'message/rfc822', 'wrong attachment type');
    expect(typeof a.filename === 'string' && a.filename, 'the attachment has no name');
    const got = decode(a.content);
    if (!got.equals(Buffer.from(bytes))) fail('the attached bytes differ from the downloaded ones', { sent: got.subarray(0, 60).toString('hex'), downloaded: Buffer.from(bytes).subarray(0, 60).toString('hex'), lengths: [got.length, bytes.length] });
  };
  await ctx.eval('wrapped bytes []', () => wrapped(Buffer.alloc(0)));
  for (let a = 0; a < 256; a++) {
    await ctx.eval(`wrapped bytes [${a}]`, () => wrapped(Buffer.from([a])));
    await ctx.eval(
      `wrapped bytes [${a},*]`,
      async () => {
        for (let b = 0; b < 256; b++) await wrapped(Buffer.from([a, b]));
        ctx.evaluations += 255;
      },
    );
  }
  const telling = [0, 9, 10, 13, 26, 32, 34, 45, 46, 61, 65, 127, 128, 0xa0, 0xbb, 0xbf, 0xc3, 0xe2, 0xed, 0xef, 0xf0, 0xfe, 0xff, 0xd8];
  for (const a of telling)
    await ctx.eval(`wrapped bytes [${a},?,?]`, async () => {
      for (const b of telling) for (const c of telling) await wrapped(Buffer.from([a, b, c]));
      ctx.evaluations += telling.length ** 2 - 1;
    });
  const sizes = [3, 4, 57, 58, 76, 255, 256, 1023, 1024, 3071, 3072, 3073, 8191, 8192, 8193, 16383, 24575, 24576, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 98304, 131071, 131073, 262147, 1048577, ...(ctx.quick ? [] : [5000011, 12000007])];
  for (const n of sizes)
    for (const chunk of [0, 1000, 65536])
      await ctx.eval(`wrapped size ${n} chunk ${chunk}`, async () => {
        const b = Buffer.alloc(n);
        for (let i = 0; i < n; i++) b[i] = (i * 131 + (i >> 7)) & 255;
        await wrapped(b, undefined, chunk ? Array.from({ length: Math.ceil(n / chunk) }, (_, i) => b.subarray(i * chunk, (i + 1) * chunk)) : undefined);
      });
  const mixed = Buffer.from('\ufeffé€😀\r\n\xff=C3', 'utf8');
  for (let i = 0; i <= mixed.length; i++)
    for (let j = i; j <= mixed.length; j++)
      await ctx.eval(`wrapped split ${i},${j}`, () => wrapped(mixed, undefined, [mixed.subarray(0, i), mixed.subarray(i, j), mixed.subarray(j)]));
  const TEXTS = ['', ' ', 'plain', 'line\r\nline\n', 'é 日本 😀', '<b>&amp;</b>', '{{x}}', 'X'.repeat(20000), '\u0000', 'a\u2028b', undefined];
  for (const [i, text] of TEXTS.entries())
    for (const [j, html] of TEXTS.entries()) await ctx.eval(`wrapped text#${i} html#${j}`, () => wrapped(Buffer.from('x'), { text, html }));

  // ---- passed through --------------------------------------------------------------------------------------
  const passed = async (raw, { text, html, atts }, chunks, headers) => {
    const b = await send({ passthrough: true }, raw, chunks, headers);
    if (text !== undefined) expectEqual(lines(b.text), lines(text), 'the text differs from the original');
    if (html !== undefined) expectEqual(lines(b.html), lines(html), 'the html differs from the original');
    if (text === undefined) expect(!b.text, 'a text appeared that the original does not have', b);
    if (html === undefined) expect(!b.html, 'an html appeared that the original does not have', b);
    const list = b.attachments ?? [];
    expectEqual(list.length, atts.length, 'wrong number of attachments');
    for (const [i, a] of atts.entries()) {
      const x = list[i];
      expectEqual(x.filename ?? undefined, a.filename, `attachment ${i}: wrong name`);
      expectEqual(x.content_type, a.mime ?? a.type, `attachment ${i}: wrong type`);
      expectEqual(x.content_id ?? undefined, a.cid, `attachment ${i}: wrong content id`);
      const got = decode(x.content);
      const same = a.enc === '7bit' || a.mime === 'text/calendar'
          ? lines(got.toString('latin1')) === lines(a.bytes.toString('latin1'))
          : got.equals(a.bytes) || (a.enc === 'quoted-printable' && got.equals(Buffer.concat([a.bytes, Buffer.from('\n')])));
      if (!same) fail(`attachment ${i}: the bytes differ`, { got: got.subarray(0, 80).toString('hex'), expected: a.bytes.subarray(0, 80).toString('hex'), lengths: [got.length, a.bytes.length] });
    }
  };
  // whatever header fields the download has, the bytes are the message
  const someBytes = Buffer.from([0xef, 0xbb, 0xbf, 0x00, 0xff, 0xfe, 0x0d, 0x0a, 0x1f, 0x8b, 0xc3, 0x28, 0x80]);
  for (const [label, headers] of [...RESPONSE_HEADERS, ...['iso-8859-1', 'utf-16', 'utf-8', 'us-ascii', 'binary', 'shift_jis', 'unknown-8bit'].map((c) => [`charset ${c}`, { 'content-type': `message/rfc822; charset=${c}` }])]) {
    await ctx.eval(`wrapped bytes with ${label}`, () => wrapped(someBytes, undefined, undefined, headers));
    await ctx.eval(`passed 8bit UTF-8 with ${label}`, () => passed(Buffer.from('Subject: x\r\nContent-Type: text/plain; charset=utf-8\r\nContent-Transfer-Encoding: 8bit\r\n\r\né 日本\r\n'), { text: 'é 日本\n', atts: [] }, undefined, headers));
    await ctx.eval(`passed 8bit Latin with ${label}`, () => passed(Buffer.from('Subject: x\r\nContent-Type: text/plain; charset=iso-8859-1\r\nContent-Transfer-Encoding: 8bit\r\n\r\n\xe9\xfc\r\n', 'latin1'), { text: 'éü\n', atts: [] }, undefined, headers));
  }
  const STRUCT = {
    flat: (t, h, atts) => (atts.length || (t && h) ? null : (t ?? h)),
    alternative: (t, h, atts) => (t && h && !atts.length ? multi('alternative', [t, h]) : null),
    mixed: (t, h, atts) => (t && h ? null : multi('mixed', [...(t ? [t] : h ? [h] : []), ...atts])),
    'mixed(alternative)': (t, h, atts) => (t && h ? multi('mixed', [multi('alternative', [t, h]), ...atts]) : null),
    'mixed(related(alternative))': (t, h, atts) => (t && h ? multi('mixed', [multi('related', [multi('alternative', [t, h]), ...atts.slice(0, 1)]), ...atts.slice(1)]) : null),
    'alternative(text,related(html))': (t, h, atts) => (t && h ? multi('alternative', [t, multi('related', [h, ...atts])]) : null),
    'attachments first': (t, h, atts) => (atts.length && (t || h) && !(t && h) ? multi('mixed', [...atts, t ?? h]) : null),
  };
  const CHARSETS = ['utf-8', 'us-ascii', 'iso-8859-1', 'windows-1252', 'koi8-r', 'utf-16le', 'shift_jis', 'gb18030', 'euc-kr', 'iso-8859-15'];
  const ENC = ['7bit', '8bit', 'quoted-printable', 'base64'];
  const CONTENT = [
    'plain ascii',
    'two\r\nlines',
    'é à ü ñ',
    'Ω≈ — “quoted” €',
    'Привет, мир',
    'こんにちは',
    '안녕하세요',
    '你好',
    '😀 astral',
    '. leading dot\r\n..\r\n.',
    'trailing space \r\nx',
    '-- \r\nsignature\r\n-- ',
    'soft=20break =\r\n= equals',
    'From the start',
    'long '.repeat(400),
    '<b>&amp; &lt;tag&gt;</b>',
    '\r\nstarts with an empty line',
    'tab\there {{{var}}}',
  ];
  for (const charset of CHARSETS)
    for (const enc of ENC)
      for (const [i, text] of CONTENT.entries()) {
        const t = textPart('plain', text, charset, enc);
        if (!t) continue;
        await ctx.eval(`text ${charset} ${enc} #${i} flat`, () => passed(message(t), { text, atts: [] }));
        const html = `<html><body>${text}</body></html>`;
        const h = textPart('html', html, charset, enc);
        await ctx.eval(`html ${charset} ${enc} #${i} flat`, () => passed(message(h), { html, atts: [] }));
        for (const [sn, st] of Object.entries(STRUCT)) {
          const root = st(t, h, [attachmentPart(A[0])]) ?? st(t, h, []);
          if (!root) continue;
          const withA = !!st(t, h, [attachmentPart(A[0])]);
          await ctx.eval(`both ${charset} ${enc} #${i} ${sn}`, () => passed(message(root), { text, html, atts: withA ? [A[0]] : [] }));
        }
        if (!ctx.quick)
          for (const enc2 of ENC)
            for (const charset2 of CHARSETS) {
              const h2 = textPart('html', html, charset2, enc2);
              if (h2) await ctx.eval(`both ${charset} ${enc} / ${charset2} ${enc2} #${i}`, () => passed(message(multi('alternative', [t, h2])), { text, html, atts: [] }));
            }
      }
  // attachments of every kind keep their kind
  const TYPES = ['application/x-zip-compressed', 'application/x-pdf', 'application/x-msdownload', 'application/x-gzip', 'application/gzip', 'application/zip', 'application/vnd.ms-excel', 'application/vnd.openxmlformats-officedocument.wordprocessingml.document', 'application/json', 'application/ld+json', 'application/xml', 'application/javascript', 'application/pkcs7-signature', 'application/x-pkcs7-signature', 'application/pkcs7-mime', 'application/ms-tnef', 'application/octet-stream', 'application/rtf', 'application/msword', 'application/unknown', 'image/svg+xml', 'image/jpg', 'image/jpeg', 'image/pjpeg', 'image/x-icon', 'image/vnd.microsoft.icon', 'image/heic', 'image/webp', 'image/tiff', 'audio/mpeg', 'audio/mp3', 'audio/x-wav', 'audio/wav', 'video/mp4', 'video/quicktime', 'video/x-msvideo', 'text/csv', 'text/x-vcard', 'text/vcard', 'text/markdown', 'text/rtf', 'text/css', 'text/xml', 'text/javascript', 'text/richtext', 'text/x-python', 'font/woff2', 'model/gltf+json', 'chemical/x-pdb', 'x-custom/x-type', 'x/y', 'binary/octet-stream', 'file/pdf', 'application/x', 'application/a.b-c+d', 'application/vnd.api+json'];
  const EXTS = ['bin', 'pdf', 'PDF', 'exe', 'js', 'html', 'eml', 'zip', 'txt', ''];
  for (const type of TYPES)
    for (const ext of EXTS)
      for (const inline of [false, true])
        for (const cid of [undefined, 'x@y'])
          await ctx.eval(`attachment ${type} .${ext} ${inline ? 'inline' : 'attached'} ${cid}`, () => {
            const a = { filename: `file${ext && '.'}${ext}`, type, bytes: Buffer.from('\x00\x01<x>\xfe\xff', 'latin1'), enc: 'base64', cid, inline };
            const body = textPart('plain', 'the text', 'utf-8', 'base64');
            return passed(message(multi('mixed', [body, attachmentPart({ ...a, inline: inline && !/^text/.test(type) })])), { text: 'the text', atts: [a] });
          });
  // bodies with nothing around them, blank at either end, and texts of every kind
  const EDGES = ['', ' ', '  ', '\t', '\u00a0', '\u3000', '\u200b'];
  for (const core of ['x', '<p>x</p>', '<html><body>x</body></html>'])
    for (const before of EDGES)
      for (const after of EDGES)
        for (const sub of ['plain', 'html'])
          for (const enc of ['base64', 'quoted-printable']) {
            const s = before + core + after;
            await ctx.eval(`${sub} ${enc} ${JSON.stringify(s)}`, () => passed(message(textPart(sub, s, 'utf-8', enc)), { [sub === 'plain' ? 'text' : 'html']: s, atts: [] }));
          }
  for (const [i, s0] of STR.entries()) {
    const s = s0.toWellFormed().replaceAll('\u0000', '');
    if (!s) continue;
    for (const enc of ['base64', 'quoted-printable']) {
      if (enc === 'quoted-printable' && /\n/.test(s)) continue;
      const p = textPart('plain', s, 'utf-8', enc);
      const h = textPart('html', s, 'utf-8', enc);
      await ctx.eval(`text STR#${i} ${enc}`, () => passed(message(p), { text: s, atts: [] }));
      await ctx.eval(`html STR#${i} ${enc}`, () => passed(message(h), { html: s, atts: [] }));
      await ctx.eval(`both STR#${i} ${enc}`, () => passed(message(STRUCT['mixed(alternative)'](p, h, [attachmentPart(A[0])])), { text: s, html: s, atts: [A[0]] }));
    }
  }
  // attachments
  const n = ctx.quick ? 2 : 3;
  const t = textPart('plain', 'the text é', 'utf-8', 'quoted-printable');
  const h = textPart('html', '<p>the html é</p>', 'utf-8', 'base64');
  const lists = [[]];
  for (let k = 0, level = [[]]; k < n; k++) {
    level = level.flatMap((l) => A.map((a) => [...l, a]));
    lists.push(...level);
  }
  for (const l of lists)
    for (const [sn, st] of Object.entries(STRUCT))
      for (const [bn, tt, hh] of [
        ['text', t, null],
        ['html', null, h],
        ['both', t, h],
        ['none', null, null],
      ]) {
        const key = `attachments [${l.map((a) => A.indexOf(a))}] ${sn} ${bn}`;
        if (!ctx.want(key)) continue;
        if (bn === 'none' && sn !== 'mixed') continue;
        if (bn === 'none' && !l.length) continue;
        const root = st(tt, hh, l.map(attachmentPart));
        if (!root) continue;
        await ctx.eval(key, () => passed(message(root), { text: tt ? 'the text é' : undefined, html: hh ? '<p>the html é</p>' : undefined, atts: l }));
      }
  for (const [i, a] of IDENTITY.entries())
    for (const [sn, st] of Object.entries(STRUCT))
      for (const [bn, tt, hh] of [
        ['text', t, null],
        ['both', t, h],
      ])
        for (const others of [[], [A[0]]]) {
          if (others.length && ctx.quick && sn !== 'mixed' && sn !== 'mixed(alternative)') continue;
          const root = st(tt, hh, [attachmentPart(a), ...others.map(attachmentPart)]);
          if (!root) continue;
          await ctx.eval(`identity ${a.type} ${a.disposition} ${a.naming} ${a.cid} ${a.enc} ${sn} ${bn} +${others.length}`, () =>
            passed(message(root), { text: tt ? 'the text é' : undefined, html: hh ? '<p>the html é</p>' : undefined, atts: [a, ...others] }),
          );
        }
  // every size: number of attachments, bytes of an attachment, length of a body
  const numbered = (i, extra) => ({ filename: `f${i}.bin`, type: i % 3 ? 'application/octet-stream' : 'image/png', bytes: Buffer.from(`content ${i} \xff`, 'latin1'), enc: 'base64', ...(i % 4 ? {} : { cid: `c${i}@x`, inline: true }), ...extra });
  for (const n of COUNTS[ctx.tier].filter((x) => x > 0 && x <= (ctx.quick ? 513 : 2001)))
    for (const [sn, bn] of [['mixed', 'text'], ['mixed(alternative)', 'both']])
      await ctx.eval(`${n} attachments ${sn}`, () => {
        const l = Array.from({ length: n }, (_, i) => numbered(n - i));
        return passed(message(STRUCT[sn](t, bn === 'both' ? h : null, l.map(attachmentPart))), { text: 'the text é', html: bn === 'both' ? '<p>the html é</p>' : undefined, atts: l });
      });
  for (const n of [...LENGTHS[ctx.tier], ...HUGE[ctx.tier]]) {
    const bytes = Buffer.alloc(n);
    for (let i = 0; i < n; i++) bytes[i] = (i * 131 + (i >> 7)) & 255;
    await ctx.eval(`attachment of ${n} bytes`, () => {
      const l = [numbered(1, { bytes }), numbered(2)];
      return passed(message(STRUCT['mixed(alternative)'](t, h, l.map(attachmentPart))), { text: 'the text é', html: '<p>the html é</p>', atts: l });
    });
    const s = sized(n).replace(/\s+/g, ' ').trim().toWellFormed();
    if (!s) continue;
    for (const enc of ['base64', 'quoted-printable']) {
      if (enc === 'quoted-printable' && n > 1_200_000) continue;
      await ctx.eval(`text of length ${n} ${enc}`, () => passed(message(textPart('plain', s, 'utf-8', enc)), { text: s, atts: [] }));
      await ctx.eval(`html of length ${n} ${enc}`, () => passed(message(STRUCT.mixed(null, textPart('html', s, 'utf-8', enc), [attachmentPart(A[0])])), { html: s, atts: [A[0]] }));
    }
  }
  // names and content ids of every kind
  const NAMES = [...new Set([...STR.map((s) => s.toWellFormed().replace(/[\u0000-\u001f]/g, '').trim()).filter((s) => s && s.length < 500), '.', '..', '.hidden', 'a/b.txt', 'a\\b.txt', '../../etc/passwd', 'C:\\x.doc', 'noextension', 'x.', 'x.tar.gz', 'a b.txt', 'A.PDF', 'a;b=c.txt', 'a%20b.txt', "it's.txt", '日本.pdf', 'a,b.txt', '<x>.txt', 'forwarded_message.eml', 'winmail.dat', 'smime.p7s', 'noname', 'attachment', 'undefined', 'null'])];
  for (const name of NAMES)
    for (const inline of [false, true])
      await ctx.eval(`attachment named ${name}${inline ? ' inline' : ''}`, () => {
        const l = [numbered(1, { filename: name, rfc2231: true, ...(inline ? { inline, cid: 'c@x' } : { cid: undefined }) }), numbered(2)];
        return passed(message(STRUCT.mixed(t, null, l.map(attachmentPart))), { text: 'the text é', atts: l });
      });
  for (const cid of ['a', 'A@B.C', 'a b@x', 'a<b@x', 'a>b@x', '<a@x', 'a@x>', '<<a>>', 'a@x,b@x', 'a"b@x', 'a%40x', 'cid:a@x', 'image001.png@01D9.ABC', '0', 'a@[127.0.0.1]', 'a@x;y=z', '{a@x}', 'a@x#f', '$&'])
    for (const inline of [false, true])
      for (const sn of ['mixed', 'attachments first'])
        await ctx.eval(`content id ${cid}${inline ? ' inline' : ''} ${sn}`, () => {
          const l = [numbered(1, { cid, inline }), numbered(2, { cid: 'plain@x' })];
          return passed(message(STRUCT[sn](t, null, l.map(attachmentPart))), { text: 'the text é', atts: l });
        });
  for (const n of LENGTHS[ctx.tier].filter((x) => x > 0 && x <= 5000))
    await ctx.eval(`attachment named with ${n} characters`, () => {
      const l = [numbered(1, { filename: `${'n'.repeat(n)}.pdf`, cid: `${'c'.repeat(Math.min(n, 900))}@x` })];
      return passed(message(STRUCT.mixed(t, null, l.map(attachmentPart))), { text: 'the text é', atts: l });
    });
  // network chunking must not matter: every split of one rich message
  const rich = message(multi('mixed', [multi('alternative', [textPart('plain', 'héé 日本', 'utf-8', '8bit'), textPart('html', '<p>é</p>', 'iso-8859-1', '8bit')]), attachmentPart(A[2])]));
  for (let i = 0; i <= rich.length; i += ctx.quick ? 3 : 1)
    await ctx.eval(`chunk split ${i}`, () => passed(rich, { text: 'héé 日本', html: '<p>é</p>', atts: [A[2]] }, [rich.subarray(0, i), rich.subarray(i)]));
}
