// C19: verification accepts exactly authentic, fresh messages; verdicts do not depend on history.
import { createHmac } from 'node:crypto';
import { expect, expectEqual, fail, same } from '../lib/ctx.mjs';
import { COUNTS, DOCS, HUGE, LENGTHS, STR, deep, text, wide, word } from '../lib/alphabet.mjs';
import { BASE, World } from '../lib/world.mjs';

export const level = 'exploration';
export const shards = { quick: 8, thorough: 8 };
export const rule =
  'secret × id × timestamp offset (both edges of the window, at every sub-second phase) × payload × signature list (all lists up to a length over an alphabet of valid, foreign, wrong-version, damaged entries); every single-character change of payload, id, timestamp, signature and secret of valid messages; all histories of verifications up to a length over a set of messages with a moving clock, on one or two clients; verdict compared with an HMAC oracle; distinct by key';
export const bounds = (tier) => `payloads, ids, secrets and signature lists of every size; all signature lists up to length ${tier === 'quick' ? 2 : 3}; histories up to length ${tier === 'quick' ? 3 : 4} over 8 messages × 2 clock moves`;
export const assumptions = [
  'the oracle is node:crypto HMAC-SHA256, independent of the library the SDK uses',
  'timestamps are integers in decimal or not numbers at all; text after a number, or a second comma inside a signature entry, is not exercised',
];

const RealDate = Date;
let now = 1_700_000_000_000;
class FakeDate extends RealDate {
  constructor(...a) {
    a.length ? super(...a) : super(now);
  }
  static now() {
    return now;
  }
}
const B64 = (s) => Buffer.from(s, 'latin1').toString('base64');
const SECRETS = {
  plain: B64('0123456789abcdef01234567'),
  prefixed: `whsec_${B64('0123456789abcdef01234567')}`,
  other: `whsec_${B64('another-secret-of-24-byt')}`,
  short: `whsec_${B64('k')}`,
  long: B64('L'.repeat(90)),
  slashes: B64('\xff\xfe\xfb\xef\xbe\xff\xff\xff\xff'),
};
const keyBytes = (s) => Buffer.from(s.startsWith('whsec_') ? s.slice(6) : s, 'base64');
const mac = (secret, id, ts, payload) => createHmac('sha256', keyBytes(secret)).update(`${id}.${ts}.${payload}`, 'utf8').digest('base64');
const IDS = ['msg_1', 'msg_2KWPBgLlAfxdpx2AI54pPJ85f4W', 'a.b', '1', 'é日'];
const PAYLOADS = [
  '{"type":"email.sent","data":{"email_id":"1","to":["a@x.io"]}}',
  '{}',
  '[]',
  'null',
  '0',
  '""',
  ' {"a" : 1}\n',
  '{"u":"é日😀\\u2028","n":1e21,"z":[null,false]}',
  '{"__proto__":{"x":1},"constructor":1}',
  `{"big":"${'x'.repeat(20000)}"}`,
  '{"a":1,"a":2}',
];
const OFFSETS = [-86400, -3600, -302, -301, -300, -299, -60, -1, 0, 1, 60, 299, 300, 301, 302, 3600, 86400];

export async function run(ctx) {
  const world = new World();
  world.enter();
  const clients = [world.client(), world.client('re_SECOND', { baseUrl: BASE })];
  world.leave();
  const attempt = (m, c = clients[0]) => {
    globalThis.Date = FakeDate;
    world.enter();
    try {
      return { value: c.webhooks.verify({ payload: m.payload, headers: { id: m.id, timestamp: m.ts, signature: m.sig }, webhookSecret: m.secret }) };
    } catch (e) {
      return { threw: e };
    } finally {
      world.leave();
      globalThis.Date = RealDate;
    }
  };
  /** The specification, written independently. */
  const authentic = (m) => {
    if (!m.id || !m.sig || !m.ts || !m.secret) return false;
    if (!/^-?\d+$/.test(m.ts)) return false;
    if (Math.abs(Math.floor(now / 1000) - Number(m.ts)) > 300) return false;
    const want = mac(m.secret, m.id, m.ts, m.payload);
    return m.sig.split(' ').some((s) => s === `v1,${want}`);
  };
  const isJSON = (t) => {
    try {
      JSON.parse(t);
      return true;
    } catch {
      return false;
    }
  };
  const judge = (m, c) => {
    const good = authentic(m) && isJSON(m.payload);
    const r = attempt(m, c);
    if (r.value && typeof r.value.then === 'function') fail('the verdict is not immediate');
    if (good) {
      if (r.threw) fail('an authentic, fresh message was refused', { m: brief(m), error: String(r.threw) });
      expect(same(r.value, JSON.parse(m.payload)), 'the result is not the parsed payload', r.value);
    } else if (!('threw' in r)) fail('a message that is not authentic and fresh was accepted', { m: brief(m), value: r.value });
    expectEqual(world.requests.length, 0, 'verification made a request');
    return good;
  };
  const brief = (m) => ({ ...m, payload: m.payload?.slice(0, 60) });
  const sec = () => Math.floor(now / 1000);
  const signed = (o) => {
    const m = { secret: SECRETS.prefixed, id: 'msg_1', ts: String(sec()), payload: PAYLOADS[0], ...o };
    return { sig: `v1,${mac(m.secret, m.id, m.ts, m.payload)}`, ...m };
  };

  // the whole product of good ingredients × the time window
  for (const phase of [0, 1, 500, 999])
    for (const off of OFFSETS)
      for (const [sn, secret] of Object.entries(SECRETS))
        for (const id of IDS)
          for (const [pi, payload] of PAYLOADS.entries()) {
            const key = `time ${off} phase ${phase} secret ${sn} id ${id} payload#${pi}`;
            if (ctx.want(key))
              await ctx.eval(key, () => {
                now = 1_700_000_000_000 + phase;
                judge(signed({ secret, id, payload, ts: String(sec() + off) }));
              });
          }
  now = 1_700_000_000_000;
  for (const bad of ['{"unterminated', '', 'text', '{"a":1}x', '\ufeff{}'])
    await ctx.eval(`authentic but not JSON ${bad}`, () => {
      judge(signed({ payload: bad }));
    });

  // payloads as a server or a proxy may write them: bytes matter, whatever they mean
  const BLANKS = ['', ' ', '\t', '\n', '\r', '\r\n', '\n\n', ' \n', '\n ', '\r\n\r\n'];
  for (const core of ['{}', '{"type":"email.sent","data":{}}', '[1]', '"x"'])
    for (const before of BLANKS)
      for (const after of BLANKS)
        await ctx.eval(`payload ${JSON.stringify(before + core + after)}`, () => {
          const m = signed({ payload: before + core + after });
          expect(judge(m), 'the case is not an authentic one');
          for (const other of [m.payload.trim(), m.payload.trimEnd(), m.payload.trimStart(), m.payload.replaceAll('\r\n', '\n'), m.payload.replaceAll('\n', '\r\n'), `${m.payload}\n`, JSON.stringify(JSON.parse(m.payload))]) if (other !== m.payload) judge({ ...m, payload: other });
        });
  for (const [d, doc] of DOCS.entries()) {
    if (/[\ud800-\udfff]/.test(doc) && !doc.isWellFormed()) continue;
    await ctx.eval(`payload document#${d}`, () => {
      const m = signed({ payload: doc });
      expect(judge(m), 'the case is not an authentic one');
      for (const other of [JSON.stringify(JSON.parse(doc)), doc.normalize('NFC'), doc.toLowerCase(), doc.replaceAll('\\/', '/')]) if (other !== doc) judge({ ...m, payload: other });
    });
  }

  // signature lists
  const m0 = signed({});
  const good = m0.sig;
  const raw = good.slice(3);
  const flip = (s, i) => s.slice(0, i) + (s[i] === 'A' ? 'B' : 'A') + s.slice(i + 1);
  const ENTRIES = {
    valid: good,
    foreign: `v1,${mac(SECRETS.other, m0.id, m0.ts, m0.payload)}`,
    'other message': `v1,${mac(m0.secret, 'msg_2', m0.ts, m0.payload)}`,
    v2: `v2,${raw}`,
    v1a: `v1a,${raw}`,
    V1: `V1,${raw}`,
    bare: raw,
    empty: '',
    'v1,': 'v1,',
    'v1,undefined': 'v1,undefined',
    truncated: `v1,${raw.slice(0, -1)}`,
    prefix: `v1,${raw.slice(0, 8)}`,
    flipped: `v1,${flip(raw, 3)}`,
    'last flipped': `v1,${flip(raw, 42)}`,
    lower: `v1,${raw.toLowerCase()}`,
    unpadded: `v1,${raw.replace(/=+$/, '')}`,
    hex: `v1,${Buffer.from(raw, 'base64').toString('hex')}`,
    'url-safe': `v1,${raw.replaceAll('+', '-').replaceAll('/', '_')}x`,
    'spaced comma': `v1, ${raw}`,
    equals: `v1=${raw}`,
  };
  let level = [[]];
  for (let n = 1; n <= (ctx.quick ? 2 : 3); n++) {
    level = level.flatMap((l) => Object.keys(ENTRIES).map((e) => [...l, e]));
    for (const l of level) {
      const key = `signatures [${l}]`;
      if (ctx.want(key))
        await ctx.eval(key, () => {
          judge({ ...m0, sig: l.map((e) => ENTRIES[e]).join(' ') });
        });
    }
  }
  for (const n of COUNTS[ctx.tier].filter((x) => x > 1))
    for (const at of new Set([0, 1, n >> 1, n - 2, n - 1]))
      await ctx.eval(`valid signature at ${at} of ${n}`, () => {
        judge({ ...m0, sig: Array.from({ length: n }, (_, i) => (i === at ? good : ENTRIES.foreign)).join(' ') });
      });

  // every size of every ingredient: accepted when authentic, refused when changed at either end
  const sizes = [...LENGTHS[ctx.tier], ...HUGE[ctx.tier]];
  for (const n of sizes) {
    const shapes = { string: () => JSON.stringify(text(n)), field: () => `{"type":"x","html":${JSON.stringify(text(n))}}`, padded: () => `{"a":1}${' '.repeat(n)}`, list: () => `[${'1,'.repeat(n >> 1)}2]` };
    for (const [sn, mk] of Object.entries(shapes))
      await ctx.eval(`payload ${sn} of size ${n}`, () => {
        const m = signed({ payload: mk() });
        expect(judge(m), 'the case is not an authentic one');
        const p = m.payload;
        for (const at of [0, p.length >> 1, p.length - 1]) judge({ ...m, payload: `${p.slice(0, at)}${p[at] === '1' ? '3' : '1'}${p.slice(at + 1)}` });
        judge({ ...m, payload: `${p} ` });
        judge({ ...m, payload: p.slice(0, -1) });
      });
    if (!n) continue;
    await ctx.eval(`id of length ${n}`, () => {
      const m = signed({ id: word(n) });
      expect(judge(m), 'the case is not an authentic one');
      judge({ ...m, id: `${m.id}z` });
      judge({ ...m, id: m.id.slice(0, -1) || 'other' });
      judge({ ...m, id: `X${m.id.slice(1)}` });
    });
    await ctx.eval(`secret of ${n} bytes`, () => {
      for (const prefix of ['', 'whsec_']) {
        const key = Buffer.from(word(n));
        const m = signed({ secret: prefix + key.toString('base64') });
        expect(judge(m), 'the case is not an authentic one');
        judge({ ...m, secret: prefix + Buffer.from(`${word(n)}x`).toString('base64') });
        // a key longer than a block of the hash is hashed first, so a longer key never equals its own beginning
        if (n > 64) judge({ ...m, secret: prefix + key.subarray(0, 64).toString('base64') });
      }
    });
  }
  for (const n of COUNTS[ctx.tier])
    await ctx.eval(`payload with ${n} keys, ${n % 500} deep`, () => {
      expect(judge(signed({ payload: JSON.stringify({ type: 'email.sent', data: { ...wide(n), tree: deep(n % 500) } }) })), 'the case is not an authentic one');
    });
  // every single-character change of every ingredient
  for (const [bi, base] of [m0, signed({ id: 'a.b', payload: '{"k":"v.1"}' }), signed({ secret: SECRETS.plain, payload: '[1,2]', id: '1' })].entries())
    for (const part of ['payload', 'id', 'ts', 'sig', 'secret']) {
      const text = base[part];
      for (let i = 0; i <= text.length; i++)
        for (const [how, t] of [
          ['delete', text.slice(0, i) + text.slice(i + 1)],
          ['insert', `${text.slice(0, i)}0${text.slice(i)}`],
          ['insert space', `${text.slice(0, i)} ${text.slice(i)}`],
          ['replace', text.slice(0, i) + (text[i] === '1' ? '2' : '1') + text.slice(i + 1)],
          ['double', text.slice(0, i) + (text[i] ?? '') + text.slice(i)],
        ]) {
          if (t === text) continue;
          // leave the documented alphabet: see the assumptions
          if (part === 'ts' && !/^\d+$/.test(t) && /^\s*\d/.test(t)) continue;
          if (part === 'ts' && /^0/.test(t)) continue;
          if (part === 'sig' && t.split(' ').some((s) => s.split(',').length > 2)) continue;
          if (part === 'secret' && (!/^(whsec_)?[A-Za-z0-9+/]*={0,2}$/.test(t) || keyBytes(t).toString('base64') !== t.replace(/^whsec_/, ''))) {
            // not canonical base64: must at least never be accepted as the right secret
            if (!keyBytes(t).equals(keyBytes(base.secret)))
              await ctx.eval(`mutant ${bi} ${part} ${how} ${i}`, () => {
                expect('threw' in attempt({ ...base, secret: t }), 'a damaged secret was accepted');
              });
            continue;
          }
          await ctx.eval(`mutant ${bi} ${part} ${how} ${i}`, () => {
            judge({ ...base, [part]: t });
          });
        }
    }
  // entries not separated by a blank are no entries, and a secret is one secret
  const JOINS = [...Array.from({ length: 0xff }, (_, i) => String.fromCharCode(i)).filter((c) => c !== ' '), ', ', ' ,', '; ', '\r\n', '\n ', '  ', '\t ', '\u2028', '\u00a0', '\ufeff', '\u200b', '\u3000', '%20', '%2C', '&', '+', '&#32;'];
  for (const sep of JOINS)
    for (const [n, a, b] of [
      ['foreign first', ENTRIES.foreign, good],
      ['foreign last', good, ENTRIES.foreign],
      ['short first', 'v1,AAAA', good],
      ['other version first', 'v1a,AAAA', good],
      ['empty first', '', good],
      ['empty last', good, ''],
      ['quoted', sep, `${good}${sep}`],
    ])
      await ctx.eval(`entries joined by ${JSON.stringify(sep)} ${n}`, () => {
        const sig = n === 'quoted' ? `${sep}${good}${sep}` : `${a}${sep}${b}`;
        // what follows a second comma in an entry is not part of the signature: see the assumptions
        if (sig.split(' ').some((s) => s.startsWith(`${good},`))) return false;
        judge({ ...m0, sig });
      });
  const k0 = m0.secret.slice(6);
  for (const sep of [' ', ...JOINS, '', 'whsec_', ' whsec_', ',whsec_'])
    for (const [n, secret] of Object.entries({
      'right then wrong': `${m0.secret}${sep}${SECRETS.other}`,
      'wrong then right': `${SECRETS.other}${sep}${m0.secret}`,
      'right then bare': `${m0.secret}${sep}${SECRETS.other.slice(6)}`,
      'bare twice': `${SECRETS.other.slice(6)}${sep}${k0}`,
      'right then right': `${m0.secret}${sep}${m0.secret}`,
      'right then more': `${m0.secret}${sep}AAAA`,
      'more then right': `AAAA${sep}${k0}`,
    }))
      await ctx.eval(`secret ${n} joined by ${JSON.stringify(sep)}`, () => {
        const bare = secret.replace(/^whsec_/, '');
        // bytes of zero at the end of a key are as good as none
        if (mac(secret, m0.id, m0.ts, m0.payload) === raw) return false;
        expect('threw' in attempt({ ...m0, secret }), 'a message was accepted under a secret which merely contains the right one', { secret, bare });
      });
  // ids with every kind of separator: as they are, and never as one of their parts
  const ODD = [...new Set([...STR.filter((x) => x && !/[\ud800-\udfff]/.test(x)), 'MSG_1', 'msg_1,msg_2', 'msg_1, msg_2', '"msg_1"', '<msg_1@x>', '%6Dsg_1', 'msg%5F1', 'msg\\u005f1', 'm\u0073g_1'])];
  for (const id of ODD)
    await ctx.eval(`id ${JSON.stringify(id).slice(0, 60)}`, () => {
      expect(judge(signed({ id })), 'the case is not an authentic one');
      for (const other of [id.trim(), id.toLowerCase(), id.toUpperCase(), id.normalize('NFC'), id.normalize('NFKC'), encodeURIComponent(id), id.split(/[,;\s]/)[0]]) if (other !== id) judge({ ...signed({ id }), id: other }), judge({ ...signed({ id: other }), id });
    });
  const SEPS = [...Array.from({ length: 0xff }, (_, i) => String.fromCharCode(i)), ', ', '; ', '\r\n', '\u2028', '\ufeff', '\u200b', '\u3000', '%2C', '&', '=='];
  for (const sep of SEPS)
    for (const [how, id] of [
      ['before', `msg_1${sep}evil`],
      ['after', `evil${sep}msg_1`],
      ['trailing', `msg_1${sep}`],
      ['leading', `${sep}msg_1`],
      ['twice', `msg_1${sep}msg_1`],
    ])
      await ctx.eval(`id joined by ${JSON.stringify(sep)} ${how}`, () => {
        judge({ ...signed({}), id });
        judge(signed({ id }));
        judge({ ...signed({ id }), id: 'msg_1' });
      });
  // ingredients of different messages recombined, and boundary shifts between id, timestamp and payload
  const msgs = [m0, signed({ id: 'msg_2' }), signed({ payload: '{}' }), signed({ ts: String(sec() - 10) }), signed({ secret: SECRETS.other })];
  for (const a of msgs.keys())
    for (const b of msgs.keys())
      for (const c of msgs.keys())
        for (const d of msgs.keys())
          for (const e of msgs.keys())
            await ctx.eval(`recombined ${a}${b}${c}${d}${e}`, () => {
              judge({ id: msgs[a].id, ts: msgs[b].ts, payload: msgs[c].payload, sig: msgs[d].sig, secret: msgs[e].secret });
            });
  const shift = signed({ id: 'x', payload: `${sec()}.{}` });
  await ctx.eval('id/timestamp/payload boundaries', () => {
    judge({ ...shift, id: `x.${shift.ts}`, payload: '{}' });
  });
  for (const part of ['id', 'ts', 'sig', 'secret'])
    for (const v of ['', undefined, null])
      await ctx.eval(`missing ${part} ${v}`, () => {
        judge({ ...m0, [part]: v });
      });
  for (const ts of ['NaN', 'abc', 'Infinity', '-1', '0', '9999999999999', '1700000000000', '-1700000000'])
    await ctx.eval(`timestamp ${ts}`, () => {
      judge(signed({ ts }));
    });

  // histories: verdicts only depend on the message and the clock, never on what was verified before
  const T0 = 1_700_000_000_000;
  now = T0;
  const H = {
    A: signed({}),
    'A tampered': { ...signed({}), payload: '{"type":"email.sent","data":{"email_id":"2","to":["a@x.io"]}}' },
    'A other secret': { ...signed({}), secret: SECRETS.other },
    B: signed({ secret: SECRETS.other, id: 'msg_b', payload: '{"b":[1]}' }),
    'B under A': { ...signed({ secret: SECRETS.other, id: 'msg_b', payload: '{"b":[1]}' }), secret: SECRETS.prefixed },
    'A no secret': { ...signed({}), secret: '' },
    old: signed({ ts: String(sec() - 299) }),
    'not JSON': signed({ payload: '{' }),
  };
  const STEPS = Object.keys(H).flatMap((k) => [
    [k, 0],
    [k, 250_000],
  ]);
  const maxH = ctx.quick ? 3 : 4;
  let hist = [[]];
  for (let n = 1; n <= maxH; n++) {
    hist = hist.flatMap((l) => STEPS.map((s) => [...l, s]));
    for (const l of hist)
      for (const two of n <= 2 ? [0, 1] : [1]) {
        const key = `history ${l.map(([k, d]) => `${d ? '+250s ' : ''}${k}`).join(' → ')} clients ${two + 1}`;
        if (ctx.want(key))
          await ctx.eval(key, () => {
            now = T0;
            for (const [i, [k, d]] of l.entries()) {
              now += d;
              judge(H[k], clients[two && i % 2 ? 1 : 0]);
            }
          });
      }
  }
  await ctx.eval('results are not shared', () => {
    now = T0;
    const a = attempt(H.A).value;
    a.data.email_id = 'changed';
    a.type = 'changed';
    expectEqual(attempt(H.A).value, JSON.parse(H.A.payload), 'a later result shows changes made to an earlier one');
  });
}
