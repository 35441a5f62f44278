// C21: key, base URL and user agent: constructor argument, else environment, else default; fixed at construction.
import fs from 'node:fs';
import path from 'node:path';
import { expect, expectEqual, fail } from '../lib/ctx.mjs';
import { LENGTHS, STR, word } from '../lib/alphabet.mjs';
import { REPO } from '../lib/bundle.mjs';
import { FLOW, FLOWS } from '../lib/flows.mjs';
import { outcomesFor } from '../lib/outcomes.mjs';
import { World, canonicalRequest, quiesce, settle } from '../lib/world.mjs';

export const level = 'exploration';
export const shards = { quick: 6, thorough: 8 };
export const rule =
  'key argument × base URL argument × user agent argument × options form × environment at module load × at construction × at the call × runtime (process, none, without env) × operation; and all histories up to a length of (change environment, construct with one of several argument sets, call on any client so far, mutate the options object); compared with the reference precedence; distinct by key';
export const bounds = (tier) => `4 key, 4 base, 4 agent arguments; 27 environments at construction; keys, URLs and agents of every length; histories up to length ${tier === 'quick' ? 4 : 6}`;
export const assumptions = ['a request URL is the base URL followed by the path, also where the base URL ends in a slash', 'an empty environment variable counts as unset'];

const VERSION = JSON.parse(fs.readFileSync(path.join(REPO, 'package.json'), 'utf8')).version;
const DEFAULT_BASE = 'https://api.resend.com';
const DEFAULT_UA = `resend-node:${VERSION}`;

const ABSENT = Symbol('absent');
const KEYS = [ABSENT, undefined, '', 're_arg'];
const BASES = [ABSENT, undefined, 'https://arg.test.invalid', 'http://localhost:3000/v1'];
const AGENTS = [ABSENT, undefined, 'arg-agent/1', ''];
const ENV = {
  RESEND_API_KEY: [ABSENT, '', 're_env'],
  RESEND_BASE_URL: [ABSENT, '', 'https://env.test.invalid/p'],
  RESEND_USER_AGENT: [ABSENT, '', 'env-agent/1'],
};
const envs = [];
for (const k of ENV.RESEND_API_KEY)
  for (const b of ENV.RESEND_BASE_URL)
    for (const u of ENV.RESEND_USER_AGENT) {
      const e = { NODE_ENV: 'production' };
      if (k !== ABSENT) e.RESEND_API_KEY = k;
      if (b !== ABSENT) e.RESEND_BASE_URL = b;
      if (u !== ABSENT) e.RESEND_USER_AGENT = u;
      envs.push(e);
    }
const OTHER_ENV = { NODE_ENV: 'production', RESEND_API_KEY: 're_other', RESEND_BASE_URL: 'https://other.test.invalid', RESEND_USER_AGENT: 'other-agent' };
const RUNTIMES = { node: null, 'no process': { process: undefined }, 'no env': { process: {} }, 'null env': { process: { env: null } } };

/** What the reference says a client built like this uses; null when construction must throw. */
function reference(key, base, agent, env) {
  const e = env ?? {};
  const k = (key === ABSENT ? '' : key) || e.RESEND_API_KEY;
  if (!k) return null;
  const given = (v) => v !== ABSENT && v !== undefined;
  return { key: k, base: given(base) ? base : e.RESEND_BASE_URL || DEFAULT_BASE, agent: given(agent) ? agent : e.RESEND_USER_AGENT || DEFAULT_UA };
}
const buildOptions = (base, agent) => {
  const o = {};
  if (base !== ABSENT) o.baseUrl = base;
  if (agent !== ABSENT) o.userAgent = agent;
  return o;
};
const ctorArgs = (key, o, form) => (form === 'none' ? (key === ABSENT ? [] : [key]) : [key === ABSENT ? undefined : key, o]);
const lab = (v) => (v === ABSENT ? '-' : v === undefined ? 'u' : v === '' ? "''" : String(v));

function checkRequest(q, want, target) {
  if (q.invalid) fail('the request could not be formed', q.invalid);
  const u = new URL(`${want.base}${target}`);
  expectEqual(`${q.origin}${q.path}`, `${u.origin}${u.pathname}`, 'the request went to the wrong place');
  expectEqual(`${q.origin}${q.path}${q.search}`, `${u.origin}${u.pathname}${u.search}`, 'the request went to the wrong place');
  // as HTTP carries it: blanks around a header value are not part of it
  const sent = new Headers({ authorization: `Bearer ${want.key}`, 'user-agent': want.agent });
  expectEqual(q.headers.authorization, sent.get('authorization'), 'wrong key');
  expectEqual(q.headers['user-agent'], sent.get('user-agent'), 'wrong user agent');
}

export async function run(ctx) {
  const probes = [
    [FLOW['emails.send'], '/emails'],
    [FLOW['domains.get'], '/domains/id_1'],
    [FLOW['contacts.imports.create'], '/contacts/imports'],
  ];
  const session = async (runtime, loadEnv, fn) => {
    const world = new World({ env: loadEnv, shadow: RUNTIMES[runtime] ?? undefined, answer: (rec, n) => (world.act ?? world.flow.answer)(rec, n) });
    world.enter();
    try {
      world.module = world.load();
      await fn(world);
      await quiesce();
    } finally {
      world.leave();
    }
  };
  const setEnv = (w, e) => {
    w.env = { ...e };
    process.env = w.env;
  };
  const call = async (w, c, flow, act) => {
    w.requests = [];
    w.act = act;
    w.flow = flow;
    const r = await settle(w, () => flow.call(c));
    if (r.threw || r.rejected || r.hung) fail('the call did not settle with a result', r.threw ?? r.rejected);
    return w.requests;
  };

  for (const key of KEYS)
    for (const base of BASES)
      for (const agent of AGENTS)
        for (const form of base === ABSENT && agent === ABSENT ? ['none', 'object', 'null'] : ['object'])
          for (const [ei, env] of envs.entries())
            for (const loadEnv of ctx.quick ? [OTHER_ENV] : [OTHER_ENV, {}])
              for (const runtime of Object.keys(RUNTIMES)) {
                if (runtime !== 'node' && (ei || loadEnv !== OTHER_ENV)) continue;
                await ctx.eval(`key ${lab(key)} base ${lab(base)} agent ${lab(agent)} ${form} env${ei} ${Object.keys(loadEnv).length} ${runtime}`, async () => {
                  await session(runtime, runtime === 'node' ? loadEnv : {}, async (w) => {
                    setEnv(w, runtime === 'node' ? env : {});
                    const want = reference(key, base, agent, runtime === 'node' ? env : {});
                    const o = form === 'null' ? null : buildOptions(base, agent);
                    let client;
                    let error;
                    try {
                      client = new w.module.Resend(...ctorArgs(key, o, form));
                    } catch (e) {
                      error = e;
                    }
                    expectEqual(w.requests.length, 0, 'construction sent something');
                    if (!want) {
                      expect(error !== undefined, 'a client without a key was constructed');
                      expect(error instanceof Error || error?.message, 'construction did not throw an error', error);
                      expectEqual(w.console.length, 0, 'construction wrote to the console');
                      return;
                    }
                    if (error) fail('construction threw although there is a key', error);
                    // later changes to the environment or the options object do not reach the client
                    for (const after of [w.env, runtime === 'node' ? OTHER_ENV : {}, {}]) {
                      setEnv(w, after);
                      for (const [flow, target] of probes) {
                        const reqs = await call(w, client, flow);
                        expectEqual(reqs.length, 1, 'not exactly one request');
                        checkRequest(reqs[0], want, target);
                      }
                      if (o) {
                        o.baseUrl = 'https://mutated.test.invalid';
                        o.userAgent = 'mutated';
                      }
                    }
                  });
                });
              }

  // every flow under a few configurations
  for (const flow of FLOWS)
    for (const [name, args, env] of [
      ['args', ['re_arg', { baseUrl: 'https://arg.test.invalid/v9', userAgent: 'arg-agent/1' }], OTHER_ENV],
      ['env', [], { NODE_ENV: 'production', RESEND_API_KEY: 're_env', RESEND_BASE_URL: 'https://env.test.invalid/p', RESEND_USER_AGENT: 'env-agent/1' }],
      ['defaults', ['re_arg'], { NODE_ENV: 'production' }],
      ['mixed', [undefined, { userAgent: 'arg-agent/1' }], { NODE_ENV: 'production', RESEND_API_KEY: 're_env', RESEND_BASE_URL: 'https://env.test.invalid' }],
    ])
      await ctx.eval(`flow ${flow.name} ${name}`, async () => {
        await session('node', {}, async (w) => {
          setEnv(w, env);
          const o = args[1] ?? {};
          const want = reference(args[0] ?? ABSENT, o.baseUrl ?? ABSENT, o.userAgent ?? ABSENT, env);
          const client = new w.module.Resend(...args);
          setEnv(w, { RESEND_BASE_URL: 'https://later.test.invalid' });
          const reqs = await call(w, client, flow);
          expectEqual(reqs.length, flow.steps.length, 'wrong number of requests');
          for (const [i, q] of reqs.entries()) {
            if (flow.steps[i] === 'download') continue;
            const u = new URL(want.base);
            const prefix = u.pathname === '/' ? '' : u.pathname;
            if (q.invalid) fail('the request could not be formed', q.invalid);
            expect(q.origin === u.origin && q.path.startsWith(`${prefix}/`), 'the request went to the wrong place', `${q.origin}${q.path}`);
            checkRequest(q, want, q.path.slice(prefix.length) + q.search);
          }
        });
      });

  // whatever becomes of a request, the settings stay
  for (const flow of FLOWS)
    for (let step = 0; step < flow.steps.length; step++)
      for (const out of outcomesFor(flow.steps[step]))
        for (const [name, args, env] of [
          ['args', ['re_arg', { baseUrl: 'https://arg.test.invalid/v9', userAgent: 'Arg-Agent/1' }], {}],
          ['env', [], { NODE_ENV: 'production', RESEND_API_KEY: 're_env', RESEND_BASE_URL: 'https://env.test.invalid/p', RESEND_USER_AGENT: 'Env-Agent/1' }],
          ['defaults', ['re_arg'], {}],
        ])
          await ctx.eval(`flow ${flow.name} ${name} ${out.name}@${step}`, async () => {
            await session('node', {}, async (w) => {
              setEnv(w, env);
              const o = args[1] ?? {};
              const want = reference(args[0] ?? ABSENT, o.baseUrl ?? ABSENT, o.userAgent ?? ABSENT, env);
              const client = new w.module.Resend(...args);
              setEnv(w, OTHER_ENV);
              const before = [client.key, client.baseUrl, client.userAgent];
              for (let i = 0; i < 3; i++) {
                const reqs = await call(w, client, flow, i < 2 && out.act ? (rec, n) => (n === step ? out.act() : flow.answer(rec, n % flow.steps.length)) : undefined);
                const u = new URL(want.base);
                const prefix = u.pathname === '/' ? '' : u.pathname;
                for (const [j, q] of reqs.entries()) {
                  if (flow.steps[j] === 'download') continue;
                  if (q.invalid) fail('the request could not be formed', q.invalid);
                  expect(q.origin === u.origin && q.path.startsWith(`${prefix}/`), 'the request went to the wrong place', `${q.origin}${q.path}`);
                  checkRequest(q, want, q.path.slice(prefix.length) + q.search);
                }
                expectEqual([client.key, client.baseUrl, client.userAgent], before, 'the settings of the client changed');
              }
            });
          });

  // keys, base URLs and agents of every size, from either source
  for (const n of LENGTHS[ctx.tier].filter((x) => x > 0))
    for (const from of ['argument', 'environment'])
      for (const [flow, target] of probes)
        await ctx.eval(`${flow.name} configuration of length ${n} from the ${from}`, async () => {
          await session('node', {}, async (w) => {
            const want = { key: `re_${word(n)}`, base: `https://h.test.invalid/${word(n)}`, agent: `agent/${word(n)}` };
            setEnv(w, from === 'argument' ? {} : { RESEND_API_KEY: want.key, RESEND_BASE_URL: want.base, RESEND_USER_AGENT: want.agent });
            const client = from === 'argument' ? new w.module.Resend(want.key, { baseUrl: want.base, userAgent: want.agent }) : new w.module.Resend();
            setEnv(w, {});
            const reqs = await call(w, client, flow);
            expectEqual(reqs.length, 1, 'not exactly one request');
            checkRequest(reqs[0], want, target);
          });
        });

  // whatever the text, it is used as it is: nothing is trimmed, completed, decoded or shortened
  const headerSafe = STR.filter((x) => x && !/[^\t\x20-\x7e\x80-\xff]/.test(x)).concat(['\u00a0', 'a\u00a0', 'Bearer re_1', 'bearer re_1', 'BEARER', 're_a,re_b', '"re_quoted"', "'re_quoted'", 'RE_UPPER', 're_', 'a\u0085b', '${RESEND_API_KEY}', 'Basic dXNlcjpw', '0', 'false', 'undefined', 'null', 'none', 'xx re_1', 'resend-node:1', 'my resend-node:1', 'resend-node/1', 'resend-node', `resend-node:${VERSION}`, `resend-node:${VERSION} app/1`, 'resend', 'Mozilla/5.0 (X11; Linux x86_64)', 'node', 'undici', 'curl/8', 're_test', 're_live_x', 're_xxxxxxxxx', 're_123456789', 'sk_live', 'key_1', 'whsec_1', 'a:b', 'a;b', '<re_1>', 're_1\u00ff', 'test', 'YOUR_API_KEY', 'RESEND_API_KEY', 'process.env.RESEND_API_KEY']);
  const bases = ['https://h.test.invalid/', 'https://h.test.invalid//', 'https://h.test.invalid/v1/', 'https://h.test.invalid/v1//', 'https://H.Test.Invalid', 'HTTPS://h.test.invalid', 'http://h.test.invalid:80', 'http://h.test.invalid:8080', 'https://h.test.invalid/a%20b', 'https://h.test.invalid/a b', 'https://h.test.invalid/?p=', 'https://h.test.invalid/?p=1&q=', 'https://h.test.invalid/x?p=1#', 'https://h.test.invalid/emails', 'https://h.test.invalid/é', 'https://127.0.0.1:3000', 'https://[::1]:3000', ' https://h.test.invalid', 'https://api.resend.com/', 'http://api.resend.com', 'https://api.resend.com:443', 'https://api.resend.com/v2', 'https://h.test.invalid/.', 'https://h.test.invalid/a/../b', 'https://h.test.invalid;x', '//h.test.invalid', 'h.test.invalid', 'undefined', 'null', '0', 'https://', 'https://u:p@h.test.invalid', 'https://resend.com', 'https://resend.com/api', 'https://www.resend.com', 'https://www.resend.com/api', 'http://resend.com', 'https://api.resend.com/api', 'https://api.resend.com/v1', 'https://api.resend.com/emails', 'https://api.resend.com?x=1', 'https://api.resend.com#x', 'https://API.RESEND.COM', 'https://api.resend.dev', 'https://api.resend.com.', 'https://api.resend.com:8443', 'https://api.resend.co', 'https://api.resend.io', 'https://eu.api.resend.com', 'https://api.eu.resend.com', 'https://staging.resend.com', 'https://api-staging.resend.com', 'https://api.resend.com.proxy.example', 'https://proxy.example/api.resend.com', 'https://proxy.example/https://api.resend.com', 'https://localhost', 'http://localhost', 'http://localhost/', 'http://0.0.0.0:1', 'http://10.0.0.1', 'http://host.docker.internal:3000', 'https://example.com', 'https://example.com/api', 'https://example.com/api/', 'https://example.com/resend/v1', 'https://h.test.invalid/v1/emails/', 'https://h.test.invalid/index.php', 'https://h.test.invalid/%7Bid%7D', 'https://h.test.invalid/:id', 'https://h.test.invalid/{id}', 'https://h.test.invalid/a;b', 'https://h.test.invalid/a,b', 'https://h.test.invalid/~u', 'https://h.test.invalid/A/B', 'ws://h.test.invalid', 'ftp://h.test.invalid', 'file:///x', 'data:,x', 'about:blank', '/v1', '.', '..', '#', '?', 'https:h.test.invalid', 'https:/h.test.invalid', 'https:///h.test.invalid'];
  const verbatim = [...headerSafe.map((x) => ['key', x]), ...headerSafe.map((x) => ['agent', x]), ...bases.map((x) => ['base', x]), ...STR.filter(Boolean).map((x) => ['base', x])];
  for (const [what, value] of verbatim)
    for (const from of ['argument', 'environment'])
      for (const [flow, target] of probes)
        await ctx.eval(`${flow.name} ${what} ${JSON.stringify(value).slice(0, 60)} from the ${from}`, async () => {
          await session('node', {}, async (w) => {
            const want = { key: 're_k', base: 'https://h.test.invalid', agent: 'agent/1', [what]: value };
            const env = { RESEND_API_KEY: want.key, RESEND_BASE_URL: want.base, RESEND_USER_AGENT: want.agent };
            setEnv(w, from === 'argument' ? {} : env);
            const client = from === 'argument' ? new w.module.Resend(want.key, { baseUrl: want.base, userAgent: want.agent }) : new w.module.Resend();
            setEnv(w, {});
            expectEqual([client.key, client.baseUrl, client.userAgent], [want.key, want.base, want.agent], 'the client shows other settings');
            const reqs = await call(w, client, flow);
            expectEqual(reqs.length, 1, 'not exactly one request');
            const formed = canonicalRequest(`${want.base}${target}`, {});
            if (formed.invalid) expect(reqs[0].invalid, 'a request to a place nobody named', () => reqs[0].origin + reqs[0].path);
            else checkRequest(reqs[0], want, target);
          });
        });

  // histories: several clients, a moving environment
  const ENVS = [{}, { RESEND_API_KEY: 're_e1' }, { RESEND_API_KEY: 're_e2', RESEND_BASE_URL: 'https://e2.test.invalid', RESEND_USER_AGENT: 'e2' }];
  const CTORS = [
    [ABSENT, ABSENT, ABSENT],
    ['re_a', 'https://a.test.invalid', ABSENT],
    ['re_b', ABSENT, 'b-agent'],
  ];
  const ACTIONS = [...ENVS.map((_, i) => `env${i}`), ...CTORS.map((_, i) => `new${i}`), 'first', 'last'];
  const max = ctx.quick ? 4 : 6;
  const walk = async (acts) => {
    const made = acts.some((a) => a.startsWith('new'));
    if (acts.length && (acts.at(-1) === 'first' || acts.at(-1) === 'last'))
      await ctx.eval(`history ${acts.join(' ')}`, async () => {
        await session('node', {}, async (w) => {
          let env = {};
          const clients = [];
          for (const a of acts) {
            if (a.startsWith('env')) setEnv(w, (env = ENVS[a.at(-1)]));
            else if (a.startsWith('new')) {
              const [k, b, u] = CTORS[a.at(-1)];
              const want = reference(k, b, u, env);
              let c;
              try {
                c = new w.module.Resend(...ctorArgs(k, buildOptions(b, u), 'object'));
              } catch {}
              expect(!!c === !!want, want ? 'construction threw although there is a key' : 'a client without a key was constructed', a);
              if (c) clients.push([c, want]);
            } else if (clients.length) {
              const [c, want] = a === 'first' ? clients[0] : clients.at(-1);
              const reqs = await call(w, c, FLOW['domains.get']);
              expectEqual(reqs.length, 1, 'not exactly one request');
              checkRequest(reqs[0], want, '/domains/id_1');
            }
          }
        });
      });
    if (acts.length === max) return;
    for (const a of ACTIONS) {
      if ((a === 'first' || a === 'last') && !made) continue;
      if (a.startsWith('env') && acts.at(-1)?.startsWith('env')) continue;
      await walk([...acts, a]);
    }
  };
  await walk([]);
}
