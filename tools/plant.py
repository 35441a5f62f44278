#!/usr/bin/env python3
"""Plants the bugs described in spec files (python lists SEEDS of dicts) into scratch copies of /repo and keeps those
that qualify: plant.py [--only ID,...] [--jobs N] SPEC.py ...
A bug qualifies when its patch removes or changes an original line, builds, passes the stable tests, and its demo
passes without and fails with it. For each the property's check is run against the scratch copy as well."""
import json, os, shutil, subprocess, sys, runpy, threading, queue

V = '/verif'
BASE = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'] if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else [])

def sh(cmd, cwd=None, timeout=600, env=None):
    e = {**os.environ, **(env or {})}
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e, errors='replace')
    return p.returncode, p.stdout

def scratch(n):
    w = f'/tmp/plant{n}'
    if not os.path.exists(w):
        sh(['cp', '-a', '/repo', w])
    for f in ('build.sh', 'test.sh', 'tsconfig.build.json', 'results.py'):
        t = open(f'/opt/vp/{f}').read().replace('/opt/vp/tsconfig', f'{w}.vp/tsconfig').replace('/opt/vp/results', f'{w}.vp/results').replace('/repo', w)
        os.makedirs(f'{w}.vp', exist_ok=True)
        open(f'{w}.vp/{f}', 'w').write(t)
    sh('git checkout -q -- . && git clean -fdq', cwd=w)
    return w

def original_line_touched(w):
    _, d = sh(['git', 'diff', '-U0'], cwd=w)
    f = None
    ok = False
    added = False
    for line in d.splitlines():
        if line.startswith('--- a/'):
            f = line[6:]
        elif line.startswith('@@'):
            o = line.split()[1][1:]
            s, c = (o.split(',') + ['1'])[:2]
            for i in range(int(s), int(s) + int(c)):
                _, b = sh(['git', 'blame', '-l', '-s', '-L', f'{i},{i}', 'HEAD', '--', f], cwd=w)
                if b.lstrip('^')[:39] == BASE[:39]:
                    ok = True
                else:
                    added = True
    return ok, added

def one(w, s):
    sid = s['id']
    sh('git checkout -q -- . && git clean -fdq', cwd=w)
    d = f'{V}/seeded/{sid}'
    tmp = f'{w}.seed'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    shutil.copy(f'{V}/tools/kit.cjs', f'{tmp}/kit.cjs')
    open(f'{tmp}/demo.cjs', 'w').write("const { Resend, assert, calls, serve, json, tick, run } = require('./kit.cjs');\n" + s['demo'].strip('\n') + '\n')
    open(f'{tmp}/demo.sh', 'w').write('#!/bin/bash\nexec node "$(dirname "$0")/demo.cjs"\n')
    os.chmod(f'{tmp}/demo.sh', 0o755)
    rc, out = sh(['bash', f'{w}.vp/build.sh'])
    if rc: return 'clean build fails ' + out[-400:]
    rc, out = sh(['bash', f'{tmp}/demo.sh'], cwd=w, timeout=120)
    if rc: return 'demo fails on the unchanged tree: ' + out[-900:]
    for f, old, new in s['edits']:
        p = f'{w}/{f}'
        t = open(p).read()
        if t.count(old) != 1: return f'edit text occurs {t.count(old)} times in {f}: {old[:60]!r}'
        open(p, 'w').write(t.replace(old, new))
    ok, added = original_line_touched(w)
    if not ok: return 'touches no original line'
    _, diff = sh(['git', 'diff'], cwd=w)
    rc, out = sh(['bash', f'{w}.vp/build.sh'])
    if rc: return 'does not build: ' + out[-900:]
    rc, out = sh(['bash', f'{w}.vp/test.sh', f'{w}.vp/o.json'])
    res = json.load(open(f'{w}.vp/o.json'))
    if res['failed']: return f"tests fail: {len(res['failed'])} {res['failed'][:3]}"
    if len(res['passed']) < 409: return f"only {len(res['passed'])} passed"
    rc, out = sh(['bash', f'{tmp}/demo.sh'], cwd=w, timeout=120)
    if rc == 0: return 'demo passes with the bug'
    why = out.strip().splitlines()[:2]
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    open(f'{d}/patch.diff', 'w').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    res = []
    for pid in [s['property']] + s.get('also', []):
        rc, out = sh(['node', 'run.mjs', pid, '--tier', 'quick'], cwd=V, env={'VERIF_REPO': w, 'VERIF_EVIDENCE': f'{w}.ev', 'VERIF_SEED': '1'}, timeout=1000)
        v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
        res.append(f"{pid}:{'CAUGHT' if rc == 1 and any('property='+pid in l for l in v) else f'MISSED rc={rc} ' + (out[-300:] if rc not in (0,1) else '')}")
    return ('KEPT ' if not added else 'KEPT(touches fix lines too) ') + ' '.join(res) + '   | ' + ' '.join(why)[:140]

def main():
    args = sys.argv[1:]
    only, jobs, specs = None, 4, []
    while args:
        a = args.pop(0)
        if a == '--only': only = set(args.pop(0).split(','))
        elif a == '--jobs': jobs = int(args.pop(0))
        else: specs.append(a)
    seeds = [s for f in specs for s in runpy.run_path(f)['SEEDS'] if not only or s['id'] in only]
    q = queue.Queue()
    for s in seeds: q.put(s)
    def work(n):
        w = scratch(n)
        while True:
            try: s = q.get_nowait()
            except queue.Empty: return
            try: r = one(w, s)
            except Exception as e: r = f'error {type(e).__name__} {e}'
            print(f"{s['id']:28} {s['property']}  {r}", flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(min(jobs, len(seeds)))]
    [t.start() for t in ts]; [t.join() for t in ts]

main()
