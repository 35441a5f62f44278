#!/usr/bin/env python3
"""Runs the own check of every planted bug (or of the ids given) against a scratch copy carrying it, and writes the table
SEEDED.md: caught.py [--jobs N] [ID...]"""
import json, os, shutil, subprocess, sys, threading, queue, re
V = '/verif'
args = sys.argv[1:]
jobs = 2
if '--jobs' in args:
    i = args.index('--jobs'); jobs = int(args[i + 1]); del args[i:i + 2]
done = {}
if '--resume' in args:      # a log of an earlier run that was stopped
    i = args.index('--resume'); done = {l.split()[0]: l.split(None, 2)[2].strip() for l in open(args[i + 1]) if len(l.split()) > 2}; del args[i:i + 2]
ids = args or sorted(os.listdir(f'{V}/seeded'))
q = queue.Queue(); out = {}
for i in ids:
    if done.get(i) == 'caught': m = json.load(open(f'{V}/seeded/{i}/meta.json')); out[i] = (m['property'], 'caught', m)
    else: q.put(i)
def worker(n):
    w = f'/tmp/caught{n}'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    while True:
        try: s = q.get_nowait()
        except queue.Empty: break
        m = json.load(open(f'{V}/seeded/{s}/meta.json'))
        subprocess.run('git checkout -q -- .', cwd=w, shell=True, check=True)
        a = subprocess.run(['git', 'apply', f'{V}/seeded/{s}/patch.diff'], cwd=w, capture_output=True, text=True)
        if a.returncode:
            out[s] = (m['property'], 'DOES NOT APPLY', m); print(s, 'DOES NOT APPLY', flush=True); continue
        try:
            p = subprocess.run(['node', 'run.mjs', m['property'], '--tier', 'quick'], cwd=V, capture_output=True, text=True, timeout=900,
                env={**os.environ, 'VERIF_REPO': w, 'VERIF_EVIDENCE': f'{w}.ev', 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
            r = 'caught' if p.returncode == 1 and f'VIOLATION property={m["property"]}' in p.stdout else f'MISSED (exit {p.returncode})'
        except subprocess.TimeoutExpired: r = 'TIMEOUT'
        out[s] = (m['property'], r, m); print(s, m['property'], r, flush=True)
    shutil.rmtree(w, ignore_errors=True); shutil.rmtree(f'{w}.ev', ignore_errors=True)
ts = [threading.Thread(target=worker, args=(n,)) for n in range(jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
if not args:
    cell = lambda t: re.sub(r'\s+', ' ', t).replace('|', '\\|')
    with open(f'{V}/SEEDED.md', 'w') as f:
        f.write('# Planted bugs and the check that decides each\n\nWritten by `tools/caught.py`: the quick check of the bug\'s own property, run against a copy of `/repo` carrying it.\n\n| bug | property | its check | needs |\n|---|---|---|---|\n')
        for s in sorted(out): f.write(f'| {s} | {out[s][0]} | {out[s][1]} | {cell(out[s][2]["needs"])} |\n')
print(sum(r == 'caught' for _, r, _ in out.values()), 'of', len(out), 'caught')
