#!/usr/bin/env python3
"""Runs the checks against planted bugs in a scratch copy:  catch.py [--tier T] [id...]  (default: all in seeded/).
Prints, per planted bug, whether the check of its property reports it."""
import json, os, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get('CATCH_SCRATCH', '/tmp/catch-scratch')
args = sys.argv[1:]
only = None
if args and args[0] == '--prop':
    only = args[1].split(',')
    args = args[2:]
ids = args or sorted(os.listdir(VERIF + '/seeded'))
if not os.path.isdir(S):
    subprocess.run(['git', 'clone', '-q', '/repo', S], check=True)
subprocess.run('git fetch -q && git reset -q --hard origin/HEAD && git clean -qfdx', cwd=S, shell=True, check=True)
for i in ids:
    d = VERIF + '/seeded/' + i
    m = json.load(open(d + '/meta.json'))
    subprocess.run('git checkout -q -- .', cwd=S, shell=True, check=True)
    subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=S, check=True)
    for p in only or [m['property']]:
        t = time.time()
        r = subprocess.run(['python3', 'run.py', p], cwd=VERIF, env=dict(os.environ, VH_REPO=S), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        own = [l for l in v if 'property=' + p in l]
        print('%-24s %s %-6s rc=%d %4.0fs %s' % (i, p, 'CAUGHT' if r.returncode == 1 and own else 'MISSED', r.returncode, time.time() - t, (own or v or [''])[0][:160]), flush=True)
        f = VERIF + '/tools/catches.json'
        c = json.load(open(f)) if os.path.exists(f) else {}
        c.setdefault(i, {})[p] = r.returncode == 1 and bool(own)
        json.dump(c, open(f, 'w'), indent=1, sort_keys=True)
        if r.returncode not in (0, 1):
            print(r.stdout[-1500:])
subprocess.run('git checkout -q -- .', cwd=S, shell=True, check=True)
