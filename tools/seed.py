#!/usr/bin/env python3
"""Makes and confirms planted bugs:  seed.py DEFS.py [id...]
DEFS.py defines SEEDS: id -> dict(property, needs, breaks, edits=[(file, old, new)], demo=C++ text, flags=[...]).
Each is confirmed in a scratch copy under /tmp: it builds, the stable tests pass, the demonstration fails with it and
passes without it; then it is written to seeded/<id>."""
import json, os, runpy, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seed-scratch'
REPO = S + '/repo'
VP = S + '/vp'

DEMO = r'''import os, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
with tempfile.TemporaryDirectory() as t:
    exe = os.path.join(t, 'demo')
    src = sorted(os.path.join(d, f) for d, _, fs in os.walk('src') for f in fs if f.endswith('.cpp'))
    c = subprocess.run(@CXX@ + ['-std=c++17', '-g', '-I', 'include'] + @FLAGS@ + src + [os.path.join(here, 'demo.cpp'), '-o', exe])
    if c.returncode != 0:
        sys.exit(2)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', TSAN_OPTIONS='halt_on_error=1')
    sys.exit(1 if subprocess.run([exe], cwd=t, timeout=200, env=env).returncode != 0 else 0)
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def scratch():
    if not os.path.isdir(REPO):
        os.makedirs(S, exist_ok=True)
        sh(['git', 'clone', '-q', '/repo', REPO])
        shutil.copytree('/opt/vp', VP)
        for f in os.listdir(VP):
            if f.endswith(('.sh', '.py')):
                p = os.path.join(VP, f)
                s = open(p).read()
                s = s.replace('/opt/vp', VP).replace('R=/repo', 'R=' + REPO).replace("'/repo", "'" + REPO)
                open(p, 'w').write(s)
    sh('git fetch -q && git reset -q --hard origin/HEAD', cwd=REPO)


def main():
    defs = runpy.run_path(sys.argv[1])['SEEDS']
    ids = sys.argv[2:] or list(defs)
    scratch()
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
    for i in ids:
        d = defs[i]
        sh('git checkout -q -- .', cwd=REPO)
        out = os.path.join(S, i)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/demo.cpp', 'w').write(d['demo'].lstrip('\n'))
        open(out + '/demo.py', 'w').write(DEMO.replace('@CXX@', repr([d.get('cxx', 'g++')])).replace('@FLAGS@', repr(d.get('flags', ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']))))
        open(out + '/demo.sh', 'w').write('#!/bin/sh\nexec python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        r = sh(['sh', out + '/demo.sh'], cwd=REPO)
        if r.returncode != 0:
            print(i, 'demo fails on the unchanged tree', r.returncode, r.stdout[-3000:])
            continue
        bad = False
        for f, old, new in d['edits']:
            p = os.path.join(REPO, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(i, 'edit matches %d times: %r' % (s.count(old), old[:80]))
                bad = True
                break
            open(p, 'w').write(s.replace(old, new))
        if bad:
            continue
        diff = sh(['git', 'diff'], cwd=REPO).stdout
        r = sh(['sh', out + '/demo.sh'], cwd=REPO)
        if r.returncode == 0:
            print(i, 'DEMO PASSES with the bug', r.stdout[-1000:])
            continue
        if r.returncode == 2:
            print(i, 'does not compile', r.stdout[-3000:])
            continue
        demo_out = r.stdout
        res = S + '/res.json'
        if os.path.exists(res):
            os.unlink(res)
        r = sh(['bash', VP + '/test.sh', res], cwd=REPO)
        if not os.path.exists(res):
            print(i, 'no test results', r.stdout[-2000:])
            continue
        j = json.load(open(res))
        failed = j.get('failed') or [k for k, v in j.get('tests', {}).items() if v not in ('pass', 'passed', 'PASS')]
        passed = j.get('passed')
        n = len(passed) if isinstance(passed, list) else passed
        if failed or not n or n < 430:
            print(i, 'TESTS FAIL', str(failed)[:600], n, r.stdout[-1500:] if not n else '')
            continue
        open(out + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']), open(out + '/meta.json', 'w'), indent=1)
        dst = os.path.join(VERIF, 'seeded', i)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        print(i, 'OK', n, 'tests pass;', demo_out.strip().split('\n')[0][:150] if demo_out.strip() else '')
    sh('git checkout -q -- .', cwd=REPO)


main()
