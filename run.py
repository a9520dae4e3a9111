#!/usr/bin/env python3
"""Driver of the checks:  run.py CXX [--tier quick|thorough] [--replay FILE]

Builds the property's harness together with /repo's current sources (several instrumented flavours), runs the
workloads on all cores, turns every monitor report (oracle, sanitizer, assert, signal, hang) into a violation key,
matches the keys with known_findings.json and writes evidence/CXX.json.
Exit: 0 held on everything explored, 1 violation (with a VIOLATION line), 2 the check itself could not work."""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VH_REPO', '/repo')
sys.path.insert(0, VERIF)
from props import PROPS, FLAVOURS  # noqa: E402

NCPU = max(2, min(8, os.cpu_count() or 8))
T0 = time.time()


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


class HarnessError(Exception):
    pass


class Build:
    def __init__(self, prop, work):
        self.prop, self.work, self.done = prop, work, {}
        self.pool = cf.ThreadPoolExecutor(NCPU)

    def _run(self, cmd):
        for _ in range(2):  # twice: compilers have been seen to crash once in a while when the machine is loaded
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode == 0:
                break
        else:
            raise HarnessError('build failed: %s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-6000:]))

    def start(self, flavour, source, name=None):
        """schedules the compilation; returns a key for finish()"""
        key = (flavour, source)
        if key in self.done:
            return key
        f = FLAVOURS[flavour]
        d = os.path.join(self.work, flavour)
        os.makedirs(d, exist_ok=True)
        base = [f['cxx'], '-std=c++17', '-D__NO_CTYPE'] + f['flags'] + ['-I', REPO + '/include', '-I', VERIF + '/harness',
                                                        '-DVH_PROPERTY="%s"' % self.prop, '-DVH_ALARM=%d' % f.get('alarm', 40)]
        jobs, objs = [], []
        lib = self.done.get((flavour, None))
        if lib is None:
            libobjs = []
            libjobs = []
            for src in sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True)):
                o = os.path.join(d, 'coil_' + os.path.relpath(src, REPO + '/src').replace('/', '_') + '.o')
                libobjs.append(o)
                libjobs.append(self.pool.submit(self._run, base + f.get('libflags', []) + ['-c', src, '-o', o]))
            if not libobjs:
                raise HarnessError('no sources under %s/src' % REPO)
            lib = self.done[(flavour, None)] = (libjobs, libobjs)
        srcs = [source] if isinstance(source, str) else list(source)
        for s in srcs:
            o = os.path.join(d, s + '.o')
            objs.append(o)
            jobs.append(self.pool.submit(self._run, base + f.get('harnessflags', []) + ['-c', os.path.join(VERIF, 'harness', s), '-o', o]))
        exe = os.path.join(d, (srcs[0].rsplit('.', 1)[0]) + '.exe')
        link = [f['cxx']] + f['flags'] + f.get('ldflags', []) + lib[1] + objs + ['-o', exe] + f.get('libs', [])
        self.done[key] = (lib[0] + jobs, link, exe, [False])
        return key

    def finish(self, key):
        jobs, link, exe, linked = self.done[key]
        for j in jobs:
            j.result()
        if not linked[0]:
            self._run(link)
            linked[0] = True
        return exe


SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=0:hard_rss_limit_mb=4000:symbolize=1:detect_invalid_pointer_pairs=0:quarantine_size_mb=64:malloc_context_size=8',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:abort_on_error=1',
    'TSAN_OPTIONS': 'halt_on_error=1:abort_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4',
    'LC_ALL': 'C', 'LANG': 'C',
}
for p in ('/usr/bin/llvm-symbolizer', '/usr/bin/llvm-symbolizer-18'):
    if os.path.exists(p):
        SAN_ENV['ASAN_SYMBOLIZER_PATH'] = p
        break


def env():
    e = dict(os.environ)
    e.update(SAN_ENV)
    return e


def classify(rc, out):
    """a violation key for an abnormal end, or None"""
    m = re.search(r'VH-VIOLATION\t([^\t\n]+)\t([^\n]*)', out)
    if m:
        return m.group(1), m.group(2)[:3000]
    m = re.search(r"Assertion `([^\n]*?)' failed", out)
    if m:
        return 'assert:' + m.group(1)[:120], m.group(0)
    m = re.search(r'SUMMARY: (\w+Sanitizer): ([^\n]*)', out)
    if m:
        s = re.sub(r'\(BuildId[^)]*\)|0x[0-9a-f]+|\([^)]*\+\)', '', m.group(2))
        s = re.sub(r'/\S*/', '', s)
        s = re.sub(r':\d+', '', s).strip()
        return 'sanitizer:' + m.group(1) + ':' + s[:120], m.group(0)
    m = re.search(r'(\w+Sanitizer)[^\n]*', out)
    if m and rc not in (0,):
        return 'sanitizer:' + m.group(1), m.group(0)[:300]
    if 'terminate called' in out or 'libc++abi: terminating' in out:
        return 'terminate', 'an exception escaped: std::terminate'
    if rc == 87 or 'VH-HANG' in out:
        return 'hang', 'no progress within the watchdog time'
    if rc == 99:
        return 'valgrind', out[-1500:]
    if rc < 0:
        return 'signal:%d' % -rc, 'killed by signal %d' % -rc
    return None


class Runner:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.violations = []  # (key, detail, replay dict, output)
        self.evals = 0
        self.hashes = set()
        self.counters = {}
        self.samples = []
        self.stages = []
        self.n = 0

    def tmp(self, suffix):
        self.n += 1
        return os.path.join(self.work, 'r%05d%s' % (self.n, suffix))

    def exec(self, cmd, timeout, extra_env=None):
        e = env()
        e.update(extra_env or {})
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=self.work, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out.decode(errors='replace')
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            return 87, out.decode(errors='replace') + '\nVH-HANG (driver)\n'

    def shard(self, exe, flavour, mode, a, b, opts, wrap, timeout):
        prog, summ = self.tmp('.prog'), self.tmp('.json')
        cmd = wrap + [exe, '--from', str(a), '--to', str(b), '--seed', str(self.seed), '--progress', prog, '--summary', summ, '--mode', mode] + opts
        if self.tier == 'thorough':
            cmd.append('--thorough')
        rc, out = self.exec(cmd, timeout)
        if rc == 0 and 'VH-DONE' in out and os.path.exists(summ):
            return ('ok', summ, out)
        case = None
        try:
            case = int.from_bytes(open(prog, 'rb').read(8), 'little')
        except OSError:
            pass
        k = classify(rc, out)
        if k is None:
            return ('error', 'exit %d: %s\n%s' % (rc, ' '.join(cmd), out[-3000:]), None)
        if k[0] == 'hang':  # a slow machine is not a violation: once more, alone
            self.hung.append((exe, flavour, mode, a, b, opts, wrap, timeout, case))
            return ('hang', None, None)
        return ('bad', k, dict(flavour=flavour, mode=mode, case=case, a=a, b=b, opts=opts, out=out[-12000:]))

    def merge(self, summ):
        d = json.load(open(summ))
        self.evals += d['evaluations']
        for k, v in d['counters'].items():
            self.counters[k] = self.counters.get(k, 0) + v
        for s in d['samples']:
            if len(self.samples) < 5:
                self.samples.append(s)
        h = open(summ + '.hashes', 'rb').read()
        for i in range(0, len(h), 8):
            self.hashes.add(h[i:i + 8])
        os.unlink(summ)
        os.unlink(summ + '.hashes')
        return d

    def cases(self, exe, flavour, n, mode='cases', opts=(), wrap=(), timeout=300, offset=0, shards=None):
        opts, wrap = list(opts), list(wrap)
        t = time.time()
        shards = n if shards == 'each' else min(n, shards or NCPU * 2)
        cuts = [offset + n * i // shards for i in range(shards + 1)]
        self.hung = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda i: self.shard(exe, flavour, mode, cuts[i], cuts[i + 1], opts, wrap, timeout), range(shards)))
        for h in list(self.hung):
            exe_, fl, mo, a, b, op, wr, to, case = h
            again = self.tmp('.prog')
            if mo == 'cases' and case is not None:
                cmd = wr + [exe_, '--from', str(case), '--to', str(case + 1), '--seed', str(self.seed), '--progress', again, '--mode', mo] + op
            else:
                cmd = wr + [exe_, '--from', str(a), '--to', str(b), '--seed', str(self.seed), '--progress', again, '--mode', mo] + op
            rc, out = self.exec(cmd, 150)
            if rc == 0:
                res.append(self.shard(exe_, fl, mo, (case or a), b, op, wr, to * 2))
                if res[-1][0] == 'hang':
                    raise HarnessError('inconclusive: a workload did not finish in time although its slowest case does, alone')
            else:
                k = classify(rc, out) or ('exit:%d' % rc, out[-500:])
                res.append(('bad', k, dict(flavour=fl, mode=mo, case=case, a=a, b=b, opts=op, out=out[-12000:])))
        e0 = self.evals
        for r in res:
            if r[0] == 'ok':
                self.merge(r[1])
            elif r[0] == 'bad':
                self.violations.append((r[1][0], r[1][1], r[2]))
            elif r[0] == 'error':
                raise HarnessError(r[1])
        self.stages.append(dict(stage=mode, flavour=flavour, evaluations=self.evals - e0, wall_s=round(time.time() - t, 1)))
        log('%s/%s: %d evaluations in %.1fs' % (flavour, mode, self.evals - e0, time.time() - t))

    def fuzz(self, exe, flavour, runs, max_len=512, dict_file=None, timeout=400):
        """coverage-guided exploration with the same oracle; fixed number of runs per worker"""
        t = time.time()

        def one(i):
            c = self.tmp('.corpus')
            os.makedirs(c)
            art = self.tmp('.art')
            os.makedirs(art)
            cmd = [exe, '-runs=%d' % runs, '-seed=%d' % (self.seed * 100 + i + 1), '-max_len=%d' % max_len, '-timeout=60', '-rss_limit_mb=4000',
                   '-artifact_prefix=' + art + '/', '-print_final_stats=1', '-verbosity=1', '-use_value_profile=%d' % (i % 2), '-entropic=1', '-detect_leaks=0', c]
            if dict_file:
                cmd.append('-dict=' + os.path.join(VERIF, 'harness', dict_file))
            rc, out = self.exec(cmd, timeout)
            arts = sorted(glob.glob(art + '/*'))
            data = open(arts[0], 'rb').read() if arts else b''
            names = [hashlib.sha1(open(f, 'rb').read()).digest()[:8] for f in glob.glob(c + '/*')]
            shutil.rmtree(c, ignore_errors=True)
            shutil.rmtree(art, ignore_errors=True)
            return rc, out, data, names

        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, range(NCPU)))
        total, cov = 0, 0
        corpus = set()
        for rc, out, data, names in res:
            m = re.findall(r'stat::number_of_executed_units:\s*(\d+)', out)
            if m:
                total += int(m[-1])
            m = re.findall(r'cov: (\d+)', out)
            if m:
                cov = max(cov, int(m[-1]))
            corpus.update(names)
            if rc != 0:
                if 'ALARM: working on the last Unit' in out or 'libFuzzer: timeout' in out:
                    k = ('hang', 'libFuzzer timeout')
                else:
                    k = classify(rc, out)
                if k is None and data:
                    k = ('fuzz-exit:%d' % rc, out[-400:])
                if k is None:
                    raise HarnessError('fuzzer exit %d\n%s' % (rc, out[-3000:]))
                if k[0] == 'hang' and not data:
                    log('fuzz worker ran out of time: inconclusive, its runs are not counted')
                    continue
                if k[0] == 'hang':
                    f = self.tmp('.in')
                    open(f, 'wb').write(data)
                    rc2, out2 = self.exec([exe, '-timeout=60', f], 150)
                    if rc2 == 0:
                        continue
                self.violations.append((k[0], k[1], dict(flavour=flavour, mode='fuzz', bytes=data.hex(), out=out[-12000:])))
        self.evals += total
        self.hashes.update(corpus)
        self.counters['fuzz-executions'] = self.counters.get('fuzz-executions', 0) + total
        self.counters['fuzz-corpus-units'] = self.counters.get('fuzz-corpus-units', 0) + len(corpus)
        self.counters['fuzz-edges-max'] = max(self.counters.get('fuzz-edges-max', 0), cov)
        self.stages.append(dict(stage='fuzz', flavour=flavour, evaluations=total, wall_s=round(time.time() - t, 1)))
        log('%s/fuzz: %d executions, %d edges in %.1fs' % (flavour, total, cov, time.time() - t))


def known():
    try:
        return json.load(open(os.path.join(VERIF, 'known_findings.json')))
    except FileNotFoundError:
        return {'findings': []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    P = PROPS[a.prop]
    work = os.path.join(VERIF, 'build', '%s-%d' % (a.prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        if a.replay:
            return replay(a, P, work)
        return check(a, P, tier, seed, work)
    except HarnessError as e:
        print('CHECK-ERROR property=%s %s' % (a.prop, e), flush=True)
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def replay(a, P, work):
    d = json.load(open(a.replay))
    b = Build(a.prop, work)
    if d.get('mode') == 'custom' or 'stage' not in d:
        print(json.dumps({k: v for k, v in d.items() if k != 'out'}, indent=1))
        return 2
    exe = b.finish(b.start(d['flavour'], tuple(d['source']) if isinstance(d['source'], list) else d['source']))
    r = Runner(a.prop, d.get('tier', 'quick'), d['seed'], work)
    if d['mode'] == 'fuzz':
        f = os.path.join(work, 'in')
        open(f, 'wb').write(bytes.fromhex(d['bytes']))
        rc, out = r.exec([exe, f], 300)
    else:
        lo, hi = (d['case'], d['case'] + 1) if d['mode'] == 'cases' and d['case'] is not None else (d['a'], d['b'])
        rc, out = r.exec(d.get('wrap', []) + [exe, '--from', str(lo), '--to', str(hi), '--seed', str(d['seed']), '--mode', d['mode']] + d.get('opts', []), 300)
    print(out)
    print('replay: exit', rc)
    return 0 if rc == 0 else 1


def check(a, P, tier, seed, work):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    evf = os.path.join(VERIF, 'evidence', a.prop + '.json')
    b = Build(a.prop, work)
    r = Runner(a.prop, tier, seed, work)
    stages = [s for s in P['stages'] if tier in s.get('tiers', ('quick', 'thorough'))]
    keys = []
    for s in stages:
        keys.append(None if 'custom' in s else b.start(s['flavour'], s.get('source', P['source'])))
    for s, k in zip(stages, keys):
        n = s.get(tier, s.get('quick'))
        if isinstance(n, int):
            n = max(1, int(n * a.scale))
        before = len(r.violations)
        if 'custom' in s:
            s['custom'](r, b, tier, n)
        elif s.get('kind') == 'fuzz':
            r.fuzz(b.finish(k), s['flavour'], n, s.get('max_len', 512), s.get('dict'))
        else:
            r.cases(b.finish(k), s['flavour'], n, s.get('mode', 'cases'), s.get('opts', ()), s.get('wrap', ()), s.get('timeout', 300), s.get('offset', 0), s.get('shards'))
        for i in range(before, len(r.violations)):
            r.violations[i][2].update(stage=s.get('mode', s.get('kind', 'cases')), source=s.get('source', P['source']), wrap=list(s.get('wrap', ())))
        if any(not is_known(a.prop, v[0]) for v in r.violations):
            break
    new, old = [], []
    for v in r.violations:
        (old if is_known(a.prop, v[0]) else new).append(v)
    if not new:
        missing = [c for c in P.get('must', []) if not r.counters.get(c)]
        if missing:
            raise HarnessError('inconclusive: the workload never produced %s' % ', '.join(missing))
        if r.evals == 0:
            raise HarnessError('inconclusive: nothing was evaluated')
    ev = dict(property=a.prop, tier=tier, seed=seed, level=P.get('level', 'exploration'),
              coverage=dict(evaluations=r.evals, distinct_nontrivial=len(r.hashes), rule=P['rule'], samples=r.samples or ['(none)'],
                            observed=dict(sorted(r.counters.items())), stages=r.stages),
              assumptions=P.get('assumptions', []), wall_s=round(time.time() - T0, 1), violations=len(new))
    json.dump(ev, open(evf, 'w'), indent=1)
    seen = set()
    for key, detail, d in old:
        if key not in seen:
            seen.add(key)
            f = is_known(a.prop, key)
            print('KNOWN-FINDING: property=%s %s' % (a.prop, f['what']), flush=True)
    if new:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        seen = set()
        for key, detail, d in new:
            if key in seen or len(seen) >= 5:
                continue
            seen.add(key)
            path = os.path.join(VERIF, 'replays', '%s-%s.json' % (a.prop, hashlib.sha1((key + detail).encode()).hexdigest()[:10]))
            d = dict(d, property=a.prop, key=key, detail=detail, seed=seed, tier=tier)
            json.dump(d, open(path, 'w'), indent=1)
            print('  key: %s\n  %s' % (key, detail[:1500]))
            print('VIOLATION property=%s replay=%s' % (a.prop, path), flush=True)
        return 1
    log('%s: held on %d evaluations (%d distinct non-trivial)' % (a.prop, r.evals, len(r.hashes)))
    return 0


def is_known(prop, key):
    for f in known()['findings']:
        if f.get('status') == 'known' and f['property'] == prop and f['key'] == key:
            return f
    return None


if __name__ == '__main__':
    sys.exit(main())
