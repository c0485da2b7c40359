#!/usr/bin/env python3
"""Driver of all the checks: builds the harness of a property from /repo's
current working tree, runs it sharded over the cores, collects what the
monitors reported and writes the evidence file.

  python3 run.py C01                      (tier and seed from VERIF_TIER, VERIF_SEED)
  python3 run.py --replay replays/x.json  (re-executes one reported case)
  python3 run.py --setup                  (sanity of the toolchain)
"""
import os, sys, json, time, hashlib, subprocess, threading, re, glob, shutil, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
H = os.path.join(HERE, 'harness')
BUILD = os.path.join(HERE, 'build')
REPLAYS = os.path.join(HERE, 'replays')
NCPU = min(8, os.cpu_count() or 1)
sys.path.insert(0, HERE)
sys.modules['run'] = sys.modules[__name__]   # checks.py imports this very module

INC = ['-I' + REPO, '-I/usr/include/eigen3', '-I' + H]
STD = ['-std=gnu++11', '-g1', '-fno-var-tracking', '-w']
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
TSAN = ['-fsanitize=thread']
SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=1:handle_abort=1:detect_stack_use_after_return=1:allocator_may_return_null=0:abort_on_error=0:exitcode=99',
    'UBSAN_OPTIONS': 'print_stacktrace=1',
    'LSAN_OPTIONS': 'exitcode=98',
    'TSAN_OPTIONS': 'exitcode=97:halt_on_error=0:second_deadlock_stack=1:history_size=4',
}

class Infra(Exception):
    pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:20]

_tree = None
def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for base in (os.path.join(REPO, 'uncertainties'), H):
            for d, ds, fs in sorted(os.walk(base)):
                ds.sort()
                for f in sorted(fs):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
        _tree = h.hexdigest()
    return _tree

SANITY = r'''
#include <map>
#include <vector>
#include <functional>
#include <cmath>
#include <quadmath.h>
#include <Eigen/Dense>
int main() { Eigen::Matrix<double, 2, 2> m; m.setZero(); std::map<int, double> a; a[1] = m(0, 0); return int(a[1]); }
'''

class CompileError(Exception):
    def __init__(self, src, cmd, log):
        Exception.__init__(self, src)
        self.src, self.cmd, self.log = src, cmd, log

def _cc(cmd, name, cxx, flags, timeout):
    r = None
    for attempt in range(2):
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Infra('compilation timed out: ' + ' '.join(cmd))
        log = r.stdout.decode('utf8', 'replace')
        # killed compiler (memory): retry once
        if r.returncode == 0 or not re.search(r'Killed|internal compiler error', log):
            break
    if r.returncode != 0:
        sanity_ok(cxx, flags)
        if re.search(r'Killed|internal compiler error|No space left', log):
            raise Infra(log[-2000:])
        raise CompileError(name, ' '.join(cmd), log)

_objlock = threading.Lock()
_objlocks = {}
def compile_(name, srcs, flags, libs, cxx="g++", timeout=600, extra_inc=(), inc=None):
    """Returns the path of the binary. Raises CompileError or Infra."""
    os.makedirs(BUILD, exist_ok=True)
    srcs = [s if os.path.isabs(s) else os.path.join(H, s) for s in srcs]
    key = sha(tree_hash(), cxx, ' '.join(flags), ' '.join(extra_inc), ' '.join(inc or INC), ' '.join(libs), *[open(s, 'rb').read() for s in srcs])
    out = os.path.join(BUILD, name + '-' + key)
    if os.path.exists(out):
        return out
    def obj(src):
        k = sha(tree_hash(), cxx, ' '.join(flags), ' '.join(extra_inc), ' '.join(inc or INC), src, open(src, 'rb').read())
        o = os.path.join(BUILD, os.path.basename(src) + '-' + k + '.o')
        with _objlock:
            lk = _objlocks.setdefault(o, threading.Lock())
        with lk:
            if not os.path.exists(o):
                tmp = o[:-2] + '.tmp%d.o' % os.getpid()
                _cc([cxx] + flags + list(extra_inc) + (INC if inc is None else inc) + ['-c', src, '-o', tmp], name, cxx, flags, timeout)
                os.replace(tmp, o)
        return o
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(obj, srcs))
    tmp = out + '.tmp%d' % os.getpid()
    _cc([cxx] + flags + objs + ['-o', tmp] + libs, name, cxx, flags, timeout)
    os.replace(tmp, out)
    return out

def sanity_ok(cxx, flags):
    p = os.path.join(BUILD, 'sanity%d.cpp' % os.getpid())
    open(p, 'w').write(SANITY)
    fl = [f for f in flags if not f.startswith('-D')]
    s = SANITY if 'clang' not in cxx else SANITY.replace('#include <quadmath.h>\n', '')
    open(p, 'w').write(s)
    r = subprocess.run([cxx] + fl + INC + [p, '-o', p + '.out'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    for q in (p, p + '.out'):
        if os.path.exists(q):
            os.unlink(q)
    if r.returncode != 0:
        raise Infra('toolchain does not work: ' + r.stdout.decode('utf8', 'replace')[-2000:])

class Result:
    def __init__(self, prop):
        self.prop = prop
        self.evals = 0
        self.viols = []          # dicts key, case, msg, job
        self.counters = {}
        self.samples = []
        self.distinct = set()
        self.lock = threading.Lock()
        self.notes = []
    def count(self, k, n=1):
        with self.lock:
            self.counters[k] = self.counters.get(k, 0) + n
    def viol(self, key, msg, **kw):
        with self.lock:
            self.viols.append(dict(key=key, msg=msg, **kw))
    def sample(self, s):
        with self.lock:
            if len(self.samples) < 12:
                self.samples.append(s)

def parse_stats(path, res, prefix=''):
    if not os.path.exists(path):
        return False
    ok = False
    with res.lock:
        for line in open(path, errors='replace'):
            t = line.rstrip('\n')
            if t.startswith('E '): res.evals += int(t[2:])
            elif t.startswith('C '):
                _, n, k = t.split(' ', 2)
                k = prefix + k
                res.counters[k] = res.counters.get(k, 0) + int(n)
            elif t.startswith('S ') and len(res.samples) < 12: res.samples.append(prefix + t[2:][:1500])
            elif t.startswith('D '): res.distinct.add((prefix, t[2:]))
            elif t == 'END': ok = True
    os.unlink(path)
    return ok

def crash_key(err):
    m = re.search(r'SUMMARY: (\w+): ([^\n]*)', err)
    if m:
        s = m.group(2)
        s = re.sub(r'0x[0-9a-f]+', '', s)
        s = re.sub(r'\S*/', '', s)
        s = re.sub(r':\d+(:\d+)?', '', s)
        return m.group(1) + ':' + re.sub(r'\s+', '_', s.strip())[:80]
    m = re.search(r'runtime error: ([^\n]*)', err)
    if m:
        return 'UBSan:' + re.sub(r'\s+', '_', re.sub(r'0x[0-9a-f]+|[0-9.e+-]{3,}', 'N', m.group(1)))[:80]
    m = re.search(r'Assertion `([^\n]*)\' failed', err)
    if m:
        return 'assert:' + re.sub(r'\s+', '', m.group(1))[:60]
    m = re.search(r"terminate called[^\n]*\n?[^\n]*what\(\): *([^\n]*)", err)
    if m:
        return 'terminate:' + re.sub(r'\s+', '_', m.group(1))[:60]
    return 'crash'

def run_bin(res, job, binary, cases, seed, tier, env=None, pre=(), nshards=None, timeout=400,
            prefix='', lo=0, maxsec=None):
    """Runs `binary` sharded; folds the reports into res."""
    nsh = nshards or NCPU
    nsh = max(1, min(nsh, cases if cases > 0 else 1))
    e = dict(os.environ); e.update(SAN_ENV); e.update(env or {})
    if pre: e.setdefault('H_HANG_LIMIT', '300')
    def shard(i, to=timeout):
        out = os.path.join(BUILD, 'st-%s-%d-%d' % (os.path.basename(binary), os.getpid(), i))
        cmd = list(pre) + [binary, '--seed', str(seed), '--lo', str(lo), '--hi', str(cases), '--shard', str(i),
               '--nshards', str(nsh), '--tier', tier, '--out', out]
        if maxsec: cmd += ['--maxsec', str(maxsec)]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, start_new_session=True)
        try:
            so, se = p.communicate(timeout=to)
            timed = False
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            so, se = p.communicate()
            timed = True
        return i, p.returncode, so.decode('utf8', 'replace'), se.decode('utf8', 'replace'), timed, out, cmd
    def fold(r, retry=True):
        i, rc, so, se, timed, out, cmd = r
        reported = 0
        for line in so.splitlines():
            m = re.match(r'@VIOL case=(-?\d+) key=(.*?) :: (.*)', line)
            if m:
                reported += 1
                res.viol(prefix + re.sub(r'\s+', '_', m.group(2)), m.group(3), case=int(m.group(1)), job=job, seed=seed, tier=tier)
        m = re.search(r'@DONE cases=\d+ viol=(\d+)', so)
        if m and int(m.group(1)) and not reported:
            raise Infra('the report of %s was not understood: %s' % (job, so[:500]))
        if timed:
            if retry:
                res.notes.append('shard %d of %s timed out, repeated alone' % (i, job))
                return fold(shard(i, timeout * 2), False)
            m = re.search(r'@CRASH[^\n]*', so)
            res.viol(prefix + 'hang', 'no termination within %d s (shard %d of %s), twice' % (timeout * 2, i, job), case=-9, job=job, seed=seed, tier=tier)
            return
        done = '@DONE' in so
        m = re.search(r'@HANG kind=(\w+) case=(-?\d+) where=([^\n]*)', so)
        if m:
            w = m.group(3)
            if m.group(1) == 'time':
                res.viol(prefix + 'hang', 'case used more than %s s of processor time (cases take milliseconds) while executing [%s]' % (e.get('H_HANG_LIMIT', '30'), w), case=int(m.group(2)), job=job, seed=seed, tier=tier)
            else:
                res.viol(prefix + 'memory', 'memory grew beyond 3 GB while executing [%s]' % w, case=int(m.group(2)), job=job, seed=seed, tier=tier)
            return
        if rc == 3 and not done:
            raise Infra('oracle self-check failed: ' + se[-800:])
        crash = re.search(r'@CRASH case=(-?\d+) where=([^\n]*)', so)
        if crash or not done:
            if not crash and rc == -9:
                if retry:
                    return fold(shard(i), False)
                raise Infra('shard killed (memory?) ' + ' '.join(cmd))
            if not crash and rc in (126, 127):
                raise Infra('cannot execute: ' + se[-500:])
            case = int(crash.group(1)) if crash else -9
            w = crash.group(2) if crash else ''
            res.viol(prefix + crash_key(se), 'abnormal end rc=%d while executing [%s]: %s' % (rc, w, se[-3000:]), case=case, job=job, seed=seed, tier=tier)
        elif rc == 3:
            raise Infra('oracle self-check failed: ' + se[-800:])
        elif rc not in (0, 1):
            # finished, but a sanitizer reported at exit (leaks, races)
            res.viol(prefix + crash_key(se), 'sanitizer report at exit rc=%d: %s' % (rc, se[-3500:]), case=-9, job=job, seed=seed, tier=tier)
        parse_stats(out, res, prefix)
    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(shard, range(nsh)))
    for r in rs:
        fold(r)

def known_keys(prop):
    ks = {}
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
        if m and m.group(1) == prop:
            ks[m.group(2)] = m.group(3)
    return ks

def main(prop, seed, tier):
    import checks
    spec = checks.SPEC[prop]
    t0 = time.time()
    res = Result(prop)
    try:
        spec['run'](res, seed, tier)
    except CompileError as e:
        res.viol('does-not-compile:' + e.src, 'documented use of the library no longer compiles: ' + e.cmd + '\n' + e.log[:6000], case=-9, job=e.src, seed=seed, tier=tier)
    wall = time.time() - t0
    known = known_keys(prop)
    new, seen_known = [], set()
    for v in res.viols:
        if v['key'] in known:
            seen_known.add(v['key'])
        else:
            new.append(v)
    for k in known: # listed findings are always printed; the probe confirms them
        if k in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
        else:
            res.notes.append('known finding %s was not observed on this run' % k)
    cov = dict(evaluations=res.evals, distinct_nontrivial=len(res.distinct) + len(getattr(res, 'extra_distinct', ())), rule=spec['rule'],
               samples=res.samples[:8] or ['(none)'],
               observed=dict(sorted(res.counters.items())))
    cov.update(getattr(res, 'extra', {}))
    if res.notes:
        cov['notes'] = res.notes
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get('level', 'exploration'), coverage=cov,
              assumptions=spec.get('assumptions', []), wall_s=round(wall, 2), violations=len(new))
    tmp = os.path.join(HERE, 'evidence', '.%s.tmp%d' % (prop, os.getpid()))
    json.dump(ev, open(tmp, 'w'), indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(HERE, 'evidence', prop + '.json'))
    if new:
        os.makedirs(REPLAYS, exist_ok=True)
        byk = {}
        for v in new:
            byk.setdefault(v['key'], []).append(v)
        for n, (k, vs) in enumerate(sorted(byk.items())):
            if n >= 8:
                print('(%d more kinds of violation)' % (len(byk) - n))
                break
            path = os.path.join(REPLAYS, '%s-%s.json' % (prop, sha(k)[:10]))
            json.dump(dict(property=prop, key=k, occurrences=vs[:5], repo=REPO,
                           how='python3 run.py --replay ' + path), open(path, 'w'), indent=1)
            print('  %s: %s' % (k, vs[0]['msg'][:600].replace('\n', ' | ')))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs' % (prop, tier, seed, res.evals, cov['distinct_nontrivial'], wall))
    if res.evals == 0:
        print('error: nothing was evaluated')
        return 2
    return 0

def replay(path):
    import checks
    d = json.load(open(path))
    o = d['occurrences'][0]
    print(json.dumps(o, indent=1)[:4000])
    if o.get('case', -9) >= -1 and o.get('job') in checks.JOBS:
        b = checks.build_job(o['job'])
        e = dict(os.environ); e.update(SAN_ENV)
        c = o['case']
        lo, hi = (c, c + 1) if c >= 0 else (0, 0)
        cmd = [b, '--seed', str(o['seed']), '--lo', str(lo), '--hi', str(hi), '--tier', o.get('tier', 'quick')]
        print(' '.join(cmd)); sys.stdout.flush()
        return subprocess.call(cmd, env=e)
    return 0

if __name__ == '__main__':
    try:
        if sys.argv[1] == '--replay':
            sys.exit(replay(sys.argv[2]))
        if sys.argv[1] == '--setup':
            os.makedirs(BUILD, exist_ok=True)
            sanity_ok('g++', STD + ASAN)
            sanity_ok('clang++', ['-std=gnu++11'])
            print('setup ok')
            sys.exit(0)
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        tier = os.environ.get('VERIF_TIER', 'quick')
        if tier not in ('quick', 'thorough'): tier = 'quick'
        for a in sys.argv[2:]:
            if a in ('quick', 'thorough'): tier = a
        sys.exit(main(sys.argv[1], seed, tier))
    except Infra as e:
        print('error of the check (not a verdict): %s' % e)
        sys.exit(2)
