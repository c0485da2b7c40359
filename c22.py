"""C22: the same program compiled in many configurations; its logs are compared."""
import os, random, subprocess, hashlib, time
from concurrent.futures import ThreadPoolExecutor
import run as R

HEADERS = ['core', 'ureal', 'ureal2', 'math', 'io', 'stat', 'functions', 'distr', 'ureals', 'impl']
MULTI = ['c22main.cpp', 'c22a.cpp', 'c22b.cpp', 'c22c.cpp', 'c22p.cpp', 'implonly.cpp']
ONE = ['c22one.cpp']
B = ['-w', '-DH_NO_EXTERN', '-DH_NO_QUAD']
EX1, EX2 = '-DUNCERTAINTIES_EXTERN_UDOUBLE', '-DUNCERTAINTIES_EXTERN_UDOUBLE2'
NOEIGEN = ['-I' + R.REPO, '-I' + R.H]
# name, compiler, flags, sources
CONF = [
    ('g++ c++11 -O0', 'g++', ['-std=c++11', '-O0'], ONE),
    ('g++ c++11 -O2 NDEBUG', 'g++', ['-std=c++11', '-O2', '-DNDEBUG'], ONE),
    ('g++ c++20 -O3, headers in another order', 'g++', ['-std=c++20', '-O3', '-DC22_REV'], ONE),
    ('g++ c++17 -O2 NDEBUG, external templates, many files', 'g++', ['-std=c++17', '-O2', '-DNDEBUG', EX1, EX2], MULTI),
    ('g++ c++14 -O1, external UReal, pedantic', 'g++', ['-std=c++14', '-pedantic-errors', '-O1', EX1], ONE),
    ('g++ c++11 -Os NDEBUG, external UReal2, headers in another order', 'g++', ['-std=c++11', '-Os', '-DNDEBUG', '-DC22_REV', EX2], ONE),
    ('clang++ c++11 -O0', 'clang++', ['-std=c++11', '-O0'], ONE),
    ('clang++ c++17 -O2 NDEBUG, many files, headers in another order', 'clang++', ['-std=c++17', '-O2', '-DNDEBUG', '-DC22_REV'], MULTI),
    ('clang++ c++20 -O2, external templates', 'clang++', ['-std=c++20', '-O2', EX1, EX2], ONE),
]
MORE = [
    ('%s %s %s%s%s%s' % (cxx, std, o, ' NDEBUG' if nd else '', ', '.join([''] + [e.split('_', 1)[1] for e in ex]), ', headers in another order' if rev else ''), cxx,
     ['-std=' + std, o] + (['-DNDEBUG'] if nd else []) + ex + (['-DC22_REV'] if rev else []), src)
    for n, (cxx, std, o, nd, ex, rev, src) in enumerate([
        (cxx, std, o, (i + j) % 2, [[], [EX1], [EX2], [EX1, EX2]][(i + j + k) % 4], (i + k) % 2, MULTI if (i + j + k) % 3 == 0 else ONE)
        for i, cxx in enumerate(['g++', 'clang++']) for j, std in enumerate(['c++11', 'c++14', 'c++17', 'c++20', 'c++23']) for k, o in enumerate(['-O0', '-O1', '-O2', '-O3', '-Os'])])
]

def fail(res, key, msg, conf):
    res.viol(key, msg, case=-9, job=conf, seed=0, tier='')

def build(res, conf):
    name, cxx, flags, srcs = conf
    try:
        return R.compile_('c22', srcs, flags + B, [], cxx)
    except R.CompileError as e:
        fail(res, 'does-not-compile:' + name, 'a documented use does not compile or link with ' + e.cmd + '\n' + e.log[:6000], name)

def execute(res, name, binary, progs, out):
    try:
        p = subprocess.run([binary, out, progs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    except subprocess.TimeoutExpired:
        fail(res, 'hang', name + ' does not terminate', name)
        return None
    lines = open(out, errors='replace').read().splitlines() if os.path.exists(out) else []
    if os.path.exists(out): os.unlink(out)
    if p.returncode != 0 or not lines or lines[-1] != 'END':
        fail(res, 'abnormal-end', '%s: rc=%d after %s: %s' % (name, p.returncode, lines[-2:], p.stdout.decode('utf8', 'replace')[-800:]), name)
        return None
    return [l.split('\t') for l in lines[:-1]]

def num(t):
    return float(t)

def compare(res, ref, log, name, rname):
    nn = nt = bad = 0
    for a, b in zip(ref, log):
        if a[:2] != b[:2]:
            fail(res, 'different-events', '%s: %s; %s: %s' % (rname, a, name, b), name)
            return
        if a[0] == 'T':
            nt += 1
            if a[2:] != b[2:]:
                bad += 1
                if bad < 20: fail(res, 'text:' + a[1], 'text of %s: "%s" with %s, "%s" with %s' % (a[1], a[2], rname, b[2], name), name)
        else:
            nn += 1
            x, y, s = float(a[2]), float(b[2]), float(a[3])
            rel = 2e-5 if a[1].startswith('float:') else 1e-10
            if not (abs(x - y) <= rel * (s + abs(x)) or x == y or (x != x and y != y)):
                bad += 1
                if bad < 20: fail(res, 'number:' + a[1].split(' ')[0], '%s: %s with %s, %s with %s' % (a[1], a[2], rname, b[2], name), name)
    if len(ref) != len(log):
        fail(res, 'different-events', '%d events with %s, %d with %s' % (len(ref), rname, len(log), name), name)
    res.count('numbers compared', nn); res.count('texts compared', nt)
    with res.lock:
        res.evals += nn + nt

def syntax(res, what, cxx, flags, text, inc):
    k = R.sha(R.tree_hash(), what, cxx, *flags, text)
    p = os.path.join(R.BUILD, 'c22s-%s.cpp' % k)
    open(p, 'w').write(text)
    cmd = [cxx, '-w', '-fsyntax-only'] + flags + inc + [p]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    os.unlink(p)
    with res.lock: res.evals += 1
    if r.returncode != 0:
        log = r.stdout.decode('utf8', 'replace')
        R.sanity_ok(cxx, flags)
        if 'Killed' in log or 'internal compiler error' in log: raise R.Infra(log[-1000:])
        fail(res, 'does-not-compile:' + what, '%s with %s:\n%s' % (what, ' '.join([cxx] + flags), log[:4000]), what)

def run(res, seed, tier):
    th = tier == 'thorough'
    rng = random.Random(seed)
    os.makedirs(R.BUILD, exist_ok=True)
    gen = ThreadPoolExecutor(1)
    def genprogs():
        b = R.compile_('c22gen', ['c22gen.cpp'], R.STD + ['-O1', '-DH_NO_EXTERN'], ['-lquadmath'])
        st = os.path.join(R.BUILD, 'c22st-%d' % os.getpid())
        o = subprocess.run([b, '--seed', str(seed), '--lo', '0', '--hi', str(20000 if th else 1500), '--shard', '0', '--nshards', '1', '--tier', tier, '--out', st], stdout=subprocess.PIPE, timeout=600).stdout.decode()
        R.parse_stats(st, res)
        res.evals = 0
        pf = os.path.join(R.BUILD, 'c22progs-%d' % os.getpid())
        ls = [l[6:] for l in o.splitlines() if l.startswith('@PROG ')]
        if not ls: raise R.Infra('no program generated')
        open(pf, 'w').write('\n'.join(ls) + '\n')
        return pf, len(ls)
    progs = gen.submit(genprogs)
    confs = CONF + (MORE if th else rng.sample(MORE, 1))
    pool = ThreadPoolExecutor(R.NCPU)
    bins = [pool.submit(build, res, c) for c in confs]
    others = []
    # first order only, without Eigen
    def noeigen(cxx, flags):
        n = 'first order without Eigen, %s %s' % (cxx, ' '.join(flags))
        try:
            return n, R.compile_('c22n', ONE, flags + B + ['-DC22_ONLY_FIRST'], [], cxx, inc=NOEIGEN)
        except R.CompileError as e:
            fail(res, 'does-not-compile:first order without Eigen', e.cmd + '\n' + e.log[:6000], n)
            return n, None
    ne = [pool.submit(noeigen, 'g++', ['-std=c++11', '-O1', '-pedantic-errors']), pool.submit(noeigen, 'clang++', ['-std=c++17', '-O1', EX1])]
    # each header alone
    E = R.INC
    for h in HEADERS:
        inc = E if h in ('ureal2', 'ureals') else NOEIGEN
        t = '#include <uncertainties/%s.hpp>\n' % h
        for cxx, std in (('g++', 'c++11'), ('clang++', 'c++20')) if not th else [(c, s) for c in ('g++', 'clang++') for s in ('c++11', 'c++14', 'c++17', 'c++20', 'c++23')]:
            others.append(pool.submit(syntax, res, 'header %s alone' % h, cxx, ['-std=' + std], t + t + 'int main() {}\n', inc))
    if th:
        for a in HEADERS:
            for b in HEADERS:
                if a != b:
                    others.append(pool.submit(syntax, res, 'header %s then %s' % (a, b), 'g++', ['-std=c++11'], '#include <uncertainties/%s.hpp>\n#include <uncertainties/%s.hpp>\nint main() {}\n' % (a, b), E))
    # the whole program with the headers in any order
    for k in range(60 if th else 2):
        o = HEADERS[:]
        rng.shuffle(o)
        t = ''.join('#include <uncertainties/%s.hpp>\n' % h for h in o) + '#include "c22one.cpp"\n'
        others.append(pool.submit(syntax, res, 'headers in the order ' + ' '.join(o), ['g++', 'clang++'][k % 2], ['-std=c++11'] + B, t, E))
    # no header defines anything twice: all of them in two files
    pf, np = progs.result()
    logs = []
    for c, f in zip(confs, bins):
        b = f.result()
        if not b: continue
        log = execute(res, c[0], b, pf, os.path.join(R.BUILD, 'c22log-%d' % os.getpid()))
        if log is not None:
            logs.append((c[0], log))
            res.count('configurations')
            for i in range(len(confs)): pass
    # external templates and many files again, with the special header linked first and last
    def relink(c, order):
        name, cxx, flags, srcs = c
        n = name + ', files linked in the order ' + ' '.join(order)
        b = build(res, (n, cxx, flags, order))
        return n, b
    extra = []
    for c in CONF:
        if c[3] is MULTI:
            o = MULTI[:]; rng.shuffle(o)
            for order in (['implonly.cpp'] + MULTI[:-1], o):
                n, b = relink(c, order)
                if b:
                    log = execute(res, n, b, pf, os.path.join(R.BUILD, 'c22log-%d' % os.getpid()))
                    if log is not None:
                        logs.append((n, log)); res.count('link orders')
    for f in ne:
        n, b = f.result()
        if not b: continue
        log = execute(res, n, b, pf, os.path.join(R.BUILD, 'c22log-%d' % os.getpid()))
        if log is not None and logs:
            res.count('first order without Eigen')
            compare(res, [l for l in logs[0][1] if l[1].startswith('double:')], log, n, logs[0][0])
    for f in others:
        f.result()
    res.count('headers alone or in other orders', len(others))
    for n, log in logs[1:]:
        compare(res, logs[0][1], log, n, logs[0][0])
    res.count('programs', np)
    if logs:
        res.count('events of the log', len(logs[0][1]))
        res.extra_distinct = set(l[1] for l in logs[0][1] if not l[1].startswith('program')) | set('conf ' + n for n, l in logs)
        for l in logs[0][1][:3]: res.sample(' '.join(l))
        for n, l in logs[:6]: res.sample('configuration: ' + n)
    os.unlink(pf)
