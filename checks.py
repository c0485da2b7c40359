"""Table of the checks: what each one builds and runs."""
import os
import run as R
from run import STD, ASAN, TSAN, run_bin, compile_

QUAD = ['-lquadmath']
MPFR = ['-lmpfr', '-lgmp']

# name -> how to build a sharded harness binary
JOBS = {}
OPS = ['ops1.cpp', 'ops2e.cpp', 'ops2m.cpp']
def job(name, src, flags, libs=QUAD, cxx='g++'):
    src = src if isinstance(src, list) else [src] + OPS
    JOBS[name] = dict(src=src, flags=flags, libs=libs, cxx=cxx)
def build_job(name):
    j = JOBS[name]
    return compile_(name, j['src'], j['flags'], j['libs'], j['cxx'])

def simple(*jobs):
    """jobs: (name, quick cases, thorough cases[, opts])"""
    def run(res, seed, tier):
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            bins = list(ex.map(lambda j: build_job(j[0]), jobs))
        for j, b in zip(jobs, bins):
            opts = dict(j[3]) if len(j) > 3 else {}
            opts.setdefault('timeout', 600 if tier == 'quick' else 6000)
            opts.setdefault('maxsec', 150 if tier == 'quick' else 1500)
            run_bin(res, j[0], b, j[2] if tier == 'thorough' else j[1], seed, tier, **opts)
    return run

SPEC = {}
OPT = STD + ['-O1'] + ASAN

job('c01', 'c01.cpp', OPT)
SPEC['C01'] = dict(run=simple(('c01', 60000, 3000000)),
    rule='random straight-line programs over independent, constant and dependent variables; every intermediate value judged against quad precision shadow differentiation; distinct = distinct (instruction sequence, inputs) hash; all have >= 2 instructions and at least one variable',
    technique='runtime oracle: shadow automatic differentiation in quad precision over generated programs, under ASan+UBSan',
    note='every observed mean, sdev, variance, covariance, correlation and gradient of every executed program agreed with an independent quad precision model; trusts the model and the sampled programs')

job('c02', ['c02.cpp'], OPT + ['-DORDER=1'])
SPEC['C02'] = dict(run=simple(('c02', 80000, 1500000)),
    rule='one distinct case = (function, bit pattern of the arguments, numeric type); all have a non-zero standard deviation in at least one argument; special points 0, 1, integers and a full grid of sign combinations included',
    technique='runtime oracle: 8th order numerical differentiation in quad precision of every function, under ASan+UBSan',
    note='value, sdev, covariances and gradients of each of the 26 one-argument and 11 two-argument operations at every sampled argument match numerical derivatives; trusts libquadmath for the values of the functions')

job('c09e', ['c02.cpp'], OPT + ['-DORDER=2', '-DPART=1'])
job('c09m', ['c02.cpp'], OPT + ['-DORDER=2', '-DPART=2'])
SPEC['C09'] = dict(run=simple(('c09e', 30000, 600000), ('c09m', 30000, 600000)),
    rule=SPEC['C02']['rule'],
    technique='runtime oracle: 8th order numerical first, second and mixed differentiation in quad precision of every function, both propagation modes, under ASan+UBSan',
    note='as C02, for first_order_n, grad and hess of UReal2 in both modes')

job('c08', 'c08.cpp', OPT)
SPEC['C08'] = dict(run=simple(('c08', 40000, 2000000)),
    rule=SPEC['C01']['rule'] + '; all first, second and mixed derivatives in both argument orders',
    technique='runtime oracle: dense second-order shadow automatic differentiation in quad precision over generated programs, under ASan+UBSan',
    note='first_order_n, grad and hess of every executed program agreed with an independent dense model; trusts the model and the sampled programs')

job('c03', 'c03.cpp', OPT)
SPEC['C03'] = dict(run=simple(('c03', 30000, 2000000)),
    rule='random histories biased to compound assignments, with random reads in between; distinct = distinct (instruction sequence, inputs) hash; plus a complete table of 8 states of the left operand x 4 operators x 6 relations of the right operand x 4 kinds of previous read x 3 types',
    technique='runtime oracle: twin execution (in-place with interleaved reads vs out-of-place without reads) with before/after state monitors, under ASan+UBSan',
    note='every history executed agreed with its twin in mean, sdev (also as cached by reads), variance and covariances; UReal2 through binary_assign')

job('c04', 'c04.cpp', OPT)
SPEC['C04'] = dict(run=simple(('c04', 12000, 800000)),
    rule='collections of 2-13 variables produced by random programs (first order double and float, second order in both modes); distinct = distinct program hash',
    technique='runtime monitor of algebraic laws (symmetry, bilinearity, Cauchy-Schwarz, positive semidefiniteness, element-wise identity of matrices), under ASan+UBSan',
    note='every collection executed satisfied every law within rounding; matrices are compared bit by bit with the pairwise functions for vector, deque, list, pointer, const and reverse iterators')

# the file with impl.hpp is linked last, first and in the middle: the order of
# static initialization changes
job('c05', ['c05.cpp', 'c05c.cpp', 'c05d.cpp', 'c05b.cpp', 'implonly.cpp'] + OPS, OPT)
job('c05r', ['implonly.cpp', 'c05c.cpp', 'c05d.cpp', 'c05b.cpp'] + OPS + ['c05.cpp'], OPT)
job('c05w', ['c05w.cpp'], STD + ['-O2'])
def run_c05(res, seed, tier):
    import threading
    err = []
    def wide():
        try: run_bin(res, 'c05w', build_job('c05w'), 1, seed, tier, nshards=1, env={'H_HANG_LIMIT': '100'}, prefix='wide:')
        except BaseException as e: err.append(e)
    t = threading.Thread(target=wide)
    t.start()
    try: simple(('c05', 24000, 1500000), ('c05r', 2000, 100000))(res, seed, tier)
    finally: t.join()
    if err: raise err[0]
SPEC['C05'] = dict(run=run_c05,
    rule='random programs judged after every instruction with a dependency-set model, plus creation by every constructor from three source files, before and after main starts; distinct = distinct program hash',
    technique='runtime monitor: set of all identities ever handed out in the process and dependency-set model, static initialization in both link orders, under ASan+UBSan',
    note='no identity repeated among all those observed in each process; every executed result was reported independent/dependent/constant as its dependency set requires (cancelling coefficients are not judged)')

job('c10', 'c10.cpp', OPT)
SPEC['C10'] = dict(run=simple(('c10', 24000, 1500000)),
    rule='random programs (<= 6 variables) and random sparse or dense quadratic forms (<= 7 variables) over random discrete distributions (2-5 points, also with the first nine moments of a normal); distinct = distinct program or form',
    technique='runtime oracle: exact moments of the second-order polynomial by enumeration of the product distribution in long double, under ASan+UBSan',
    note='m(1..4), var, s, skew, kurt and all pairwise covariances agreed with enumeration, which uses none of the moment formulas; trusts that the moments of a quadratic polynomial depend on moments up to the eighth only')

job('c11', 'c11.cpp', OPT)
job('c11f', ['c11.cpp'], OPT + ['-DREAL=float', '-DH_NO_EXTERN'])
SPEC['C11'] = dict(run=simple(('c11', 16000, 1000000), ('c11f', 6000, 300000)),
    rule=SPEC['C01']['rule'] + '; every program executed in both modes with shared identities',
    technique='runtime monitor: lock-step execution of the same program in both propagation modes, with conversions in between, under ASan+UBSan',
    note='after every instruction all the observables but n() were equal in both modes and n() differed from first_order_n() by plus or minus m(1)')

job('c17', ['c17.cpp'], OPT + ['-DH_NO_EXTERN'])
job('c17e', ['c17.cpp'], OPT + ['-DH_NO_EXTERN', '-DSECOND=est'])
job('c17m', ['c17.cpp'], OPT + ['-DH_NO_EXTERN', '-DSECOND=mean'])
SPEC['C17'] = dict(run=simple(('c17', 12000, 800000), ('c17e', 5000, 300000), ('c17m', 5000, 300000)),
    rule=SPEC['C01']['rule'] + '; every program executed in float, double and long double with shared identities, registers replaced by converted ones at random points',
    technique='runtime monitor: round-trip and commutation of conversions during lock-step execution in three numeric types, judged with a quad precision shadow, under ASan+UBSan',
    note='round trips through wider types are exact, narrowing keeps n, derivatives, covariances and identities to float precision, and results of computations on converted variables agree with the model')

job('c18', 'c18.cpp', OPT + ['-DPART=1'])
job('c18s', 'c18.cpp', OPT + ['-DPART=2'])
SPEC['C18'] = dict(run=simple(('c18', 40000, 2500000), ('c18s', 10000, 700000)),
    rule='random histories of up to 30 operations (copies, moves, swaps, containers, captures, destruction, reads, computations, in-place computations) over up to 7 live variables; distinct = distinct history and first input',
    technique='runtime monitor: complete fingerprint of every live variable taken around every operation and compared with a model, under ASan+UBSan',
    note='no operation changed any variable it does not assign to, and every copied, moved or swapped variable had exactly the fingerprint of its source')

job('c13', ['c13.cpp'], OPT)
SPEC['C13'] = dict(run=simple(('c13', 40000, 2500000)),
    rule='random parameters over many decades for normal, chi-square (all k to 60 exhaustively) and uniform, 3 numeric types x 2 modes; distinct = distinct (type, distribution, parameters)',
    technique='runtime oracle: exact quad precision moments (chi-square through cumulants), eighth moment observed through m(4) of quadratic functions, under ASan+UBSan',
    note='all eight moments of every sampled distribution matched to a few tens of ulps of the numeric type; invalid parameters were rejected')

job('c12', ['c12.cpp'], OPT)
SPEC['C12'] = dict(run=simple(('c12', 30000, 4000000)),
    rule='random mixtures of points, normals and uniforms, 60% perturbed towards or past the border of realizability; both constructors, 13 thresholds each; 3 numeric types; distinct = distinct moments',
    technique='runtime oracle: eigenvalues of the moment matrix in quad precision (Jacobi) decide acceptance; read back of all the moments, under ASan+UBSan',
    note='every decision farther than rounding from the border was the right one, and every accepted sequence was read back; nothing is claimed closer to the border')

job('c07', ['c07.cpp'], OPT)
SPEC['C07'] = dict(run=simple(('c07', 120000, 2000000)),
    rule='random spectra (condition to 1e10), scales, permutations, integer factors, semidefinite and indefinite matrices, wrong sizes; n = 1-40; 3 numeric types; all the 120 pivoting orders of n = 5; distinct = distinct input',
    technique='runtime oracle: read back of means and covariances, eigenvalues in long double decide acceptance, under ASan+UBSan and Eigen assertions',
    note='every definite matrix was accepted and reproduced, every clearly indefinite one and every mismatch rejected; matrices within rounding of the border may do either but what is returned is right')

job('c14', ['c14.cpp'], OPT)
SPEC['C14'] = dict(run=simple(('c14', 200000, 8000000)),
    rule='random (type, mean, standard deviation, digits, separator) biased to carries, ties and powers of ten over the whole exponent range, plus the grid of all three-digit mantissas x 7 exponents x 6 digit settings x 6 means; distinct = distinct inputs',
    technique='runtime oracle: parse-back of the text in quad precision, and agreement monitors between the interfaces, under ASan+UBSan with assertions on',
    note='every text parsed back to correctly rounded aligned numbers with the documented number of digits')

job('c15', ['c15.cpp'], OPT + ['-DH_NO_EXTERN'])
job('c15l', ['c15.cpp'], OPT + ['-DH_NO_EXTERN', '-DREAL=long double'])
job('c15f', ['c15.cpp'], OPT + ['-DH_NO_EXTERN', '-DREAL=float'])
SPEC['C15'] = dict(run=simple(('c15', 300000, 4000000), ('c15l', 60000, 1000000), ('c15f', 60000, 1000000)),
    rule='one case = one factory (6 first order, 9 second order, both modes), random arbitrary functions with unrelated derivative functions, random or default step, independent, dependent, aliased or constant arguments; distinct = distinct (factory, function, arguments, step)',
    technique='runtime monitor: derivatives read back from the result and compared with the given ones or with the documented difference formula evaluated in quad precision; owned captured state and destroyed sources under ASan+UBSan',
    note='every function object attached exactly the given derivatives, or those of the documented formula, to the right argument, also through copies and after destruction of its sources')

job('c06t', 'c06.cpp', STD + ['-O1'] + TSAN + ['-pthread'])
job('c06n', 'c06.cpp', STD + ['-O2', '-pthread'])
def run_c06(res, seed, tier):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        t, n = list(ex.map(build_job, ['c06t', 'c06n']))
    th = tier == 'thorough'
    # many short processes: the first use of anything happens once in each
    for k in range(60 if th else 4):
        run_bin(res, 'c06t', t, 40, seed * 1000 + k, tier, nshards=8, timeout=300, prefix='tsan:', env={'H_HANG_LIMIT': '300'})
    run_bin(res, 'c06t', t, 20000 if th else 400, seed, tier, nshards=4, timeout=900 if not th else 6000, maxsec=1500 if th else 60, prefix='tsan:', env={'H_HANG_LIMIT': '300'})
    for k in range(60 if th else 4):
        run_bin(res, 'c06n', n, 24, seed * 1000 + k, tier, nshards=8, timeout=300, prefix='stress:')
    run_bin(res, 'c06n', n, 20000 if th else 600, seed, tier, nshards=2, timeout=900 if not th else 6000, maxsec=1500 if th else 60, prefix='stress:')
SPEC['C06'] = dict(run=run_c06,
    rule='one case = 2-8 threads released together: first use of all the library functions (once per process), creation storms, whole programs on own variables, or reads of shared variables; distinct = distinct interleavings of creations (by identity order), programs or workloads',
    technique='ThreadSanitizer and an uninstrumented stress build, with monitors of identity uniqueness and of equality with sequential results',
    note='no race was reported and every concurrent result equalled the sequential one on the schedules executed; races that need a schedule never produced are not excluded, but happens-before detection does not need the racy timing')

GLIBCXX_DEBUG = ['-D_GLIBCXX_DEBUG', '-D_GLIBCXX_ASSERTIONS', '-DH_NO_EXTERN', '-fsanitize=float-cast-overflow']
job('c16d', ['c16.cpp'], OPT + GLIBCXX_DEBUG)
job('c16f', ['c16.cpp'], OPT + GLIBCXX_DEBUG + ['-DREAL=float'])
job('c16l', ['c16.cpp'], OPT + ['-DH_NO_EXTERN', '-fno-sanitize=vptr,null,alignment,object-size,pointer-overflow', '-DREAL=long double'])
job('c16v', ['c16.cpp'], STD + ['-O1', '-DH_NO_EXTERN'])
job('c16p', ['c16.cpp'], STD + ['-O2', '-DH_NO_EXTERN', '-DH_POISON'])
job('c16q', ['c16.cpp'], STD + ['-O0', '-DH_NO_EXTERN', '-DH_POISON', '-DREAL=float'])
VALGRIND = ['valgrind', '-q', '--error-exitcode=95', '--leak-check=full', '--errors-for-leak-kinds=definite,possible', '--expensive-definedness-checks=yes']
def run_c16(res, seed, tier):
    from concurrent.futures import ThreadPoolExecutor
    th = tier == 'thorough'
    names = ['c16d', 'c16l', 'c16v', 'c16p', 'c16q'] + (['c16f'] if th else [])
    with ThreadPoolExecutor(6) as ex:
        b = dict(zip(names, ex.map(build_job, names)))
    for n in ['c16d', 'c16l'] + (['c16f'] if th else []):
        run_bin(res, n, b[n], 400000 if th else 4000, seed, tier, timeout=6000 if th else 500, maxsec=1500 if th else 100, prefix=n + ':')
    run_bin(res, 'c16v', b['c16v'], 40000 if th else 240, seed, tier, pre=VALGRIND, timeout=6000 if th else 500, maxsec=1500 if th else 100, prefix='valgrind:')
    for n in ('c16p', 'c16q'):
        # whole processes with different contents of unused memory
        for first in (0, 255, 127):
            run_bin(res, n, b[n], 100000 if th else 2000, seed, tier, env={'H_POISON_FIRST': str(first)}, timeout=6000 if th else 500, prefix='%s-%d:' % (n, first))
        sets = [{x for p, x in res.distinct if p == '%s-%d:' % (n, f)} for f in (0, 255, 127)]
        res.count('results compared between processes with different poison', len(sets[0]))
        if not (sets[0] == sets[1] == sets[2]):
            res.viol('depends-on-memory', '%s: %d, %d results differ between processes whose unused memory is filled with different bytes' % (n, len(sets[0] ^ sets[1]), len(sets[0] ^ sets[2])), case=-9, job=n, seed=seed, tier=tier)
SPEC['C16'] = dict(run=run_c16,
    rule='random programs, container histories, formatting, rejected calls, conversions, factories, low level calls, in three numeric types; distinct = distinct program hash or result digest (per build)',
    technique='ASan, UBSan (with float casts), LeakSanitizer, debug containers and assertions; valgrind memcheck; poisoned heap and stack with comparison of the bits of all the results',
    note='no report on any execution, and results bit by bit independent of the previous contents of heap and stack')

WRAP = ['-lquadmath', '-Wl,--wrap=malloc', '-Wl,--wrap=free']
for k_, t_ in ((1, 'double'), (2, 'float'), (3, 'long double')):
    job('c19_%d' % k_, ['c19.cpp'], OPT + ['-DH_NO_EXTERN', '-DPART=%d' % k_], WRAP)
SPEC['C19'] = dict(run=simple(('c19_1', 1000, 150000), ('c19_2', 300, 80000), ('c19_3', 300, 80000)),
    level='fault_enumeration',
    rule='distinct = distinct (operation, index of the failed allocation, single or persistent failure) or (factory, index of the throwing call)',
    technique='fault injection: every allocation and every call of a user function made to fail in turn, with monitors of exception type, live memory, operands; table of documented misuse with arbitrary other arguments; under ASan+UBSan',
    note='every injected failure was reported by the right exception, without leaks, and left all the operands unchanged and usable')

job('c21', ['c21.cpp'], OPT + ['-DH_NO_EXTERN'])
job('c21f', ['c21.cpp'], STD + ['-O2', '-DH_NO_EXTERN', '-DREAL=float'])
job('c21l', ['c21.cpp'], STD + ['-O2', '-DH_NO_EXTERN', '-DREAL=long double'])
SPEC['C21'] = dict(run=simple(('c21', 16000, 800000), ('c21f', 8000, 400000), ('c21l', 8000, 400000)),
    rule='distinct = distinct (function, mean), (in-place operation, new and accumulated variables), program, or sparse structure',
    technique='runtime monitor: counters of operators new and delete around every operation, with an independent model of the dependency structure; one build under ASan+UBSan+LSan',
    note='no allocation on independent variables; allocations of in-place operations and size of every result within a constant of the promised bound; everything released')

MPSTD = [f.replace('gnu++11', 'gnu++14') for f in STD]
job('c20l', ['c20.cpp'], STD + ['-O1', '-DH_NO_EXTERN', '-DPART=1'])
job('c20m', ['c20.cpp'], MPSTD + ['-O1', '-DH_NO_EXTERN', '-DPART=2'], QUAD + MPFR)
job('c20e', ['c20.cpp'], MPSTD + ['-O1', '-DH_NO_EXTERN', '-DPART=3'], QUAD + MPFR)
job('c20n', ['c20.cpp'], STD + ['-O1', '-DH_NO_EXTERN', '-DPART=4', '-ftrivial-auto-var-init=pattern'])
SPEC['C20'] = dict(run=simple(('c20l', 100000, 4000000), ('c20m', 30000, 1000000), ('c20e', 30000, 1000000), ('c20n', 40000, 2000000)),
    rule='random programs, functions at well conditioned points, distributions, correlated generators, numerical derivatives and texts; distinct = distinct (case, inputs)',
    technique='runtime oracle in a wider type (quad for long double, 100 digits for 50 digit numbers with and without expression templates) with tolerances below double precision; instrumented user type which records reads of values never assigned or moved from, with poisoned memory',
    note='every value observed had the precision of its type (within 64 to 300 ulps of the magnitude of the terms for long double, 1e-42 for 50 digits), and the user type saw no use of an indeterminate or moved-from value')

import c22
SPEC['C22'] = dict(run=c22.run,
    rule='distinct = distinct generated program, call of the catalogue, or configuration',
    technique='event logs of the same program (catalogue of all the documented functions and generated programs) recorded in each configuration and compared by an offline checker; compilers as monitors of usability',
    note='the logs of all the configurations executed were the same, numbers up to rounding and texts exactly, and every catalogued use compiled and linked in each')
