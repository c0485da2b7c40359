#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is readable)."""
import json, os
U='uncertainties/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[U+f for f in files],
        state=[dict(name=a,meaning=b,where=U+c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=U+b) for a,b in mech],
        observe_at=observe,hook_needed=None)))
p('C01','First-order propagation is right for every computation',
 'After any finite sequence of arithmetic operations, library mathematical functions and user functions with user-supplied derivatives (including repeated, aliased and constant operands), the mean of every first-order variable equals the same computation done on plain numbers. Its standard deviation and variance, its covariance and correlation with every other variable, and its reported derivative with respect to any independent variable equal those of the linearization of the whole computation around the means of the independent variables, up to rounding error of the numeric type.',
 ['programs','inputs'],'every finite straight-line program over variables and constants whose intermediate values stay in the differentiable domain and in range, with any sharing pattern of independent variables between operands',
 'the tests evaluate a few expressions of one or two variables; the merge of dependency maps has many cases (independent/dependent/constant operands, shared/disjoint/interleaved ids, cached/uncached sdev) which appear only in longer programs',
 ['ureal.hpp','math.hpp'],[('unary, binary, nary, binary_assign merge the id -> coefficient maps','ureal.hpp'),('cov, corr, var, grad read them','ureal.hpp')],
 ['n(), s(), var, cov, corr, grad of every live variable'],
 [('id, sdev, sigma','independent id and dependency coefficients of a variable','ureal.hpp')])
p('C02','First-order math functions use the true value and derivatives',
 'For every mathematical function provided for first-order variables and every argument in the interior of its differentiable domain (both signs, all quadrants, and exactly representable special points such as 0 and 1), the mean of the result is the value of the function at the mean(s). The signed derivative with respect to each argument, observed through covariances and reported derivatives, is the true partial derivative of that function there, up to rounding error.',
 ['inputs'],'all functions of the math header x all finite arguments where the function is differentiable and neither value nor derivative overflows',
 'tests compare the standard deviation (hence |derivative|) at one or few positive points per function; signs, other branches and special points are unobserved',
 ['math.hpp'],[('each function passes its value and derivatives to unary/binary','math.hpp')],['mean and covariance with the arguments of the result'])
p('C03','In-place operations equal out-of-place ones; reading never changes a value',
 'Any interleaving of compound assignments (with other variables, with numbers, with temporaries, and with the variable itself as operand) leaves every variable with the mean, standard deviation, dependencies and covariances obtained by the corresponding out-of-place expression followed by assignment. Reading the standard deviation, variance, covariance or formatted text, through a const or non-const access and at any moment of the history, returns values consistent with each other and has no effect on any later result.',
 ['histories','programs'],'all sequences of assignments, compound assignments, self-operations and reads on a set of variables',
 'in-place self-operations and stale caches of the standard deviation need a specific order of read and modify, which tests sample with a couple of sequences',
 ['ureal.hpp','ureal2.hpp'],[('binary_assign with its &x == this branch','ureal.hpp'),('cache of the standard deviation, invalidated by a negative value','ureal.hpp'),('binary_assign for second order','ureal2.hpp')],
 ['n, s, var, cov, grad after every step of twin variables'],[('sdev','cache of the standard deviation when id < 0, coefficient when id > 0','ureal.hpp')])
p('C04','Covariances form a consistent, positive semidefinite bilinear form',
 'For any collection of first- or second-order variables, covariance is symmetric, covariance of a variable with itself is its variance, which is the square of its standard deviation, correlation is covariance divided by the product of the standard deviations and lies in [-1, 1] up to rounding, and first-order covariance is bilinear and vanishes between computations that share no independent variable. Covariance and correlation matrices built from iterators (of any kind, including pointers) or containers have exactly these pairwise values as elements, are positive semidefinite up to rounding, and converting a correlation matrix and standard deviations to a covariance matrix reproduces the covariance matrix.',
 ['inputs','programs'],'all finite collections of variables produced by computations, all orders of arguments, all container and iterator kinds accepted by the documentation',
 'tests check a single matrix of a few variables; algebraic laws are universally quantified over variable pairs and storage cases',
 ['ureal.hpp','ureal2.hpp','stat.hpp'],[('cov with its four cases','ureal.hpp'),('cov_matrix, corr_matrix, corr2cov, nom_vector','stat.hpp')],['cov, corr, var, s and matrices'])
p('C05','Independent variables have unique identities; constants carry none',
 'Every variable constructed with a mean and a non-zero uncertainty, of first or second order and wherever in the program (also during static initialization and in different source files), gets an identity different from that of every other such variable ever created, and is uncorrelated with them. Copies, assignments, numeric conversions and functions of a single variable keep its identity and are reported as independent; results depending on two or more variables are reported as dependent with the invalid id; numbers and variables built from a single number have no identity and never contribute uncertainty or dependency.',
 ['histories','programs'],'all construction/copy/assign/convert/compute histories',
 'a collision or a lost identity needs particular mixes of constructors, types and translation units; tests look at one or two ids',
 ['core.hpp','impl.hpp','ureal.hpp','ureal2.hpp'],[('global atomic counter of ids','impl.hpp'),('isindep and indepid','ureal.hpp'),('isindep and indepid','ureal2.hpp')],['isindep, indepid, cov'],
 [('last_id','last independent id given','impl.hpp')])
p('C06','Safe under threads: unique identities, race-free concurrent reads',
 'Threads that create and compute with their own variables concurrently obtain results equal to those of a sequential run and identities that are all distinct, without data races. Any number of threads may concurrently read (through const access), copy, convert, format and use as operands variables that no thread modifies, including the first use of any library function, without data races and with the same results as a single thread.',
 ['schedules'],'all interleavings of threads calling constructors, const functions and out-of-place operations, including the first (lazily initializing) call',
 'no existing test uses threads',
 ['core.hpp','impl.hpp','ureal.hpp','ureal2.hpp','math.hpp','distr.hpp'],[('std::atomic counter','impl.hpp'),('const overloads that do not touch the cache','ureal.hpp'),('function-local statics','math.hpp')],['happens-before of all accesses; ids; results'])
p('C07','Correlated-variable generator reproduces the requested means and covariances',
 'For every mean vector and every positive definite covariance matrix given as flat storage of matching size, the generated variables have exactly the requested means (in the requested order) and the requested covariance matrix up to rounding, are functions of newly created independent variables only, and depend on at most as many of them as there are variables. For positive semidefinite matrices the result, when one is returned, also has the requested covariance; a matrix with a clearly negative eigenvalue and a size mismatch are always rejected with the documented exceptions, and an empty input gives an empty output.',
 ['inputs'],'all sizes, all positive definite/semidefinite/indefinite symmetric matrices incl. badly scaled and permuted ones, containers and numeric types',
 'pivoting of the decomposition (transpositions) depends on the ordering of the diagonal; tests use a couple of random matrices with a residual threshold',
 ['ureals.hpp'],[('LDLT decomposition, multiplication by L and undoing the transpositions','ureals.hpp')],['nom, cov matrix of the output; exceptions'])
p('C08','Second-order propagation is right for every computation',
 'After any finite sequence of arithmetic operations, library mathematical functions and user functions with user-supplied first and second derivatives, the first-order mean of a second-order variable equals the plain-number computation. The reported first derivatives and second derivatives, pure and mixed and symmetric in the two arguments, with respect to the independent variables equal those of the whole composed function at the means, up to rounding error.',
 ['programs','inputs'],'every straight-line program with any sparsity pattern of gradients and hessians of the operands',
 'existing tests take derivatives of functions of one or two elementary variables; the merge of sparse hessians has cases (missing off-diagonal terms, interleaved ids) that need three or more variables and composed operations',
 ['ureal2.hpp','internal/hessgrad.hpp','math.hpp'],[('unary and binary walk the sparse hessians in order','ureal2.hpp'),('iterators over sparse half hessian','internal/hessgrad.hpp')],['first_order_n, grad, hess'],
 [('hg','gradient, half hessian and moments per independent id','ureal2.hpp')])
p('C09','Second-order math functions use the true value, first and second derivatives',
 'For every mathematical function provided for second-order variables, in both propagation modes, and every argument in the interior of its twice differentiable domain (both signs, all quadrants, special points), the first-order mean of the result is the value of the function. Its first, second and mixed derivatives with respect to the arguments are the true ones, up to rounding error.',
 ['inputs'],'all functions of the math header for second-order variables x all arguments in the smooth domain',
 'tests check derivatives of elementary functions at few points',
 ['math.hpp'],[('each function passes its value, gradient and hessian','math.hpp')],['first_order_n, grad, hess of the result'])
p('C10','Second-order moments are exactly those of the quadratic expansion',
 'For every second-order variable, its bias correction, variance, third and fourth central moments, standard deviation, skewness and kurtosis equal the exact moments of the second-order Taylor polynomial of the computation evaluated on independent random variables having the given moments up to the eighth. The covariance of two second-order variables equals the exact covariance of their two polynomials.',
 ['inputs','programs'],'all numbers of variables, all gradients, all dense or sparse hessians, all skewed/heavy-tailed/bimodal input distributions',
 'the closed formulas have about a hundred terms, many of which vanish for symmetric distributions, few variables or sparse hessians; the tests exercise up to two or three variables of common distributions or compare to Monte Carlo within its noise',
 ['ureal2.hpp','internal/moments.hpp'],[('compute_mom and compute_c2 sums','internal/moments.hpp'),('centering of the moments','ureal2.hpp')],['m(1..4), s, skew, kurt, var, cov'])
p('C11','The two propagation modes differ exactly by the sign of the mean correction',
 'For every computation the reported mean is the first-order mean plus the bias correction in the mean-propagation mode and minus it in the unbiased-estimate mode. The first-order mean, the correction itself, every central moment, covariance, first and second derivative and identity are the same in both modes, before and after conversion between modes.',
 ['programs','inputs'],'all computations replayed in both modes with the same input distributions',
 'tests use both modes only with shared code paths on single operations',
 ['ureal2.hpp','core.hpp'],[('n() with the sign depending on the mode','ureal2.hpp'),('explicit conversion between modes','ureal2.hpp')],['n, first_order_n, m, s, cov, grad, hess in the two modes'])
p('C12','Only realizable moments are accepted when checking is on',
 'When checking is enabled, constructing a second-order variable from moments (central or standardized) succeeds for the moments of every well-conditioned actual distribution and throws the documented exception for every sequence that no distribution has by a clear margin, and for a negative standard deviation; a positive threshold only enlarges the accepted set, by an amount that vanishes with the threshold, and a negative threshold disables the check. An accepted variable reports exactly the moments it was given, and its derivative with respect to itself is one.',
 ['inputs'],'all moment sequences, in both constructor forms, all thresholds, scales of sigma where all the moments are normal numbers',
 'tests check a handful of named distributions and a few wrong sequences',
 ['ureal2.hpp','internal/checkmoments.hpp'],[('positive semidefiniteness of the Hankel matrix','internal/checkmoments.hpp'),('constructors standardizing moments','ureal2.hpp')],['exception or m(1..4) of x and of powers of x'])
p('C13','Named distributions have their exact first eight moments',
 'For all valid parameters the normal, chi-square and uniform constructors, in every numeric type and mode, give a new independent variable with the exact mean, standard deviation and third to eighth central moments of that distribution; higher ones are observed through the moments of its square. Invalid parameters (negative width, negative degrees of freedom, reversed interval) throw the documented exception, and degenerate parameters (zero width, zero degrees of freedom) give a variable without uncertainty.',
 ['inputs'],'all parameters in range, numeric types and propagation modes',
 'tests compare low moments at one or few parameter values; moments above the fourth are used only by nonlinear propagation',
 ['distr.hpp'],[('tables of standardized moments','distr.hpp')],['n, s, m(n) of x and of x*x; exceptions'])
p('C14','Formatting is faithful: digits, rounding, alignment, sign, exponent',
 'For every finite mean and positive finite standard deviation, whatever their ratio, and every number of digits greater than one, the text consists of mean, separator and standard deviation with an optional common power of ten, where both are the correctly rounded values (within half a unit of the last digit, up to rounding error), their last digits have the same decimal position, the sign is that of the mean, and the number of digits of the standard deviation follows the documented (possibly fractional) rule. Values without uncertainty or non-finite are written to six digits or as nan/inf with sign; the member function, the free function and the stream operator agree for every supported numeric type; fewer than one digit is rejected with the documented exception.',
 ['inputs'],'all pairs (mean, standard deviation) over the whole range of magnitudes, digit counts and numeric types',
 'the tests list some tens of pairs; rounding that carries to a new digit, sign without uncertainty, extreme magnitudes and exponent ties are particular values',
 ['io.hpp','impl.hpp','core.hpp'],[('ndigits, mantissa, exponent and insert_dot','io.hpp'),('insert_dot and format_exp','impl.hpp')],['the string'])
p('C15','Function factories apply the given or documented numerical derivatives',
 'A function object built by a factory from a function and explicit derivatives gives the value of the function at the first-order means and propagates with exactly those derivatives, each attached to the right argument. One built without some derivatives uses the documented finite-difference formula with the given or default step, so that its result equals the documented formula up to rounding and approaches the true derivative; function objects are reusable, copyable and independent of the lifetime of what they were built from.',
 ['inputs','programs'],'all user functions, arguments, steps and factory overloads, for both orders and modes',
 'tests build one or two functions at one point, often symmetric in the arguments',
 ['functions.hpp'],[('uunary, ubinary, uunary2, ubinary2 overloads','functions.hpp')],['value, grad, hess of the result; points at which the user function is called'])
p('C16','No undefined behaviour, memory error, failed assertion or leak',
 'No valid use of the documented interface (any program, any container operation on variables, formatting of representable values, any numeric type) performs an out-of-bounds or use-after-free access, reads uninitialized values, violates iterator or language rules, fails an internal assertion, or leaks memory. Results never depend on the previous contents of memory.',
 ['programs','inputs','histories'],'all valid API histories incl. reallocation, move, swap, self-assignment and destruction in any order',
 'the tests run without sanitizers and with benign sequences',
 ['ureal.hpp','ureal2.hpp','internal/hessgrad.hpp','internal/moments.hpp','io.hpp','ureals.hpp','stat.hpp','distr.hpp'],[('map iterators walked in parallel','internal/hessgrad.hpp'),('moments storage left uninitialized until assigned','internal/hessgrad.hpp'),('assertions in iterators','internal/hessgrad.hpp')],['sanitizer, memcheck and debug-iterator reports; results under memory poisoning'])
p('C17','Conversions between numeric types and modes preserve everything',
 'Converting a variable to another numeric type or propagation mode and back, implicitly or explicitly, keeps mean, moments, derivatives, identity and independence up to the rounding of the narrower type. All covariances with other variables, converted or not, are kept as well, for independent, dependent and constant variables at any point of a computation, and conversion commutes with computing up to that rounding.',
 ['inputs','programs'],'all pairs of types and modes, all variables produced by programs',
 'tests convert one or two variables between two types',
 ['ureal.hpp','ureal2.hpp','internal/hessgrad.hpp'],[('conversion operator','ureal.hpp'),('explicit converting constructor and conversion operator','ureal2.hpp'),('conversion of stored maps','internal/hessgrad.hpp')],['moments, derivatives, ids and covariances before and after'])
p('C18','Operations have value semantics: operands and copies are never affected',
 'Every operation other than assignment to a variable leaves all its operands, and every other live variable, with unchanged mean, moments, dependencies and identity. A copy, assigned, moved-to, swapped or mean-changed variable has exactly the content of its source, keeps full correlation with it, and is not affected by later changes or destruction of the source; self-assignment changes nothing.',
 ['histories','programs'],'all interleavings of operations, copies, moves, swaps, self-assignments, container growth and destruction',
 'tests observe only the result, not the operands, after an operation',
 ['ureal.hpp','ureal2.hpp','internal/hessgrad.hpp'],[('operands taken by const reference, results built in new objects','ureal.hpp'),('change_nom','ureal.hpp'),('moments are owned by each variable','internal/hessgrad.hpp')],['fingerprints of all live variables around every operation'])
p('C19','Failures are reported by the documented exceptions and have no side effects',
 'Every documented misuse (negative standard deviation, invalid moments, derivative with respect to a variable that is not independent and non-trivial, mismatched sizes, invalid digits, invalid distribution parameters) throws exactly the documented exception type whatever the other arguments. After a failure of any out-of-place operation, including an exception thrown by a user function or an exhausted memory at any allocation, all variables are unchanged and usable, nothing is leaked and the program is not terminated.',
 ['fault_sequences','inputs'],'all documented misuse cases x all argument values; memory exhaustion at every allocation of every operation',
 'tests trigger some exceptions once; no test injects faults',
 ['ureal.hpp','ureal2.hpp','ureals.hpp','stat.hpp','io.hpp','distr.hpp','functions.hpp'],[('throw statements before any modification','ureal.hpp'),('noexcept functions that must not allocate','ureal2.hpp')],['exception types, fingerprints of variables, live allocations'])
p('C20','Results have the precision of the chosen numeric type',
 'With any supported numeric type (float, double, long double, multiprecision numbers with or without expression templates, user-defined types) all means, moments, derivatives, covariances and formatted digits are accurate to the precision of that type and never to that of a narrower one. The library needs from the type only value semantics, arithmetic and the mathematical functions, and never reads a value that was neither assigned nor value-initialized.',
 ['inputs','programs','configurations'],'all numeric types x all programs',
 'tests instantiate other types on a few expressions with thresholds of double precision',
 ['ureal.hpp','ureal2.hpp','math.hpp','distr.hpp','io.hpp','functions.hpp'],[('literals converted to Real, functions found by argument dependent lookup','math.hpp')],['results in extended precision'])
p('C21','Storage is sparse and allocation is bounded as promised',
 'Constructing, copying, assigning, reading and applying one-argument functions to independent first-order variables performs no heap allocation. In-place accumulation into a first-order variable allocates an amount bounded by the number of newly introduced independent variables, whatever the number already accumulated; storage of a first-order result is proportional to the number of distinct variables it depends on, second-order storage to the number of variables and of pairs that actually interact, and all of it is released on destruction.',
 ['programs','histories'],'all accumulation lengths and operation mixes, counted per allocation rather than timed',
 'tests never observe allocation; benchmarks only print times',
 ['ureal.hpp','ureal2.hpp','internal/hessgrad.hpp'],[('independent variable optimization','ureal.hpp'),('binary_assign updates the map in place','ureal.hpp'),('skipping of missing off-diagonal terms','internal/hessgrad.hpp')],['operator new/delete event log'])
p('C22','Behaviour does not depend on how the headers are compiled',
 'The library gives the same results, up to rounding, and the same text in every supported configuration: compiler, optimization level, assertions on or off, language standard from C++11 on, with or without externally instantiated templates, headers included in any order or alone where documented, one or many source files with the special header in exactly one. Every documented function is usable in each configuration.',
 ['configurations','programs'],'the product of compilers, standards, optimization levels, macros, header orders and splits in translation units',
 'tests use a single configuration without optimization',
 ['core.hpp','impl.hpp','ureal.hpp','ureal2.hpp','io.hpp','math.hpp','stat.hpp','functions.hpp','ureals.hpp','distr.hpp'],[('extern templates under macros','impl.hpp'),('non-template definitions only in the special header','impl.hpp')],['event logs of the same program across configurations'])
path=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(path,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
import re
for x in P:
    assert len(x['title'])<=80,x['id']
    n=len(re.findall(r'[.](?= [A-Z]|$)',x['statement']))
    assert n<=3,(x['id'],n)
print(len(P))
