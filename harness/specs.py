"""What each check builds and runs, and how many cases."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from vrun import REPO, HERE, ASAN, PLAIN, TSAN, CORES, CheckError

CLANG_ASAN = ['-O2', '-g1', '-DNDEBUG', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=float-divide-by-zero', '-fno-omit-frame-pointer']

def standard(c, spec):
    """Monitor binary with ASan+UBSan; in the thorough tier also clang -O2 and more cases."""
    exe = os.path.join(c.dir, spec['src'])
    c.compile(os.path.join(HERE, spec['src'] + '.cpp'), exe, extra=spec.get('link', ()))
    n = c.cases or spec['cases'][0 if c.quick() else 1]
    if c.replay is not None:
        h = c.replay.get('how') or {}
        k = c.replay.get('case')
        c.run_cases_one(exe, k if k is not None else h.get('first', 0), 1 if k is not None else h.get('count', n))
        return
    c.run_cases(exe, n)
    if not c.quick() and not c.viols:
        exe2 = os.path.join(c.dir, spec['src'] + '-clang')
        c.compile(os.path.join(HERE, spec['src'] + '.cpp'), exe2, cxx='clang++', flags=CLANG_ASAN)
        c.seed += 1000003
        c.run_cases(exe2, n // 2, label='clang -O2 -DNDEBUG: ')
        c.seed -= 1000003

def build_all(c, jobs, violation_on_error=False):
    """jobs: (source, output, flags, extra). Compiles in parallel. If the library itself still builds (base.cpp) but the monitor does not,
    a documented use of the public interface stopped compiling: reported as a violation where the property promises that it compiles."""
    def job(j):
        src, out, flags, extra = j
        return j, c.compile(src, out, flags=flags, extra=extra, must=not violation_on_error)
    with ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(job, jobs))
    bad = [(j, e) for j, e in res if e]
    if bad:
        c.compile(os.path.join(HERE, 'base.cpp'), os.path.join(c.dir, 'base'), flags=PLAIN)   # raises CheckError if the basics do not build
        for j, e in bad:
            c.violation('does not compile: ' + re.sub(r'^\S+:\d+:\d+: *', '', e.split('\n')[0])[:160], e, os.path.basename(j[1]))
    return [j for j, e in res if not e]

def replay_one(c, exes, n, **kw):
    h = c.replay.get('how') or {}
    k = c.replay.get('case')
    for exe in exes:
        if os.path.basename(exe) == h.get('exe') or len(exes) == 1:
            c.run_cases_one(exe, k if k is not None else h.get('first', 0), 1 if k is not None else h.get('count', n), **kw)

def p06(c, spec):
    """Histories under ASan+UBSan+LSan; the same machine under valgrind for uninitialised values."""
    src = os.path.join(HERE, 'p06.cpp')
    exe, vg, cl = [os.path.join(c.dir, x) for x in ('p06', 'p06-valgrind', 'p06-clang')]
    jobs = [(src, exe, ASAN, []), (src, vg, ['-O1', '-g1'], [])]
    build_all(c, jobs)
    if not c.quick(): c.compile(src, cl, cxx='clang++', flags=CLANG_ASAN)
    n = c.cases or spec['cases'][0 if c.quick() else 1]
    vprefix = ['valgrind', '-q', '--error-exitcode=66', '--exit-on-first-error=yes', '--leak-check=no', '--num-callers=16']
    if c.replay is not None:
        h = c.replay.get('how') or {}
        if h.get('exe') == 'p06-valgrind': return replay_one(c, [vg], n, prefix=vprefix, cpu=600, label='valgrind: ')
        return replay_one(c, [exe, cl] if not c.quick() else [exe], n)
    c.run_cases(exe, n)
    if not c.viols:
        before = dict(c.counters)
        c.run_cases(vg, max(14, n // 90), prefix=vprefix, cpu=600, label='valgrind: ')
        c.extra['operations_under_valgrind'] = c.counters.get('operations', 0) - before.get('operations', 0)
    if not c.quick() and not c.viols:
        c.seed += 1000003; c.run_cases(cl, n // 2, label='clang -O2 -DNDEBUG: '); c.seed -= 1000003

def p08(c, spec):
    src = os.path.join(HERE, 'p08.cpp')
    O0 = ['-O0'] + ASAN[1:]
    exes = [os.path.join(c.dir, 'p08-%d' % k) for k in range(6)]
    good = build_all(c, [(src, exes[k], O0, ['-DOPSEL=%d' % k]) for k in (5, 4, 0, 1, 2, 3)], True)
    n = c.cases or spec['cases'][0 if c.quick() else 1]
    if c.replay is not None: return replay_one(c, [j[1] for j in good], n)
    for j in good: c.run_cases(j[1], n)

SPECS = {}
def add(pid, src, cases, rule, run=standard, assumptions=(), **kw):
    SPECS[pid] = dict(src=src, cases=cases, rule=rule, run=run, assumptions=list(assumptions), **kw)

FP = 'values are compared where the reference evaluation of the input is finite and well conditioned; tolerance is a multiple of a running rounding-error bound'
add('P01', 'p01', (14000, 300000), 'random expression trees (1-1000 nodes, 1-24 variables, constants of many magnitudes) at 4 points each through every evaluation entry point; non-trivial: more than one node and at least one well-conditioned point compared with the long double reference', assumptions=[FP])
add('P02', 'p02', (30000, 600000), 'random trees with neutral elements inserted at random positions; non-trivial: simplification changed the tree and values were compared', assumptions=[FP])
add('P03', 'p03', (20000, 400000), 'random differentiable trees, first and second derivatives against dual numbers; non-trivial: more than one node and at least one value compared', assumptions=[FP])
add('P04', 'p04', (24000, 500000), 'random (tree, target, replacement) triples including repeated, absent and near-miss targets and simultaneous substitutions; non-trivial: the target occurs and values were compared', assumptions=[FP])
add('P05', 'p05', (20000, 300000), 'pairs of trees differing by one or two random mutations; non-trivial: distinct pairs compared in both directions')
add('P06', 'p06', (1900, 60000), 'random histories (150-600 operations each) over a pool of objects of every runtime type with arbitrary aliasing, under AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer, a sample under valgrind memcheck; non-trivial: every completed history; distinct situations: operation with its aliasing pattern', run=p06)
add('P07', 'p07', (2600, 120000), 'random histories of 60 operations; after every operation every object of the pool is read back and compared with its model; non-trivial: every completed history; distinct situations: operation with its aliasing pattern')
add('P08', 'p08', (3456, 27648), 'all pairs of 24 operand kinds times 4 operations (every pair several times with random operands), 8 functions on 13 kinds, random formulas spelled with random operand types; non-trivial: every compared result', run=p08)

import ctgen
def ct(make, judge):
    def f(c, spec): ctgen.run(c, spec, make, judge)
    return f
CTA = ['rational functions are compared exactly at random rational points; two different functions of the generated size agree at all of them only with negligible probability']
add('P10', 'ct', (2160, 12800), 'generated compiletime expressions (1-9 operations, 3 variables, integer constants) whose simplified and expanded types are read back and compared with the original exactly over the rationals; non-trivial: the type changed', run=ct(ctgen.p10_make, ctgen.p10_judge), assumptions=CTA)
add('P11', 'ct', (1440, 12800), 'generated compiletime expressions with their first and second derivatives and three substitutions each; non-trivial: at least one operation', run=ct(ctgen.p11_make, ctgen.p11_judge), assumptions=CTA)
add('P12', 'ct', (360, 3600), 'generated polynomials (up to degree 12) integrated over constant and variable bounds, up to three times; non-trivial: at least one operation', run=ct(ctgen.p12_make, ctgen.p12_judge), assumptions=CTA)
add('P13', 'ct', (1440, 12800), 'generated expressions affine or polynomial in a variable, decomposed into coefficient and remainder; non-trivial: the expression depends on the variable', run=ct(ctgen.p13_make, ctgen.p13_judge), assumptions=CTA)
add('P09', 'p09', (480, 4800), 'generated compiletime formulas (spelled with operators, 0-10 operations; every third one mixed with runtime constants of several scalar types, which fold into the compiletime expression) evaluated at runtime vectors and at compiletime constants, converted and assigned to runtime expressions and spelled again with runtime operands; non-trivial: at least one operation and a well-conditioned value compared', run=ctgen.run9, assumptions=[FP])
add('P14', 'p14', (14000, 300000), 'random integrals (constant and expression bounds, several rules and containers) integrated through every entry point with a recording rule and with the Gauss midpoint rule; non-trivial: an integrand that depends on the integration variable, compared with the reference', assumptions=[FP])
add('P15', 'p15', (20000, 400000), 'random expressions with and without a part that cannot be answered, each asked through every entry point; non-trivial: the request had to be rejected and was')
add('P16', 'p16', (9000, 200000), 'random expressions, intervals and equations whose LaTeX text is parsed by an independent reader and compared with the original formula; non-trivial: at least one operation')
add('P17', 'p17', (5000, 100000), 'random histories of customizing, copying, assigning and destroying LaTeX translators, every output compared with a reference printer fed by the model of the customizations; non-trivial: history with copies made after customization')
add('P18', 'p18', (40000, 800000), 'random trees traversed by recording visitors with random step-into decisions, the visit log compared with the specified order; non-trivial: more than one node')
add('P19', 'p19', (20000, 400000), 'random trees rewritten by random manipulations (selected by kind, value or position), result compared with the model rewriting; non-trivial: at least one node rewritten')
add('P20', 'p20', (12000, 250000), 'weak-form like and arbitrary expressions transformed in one, two and three dimensions, evaluated with componentwise vector arithmetic before and after; non-trivial: a gradient or divergence was present and values were compared', assumptions=[FP])
add('P21', 'p21', (12000, 250000), 'random expressions over function symbols and gradients, differentiated by a symbol, compared with dual numbers over truncated power series for concrete functions; non-trivial: the symbol occurs and values were compared', assumptions=[FP])
add('P22', 'p22', (5000, 100000), 'random pairs of vectors of length 1-16 through copying, resizing, arithmetic with six kinds of scalars, comparison, simplification, substitution, differentiation and products inside expressions; non-trivial: values were compared', assumptions=[FP])
add('P23', 'p23', (14000, 300000), 'random expressions with up to seven levels of nested symbolic integrals over six identifiers, replaced by concrete intervals; non-trivial: the domain occurs')
add('P24', 'p24', (14000, 300000), 'random expressions, vectors, intervals and equations printed in several ways (including streams in unusual formats), the text parsed by an independent reader and compared with the tree; non-trivial: more than one node')

def tsan_tool(c, rc, so, se, first, end):
    """A ThreadSanitizer report is a happens-before race in the executed trace: believed as it stands."""
    m = re.findall(r'SUMMARY: ThreadSanitizer: ([^\n]*)', se)
    if not m: return False
    seen = set()
    for blk in se.split('WARNING: ThreadSanitizer: ')[1:]:
        fr = re.findall(r'#\d+ (\S.*?) (/\S+?):\d+', blk)
        lib = [(f, p) for f, p in fr if '/viennamath/' in p]
        # only races on state of the library count; anything else would be a defect of the monitor
        if not lib: raise CheckError('race outside the library: ' + blk[:800])
        from vrun import short
        key = 'race in ' + short(lib[0][0]) + '@' + os.path.basename(lib[0][1])
        if key in seen: continue
        seen.add(key)
        c.violation(key, 'WARNING: ThreadSanitizer: ' + blk[:2200], 'histories %d..%d' % (first, end - 1), first, how=dict(exe='p25', first=first, count=end - first))
    return True

def p25(c, spec):
    src = os.path.join(HERE, 'p25.cpp')
    exe, fast = os.path.join(c.dir, 'p25'), os.path.join(c.dir, 'p25-plain')
    build_all(c, [(src, exe, TSAN, ['-pthread']), (src, fast, ['-O2', '-g1'], ['-pthread'])])
    n = c.cases or spec['cases'][0 if c.quick() else 1]
    if c.replay is not None:
        h = c.replay.get('how') or {}
        k = c.replay.get('case')
        if h.get('exe') == 'p25-plain': c.run_cases_one(fast, h.get('first', 0), h.get('count', n), cpu=120)
        else: c.run_cases_one(exe, h.get('first', 0), h.get('count', n), tool=tsan_tool, cpu=240)
        return
    c.run_cases(exe, n, workers=3, tool=tsan_tool, cpu=240)
    if not c.viols: c.run_cases(fast, n * 2, workers=2, cpu=120, label='unsanitized: ')
add('P25', 'p25', (1200, 30000), 'random plans of 2-6 threads performing 12-31 operations each of 29 kinds on the same constant expressions, vectors, equations, intervals, translator and quadrature under ThreadSanitizer, every result compared with the result obtained alone; distinct situations: pairs of operations observed in flight at the same time, on the same or on different expressions', run=p25, assumptions=['ThreadSanitizer sees races of the executed happens-before order; the threads share no synchronisation besides the start and the end'])

add('P26', 'p26', (4608, 92160), 'equations and intervals from all pairs of 24 operand kinds (every supported pair several times with random operands) and random histories of 60 operations on pools of equations and intervals; non-trivial: every compared construction or completed history', run=lambda c, spec: p26(c, spec))
def p26(c, spec):
    src = os.path.join(HERE, 'p26.cpp')
    exes = [os.path.join(c.dir, 'p26-%d' % k) for k in range(3)]
    good = build_all(c, [(src, exes[k], ['-O0' if k < 2 else '-O1'] + ASAN[1:], ['-DFN=%d' % k]) for k in (1, 0, 2)], True)
    n = c.cases or spec['cases'][0 if c.quick() else 1]
    if c.replay is not None: return replay_one(c, [j[1] for j in good], n)
    for j in good: c.run_cases(j[1], n if j[1] != exes[2] else max(16, n // 2))

add('P27', 'p27', (16000, 400000), 'random pipelines of two to seven manipulations checked after every stage against truncated Taylor series, differentiation and substitution laws, Newton iterations on random equation systems, and assembly of random weak forms; non-trivial: values were compared', assumptions=[FP])

P28_HEADERS = ['coefficient', 'diff', 'drop_dependent_terms', 'eval', 'expand', 'integrate', 'latex', 'simplify', 'substitute', 'apply_coordinate_system']
def p28(c, spec):
    """Programs of several units with random header orders, flags and standards."""
    import random
    r = random.Random(c.seed * 7919 + 28)
    src, main = os.path.join(HERE, 'p28_unit.cpp'), os.path.join(HERE, 'p28.cpp')
    programs, units = (1, 9) if c.quick() else (6, 13)
    def shared(k): return k in (1, 2, 4, 6, 8, 9, 11)
    n = c.cases or spec['cases'][0 if c.quick() else 1]
    for p in range(programs):
        jobs, infos, objs = [], [], []
        for k in range(units):
            hs = [(h, 'viennamath/manipulation/%s.hpp' % h) for h in P28_HEADERS] + [('numerical_quadrature', 'viennamath/runtime/numerical_quadrature.hpp')]
            r.shuffle(hs)
            if k % 3 == 2: hs = hs[:r.randrange(1, 4) if k != 2 else 0]     # unit 2: the main header alone
            if r.random() < 0.5: hs += hs[:3]      # included twice
            std = r.choice(['c++11', 'gnu++98', 'c++14', 'gnu++11'])
            opt = ['-O0', '-O2', '-O3', '-O1'][(k + p) % 4]
            san = k % 4 == 3
            cxx = 'clang++' if k % 8 == 5 else 'g++'
            order = os.path.join(c.dir, 'order-%d-%d.hpp' % (p, k))
            info = 'unit %d (%s %s -std=%s%s%s: %s)' % (k, cxx, opt, std, ' sanitized' if san else '', ' shared' if shared(k) else '', ' '.join(h for h, f in hs))
            with open(order, 'w') as f:
                f.write(''.join('#include <%s>\n' % h for h in r.sample(['iostream', 'sstream', 'vector', 'string', 'cmath', 'map'], r.randrange(0, 7))))
                f.write('#include "viennamath/expression.hpp"\n')
                f.write(''.join('#include "%s"\n' % f2 for h, f2 in hs))
                f.write(''.join('#define HAVE_%s\n' % h for h in sorted(set(h for h, f2 in hs))) + '#include <sstream>\n')
            infos.append(info)
            out = os.path.join(c.dir, 'unit-%d-%d.o' % (p, k))
            flags = [opt, '-g1', '-std=' + std, '-fPIC', '-c', '-Wno-deprecated-declarations', '-I' + REPO, '-I' + HERE] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=all'] if san and cxx == 'g++' else [])
            jobs.append((k, [cxx] + flags + ['-DORDER="%s"' % order, '-DUNIT=unit_%d' % k, '-DINFO="%s"' % info, src, '-o', out]))
            objs.append(out)
        mo = os.path.join(c.dir, 'main-%d.o' % p)
        jobs.append((units, ['g++', '-c', '-std=c++11', '-Wno-deprecated-declarations', '-I' + REPO, '-I' + HERE] + ASAN + ['-DUNITS=' + ' '.join('X(%d)' % k for k in range(units)), main, '-o', mo]))
        def go(j): return j[0], subprocess.run(j[1], capture_output=True, text=True)
        with ThreadPoolExecutor(CORES) as ex: res = list(ex.map(go, jobs))
        if any(q.returncode for k, q in res):   # a unit that does not compile in the usual order either is no matter of configurations
            ref = os.path.join(c.dir, 'order-ref.hpp')
            with open(ref, 'w') as f: f.write('#include <iostream>\n#include "viennamath/expression.hpp"\n' + ''.join('#include "viennamath/%s.hpp"\n#define HAVE_%s\n' % (('runtime/' if h == 'numerical_quadrature' else 'manipulation/') + h, h) for h in P28_HEADERS + ['numerical_quadrature']) + '#include <sstream>\n')
            q = subprocess.run(['g++', '-std=c++11', '-w', '-fsyntax-only', '-I' + REPO, '-I' + HERE, '-DORDER="%s"' % ref, '-DUNIT=unit_0', '-DINFO=""', src], capture_output=True, text=True)
            if q.returncode: raise CheckError('unit does not compile in the usual order: ' + q.stderr[:600])
        bad = False
        for k, q in res:
            if q.returncode:
                err = [l for l in q.stderr.split('\n') if 'error' in l] or [q.stderr[-300:]]
                if k == units: raise CheckError('monitor does not compile: ' + err[0])
                bad = True
                c.violation('does not compile: ' + re.sub(r'^\S+:\d+:\d+: *', '', err[0])[:160], q.stderr[:3000], infos[k])
        if bad: return
        exe, sos = os.path.join(c.dir, 'p28-%d' % p), []
        for k in range(units):     # a library of its own: with its own instantiations if linked -Bsymbolic
            if not shared(k): continue
            so = os.path.join(c.dir, 'libunit-%d-%d.so' % (p, k)); sos.append(so)
            q = subprocess.run(['g++', '-shared', objs[k], '-o', so] + ([] if k == 1 else ['-Wl,-Bsymbolic']), capture_output=True, text=True)
            if q.returncode: raise CheckError('shared library: ' + q.stderr[-500:])
        q = subprocess.run(['g++', '-fsanitize=address,undefined', '-rdynamic', mo] + [objs[k] for k in range(units) if not shared(k)] + sos + ['-Wl,-rpath,' + c.dir, '-o', exe], capture_output=True, text=True)
        if q.returncode:
            m = re.search(r"multiple definition of [`']([^`']*)'", q.stderr)
            c.violation('does not link: ' + ('multiple definition of ' + m.group(1) if m else q.stderr.strip().split('\n')[-1])[:160], q.stderr[:3000], ' | '.join(infos))
            return
        c.extra.setdefault('units', []).extend(infos)
        c.extra['programs'] = p + 1
        if c.replay is not None:
            replay_one(c, [exe], n)
        else: c.run_cases(exe, n)
        if c.viols: return
add('P28', 'p28', (3000, 30000), 'programs of eight to twelve units with random header subsets and orders, standards, optimisation levels, two compilers and a shared library; every expression is built node by node in random units and every operation executed in every unit; non-trivial: every exchanged expression', run=p28, assumptions=[FP])

def p29(c, spec, name='p29', times=2):
    """Sanitized, and without the sanitizer's quarantine: memory of destroyed objects is used again at once."""
    src = os.path.join(HERE, name + '.cpp')
    exe, plain = os.path.join(c.dir, name), os.path.join(c.dir, name + '-plain')
    build_all(c, [(src, exe, ASAN, []), (src, plain, PLAIN, [])])
    n = c.cases or spec['cases'][0 if c.quick() else 1]
    if c.replay is not None: return replay_one(c, [exe, plain], n)
    c.run_cases(exe, n)
    if not c.viols: c.seed += 1000003; c.run_cases(plain, n * times, label='unsanitized: '); c.seed -= 1000003
add('P29', 'p29', (2500, 60000), 'random histories of 40 operations on a pool of objects of all runtime types with one to four questions after each (16 kinds of requests from a small pool, asked of live objects and nodes inside them, some after near-identical expressions got the same question), every answer compared with a fresh twin and with independent references; distinct situations: question and preceding operation', run=lambda c, s: p29(c, s), assumptions=[FP])

add('P30', 'p30', (900, 25000), 'random histories of 30 operations on a pool of objects of all runtime types (assignments in every combination incl. parts of the target, copies, arithmetic, functions, integrals, simplification, differentiation, substitution, coordinate systems, domains, evaluation, quadrature, printing, LaTeX, traversal, manipulation, vectors, containers), each repeated with a failure injected at its 1st, 2nd, 3rd ... allocation and at each call of a user-supplied visitor, manipulator, quadrature rule or LaTeX processor until it succeeds; after each failure every object is read back; distinct situations: operation and place of the failure')

add('P31', 'p31', (2500, 60000), 'random expressions with user-defined leaves, composite nodes, unary and binary operations anywhere in them, under every operation of the library (construction, copies, arithmetic, vectors, evaluation, comparison, substitution, simplification, differentiation, traversal, manipulation, printing, LaTeX with a user processor, quadrature, domains, coordinate systems); distinct: expression', run=lambda c, s: p29(c, s, 'p31', 4), assumptions=[FP])

def p32(c, spec):
    """Memory and work are counted by the program itself: no sanitizer."""
    exe = os.path.join(c.dir, 'p32')
    build_all(c, [(os.path.join(HERE, 'p32.cpp'), exe, PLAIN, ['-pthread'])])
    n = c.cases or spec['cases'][0 if c.quick() else 1]
    if c.replay is not None: return replay_one(c, [exe], n)
    c.run_cases(exe, n)
add('P32', 'p32', (4500, 120000), 'rounds of 1170 iterations of one kind of operation (all questions of P29, construction, comparison, equations, intervals, domains, vectors, LaTeX customization, conversions, assignments, quadrature rules, reuse of old objects, whole histories; with new expressions, points and identifiers or the same request each time; some in threads of their own), everything made being destroyed after each iteration, and requests for chains of ten shapes of 6, 12, 24 and 48 operations with counting leaves; distinct: rounds', run=p32, assumptions=['work = allocations plus visits of user-defined leaves', 'what rejected requests leave behind is not judged'])

SAN = 'runtime monitoring under ASan/UBSan/LSan: '
TECH = {
 'P01': SAN + 'value of every evaluation entry point against a long-double reference with running error bounds',
 'P02': SAN + 'tree read back after simplify, values compared with the original, normal-form scan, termination by CPU limit',
 'P03': SAN + 'derivative trees evaluated against dual numbers on an independent copy of the tree',
 'P04': SAN + 'result trees and values against a reference substitution on model trees',
 'P05': SAN + 'deep_equal answers against equality of model trees on near-miss pairs',
 'P06': SAN + 'random operation histories with arbitrary aliasing; a sample of histories under valgrind memcheck',
 'P07': SAN + 'shadow model of every live object compared after every operation of random histories',
 'P08': SAN + 'full operand-type matrix, result tree read back against the denoted operation',
 'P09': SAN + 'generated compiletime expressions, values against long-double reference and converted trees read back',
 'P10': 'generated programs; resulting compiletime types read back and compared exactly over the rationals',
 'P11': 'generated programs; derivative and substitution types read back and compared exactly over the rationals',
 'P12': 'generated programs; integrals read back and compared with exact rational antiderivatives',
 'P13': 'generated programs; coefficient and remainder read back and recombined exactly over the rationals',
 'P14': SAN + 'recording quadrature rule logs every request; midpoint results against the reference',
 'P15': SAN + 'request stream with known answerability; accept/reject/exception monitor',
 'P16': SAN + 'LaTeX output parsed by an independent reader and compared with the model',
 'P17': SAN + 'histories of translators with shadow customization tables; output compared with a reference printer',
 'P18': SAN + 'recorded visit log checked against the log computed from the model tree',
 'P19': SAN + 'result tree of recorded manipulations against the rewrite on model trees',
 'P20': SAN + 'values before and after the transformation under a componentwise vector interpretation',
 'P21': SAN + 'derivative values against dual numbers over power series with concrete functions inserted',
 'P22': SAN + 'vector entries read back and evaluated against componentwise reference values',
 'P23': SAN + 'result tree against the replacement on model trees',
 'P24': SAN + 'printed text parsed by an independent reader and compared with the tree',
 'P25': 'ThreadSanitizer on random multi-thread plans plus per-thread results against sequential results',
 'P26': SAN + 'operand-type matrix of equations and intervals, histories with shadow sides',
 'P27': SAN + 'values after every stage of random pipelines against truncated Taylor series; Newton and assembly against long-double references',
 'P29': SAN + 'random histories; every answer compared with the answer of a freshly built twin and with independent references',
 'P30': SAN + 'fault injection at every allocation and every call of user-supplied code, all objects read back after each failure',
 'P31': SAN + 'result trees and values with user-defined nodes against the model; number of live user nodes after every case',
 'P32': 'allocation accounting and work counting under repeated and growing requests: held memory after every round, growth of work per request',
 'P28': SAN + 'generated multi-unit programs; same operation in every unit on exchanged objects, results compared',
}
