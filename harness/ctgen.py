"""Random compiletime expressions: generation of C++ programs, exact rational oracle over the types the compiler computed.

Trees: ('c', n) | ('x', i) | (op, l, r) with op in + - * /."""
import os, re, random
from fractions import Fraction as F
from vrun import HERE, CheckError
from concurrent.futures import ThreadPoolExecutor
import vrun

class Undefined(Exception): pass
def ev(t, p):
    k = t[0]
    if k in 'cr': return F(t[1])
    if k == 'x': return p[t[1]]
    a, b = ev(t[1], p), ev(t[2], p)
    if k == '+': return a + b
    if k == '-': return a - b
    if k == '*': return a * b
    if b == 0: raise Undefined()
    return a / b
def evm(t, p, big):
    """Value and the largest intermediate magnitude (for the tolerance of double evaluation)."""
    k = t[0]
    if k in 'cr': r = F(t[1])
    elif k == 'x': r = p[t[1]]
    else:
        a, b = evm(t[1], p, big), evm(t[2], p, big)
        if k == '/':
            if b == 0: raise Undefined()
            r = a / b
            if b: big[0] = max(big[0], abs(1 / b))
        else: r = a + b if k == '+' else a - b if k == '-' else a * b
    big[0] = max(big[0], abs(r))
    return r
def dual(t, p, v):
    k = t[0]
    if k in 'cr': return F(t[1]), F(0)
    if k == 'x': return p[t[1]], F(int(t[1] == v))
    (a, da), (b, db) = dual(t[1], p, v), dual(t[2], p, v)
    if k == '+': return a + b, da + db
    if k == '-': return a - b, da - db
    if k == '*': return a * b, da * b + a * db
    if b == 0: raise Undefined()
    return a / b, (da * b - a * db) / (b * b)
def poly(t, p, v):
    """Coefficients in variable v, other variables at p."""
    k = t[0]
    if k == 'c': return [F(t[1])]
    if k == 'x': return [F(0), F(1)] if t[1] == v else [p[t[1]]]
    a, b = poly(t[1], p, v), poly(t[2], p, v)
    if k in '+-':
        n = max(len(a), len(b)); a = a + [F(0)] * (n - len(a)); b = b + [F(0)] * (n - len(b))
        return [x + y if k == '+' else x - y for x, y in zip(a, b)]
    if k == '*':
        r = [F(0)] * (len(a) + len(b) - 1)
        for i, x in enumerate(a):
            for j, y in enumerate(b): r[i + j] += x * y
        return r
    while len(b) > 1 and b[-1] == 0: b = b[:-1]
    if len(b) != 1 or b[0] == 0: raise Undefined()
    return [x / b[0] for x in a]
def subst(t, a, b):
    if t == a: return b
    if t[0] in 'cxr': return t
    return (t[0], subst(t[1], a, b), subst(t[2], a, b))
def size(t): return 1 if t[0] in 'cxr' else 1 + size(t[1]) + size(t[2])
def subs(t):
    yield t
    if t[0] not in 'cxr':
        yield from subs(t[1]); yield from subs(t[2])
def has(t, v): return any(s == ('x', v) for s in subs(t))
def show(t):
    if t[0] == 'c': return str(t[1])
    if t[0] == 'x': return 'x%d' % t[1]
    return '(%s %s %s)' % (t[0], show(t[1]), show(t[2]))
def parse(s):
    toks = re.findall(r'[()]|[^\s()]+', s)
    pos = [0]
    def go():
        x = toks[pos[0]]; pos[0] += 1
        if x == '(':
            op = toks[pos[0]]; pos[0] += 1
            a = go(); b = go()
            if toks[pos[0]] != ')': raise ValueError(s)
            pos[0] += 1
            if op not in '+-*/': raise ValueError(s)
            return (op, a, b)
        if x.startswith('x'): return ('x', int(x[1:]))
        return ('c', int(x))
    r = go()
    if pos[0] != len(toks): raise ValueError(s)
    return r
NAME = {'+': 'Pl', '-': 'Mi', '*': 'Mu', '/': 'Di'}
def typ(t):
    if t[0] == 'c': return 'ct_constant<%d>' % t[1]
    if t[0] == 'x': return 'ct_variable<%d>' % t[1]
    return 'ct_binary_expr<%s, op_%s<NT>, %s >' % (typ(t[1]), {'+': 'plus', '-': 'minus', '*': 'mult', '/': 'div'}[t[0]], typ(t[2]))
def spell(t):
    if t[0] == 'c': return 'ct_constant<%d>()' % t[1]
    if t[0] == 'x': return 'ct_variable<%d>()' % t[1]
    return '(%s %s %s)' % (spell(t[1]), t[0], spell(t[2]))
def obj(t): return typ(t) + '()'
def points(rng, n, nv):
    for _ in range(n):
        yield [F(rng.randint(-60, 60), rng.choice([1, 2, 3, 5, 7, 11])) + F(1, 13) * i for i in range(nv)]
def zero(t, rng, nv=3):
    """Identically zero (or undefined everywhere)?"""
    for p in points(rng, 4, nv):
        try:
            if ev(t, p) != 0: return False
        except Undefined: return True
    return True
def zden(t, rng, nv=3):
    return any(s[0] == '/' and zero(s[2], rng, nv) for s in subs(t))

class Gen:
    def __init__(g, rng, nv=3, consts=(-3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 10, 12), div=True, denfree=None, pv=0.6, big=False):
        g.r, g.nv, g.consts, g.div, g.denfree, g.pv, g.big = rng, nv, consts, div, denfree, pv, big
    def leaf(g, no=None):
        if g.r.random() < g.pv:
            for _ in range(5):
                v = g.r.randrange(g.nv)
                if v != no: return ('x', v)
        return ('c', g.r.choice(g.consts))
    def gen(g, n, no=None):
        """n: number of operations; no: variable that may not occur"""
        if n <= 0: return g.leaf(no)
        a = g.r.randint(0, n - 1)
        op = g.r.choice('++--***/' if g.div else '++-**')
        if g.r.random() < 0.12 and n > 1:    # neutral elements
            t = g.gen(n - 1, no)
            return g.r.choice([('+', t, ('c', 0)), ('+', ('c', 0), t), ('-', t, ('c', 0)), ('*', t, ('c', 1)), ('*', ('c', 1), t), ('-', ('c', 0), t), ('*', ('c', 0), t), ('*', t, ('c', 0))] + ([('/', t, ('c', 1))] if g.div else []))
        l = g.gen(a, no)
        rn = no
        if op == '/' and g.denfree == 'const':
            return ('/', l, ('c', g.r.choice([c for c in g.consts if c])))
        if op == '/' and g.denfree is not None: rn = g.denfree
        return (op, l, g.gen(n - 1 - a, rn))
    def good(g, n, no=None):
        while True:
            t = g.gen(n, no)
            if not zden(t, g.r, g.nv): return t

# systematic part: every pair of these forms under every operation
FORMS = [lambda a, b, c: a, lambda a, b, c: ('-', ('c', 0), a), lambda a, b, c: ('*', c, a), lambda a, b, c: ('*', a, c), lambda a, b, c: ('+', c, a), lambda a, b, c: ('+', a, c), lambda a, b, c: ('-', c, a), lambda a, b, c: ('-', a, c),
         lambda a, b, c: ('*', a, b), lambda a, b, c: ('+', a, b), lambda a, b, c: ('-', a, b), lambda a, b, c: ('/', a, c),
         lambda a, b, c: ('/', ('c', 1), a), lambda a, b, c: ('/', c, a), lambda a, b, c: ('/', a, b), lambda a, b, c: ('*', a, a)]
NCOMBO = 4 * len(FORMS) ** 2
def combo(i, rng, free=None, poly=False):
    """free: variable that may not occur in denominators; poly: only constant denominators"""
    op, f, g = '+-*/'[i % 4], FORMS[i // 4 % len(FORMS)], FORMS[i // 4 // len(FORMS) % len(FORMS)]
    G = Gen(rng, denfree='const' if poly else free)
    distinct = i < NCOMBO     # first round: different atoms everywhere; later: repeated ones
    for _ in range(60):
        if distinct:
            xs = [('x', 0), ('x', 1), ('x', 2)]; rng.shuffle(xs)
            if free is not None and rng.random() < 0.7: xs.remove(('x', free)); xs.insert(rng.randrange(2) * 2, ('x', free))
            def grow(x): return x if rng.random() < 0.8 else (rng.choice('+*'), x, ('c', rng.randint(2, 5)))
            def num1(): return ('c', rng.choice([1, -1, 2, 2, 3, 4, 5, -3, 6, 7, 12]))
            a, b, d = grow(xs[0]), grow(xs[1]), grow(xs[2])
            t = (op, f(a, b, num1()), g(d, a if rng.random() < 0.5 else grow(xs[0]), num1()))
            if rng.random() < 0.4: t = (op, f(b, a, num1()), g(d, b, num1()))
        else: t = None
        def atom(): return ('x', free) if free is not None and rng.random() < 0.4 else G.leaf() if rng.random() < 0.25 else ('x', rng.randrange(3)) if rng.random() < 0.7 else G.good(rng.choice([1, 1, 2]))
        def num(): return ('c', rng.choice([1, 1, -1, 2, 2, 3, 4, -3, 6, 0, 12]))
        a, b = atom(), atom()
        t = t or (op, f(a, b, num()), g(a if rng.random() < 0.35 else atom(), b if rng.random() < 0.35 else atom(), num()))
        if zden(t, rng): continue
        if free is not None and any(s[0] == '/' and has(s[2], free) for s in subs(t)): continue
        if poly and any(s[0] == '/' and s[2][0] != 'c' for s in subs(t)): continue
        return t
    return None
PRE = '#include "ct.hpp"\n'
A, B = [F(3, 2), F(-5, 4), F(7, 8)], [F(-1, 2), F(9, 4), F(11, 8)]    # exactly representable points for the double evaluation

class Program:
    """Collects the C++ text of the cases of one translation unit."""
    def __init__(s): s.lines = PRE.rstrip('\n').split('\n'); s.where = []; s.calls = []
    def case(s, k, body, what):
        s.where.append((len(s.lines) + 1, k, what))
        s.lines.append('static void case_%d(std::vector<double> const & A, std::vector<double> const & B) {' % k)
        s.lines += ['  ' + l for l in body]
        s.lines.append('}')
        s.calls.append(k)
    def text(s):
        m = ['int main(int argc, char ** argv) {', '  double a[3] = { 1.5, -1.25, 0.875 }, b[3] = { -0.5, 2.25, 1.375 }; std::vector<double> A(a, a + 3), B(b, b + 3);', '  int only = argc > 1 ? atoi(argv[1]) : -1;']
        m += ['  if (only < 0 || only == %d) { printf("%d|begin\\n"); fflush(stdout); case_%d(A, B); }' % (k, k, k) for k in s.calls]
        m += ['  printf("-1|end\\n"); return 0; }']
        return '\n'.join(s.lines + m) + '\n'
    def at(s, line):
        r = None
        for l, k, w in s.where:
            if l <= line: r = (k, w)
        return r

CTFLAGS = ['-O0', '-g0', '-ftemplate-depth=2000', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']
def run(c, spec, make, judge, per_tu=None):
    """make(k, rng) -> (body lines, data, description); judge(c, k, data, results{label: (tree or None, text, va, vb)}) -> list of (key, detail)."""
    n = c.cases or spec['cases'][0 if c.quick() else 1]
    ks = list(range(n))
    if c.replay is not None and c.replay.get('case') is not None: ks = [c.replay['case']]
    per = per_tu or (spec.get('per_tu') or 40)
    ntu = max(1, (len(ks) + per - 1) // per)
    if len(ks) >= 8: ntu = max(ntu, 8)
    groups = [ks[i::ntu] for i in range(ntu)]
    # interleaved so that every unit gets a similar load
    def work(gi):
        g = groups[gi]
        prog, info = Program(), {}
        for k in g:
            rng = random.Random('%s/%d/%d' % (c.prop, c.seed, k))
            body, data, what = make(k, rng)
            prog.case(k, body, what); info[k] = (data, what)
        src = os.path.join(c.dir, 'ct%d.cpp' % gi)
        open(src, 'w').write(prog.text())
        exe = os.path.join(c.dir, 'ct%d' % gi)
        err = c.compile(src, exe, flags=CTFLAGS, must=False, timeout=800)
        if err:
            return gi, prog, info, err, None
        import subprocess
        r = subprocess.run([exe], capture_output=True, text=True, timeout=600, env=vrun.ENV, cwd=c.dir)
        os.unlink(exe); os.unlink(src)
        return gi, prog, info, None, r
    with ThreadPoolExecutor(vrun.CORES) as ex:
        res = list(ex.map(work, range(ntu)))
    broken = [x for x in res if x[3]]
    if broken:
        c.compile(os.path.join(HERE, 'base.cpp'), os.path.join(c.dir, 'base'), flags=vrun.PLAIN)
    for gi, prog, info, err, r in res:
        if err:
            src = os.path.join(c.dir, 'ct%d.cpp' % gi)
            # which case? compile the unit's cases one by one would be slow; the compiler names the line of the instantiation
            import subprocess
            q = subprocess.run(['g++', '-std=c++11', '-fsyntax-only', '-w', '-ftemplate-depth=2000', '-I' + vrun.REPO, '-I' + HERE, src], capture_output=True, text=True, timeout=800)
            w = next((x for x in (prog.at(int(l)) for l in re.findall(r'ct%d\.cpp:(\d+):' % gi, q.stderr)) if x), None)
            if 'error' not in err and 'rror:' not in q.stderr: raise CheckError('compiling the generated program failed: ' + err)
            e0 = re.sub(r'^\S+?:\d+:\d+: *', '', err.split('\n')[0])
            c.violation('does not compile: ' + re.sub(r'<.*', '<...', e0)[:120], err, w[1] if w else '', w[0] if w else None)
            continue
        by = {}
        begun = None
        for l in r.stdout.split('\n'):
            f = l.split('|')
            if len(f) >= 2 and f[1] == 'begin': begun = int(f[0]); by.setdefault(begun, {})
            if len(f) == 5:
                try: t = parse(f[2])
                except Exception: t = None
                by.setdefault(int(f[0]), {})[f[1]] = (t, f[2], float(f[3]), float(f[4]))
            elif len(f) == 3 and f[0].isdigit(): by.setdefault(int(f[0]), {})[f[1]] = f[2]
        if r.returncode != 0 or '-1|end' not in r.stdout:
            c.violation(vrun.crash_key(r.returncode, r.stderr, ''), vrun.tail_report(r.stderr), info[begun][1] if begun in info else '', begun)
        for k in info:
            if k not in by or (r.returncode != 0 and k == begun): continue
            data, what = info[k]
            c.done += 1
            rng = random.Random('%d/%d' % (c.seed, k))
            for key, detail in judge(c, k, data, by[k], rng):
                c.violation(key, detail, what, k)

def note(c, t, nontriv):
    s = show(t)
    if nontriv:
        c.hashes.add(s)
        if len(c.samples) < 6 and len(s) < 300: c.samples.append(s)
    c.states.add(re.sub(r'-?\d+', '#', s))

def same_function(c, label, want, got, text, rng, nv=3, n=5):
    """Exact comparison of two rational functions at random rational points where the first is defined."""
    if got is None: return [(label + ': not an expression', 'result is ' + text)]
    for p in points(rng, n, nv):
        try: a = want(p)
        except Undefined: c.count('undefined points'); continue
        try: b = ev(got, p)
        except Undefined: return [(label, 'result %s is undefined at %s where the original has the value %s' % (show(got), ', '.join(map(str, p)), a))]
        c.count('exact values compared')
        if a != b: return [(label, 'result %s has the value %s at (%s), expected %s' % (show(got), b, ', '.join(map(str, p)), a))]
    return []
def numeric(c, label, want, got, res):
    """The value the program computed for its result object at A and B."""
    out = []
    for p, v in ((A, res[2]), (B, res[3])):
        big = [F(1)]
        try: w = want(p); b = evm(got, p, big)
        except Undefined: continue
        scale = float(max(abs(w), big[0]))
        tol = 1e-12 * scale * max(1.0, scale) if scale < 1e9 else None
        if tol is None: c.count('numeric values skipped'); continue
        c.count('numeric values compared')
        if not abs(v - float(w)) <= tol: out.append((label + ' value', 'evaluated at (%s): %r instead of %r (result type %s)' % (', '.join(map(str, map(float, p))), v, float(w), res[1])))
    return out[:1]

NUMFORMS = [lambda n, d: ('c', n), lambda n, d: ('/', ('c', 1), ('c', d)), lambda n, d: ('/', ('c', n), ('c', d)), lambda n, d: ('/', ('c', -n), ('c', d)), lambda n, d: ('/', ('c', n), ('c', n * d)), lambda n, d: ('/', ('c', n * d), ('c', d))]
def numcombo(i, rng):
    """Pairs of numbers and fractions under every operation, now and then under a third."""
    f, g = NUMFORMS[i // 4 % 6], NUMFORMS[i // 24 % 6]
    def n(): return rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 10, 12, -1, -2, -3, 15, 49])
    def d(): return rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 25, -3])
    t = ('+-*/'[i % 4], f(n(), d()), g(n(), d()))
    if i >= 144 or i % 3 == 2:
        h = rng.choice(NUMFORMS)(n(), d()) if rng.random() < 0.6 else ('x', rng.randrange(3))
        t = (rng.choice('+-*/'), t, h) if rng.random() < 0.5 else (rng.choice('+-*/'), h, t)
    return t if not zden(t, rng) else None
# ------------------------------------------------------------------ P10
def p10_make(k, rng):
    fractions = 1920 <= k < 2160 or (k >= 2160 and k % 10 == 7)
    if k % 5 or fractions:
        t = numcombo(k - 1920, rng) if fractions else combo(k - k // 5 - 1, rng)
        if t is not None:
            return ['typedef ' + typ(t) + ' E; E e;', 'out(%d, "simplify", simplify(e), A, B); out(%d, "expand", expand(e), A, B); out(%d, "input", e, A, B);' % (k, k, k)], (t, not any(s[0] == '/' for s in subs(t))), show(t)
    k0, k = k, k // 5
    g = Gen(rng)
    if k % 4 == 1: g = Gen(rng, div=False)
    if k % 4 == 2: g = Gen(rng, pv=0.25)
    if k % 8 == 3: g = Gen(rng, consts=(0, 1, -1, 2, 1000, -37, 46341, 99991))
    k = k0
    t = g.good(rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9]))
    isp = not any(s[0] == '/' for s in subs(t))
    body = ['%s e;' % ('typedef ' + typ(t) + ' E; E')]
    body += ['auto s = simplify(e); out(%d, "simplify", s, A, B);' % k, 'auto x = expand(e); out(%d, "expand", x, A, B);' % k,
             'out(%d, "input", e, A, B);' % k, 'out(%d, "simplify(simplify)", simplify(s), A, B);' % k]
    deg = sum(1 for s in subs(t) if s[0] in '*/')
    if deg <= 5: body += ['out(%d, "simplify(expand)", simplify(x), A, B); out(%d, "expand(simplify)", expand(s), A, B);' % (k, k)]
    return body, (t, isp), show(t)
def sums_in_product(t):
    def pm(u): return u[0] in '+-' or (u[0] == '*' and (pm(u[1]) or pm(u[2]))) or (u[0] == '/' and pm(u[1]))
    return any(s[0] == '*' and (pm(s[1]) or pm(s[2])) for s in subs(t))
def p10_judge(c, k, data, res, rng):
    t, isp = data; out = []
    want = lambda p: ev(t, p)
    inp = res['input'][0]
    if inp != t: out.append(('input', 'type of the input is %s' % res['input'][1]))
    for label in ('simplify', 'expand', 'simplify(simplify)', 'simplify(expand)', 'expand(simplify)'):
        if label not in res: continue
        r = res[label]
        o = same_function(c, label, want, r[0], r[1], rng)
        if not o: o = numeric(c, label, want, r[0], r)
        out += o
    o = numeric(c, 'evaluation', want, t, res['input']); out += o
    s = res['simplify'][0]
    if s and not any(u[0] == 'x' for u in subs(t)):
        c.count('constant inputs')
        if not (s[0] == 'c' or (s[0] == '/' and s[1][0] == 'c' and s[2][0] == 'c')): out.append(('simplify: constants not combined', 'arithmetic on constants only simplifies to ' + show(s)))
    if s:
        for u in subs(s):
            if u[0] in '+-*' and u[1][0] == 'c' and u[2][0] == 'c': out.append(('simplify: constants not combined', 'result ' + show(s) + ' contains ' + show(u))); break
    if isp and res['expand'][0] and not out:
        if sums_in_product(res['expand'][0]): out.append(('expand: product of sums', 'expanded to ' + show(res['expand'][0])))
        else: c.count('expanded polynomials')
    note(c, t, s is not None and (s != t or res['expand'][0] != t))
    return out

# ------------------------------------------------------------------ P11
def p11_make(k, rng):
    if k % 5:
        t = combo(k - k // 5 - 1, rng); v = rng.randrange(3)
        if t is not None:
            vs = sorted(set(s[1] for s in subs(t) if s[0] == 'x'))
            if vs and rng.random() < 0.85: v = rng.choice(vs)
            target = rng.choice([s for s in subs(t)]); sub, body = [], []
            rep = rng.choice([('x', rng.randrange(3)), ('c', rng.randint(1, 5)), (rng.choice('+*'), target, ('x', rng.randrange(3)))])
            if not zden(subst(t, target, rep), rng): sub = [(target, rep)]; body = ['out(%d, "substitute 0", substitute(%s, %s, e), A, B);' % (k, obj(target), obj(rep))]
            return ['typedef %s E; E e; ct_variable<%d> v;' % (typ(t), v), 'auto d = diff(e, v); out(%d, "diff", d, A, B); out(%d, "simplify(diff)", simplify(d), A, B);' % (k, k)] + body, (t, v, None, sub), show(t) + ' d/dx%d' % v
    k0, k = k, k // 5
    g = Gen(rng, div=(k % 3 != 0))
    t = g.good(rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 7, 8]))
    nest = None
    if k % 4 == 2:   # a replacement that completes another occurrence of what it replaces: it must not be searched again
        while True:
            a, b = (g.leaf(), g.leaf()) if rng.random() < 0.7 else (g.good(1), g.leaf())
            op = rng.choice('+-*/' if g.div else '+-*')
            target = (op, a, b)
            inner = rng.choice([(op, target, b), (op, a, target)])
            rep = a if inner[1] == target else b
            t = inner
            for _ in range(rng.randint(0, 3)): t = (rng.choice('+-*'), t, g.leaf()) if rng.random() < 0.5 else (rng.choice('+-*'), g.leaf(), t)
            nest = (target, rep)
            if not zden(t, rng) and not zden(subst(t, target, rep), rng): break
    k = k0
    v = rng.randrange(3)
    body = ['typedef %s E; E e; ct_variable<%d> v;' % (typ(t), v), 'auto d = diff(e, v); out(%d, "diff", d, A, B); out(%d, "simplify(diff)", simplify(d), A, B);' % (k, k)]
    w = rng.randrange(3)
    second = size(t) <= 9
    if second: body += ['auto d2 = diff(d, ct_variable<%d>()); out(%d, "diff(diff)", d2, A, B);' % (w, k)]
    sub = []
    all_subs = [s for s in subs(t)]
    if nest:
        sub.append(nest)
        body.append('out(%d, "substitute 0", substitute(%s, %s, e), A, B);' % (k, obj(nest[0]), obj(nest[1])))
    for i in range(len(sub), 3):
        target = rng.choice(all_subs) if rng.random() < 0.8 else rng.choice([('x', rng.randrange(3)), ('c', rng.randint(-3, 7)), g.good(2)])
        for _ in range(20):
            rep = rng.choice([lambda: g.leaf(), lambda: g.good(1), lambda: g.good(2), lambda: (rng.choice('+*-'), target, g.leaf()), lambda: ('+', g.leaf(), target), lambda: rng.choice([u for u in subs(target)])])()
            if not zden(subst(t, target, rep), rng): break
        else: continue
        if zden(subst(t, target, rep), rng): continue
        sub.append((target, rep))
        body.append('out(%d, "substitute %d", substitute(%s, %s, e), A, B);' % (k, len(sub) - 1, obj(target), obj(rep)))
    return body, (t, v, w if second else None, sub), show(t) + ' d/dx%d' % v + ''.join(' {%s -> %s}' % (show(a), show(b)) for a, b in sub)
def p11_judge(c, k, data, res, rng):
    t, v, w, sub = data; out = []
    dv = lambda p: dual(t, p, v)[1]
    for label in ('diff', 'simplify(diff)'):
        r = res[label]
        o = same_function(c, label, dv, r[0], r[1], rng)
        out += o or numeric(c, label, dv, r[0], r)
    d = res['diff'][0]
    if w is not None and d and not out:
        # second derivative against first: the first was verified against the independent rule, its own type is differentiated here
        r = res['diff(diff)']; dd = lambda p: dual(d, p, w)[1]
        o = same_function(c, 'diff(diff)', dd, r[0], r[1], rng)
        out += o or numeric(c, 'diff(diff)', dd, r[0], r)
    for i, (a, b) in enumerate(sub):
        r = res.get('substitute %d' % i)
        if r is None: continue
        want = subst(t, a, b)
        o = same_function(c, 'substitute', lambda p: ev(want, p), r[0], r[1], rng)
        o = o or numeric(c, 'substitute', lambda p: ev(want, p), r[0], r)
        if o: o = [(x, 'substituting %s by %s: %s' % (show(a), show(b), y)) for x, y in o]
        c.count('substitutions'); c.count('substitutions with occurrences', int(any(s == a for s in subs(t))))
        out += o
    note(c, t, size(t) > 1)
    return out

# ------------------------------------------------------------------ P12
def p12_make(k, rng):
    if k % 3 == 1:
        t = combo(rng.randrange(NCOMBO), rng, poly=True)
        if t is not None:
            v = rng.randrange(3); o = [x for x in range(3) if x != v]
            lo, hi = ('c', rng.randint(-3, 3)), rng.choice([('c', rng.randint(-2, 5)), ('x', rng.choice(o)), ('-', ('x', o[0]), ('x', o[1]))])
            return ['typedef %s E; E e;' % typ(t), 'out(%d, "level 0", integrate(make_interval(%s, %s), e, ct_variable<%d>()), A, B);' % (k, obj(lo), obj(hi), v)], (t, [(v, lo, hi)]), show(t) + ' int_x%d=%s..%s' % (v, show(lo), show(hi))
    if k % 15 == 2:     # bounds whose powers need more than 32 (or 53) bits
        v = rng.randrange(3); n = rng.randint(1, 6); t = ('x', v)
        for i in range(n - 1): t = ('*', t, ('x', v)) if rng.random() < 0.5 else ('*', ('x', v), t)
        if rng.random() < 0.5: t = ('*', ('c', rng.randint(2, 5)), t)
        if rng.random() < 0.3: t = ('+', t, ('x', (v + 1) % 3))
        if rng.random() < 0.3: t = ('-', ('x', v), t)
        top = int((2e16 if rng.random() < 0.3 else 1e13) ** (1.0 / (n + 1)))
        lo, hi = ('c', rng.choice([0, 1, -3, -rng.randint(top // 2, top), rng.randint(top // 4, top)])), ('c', rng.randint(top // 2, top))
        return ['typedef %s E; E e;' % typ(t), 'out(%d, "level 0", integrate(make_interval(%s, %s), e, ct_variable<%d>()), A, B);' % (k, obj(lo), obj(hi), v)], (t, [(v, lo, hi)]), show(t) + ' int_x%d=%s..%s' % (v, show(lo), show(hi))
    k0, k = k, k // 3 * 2 + (k % 3 == 2)
    g = Gen(rng, denfree='const', pv=0.7, consts=(-3, -2, -1, 0, 1, 2, 3, 4, 5, 6))
    if k % 3 == 0: g.div = False
    style = k % 6
    if style == 4:   # high powers
        n = rng.randint(4, 12); t = ('x', rng.randrange(2))
        for i in range(n - 1):
            f = ('x', rng.randrange(2))
            t = ('*', t, f) if rng.random() < 0.6 else ('*', f, t)
        if rng.random() < 0.5: t = ('+', t, g.good(2))
        if rng.random() < 0.3: t = ('-', ('c', 2), t)
    elif style == 5:
        l = ('+', g.leaf(), g.leaf()); t = l
        for i in range(rng.randint(1, 3)): t = ('*', t, l)
    else: t = g.good(rng.choice([0, 1, 2, 3, 3, 4, 5, 6]))
    if k % 11 == 0: t = rng.choice([('c', rng.randint(-5, 5)), ('x', 0), ('x', 1), ('x', 2)])
    k = k0
    order = [0, 1, 2]; rng.shuffle(order)
    depth = rng.choice([1, 1, 2, 2, 3]) if size(t) <= 9 else 1
    ivs, cur, body = [], 'e', ['typedef %s E; E e;' % typ(t)]
    for d in range(depth):
        v = order[d]
        free = [x for x in order[d + 1:]]
        def bound():
            if rng.random() < 0.6 or not free or depth > 2: return ('c', rng.randint(-3, 5))
            f = ('x', rng.choice(free))
            return rng.choice([f, ('+', f, ('c', rng.randint(-2, 3))), ('-', ('c', 1), f), ('*', ('c', 2), f), ('/', f, ('c', 2)), ('*', f, f)])
        lo, hi = bound(), bound()
        ivs.append((v, lo, hi))
        body.append('auto i%d = integrate(make_interval(%s, %s), %s, ct_variable<%d>()); out(%d, "level %d", i%d, A, B);' % (d, obj(lo), obj(hi), cur, v, k, d, d))
        cur = 'i%d' % d
    return body, (t, ivs), show(t) + ''.join(' int_x%d=%s..%s' % (v, show(a), show(b)) for v, a, b in ivs)
def integral(t, v, lo, hi):
    def f(p):
        q = poly(t, p, v) if isinstance(t, tuple) else t(p, v)
        a, b = ev(lo, p), ev(hi, p)
        return sum(x * (b ** (i + 1) - a ** (i + 1)) / (i + 1) for i, x in enumerate(q))
    return f
def p12_judge(c, k, data, res, rng):
    t, ivs = data; out = []
    cur = t
    for d, (v, lo, hi) in enumerate(ivs):
        r = res['level %d' % d]
        want = integral(cur, v, lo, hi)
        o = same_function(c, 'integrate' if d == 0 else 'iterated integrate', want, r[0], r[1], rng)
        o = o or numeric(c, 'integrate', want, r[0], r)
        if not o and has(r[0], v):     # value does not depend on the integration variable
            p = next(points(rng, 1, 3)); q = list(p); q[v] += 5
            if not (has(lo, v) or has(hi, v)) and ev(r[0], p) != ev(r[0], q): o = [('integrate: depends on the integration variable', show(r[0]))]
        out += o
        c.count('integrals'); c.count('integrals with variable bounds', int(lo[0] != 'c' or hi[0] != 'c')); c.count('iterated integrals', int(d > 0))
        if out: return out
        cur = r[0]    # verified to be the exact integral; the next level integrates this type
    note(c, t, len(ivs) > 0 and size(t) > 1)
    return out

# ------------------------------------------------------------------ P13
def p13_make(k, rng):
    v = rng.randrange(3)
    if k % 5:
        t = combo(k - k // 5 - 1, rng, free=v)
        if t is not None:
            return ['typedef %s E; E e; ct_variable<%d> v;' % (typ(t), v), 'out(%d, "coefficient", coefficient(v, e), A, B); out(%d, "drop", drop_dependent_terms(v, e), A, B);' % (k, k)], (t, v), show(t) + ' wrt x%d' % v
    k0, k = k, k // 5
    g = Gen(rng, denfree=v)
    if k % 3 == 1: g.div = False
    if k % 2 == 0:    # affine in v by construction
        def aff(n):
            if n <= 0: return ('x', v) if rng.random() < 0.6 else g.leaf(v)
            a = rng.randint(0, n - 1)
            op = rng.choice('+-*+-*/' if g.div else '+-*')
            if op in '+-': return (op, aff(a), aff(n - 1 - a))
            if op == '*': return ('*', aff(a), g.good(n - 1 - a, v)) if rng.random() < 0.5 else ('*', g.good(n - 1 - a, v), aff(a))
            return ('/', aff(a), g.good(min(1, n - 1 - a), v))
        while True:
            t = aff(rng.choice([0, 1, 2, 3, 4, 5, 6, 7]))
            if not zden(t, rng): break
    else:
        while True:
            t = g.good(rng.choice([1, 2, 3, 4, 5, 6]))
            if k % 4 == 3: t = rng.choice([('*', ('x', v), t), ('*', t, ('+', ('x', v), g.leaf(v))), ('-', ('*', ('*', ('x', v), ('x', v)), g.leaf()), t), ('*', ('*', t, ('x', v)), ('c', rng.randint(2, 5)))])
            if not any(s[0] == '/' and (has(s[2], v) or zero(s[2], rng)) for s in subs(t)): break
    if k % 5 == 2 or k % 5 == 4:    # the variable in several factors, of powers and of quotients
        def few(n):
            return ('x', v) if n <= 0 and rng.random() < 0.75 else g.leaf(v) if n <= 0 else None
        def deep(n):
            if n <= 0: return few(0)
            op = rng.choice('****+-/' if g.div else '****+-')
            m = rng.randint(0, n - 1)
            if op == '/': return ('/', deep(n - 1), rng.choice([g.leaf(v), ('c', rng.randint(2, 5)), ('+', g.leaf(v), g.leaf(v)), ('*', g.leaf(v), ('c', 2))]))
            return (op, deep(m), deep(n - 1 - m))
        def power(n):
            t = ('x', v)
            for i in range(n - 1): t = ('*', t, ('x', v)) if rng.random() < 0.6 else ('*', ('x', v), t)
            return t
        while True:
            m = rng.randrange(4)
            if m == 0: t = deep(rng.randint(2, 7))
            elif m == 1: t = ('*', ('*', g.leaf(v), power(rng.randint(1, 3))), ('*', g.leaf(v), power(rng.randint(1, 3))))
            elif m == 2:
                t = power(rng.randint(2, 6))
                if rng.random() < 0.6: t = ('*', t, g.leaf(v)) if rng.random() < 0.5 else ('*', g.leaf(v), t)
                t = (rng.choice('+-'), t, deep(2)) if rng.random() < 0.5 else (rng.choice('+-'), deep(2), t)
            else:
                t = ('*', ('/', deep(1), ('+', g.leaf(v), ('c', rng.randint(1, 4)))), deep(2)) if g.div else ('*', ('+', ('x', v), g.leaf(v)), ('-', ('x', v), g.leaf(v)))
                if rng.random() < 0.4: t = ('*', t, deep(1))
            if not any(s[0] == '/' and (has(s[2], v) or zero(s[2], rng)) for s in subs(t)): break
    k = k0
    body = ['typedef %s E; E e; ct_variable<%d> v;' % (typ(t), v),
            'out(%d, "coefficient", coefficient(v, e), A, B); out(%d, "drop", drop_dependent_terms(v, e), A, B);' % (k, k)]
    return body, (t, v), show(t) + ' wrt x%d' % v
def p13_judge(c, k, data, res, rng):
    t, v = data; out = []
    def rest(p): return poly(t, p, v)[0]
    def coef(p):
        q = poly(t, p, v)
        return sum(x * p[v] ** i for i, x in enumerate(q[1:]))
    def degree():
        d = 0
        for p in points(rng, 2, 3):
            try:
                q = poly(t, p, v)
                while q and q[-1] == 0: q.pop()
                d = max(d, len(q) - 1)
            except Undefined: pass
        return d
    deg = degree()
    for label, want in (('coefficient', coef), ('drop', rest)):
        r = res[label]
        o = same_function(c, label, want, r[0], r[1], rng)
        out += o or numeric(c, label, want, r[0], r)
        if not out and (deg <= 1 or label == 'drop'):
            p = next(points(rng, 1, 3)); q = list(p); q[v] += F(17, 3)
            try:
                if ev(r[0], p) != ev(r[0], q): out.append((label + ': depends on the variable', show(r[0])))
            except Undefined: pass
    c.count('degree %d inputs' % min(deg, 3))
    note(c, t, deg >= 1)
    return out

# ------------------------------------------------------------------ P09
def model9(t):
    if t[0] == 'c': return 'mc(%d)' % t[1]
    if t[0] == 'x': return 'mv(%d)' % t[1]
    if t[0] == 'r': return 'mc(%r)' % t[1]
    return 'mb(%s, %s, %s)' % ({'+': 'ADD', '-': 'SUB', '*': 'MUL', '/': 'DIV'}[t[0]], model9(t[1]), model9(t[2]))
def rt9(t, rng):
    """The same formula with runtime variables; numbers as doubles, constants or compiletime constants."""
    if t[0] == 'c': return rng.choice(['Const(%d.0)', 'Const(%d)', 'Expr(Const(%d))', 'Expr(%d.0)']) % t[1]
    if t[0] == 'x': return rng.choice(['Var(%d)', 'Expr(Var(%d))']) % t[1]
    if t[0] == 'r': return rng.choice(['Const(%r)', 'Expr(Const(%r))', 'Expr(%r)']) % t[1]
    if t[1][0] == 'x' and t[2][0] == 'c' and rng.random() < 0.5: return '(Var(%d) %s %d.0)' % (t[1][1], t[0], t[2][1])
    if t[2][0] == 'x' and t[1][0] == 'c' and rng.random() < 0.5: return '(%d.0 %s Var(%d))' % (t[1][1], t[0], t[2][1])
    return '(%s %s %s)' % (rt9(t[1], rng), t[0], rt9(t[2], rng))
def spell9(t):
    if t[0] == 'r': return 'vmath::rt_constant<%s>(%r)' % (t[2], t[1])
    if t[0] in 'cx': return spell(t)
    return '(%s %s %s)' % (spell9(t[1]), t[0], spell9(t[2]))
def mixed9(rng):
    """Formulas of compiletime expressions and runtime constants of several scalar types: chains, which the library may fold, inside larger formulas."""
    def rc():
        ty = rng.choice(['double', 'double', 'double', 'long', 'int', 'float'])
        return ('r', rng.choice([-3.0, -2.0, 2.0, 3.0, 5.0, 7.0] if ty in ('long', 'int') else [-2.5, 0.5, 0.75, 1.5, 2.0, 3.25, 100.0, 1e-3 if ty == 'double' else 0.25, 1e9 if ty == 'double' else 4.0]), ty)
    G = Gen(rng, consts=(0, 1, -1, 2, 3, -3, 4, 5, 7, 12))
    def x(): return G.good(rng.choice([0, 0, 0, 1, 1, 2, 3]))
    def kk(): return ('c', rng.choice([1, -1, 2, 3, -4, 7]))
    def chain():
        t = (rng.choice('+-'), kk(), x())
        if rng.random() < 0.15: t = (rng.choice('+-*/'), x(), x())
        for i in range(rng.choice([1, 1, 1, 2, 2, 3])):
            c = rc() if rng.random() < 0.7 or i == 0 else kk()
            t = (rng.choice('++--+-*/'), c, t) if rng.random() < 0.7 else (rng.choice('++--+-*/'), t, c)
        return t
    while True:
        style = rng.randrange(4)
        if style == 0: t = chain()
        elif style == 1:     # the same chain with other numbers
            a = chain()
            def other(u):
                if u[0] == 'r': return ('r', rng.choice([u[1], u[1] + 1, u[1] * 2, u[1] - 0.0 + 3]), u[2])
                if u[0] in 'cx': return u
                return (u[0], other(u[1]), other(u[2]))
            t = (rng.choice('///+-*'), a, other(a))
        elif style == 2: t = (rng.choice('+-*/'), chain(), rng.choice([x, kk, rc, chain])())
        else: t = (rng.choice('+-*/'), rng.choice([x, kk, rc])(), (rng.choice('+-*/'), chain(), rng.choice([x, kk, rc])()) if rng.random() < 0.5 else chain())
        try:
            if not zden(t, rng): return t
        except OverflowError: pass
def run9(c, spec):
    n = c.cases or spec['cases'][0 if c.quick() else 1]
    ks = list(range(n)); reps = 12
    ntu = max(8, (n + 39) // 40)
    jobs = []
    for gi in range(ntu):
        g = ks[gi::ntu]
        L = ['#include "ct9.hpp"']
        names = []
        for k in g:
            rng = random.Random('%s/%d/%d' % (c.prop, c.seed, k))
            G = Gen(rng, consts=(0, 1, -1, 2, 3, -3, 4, 5, 7, 12) if k % 5 else (0, 1, -1, 1000, -40961, 123457, 2))
            big = k % 10 == 5
            if big: G.consts, G.div = (5000000000, -3000000000, 2147483648, 4294967297, 2, 1, -1), k % 20 == 5
            if k % 4 == 0: G.pv = 0.35
            mixed = k % 3 == 2 and not big
            t = mixed9(rng) if mixed else G.good(rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10]) if k % 5 else rng.choice([1, 2, 3]))
            while big and any(s[0] in '+-*/' and not any(u[0] == 'x' for u in subs(s)) for s in subs(t)): t = G.good(rng.choice([1, 2, 2, 3]))   # products of numbers of this size overflow
            L.append('static void case_%d(Rng & r) {' % k)
            L.append('  M m = %s; auto e = %s; auto rt = %s;' % (model9(t), spell9(t), rt9(t, rng)))
            L.append('  check(r, m, e, rt);')
            for _ in range(0 if mixed or big else 2):
                p = [rng.randint(-4, 6) for _ in range(3)]
                try: ev(t, [F(x) for x in p])
                except Undefined: continue
                L.append('  checkc(m, e, vmath::make_vector(%s), %s);' % (', '.join('vmath::ct_constant<%d>()' % x for x in p), ', '.join('%d' % x for x in p)))
            if not big:
                top = max([u[1] for u in subs(t) if u[0] == 'x'] or [-1])
                L.append('  points_any(r, m, e);')
                if top <= 2: L.append('  points3(r, m, e);')
                if top <= 1: L.append('  points2(r, m, e);')
                if top <= 0 and not mixed: L.append('  points1(r, m, e);')
            L.append('}'); names.append('case_%d' % k)
        L.append('static void (*table[])(Rng &) = { %s };' % ', '.join(names))
        L.append('static void one(long i, Rng & r) { table[i %% %d](r); }' % len(g))
        L.append('int main(int c, char ** v) { return drive(c, v, "P09", one); }')
        L = [re.sub(r'\bct_(constant|variable)<', r'vmath::ct_\1<', l).replace('vmath::vmath::', 'vmath::') for l in L]
        src = os.path.join(c.dir, 'p09_%d.cpp' % gi); open(src, 'w').write('\n'.join(L) + '\n')
        jobs.append((src, os.path.join(c.dir, 'p09_%d' % gi), ['-O0'] + vrun.ASAN[1:], ['-ftemplate-depth=2000'], len(g)))
    import specs
    if c.replay is not None:
        h = c.replay.get('how') or {}
        for j in jobs:
            if os.path.basename(j[1]) == h.get('exe'):
                specs.build_all(c, [j[:4]], True)
                specs.replay_one(c, [j[1]], j[4] * reps)
        if not h: specs.build_all(c, [j[:4] for j in jobs], True)
        return
    sizes = {j[1]: j[4] for j in jobs}
    good = specs.build_all(c, [j[:4] for j in jobs], True)
    def go(j): c.run_cases(j[1], sizes[j[1]] * reps, workers=1)
    with ThreadPoolExecutor(vrun.CORES) as ex: list(ex.map(go, good))
