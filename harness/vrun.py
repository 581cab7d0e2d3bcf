import os, re, sys, json, time, shutil, subprocess, argparse, importlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VM_REPO', '/repo')
CORES = min(8, os.cpu_count() or 4)
WARN = ['-Wno-deprecated-declarations', '-w']
STD = ['-std=c++11']
ASAN = ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
TSAN = ['-O1', '-g1', '-fsanitize=thread', '-fno-omit-frame-pointer']
PLAIN = ['-O1', '-g1']
ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'detect_leaks=1:abort_on_error=0:exitcode=77:handle_abort=1:detect_stack_use_after_return=1:strict_string_checks=1:detect_invalid_pointer_pairs=2:hard_rss_limit_mb=6000:allocator_may_return_null=0:fast_unwind_on_malloc=1:malloc_context_size=12'
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=77'
ENV['LSAN_OPTIONS'] = 'exitcode=77:report_objects=0:max_leaks=5'
ENV['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=0:second_deadlock_stack=1:history_size=4'
ENV['LC_ALL'] = 'C'

class CheckError(Exception): pass

class Ctx:
    """One run of one check."""
    def __init__(s, prop, tier, seed, cases=None, verbose=False):
        s.prop, s.tier, s.seed, s.cases, s.verbose = prop, tier, seed, cases, verbose
        s.t0 = time.time()
        s.viols = []; s.known = []; s.counters = {}; s.samples = []; s.hashes = set(); s.states = set(); s.done = 0
        s.assumptions = []; s.extra = {}
        base = os.path.join(VERIF, '_build'); os.makedirs(base, exist_ok=True)
        s.dir = os.path.join(base, '%s-%d' % (prop, os.getpid()))
        shutil.rmtree(s.dir, ignore_errors=True); os.makedirs(s.dir)
        s.findings = load_findings(prop)
    def log(s, *a):
        print('[%s %6.1fs]' % (s.prop, time.time() - s.t0), *a, flush=True)
    def quick(s): return s.tier == 'quick'
    def count(s, k, n=1): s.counters[k] = s.counters.get(k, 0) + n
    # ---- building
    def compile(s, src, out, flags=ASAN, cxx='g++', extra=(), std=STD, must=True, timeout=600):
        cmd = [cxx] + std + list(flags) + WARN + ['-I' + REPO, '-I' + HERE] + ([src] if isinstance(src, str) else list(src)) + ['-o', out] + list(extra)
        for attempt in (0, 1):
            try: r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
            except subprocess.TimeoutExpired:
                r = None; continue
            if r.returncode == 0: return None
            if 'error:' in r.stderr: break     # a diagnosed error is stable; anything else (killed compiler) is retried
        err = 'compiler timed out' if r is None else '\n'.join([l for l in r.stderr.split('\n') if 'error' in l][:12]) or r.stderr[-1500:]
        if must: raise CheckError('building %s failed: %s' % (src, err))
        return err
    # ---- reporting
    def violation(s, key, detail, inp='', case=None, how=None):
        f = s.match_finding(key, inp)
        if f is not None:
            if f not in s.known: s.known.append(f)
            return
        if any(v['key'] == key for v in s.viols) and len(s.viols) > 5: return
        s.viols.append(dict(property=s.prop, key=key, detail=detail, input=inp, case=case, seed=s.seed, tier=s.tier, how=how))
    def match_finding(s, key, inp):
        for f in s.findings:
            if f['key'] == key and (f.get('input') in (None, '', inp)): return f
        return None
    # ---- running a monitor binary over a range of cases
    def run_cases(s, exe, total, workers=None, env=None, args=(), prefix=None, cpu=30, wall=None, tool=None, label=''):
        workers = workers or CORES - 1
        chunks = max(workers, min(total // 50 or 1, workers * 3))
        step = (total + chunks - 1) // chunks
        jobs = [(k, k * step, min(step, total - k * step)) for k in range(chunks) if k * step < total]
        with ThreadPoolExecutor(workers) as ex:
            for _ in ex.map(lambda j: s._slice(exe, j[1], j[2], env, args, prefix, cpu, wall, tool, label), jobs): pass
    def _exec(s, exe, first, n, env, args, prefix, cpu, wall, tag):
        out = os.path.join(s.dir, 'out-%s-%d-%d-%s.json' % (os.path.basename(exe), first, n, tag))
        cmd = (prefix or []) + [exe, str(s.seed), str(first), str(n), out, str(cpu)] + list(args)
        e = dict(ENV); e.update(env or {})
        try:
            r = subprocess.run(cmd, capture_output=True, timeout=wall or (700 if s.quick() else 7200), env=e, cwd=s.dir)
            so, se, rc = r.stdout.decode('latin1'), r.stderr.decode('latin1'), r.returncode
        except subprocess.TimeoutExpired as x:
            so, se, rc = (x.stdout or b'').decode('latin1'), (x.stderr or b'').decode('latin1'), -99
        st = None
        if os.path.exists(out):
            try: st = json.load(open(out))
            except Exception: st = None
            os.unlink(out)
        return rc, so, se, st
    def _slice(s, exe, first, n, env, args, prefix, cpu, wall, tool, label):
        end = first + n
        restarts = 0
        while first < end and len(s.viols) < 12 and restarts < 6 and not (s.viols and s.quick() and time.time() - s.t0 > 200):
            rc, so, se, st = s._exec(exe, first, end - first, env, args, prefix, cpu, wall, 'a')
            for l in so.split('\n'):
                if l.startswith('@VIOL '):
                    v = json.loads(l[6:])
                    key = v['key']
                    if key == 'leak': key = 'leak:' + leak_site(se)
                    s.violation(label + key, v['detail'] + (('\n' + tail_report(se)) if key.startswith('leak') else ''), v['input'], v['case'], how=dict(exe=os.path.basename(exe), args=list(args), first=first, count=end - first))
            if st is not None: s.merge(st)
            if rc in (0, 1) and st is not None: return
            if tool and tool(s, rc, so, se, first, end): return
            # died: crash, sanitizer report, hang, failed assertion
            case = re.search(r'@(DIED|HANG) case=(-?\d+)', se)
            inp = re.search(r'@INPUT (.*)', se); ph = re.search(r'@PHASE (.*)', se)
            inp = inp.group(1) if inp else ''
            ph = ph.group(1) if ph else ''
            c = int(case.group(2)) if case else None
            if rc == -99: raise CheckError('monitor did not finish within its wall clock limit')
            if rc == -9 and not case: raise CheckError('monitor was killed (out of memory?)')
            hang = bool(case and case.group(1) == 'HANG')
            if hang and any('hang:' in v['key'] for v in s.viols): return      # one confirmed hang is enough; each costs its full limit
            key = label + ('hang:' + ph if hang else crash_key(rc, se, ph))
            # confirm on the single case before believing it
            ok = False
            if c is not None and c >= 0:
                rc2, so2, se2, st2 = s._exec(exe, c, 1, env, args, prefix, cpu * 3 if hang else cpu, wall, 'b')
                ok = rc2 not in (0, 1, -99) or (st2 is None and rc2 != -99)
            if not ok:
                rc2, so2, se2, st2 = s._exec(exe, first, end - first, env, args, prefix, cpu * 2 if hang else cpu, wall, 'c')
                ok = rc2 not in (0, 1, -99)
            if ok: s.violation(key, 'phase "%s": ' % ph + tail_report(se), inp, c, how=dict(exe=os.path.basename(exe), args=list(args), first=first, count=end - first))
            else: raise CheckError('a run died (exit %d, phase %s, input %s) but not again: %s' % (rc, ph, inp[:300], se[-800:]))
            restarts += 1
            if c is None: return
            s.done += max(0, c - first)
            first = c + 1
    def run_cases_one(s, exe, first, n, **kw):
        s._slice(exe, first, n, kw.get('env'), kw.get('args', ()), kw.get('prefix'), kw.get('cpu', 60), None, kw.get('tool'), kw.get('label', ''))
    def merge(s, st):
        s.done += st.get('done', 0)
        for k, v in st.get('counters', {}).items(): s.count(k, v)
        for x in st.get('samples', []):
            if len(s.samples) < 8 and x not in s.samples: s.samples.append(x)
        s.hashes.update(st.get('hashes', [])); s.states.update(st.get('states', []))
    # ---- the end
    def finish(s, spec):
        for f in s.findings:
            if f in s.known: print('KNOWN-FINDING: property=%s %s' % (s.prop, f['what']), flush=True)
        rd = os.path.join(VERIF, 'evidence', 'replay'); 
        code = 0
        if s.viols:
            os.makedirs(rd, exist_ok=True)
            code = 1
            seen = set()
            for i, v in enumerate(s.viols[:10]):
                if v['key'] in seen: continue
                seen.add(v['key'])
                p = os.path.join(rd, '%s-%d.json' % (s.prop, i))
                json.dump(v, open(p, 'w'), indent=1)
                s.log('violated: %s\n    input: %s\n    %s' % (v['key'], str(v['input'])[:600], v['detail'][:1800].replace('\n', '\n    ')))
                print('VIOLATION property=%s replay=%s' % (s.prop, p), flush=True)
        cov = dict(evaluations=int(s.done), distinct_nontrivial=len(s.hashes), rule=spec['rule'], samples=s.samples[:8] or ['(none)'],
                   observed=s.counters, distinct_situations=len(s.states))
        cov.update(s.extra)
        ev = dict(property=s.prop, tier=s.tier, seed=s.seed, level='exploration', coverage=cov, wall_s=round(time.time() - s.t0, 2),
                  assumptions=spec.get('assumptions', []) + s.assumptions, violations=len(s.viols))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', s.prop + '.json'), 'w'), indent=1)
        s.log('%d cases, %d distinct non-trivial, %d situations, %s -> %s' % (s.done, len(s.hashes), len(s.states), json.dumps(s.counters), 'VIOLATED' if code else 'held'))
        return code

def load_findings(prop):
    """KNOWN_FINDINGS.txt: 'finding: property=<id> key=<key> [input=<input>] :: <what fails>' and 'fixed: ...' lines."""
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key="([^"]*)"(?: input="([^"]*)")? :: (.*)', l.strip())
            if m and m.group(1) == prop: out.append(dict(key=m.group(2), input=m.group(3), what=m.group(4)))
    return out

def lib_frames(se):
    fr = re.findall(r'#\d+ 0x[0-9a-f]+ (?:in )?(.+?) (/\S+?):\d+', se)
    return [(f, p) for f, p in fr if '/viennamath/' in p]
def short(fn):
    fn = re.sub(r'<.*', '', re.sub(r'\(.*', '', fn))
    return fn.strip().split(' ')[-1]
def leak_site(se):
    fr = lib_frames(se)
    return (short(fr[0][0]) + '@' + os.path.basename(fr[0][1])) if fr else 'unknown'
def crash_key(rc, se, ph):
    m = re.search(r'SUMMARY: (\w+): (\S+)', se)
    if m:
        kind = m.group(1) + ':' + m.group(2)
        if 'detected memory leaks' in se or 'byte(s) leaked' in se: return 'leak:' + leak_site(se)
    else:
        m = re.search(r'runtime error: (.*)', se)
        kind = 'UB:' + re.sub(r'0x[0-9a-f]+|\d+', 'N', m.group(1))[:80] if m else 'exit %d' % rc
    if 'Assertion' in se:
        a = re.search(r'Assertion .(.*). failed', se); kind = 'assertion:' + (a.group(1)[:80] if a else '')
    fr = lib_frames(se)
    return kind + ' in ' + ((short(fr[0][0]) + '@' + os.path.basename(fr[0][1])) if fr else '?')
def tail_report(se):
    i = max(se.find('ERROR: '), se.find('runtime error'), se.find('WARNING: '))
    i = se.rfind('\n', 0, i) + 1 if i >= 0 else max(0, len(se) - 1500)
    return se[i:i + 2500]

def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--cases', type=int); ap.add_argument('--replay'); ap.add_argument('--keep', action='store_true')
    a = ap.parse_args(argv)
    import specs
    if a.prop not in specs.SPECS: print('unknown property', a.prop); return 2
    spec = specs.SPECS[a.prop]
    rep = json.load(open(a.replay)) if a.replay else None
    if rep: a.seed = rep['seed']; a.tier = rep['tier']
    c = Ctx(a.prop, a.tier, a.seed, a.cases)
    c.replay = rep
    try:
        spec['run'](c, spec)
        return c.finish(spec)
    except CheckError as x:
        if c.viols: return c.finish(spec)
        print('CHECK-ERROR property=%s %s' % (a.prop, x), flush=True)
        return 2
    finally:
        if not a.keep: shutil.rmtree(c.dir, ignore_errors=True)
