#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY: decide one property of /repo's current working tree.

1. extract the functions the property's contract driver reaches from /repo's
   current sources (extract/cxxir.cpp, clang AST -> JSON);
2. generate and discharge every proof obligation (vcg/), for all inputs;
3. build the same driver as a program against /repo and run it: replays the
   solver's counterexamples, and is the bounded stand-in;
4. write evidence/<PROPERTY>.json and report.
"""
import os
import sys
if __name__ == '__main__' and os.environ.get('PYTHONHASHSEED') != '0':      # reproducible iteration orders
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import hashlib
import json
import multiprocessing as mp
import re
import signal
import subprocess
import time
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
RES = '/usr/lib/llvm-18/lib/clang/18'

from tools import config  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


class NotCompiling(Exception):
    """the contract does not compile against the tree: its functions are missing or have other types"""
    def __init__(self, driver, log):
        self.driver, self.log = driver, log


def build_extractor():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, 'extract/cxxir.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'cxxir-' + h)
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        r = sh(['clang++-18', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
        if r.returncode:
            sys.stderr.write(r.stderr)
            sys.exit('cannot build the extractor')
        os.rename(tmp, out)
    return out


def extract(exe, driver, extra=()):
    cmd = [exe, driver, '--scope=' + REPO + '/', '--scope=' + HERE + '/', '--', '-std=c++14', '-include', HERE + '/drivers/vc_std.hpp', '-fopenmp',
           '-I' + REPO + '/include', '-I' + HERE + '/drivers', '-I' + HERE + '/stubs', '-DVC_SYMBOLIC', '-w',
           '-resource-dir', RES, '-isystem', HERE + '/stubs/omp'] + list(extra)
    r = sh(cmd)
    if r.returncode:
        raise NotCompiling(driver, r.stderr[:6000])
    return json.loads(r.stdout)


def literals():
    """numeric literals of the sources under test: inputs the concrete run tries"""
    vals = set()
    for base, _, files in os.walk(os.path.join(REPO, 'include')):
        for f in files:
            if f.endswith('.hpp'):
                t = open(os.path.join(base, f), errors='replace').read()
                t = re.sub(r'//[^\n]*|/\*.*?\*/|"(\\.|[^"\\\n])*"', ' ', t, flags=re.S)
                for m in re.finditer(r'(?<![\w.])(0[xX][0-9a-fA-F]+|\d+\.?\d*(?:[eE][-+]?\d+)?)[uUlLfF]*(?![\w.])', t):
                    try:
                        x = m.group(1)
                        vals.add(float(int(x, 16)) if x[:2] in ('0x', '0X') else float(x))
                    except ValueError:
                        pass
    return sorted(v for v in vals if abs(v) < 1e7)


def build_concrete(driver, tag, extra=()):
    """-> (executable or None, log)"""
    os.makedirs(BUILD, exist_ok=True)
    inc = os.path.join(BUILD, 'literals-%d.inc' % os.getpid())
    with open(inc, 'w') as f:
        f.write(''.join('%rL,\n' % v for v in literals()))
    out = os.path.join(BUILD, '%s-%d.exe' % (tag, os.getpid()))
    cmd = ['g++', '-std=c++14', '-include', HERE + '/drivers/vc_std.hpp', '-fopenmp', '-O1', '-g1', '-w', '-fsanitize=address,undefined,float-cast-overflow',
           '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-DVC_LITERALS="%s"' % inc, '-I' + REPO + '/include',
           '-I' + HERE + '/drivers', '-I' + HERE + '/stubs', '-I/usr/include/eigen3', driver, '-o', out] + list(extra)
    r = sh(cmd)
    try:
        os.unlink(inc)
    except OSError:
        pass
    if r.returncode:
        return None, r.stderr[:4000]
    return out, ''


CENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0', OMP_DYNAMIC='false', OMP_WAIT_POLICY='passive')


def run_concrete(exe, args, timeout):
    try:
        p = subprocess.run([exe] + args, capture_output=True, text=True, timeout=timeout, env=CENV, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as ex:
        o = ex.stdout or b''
        return -1, o.decode(errors='replace') if isinstance(o, bytes) else o, 'timeout'


def parse_fail(out):
    m = re.search(r'^FAIL (\S+) ?(.*)$', out, re.M)
    if not m:
        return None
    ins = re.findall(r'^INPUT (\S+) ?(.*)$', out[m.start():], re.M)
    return {'prop': m.group(1), 'what': m.group(2), 'inputs': ins}


# ------------------------------------------------------------------ symbolic part
def model_inputs(eng, res):
    """counterexample values of the named inputs, as text, or None"""
    from vcg.term import T, num, is_num, numval, var, app
    from vcg.values import Struct, Seq, FnV, slen, sget
    import z3
    if not res.model or res.model[0] is None:
        return None
    m, z = res.model
    out = {}
    strs = []

    def ev(t):
        r = m.eval(z(t), model_completion=True)
        if t.sort == 'Bool':
            return '1' if z3.is_true(r) else '0'
        if t.sort == 'Int':
            return str(r.as_long()) if z3.is_int_value(r) else '0'
        if z3.is_rational_value(r):
            fr = Fraction(r.numerator_as_long(), r.denominator_as_long())
        elif z3.is_algebraic_value(r):
            r = r.approx(20)
            fr = Fraction(r.numerator_as_long(), r.denominator_as_long())
        else:
            fr = Fraction(0)
        return fr

    def walk(nm, v):
        if isinstance(v, T):
            x = ev(v)
            if v.sort == 'Str':
                strs.append((nm, x))
            else:
                out[nm] = repr(float(x)) if isinstance(x, Fraction) else x
        elif isinstance(v, Struct):
            for k, x in v.f.items():
                walk(nm + '.' + k, x)
        elif isinstance(v, Seq):
            n = int(ev(slen(v)))
            out[nm + '.len'] = str(n)
            if n <= 64:
                for i in range(n):
                    walk('%s[%d]' % (nm, i), sget(v, num(i)))
        elif isinstance(v, FnV):
            for (name, sorts, o), f in z.uf.items():
                if name == v.name or name.startswith(v.name + '.'):
                    try:
                        fi = m[f]
                    except Exception:
                        continue
                    if fi is None:
                        continue
                    for k in range(fi.num_entries()):
                        e = fi.entry(k)
                        key = ','.join(str(e.arg_value(j)) for j in range(e.num_args()))
                        val = e.value()
                        try:
                            val = repr(float(val.as_fraction())) if o == 'Real' else str(val)
                        except Exception:
                            val = '0'
                        out['%s(%s)%s' % (v.name, key, name[len(v.name):])] = val
    try:
        for nm, v in eng.inputs.items():
            walk(nm, v)
        vals = sorted({x for _, x in strs if isinstance(x, Fraction)})
        names = ['s%02d' % i for i in range(len(vals))]
        for nm, x in strs:
            out[nm] = names[vals.index(x)] if isinstance(x, Fraction) else 's00'
    except Exception:
        return None
    return out


def sym_one(ir, key, opts, budget, q):
    """executed in a child process"""
    from vcg import interp, prover
    from vcg.term import show, FALSE
    t0 = time.time()
    res = {'fn': ir['functions'][key]['n'], 'obligations': [], 'undecided': None}
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    try:
        prover.SCALE = opts.get('scale', 1.0)
        eng = interp.Engine(ir, opts)
        eng.deadline = time.time() + budget
        st = interp.State()
        try:
            eng.invoke(st, ir['functions'][key], None, [])
            res['end_reached'] = not st.dead
            if st.dead or prover.prove(st.facts, FALSE, 1.0).status == 'yes':
                res['undecided'] = 'the end of the contract function cannot be reached: its obligations would hold vacuously'
        except interp.Undecided as ex:
            res['undecided'] = str(ex) or 'undecided'
            fr = eng.frames[-1].fn['q'] if eng.frames else '?'
            res['undecided_in'] = fr + ':%s' % eng.cur_line
        except RecursionError:
            res['undecided'] = 'recursion limit'
        except (KeyError, AttributeError, TypeError, IndexError, ValueError, NotImplementedError, AssertionError) as ex:
            res['undecided'] = 'internal: ' + traceback.format_exc(limit=-3)
        for o in eng.obligs:
            d = {'kind': o.kind, 'name': o.name, 'fn': o.fn, 'line': o.line, 'status': o.res.status, 'backend': o.res.backend}
            if o.res.status != 'yes':
                d['goal'] = show(o.goal)[:1500]
                d['abstract'] = o.res.abstract
                d['model'] = model_inputs(eng, o.res)
            res['obligations'].append(d)
        if 'kinds' in opts:      # the others are judged by the checks of other properties
            res['obligations'] = [d for d in res['obligations'] if d['kind'] in opts['kinds']]
        res['arith_ok'] = getattr(eng, 'arith_ok', 0)
        res['used'] = {k: (f.get('file') or '', f.get('l') or 0) for k, f in eng.used.items()}
        res['loops'] = eng.loops
        res['assumed'] = eng.assumed
        res['omp'] = getattr(eng, 'omp_loops', [])
        res['stats'] = dict(prover.STATS)
    except Exception as ex:
        res['undecided'] = 'internal: ' + traceback.format_exc(limit=-3)
    res['time'] = time.time() - t0
    q.put(res)


def sym_all(ir, jobs, limit):
    """jobs: list of (key, opts, budget) -> results in order; at most 8 at a time"""
    ctx = mp.get_context('fork')
    out = [None] * len(jobs)
    pend = list(range(len(jobs)))
    run = {}
    while pend or run:
        while pend and len(run) < 8:
            i = pend.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=sym_one, args=(ir, jobs[i][0], jobs[i][1], jobs[i][2], q))
            p.start()
            run[i] = (p, q, time.time())
        time.sleep(0.01)
        for i in list(run):
            p, q, t = run[i]
            if not q.empty():
                out[i] = q.get()
                p.join()
                del run[i]
            elif not p.is_alive():
                if not q.empty():
                    continue
                out[i] = {'fn': ir['functions'][jobs[i][0]]['n'], 'obligations': [], 'undecided': 'verifier process died', 'time': time.time() - t}
                del run[i]
            elif time.time() - t > jobs[i][2] + 30:
                p.kill()
                p.join()
                out[i] = {'fn': ir['functions'][jobs[i][0]]['n'], 'obligations': [], 'undecided': 'time budget exhausted', 'time': time.time() - t}
                del run[i]
    return out


def ok(r):
    return r['undecided'] is None and all(o['status'] == 'yes' for o in r['obligations'])


def known_findings(prop):
    out = []
    f = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) at=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def check_lemma(name):
    """a lemma over the contracts, proved in lemmas/<name>.lean and checked by Lean's kernel"""
    t = time.time()
    f = os.path.join(HERE, 'lemmas', name + '.lean')
    try:
        p = subprocess.run(['lean', f], capture_output=True, text=True, timeout=400, cwd='/tmp')
        rc, out = p.returncode, p.stdout + p.stderr
    except (OSError, subprocess.TimeoutExpired) as ex:
        rc, out = -1, str(ex)
    ax = re.findall(r"depends on axioms: \[([^\]]*)\]", out)
    good = rc == 0 and len(ax) >= 1 and 'error' not in out and all(set(re.split(r'[,\s]+', a)) <= {'propext', 'Classical.choice', 'Quot.sound'} for a in ax)
    return {'fn': 'prop_lemma_' + name, 'driver': f, 'mode': 'proved' if good else 'open' if rc >= 0 else 'bounded-run', 'undecided': None if rc >= 0 else 'lean could not be run: ' + out[:200], 'time': time.time() - t, 'lemma': True,
            'obligations': [{'kind': 'lemma', 'name': 'lemmas/%s.lean' % name, 'fn': name, 'line': 1, 'status': 'yes' if good else 'no', 'backend': 'lean', 'goal': out[-1500:], 'model': None}]}


def main():
    prop = sys.argv[1]
    verbose = '-v' in sys.argv
    only = [a for a in sys.argv[2:] if not a.startswith('-')]
    nosym, noconc = '--no-sym' in sys.argv, '--no-conc' in sys.argv
    t0 = time.time()
    cfg = config.get(prop)
    thorough = TIER == 'thorough'
    drivers = [os.path.join(HERE, 'drivers', d) for d in cfg.get('drivers', [prop + '.cpp'])]
    exe = build_extractor()
    import concurrent.futures as cf
    pool = cf.ThreadPoolExecutor(8)
    concs = {}
    if not noconc:
        for d in drivers:
            concs[d] = pool.submit(build_concrete, d, os.path.basename(d)[:-4], cfg.get('cxx', ()))
    results, props_of = [], {}
    lemmas = [(l, pool.submit(check_lemma, l)) for l in cfg.get('lemmas', ())] if not only else []
    invs = ()
    if os.path.exists(os.path.join(HERE, 'contracts', prop + '.py')):
        import importlib
        invs = importlib.import_module('contracts.' + prop).INVARIANTS
    for d in drivers:
        ir = extract(exe, d, cfg.get('clang', ()))
        keys = [k for k, f in ir['functions'].items() if f['n'].startswith('prop_') and (not only or f['n'][5:] in only)]
        keys.sort(key=lambda k: (-cfg.get('cost', {}).get(ir['functions'][k]['n'][5:], 0), k))
        props_of[d] = [ir['functions'][k]['n'] for k in keys]
        # executed only: a bounded stand-in, never counted as proved
        for k in keys:
            if ir['functions'][k]['n'][5:] in cfg.get('nosym', ()):
                results.append({'fn': ir['functions'][k]['n'], 'obligations': [], 'undecided': 'outside the reach of the verifier, executed on concrete inputs only', 'mode': 'bounded-run', 'driver': d, 'time': 0.0})
        keys = [k for k in keys if ir['functions'][k]['n'][5:] not in cfg.get('nosym', ())]
        if nosym:
            continue
        jobs = []
        for k in keys:
            n = ir['functions'][k]['n'][5:]
            o = dict(cfg.get('opts', {}))
            o.update(cfg.get('fn_opts', {}).get(n, {}))
            o.setdefault('invariants', invs)
            if 'kinds' in cfg:
                o['kinds'] = cfg['kinds']
            o.setdefault('timeout', 6.0 if not thorough else 20.0)
            jobs.append((k, o, cfg.get('budget', 240) * (3 if thorough else 1)))
        # with 'bounded_only' the unbounded attempt, known to fail, is made in the thorough tier only
        now = [j for j in jobs if thorough or not (ir['functions'][j[0]]['n'][5:] in cfg.get('bounded_only', ()))]
        rn = iter(sym_all(ir, now, 0))
        rs = [next(rn) if j in now else {'fn': ir['functions'][j[0]]['n'], 'obligations': [], 'undecided': 'not attempted without bound', 'time': 0.0} for j in jobs]
        # not proved within the time limits: once more, with larger ones (machine load)
        again = [i for i, (j, r) in enumerate(zip(jobs, rs)) if j in now and not ok(r) and not ir['functions'][j[0]]['n'][5:] in cfg.get('bounded_only', ())]
        if again and time.time() - t0 < 240:
            for i, r in zip(again, sym_all(ir, [(jobs[i][0], dict(jobs[i][1], scale=3.0), min(jobs[i][2] * 2, 300)) for i in again], 0)):
                rs[i] = r
        # other ways to prove a function, in turn
        for alt in range(2):
            aj = [i for i, (j, r) in enumerate(zip(jobs, rs)) if not ok(r) and len(cfg.get('alts', {}).get(ir['functions'][j[0]]['n'][5:], cfg.get('alts', {}).get('*', ()))) > alt]
            if aj and time.time() - t0 < 300:
                ao = lambda i: dict(jobs[i][1], **cfg['alts'].get(ir['functions'][jobs[i][0]]['n'][5:], cfg['alts'].get('*'))[alt])
                for i, r in zip(aj, sym_all(ir, [(jobs[i][0], ao(i), jobs[i][2]) for i in aj], 0)):
                    if ok(r):
                        rs[i] = r
        # bounded stand-ins for what could not be decided for all inputs
        bj, bi = [], []
        for (k, o, b), r in zip(jobs, rs):
            r['driver'] = d
            n = r['fn'][5:]
            r['mode'] = 'proved' if ok(r) else 'open'
            pins = cfg.get('bounded', {}).get(n)
            if not ok(r) and pins:
                for pin in pins:
                    bj.append((k, dict(o, pin=pin), b))
                    bi.append((r, pin))
        if bj:
            for (r, pin), r2 in zip(bi, sym_all(ir, bj, 0)):
                r.setdefault('bounded', []).append((pin, r2))
            for r in rs:
                if 'bounded' in r and all(ok(x) for _, x in r['bounded']):
                    r['mode'] = 'bounded'
        results += rs
    for l, fu in lemmas:
        results.append(fu.result())
    if verbose:
        for r in results:
            print('%-40s %-8s %5.1fs obligations=%d arith=%d %s' % (r['fn'], r['mode'], r['time'], len(r['obligations']), r.get('arith_ok', 0), r['undecided'] or ''), r.get('undecided_in', '') if r['undecided'] else '')
            for o in r['obligations']:
                if o['status'] != 'yes':
                    print('      %s [%s] %s (%s:%s) %s\n          goal %s\n          model %s' % (o['status'], o['kind'], o['name'], o['fn'], o['line'], o['backend'], o['goal'][:600], o['model']))
            for l in r.get('loops', []):
                if l['forgotten']:
                    print('      loop', l)
            for pin, b in r.get('bounded', []):
                print('      bounded', pin, 'ok' if ok(b) else b['undecided'] or [x for x in b['obligations'] if x['status'] != 'yes'][:2])
    # ---------------------------------------------------------------- concrete part
    secs = cfg.get('concrete_s', 3.0) * (10 if thorough else 1)
    creports, violations = {}, []
    exes = {}
    for d, fu in concs.items():
        e, log = fu.result()
        if e is None:
            raise NotCompiling(d, log)
        exes[d] = e
    tasks = []
    try:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        # replay the solver's counterexamples first
        for r in results:
            if ok(r) or r.get('driver') not in exes:
                continue
            for o in r['obligations']:
                if o['status'] == 'no' and o.get('model'):
                    f = os.path.join(BUILD, 'model-%d.txt' % os.getpid())
                    with open(f, 'w') as g:
                        g.write('PROP %s\n' % r['fn'] + ''.join('INPUT %s %s\n' % x for x in o['model'].items()))
                    rc, out, err = run_concrete(exes[r['driver']], ['--replay', f], 60)
                    os.unlink(f)
                    fl = parse_fail(out)
                    if fl:
                        violations.append((r['driver'], fl, out, err, o))
                        break
        for d, e in exes.items():
            for p in props_of[d]:
                open_ = any(r['fn'] == p and r['mode'] == 'open' for r in results)
                n = p[5:]
                s = cfg.get('concrete_fn_s', {}).get(n, secs) * (3 if open_ else 1)
                tasks.append((d, p, pool.submit(run_concrete, e, ['--prop', p, '--time', str(s), '--seed', str(SEED)], s * 3 + 60)))
        for d, p, fu in tasks:
            rc, out, err = fu.result()
            fl = parse_fail(out)
            if fl:
                violations.append((d, fl, out, err, None))
            elif rc == 0:
                m = re.search(r'DONE \S+ runs=(\d+) accepted=(\d+) asserts=(\d+) budget=(\d+) sample=(.*)', out)
                if m:
                    creports[p] = {'runs': int(m.group(1)), 'accepted': int(m.group(2)), 'asserts': int(m.group(3)), 'budget': int(m.group(4)), 'sample': m.group(5)}
            elif rc == -1:
                creports[p] = {'runs': 0, 'accepted': 0, 'note': 'time limit'}
            else:
                # died without a report: crash
                violations.append((d, {'prop': p, 'what': 'crash (exit %d)' % rc, 'inputs': []}, out, err, None))
        if verbose:
            for p, c in creports.items():
                print('  concrete', p, c)
    finally:
        for e in exes.values():
            try:
                os.unlink(e)
            except OSError:
                pass
    # ---------------------------------------------------------------- verdict
    known = known_findings(prop)
    rc = 0
    done = set()
    nviol = 0
    for d, fl, out, err, o in violations:
        if fl['prop'] in done:
            continue
        done.add(fl['prop'])
        at = fl['prop'] + ':' + fl['what'].replace(' ', '_')
        k = next((x for x in known if at.startswith(x[0])), None)
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k[1]))
            continue
        path = os.path.join('replays', '%s-%s.txt' % (prop, fl['prop'][5:]))
        with open(os.path.join(HERE, path), 'w') as g:
            g.write('# replay: bash tools/replay.sh %s %s\nDRIVER %s\nPROP %s\nWHAT %s\n' % (prop, path, os.path.basename(d), fl['prop'], fl['what']))
            g.write(''.join('INPUT %s %s\n' % x for x in fl['inputs']))
            ob = o or next((x for r in results if r['fn'] == fl['prop'] for x in r['obligations'] if x['status'] != 'yes'), None)
            if ob:
                g.write('# failed obligation: [%s] %s in %s:%s\n# goal: %s\n' % (ob['kind'], ob['name'], ob['fn'], ob['line'], ob['goal']))
            g.write('# ' + err[:3000].replace('\n', '\n# ') + '\n')
        print('VIOLATION property=%s replay=%s' % (prop, path))
        nviol += 1
        rc = 1
    # obligations the verifier does not accept, without a failing input
    for r in results:
        if r['mode'] in ('proved', 'bounded', 'bounded-run') or r['fn'] in done:
            continue
        n = r['fn'][5:]
        base = cfg.get('baseline', {}).get(n, 'proved')
        k = next((x for x in known if (r['fn'] + ':proof').startswith(x[0])), None)
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k[1]))
            continue
        if base == 'concrete':
            r['mode'] = 'bounded-run'
            continue
        path = os.path.join('replays', '%s-%s.txt' % (prop, n))
        with open(os.path.join(HERE, path), 'w') as g:
            g.write('DRIVER %s\nPROP %s\nWHAT proof obligations not discharged\n' % (os.path.basename(r['driver']), r['fn']))
            if r['undecided']:
                g.write('# the verifier gave up: %s (in %s)\n' % (r['undecided'], r.get('undecided_in', '?')))
            for o in r['obligations']:
                if o['status'] != 'yes':
                    g.write('# failed obligation: [%s] %s in %s:%s (%s %s)\n#   goal: %s\n#   model: %s\n' % (o['kind'], o['name'], o['fn'], o['line'], o['status'], o['backend'], o['goal'], o['model']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        nviol += 1
        rc = 1
    if not only:
        evidence(prop, cfg, results, creports, nviol, time.time() - t0)
    sys.exit(rc)


def evidence(prop, cfg, results, creports, nviol, wall):
    fns, assumed, loops, omp = {}, {}, [], []
    nob = ndis = 0
    backends, st = {}, {'time': 0.0, 'queries': 0}
    modes = {}
    for r in results:
        modes[r['fn']] = r['mode']
        rr = [r] if r['mode'] != 'bounded' else [x for _, x in r['bounded']]
        for x in rr:
            if r['mode'] == 'proved':
                nob += len(x['obligations']) + x.get('arith_ok', 0)
                ndis += sum(o['status'] == 'yes' for o in x['obligations']) + x.get('arith_ok', 0)
            for o in x['obligations']:
                if o['status'] == 'yes':
                    backends[o['backend']] = backends.get(o['backend'], 0) + 1
            fns.update({k: v for k, v in x.get('used', {}).items() if 'prop_' not in k})
            for k, v in x.get('assumed', {}).items():
                assumed[k] = assumed.get(k, 0) + v
            loops += x.get('loops', [])
            omp += x.get('omp', [])
            for k in ('time', 'queries'):
                st[k] += x.get('stats', {}).get(k, 0)
    repo_fns = sorted(k for k in fns if k.startswith('ieompp') or 'ieompp' in k.split('<')[0])
    ul = {}
    for l in loops:
        ul[(l['function'], l['line'])] = l
    level = 'proof' if cfg.get('level', 'proof') == 'proof' else cfg['level']
    cov = {
        'obligations': nob, 'discharged': ndis,
        'checker_cmd': 'python3-vt tools/check.py %s' % prop,
        'trusted_base': ['extract/cxxir.cpp (clang 18 AST to JSON)', 'vcg/ (symbolic execution, loop rule, simplifier)', 'z3 %s' % _z3(), 'cvc5 1.1.2',
                         'the kernel of Lean 4.33 with Mathlib (lemmas/)' if cfg.get('lemmas') else 'no lemma outside the contracts',
                         'contracts of the C++ standard library in vcg/std.py'],
        'functions_under_contract': repo_fns,
        'contract_functions': modes,
        'bounded_not_proved': {r['fn']: [p for p, _ in r['bounded']] for r in results if r['mode'] == 'bounded'},
        'undecided': {r['fn']: r['undecided'] for r in results if r['undecided']},
        'loop_invariants': [dict(l) for l in ul.values()],
        'parallel_loops_checked_for_races': omp,
        'back_ends': backends, 'solver_s': round(st['time'], 2), 'solver_queries': st['queries'],
        'concrete_runs': creports,
        'evaluations': sum(c.get('runs', 0) for c in creports.values()),
        'distinct_nontrivial': sum(c.get('accepted', 0) for c in creports.values()),
        'rule': 'concrete executions of the contract drivers: enumeration by cost, then random; non-trivial = all preconditions held',
        'samples': [c.get('sample', '') for c in creports.values()][:5],
        'vacuity': {r['fn']: {'end_of_driver_reachable': r.get('end_reached'), 'accepted_concrete_inputs': creports.get(r['fn'], {}).get('accepted', 0)} for r in results},
        'explanation': cfg.get('note', ''),
    }
    ev = {'property': prop, 'tier': 'thorough' if TIER == 'thorough' else 'quick', 'seed': SEED, 'level': level, 'coverage': cov,
          'assumptions': ['assumed contract: %s (%d uses)' % x for x in sorted(assumed.items())] + config.COMMON + cfg.get('assumptions', []),
          'wall_s': round(wall, 2), 'violations': nviol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def _z3():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    try:
        main()
    except NotCompiling as ex:
        path = os.path.join('replays', sys.argv[1] + '-compile.txt')
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        with open(os.path.join(HERE, path), 'w') as g:
            g.write('DRIVER %s\nWHAT the contract does not compile against this tree\n# ' % os.path.basename(ex.driver) + ex.log.replace('\n', '\n# ') + '\n')
        print(ex.log, file=sys.stderr)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (sys.argv[1], path))
        sys.exit(1)
