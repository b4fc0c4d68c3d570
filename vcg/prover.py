"""Discharge of verification conditions: simplification, interval reasoning,
z3, and cvc5 as a second back end."""
import time, subprocess, tempfile, os
from fractions import Fraction
import z3
from .term import *
from . import term as tm

STATS = {'interval': 0, 'syntactic': 0, 'z3': 0, 'cvc5': 0, 'time': 0.0, 'queries': 0}
INF = float('inf')


class Facts:
    """immutable linked list of assumed formulas, with propagated variable bounds"""
    __slots__ = ('parent', 'f', 'depth', '_env', '_set', '_cache', '_list')

    def __init__(self, parent=None, f=None):
        self.parent = parent
        self.f = f
        self.depth = parent.depth + 1 if parent else 0
        self._env = None
        self._set = None
        self._cache = {}
        self._list = None

    def add(self, *fs):
        r = self
        for f in fs:
            if f is TRUE:
                continue
            if f.op == 'and':
                r = r.add(*f.args)
                continue
            if f in r.set():
                continue
            r = Facts(r, f)
        return r

    def list(self):
        if self._list is None:
            out = []
            x = self
            while x.parent is not None:
                out.append(x.f)
                x = x.parent
            out.reverse()
            self._list = out
        return self._list

    def set(self):
        if self._set is None:
            self._set = (self.parent.set() | {self.f}) if self.parent else frozenset()
        return self._set

    def since(self, base):
        out = []
        x = self
        while x is not base and x.parent is not None:
            out.append(x.f)
            x = x.parent
        out.reverse()
        return out

    def env(self):
        if self._env is None:
            if self.parent is None:
                self._env = {}
            else:
                e = dict(self.parent.env())
                if self.f.op in ('le0', 'lt0', 'eq0'):
                    changed = _propagate(self.f, e)
                    if changed:
                        for _ in range(3):
                            c2 = False
                            for g in self.list():
                                if g.op in ('le0', 'lt0', 'eq0') and any(v in changed for v in g.fv):
                                    s = _propagate(g, e)
                                    if s:
                                        changed |= s
                                        c2 = True
                            if not c2:
                                break
                self._env = e
        return self._env


NOFACTS = Facts()


def _propagate(f, env):
    changed = set()
    if f.op == 'eq0':
        a = _prop_le(f.args[0], env, False)
        b = _prop_le(neg(f.args[0]), env, False)
        return a | b
    return _prop_le(f.args[0], env, f.op == 'lt0')


def _prop_le(p, env, strict):
    """p <= 0"""
    changed = set()
    d = pol(p)
    if len(d) > 8:
        return changed
    for m, c in d.items():
        if len(m) != 1 or m[0][1] != 1:
            continue
        x = m[0][0]
        rest_lo = 0
        ok = True
        for m2, c2 in d.items():
            if m2 == m:
                continue
            lo, hi = _mono_bounds(m2, env)
            v = c2 * lo if c2 > 0 else c2 * hi
            if v != v or v == -INF or v == INF:
                ok = False
                break
            rest_lo += v
        if not ok:
            continue
        # c*x <= -rest_lo
        b = Fraction(-rest_lo) / Fraction(c)
        if x.sort == 'Int':
            b = math.floor(b) if c > 0 else math.ceil(b)
        lo, hi = env.get(x) or _atom_default(x, env)
        if c > 0 and b < hi:
            env[x] = (lo, b)
            changed.add(x)
        elif c < 0 and b > lo:
            env[x] = (b, hi)
            changed.add(x)
    return changed


def _atom_default(x, env):
    if x.op == 'ite' and x.sort in ('Int', 'Real'):
        a = bounds(x.args[1], env)
        b = bounds(x.args[2], env)
        return (min(a[0], b[0]), max(a[1], b[1]))
    if x.op == 'toreal':
        return bounds(x.args[0], env)
    if x.op in ('mod', 'emod'):
        lo, hi = bounds(x.args[1], env)
        alo, ahi = bounds(x.args[0], env)
        if lo > 0:
            if x.op == 'emod' or alo >= 0:
                return (0, min(hi - 1, ahi if alo >= 0 else INF))
            return (-(hi - 1), hi - 1)
    if x.op == 'div':
        lo, hi = bounds(x.args[1], env)
        alo, ahi = bounds(x.args[0], env)
        if lo > 0 and alo >= 0:
            return (0, INF if ahi == INF else math.floor(Fraction(ahi) / Fraction(lo)) if lo != INF else ahi)
    if x.op == 'app':
        n = x.args[0]
        if n == 'pi':
            return (Fraction(314159, 100000), Fraction(314160, 100000))
        if n in ('cos', 'sin'):
            return (-1, 1)
        if n == 'char':
            return (-128, 127)
        if n in tm.LENGTHS:
            return (0, 1 << 60)
    if x.op in ('floor', 'round'):
        a = bounds(x.args[0], env)
        return (a[0] - 1 if a[0] != -INF else -INF, a[1] + 1 if a[1] != INF else INF)
    if x.op == 'sum' and x.sort in ('Int', 'Real'):
        b = bounds(x.args[3], env)
        lo, hi = bounds(x.args[2], env)
        hi = max(hi, 0)
        mul_ = lambda x: 0 if x == 0 or hi == 0 else x * hi
        return (mul_(min(b[0], 0)), mul_(max(b[1], 0)))
    return (-INF, INF)


def _mulb(a, b):
    c = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                c.append(0)
            else:
                c.append(x * y)
    return (min(c), max(c))


def _mono_bounds(m, env):
    r = (1, 1)
    for x, e in m:
        b = env.get(x)
        if b is None or b[0] == -INF or b[1] == INF:
            d = _atom_default(x, env)
            b = d if b is None else (max(b[0], d[0]), min(b[1], d[1]))
        if e > 0:
            if e % 2 == 0 and b[0] < 0:
                mx = max(abs(b[0]), abs(b[1]))
                p = (0, mx * mx if e == 2 else mx ** e if mx != INF else INF)
                r = _mulb(r, p)
            else:
                for _ in range(e):
                    r = _mulb(r, b)
        else:
            if b[0] > 0:
                ib = (0 if b[1] == INF else Fraction(1) / Fraction(b[1]), Fraction(1) / Fraction(b[0]))
                for _ in range(-e):
                    r = _mulb(r, ib)
            else:
                return (-INF, INF)
    return r


def bounds(t, env):
    if t.op != 'poly':
        return _mono_bounds(((t, 1),), env)
    lo = hi = 0
    for m, c in t.args:
        b = _mono_bounds(m, env) if m else (1, 1)
        if c > 0:
            l, h = (c * b[0] if b[0] != -INF else -INF), (c * b[1] if b[1] != INF else INF)
        else:
            l, h = (c * b[1] if b[1] != INF else -INF), (c * b[0] if b[0] != -INF else INF)
        lo += l
        hi += h
    return (lo, hi)


def quick(facts, g):
    """cheap decision; True / False / None"""
    if g is TRUE:
        return True
    if g is FALSE:
        return False
    s = facts.set()
    if g in s:
        return True
    if not_(g) in s:
        return False
    if g.op == 'and':
        r = [quick(facts, x) for x in g.args]
        if any(x is False for x in r):
            return False
        if all(x is True for x in r):
            return True
        return None
    if g.op == 'or':
        r = [quick(facts, x) for x in g.args]
        if any(x is True for x in r):
            return True
        if all(x is False for x in r):
            return False
        return None
    if g.op == 'not':
        r = quick(facts, g.args[0])
        return None if r is None else not r
    if g.op in ('le0', 'lt0', 'eq0'):
        env = facts.env()
        lo, hi = bounds(g.args[0], env)
        if g.op == 'le0':
            if hi <= 0: return True
            if lo > 0: return False
        elif g.op == 'lt0':
            if hi < 0: return True
            if lo >= 0: return False
        else:
            if lo == hi == 0: return True
            if lo > 0 or hi < 0: return False
    return None


def _params(t, bound, ps, memo):
    if not t.fv:
        return t
    if not (t.fv & bound) and t.op != 'sum':
        if t not in ps:
            ps.append(t)
        return var('$p%d%s' % (ps.index(t), t.sort), t.sort)
    key = (t, bound)
    r = memo.get(key)
    if r is None:
        if t.op in ('sum', 'forall', 'exists'):
            inner = bound | {t.args[0]}
            r = tm._mk(t.op, (t.args[0],) + tuple(_params(c, inner if i == len(t.args) - 2 else bound, ps, memo) for i, c in enumerate(t.args[1:])), t.sort)
        else:
            r = t if t in bound else tm.rebuild(t, lambda c: _params(c, bound, ps, memo)) if t.op != 'var' else t
        memo[key] = r
    return r


# ---------------------------------------------------------------- z3
class Z:
    def __init__(self):
        self.memo = {}
        self.linear = self.nonlinear = False
        self.axioms = []
        self.done = set()
        self.uf = {}
        self.strs = {}
        self.abstract = False     # sums / quantifiers / transcendental functions involved

    def srt(self, s):
        return {'Int': z3.IntSort(), 'Real': z3.RealSort(), 'Bool': z3.BoolSort(), 'Str': z3.RealSort()}[s]

    def fn(self, name, sorts, out):
        k = (name, tuple(sorts), out)
        if k not in self.uf:
            self.uf[k] = z3.Function(name + '/' + '_'.join(s[0] for s in sorts), *([self.srt(s) for s in sorts] + [self.srt(out)]))
        return self.uf[k]

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.tr(t)
            self.memo[t] = r
        return r

    def tr(self, t):
        op, a = t.op, t.args
        if op == 'var':
            return z3.Const(a[0], self.srt(t.sort))
        if op == 'const':
            if t.sort == 'Bool':
                return z3.BoolVal(a[0])
            v = z3.Real('str:%d' % t.id)
            for o, ov in self.strs.items():
                self.axioms.append(ov < v if o.encode() < a[0].encode() else ov > v)
            self.strs[a[0]] = v
            return v
        if op == 'poly':
            real = t.sort == 'Real'
            out = []
            for m, c in a:
                f = []
                den = []
                for x, e in m:
                    zx = self(x)
                    (f if e > 0 else den).extend([zx] * abs(e))
                if self.linear and len(f) + len(den) > 1:
                    # products as values of an uninterpreted function
                    self.nonlinear = True
                    h = self.fn('product', [t.sort] * 2, t.sort)
                    hd = self.fn('quotient', [t.sort] * 2, t.sort) if den else None
                    p = f[0] if f else (z3.RealVal(1) if real else z3.IntVal(1))
                    for y in f[1:]:
                        p = h(p, y)
                    for y in den:
                        p = hd(p, y)
                    f, den = [p], []
                if c != 1 or not f:
                    if real:
                        fr = Fraction(c)
                        f.insert(0, z3.Q(fr.numerator, fr.denominator))
                    else:
                        f.insert(0, z3.IntVal(c))
                p = f[0]
                for y in f[1:]:
                    p = p * y
                for y in den:
                    p = p / y
                out.append(p)
            if not out:
                return z3.RealVal(0) if real else z3.IntVal(0)
            return z3.Sum(out) if len(out) > 1 else out[0]
        if op == 'app':
            args = a[1:]
            n = a[0]
            if n in ('cos', 'sin', 'sqrt', 'exp'):
                self.abstract = True
            f = self.fn(n, [x.sort for x in args], t.sort) if args else z3.Const('app:' + n, self.srt(t.sort))
            r = f(*[self(x) for x in args]) if args else f
            if n == 'pi':
                self.axioms += [r > z3.Q(314159, 100000), r < z3.Q(314160, 100000)]
            elif n in ('cos', 'sin'):
                self.axioms += [r <= 1, r >= -1] if not any(x.op == 'var' and x.args[0].startswith('$') for x in t.fv) else []
            return r
        if op == 'sum':
            # a function of the largest subterms that do not contain the summation variable:
            # sums that differ only in these are instances of the same function
            self.abstract = True
            ps = []
            shape = _params(t, frozenset(), ps, {})
            f = self.fn('sum#%d' % shape.id, [v.sort for v in ps], t.sort) if ps else z3.Const('sum#%d' % shape.id, self.srt(t.sort))
            r = f(*[self(v) for v in ps]) if ps else f
            if t.sort in ('Int', 'Real') and not any(v.args[0].startswith('$') for v in t.fv):
                lo, hi = bounds(a[3], {})
                n = self(toreal(sub(a[2], a[1])) if t.sort == 'Real' else sub(a[2], a[1]))
                q = (lambda b: z3.Q(Fraction(b).numerator, Fraction(b).denominator)) if t.sort == 'Real' else (lambda b: z3.IntVal(int(b)))
                if lo != -INF:
                    self.axioms.append(z3.Implies(n >= 0, r >= q(lo) * n))
                if hi != INF:
                    self.axioms.append(z3.Implies(n >= 0, r <= q(hi) * n))
            return r
        if op in ('forall', 'exists'):
            self.abstract = True
            if self.linear and op == 'forall':
                # quantifiers to the front
                vs, x = [a[0]], a[1]
                while True:
                    if x.op == 'forall':
                        vs.append(x.args[0])
                        x = x.args[1]
                        continue
                    if x.op == 'or':
                        inner = [y for y in x.args if y.op == 'forall']
                        if len(inner) == 1 and inner[0].args[0] not in vs:
                            vs.append(inner[0].args[0])
                            x = or_(*[y for y in x.args if y is not inner[0]], inner[0].args[1])
                            continue
                    break
                self.nonlinear |= len(vs) > 1
                return z3.ForAll([self(v) for v in vs], self(x))
            b = self(a[0])
            body = self(a[1])
            return z3.ForAll([b], body) if op == 'forall' else z3.Exists([b], body)
        if op == 'not': return z3.Not(self(a[0]))
        if op == 'and': return z3.And([self(x) for x in a])
        if op == 'or': return z3.Or([self(x) for x in a])
        if op in ('iff', 'eq'): return self(a[0]) == self(a[1])
        if op == 'slt': return self(a[0]) < self(a[1])
        if op == 'le0': return self(a[0]) <= 0
        if op == 'lt0': return self(a[0]) < 0
        if op == 'eq0': return self(a[0]) == 0
        if op == 'ite': return z3.If(self(a[0]), self(a[1]), self(a[2]))
        if op == 'inv': return z3.RealVal(1) / self(a[0])
        if op == 'toreal': return z3.ToReal(self(a[0]))
        if op == 'toint':
            x = self(a[0])
            return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        if op == 'round':
            x = self(a[0])
            return z3.If(x >= 0, z3.ToInt(x + z3.Q(1, 2)), -z3.ToInt(-x + z3.Q(1, 2)))
        if op == 'floor':
            return z3.ToInt(self(a[0]))
        if op == 'emod':
            return self(a[0]) % self(a[1])
        if op in ('div', 'mod'):
            x, y = self(a[0]), self(a[1])
            if is_num(a[1]) and numval(a[1]) > 0:
                if op == 'div':
                    return z3.If(x >= 0, x / y, -((-x) / y))
                return z3.If(x >= 0, x % y, -((-x) % y))
            fvs = t.fv
            bound = [v for v in fvs if v.args[0].startswith('$b')]
            qf = self.fn('cdiv', ['Int', 'Int'], 'Int')
            rf = self.fn('cmod', ['Int', 'Int'], 'Int')
            q, r = qf(x, y), rf(x, y)
            key = (a[0], a[1])
            if key not in self.done:
                self.done.add(key)
                ax = z3.And(z3.Implies(z3.And(x >= 0, y > 0), z3.And(x == y * q + r, r >= 0, r < y, q >= 0, q <= x)),
                            z3.Implies(z3.And(x >= 0, x < y), z3.And(q == 0, r == x)),
                            z3.Implies(z3.And(x >= y, x < 2 * y, y > 0), z3.And(q == 1, r == x - y)))
                if bound:
                    ax = z3.ForAll([self(v) for v in bound], ax)
                self.axioms.append(ax)
            return q if op == 'div' else r
        raise NotImplementedError(op)


def relevant(facts, g, extra=()):
    fs = facts.list()
    seen = set(g.fv)
    for e in extra:
        seen |= e.fv
    out = []
    rest = list(fs)
    ch = True
    while ch:
        ch = False
        nr = []
        for f in rest:
            if not f.fv or (f.fv & seen):
                out.append(f)
                new = f.fv - seen
                if new:
                    seen |= new
                    ch = True
            else:
                nr.append(f)
        rest = nr
    return out


_pcache = {}


def positive(fs):
    """bounds from simple facts; strictly positive reals are noted separately"""
    env = {}
    pos = set()
    for f in fs:
        if f.op in ('le0', 'lt0') :
            d = pol(f.args[0])
            if len(d) == 1:
                (m, c), = d.items()
                if c < 0 and len(m) == 1 and m[0][1] == 1 and f.op == 'lt0':
                    pos.add(m[0][0])
            if len(d) <= 2:
                _prop_le(f.args[0], env, f.op == 'lt0')
    for x in pos:
        lo, hi = env.get(x, (0, INF))
        env[x] = (max(lo, 0), hi)
    env['pos!'] = pos
    return env


_pieces = {}


def pieces(f):
    """a universally quantified fact as several ones without conditionals on the bound variable,
    each shifted so that functions are applied to the bound variable itself (triggers)"""
    r = _pieces.get(f)
    if r is not None:
        return r
    v, body = open_forall(f)
    out = []

    def split(b, n):
        if b is TRUE:
            return
        c = None
        for x in subterms(b):
            if x.op == 'ite' and v in x.args[0].fv and not any(y.args[0].startswith('$b') for y in x.args[0].fv):
                c = x.args[0]
                while c.op in ('and', 'or', 'not', 'iff'):
                    c = c.args[0]
                if c.op in ('le0', 'lt0', 'eq0', 'eq', 'slt', 'var', 'app'):
                    break
                c = None
        if c is not None and n < 4:
            split(implies(c, assume(b, c)), n + 1)
            split(implies(not_(c), assume(b, not_(c))), n + 1)
            return
        if v.sort == 'Int':
            offs = set()
            for x in subterms(b):
                if x.op == 'app':
                    for y in x.args[1:]:
                        if y.sort == 'Int' and v in y.fv:
                            d = sub(y, v)
                            offs.add(d if v not in d.fv else None)
            if len(offs) == 1:
                d = next(iter(offs))
                if d is not None and d is not ZERO:
                    b = subst(b, {v: sub(v, d)})
        out.append(forall(v, b))
    split(body, 0)
    _pieces[f] = out
    return out


SCALE = 1.0     # of all time limits (a second attempt gets larger ones)


def solve(fs, g, timeout):
    """-> ('yes'|'no'|'unknown', model-or-None, abstract?, backend)"""
    timeout = timeout * SCALE
    if any(f.op == 'forall' for f in fs):
        # products of unknowns as uninterpreted functions first: nonlinear arithmetic and
        # quantifiers do not go well together
        z = Z()
        z.linear = True
        zs = [z(p) for f in fs for p in (pieces(f) if f.op == 'forall' else (f,))]
        zg = z(g)
        if z.nonlinear:
            s = z3.Solver()
            s.set('timeout', int(min(timeout, SCALE) * 1000))
            s.set('random_seed', 1)
            s.add(*zs)
            s.add(*z.axioms)
            s.add(z3.Not(zg))
            t0 = time.time()
            r = s.check()
            STATS['time'] += time.time() - t0
            STATS['queries'] += 1
            if r == z3.unsat:
                return 'yes', None, True, 'z3'
            if r == z3.unknown and timeout >= 1 and cvc5_check(s, 1.0) == 'unsat':
                STATS['cvc5'] += 1
                return 'yes', None, True, 'cvc5'
    z = Z()
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.set('random_seed', 1)
    env = positive(fs)
    fs = [or_(*[strip_factor(x, env) for x in f.args]) if f.op == 'or' else strip_factor(f, env) for f in fs]
    g = strip_factor(g, env)
    zs = [z(p) for f in fs for p in (pieces(f) if f.op == 'forall' else (f,))]
    zg = z(g)
    s.add(*zs)
    s.add(*z.axioms)
    s.add(z3.Not(zg))
    t0 = time.time()
    r = s.check()
    STATS['time'] += time.time() - t0
    STATS['queries'] += 1
    if r == z3.unsat:
        return 'yes', None, z.abstract, 'z3'
    if r == z3.sat:
        try:
            m = s.model()
        except z3.Z3Exception:
            m = None
        return 'no', (m, z), z.abstract, 'z3'
    return 'unknown', None, z.abstract, s


def cvc5_check(s, timeout):
    txt = s.to_smt2()
    txt = '(set-logic ALL)\n' + '\n'.join(l for l in txt.splitlines() if not l.startswith('(set-info'))
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    f.write(txt)
    f.close()
    t0 = time.time()
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--seed=1', f.name],
                           capture_output=True, text=True, timeout=timeout + 5)
        out = p.stdout.strip().splitlines()
    except subprocess.TimeoutExpired:
        out = []
    finally:
        os.unlink(f.name)
    STATS['time'] += time.time() - t0
    return out[0] if out else 'unknown'


class Result:
    __slots__ = ('status', 'model', 'abstract', 'backend', 'time', 'goal')

    def __init__(self, status, model=None, abstract=False, backend=None, goal=None):
        self.status = status
        self.model = model
        self.abstract = abstract
        self.backend = backend
        self.goal = goal


def prove(facts, g, timeout=2.0, deep=True):
    q = quick(facts, g)
    if q is True:
        STATS['interval'] += 1
        return Result('yes', backend='simplifier/interval')
    key = (id(facts), g, timeout, deep)
    r = facts._cache.get((g, deep))
    if r is not None and (r[0].status != 'unknown' or r[1] >= timeout):
        return r[0]
    res = _prove(facts, g, timeout, deep)
    facts._cache[(g, deep)] = (res, timeout)
    return res


def _prove(facts, g, timeout, deep):
    if g.op == 'and':
        worst = Result('yes', backend='conj')
        for x in g.args:
            r = prove(facts, x, timeout, deep)
            if r.status == 'no':
                return r
            if r.status == 'unknown':
                worst = r
            elif worst.status == 'yes':
                worst = r if worst.backend == 'conj' else worst
        return worst
    if deep and any(x.op in ('mod', 'emod') for x in subterms(g)):
        g2 = unwrap(g, facts)
        if g2 is not g:
            return prove(facts, g2, timeout)
    if deep and g.op == 'le0' and g.args[0].sort == 'Int' and any(x.op == 'app' and x.args[0] in tm.LENGTHS for x in subterms(g)) and _has_sum(g):
        g2 = sum_bound(g, facts)
        if g2 is not g:
            r = prove(facts, g2, timeout)
            if r.status == 'yes':
                return r
    if deep and any(x.op in ('div', 'mod') and not is_num(x.args[1]) and x.args[0].op == 'poly' for x in subterms(g)):
        g2 = simp_div(g, facts, {})
        if g2 is not g:
            return prove(facts, g2, timeout)
    if deep and _has_sum(g):
        g2 = peel(g, facts)
        if g2 is not g:
            return prove(facts, g2, timeout)
    if deep and g.op == 'eq0':
        g2 = unify_choices(facts, g)
        if g2 is TRUE:
            return Result('yes', backend='congruence')
        if g2 is not g:
            return prove(facts, g2, timeout)
    if deep:
        c = ground_cond(g)
        if c is None:
            c = bound_cond(g)
        if c is not None:
            last = None
            for b in (c, not_(c)):
                f2 = facts.add(b)
                if decide(facts, not_(b), 0.3) is True:
                    continue
                g2 = assume(g, b)
                if g2 is g:
                    last = None
                    break
                last = prove(f2, g2, timeout)
                if last.status != 'yes':
                    return last
            if last is not None:
                return last
    if g.op == 'forall':
        v, body = open_forall(g)
        return prove(facts, body, timeout, deep)
    if g.op == 'or' and deep:
        # assume the negation of all but the last quantifier-free disjunct
        eqs = [x for x in g.args if _has_sum(x) or x.op == 'forall']
        if not eqs:
            eqs = [x for x in g.args if x.op == 'eq0' and x.args[0].sort == 'Real' and any(y.op == 'ite' for y in subterms(x))]
        if len(eqs) == 1:
            rest = [x for x in g.args if x is not eqs[0]]
            f2 = facts.add(*[not_(x) for x in rest])
            gg = assume_all(eqs[0], [not_(x) for x in rest])
            return prove(f2, gg, timeout, deep)
    if deep and g.op == 'eq0' and _has_sum(g):
        if any(f.op == 'forall' and _has_sum(f) for f in facts.list()):
            # facts about sums: treat sums as functions first
            st, m, ab, be = solve(relevant(facts, g), g, min(timeout, 2.0))
            if st == 'yes':
                STATS['z3'] += 1
                return Result('yes', backend='z3')
        r = prove_sum_eq(facts, g.args[0], timeout)
        if r is not None and r.status == 'yes':
            return r
        p2 = tidy(g.args[0], facts)
        if p2 is not g.args[0]:
            return prove(facts, eq(p2, num(0, p2.sort)), timeout)
        p2 = triangular(g.args[0])
        if p2 is not g.args[0]:
            g2 = eq(p2, num(0, p2.sort))
            if g2 is TRUE:
                return Result('yes', backend='simplifier/sums')
            if g2.op == 'eq0':
                r2 = prove_sum_eq(facts, g2.args[0], timeout)
                if r2 is not None and r2.status == 'yes':
                    return r2
        p2 = swap_sums(g.args[0])
        if p2 is not g.args[0]:
            g2 = eq(p2, num(0, p2.sort))
            if g2 is TRUE:
                return Result('yes', backend='simplifier/sums')
            if g2.op == 'eq0':
                r2 = prove_sum_eq(facts, g2.args[0], timeout)
                if r2 is not None and r2.status == 'yes':
                    return r2
        if r is not None:
            return r
    if deep and g.op in ('eq0',) and g.args[0].sort == 'Real':
        # case split on conditions of ites, then compare polynomials
        if timeout > 1 and len(conds_of(g)) >= 6:
            # many conditions: the solver first
            st, m, ab, be = solve(relevant(facts, g), g, 2.0)
            if st == 'yes':
                STATS['z3'] += 1
                return Result('yes', backend='z3')
        r = prove_by_cases(facts, g, timeout)
        if r is not None:
            return r
    fs = relevant(facts, g)
    if deep and timeout > 1 and any(x.op in ('forall', 'exists') for x in subterms(g)):
        st, m, ab, be = solve(fs, g, 1.0)
        if st == 'unknown':
            r = prove_closed_cases(facts, g, timeout)
            if r is not None:
                return r
            st, m, ab, be = solve(fs, g, timeout)
    else:
        st, m, ab, be = solve(fs, g, timeout)
    if st == 'yes':
        STATS['z3'] += 1
        return Result('yes', backend='z3')
    if st != 'yes':
        fs2, g2 = [split_ranges(f) for f in fs], split_ranges(g)
        if g2 is not g or any(a is not b for a, b in zip(fs, fs2)):
            if solve(fs2, g2, timeout)[0] == 'yes':
                STATS['z3'] += 1
                return Result('yes', backend='z3')
    if st != 'yes' and deep:
        tactics = [prove_grid, prove_instances, prove_quotient, prove_matching]
        if any(x.op == 'app' and len(x.args) > 2 for x in subterms(g)):
            tactics = [prove_matching, prove_instances, prove_quotient]
        for tac in tactics:
            r = tac(facts, g, timeout)
            if r is not None:
                return r
    if st == 'unknown' and timeout >= 4:
        c = cvc5_check(be, timeout)
        if c == 'unsat':
            STATS['cvc5'] += 1
            return Result('yes', backend='cvc5')
        return Result('unknown', backend='z3+cvc5', goal=g)
    if st == 'no':
        return Result('no', m, ab, 'z3', goal=g)
    return Result('unknown', backend='z3', goal=g)


def assume_all(t, cs):
    for c in cs:
        t = assume(t, c)
    return t


def _has_sum(t):
    return any(x.op == 'sum' for x in subterms(t))


def conds_of(t):
    """conditions of ites in t, outermost (small) first, not under binders"""
    out = []
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op in ('sum', 'forall', 'exists'):
            if x.op == 'sum':
                go(x.args[1]); go(x.args[2])
            return
        if x.op == 'ite' and x.args[0] not in out:
            out.append(x.args[0])
        for c in children(x):
            go(c)
    go(t)
    out.sort(key=lambda c: len(subterms(c)))
    return out


def _int_of(m):
    """monomial of converted integers as an integer term, or None"""
    r = ONE
    for x, e in m:
        y = x.args[0] if x.op == 'toreal' else x if x.sort == 'Int' else None
        if y is None or e < 1:
            return None
        for _ in range(e):
            r = mul(r, y)
    return r


def quotients(fs, g, env):
    """(n, Q): n a positive integer, Q an integer, with n*Q part of a polynomial of the problem"""
    out = []
    seen = set()
    polys = set()
    for f in list(fs) + [g]:
        for x in subterms(f):
            if x.op == 'poly' and not any(v.args[0].startswith('$b') for v in x.fv):
                polys.add(x)
    for p in sorted(polys, key=lambda t: t.id):
        d = pol(p)
        atoms = {x for m in d if len(m) > 1 for x, e in m if e == 1 and (x.op == 'toreal' or x.sort == 'Int')}
        for x in sorted(atoms, key=lambda t: t.id):
            n = x.args[0] if x.op == 'toreal' else x
            if not bounds(n, env)[0] > 0:
                continue
            q = ZERO
            cs = []
            for m, c in d.items():
                if len(m) > 1 and (x, 1) in m:
                    i = _int_of(tuple(t for t in m if t[0] is not x))
                    if i is None:
                        continue
                    cs.append(Fraction(c))
                    q = add(q, mul(i, num(1))) if False else q
            if not cs:
                continue
            lead = min(abs(c) for c in cs)
            for m, c in d.items():
                if len(m) > 1 and (x, 1) in m:
                    i = _int_of(tuple(t for t in m if t[0] is not x))
                    k = Fraction(c) / lead
                    if i is None or k.denominator != 1:
                        continue
                    q = add(q, mul(num(int(k)), i))
            if is_num(q):
                continue
            if (n, neg(q)) in seen or (n, q) in seen:
                continue
            seen.add((n, q))
            out.append((n, q))
    return out[:6]


def definitions(fs):
    """facts of the form  forall b. f(b) == D(b)  with D free of f, as {name: (var, D)}"""
    out = {}
    for f in fs:
        if f.op != 'forall':
            continue
        v, body = f.args
        gs = [x for x in (body.args if body.op == 'or' else (body,)) if x.op == 'eq0']
        guard = [x for x in (body.args if body.op == 'or' else ()) if x.op != 'eq0']
        if len(gs) != 1 or any(x.op not in ('le0', 'lt0') for x in guard):
            continue
        for m, c in pol(gs[0].args[0]).items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and c in (1, -1) and m[0][0].args[1:] == (v,) and m[0][0].args[0].startswith('ext'):
                y = m[0][0]
                rest = sub(gs[0].args[0], mul(num(c), y))
                if not any(x.op == 'app' and x.args[0] == y.args[0] for x in subterms(rest)):
                    out[y.args[0]] = (v, neg(rest) if c == 1 else rest, f, guard)
    return out


def prove_instances(facts, g, timeout):
    """instantiate quantified integer facts with the integers the goal speaks about; existential
    facts get a witness, one case per disjunct"""
    fs = relevant(facts, g)
    qs = [f for f in fs if f.op == 'forall' and f.args[0].sort == 'Int']
    if not qs:
        return None
    ts = [x for x in subterms(g) if x.sort == 'Int' and x.op in ('var', 'app') and not any(v.args[0].startswith('$b') for v in x.fv)]
    ts = sorted(set(ts), key=lambda t: t.id)[:6]
    base = [f for f in fs if f.op != 'forall']
    n0 = len(base)
    split = [f for f in base if f.op == 'or' and any(x.op == 'not' and x.args[0].op == 'forall' for x in f.args)]
    base = [f for f in base if f not in split]
    defs = definitions(qs)
    cases = [[]]
    for f in split[:2]:
        cases = [c + [x] for c in cases for x in f.args]
    last = None
    for case in cases:
        out = list(base)
        tt = list(ts)
        for x in case:
            if x.op == 'not' and x.args[0].op == 'forall':
                v, body = open_forall(x.args[0])
                x = not_(body)
                if v.sort == 'Int':
                    tt.append(v)
            out += list(x.args) if x.op == 'and' else [x]
        # a witness that equals something else disappears
        for x in list(out):
            if x.op == 'eq0' and x.args[0].sort == 'Int':
                for v in tt[len(ts):]:
                    c = pol(x.args[0]).get(((v, 1),))
                    rest = sub(x.args[0], mul(num(c), v)) if c in (1, -1) else None
                    if rest is not None and v not in rest.fv:
                        w = neg(rest) if c == 1 else rest
                        out = [subst(y, {v: w}) for y in out]
                        tt = [t for t in tt if t is not v]
                        break
        inst = []
        for f in qs:
            if any(f is d[2] for d in defs.values()):
                continue
            for t in tt:
                i = subst(f.args[1], {f.args[0]: t})
                if i is not TRUE and i not in out:
                    inst.append(i)
        out += inst
        if len(out) == n0 and not case:
            return None
        f2 = NOFACTS.add(*[f for f in out if f.op != 'forall'])
        for nm, (v, d, f, guard) in defs.items():
            apps = {x for y in f2.list() for x in subterms(y) if x.op == 'app' and x.args[0] == nm}
            sb = {}
            for x in apps:
                a = x.args[1]
                if all(quick(f2, subst(q, {v: a})) is False or solve([y for y in f2.list()if not any(z.op == 'app' for z in subterms(y))], not_(subst(q, {v: a})), 0.3)[0] == 'yes' for q in guard):
                    sb[x] = subst(d, {v: a})
            if sb:
                f2 = NOFACTS.add(*[replace(y, sb) for y in f2.list()])
        f2 = clean(f2, g)
        if f2 is None:
            last = last or Result('yes', backend='simplifier/interval')
            continue
        gs = [g]
        if g.op == 'eq0' and g.args[0].sort == 'Int':
            gs = [lt(g.args[0], ONE), lt(neg(g.args[0]), ONE)]
        for gg in gs:
            r = prove(f2, gg, min(timeout, 3.0), deep=False)
            if r.status != 'yes':
                r = prove_quotient(f2, gg, timeout)
            if r is None or r.status != 'yes':
                if os.environ.get('VCG_DEBUG'):
                    print('  inst fails:', show(gg)); [print('     I', show(y)[:400]) for y in f2.list()]
                return None
            last = r
    return last


def simp_div(t, facts, memo):
    """simplify quotients and remainders: (d*q + r) / d == q for 0 <= r < d"""
    from .values import polydiv
    if not any(x.op in ('div', 'mod') for x in subterms(t)):
        return t

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = x if x.op in ('var', 'const') else tm.rebuild(x, go)
        if r.op in ('div', 'mod') and not any(v.args[0].startswith('$b') for v in r.fv):
            a, b = r.args
            q, m = polydiv(a, b)
            if q is not ZERO and not is_num(b):
                if decide(facts, and_(le(ZERO, m), lt(m, b), lt(ZERO, b)), 0.5) is True and decide(facts, le(ZERO, q), 0.5) is True:
                    r = q if r.op == 'div' else m
        memo[x] = r
        return r
    return go(t)


def below(facts, x, m):
    """0 <= x < m from the ranges of the atoms and at most one linear fact"""
    env = facts.env()
    lo, hi = bounds(x, env)
    if lo < 0:
        return False
    if hi < m:
        return True
    d = pol(x)
    loose = [(a, c) for a, c in d.items() if bounds(from_pol({a: c}, 'Int'), env)[1] >= m]
    if not loose:
        return False
    for f in facts.list():
        if f.op != 'le0' or f.args[0].sort != 'Int':
            continue
        p = pol(f.args[0])
        c = p.get(loose[0][0], 0)
        if c * loose[0][1] <= 0:
            continue
        q = Fraction(loose[0][1]) / c
        if q.denominator != 1:
            continue
        q = int(q)
        if bounds(from_pol({k: d.get(k, 0) - q * p.get(k, 0) for k in set(d) | set(p)}, 'Int'), env)[1] < m:
            return True
    return False


def unwrap(g, facts):
    """a mod n == a for 0 <= a < n"""
    sb = {}
    for x in subterms(g):
        if x.op in ('mod', 'emod') and is_num(x.args[1]) and numval(x.args[1]) >= 1 << 31 \
                and not any(v.args[0].startswith('$b') for v in x.fv) and below(facts, x.args[0], numval(x.args[1])):
            sb[x] = x.args[0]
    return replace(g, sb) if sb else g


def sum_bound(g, facts):
    """replace a sum over 0 <= b < k in p <= 0 by an upper bound c*k, with c from facts about all b < k"""
    d = dict(pol(g.args[0]))
    done = False
    for m in list(d):
        if len(m) != 1 or m[0][1] != 1 or m[0][0].op != 'sum' or d[m] <= 0:
            continue
        b, lo, hi, body = m[0][0].args
        if lo is not ZERO or decide(facts, le(ZERO, hi), 0.3) is not True:
            continue
        best = bounds(body, {})[1]
        for f in facts.list():
            if f.op != 'forall' or f.args[0].sort != 'Int' or f.args[1].op != 'or':
                continue
            v, o = open_forall(f)
            ds = o.args
            for x in ds:
                if x.op != 'le0' or x.args[0].sort != 'Int':
                    continue
                u = from_pol({a: c for a, c in (list(pol(subst(body, {b: v})).items()))}, 'Int')
                up = bounds(sub(u, x.args[0]), {})[1]
                if up < best and all(y is x or y in (le(add(v, ONE), ZERO), le(sub(hi, v), ZERO)) for y in ds):
                    best = up
        if best != INF:
            c = d.pop(m)
            for a, q in pol(mul(num(best), hi)).items():
                d[a] = d.get(a, 0) + c * q
            done = True
    return le(from_pol(d, 'Int'), ZERO) if done else g


def simp_mods(g, facts):
    """a mod n == b mod n for a - b a multiple of n"""
    from .values import polydiv
    ms = sorted({x for x in subterms(g) if x.op == 'mod' and not any(v.args[0].startswith('$b') for v in x.fv)}, key=lambda t: t.id)
    sb = {}
    for i, x in enumerate(ms):
        for y in ms[:i]:
            if y in sb or x.args[1] is not y.args[1]:
                continue
            q, r = polydiv(sub(x.args[0], y.args[0]), x.args[1])
            if r is ZERO and all(prove(facts, le(ZERO, z), 2.0, deep=False).status == 'yes' for z in (x.args[0], y.args[0])):
                sb[x] = y
                break
    return replace(g, sb) if sb else g


def open_nested(f):
    """(variables, disjuncts) of nested universal quantifiers"""
    vs, ds = [], []
    v, b = open_forall(f)
    vs.append(v)
    for x in (b.args if b.op == 'or' else (b,)):
        if x.op == 'forall' and len(vs) < 4:
            v2, d2 = open_nested(x)
            vs += v2
            ds += d2
        else:
            ds.append(x)
    return vs, ds


def matches(vs, ds, apps):
    """bindings of (some of) the variables that make an application in ds one of the given ones"""
    out = []
    for d in ds:
        for x in subterms(d):
            if x.op != 'app' or not any(a in vs for a in x.args[1:]):
                continue
            for y in apps:
                if y.args[0] != x.args[0] or len(y.args) != len(x.args):
                    continue
                m = {}
                for a, b in zip(x.args[1:], y.args[1:]):
                    if a in vs and a.sort == b.sort:
                        if m.setdefault(a, b) is not b:
                            break
                    elif a is not b:
                        break
                else:
                    if m not in out:
                        out.append(m)
    return out


def prove_matching(facts, g, timeout):
    """instantiate universally quantified facts by matching applications of uninterpreted functions"""
    fs = relevant(facts, g)
    qs = [f for f in fs if f.op == 'forall']
    if not qs or os.environ.get('VCG_NOMATCH'):
        return None
    base = NOFACTS.add(*[f for f in fs if f.op != 'forall' and not any(x.op == 'forall' for x in subterms(f))])
    nest = [open_nested(f) for f in qs]
    memo = {}
    g = simp_div(g, base, memo)
    apps = {x for x in subterms(g) if x.op == 'app' and len(x.args) > 1 and not any(v.args[0].startswith('$b') for v in x.fv)}
    done = set()
    insts = []
    for _ in range(3):
        new = []
        for (vs, ds), f in zip(nest, qs):
            for m in matches(vs, ds, sorted(apps, key=lambda t: t.id))[:12]:
                if len(m) < len(vs):
                    continue
                i = or_(*[subst(d, m) for d in ds])
                if i is TRUE or i in done:
                    continue
                done.add(i)
                new.append(simp_div(i, base, memo))
        if not new:
            break
        insts += new
        for i in new:
            for x in subterms(i):
                if x.op == 'app' and len(x.args) > 1 and not any(v.args[0].startswith('$b') for v in x.fv):
                    apps.add(x)
        if len(insts) > 200:
            break
    if not insts:
        return None
    f2 = clean(base.add(*insts), g)
    if f2 is None:
        return Result('yes', backend='simplifier/interval')
    g = simp_mods(simp_div(g, f2, {}), f2)
    gs = [g]
    if g.op == 'eq0' and g.args[0].sort == 'Int' and g.args[0].op == 'poly':
        # n*a + b == 0 follows from a == 0 and b == 0
        d = pol(g.args[0])
        for x in sorted({x for m in d if len(m) > 1 for x, e in m if e == 1 and x.op == 'var'}, key=lambda t: t.id):
            a = {tuple(t for t in m if t[0] is not x): c for m, c in d.items() if (x, 1) in m}
            b = {m: c for m, c in d.items() if (x, 1) not in m}
            if len(a) > 1:
                gs = [eq(from_pol(a, 'Int'), ZERO), eq(from_pol(b, 'Int'), ZERO)]
                break
    last = None
    for gg in gs:
        gg = simp_mods(gg, f2)
        r = prove(f2, gg, min(timeout, 3.0), deep=False)
        if r.status != 'yes':
            r = prove_quotient(f2, gg, timeout)
        if r is None or r.status != 'yes':
            if os.environ.get('VCG_DEBUG'):
                print('  matching fails:', show(gg)); [print('     M', show(y)[:400]) for y in f2.list()]
            return None
        last = r
    return last


_split = {}


def split_ranges(t):
    """split quantified ranges at the bounds that conditionals below them compare the variable with"""
    r = _split.get(t)
    if r is not None:
        return r
    if not any(x.op == 'forall' for x in subterms(t)):
        r = t
    elif t.op == 'forall' and t.args[0].sort == 'Int':
        v, b = open_forall(t)
        b = split_ranges(b)
        r = t
        if v in b.fv:
            c = _range_cond(v, b)
            if c is not None:
                r = and_(split_ranges(tm.forall(v, or_(not_(c), assume(b, c)))), split_ranges(tm.forall(v, or_(c, assume(b, not_(c))))))
            else:
                r = tm.forall(v, _shift(v, b))
        else:
            r = b
    elif t.op == 'forall':
        v, b = open_forall(t)
        r = tm.forall(v, split_ranges(b))
    else:
        r = t if t.op in ('var', 'const') else tm.rebuild(t, split_ranges)
    _split[t] = r
    return r


def _range_cond(v, b):
    top = set(b.args) if b.op == 'or' else {b}
    for x in sorted(subterms(b), key=lambda t: t.id):
        if x.op == 'le0' and x not in top and not_(x) not in top and v in x.fv and x.args[0].sort == 'Int':
            d = pol(x.args[0])
            c = d.get(((v, 1),))
            if c in (1, -1) and not any(v in y.fv for m in d for y, e in m if y is not v):
                if assume(b, x) is not b and not any(y.args[0].startswith('$b') for y in x.fv):
                    return x
    return None


def _shift(v, b):
    """use v for v + c if all applications have v + c as argument"""
    cs = set()
    for x in subterms(b):
        if x.op == 'app':
            for a in x.args[1:]:
                if isinstance(a, T) and v in a.fv and a.sort == 'Int':
                    d = sub(a, v)
                    cs.add(numval(d) if is_num(d) else None)
    if len(cs) == 1 and None not in cs and 0 not in cs:
        return subst(b, {v: sub(v, num(next(iter(cs))))})
    return b


def clean(f, g):
    """drop decided disjuncts, substitute variables given by an equation; None if contradictory"""
    for _ in range(4):
        ch = False
        out = []
        for x in f.list():
            if x.op == 'or':
                o = NOFACTS.add(*[y for y in f.list() if y is not x and y.op != 'or'])
                ds = [(d, quick(o, d)) for d in x.args]
                if any(q is True for _, q in ds):
                    ch = True
                    continue
                keep = [d for d, q in ds if q is None]
                if len(keep) < len(ds):
                    ch = True
                    x = or_(*keep)
                    if x is FALSE:
                        return None
            out.append(x)
        for x in out:
            if x.op == 'eq0':
                w = None
                for m, c in pol(x.args[0]).items():
                    if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'var' and (c in (1, -1) or x.args[0].sort == 'Real'):
                        y = m[0][0]
                        rest = sub(x.args[0], mul(num(c, x.args[0].sort), y))
                        if y not in rest.fv and y not in g.fv:
                            w = (y, mul(num(-1 / Fraction(c) if x.args[0].sort == 'Real' else -c, x.args[0].sort), rest))
                            break
                if w:
                    out = [subst(z, {w[0]: w[1]}) for z in out if z is not x]
                    ch = True
                    break
        if any(x is FALSE for x in out):
            return None
        f = NOFACTS.add(*[x for x in out if x is not TRUE])
        if not ch:
            break
    return f


def replace(t, sb):
    """replace whole subterms"""
    memo = {}

    def go(x):
        if x in sb:
            return sb[x]
        r = memo.get(x)
        if r is None:
            r = x if x.op in ('var', 'const') else tm.rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def unify_choices(facts, g):
    """g: d == 0 for a difference of two large terms alike: whole-number choices (min, |a - b|, ...)
    inside it that are equal under the facts are replaced by each other"""
    if len(subterms(g)) < 60:
        return g
    tried = set()
    for _ in range(16):
        its = [x for x in subterms(g) if x.op == 'ite' and (x.sort == 'Int' or x.sort == 'Real' and not any(y.op in ('app', 'inv') for y in subterms(x))) and not _has_sum(x)]
        if len(its) < 2 or len(its) > 80:
            return g
        size = {x: len(subterms(x)) for x in its}
        its.sort(key=lambda x: (size[x], x.id))
        its = [x for x in its if size[x] <= 80]
        hit = None
        for i, a in enumerate(its):
            for b in its[i + 1:]:
                if a.sort != b.sort or size[b] > 2 * size[a] + 4 or (a, b) in tried:
                    continue
                tried.add((a, b))
                if len(tried) > 160:
                    return g
                if decide(facts, eq(a, b), 0.4) is True:
                    hit = (a, b)
                    break
            if hit:
                break
        if not hit:
            return g
        g = replace(g, {hit[1]: hit[0]})
        if g is TRUE or g is FALSE:
            return g
    return g


def strip_factor(f, env):
    """divide a comparison by a common factor known to be positive"""
    if f.op not in ('le0', 'lt0', 'eq0') or f.args[0].op != 'poly':
        return f
    d = pol(f.args[0])
    if () in d or len(d) < 2:
        return f
    ms = [dict(m) for m in d]
    com = {}
    for x, e in ms[0].items():
        es = [m.get(x, 0) for m in ms]
        if all(v > 0 for v in es):
            com[x] = min(es)
        elif all(v < 0 for v in es):
            com[x] = max(es)
    # negative powers in some monomials: multiply out
    for m in ms:
        for x, e in m.items():
            if e < 0 and x not in com:
                com[x] = min(mm.get(x, 0) for mm in ms)
    com = {x: e for x, e in com.items() if bounds(x, env)[0] > 0 or (bounds(x, env)[0] >= 0 and x.sort == 'Real' and quickpos(x, env))}
    if not com:
        return f
    n = {}
    for m, c in d.items():
        mm = dict(m)
        for x, e in com.items():
            mm[x] = mm.get(x, 0) - e
        key = tuple(sorted(((x, e) for x, e in mm.items() if e), key=lambda t: t[0].id))
        n[key] = n.get(key, 0) + c
    p = from_pol(n, f.args[0].sort)
    z = num(0, p.sort)
    return le(p, z) if f.op == 'le0' else lt(p, z) if f.op == 'lt0' else eq(p, z)


def quickpos(x, env):
    return x in env.get('pos!', ())


_inq = [0]


def prove_grid(facts, g, timeout):
    """W == A*n + B for 0 <= B < n: W is d*n + m with d == A - p, m == B - q for integers p, q that are
    zero, positive or negative; the quantified facts are used at A*n + B and at W"""
    if g.op != 'eq0' or g.args[0].sort != 'Int':
        return None
    fs = relevant(facts, g)
    qs = [f for f in fs if f.op == 'forall' and f.args[0].sort == 'Int']
    defs = definitions(qs)
    if not defs:
        return None
    env = facts.env()
    d = pol(g.args[0])
    for (m, c) in d.items():
        if len(m) != 1 or m[0][1] != 1 or c not in (1, -1) or m[0][0].op not in ('var', 'app'):
            continue
        W = m[0][0]
        rest = sub(g.args[0], mul(num(c), W))
        U = neg(rest) if c == 1 else rest
        if W in U.fv or W in subterms(U):
            continue
        for n in sorted({x for mm in pol(U) for x, e in mm if e == 1 and len(mm) > 1}, key=lambda t: t.id):
            A = B = ZERO
            for mm, cc in pol(U).items():
                t = from_pol({tuple(y for y in mm if y[0] is not n): cc}, 'Int')
                if (n, 1) in mm:
                    A = add(A, t)
                else:
                    B = add(B, t)
            if bounds(n, env)[0] > 0 and decide(facts, and_(le(ZERO, B), lt(B, n), le(ZERO, A)), 0.5) is True:
                r = _grid(facts, fs, qs, defs, W, n, A, B)
                if r is not None:
                    return r
    return None


def _grid(facts, fs, qs, defs, W, n, A, B):
    U = add(mul(A, n), B)
    base = [f for f in fs if f.op != 'forall']
    split = [f for f in base if f.op == 'or' and any(x.op == 'not' and x.args[0].op == 'forall' for x in f.args)]
    base = [f for f in base if f not in split]
    pp, qq = fresh('p'), fresh('q')
    env = facts.env()
    dW, mW = tm.idiv(W, n), tm.imod(W, n)

    def named(x, t):
        """the ext functions by their definition"""
        for nm, (v, e, f, guard) in defs.items():
            sb = {y: subst(e, {v: y.args[1]}) for y in subterms(x) if y.op == 'app' and y.args[0] == nm and not any(z.args[0].startswith('$b') for z in y.fv)}
            if sb:
                x = replace(x, sb)
        return x
    memo = {}

    def shape(x):
        x = simp_div(named(x, None), facts, memo)
        return replace(x, {dW: sub(A, pp), mW: sub(B, qq)})
    cases = [[]]
    for f in split[:2]:
        cases = [c + [x] for c in cases for x in f.args]
    for case in cases:
        out = []
        for x in case:
            for y in (x.args if x.op == 'and' else (x,)):
                if y.op == 'not' and y.args[0].op == 'forall':
                    v, body = open_forall(y.args[0])
                    parts = body.args if body.op == 'or' else (body,)
                    for z in parts:
                        if z.op == 'not' and z.args[0].op == 'eq0' and z.args[0].args[0].sort == 'Int':
                            c = pol(z.args[0].args[0]).get(((v, 1),))
                            rest = sub(z.args[0].args[0], mul(num(c), v)) if c in (1, -1) else None
                            if rest is not None and v not in rest.fv:
                                parts = [subst(u, {v: neg(rest) if c == 1 else rest}) for u in parts]
                                break
                    out += [not_(z) for z in parts]
                else:
                    out.append(y)
        f2 = list(out)
        for f in qs:
            if any(f is dd[2] for dd in defs.values()) or not any(x.op == 'app' and x.args[0] in defs for x in subterms(f)):
                continue
            for t in (U, W):
                i = subst(f.args[1], {f.args[0]: t})
                # the range of the index
                f2.append(or_(*[x for x in (i.args if i.op == 'or' else (i,)) if decide(facts, x, 0.3) is not False]))
        # W is given
        weq = next((x for x in out if x.op == 'eq0' and x.args[0].sort == 'Int' and pol(x.args[0]).get(((W, 1),)) in (1, -1)), None)
        if weq is not None:
            c = pol(weq.args[0])[((W, 1),)]
            rest = sub(weq.args[0], mul(num(c), W))
            w = neg(rest) if c == 1 else rest
            if not is_num(w):
                return None
            f2 = [subst(x, {W: w}) for x in f2]
        f2 = [shape(x) for x in f2]
        if weq is not None:
            # W == 0 (a constant below n is the remainder)
            if w is not ZERO:
                return None
            if A.op != 'var' or B.op != 'var':
                return None
            f2 = [subst(x, {A: pp, B: qq}) for x in f2]
            f2 = [y for x in f2 for y in (x.args if x.op == 'and' else (x,))]
        small = [x for x in base if len(x.fv) == 1 and x.op in ('le0', 'lt0')]
        use = f2 + small
        cof = {}
        penv = positive(fs)
        tidy_ = [y for y in (_signed(x, penv, cof) for x in use) if y is not TRUE]
        tidy_ += [lt(num(0, 'Real'), v) for v in cof.values()]
        if os.environ.get('VCG_DEBUG') == 'grid':
            print('GRID case'); [print('    ', show(x)[:600]) for x in tidy_]
        for cp in (lt(ZERO, pp), lt(pp, ZERO), eq(pp, ZERO)):
            for cq in (lt(ZERO, qq), lt(qq, ZERO), eq(qq, ZERO)):
                if cp.op == 'eq0' and cq.op == 'eq0':
                    continue
                if solve(tidy_ + [cp, cq], FALSE, 3.0)[0] != 'yes':
                    if os.environ.get('VCG_DEBUG') == 'grid':
                        print('   fails', show(cp), show(cq))
                    return None
    return Result('yes', backend='z3')


def _signed(f, env, memo):
    """products of positive factors in a real comparison as positive unknowns"""
    if f.op not in ('le0', 'lt0', 'eq0') or f.args[0].sort != 'Real':
        return f
    r = num(0, 'Real')
    for m, c in pol(f.args[0]).items():
        co = tuple((x, e) for x, e in m if bounds(x, env)[0] > 0 or (x.sort == 'Real' and quickpos(x, env)))
        t = from_pol({tuple(y for y in m if y not in co): c}, 'Real')
        if co and co != m:
            if co not in memo:
                memo[co] = fresh('c', 'Real')
            t = mul(t, memo[co])
        elif co:
            t = from_pol({m: c}, 'Real') if co not in memo else mul(t, memo[co])
        r = add(r, t)
    return le(r, num(0, 'Real')) if f.op == 'le0' else lt(r, num(0, 'Real')) if f.op == 'lt0' else eq(r, num(0, 'Real'))


def settled(facts, t):
    """the value of the integer t, if the facts pin n*(t + r) between bounds less than a few n apart: -r + a constant"""
    env = facts.env()
    fs = [f for f in relevant(facts, eq(t, ZERO)) if f.op != 'forall']
    penv = positive(fs)
    fs = [or_(*[strip_factor(x, penv) for x in f.args]) if f.op == 'or' else strip_factor(f, penv) for f in fs]
    for n, q in quotients([f for f in fs if t in f.fv], TRUE, env):
        c = pol(q).get(((t, 1),))
        if c not in (1, -1):
            continue
        rest = sub(q, mul(num(c), t))
        if t in rest.fv:
            continue
        prod, prodi = mul(toreal(n), toreal(q)), mul(n, q)
        for k in (0, 1, -1):
            up = [le(num(k + 1), q), le(mul(toreal(n), num(k + 1)), prod), le(mul(n, num(k + 1)), prodi)]
            dn = [le(q, num(k - 1)), le(prod, mul(toreal(n), num(k - 1))), le(prodi, mul(n, num(k - 1)))]
            if solve(fs + up, FALSE, 1.0)[0] == 'yes' and solve(fs + dn, FALSE, 1.0)[0] == 'yes':
                v = sub(num(k), rest)
                return v if c == 1 else neg(v)
    return None


def prove_quotient(facts, g, timeout):
    """n*Q between bounds less than a few n apart: Q takes few values; split on them"""
    if _inq[0] >= 2:
        return None
    env = facts.env()
    fs = relevant(facts, g)
    if any(f.op == 'forall' for f in fs):
        fs = [f for f in fs if f.op != 'forall']
    penv = positive(fs)

    def stripped(f):
        return or_(*[strip_factor(x, penv) for x in f.args]) if f.op == 'or' else strip_factor(f, penv)
    for n, q in quotients([stripped(f) for f in fs], g, env):
        real = n.sort == 'Int'
        hi = lo = None
        prod = mul(toreal(n), toreal(q))
        prodi = mul(n, q)
        for c in range(0, 4):
            k = num(c)
            h = [le(k, q), le(mul(toreal(n), toreal(k)), prod), le(mul(n, k), prodi)]
            if solve(fs + h, FALSE, 1.0)[0] == 'yes':
                hi = c - 1
                break
        if hi is None:
            continue
        for c in range(hi, hi - 5, -1):
            k = num(c)
            h = [le(q, k), le(prod, mul(toreal(n), toreal(k))), le(prodi, mul(n, k))]
            if solve(fs + h, FALSE, 1.0)[0] == 'yes':
                lo = c + 1
                break
        if lo is None:
            continue
        y = None
        for m, c in pol(q).items():
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and m[0][0].op in ('var', 'app'):
                a = m[0][0]
                rest = sub(q, mul(num(c), a))
                if a not in subterms(rest):
                    y, cy = a, c
                    break
        if y is None:
            continue
        last = Result('yes', backend='simplifier/cases')
        _inq[0] += 1
        try:
            for j in range(lo, hi + 1):
                val = sub(num(j), rest)
                val = val if cy == 1 else neg(val)
                f2 = NOFACTS
                for f in facts.list():
                    f2 = f2.add(subst(f, {y: val}))
                last = prove(f2, subst(g, {y: val}), timeout)
                if last.status != 'yes':
                    break
        finally:
            _inq[0] -= 1
        if last.status == 'yes':
            return last
    return None


def ground_cond(g):
    """the condition of a conditional below a quantifier that does not depend on bound variables"""
    if not any(x.op in ('forall', 'exists') for x in subterms(g)):
        return None
    best = None
    for x in subterms(g):
        if x.op == 'ite':
            c = x.args[0]
            while c.op in ('and', 'or', 'not', 'iff'):
                c = c.args[0]
            if any(v.args[0].startswith('$b') for v in c.fv) or any(y.op in ('forall', 'exists', 'sum') for y in subterms(c)):
                continue
            if best is None or len(subterms(c)) < len(subterms(best)):
                best = c
    return best


def bound_cond(g):
    """a condition in the number of terms of a sum"""
    for x in sorted(subterms(g), key=lambda t: t.id):
        if x.op == 'sum':
            for y in sorted(subterms(x.args[2]), key=lambda t: t.id):
                if y.op == 'ite':
                    c = y.args[0]
                    while c.op in ('and', 'or', 'not', 'iff'):
                        c = c.args[0]
                    if not any(v.args[0].startswith('$b') for v in c.fv) and not any(z.op in ('forall', 'exists', 'sum') for z in subterms(c)):
                        return c
    return None


def peel(g, facts):
    """sums whose body treats the last term differently: the sum of the others plus that term"""
    sb = {}
    for s in subterms(g):
        if s.op != 'sum' or s.args[1] is not ZERO or is_num(s.args[2]) or any(v.args[0].startswith('$b') for v in s.args[2].fv):
            continue
        b, _, hi, body = s.args
        last = sub(hi, ONE)
        d = sub(b, last)
        marks = {le(d, num(-1)), le(neg(d), ZERO), eq(d, ZERO)}
        if any(x in marks or not_(x) in marks for x in subterms(body) if x.op in ('le0', 'eq0')) and decide(facts, le(ONE, hi), 0.3) is True:
            k = fresh('k')
            o = assume(subst(body, {b: k}), le(sub(k, last), num(-1)))
            o = assume(o, not_(eq(k, last)))
            sb[s] = add(tm.mk_sum(k, ZERO, last, o), subst(body, {b: last}))
    return replace(g, sb) if sb else g


def vanishes_by_cases(t, depth=0):
    """t simplifies to zero in every case of its outer conditions"""
    if is_num(t):
        return numval(t) == 0
    if depth > 4:
        return False
    for c in conds_of(t)[:3] if depth else conds_of(t)[:6]:
        a = assume(t, c)
        if a is t:
            continue
        b = assume(t, not_(c))
        if b is not t and (is_num(a) or is_num(b)) and vanishes_by_cases(a, depth + 1) and vanishes_by_cases(b, depth + 1):
            return True
    return False


def prove_by_cases(facts, g, timeout, depth=0):
    cs = conds_of(g)
    if not cs or depth > 7:
        return None
    if depth == 0 and g.op == 'eq0' and vanishes_by_cases(g.args[0]):
        return Result('yes', backend='simplifier/cases')
    # split on the first atomic condition
    c = cs[0]
    while c.op in ('and', 'or', 'not', 'iff'):
        c = c.args[0]
    q = quick(facts, c)
    branches = [c, not_(c)] if q is None else ([c] if q else [not_(c)])
    last = None
    for b in branches:
        f2 = facts.add(b)
        if q is None and decide(facts, not_(b), 0.3) is True:
            continue
        g2 = assume(g, b)
        if g2 is g:
            return None
        sv = isolated(b, g2)
        if sv is not None:
            g2 = subst(g2, {sv[0]: sv[1]})
        if g2 is TRUE:
            last = last or Result('yes', backend='simplifier/cases')
            continue
        r = prove_by_cases(f2, g2, timeout, depth + 1) if g2.op == 'eq0' else None
        if r is None:
            r = prove(f2, g2, timeout, deep=g2.op != 'eq0' or _has_sum(g2))
            if r.status != 'yes' and g2.op == 'eq0':
                r = by_equalities(f2, g2, timeout) or r
        if r.status != 'yes' and q is None and not_(b).op != 'forall':
            # the case may be excluded by facts the remaining goal does not mention
            r2 = prove(facts, not_(b), timeout, deep=False)
            if r2.status == 'yes':
                r = r2
        if r.status != 'yes':
            return r
        last = r
    return last or Result('yes', backend='simplifier/cases')


def isolated(c, g):
    """(v, e) if the equation c determines the variable v of g"""
    if c.op != 'eq0' or c.args[0].sort != 'Int':
        return None
    for m, k in pol(c.args[0]).items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'var' and k in (1, -1) and m[0][0] in g.fv:
            v = m[0][0]
            rest = sub(c.args[0], mul(num(k), v))
            if v not in rest.fv:
                return v, neg(rest) if k == 1 else rest
    return None


def by_equalities(facts, g, timeout):
    """substitute variables by linear equations that follow from pairs of inequalities"""
    for f in list(facts.list()):
        if f.op not in ('le0', 'eq0') or f.args[0].sort != 'Int' or not (f.fv & g.fv):
            continue
        p = pol(f.args[0])
        if len(p) > 5 or f.op == 'le0' and any(len(m) > 1 or (m and (m[0][1] != 1 or m[0][0].op != 'var')) for m in p):
            continue
        vs = [m[0][0] for m, c in p.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'var' and c in (1, -1) and m[0][0] in g.fv]
        if not vs or f.op == 'le0' and decide(facts, le(neg(f.args[0]), ZERO), 0.3) is not True:
            continue
        v = vs[0]
        c = p[((v, 1),)]
        rest = sub(f.args[0], mul(num(c), v))
        if v in rest.fv:
            continue
        g2 = subst(g, {v: neg(rest) if c == 1 else rest})
        if g2 is TRUE:
            return Result('yes', backend='simplifier/cases')
        r = prove(facts, g2, timeout, deep=False)
        if r.status == 'yes':
            return r
    return None


def closed_atoms(t):
    """comparisons without bound variables, the most frequent first"""
    n = {}
    seen = set()

    def go(x, under):
        if (x, under) in seen:
            return
        seen.add((x, under))
        if x.op in ('le0', 'lt0', 'eq0'):
            if not any(v.args[0].startswith('$b') for v in x.fv) and x.fv:
                k = min(x, not_(x), key=lambda y: y.id)
                n[k] = n.get(k, 0) + (1 if under else 0)
        for c in children(x):
            go(c, under or x.op in ('forall', 'exists', 'ite', 'iff'))
    go(t, False)
    return sorted([k for k in n if n[k]], key=lambda k: (len(subterms(k)), k.id))


def prove_closed_cases(facts, g, timeout, depth=0):
    """split on comparisons that occur under binders but do not depend on them"""
    at = closed_atoms(g) if depth < 6 else []
    if depth == 0:
        lits = [f for f in facts.list() if f.op in ('le0', 'lt0', 'eq0', 'not') and any(f.fv <= x.fv for x in facts.list() if x is not f and x.op not in ('le0', 'lt0', 'eq0', 'not'))]
        f2 = Facts()
        for f in facts.list():
            f2 = f2.add(f if f.op in ('le0', 'lt0', 'eq0', 'not') else assume_all(f, lits))
        if not at and f2.set() == facts.set():
            return None
        facts = f2
    if not at:
        fs = relevant(facts, g)
        if solve(fs, g, timeout)[0] == 'yes':
            STATS['z3'] += 1
            return Result('yes', backend='z3/cases')
        return None
    c = at[0]
    q = quick(facts, c)
    for b in ([c, not_(c)] if q is None else [c] if q else [not_(c)]):
        if q is None and decide(facts, not_(b), 0.3) is True:
            continue
        f2 = Facts()
        for f in facts.list():
            f2 = f2.add(assume(f, b))
        f2 = f2.add(b)
        g2 = assume(g, b)
        if g2 is TRUE:
            continue
        if g2 is g:
            return None
        if prove_closed_cases(f2, g2, timeout, depth + 1) is None:
            return None
    return Result('yes', backend='z3/cases')


def triangular(p):
    """sum over a square: the diagonal and both triangles,
    sum_i<n sum_j<n b(i,j) = sum_i<n ( b(i,i) + sum_j<i (b(i,j) + b(j,i)) )"""
    sb = {}
    for s in [x for x in subterms(p) if x.op == 'sum' and x.args[1] is ZERO]:
        n = s.args[2]
        if n.op == 'var' and n.args[0].startswith('$b'):
            continue
        i = fresh('i')
        body = subst(s.args[3], {s.args[0]: i})
        rest = num(0, body.sort)
        found = False
        inner = num(0, body.sort)
        j = fresh('j')
        for m, c in pol(body).items():
            xs = [x for x, e in m if x.op == 'sum' and e == 1 and x.args[1] is ZERO and x.args[2] is n]
            if not xs:
                rest = add(rest, from_pol({m: c}, body.sort))
                continue
            t = xs[0]
            co = from_pol({tuple((x, e) for x, e in m if x is not t): c}, body.sort)
            inner = add(inner, mul(co, subst(t.args[3], {t.args[0]: j})))
            found = True
        if found:
            diag = subst(inner, {j: i})
            w = fresh('w')
            swapped = subst(subst(subst(inner, {i: w}), {j: i}), {w: j})
            sb[s] = tm.mk_sum(i, ZERO, n, add(rest, add(diag, tm.mk_sum(j, ZERO, i, add(inner, swapped)))))
    return replace(p, sb) if sb else p


def swap_sums(t):
    """a canonical order of summation: sum_i<n sum_j<m b = sum_j<m sum_i<n b"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ('forall', 'exists', 'var', 'const') or not any(y.op == 'sum' for y in subterms(x)):
            r = x
        elif x.op == 'sum':
            v = fresh('i')
            body = go(subst(x.args[3], {x.args[0]: v}))
            r = tm.mk_sum(v, x.args[1], x.args[2], body)
            if x.args[1] is ZERO:
                flat, rest, w = {}, num(0, body.sort), fresh('j')
                for m, c in pol(body).items():
                    xs = [y for y, e in m if y.op == 'sum' and e == 1]
                    if len(xs) != 1 or xs[0].args[1] is not ZERO or v in xs[0].args[2].fv:
                        rest = add(rest, from_pol({m: c}, body.sort))
                        continue
                    hi = xs[0].args[2]
                    co = from_pol({tuple((y, e) for y, e in m if y is not xs[0]): c}, body.sort)
                    flat[hi] = add(flat.get(hi, num(0, body.sort)), mul(co, subst(xs[0].args[3], {xs[0].args[0]: w})))
                if flat:
                    r = tm.mk_sum(v, ZERO, x.args[2], rest)
                    for hi, b in flat.items():
                        one = tm.mk_sum(v, ZERO, x.args[2], tm.mk_sum(w, ZERO, hi, b))
                        two = tm.mk_sum(w, ZERO, hi, tm.mk_sum(v, ZERO, x.args[2], b))
                        r = add(r, min(one, two, key=str))
        else:
            r = tm.rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def tidy(t, facts):
    """decide the conditions in the bodies of sums from the ranges of the summation variables"""
    memo = {}

    def go(x, fs, bound):
        if not any(y.op == 'sum' for y in subterms(x)) and (not bound or not any(y.op == 'ite' for y in subterms(x))):
            return x
        key = (x, fs)
        r = memo.get(key)
        if r is not None:
            return r
        if x.op == 'sum':
            k = fresh('k')
            f2 = fs.add(le(x.args[1], k), lt(k, x.args[2]))
            b = subst(x.args[3], {x.args[0]: k})
            b2 = go(b, f2, True)
            r = x if b2 is b else tm.mk_sum(k, go(x.args[1], fs, bound), go(x.args[2], fs, bound), b2)
        elif x.op in ('var', 'const', 'forall', 'exists'):
            r = x
        elif x.op == 'ite' and bound:
            d = decide(fs, x.args[0], 0.3)
            r = go(x.args[1 if d else 2], fs, bound) if d is not None else tm.rebuild(x, lambda y: go(y, fs, bound))
        else:
            r = tm.rebuild(x, lambda y: go(y, fs, bound))
        memo[key] = r
        return r
    return go(t, facts, False)


def prove_sum_eq(facts, p, timeout):
    """p == 0 where p is a polynomial containing sums"""
    d = pol(p)
    groups = []   # (lo, hi, [(coef monomial poly, sum)])
    rest = num(0, p.sort)
    for m, c in d.items():
        sums = [(x, e) for x, e in m if x.op == 'sum' and e == 1]
        if not sums:
            rest = add(rest, from_pol({m: c}, p.sort))
            continue
        s = sums[0][0]
        mm = tuple((x, e) for x, e in m if x is not s)
        co = from_pol({mm: c}, p.sort)
        for gr in groups:
            if gr[0] is s.args[2] or decide(facts, eq(gr[0], s.args[2]), 0.5) is True:
                gr[1].append((co, s))
                break
        else:
            groups.append((s.args[2], [(co, s)]))
    if not groups:
        return None
    if any(len(g[1]) < 2 for g in groups) and rest is not num(0, p.sort):
        pass
    res = None
    # c * hi is the sum of c over the range
    const = num(0, p.sort)
    if len(groups) == 1 and rest is not num(0, p.sort):
        hi = groups[0][0]
        h = toreal(hi) if p.sort == 'Real' else hi
        if h.op in ('var', 'app', 'toreal') and all((h, 1) in m for m in pol(rest)) and quick(facts, le(ZERO, hi)) is True:
            const = from_pol({tuple(x for x in m if x[0] is not h): c for m, c in pol(rest).items()}, p.sort)
            if h in const.fv or h in subterms(const):
                const = num(0, p.sort)
            else:
                rest = num(0, p.sort)
    for hi, lst in groups:
        k = fresh('k')
        body = const
        for co, s in lst:
            body = add(body, mul(co, subst(s.args[3], {s.args[0]: k})))
        f2 = facts.add(le(ZERO, k), lt(k, hi))
        r = prove(f2, eq(body, num(0, p.sort)), timeout)
        if r.status != 'yes':
            return None if len(groups) > 1 or rest is not num(0, p.sort) else (r if r.status == 'unknown' else Result('unknown', r.model, True, r.backend, goal=r.goal))
        res = r
    if rest is not num(0, p.sort):
        r = prove(facts, eq(rest, num(0, p.sort)), timeout)
        if r.status != 'yes':
            return None
    return res


def decide(facts, c, timeout=0.5):
    """True / False / None"""
    q = quick(facts, c)
    if q is not None:
        return q
    r = facts._cache.get(('d', c))
    if r is not None:
        return r[0]
    fs = relevant(facts, c)
    fs = [f for f in fs if f.op != 'forall']
    st, _, _, _ = solve(fs, c, timeout)
    if st == 'yes':
        v = True
    else:
        st, _, _, _ = solve(fs, not_(c), timeout)
        v = False if st == 'yes' else None
    facts._cache[('d', c)] = (v,)
    return v


def feasible(facts, timeout=1.0):
    fs = facts.list()
    st, m, ab, be = solve(fs, FALSE, timeout)
    return {'yes': False, 'no': True}.get(st)
