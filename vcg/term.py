"""Hash-consed first-order terms with canonical polynomial arithmetic.

Sorts: 'Int' (mathematical integers), 'Real', 'Bool', 'Str' (an arbitrary
totally ordered set; carried by integers in the solver).
"""
from fractions import Fraction
import math

_table = {}
_ctr = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'fv', 'bh', '_p', '__weakref__')

    def __hash__(self):          # not the address: iteration orders are reproducible
        return self.id

    def __repr__(self):
        return show(self)

    # convenience operators -------------------------------------------------
    def __add__(s, o): return add(s, lift(o, s.sort))
    def __radd__(s, o): return add(lift(o, s.sort), s)
    def __sub__(s, o): return sub(s, lift(o, s.sort))
    def __rsub__(s, o): return sub(lift(o, s.sort), s)
    def __mul__(s, o): return mul(s, lift(o, s.sort))
    def __rmul__(s, o): return mul(lift(o, s.sort), s)
    def __neg__(s): return neg(s)
    def __truediv__(s, o): return rdiv(s, lift(o, s.sort))
    def __rtruediv__(s, o): return rdiv(lift(o, s.sort), s)
    def __le__(s, o): return le(s, lift(o, s.sort))
    def __lt__(s, o): return lt(s, lift(o, s.sort))
    def __ge__(s, o): return le(lift(o, s.sort), s)
    def __gt__(s, o): return lt(lift(o, s.sort), s)


def lift(v, sort='Int'):
    if isinstance(v, T):
        if v.sort == 'Int' and sort == 'Real':
            return toreal(v)
        return v
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, Fraction)):
        if sort == 'Real':
            return num(Fraction(v), 'Real')
        return num(v, 'Int')
    if isinstance(v, float):
        return num(Fraction(v), 'Real')
    raise TypeError(v)


EMPTY = frozenset()


def _mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is not None:
        return t
    t = T.__new__(T)
    t.op = op
    t.args = args
    t.sort = sort
    _ctr[0] += 1
    t.id = _ctr[0]
    t._p = None
    # free variables and binder height
    if op == 'var':
        t.fv = frozenset((t,))
        t.bh = 0
    elif op in ('sum', 'forall', 'exists', 'lam'):
        subs = children(t)
        f = EMPTY
        h = 0
        for s in subs:
            f = f | s.fv
            h = max(h, s.bh)
        t.fv = f - frozenset((args[0],))
        t.bh = h + 1
    else:
        f = EMPTY
        h = 0
        for s in children(t):
            if s.fv:
                f = f | s.fv if f else s.fv
            if s.bh > h:
                h = s.bh
        t.fv = f
        t.bh = h
    _table[key] = t
    return t


def children(t):
    op = t.op
    if op in ('var', 'const'):
        return ()
    if op == 'poly':
        return tuple(a for m, c in t.args for a, e in m)
    if op == 'app':
        return t.args[1:]
    if op in ('sum',):
        return t.args[1:]
    if op in ('forall', 'exists'):
        return (t.args[1],)
    return t.args


TRUE = _mk('const', (True,), 'Bool')
FALSE = _mk('const', (False,), 'Bool')
_fresh = [0]


def var(name, sort='Int'):
    return _mk('var', (name,), sort)


def fresh(prefix='v', sort='Int'):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), sort)


def strc(s):
    return _mk('const', ('s:' + s,), 'Str')


def app(name, args, sort):
    return _mk('app', (name,) + tuple(args), sort)


# ---------------------------------------------------------------- polynomials
def _norm(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    return v


def num(v, sort='Int'):
    v = _norm(Fraction(v)) if not isinstance(v, int) else v
    if v == 0:
        return _mk('poly', (), sort)
    return _mk('poly', (((), v),), sort)


ZERO = num(0)
ONE = num(1)
RZERO = num(0, 'Real')
RONE = num(1, 'Real')


def pol(t):
    """dict monomial -> coefficient"""
    if t.op == 'poly':
        if t._p is None:
            t._p = dict(t.args)
        return t._p
    return {((t, 1),): 1}


def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def from_pol(d, sort):
    items = [(m, _norm(c)) for m, c in d.items() if c != 0]
    if len(items) == 1:
        m, c = items[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda x: _mono_key(x[0]))
    return _mk('poly', tuple(items), sort)


def is_num(t):
    return t.op == 'poly' and (len(t.args) == 0 or (len(t.args) == 1 and t.args[0][0] == ()))


def numval(t):
    return t.args[0][1] if t.args else 0


def add(a, b):
    if a.sort != b.sort:
        a, b = coerce2(a, b)
    pa, pb = pol(a), pol(b)
    if len(pa) < len(pb):
        pa, pb = pb, pa
    d = dict(pa)
    for m, c in pb.items():
        d[m] = d.get(m, 0) + c
    r = from_pol(d, a.sort)
    if _sum_ranges(pa) & _sum_ranges(pb):
        r = _join_sums(r)
    return r


def _sum_ranges(p):
    return {x.args[2] for m in p for x, e in m if x.op == 'sum' and e == 1}


def coerce2(a, b):
    if not isinstance(a, T):
        a = lift(a, b.sort)
    if not isinstance(b, T):
        b = lift(b, a.sort)
    if a.sort == b.sort:
        return a, b
    if a.sort == 'Int' and b.sort == 'Real':
        return toreal(a), b
    if a.sort == 'Real' and b.sort == 'Int':
        return a, toreal(b)
    if a.sort == 'Bool' and b.sort in ('Int', 'Real'):
        return ite(a, lift(1, b.sort), lift(0, b.sort)), b
    if b.sort == 'Bool' and a.sort in ('Int', 'Real'):
        return a, ite(b, lift(1, a.sort), lift(0, a.sort))
    raise TypeError((a.sort, b.sort))


def neg(a):
    return from_pol({m: -c for m, c in pol(a).items()}, a.sort)


def sub(a, b):
    a, b = coerce2(a, b)
    return add(a, neg(b))


def _mmul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))


def mul(a, b):
    if a.sort != b.sort:
        a, b = coerce2(a, b)
    d = {}
    for m1, c1 in pol(a).items():
        for m2, c2 in pol(b).items():
            m = _mmul(m1, m2)
            # 0/1-valued idempotent ites: handled by ite canonical form elsewhere
            d[m] = d.get(m, 0) + c1 * c2
    return from_pol(d, a.sort)


def inv(a):
    """1/a for reals (side condition a != 0 is an obligation of the caller)"""
    p = pol(a)
    if len(p) == 1:
        (m, c), = p.items()
        return from_pol({tuple((x, -e) for x, e in m): Fraction(1) / Fraction(c)}, 'Real')
    if len(p) == 0:
        return app('inv0', (), 'Real')
    # scale so that the leading coefficient is 1
    lead = a.args[0][1]
    q = from_pol({m: Fraction(c) / Fraction(lead) for m, c in p.items()}, 'Real')
    at = _mk('inv', (q,), 'Real')
    return from_pol({((at, 1),): Fraction(1) / Fraction(lead)}, 'Real')


def rdiv(a, b):
    a = toreal(a)
    b = toreal(b)
    return mul(a, inv(b))


def toreal(a):
    if a.sort == 'Real':
        return a
    if a.sort == 'Bool':
        return ite(a, RONE, RZERO)
    d = {}
    for m, c in pol(a).items():
        mm = {}
        for x, e in m:
            if x.op == 'ite':
                y = ite(x.args[0], toreal(x.args[1]), toreal(x.args[2]))
            elif x.op == 'sum':
                y = None
            else:
                y = None
            if y is None:
                y = _mk('toreal', (x,), 'Real')
            mm.setdefault(y, 0)
            mm[y] += e
        # y may be a polynomial (from ite): multiply out
        t = num(c, 'Real')
        for y, e in mm.items():
            for _ in range(e):
                t = mul(t, y)
        for m2, c2 in pol(t).items():
            d[m2] = d.get(m2, 0) + c2
    return from_pol(d, 'Real')


def toint(a):
    """truncation of a real"""
    if a.sort == 'Int':
        return a
    if is_num(a):
        return num(math.trunc(Fraction(numval(a))))
    b = as_int(a)
    if b is not None:
        return b
    return _mk('toint', (a,), 'Int')


def as_int(a):
    """if a is syntactically an integer-valued real (toreal(..)), return the Int term"""
    d = {}
    for m, c in pol(a).items():
        if isinstance(c, Fraction):
            return None
        mm = []
        for x, e in m:
            if x.op != 'toreal' or e < 0:
                return None
            mm.append((x.args[0], e))
        mm = tuple(sorted(mm, key=lambda x: x[0].id))
        d[mm] = d.get(mm, 0) + c
    return from_pol(d, 'Int')


def roundr(a):
    """std::round: nearest integer, ties away from zero (result: Real)"""
    b = as_int(a)
    if b is not None:
        return a
    if is_num(a):
        f = Fraction(numval(a))
        r = math.floor(abs(f) + Fraction(1, 2))
        return num(r if f >= 0 else -r, 'Real')
    return toreal(_mk('round', (a,), 'Int'))


def floorr(a):
    b = as_int(a)
    if b is not None:
        return a
    if is_num(a):
        return num(math.floor(Fraction(numval(a))), 'Real')
    return toreal(_mk('floor', (a,), 'Int'))


def idiv(a, b):
    """C++ truncating division for non-negative operands (Int)"""
    if is_num(a) and is_num(b) and numval(b) != 0:
        q = abs(numval(a)) // abs(numval(b))
        return num(q if (numval(a) >= 0) == (numval(b) > 0) else -q)
    if b is ONE:
        return a
    return _mk('div', (a, b), 'Int')


def imod(a, b):
    if is_num(a) and is_num(b) and numval(b) != 0:
        q = abs(numval(a)) // abs(numval(b))
        q = q if (numval(a) >= 0) == (numval(b) > 0) else -q
        return num(numval(a) - q * numval(b))
    if b is ONE:
        return ZERO
    if is_num(b) and numval(b) == 2:
        # reduce coefficients of a polynomial modulo 2 (non-negative operand assumed by callers)
        pass
    return _mk('mod', (a, b), 'Int')


def emod(a, b):
    """Euclidean remainder modulo a positive constant (used for wrap-around)"""
    if is_num(a):
        return num(numval(a) % numval(b))
    if a.op == 'app' and a.args[0] == 'thr':
        return a      # 0 <= thr(k) < omp_max_threads
    if a.op == 'app' and a.args[0] == 'char' and is_num(b) and numval(b) >= 256:
        return ite(lt(a, ZERO), add(a, b), a)      # -128 <= char <= 127
    return _mk('emod', (a, b), 'Int')


# ---------------------------------------------------------------- booleans
def _scale(p):
    """primitive integer scaling with positive factor; returns dict"""
    cs = [Fraction(c) for c in p.values()]
    if not cs:
        return p
    l = 1
    for c in cs:
        l = l * c.denominator // math.gcd(l, c.denominator)
    g = 0
    for c in cs:
        g = math.gcd(g, abs(int(c * l)))
    if g == 0:
        g = 1
    f = Fraction(l, g)
    return {m: _norm(Fraction(c) * f) for m, c in p.items()}


def le(a, b):
    a, b = coerce2(a, b)
    if a.sort == 'Str':
        return not_(lt(b, a))
    d = sub(a, b)
    if is_num(d):
        return TRUE if numval(d) <= 0 else FALSE
    if d.sort == 'Int':
        p = dict(pol(d))
        if len(p) <= 3:
            r = _thr_le(p)
            if r is not None:
                return r
        c0 = p.pop((), 0)
        g = 0
        for c in p.values():
            g = math.gcd(g, abs(c))
        if g > 1:
            p = {m: c // g for m, c in p.items()}
            c0 = -((-c0) // g)   # ceil(c0/g)
        p[()] = c0
        return _mk('le0', (from_pol(p, 'Int'),), 'Bool')
    return _mk('le0', (from_pol(_scale(pol(d)), 'Real'),), 'Bool')


def _thr_le(p):
    """0 <= thr(k) < omp_max_threads, by the contract of omp_get_thread_num"""
    th = None
    for m in p:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0] == 'thr':
            th = m
    if th is None:
        return None
    c0 = p.get((), 0)
    if p[th] == -1 and len(p) == 1 + (1 if () in p else 0):
        return TRUE if c0 <= 0 else None
    if p[th] == 1:
        mx = ((app('omp_max_threads', (th[0][0].args[2],), 'Int'), 1),)
        if p.get(mx) == -1 and len(p) == 2 + (1 if () in p else 0) and c0 <= 1:
            return TRUE
    return None


def lt(a, b):
    a, b = coerce2(a, b)
    if a.sort == 'Str':
        if a is b:
            return FALSE
        if a.op == 'const' and b.op == 'const':
            return TRUE if a.args[0].encode() < b.args[0].encode() else FALSE
        return _mk('slt', (a, b), 'Bool')
    if a.sort == 'Bool':
        return and_(not_(a), b)
    if a.sort == 'Int':
        return le(add(a, ONE), b)
    d = sub(a, b)
    if is_num(d):
        return TRUE if numval(d) < 0 else FALSE
    return _mk('lt0', (from_pol(_scale(pol(d)), 'Real'),), 'Bool')


def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)


def unbool(t):
    """c if t is c ? 1 : 0"""
    if t.op == 'ite' and t.sort in ('Int', 'Real'):
        a, b = t.args[1], t.args[2]
        if is_num(a) and is_num(b):
            if numval(a) == 1 and numval(b) == 0: return t.args[0]
            if numval(a) == 0 and numval(b) == 1: return not_(t.args[0])
    if is_num(t):
        if numval(t) == 1: return TRUE
        if numval(t) == 0: return FALSE
    return None


def eq(a, b):
    if a is b:
        return TRUE
    if isinstance(a, T) and isinstance(b, T):
        if a.sort == 'Bool' and b.sort == 'Bool':
            return iff(a, b)
        if (a.op == 'ite' or b.op == 'ite') and a.sort == b.sort:
            x, y = unbool(a), unbool(b)
            if x is not None and y is not None:
                return iff(x, y)
            # comparison of an ite with constant branches against a constant
            for p, q in ((a, b), (b, a)):
                if p.op == 'ite' and is_num(q) and is_num(p.args[1]) and is_num(p.args[2]):
                    e1 = numval(p.args[1]) == numval(q)
                    e2 = numval(p.args[2]) == numval(q)
                    if e1 and e2: return TRUE
                    if e1: return p.args[0]
                    if e2: return not_(p.args[0])
                    return FALSE
    else:
        a, b = coerce2(a, b)
    if a.sort == 'Str' or b.sort == 'Str':
        if a.op == 'const' and b.op == 'const':
            return FALSE
        if a.id > b.id:
            a, b = b, a
        return _mk('eq', (a, b), 'Bool')
    a, b = coerce2(a, b)
    d = sub(a, b)
    if is_num(d):
        return TRUE if numval(d) == 0 else FALSE
    p = _scale(pol(d))
    t = from_pol(p, d.sort)
    q = t.args[0][1] if t.op == 'poly' else 1
    if q < 0:
        t = neg(t)
    return _mk('eq0', (t,), 'Bool')


def ne(a, b): return not_(eq(a, b))


def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'le0':
        p = a.args[0]
        if p.sort == 'Int':
            return _mk('le0', (add(neg(p), ONE),), 'Bool')
        return _mk('lt0', (neg(p),), 'Bool')
    if a.op == 'lt0':
        return _mk('le0', (neg(a.args[0]),), 'Bool')
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args])
    return _mk('not', (a,), 'Bool')


def _flat(op, xs):
    out = []
    for x in xs:
        if x.op == op:
            out.extend(x.args)
        else:
            out.append(x)
    return out


def and_(*xs):
    out = []
    seen = set()
    for x in _flat('and', xs):
        if x is TRUE or x in seen: continue
        if x is FALSE: return FALSE
        if not_(x) in seen: return FALSE
        seen.add(x)
        out.append(x)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.id)
    return _mk('and', tuple(out), 'Bool')


def or_(*xs):
    out = []
    seen = set()
    for x in _flat('or', xs):
        if x is FALSE or x in seen: continue
        if x is TRUE: return TRUE
        if not_(x) in seen: return TRUE
        seen.add(x)
        out.append(x)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.id)
    return _mk('or', tuple(out), 'Bool')


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return not_(b)
    if b is FALSE: return not_(a)
    if a is not_(b): return FALSE
    if a.id > b.id: a, b = b, a
    return _mk('iff', (a, b), 'Bool')


def _contains(t, c, memo=None):
    if memo is None:
        memo = {}
    if t is c:
        return True
    r = memo.get(t)
    if r is not None:
        return r
    r = False
    if c.fv <= t.fv or not c.fv:
        for s in children(t):
            if _contains(s, c, memo):
                r = True
                break
    memo[t] = r
    return r


def assume(t, c):
    """simplify t under the assumption that the boolean c is true"""
    if t.sort == 'Bool' and t is c:
        return TRUE
    m = {}
    lits = c.args if c.op == 'and' else (c,)
    for l in lits:
        m[l] = TRUE
        nl = not_(l)
        m[nl] = FALSE
    keys = [k for k in m if k not in (TRUE, FALSE)]
    if not any(k.fv <= t.fv for k in keys):
        return t
    return subst(t, {k: m[k] for k in keys})


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort != b.sort:
        a, b = coerce2(a, b)
    a = assume(a, c)
    b = assume(b, not_(c))
    if a is b: return a
    if c.op == 'eq0' and a.sort != 'Bool':
        r = _same_if_equal(c, a, b)
        if r is not None:
            return r
    if a.sort == 'Bool':
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
        if b is FALSE: return and_(c, a)
        return or_(and_(c, a), and_(not_(c), b))
    # canonical polarity
    if c.op == 'not' or (c.op in ('le0', 'lt0') and not_(c).id < c.id):
        c, a, b = not_(c), b, a
    if a.sort in ('Int', 'Real'):
        pa, pb = pol(a), pol(b)
        com = {m: k for m, k in pa.items() if pb.get(m) == k}
        if com:
            cm = from_pol(com, a.sort)
            return add(cm, _ite_raw(c, sub(a, cm), sub(b, cm)))
    return _ite_raw(c, a, b)


def _same_if_equal(c, a, b):
    """b if a and b are the same whenever the applications x, y of the condition x == y are"""
    p = pol(c.args[0])
    if len(p) != 2 or sorted(p.values()) != [-1, 1]:
        return None
    xs = [m[0][0] for m in p if len(m) == 1 and m[0][1] == 1]
    if len(xs) != 2 or any(x.op != 'app' for x in xs):
        return None
    if not (_contains(b, xs[0]) or _contains(b, xs[1])):
        return None
    for x, y in (xs, xs[::-1]):
        if not _contains(y, x) and _replace1(a, x, y) is _replace1(b, x, y):
            return b
    return None


def _parity(v, hi, body):
    """k if the body distinguishes v modulo a constant k dividing the bound"""
    if hi.sort != 'Int' or is_num(hi):
        return None
    for x in subterms(body):
        if x.op == 'mod' and x.args[0] is v and is_num(x.args[1]):
            k = numval(x.args[1])
            if 1 < k <= 8 and all(c % k == 0 for c in pol(hi).values()):
                return int(k)
    return None


def _ite_raw(c, a, b):
    if a is b: return a
    if a.sort in ('Int', 'Real'):
        # a common constant factor
        if b is num(0, a.sort):
            p = pol(a)
            cs = list(p.values())
            k = cs[0] if len(cs) == 1 else None
            if k is not None and k != 1:
                return from_pol({((_mk('ite', (c, from_pol({m: 1 for m in p}, a.sort), b), a.sort), 1),): k}, a.sort)
    return _mk('ite', (c, a, b), a.sort)


# ---------------------------------------------------------------- binders
def _close(v, body):
    b = var('$b%d' % (body.bh + 1), v.sort)
    return b, subst(body, {v: b})


_rangedep = {}


def has_ite(t):
    r = _rangedep.get(t)
    if r is None:
        r = t.op == 'ite' or any(has_ite(c) for c in children(t))
        _rangedep[t] = r
    return r


def in_range(t, v, hi):
    """simplify the conditions in t that 0 <= v < hi decides"""
    if hi.sort != 'Int' or v not in t.fv or (t.sort != 'Bool' and not has_ite(t)):
        return t
    known = [pol(neg(v)), pol(add(sub(v, hi), ONE)), pol(sub(ONE, hi))]

    def follows(p):
        p = pol(p)
        for q in known:
            d = dict(p)
            for m, c in q.items():
                d[m] = d.get(m, 0) - c
            if all(c == 0 or m == () for m, c in d.items()) and d.get((), 0) <= 0:
                return True
        return False
    m = {}
    for x in subterms(t):
        if x.op == 'le0' and v in x.fv and x.args[0].sort == 'Int':
            if follows(x.args[0]):
                m[x] = TRUE
            elif follows(sub(ONE, x.args[0])):
                m[x] = FALSE
    return subst(t, m) if m else t


LENGTHS = set()     # functions that are lengths of sequences


def _join_sums(body):
    """c*sum f + c*sum g over the same range is c*sum (f + g)"""
    d = pol(body)
    groups = {}
    for m, c in d.items():
        xs = [x for x, e in m if x.op == 'sum' and e == 1]
        if len(xs) == 1:
            s = xs[0]
            co = tuple((x, e) for x, e in m if x is not s)
            groups.setdefault((co, s.args[2]), []).append((m, c, s))
    if all(len(g) < 2 for g in groups.values()):
        return body
    r = dict(d)
    out = num(0, body.sort)
    for (co, hi), g in groups.items():
        if len(g) < 2:
            continue
        w = fresh('w')
        inner = num(0, body.sort)
        for m, c, s in g:
            del r[m]
            inner = add(inner, mul(num(c, body.sort), subst(s.args[3], {s.args[0]: w})))
        t = mk_sum(w, ZERO, hi, inner)
        out = add(out, mul(from_pol({co: 1}, body.sort) if co else num(1, body.sort), t))
    return add(from_pol(r, body.sort), out)


def mk_sum(v, lo, hi, body):
    """sum over integers lo <= v < hi"""
    if SORTED and lo is ZERO:
        s = sum_sorted(v, hi, body)
        if s is not None:
            return s
    if PERMS and lo is ZERO:
        body = unpermute_sum(v, hi, body)
    if is_num(body) and numval(body) == 0:
        return body
    body = _join_sums(body)
    if is_num(body) and numval(body) == 0:
        return body
    if is_num(lo) and is_num(hi):
        n = numval(hi) - numval(lo)
        if n <= 0:
            return num(0, body.sort)
        if n <= 64:
            r = num(0, body.sort)
            for j in range(numval(lo), numval(hi)):
                r = add(r, subst(body, {v: num(j)}))
            return r
    if is_num(lo) and hi.op == 'ite' and is_num(hi.args[1]) and is_num(hi.args[2]):
        return ite(hi.args[0], mk_sum(v, lo, hi.args[1], body), mk_sum(v, lo, hi.args[2], body))
    # normalise range to start at 0
    if lo is not ZERO:
        body = subst(body, {v: add(v, lo)})
        hi = sub(hi, lo)
        lo = ZERO
    if hi.sort == 'Int':
        body = in_range(body, v, hi)
    k = _parity(v, hi, body)
    if k:
        n = from_pol({m: c // k for m, c in pol(hi).items()}, 'Int')
        tot = num(0, body.sort)
        for i in range(k):
            w = fresh('w')
            b = _replace1(_replace1(body, imod(v, num(k)), num(i)), idiv(v, num(k)), w)
            tot = add(tot, mk_sum(w, ZERO, n, subst(b, {v: add(mul(num(k), w), num(i))})))
        return tot
    # linear: split constant factors out monomial by monomial
    r = {}
    rest = {}
    tot = num(0, body.sort)
    for m, c in pol(body).items():
        x = _special(m, v)
        if x is not None:
            tot = add(tot, _sum_special(v, hi, m, c, x, body.sort))
            continue
        out = tuple((a, e) for a, e in m if v not in a.fv)
        inn = tuple((a, e) for a, e in m if v in a.fv)
        rest.setdefault(out, {})
        rest[out][inn] = rest[out].get(inn, 0) + c
    for out, inn in rest.items():
        f = from_pol({out: 1}, body.sort) if out else num(1, body.sort)
        ib = from_pol(inn, body.sort)
        if v not in ib.fv:
            # hi - lo must be >= 0: callers guarantee lo <= hi
            n = hi if body.sort == 'Int' else toreal(hi)
            tot = add(tot, mul(f, mul(n, ib)))
        else:
            # scale to leading coefficient one
            lead = ib.args[0][1] if ib.op == 'poly' else 1
            if lead != 1:
                ib = from_pol({m: Fraction(c) / Fraction(lead) for m, c in pol(ib).items()}, body.sort) if body.sort == 'Real' else ib
                if body.sort != 'Real':
                    lead = 1
            b, bb = _close(v, ib)
            s = _mk('sum', (b, lo, hi, bb), body.sort)
            tot = add(tot, mul(mul(f, num(lead, body.sort)), s))
    return tot


def solve_eq(c, v):
    """e with (c <=> v == e), c an equation linear in v with coefficient +-1"""
    if c.op != 'eq0' or c.args[0].sort != 'Int' or v not in c.args[0].fv:
        return None
    p = dict(pol(c.args[0]))
    a = p.pop(((v, 1),), None)
    if a not in (1, -1):
        return None
    r = from_pol(p, 'Int')
    if v in r.fv:
        return None
    return neg(r) if a == 1 else r


def delta(c, v):
    """(e, rest) if c is (v == e) && rest"""
    lits = c.args if c.op == 'and' else (c,)
    for l in lits:
        e = solve_eq(l, v)
        if e is not None:
            return e, and_(*[x for x in lits if x is not l])
    return None


def _special(m, v):
    for x, e in m:
        if e != 1:
            continue
        if x.op == 'ite':
            c = x.args[0]
            if v not in c.fv:
                if v in x.fv or any(v in y.fv for y, _ in m):
                    return ('pull', x)
                continue
            if delta(c, v) is not None:
                return ('delta', x)
            n = not_(c)
            if delta(n, v) is not None:
                return ('ndelta', x)
        elif x.op == 'sum' and v in x.fv and v not in x.args[2].fv:
            for y in subterms(x.args[3]):
                if y.op == 'ite' and v in y.args[0].fv and (delta(y.args[0], v) or delta(not_(y.args[0]), v)):
                    return ('swap', x)
        elif x.op == 'sum' and v in x.fv:
            # the number of inner terms depends on v: take a v == e out of the inner sum
            b = x.args[0]
            for y in subterms(x.args[3]):
                if y.op == 'ite':
                    for l in (y.args[0].args if y.args[0].op == 'and' else (y.args[0],)):
                        if b not in l.fv and solve_eq(l, v) is not None:
                            return ('case', (x, l))
    return None


def _sum_special(v, hi, m, c, sp, sort):
    k, x = sp
    if k == 'case':
        x, l = x
        b, lo, h2, body = x.args
        rest = from_pol({tuple((a, e) for a, e in m if a is not x): c}, sort)
        one = mk_sum(b, lo, h2, _replace1(body, l, TRUE))
        two = mk_sum(b, lo, h2, _replace1(body, l, FALSE))
        return mk_sum(v, ZERO, hi, mul(rest, ite(l, one, two)))
    rest = from_pol({tuple((a, e) for a, e in m if a is not x): c}, sort)
    if k == 'swap':
        b, lo, h2, body = x.args
        j = fresh('k', b.sort)
        inner = mk_sum(v, ZERO, hi, mul(rest, subst(body, {b: j})))
        return mk_sum(j, ZERO, h2, inner)
    cnd, a, b = x.args
    if k == 'pull':
        return ite(cnd, mk_sum(v, ZERO, hi, mul(rest, a)), mk_sum(v, ZERO, hi, mul(rest, b)))
    if k == 'ndelta':
        cnd, a, b = not_(cnd), b, a
    base = mk_sum(v, ZERO, hi, mul(rest, b))
    e, r = delta(cnd, v)
    val = subst(mul(rest, sub(a, b)), {v: e})
    cc = and_(le(ZERO, e), lt(e, hi), subst(r, {v: e}))
    return add(base, ite(cc, val, num(0, sort)))


def open_sum(t):
    """-> (fresh var, lo, hi, body)"""
    b, lo, hi, body = t.args
    v = fresh('k', b.sort)
    return v, lo, hi, subst(body, {b: v})


def forall(v, body):
    if isinstance(v, (list, tuple)):
        for x in reversed(v):
            body = forall(x, body)
        return body
    if v not in body.fv:
        return body
    if body.op == 'and':
        return and_(*[forall(v, x) for x in body.args])
    if PERMS:
        body = unpermute(v, body)
        if v not in body.fv:
            return body
        if body.op == 'and':
            return and_(*[forall(v, x) for x in body.args])
    b, bb = _close(v, body)
    return _mk('forall', (b, bb), 'Bool')


# permutations pi of 0..n-1, as {name of pi: (enclosing iterations, n)}
PERMS = {}


def forall_raw(v, body):
    b, bb = _close(v, body)
    return _mk('forall', (b, bb), 'Bool')


def unpermute(v, body):
    """for all 0 <= v < n: F(pi(v))  is  for all 0 <= v < n: F(v)"""
    if body.op != 'or' or v.sort != 'Int':
        return body
    ps = set()
    for x in subterms(body):
        if x.op == 'app' and x.args[0] in PERMS and x.args[-1] is v and not any(v in y.fv for y in x.args[1:-1]):
            ps.add(x)
    if len(ps) != 1:
        return body
    p, = ps
    n = perm_len(p)
    lo, hi = lt(v, num(0)), le(n, v)
    if lo not in body.args or hi not in body.args:
        return body
    rest = [x for x in body.args if x is not lo and x is not hi]
    w = fresh('w')
    if len(rest) == 1 and rest[0].op == 'forall' and rest[0].args[0].sort == 'Int':
        # for all u < v: F(pi(u), pi(v)) with symmetric F
        u, inner = open_forall(rest[0])
        q = app(p.args[0], p.args[1:-1] + (u,), 'Int')
        us = inner.args if inner.op == 'or' else (inner,)
        lo2, hi2 = lt(u, num(0)), le(v, u)
        if lo2 in us and hi2 in us:
            z = fresh('w')
            f = or_(*[x for x in us if x is not lo2 and x is not hi2])
            g = _replace1(_replace1(f, p, w), q, z)
            if v not in g.fv and u not in g.fv and subst(g, {w: z, z: w}) is g:
                return or_(lo, hi, forall(u, or_(lo2, hi2, subst(g, {w: v, z: u}))))
        return body
    sb = [_replace1(x, p, w) for x in rest]
    if any(v in x.fv for x in sb):
        return body
    return or_(lo, hi, *[subst(x, {w: v}) for x in sb])


# sorted lists: {function giving a component: list}, {list: (enclosing iterations, length,
# [(condition, {function: component})] the elements in the given order)}
SORTED, GROUPS = {}, {}


def sum_sorted(v, n, body):
    """the sum of F(element) over a sorted list is the sum over the elements in the given order"""
    ps = set()
    for x in subterms(body):
        if x.op == 'app' and x.args[0] in SORTED and x.args[-1] is v and not any(v in y.fv for y in x.args[1:-1]):
            ps.add(x)
    if not ps or len({(SORTED[x.args[0]],) + x.args[1:-1] for x in ps}) != 1:
        return None
    ps = list(ps)
    ix, ln, rows = GROUPS[SORTED[ps[0].args[0]]]
    m = {a: b for a, b in zip(ix, ps[0].args[1:-1]) if a is not b}
    at = (lambda t: subst(t, m)) if m else (lambda t: t)
    if at(ln) is not n:
        return None
    ws = [fresh('w', x.sort) for x in ps]
    b = body
    for x, w in zip(ps, ws):
        b = _replace1(b, x, w)
    if v in b.fv:
        return None
    tot = num(0, body.sort)
    for c, row in rows:
        tot = add(tot, guarded(at(c), subst(b, {w: at(row[x.args[0]]) for x, w in zip(ps, ws)})))
    return tot


def guarded(c, t):
    """t if c else 0, with one condition per term of t"""
    if c is TRUE:
        return t
    zero = num(0, t.sort)
    tot = zero
    for m, k in pol(t).items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite' and m[0][0].args[2] is zero:
            x = m[0][0]
            tot = add(tot, mul(num(k, t.sort), ite(and_(c, x.args[0]), x.args[1], zero)))
        else:
            tot = add(tot, ite(c, from_pol({m: k}, t.sort), zero))
    return tot


def perm_len(p):
    vs, n = PERMS[p.args[0]]
    m = {a: b for a, b in zip(vs, p.args[1:-1]) if a is not b}
    return subst(n, m) if m else n


def unpermute_sum(v, n, body):
    """the sum of F(pi(v)) over all v < n is the sum of F(v)"""
    ps = set()
    for x in subterms(body):
        if x.op == 'app' and x.args[0] in PERMS and x.args[-1] is v and perm_len(x) is n and not any(v in y.fv for y in x.args[1:-1]):
            ps.add(x)
    if len(ps) != 1:
        return body
    p, = ps
    w = fresh('w')
    b = _replace1(body, p, w)
    # the range of pi is known: 0 <= pi(v) < n
    return body if v in b.fv else subst(b, {w: v})


def _replace1(t, a, b):
    memo = {}

    def go(x):
        if x is a:
            return b
        r = memo.get(x)
        if r is None:
            r = x if x.op in ('var', 'const') else rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def exists(v, body):
    return not_(forall(v, not_(body)))


def open_forall(t):
    b, body = t.args
    v = fresh('q', b.sort)
    return v, subst(body, {b: v})


# ---------------------------------------------------------------- substitution
def rebuild(t, f):
    """rebuild t with children mapped by f through the smart constructors"""
    op = t.op
    a = t.args
    if op in ('var', 'const'):
        return t
    if op == 'poly':
        r = num(0, t.sort)
        ch = False
        cache = {}
        for m, c in a:
            for x, e in m:
                if x not in cache:
                    cache[x] = f(x)
                    if cache[x] is not x:
                        ch = True
        if not ch:
            return t
        acc = {}
        for m, c in a:
            if all(cache[x] is x for x, e in m):
                acc[m] = acc.get(m, 0) + c
                continue
            p = num(c, t.sort)
            for x, e in m:
                y = cache[x]
                if y.sort != t.sort:
                    y = lift(y, t.sort)
                if e < 0:
                    y = inv(y)
                    e = -e
                for _ in range(e):
                    p = mul(p, y)
            for mm, cc in pol(p).items():
                acc[mm] = acc.get(mm, 0) + cc
        return from_pol(acc, t.sort)
    if op == 'app':
        n = tuple(f(x) for x in a[1:])
        if n == a[1:]: return t
        return app_s(a[0], n, t.sort)
    if op in ('sum', 'forall', 'exists'):
        if op == 'sum':
            lo, hi = f(a[1]), f(a[2])
            v = fresh('k', a[0].sort)
            body0 = subst(a[3], {a[0]: v})
            body = f(body0)
            if lo is a[1] and hi is a[2] and body is body0:
                return t
            return mk_sum(v, lo, hi, body)
        v = fresh('q', a[0].sort)
        body0 = subst(a[1], {a[0]: v})
        body = f(body0)
        if body is body0: return t
        return forall(v, body) if op == 'forall' else exists(v, body)
    n = tuple(f(x) for x in a)
    if n == a: return t
    if op == 'not': return not_(n[0])
    if op == 'and': return and_(*n)
    if op == 'or': return or_(*n)
    if op == 'iff': return iff(*n)
    if op == 'eq': return eq(*n)
    if op == 'le0': return le(n[0], num(0, n[0].sort))
    if op == 'lt0': return lt(n[0], num(0, n[0].sort))
    if op == 'eq0': return eq(n[0], num(0, n[0].sort))
    if op == 'slt': return lt(*n)
    if op == 'ite': return ite(*n)
    if op == 'inv': return inv(n[0])
    if op == 'toreal': return toreal(n[0])
    if op == 'toint': return toint(n[0])
    if op == 'round':
        r = as_int(roundr(n[0]))
        return r
    if op == 'floor':
        return as_int(floorr(n[0]))
    if op == 'div': return idiv(*n)
    if op == 'mod': return imod(*n)
    if op == 'emod': return emod(*n)
    raise NotImplementedError(op)


_app_simpl = {}


def app_s(name, args, sort):
    h = _app_simpl.get(name)
    if h:
        r = h(*args)
        if r is not None:
            return r
    return app(name, args, sort)


def subst(t, m):
    if not m:
        return t
    keyfv = frozenset().union(*[k.fv for k in m])
    memo = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        if not (x.fv & keyfv) and keyfv:
            return x
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return seen
    seen.add(t)
    for c in children(t):
        subterms(c, seen)
    return seen


# ---------------------------------------------------------------- printing
def show(t, depth=12):
    if depth <= 0: return '...'
    op, a = t.op, t.args
    s = lambda x: show(x, depth - 1)
    if op == 'var': return a[0]
    if op == 'const': return str(a[0])
    if op == 'poly':
        if not a: return '0'
        out = []
        for m, c in a:
            f = [] if (c == 1 and m) else [str(c)]
            for x, e in m:
                f.append(s(x) + ('' if e == 1 else '^%d' % e))
            out.append('*'.join(f))
        return '(' + ' + '.join(out) + ')'
    if op == 'app': return a[0] + '(' + ', '.join(map(s, a[1:])) + ')'
    if op == 'sum': return 'SUM[%s<=%s<%s](%s)' % (s(a[1]), s(a[0]), s(a[2]), s(a[3]))
    if op in ('forall', 'exists'): return '%s %s. %s' % (op, s(a[0]), s(a[1]))
    if op == 'le0': return s(a[0]) + ' <= 0'
    if op == 'lt0': return s(a[0]) + ' < 0'
    if op == 'eq0': return s(a[0]) + ' == 0'
    if op == 'ite': return '(%s ? %s : %s)' % tuple(map(s, a))
    if op == 'and': return '(' + ' && '.join(map(s, a)) + ')'
    if op == 'or': return '(' + ' || '.join(map(s, a)) + ')'
    if op == 'not': return '!' + s(a[0])
    return op + '(' + ', '.join(map(s, a)) + ')'
