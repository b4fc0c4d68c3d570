"""Values of the interpreter: scalars are terms, everything else is built here.
All values are immutable."""
from .term import *
from . import term as tm
from .prover import quick, decide, NOFACTS


class Undecided(Exception):
    """a construct the verifier does not handle; never an alarm"""


class Struct:
    __slots__ = ('ty', 'f')

    def __init__(self, ty, f):
        self.ty = ty
        self.f = f

    def __repr__(self):
        return '{' + ', '.join('%s:%r' % kv for kv in self.f.items()) + '}'


class Seq:
    """a finite sequence: a concatenation of segments
       ('c', n, v, body)   n elements body[v:=0..n-1]
       ('g', cond, segs)   segs if cond else nothing
       ('f', n, v, segs)   concatenation of segs[v:=0..n-1]
       ('p', pid, segs)    a permutation of segs"""
    __slots__ = ('segs', 'ety')

    def __init__(self, segs, ety):
        self.segs = tuple(segs)
        self.ety = ety

    def __repr__(self):
        return 'Seq[' + ' ++ '.join(segstr(s) for s in self.segs) + ']'


def segstr(s):
    if s[0] == 'c':
        return '<%s|%s<%s>' % (s[3], s[2], s[1])
    if s[0] == 'g':
        return 'if %s {%s}' % (s[1], ' ++ '.join(map(segstr, s[2])))
    if s[0] == 'p':
        return 'perm%s{%s}' % (s[1], ' ++ '.join(map(segstr, s[2])))
    return 'FLAT %s<%s {%s}' % (s[2], s[1], ' ++ '.join(map(segstr, s[3])))


class Ref:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = path

    def sub(self, *st):
        return Ref(self.root, self.path + st)

    def __eq__(self, o):
        return isinstance(o, Ref) and o.root == self.root and o.path == self.path

    def __hash__(self):
        return hash((self.root, self.path))

    def __repr__(self):
        return '&%s%s' % (self.root, ''.join('.%s' % (s[1],) for s in self.path))


class Iter:
    """iterator into the sequence stored at ref; rev iterators refer to element idx-1"""
    __slots__ = ('ref', 'idx', 'rev')

    def __init__(self, ref, idx, rev=False):
        self.ref = ref
        self.idx = idx
        self.rev = rev

    def __repr__(self):
        return 'Iter(%r,%s%s)' % (self.ref, self.idx, ',rev' if self.rev else '')


class BackIns:
    def __init__(self, ref): self.ref = ref


class OStreamIter:
    def __init__(self, ref, sep, ety): self.ref, self.sep, self.ety = ref, sep, ety


class Closure:
    """lambda object or callable wrapper"""
    def __init__(self, fid, caps, this=None):
        self.fid, self.caps, self.this = fid, caps, this


class FnV:
    """an arbitrary (uninterpreted) function"""
    def __init__(self, name, rt):
        self.name, self.rt = name, rt


class Opaque:
    def __init__(self, n): self.n = n
    def __repr__(self): return '<%s>' % self.n


NULL = Opaque('null')


# ---------------------------------------------------------------- generic maps
def vmap(v, f):
    """apply f to every term of v (binders handled)"""
    if isinstance(v, T):
        return f(v)
    if isinstance(v, Struct):
        n = {}
        ch = False
        for k, x in v.f.items():
            y = vmap(x, f)
            ch |= y is not x
            n[k] = y
        return Struct(v.ty, n) if ch else v
    if isinstance(v, Seq):
        return Seq([segmap(s, f) for s in v.segs], v.ety)
    if isinstance(v, Ref):
        return Ref(v.root, tuple((s[0], f(s[1])) if s[0] == 'i' else s for s in v.path))
    if isinstance(v, Iter):
        return Iter(vmap(v.ref, f), f(v.idx), v.rev)
    if isinstance(v, Closure):
        return Closure(v.fid, {k: vmap(x, f) for k, x in v.caps.items()}, vmap(v.this, f) if v.this is not None else None)
    return v


def segmap(s, f):
    # bound variables are globally fresh, so no capture
    if s[0] == 'c':
        return ('c', f(s[1]), s[2], vmap(s[3], f))
    if s[0] == 'g':
        return ('g', f(s[1]), tuple(segmap(x, f) for x in s[2]))
    if s[0] == 'p':
        return ('p', s[1] if isinstance(s[1], str) else (s[1][0],) + tuple(f(x) for x in s[1][1:]), tuple(segmap(x, f) for x in s[2]))
    return ('f', f(s[1]), s[2], tuple(segmap(x, f) for x in s[3]))


def vsubst(v, m):
    if not m:
        return v
    keys = frozenset().union(*[k.fv for k in m])

    def f(t):
        if t.fv & keys or not keys:
            return subst(t, m)
        return t
    return vmap(v, f)


def vassume(v, c):
    return vmap(v, lambda t: assume(t, c))


def vfv(v):
    out = set()

    def f(t):
        out.update(t.fv)
        return t
    vmap(v, f)
    # remove bound
    bound = set()

    def b(x):
        if isinstance(x, Struct):
            for y in x.f.values(): b(y)
        elif isinstance(x, Seq):
            for s in x.segs: bs(s)

    def bs(s):
        if s[0] == 'c':
            bound.add(s[2]); b(s[3])
        elif s[0] in ('g', 'p'):
            for x in s[2]: bs(x)
        else:
            bound.add(s[2])
            for x in s[3]: bs(x)
    b(v)
    return out - bound


def terms_of(v):
    out = []
    vmap(v, lambda t: (out.append(t), t)[1])
    return out


# ---------------------------------------------------------------- sequences
def comp(n, v, body):
    return ('c', n, v, body)


def lit(elems, ety):
    return Seq([('c', ONE, fresh('u'), e) for e in elems], ety)


def segs_len(segs):
    n = ZERO
    for s in segs:
        n = add(n, seg_len(s))
    return n


def seg_len(s):
    if s[0] == 'c':
        return s[1]
    if s[0] == 'g':
        return ite(s[1], segs_len(s[2]), ZERO)
    if s[0] == 'p':
        return segs_len(s[2])
    return mk_sum(s[2], ZERO, s[1], segs_len(s[3]))


def slen(q):
    return segs_len(q.segs)


def polydiv(p, d):
    """split p = d*q + r syntactically (monomial-wise), d a term"""
    dd = pol(d)
    if len(dd) != 1:
        # try: exact polynomial division heuristics for d with several monomials
        return multidiv(p, d)
    (dm, dc), = dd.items()
    q = {}
    r = {}
    for m, c in pol(p).items():
        md = dict(m)
        ok = True
        for x, e in dm:
            if md.get(x, 0) < e:
                ok = False
                break
        if ok and (p.sort == 'Int' and c % dc != 0):
            ok = False
        if ok:
            for x, e in dm:
                md[x] -= e
            mm = tuple(sorted(((x, e) for x, e in md.items() if e), key=lambda z: z[0].id))
            q[mm] = q.get(mm, 0) + c // dc
        else:
            r[m] = r.get(m, 0) + c
    return from_pol(q, 'Int'), from_pol(r, 'Int')


def multidiv(p, d):
    """multivariate long division by a polynomial d (leading monomial: highest degree)"""
    def deg(m): return sum(e for _, e in m)
    dd = pol(d)
    lm = max(dd, key=lambda m: (deg(m), tm._mono_key(m)))
    lc = dd[lm]
    q = num(0)
    r = num(0)
    cur = p
    for _ in range(20):
        pd = pol(cur)
        hit = None
        for m, c in sorted(pd.items(), key=lambda mc: -deg(mc[0])):
            md = dict(m)
            if c % lc == 0 and all(md.get(x, 0) >= e for x, e in lm):
                for x, e in lm:
                    md[x] -= e
                mm = tuple(sorted(((x, e) for x, e in md.items() if e), key=lambda z: z[0].id))
                hit = from_pol({mm: c // lc}, 'Int')
                break
        if hit is None:
            break
        q = add(q, hit)
        cur = sub(cur, mul(hit, d))
    return q, cur


def divmod_terms(i, L, facts):
    """quotient and remainder of 0<=i by L>0"""
    if is_num(L) and numval(L) == 1:
        return i, ZERO
    q, r = polydiv(i, L)
    for _ in range(3):
        a = decide(facts, le(ZERO, r))
        b = decide(facts, lt(r, L))
        if a is True and b is True:
            return q, r
        if a is False:
            q, r = sub(q, ONE), add(r, L)
        elif b is False:
            q, r = add(q, ONE), sub(r, L)
        else:
            break
    return idiv(i, L), imod(i, L)


def smart_divmod(a, b, facts):
    """(quotient, remainder) if they can be simplified, else None"""
    q, r = polydiv(a, b)
    if q is ZERO and decide(facts, and_(le(ZERO, a), lt(a, b))) is True:
        return ZERO, a
    if q is not ZERO and decide(facts, and_(le(ZERO, r), lt(r, b), lt(ZERO, b))) is True:
        return q, r
    return None


def segs_get(segs, i, facts):
    for j, s in enumerate(segs):
        n = seg_len(s)
        last = j == len(segs) - 1
        if last:
            return seg_get(s, i, facts)
        c = lt(i, n)
        d = decide(facts, c)
        if d is True:
            return seg_get(s, i, facts)
        if d is False:
            i = sub(i, n)
            continue
        a = seg_get(s, i, facts.add(c))
        b = segs_get(segs[j + 1:], sub(i, n), facts.add(not_(c)))
        return vite(c, a, b)
    raise Undecided('element of an empty sequence')


def seg_get(s, i, facts):
    if s[0] == 'c':
        if s[1] is ONE:
            return vsubst(s[3], {s[2]: ZERO})
        return vsubst(s[3], {s[2]: i})
    if s[0] == 'g':
        return segs_get(s[2], i, facts.add(s[1]))
    if s[0] == 'p':
        from .values import perm_index
        return segs_get(s[2], perm_index(s[1], i), facts)
    n, v, segs = s[1], s[2], s[3]
    L = segs_len(segs)
    if v in L.fv:
        f2 = facts.add(le(ZERO, v), lt(v, n))
        raise Undecided('index into a sequence with blocks of varying length')
    q, r = divmod_terms(i, L, facts)
    return segs_get(tuple(segmap(x, lambda t: subst(t, {v: q})) for x in segs), r, facts)


def perm_index(pid, i):
    # a permutation made in a loop depends on the iterations: (name, iteration, ...)
    if isinstance(pid, str):
        return app('perm:' + pid, (i,), 'Int')
    return app('perm:' + pid[0], tuple(pid[1:]) + (i,), 'Int')


def sget(q, i, facts=NOFACTS):
    return segs_get(q.segs, i, facts)


def is_pure(q):
    """indexable pointwise"""
    def ok(s):
        if s[0] == 'c':
            return True
        if s[0] in ('g', 'p'):
            return all(ok(x) for x in s[2])
        return all(ok(x) for x in s[3]) and s[2] not in segs_len(s[3]).fv
    return all(ok(s) for s in q.segs)


def as_comp(q, facts):
    if len(q.segs) == 1 and q.segs[0][0] == 'c':
        return q.segs[0]
    if not q.segs:
        return None
    n = slen(q)
    v = fresh('v')
    return ('c', n, v, sget(q, v, facts.add(le(ZERO, v), lt(v, n))))


def sset(q, i, val, facts):
    n = slen(q)
    if is_num(i) and all(s[0] == 'c' and s[1] is ONE for s in q.segs):
        k = numval(i)
        segs = list(q.segs)
        if 0 <= k < len(segs):
            segs[k] = ('c', ONE, segs[k][2], val)
            return Seq(segs, q.ety)
    s = as_comp(q, facts)
    if s is None:
        raise Undecided('write to an empty sequence')
    v = fresh('v')
    body = vsubst(s[3], {s[2]: v})
    old = vsubst(s[3], {s[2]: i}) if s[1] is not ONE else None

    def put(x, y, o):
        if isinstance(x, Struct) and isinstance(y, Struct) and isinstance(o, Struct) and x.f.keys() == y.f.keys() == o.f.keys():
            return Struct(y.ty, {k: put(x.f[k], y.f[k], o.f[k]) for k in x.f})
        if isinstance(x, T) and isinstance(o, T) and x.sort in ('Int', 'Real') and o.sort == x.sort and not is_num(o):
            d = sub(x, o)
            if len(pol(d)) < len(pol(x)) or (d is num(0, x.sort)):
                return add(y, ite(eq(v, i), d, num(0, x.sort)))
        return vite(eq(v, i), x, y)
    try:
        nb = put(val, body, old) if old is not None else vite(eq(v, i), val, body)
    except Undecided:
        nb = vite(eq(v, i), val, body)
    return Seq([('c', n, v, nb)], q.ety)


def snorm(segs):
    out = []
    for s in segs:
        if s[0] == 'c' and s[1] is ZERO:
            continue
        if s[0] == 'g':
            if s[1] is FALSE:
                continue
            if s[1] is TRUE:
                out.extend(snorm(s[2]))
                continue
            inner = snorm(s[2])
            if not inner:
                continue
            if len(inner) == 1 and inner[0][0] == 'g':
                out.append(('g', and_(s[1], inner[0][1]), inner[0][2]))
                continue
            out.append(('g', s[1], inner))
            continue
        if s[0] == 'f':
            inner = snorm(s[3])
            if not inner or s[1] is ZERO:
                continue
            if len(inner) == 1 and inner[0][0] == 'c' and inner[0][1] is ONE:
                out.append(('c', s[1], s[2], vsubst(inner[0][3], {inner[0][2]: ZERO})))
                continue
            out.append(('f', s[1], s[2], inner))
            continue
        out.append(s)
    return tuple(out)


def sconcat(a, b):
    return Seq(snorm(a.segs + b.segs), a.ety or b.ety)


def sslice(q, lo, hi, facts):
    """elements lo..hi-1"""
    n = slen(q)
    if lo is ZERO and hi is n:
        return q
    d = eq(hi, n)
    if lo is ZERO and decide(facts, d) is True:
        return q
    # concrete literal
    if is_num(lo) and is_num(hi) and all(s[0] == 'c' and s[1] is ONE for s in q.segs):
        return Seq(q.segs[numval(lo):numval(hi)], q.ety)
    # drop / keep whole segments where decidable
    segs = list(q.segs)
    pre = []
    while segs:
        L = seg_len(segs[0])
        if lo is not ZERO and decide(facts, le(L, lo)) is True:
            lo, hi = sub(lo, L), sub(hi, L)
            segs.pop(0)
            continue
        break
    while segs:
        tot = segs_len(segs)
        L = seg_len(segs[-1])
        if decide(facts, le(hi, sub(tot, L))) is True:
            segs.pop()
            continue
        break
    while segs and lo is ZERO:
        L = seg_len(segs[0])
        if decide(facts, le(L, hi)) is True:
            pre.append(segs.pop(0))
            hi = sub(hi, L)
        else:
            break
    if not segs or hi is lo:
        return Seq(pre, q.ety)
    m = sub(hi, lo)
    v = fresh('v')
    f2 = facts.add(le(ZERO, v), lt(v, m))
    return Seq(snorm(pre + [('c', m, v, segs_get(tuple(segs), add(v, lo), f2))]), q.ety)


def srev(q, facts):
    def rv(s):
        if s[0] == 'c':
            if s[1] is ONE:
                return s
            v = fresh('v')
            return ('c', s[1], v, vsubst(s[3], {s[2]: sub(sub(s[1], ONE), v)}))
        if s[0] == 'g':
            return ('g', s[1], tuple(rv(x) for x in reversed(s[2])))
        if s[0] == 'f':
            v = fresh('v')
            return ('f', s[1], v, tuple(segmap(rv(x), lambda t: subst(t, {s[2]: sub(sub(s[1], ONE), v)})) for x in reversed(s[3])))
        raise Undecided('reverse of sorted sequence')
    return Seq([rv(s) for s in reversed(q.segs)], q.ety)


def smap(q, f, ety=None):
    """map a python function over the elements; f(value) -> value"""
    def mp(s):
        if s[0] == 'c':
            return ('c', s[1], s[2], f(s[3]))
        if s[0] in ('g', 'p'):
            return (s[0], s[1], tuple(mp(x) for x in s[2]))
        return ('f', s[1], s[2], tuple(mp(x) for x in s[3]))
    return Seq([mp(s) for s in q.segs], ety)


def ssum(q, f, zero):
    """sum of f(element) over all elements; f may return a Struct of terms"""
    def go(segs):
        r = zero
        for s in segs:
            if s[0] == 'c':
                if s[1] is ONE:
                    x = f(vsubst(s[3], {s[2]: ZERO}))
                else:
                    v = fresh('k')
                    x = vzip1(f(vsubst(s[3], {s[2]: v})), lambda t: mk_sum(v, ZERO, s[1], t))
            elif s[0] == 'g':
                x = go(s[2])
                x = vite(s[1], x, zero)
            elif s[0] == 'p':
                x = go(s[2])
            else:
                v = fresh('k')
                x = go(tuple(segmap(y, lambda t: subst(t, {s[2]: v})) for y in s[3]))
                x = vzip1(x, lambda t: mk_sum(v, ZERO, s[1], t))
            r = vadd(r, x)
        return r
    return go(q.segs)


def vzip1(v, f):
    return vmap(v, f)


def vadd(a, b):
    if isinstance(a, T):
        return add(a, b)
    return Struct(a.ty, {k: vadd(a.f[k], b.f[k]) for k in a.f})


# ---------------------------------------------------------------- merging
def vite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if isinstance(a, T) and isinstance(b, T):
        return ite(c, a, b)
    if isinstance(a, Struct) and isinstance(b, Struct):
        if set(a.f) != set(b.f):
            raise Undecided('merging different structures')
        return Struct(a.ty, {k: vite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Seq) and isinstance(b, Seq):
        return seqite(c, a, b)
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b: return a
        if a.root == b.root and len(a.path) == len(b.path):
            p = []
            for x, y in zip(a.path, b.path):
                if x == y: p.append(x)
                elif x[0] == 'i' and y[0] == 'i': p.append(('i', ite(c, x[1], y[1])))
                else: raise Undecided('merging references')
            return Ref(a.root, tuple(p))
        raise Undecided('merging references')
    if isinstance(a, Iter) and isinstance(b, Iter) and a.rev == b.rev:
        return Iter(vite(c, a.ref, b.ref), ite(c, a.idx, b.idx), a.rev)
    if isinstance(a, Closure) and isinstance(b, Closure) and a.fid == b.fid:
        return Closure(a.fid, {k: vite(c, a.caps[k], b.caps[k]) for k in a.caps}, a.this)
    if isinstance(a, FnV) and isinstance(b, FnV) and a.name == b.name:
        return a
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.n == b.n:
        return a
    raise Undecided('merging %s with %s' % (type(a).__name__, type(b).__name__))


def segsame(a, b):
    if a is b:
        return True
    if a[0] != b[0]:
        return False
    if a[0] == 'c':
        if a[1] is not b[1]:
            return False
        return vsame(a[3], vsubst(b[3], {b[2]: a[2]}))
    if a[0] in ('g', 'p'):
        return a[1] is b[1] if a[0] == 'g' else a[1] == b[1] and len(a[2]) == len(b[2]) and all(segsame(x, y) for x, y in zip(a[2], b[2]))
    if a[1] is not b[1] or len(a[3]) != len(b[3]):
        return False
    return all(segsame(x, segmap(y, lambda t: subst(t, {b[2]: a[2]}))) for x, y in zip(a[3], b[3]))


def segsame_full(a, b):
    if a[0] == 'g' and b[0] == 'g':
        return a[1] is b[1] and len(a[2]) == len(b[2]) and all(segsame_full(x, y) for x, y in zip(a[2], b[2]))
    return segsame(a, b)


def vsame(a, b):
    """syntactic identity"""
    if a is b: return True
    if isinstance(a, T) or isinstance(b, T):
        return False
    if type(a) is not type(b): return False
    if isinstance(a, Struct):
        return a.f.keys() == b.f.keys() and all(vsame(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Seq):
        return len(a.segs) == len(b.segs) and all(segsame_full(x, y) for x, y in zip(a.segs, b.segs))
    if isinstance(a, Ref): return a == b
    if isinstance(a, Iter): return a.ref == b.ref and a.idx is b.idx and a.rev == b.rev
    if isinstance(a, Closure):
        return a.fid == b.fid and a.caps.keys() == b.caps.keys() and all(vsame(a.caps[k], b.caps[k]) for k in a.caps)
    if isinstance(a, FnV): return a.name == b.name
    if isinstance(a, Opaque): return a.n == b.n
    return False


def seqite(c, a, b):
    if vsame(a, b): return a
    ety = a.ety or b.ety
    i = 0
    while i < len(a.segs) and i < len(b.segs) and segsame_full(a.segs[i], b.segs[i]):
        i += 1
    ra, rb = a.segs[i:], b.segs[i:]
    j = 0
    while j < len(ra) and j < len(rb) and segsame_full(ra[len(ra) - 1 - j], rb[len(rb) - 1 - j]):
        j += 1
    post = ra[len(ra) - j:]
    ra, rb = ra[:len(ra) - j], rb[:len(rb) - j]
    pre = a.segs[:i]
    mid = ()
    la, lb = segs_len(ra), segs_len(rb)
    if la is lb and ra and rb and is_pure(Seq(ra, ety)) and is_pure(Seq(rb, ety)):
        if len(ra) == len(rb) and all(x[0] == 'c' and y[0] == 'c' and x[1] is y[1] for x, y in zip(ra, rb)):
            mid = tuple(('c', x[1], x[2], vite(c, x[3], vsubst(y[3], {y[2]: x[2]}))) for x, y in zip(ra, rb))
        else:
            x = as_comp(Seq(ra, ety), NOFACTS)
            y = as_comp(Seq(rb, ety), NOFACTS)
            mid = (('c', x[1], x[2], vite(c, x[3], vsubst(y[3], {y[2]: x[2]}))),)
    else:
        if ra:
            mid += (('g', c, tuple(segmap(s, lambda t: assume(t, c)) for s in ra)),)
        if rb:
            n = not_(c)
            mid += (('g', n, tuple(segmap(s, lambda t: assume(t, n)) for s in rb)),)
    return Seq(snorm(pre + mid + post), ety)


# ---------------------------------------------------------------- equality as a formula
def veq(a, b, facts=NOFACTS):
    """structural equality of values as a formula"""
    if a is b: return TRUE
    if isinstance(a, T) and isinstance(b, T):
        return eq(a, b)
    if isinstance(a, Struct) and isinstance(b, Struct):
        r = TRUE
        for k in a.f:
            x = veq(a.f[k], b.f[k], facts)
            r = and_(r, x)
            if r is FALSE: return r
        return r
    if isinstance(a, Seq) and isinstance(b, Seq):
        return seqeq(a, b, facts)
    if isinstance(a, Iter) and isinstance(b, Iter):
        if a.ref != b.ref:
            raise Undecided('comparing iterators of different containers')
        return eq(a.idx, b.idx)
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.root == b.root and len(a.path) == len(b.path):
            r = TRUE
            for x, y in zip(a.path, b.path):
                if x[0] == 'i' and y[0] == 'i': r = and_(r, eq(x[1], y[1]))
                elif x != y: return FALSE
            return r
        return FALSE
    if vsame(a, b):
        return TRUE
    raise Undecided('equality of %s and %s' % (type(a).__name__, type(b).__name__))


def seqeq(a, b, facts):
    if vsame(a, b): return TRUE
    if a.ety == 'STR':
        from .text import texteq
        return texteq(a, b, facts)
    # segmentwise when aligned
    if len(a.segs) == len(b.segs) and a.segs and all(x[0] == y[0] for x, y in zip(a.segs, b.segs)) \
            and not (is_pure(a) and is_pure(b)):
        r = TRUE
        for x, y in zip(a.segs, b.segs):
            r = and_(r, segeq(x, y, facts))
        return r
    if not (is_pure(a) and is_pure(b)):
        raise Undecided('comparing sequences of different shape')
    la, lb = slen(a), slen(b)
    r = eq(la, lb)
    if r is FALSE: return r
    if all(s[0] == 'c' and s[1] is ONE for s in a.segs + b.segs) and len(a.segs) == len(b.segs):
        for x, y in zip(a.segs, b.segs):
            r = and_(r, veq(vsubst(x[3], {x[2]: ZERO}), vsubst(y[3], {y[2]: ZERO}), facts))
        return r
    if not a.segs or not b.segs:
        return r
    i = fresh('e')
    f2 = facts.add(le(ZERO, i), lt(i, la), r)
    if decide(f2, FALSE) is True:
        return r
    e = veq(sget(a, i, f2), sget(b, i, f2), f2)
    return and_(r, forall(i, implies(and_(le(ZERO, i), lt(i, la)), e)))


def segeq(x, y, facts):
    if x[0] == 'c':
        i = fresh('e')
        g = and_(le(ZERO, i), lt(i, x[1]))
        e = veq(vsubst(x[3], {x[2]: i}), vsubst(y[3], {y[2]: i}), facts.add(g))
        return and_(eq(x[1], y[1]), forall(i, implies(g, e)))
    if x[0] == 'g':
        f2 = facts.add(x[1])
        return and_(iff(x[1], y[1]), implies(x[1], seqeq(Seq(x[2], None), Seq(y[2], None), f2)))
    if x[0] == 'p':
        if x[1] == y[1]:
            return TRUE
        raise Undecided('comparing permutations')
    i = fresh('e')
    g = and_(le(ZERO, i), lt(i, x[1]))
    a = Seq(tuple(segmap(s, lambda t: subst(t, {x[2]: i})) for s in x[3]), None)
    b = Seq(tuple(segmap(s, lambda t: subst(t, {y[2]: i})) for s in y[3]), None)
    e = seqeq(a, b, facts.add(g))
    return and_(eq(x[1], y[1]), forall(i, implies(g, e)))


def vshow(v):
    if isinstance(v, T):
        return show(v)
    if isinstance(v, Struct):
        return '{' + ', '.join('%s=%s' % (k, vshow(x)) for k, x in v.f.items()) + '}'
    if isinstance(v, Seq):
        out = []
        for s in v.segs:
            if s[0] in 'c':
                out.append('[%s: %s | %s]' % (show(s[1]), show(s[2]), vshow(s[3])))
            else:
                out.append('%s%r' % (s[0], tuple(show(x) if isinstance(x, T) else ([vshow(Seq([y], None)) if isinstance(y, tuple) else vshow(y) for y in x] if isinstance(x, tuple) else vshow(x)) for x in s[1:])))
        return 'seq(' + ' ++ '.join(out) + ')'
    if isinstance(v, Iter):
        return 'iter(%r,%s)' % (v.ref, show(v.idx))
    return repr(v)
