"""Loop invariant of the merging loop: after k steps the current triplet carries the column of
element k and the sum of the values given for that column so far, the finished columns are
strictly increasing and smaller, and every earlier column c (an arbitrary one) either is
finished with the sum of its values or was dropped because that sum vanishes."""
from vcg.term import *
from vcg.values import *

EPS = num(Fraction(1, 2 ** 52), 'Real')


def merging(L):
    src = L.e.inputs.get('list')
    if not isinstance(src, Seq):
        return None
    done, cur = None, {}
    for l, v in L.ph_vals().items():
        if isinstance(v, Seq) and isinstance(get(v), Struct) and set(get(v).f) == {'row', 'column', 'value'}:
            if done is not None:
                return None
            done = l
    for l, v in L.ph_vals().items():
        if isinstance(v, T) and l[1] and l[1][0][0] == 'f':
            cur.setdefault(l[0], {})[tuple(s[1] for s in l[1])] = l
    cur = [d for d in cur.values() if {p[0] for p in d} == {'row', 'column', 'value'}]
    if done is None or len(cur) != 1:
        return None
    cur = cur[0]
    comps = [p for p in cur if p[0] == 'value']

    def at(s, path):
        for p in path:
            s = s.f[p]
        return s
    given = lambda i, p: at(sget(src, i), p)
    c, row = L.e.inputs.get('c'), L.e.inputs.get('row')

    def inv(k, plus, vals):
        lst = vals[done]
        m = slen(lst)
        R = lambda i, p: num(0, 'Int' if p[0] != 'value' else 'Real') if m is ZERO else at(sget(lst, i), p)
        a, b = fresh('a'), fresh('b')
        last = add(num(k) if isinstance(k, int) else k, num(plus))
        tcol = vals[cur[('column',)]]

        def rng(v, hi):
            return and_(le(ZERO, v), lt(v, hi))
        out = [
            eq(tcol, given(last, ('column',))),
            forall(b, implies(rng(b, m), lt(R(b, ('column',)), tcol))),
            forall(a, forall(b, implies(and_(rng(b, m), rng(a, b)), lt(R(a, ('column',)), R(b, ('column',)))))),
            forall(b, implies(rng(b, m), exists(a, and_(rng(a, add(last, ONE)), eq(R(b, ('column',)), given(a, ('column',))))))),
        ]
        if row is not None:
            out += [eq(vals[cur[('row',)]], row), forall(b, implies(rng(b, m), eq(R(b, ('row',)), row)))]
        if c is None:
            return out
        zero, sums, tsum, kept = [], [], [], []
        for p in comps:
            i, j = fresh('i'), fresh('j')
            item = lambda q, v: ite(eq(q(v, ('column',)), c), q(v, p), num(0, 'Real'))
            S = mk_sum(i, ZERO, add(k, ONE), item(given, i))
            if plus:
                S = add(S, item(given, last))
            D = mk_sum(j, ZERO, m, item(R, j)) if m is not ZERO else num(0, 'Real')
            zero.append(and_(lt(S, EPS), lt(neg(S), EPS)))
            kept.append(eq(D, S))
            sums += [eq(D, num(0, 'Real')), eq(S, num(0, 'Real'))]
            tsum += [eq(D, num(0, 'Real')), eq(vals[cur[p]], S)]
        absent = forall(b, implies(rng(b, m), not_(eq(R(b, ('column',)), c))))
        out += [implies(lt(tcol, c), x) for x in sums] + [implies(eq(tcol, c), x) for x in tsum]
        return out + [
            implies(lt(c, tcol), or_(and_(not_(absent), *kept), and_(absent, *zero))),
        ]
    return inv


def get(v):
    return sget(v, ZERO)


INVARIANTS = [merging]
