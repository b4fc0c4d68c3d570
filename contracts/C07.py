"""Loop invariant of the collecting loop: after k input terms the list is sorted without
repetition, holds exactly the sequences met so far, each with the sum of their prefactors."""
from vcg.term import *
from vcg.values import *


def collected(L):
    e = L.e
    src = e.inputs.get('in')
    if not isinstance(src, Seq):
        return None
    leaf = None
    for l, v in L.ph_vals().items():
        if isinstance(v, Seq) and isinstance(get(v), Struct) and set(get(v).f) == {'prefactor', 'operators'} and isinstance(get(v).f['operators'], T):
            if leaf is not None:
                return None
            leaf = l
    if leaf is None:
        return None
    key = lambda i: sget(src, i).f['operators']
    pre = lambda i: sget(src, i).f['prefactor']

    def inv(k, plus, vals):
        lst = vals[leaf]
        m = slen(lst)
        empty = m is ZERO
        K = lambda i: strc('') if empty else sget(lst, i).f['operators']
        P = lambda i: num(0, 'Real') if empty else sget(lst, i).f['prefactor']
        a, b, x = fresh('a'), fresh('b'), fresh('x', 'Str')
        n = add(k, num(plus))

        def S(y):
            i = fresh('i')
            s = mk_sum(i, ZERO, k, ite(veq(key(i), y), pre(i), num(0, 'Real')))
            return add(s, ite(veq(key(k), y), pre(k), num(0, 'Real'))) if plus else s

        def rng(v, hi):
            return and_(le(ZERO, v), lt(v, hi))
        return [
            forall(a, forall(b, implies(and_(rng(b, m), rng(a, b)), lt(K(a), K(b))))),
            forall(x, implies(forall(b, implies(rng(b, m), not_(veq(K(b), x)))), forall(a, implies(rng(a, n), not_(veq(key(a), x)))))),
            forall(b, implies(rng(b, m), exists(a, and_(rng(a, n), veq(K(b), key(a)))))),
            forall(b, implies(rng(b, m), eq(P(b), S(K(b))))),
            forall(x, implies(forall(b, implies(rng(b, m), not_(veq(K(b), x)))), eq(S(x), num(0, 'Real')))),
        ]
    return inv


def get(v):
    return sget(v, ZERO)


INVARIANTS = [collected]
