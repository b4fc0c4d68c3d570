"""Equality of texts written to a stream.

A text is a sequence of characters, atoms (unknown texts, such as a printed
number), conditional parts and repetitions.  Two texts are compared after
normalising how repetitions are delimited; equal parts make equal texts, so
the formula returned implies the equality of the texts."""
from .term import *
from .values import *
from .prover import decide, NOFACTS


import os
DEBUG = os.environ.get('VCG_DEBUG') == 'text'


def show_items(its):
    return ' '.join(x[1] if x[0] == 'ch' else show(x[1]) if x[0] == 'at' else '[%s? %s]' % (show(x[1]), show_items(x[2])) if x[0] == 'g' else '{%s<%s: %s}' % (x[2], show(x[1]), show_items(x[3])) for x in its)


def items(segs):
    out = []
    for s in segs:
        if s[0] == 'c':
            if s[1] is ONE:
                out += atom(vsubst(s[3], {s[2]: ZERO}))
            elif is_num(s[1]):
                for i in range(numval(s[1])):
                    out += atom(vsubst(s[3], {s[2]: num(i)}))
            else:
                out.append(('l', s[1], s[2], atom(s[3])))
        elif s[0] == 'g':
            out.append(('g', s[1], items(s[2])))
        elif s[0] == 'f':
            if is_num(s[1]):
                for i in range(numval(s[1])):
                    out += sub_items(items(s[3]), {s[2]: num(i)})
            else:
                out.append(('l', s[1], s[2], items(s[3])))
        else:
            raise Undecided('text of a permuted sequence')
    return out


def atom(t):
    if t.op == 'const':
        return [('ch', c) for c in t.args[0][2:]]
    if t.op == 'app' and t.args[0] == 'cat':
        return [y for x in t.args[1:] for y in atom(x)]
    if t.op == 'ite':
        c, a, b = t.args
        return [('g', c, atom(a)), ('g', not_(c), atom(b))]
    return [('at', t)]


def sub_items(its, m):
    return map_items(its, lambda t: subst(t, m))


def map_items(its, f):
    out = []
    for x in its:
        if x[0] == 'ch':
            out.append(x)
        elif x[0] == 'at':
            out += atom(f(x[1]))
        elif x[0] == 'g':
            c = f(x[1])
            if c is FALSE:
                continue
            i = map_items(x[2], f)
            if c is TRUE:
                out += i
            elif i:
                out.append(('g', c, i))
        else:
            n = f(x[1])
            if n is ZERO:
                continue
            out.append(('l', n, x[2], map_items(x[3], f)))
    return out


def conds(its):
    return [x[1] for x in its if x[0] == 'g']


def inner_conds(its, v):
    r = []
    for x in its:
        if x[0] == 'g':
            if v in x[1].fv:
                r.append(x[1])
            r += inner_conds(x[2], v)
        elif x[0] == 'l':
            r += inner_conds(x[3], v)
    return r


def settle(its, facts):
    """resolve conditions that the facts decide"""
    out = []
    for x in its:
        if x[0] == 'g':
            d = decide(facts, x[1])
            if d is True:
                out += settle(x[2], facts)
            elif d is None:
                out.append(('g', x[1], settle(x[2], facts.add(x[1]))))
            # several texts may be conditional on complementary conditions
            elif d is False:
                continue
        elif x[0] == 'l':
            n = x[1]
            if decide(facts, le(n, ZERO)) is True:
                continue
            v = fresh('v')
            f2 = facts.add(le(ZERO, v), lt(v, n))
            body = settle(sub_items(x[3], {x[2]: v}), f2)
            cs = inner_conds(body, v)
            if cs:
                first = f2.add(le(ONE, v))
                last = f2.add(lt(v, sub(n, ONE)))
                if any(decide(first, c) is not None for c in cs):
                    out.append(('g', le(ONE, n), settle(sub_items(body, {v: ZERO}), facts.add(le(ONE, n))) + settle([('l', sub(n, ONE), v, sub_items(body, {v: add(v, ONE)}))], facts.add(le(ONE, n)))))
                    continue
                if any(decide(last, c) is not None for c in cs):
                    out.append(('g', le(ONE, n), settle([('l', sub(n, ONE), v, body)], facts.add(le(ONE, n))) + settle(sub_items(body, {v: sub(n, ONE)}), facts.add(le(ONE, n)))))
                    continue
            if body:
                out.append(('l', n, v, body))
        else:
            out.append(x)
    return out


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'ch':
        return a[1] == b[1]
    if a[0] == 'at':
        return a[1] is b[1]
    if a[0] == 'g':
        return a[1] is b[1] and len(a[2]) == len(b[2]) and all(same(x, y) for x, y in zip(a[2], b[2]))
    if a[1] is not b[1] or len(a[3]) != len(b[3]):
        return False
    bb = sub_items(b[3], {b[2]: a[2]})
    return len(bb) == len(a[3]) and all(same(x, y) for x, y in zip(a[3], bb))


def rotate(its):
    """delimit repetitions as far left as possible and absorb full copies of their bodies"""
    out = []
    its = list(its)
    i = 0
    while i < len(its):
        x = its[i]
        if x[0] != 'l':
            out.append(x)
            i += 1
            continue
        _, n, v, body = x
        body = rotate(body)
        if DEBUG:
            print('TEXT', its and show_items(out), '|', n, '|', show_items(body), '|', show_items(its[i + 1:]))
        rest = its[i + 1:]
        for _ in range(200):
            if not out or not body or body[-1][0] == 'l':
                break
            p = sub_items([body[-1]], {v: num(-1)})
            if len(p) != 1 or not same(p[0], out[-1]):
                break
            after = sub_items([body[-1]], {v: sub(n, ONE)})
            body = sub_items([body[-1]], {v: sub(v, ONE)}) + body[:-1]
            out.pop()
            rest = after + rest
        while body and len(rest) >= len(body) and all(same(a, b) for a, b in zip(rest, sub_items(body, {v: n}))) and len(sub_items(body, {v: n})) == len(body):
            rest = rest[len(body):]
            n = add(n, ONE)
        out.append(('l', n, v, body))
        its = rest
        i = 0
    return out


def compare(A, B, facts):
    if len(A) != len(B) or any(a[0] != b[0] for a, b in zip(A, B)):
        return None
    r = TRUE
    for a, b in zip(A, B):
        if a[0] == 'ch':
            if a[1] != b[1]:
                return None
        elif a[0] == 'at':
            r = and_(r, eq(a[1], b[1]))
        elif a[0] == 'g':
            r = and_(r, iff(a[1], b[1]), implies(a[1], equal(a[2], b[2], facts.add(a[1]))))
        else:
            i = fresh('e')
            g = and_(le(ZERO, i), lt(i, a[1]))
            r = and_(r, eq(a[1], b[1]), forall(i, implies(g, equal(sub_items(a[3], {a[2]: i}), sub_items(b[3], {b[2]: i}), facts.add(g)))))
    return r


def equal(A, B, facts, depth=0):
    A, B = settle(A, facts), settle(B, facts)
    r = compare(rotate(A), rotate(B), facts)
    if DEBUG:
        print('CMP', show_items(rotate(A)), '###', show_items(rotate(B)), r)
    if r is not None and not any(x.args[0].startswith('unequal') for x in r.fv):
        return r
    cs = conds(A) + conds(B)
    if cs:
        if depth > 8:
            raise Undecided('text with many conditional parts')
        # decide first whether repetitions are there at all
        c = ([x[1] for x in A + B if x[0] == 'g' and any(y[0] == 'l' for y in x[2])] or cs)[0]
        r = TRUE
        for x in (c, not_(c)):
            f2 = facts.add(x)
            if decide(facts, not_(x)) is True:
                continue
            g = lambda t: assume(t, x)
            r = and_(r, implies(x, equal(map_items(A, g), map_items(B, g), f2, depth + 1)))
        return r
    if r is None:
        r = fresh('unequal', 'Bool')    # not decided
    return r


def texteq(a, b, facts):
    return equal(items(a.segs), items(b.segs), facts)
