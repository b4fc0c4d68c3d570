"""Loops: inference and re-verification of inductive invariants.

A loop is executed once for an arbitrary iteration k.  Every location the body
modifies is first replaced by an arbitrary value (placeholder); when the body
turns the placeholder P into a recognised recurrence in P (P + g(k), g(k),
append, update of one element, ...) the location's value before iteration k is
the recurrence's solution, which is substituted and the body re-executed until
nothing changes.  A final execution at an arbitrary iteration k, 0 <= k < n,
checks that the closed forms are preserved by the body and discharges the
obligations inside it.  Locations without a solution are forgotten."""
from .term import *
from . import term as tm
from .values import *
from . import prover
from .prover import quick, decide, prove, NOFACTS

import os
DEBUG = bool(os.environ.get('VCG_DEBUG'))
_ph = {}


def delta_row(c, k, facts):
    """(e, rest) if c says that k is the row e = s / w of a position s in rows of length w"""
    lits = c.args if c.op == 'and' else (c,)
    ls = [l for l in lits if l.op == 'le0' and k in l.fv]
    for a in ls:
        for b in ls:
            w = sub(ONE, add(a.args[0], b.args[0]))
            if a is b or k in w.fv:
                continue
            s = sub(mul(w, k), a.args[0])
            if k not in s.fv and decide(facts, le(ONE, w)) is True:
                return idiv(s, w), and_(le(ZERO, s), *[l for l in lits if l is not a and l is not b])
    return None


def vassume(v, u, facts):
    """simplify the conditions in v that the facts decide"""
    if isinstance(v, T):
        for _ in range(12):
            c = next((c for c in conds(v) if decide(facts, c, 0.3) is not None), None)
            if c is None:
                return v
            v = assume(v, c if decide(facts, c, 0.3) else not_(c))
        return v
    if isinstance(v, Struct):
        return Struct(v.ty, {k: vassume(x, u, facts) for k, x in v.f.items()})
    if isinstance(v, Seq):
        out = []
        for s in v.segs:
            if s[0] == 'c':
                w = fresh('v')
                n = vassume(s[1], u, facts)
                b = vassume(vsubst(s[3], {s[2]: w}), u, facts.add(le(ZERO, w), lt(w, n)))
                out.append(('c', n, w, b))
            elif s[0] == 'g':
                d = decide(facts, s[1], 0.3)
                if d is True:
                    out += vassume(Seq(s[2], v.ety), u, facts).segs
                elif d is None:
                    out.append(('g', s[1], tuple(vassume(Seq(s[2], v.ety), u, facts.add(s[1])).segs)))
            else:
                out.append(s)
        return Seq(snorm(tuple(out)), v.ety)
    return v


def conds(t):
    seen = []
    for x in subterms(t):
        if x.op == 'ite':
            seen.append(x.args[0])
        elif t.sort == 'Bool' and x.op in ('le0', 'lt0', 'eq0'):
            seen.append(x)
    return [c for c in seen if not any(y.op in ('sum', 'forall', 'exists') for y in subterms(c)) and not any(v.args[0].startswith('$b') for v in c.fv)]


def eq_(a, b):
    return iff(a, b) if a.sort == 'Bool' else eq(a, b)


def has_ph(t):
    r = _ph.get(t)
    if r is None:
        if t.op == 'var':
            r = t.args[0].startswith('ph!')
        elif t.op == 'app' and t.args[0].startswith('ph!'):
            r = True
        else:
            r = any(has_ph(c) for c in children(t))
        _ph[t] = r
    return r


def own_ph(t, pre, memo):
    """t mentions a placeholder of the loop with the prefix pre"""
    r = memo.get(t)
    if r is None:
        if not has_ph(t):
            r = False
        elif t.op in ('var', 'app') and t.args[0].startswith(pre):
            r = True
        else:
            r = any(own_ph(c, pre, memo) for c in children(t))
        memo[t] = r
    return r


def solve_lin(p, k):
    """p = a*k + b -> (a, b) or None"""
    d = dict(pol(p))
    a = d.pop(((k, 1),), 0)
    b = from_pol(d, p.sort)
    if k in b.fv:
        return None
    return a, b


def get_at(v, path):
    for s in path:
        if v is None:
            return None
        v = v.f[s[1]]
    return v


def set_at(v, path, x):
    if not path:
        return x
    n = dict(v.f)
    n[path[0][1]] = set_at(n.get(path[0][1]), path[1:], x)
    return Struct(v.ty, n)


def leaves(root, v, path=()):
    if isinstance(v, Struct):
        for k, x in v.f.items():
            yield from leaves(root, x, path + (('f', k),))
    else:
        yield (root, path), v


def diff(mem0, mem1, known):
    """leaves of roots in mem0 that differ in mem1"""
    out = {}
    for r, a in mem0.items():
        b = mem1.get(r)
        if a is b:
            continue
        if a is None or b is None or not isinstance(a, Struct) or not isinstance(b, Struct):
            if not vsame(a, b):
                out[(r, ())] = (a, b)
            continue

        def rec(x, y, path):
            if x is y:
                return
            if isinstance(x, Struct) and isinstance(y, Struct) and x.f.keys() == y.f.keys():
                for k in x.f:
                    rec(x.f[k], y.f[k], path + (('f', k),))
            elif not vsame(x, y):
                out[(r, path)] = (x, y)
        rec(a, b, ())
    return out


def tidy_ranges(v):
    """simplify the elements of sequences by the range of their index"""
    if isinstance(v, Seq):
        out = []
        for s in v.segs:
            if s[0] == 'c':
                s = ('c', s[1], s[2], tidy_ranges(vmap(s[3], lambda t: in_range(t, s[2], s[1]))))
            out.append(s)
        return Seq(out, v.ety)
    if isinstance(v, Struct):
        return Struct(v.ty, {k: tidy_ranges(x) for k, x in v.f.items()})
    return v


class Closed:
    """value before iteration k as a python function of the index term"""
    def __init__(self, kind, f, aux=None):
        self.kind, self.f, self.aux = kind, f, aux


def refine(st, before, c):
    """what evaluating a condition has written, given its outcome"""
    if st.dead:
        return
    for r, v in st.mem.items():
        if v is not None and v is not before.get(r):
            m = {x: y for x, y in ((c, TRUE), (not_(c), FALSE)) if x not in (TRUE, FALSE)}
            st.mem[r] = vmap(v, lambda t: tm.assume(subst(t, m), c))


class Loop:
    count = 0

    def __init__(self, eng, st, cond, inc, body, line, omp=False):
        self.e, self.S0, self.cond, self.inc, self.body, self.line, self.omp = eng, st, cond, inc, body, line, omp
        self.id = eng.wname('L')
        self.k = var('k' + self.id, 'Int')
        self.vals = {}       # leaf -> ('ph', value, facts) | Closed
        self.demoted = {}
        self.frontier = set()
        self.inv = []        # extra invariants for placeholders: python functions
        self.nleaf = 0
        self.own_memo = {}
        self.log = None
        self.private = getattr(eng, 'omp_private', ()) if omp else ()

    # ---------------------------------------------------------------- one execution of the body
    @property
    def pre(self):
        return 'ph!%s!' % self.id

    def own(self, t):
        """placeholders of enclosing loops are constants of this one"""
        return own_ph(t, self.pre, self.own_memo)

    def v_own(self, v):
        return any(self.own(t) for t in terms_of(v))

    def state_at(self, k, facts=()):
        st = self.S0.copy()
        for (r, path), x in self.vals.items():
            v = x.f(k) if isinstance(x, Closed) else x[1]
            if r not in st.mem:
                st.mem[r] = None
            st.mem[r] = set_at(st.mem[r], path, v)
        st.assume(le(ZERO, k))
        for x in self.vals.values():
            if not isinstance(x, Closed):
                for f in x[2]:
                    st.assume(f)
        for f in facts:
            st.assume(f)
        return st

    def run(self, st, k, final=False):
        """-> (cond term, normal state or None, exits [(kind, cond, state, val)], B)"""
        e = self.e
        octx, oidx = e.ctx, e.idx
        e.ctx = [self.id, 0]
        e.idx = oidx + [k]
        if self.omp:
            e.omp.append(k)
        fr = e.frames[-1]
        env0 = dict(fr.env)
        try:
            c = TRUE
            if self.cond is not None:
                before = dict(st.mem)
                c = e.rv(st, self.cond)
                if not isinstance(c, T):
                    raise Undecided('loop condition')
                if c.sort != 'Bool':
                    c = ne(c, num(0, c.sort))
                st.assume(c)
                refine(st, before, c)
                if not st.dead and not self.own(c) and c.op == 'not' and c.args[0].op == 'eq0':
                    # i != end: the index has not passed the end, since every earlier iteration differed from it
                    r = solve_lin(c.args[0].args[0], k)
                    if r and r[0] in (1, -1):
                        n = neg(r[1]) if r[0] == 1 else r[1]
                        if decide(self.S0.facts, le(ZERO, n)) is True:
                            st.assume(lt(k, n))
            base = st.facts
            out = e.x(st, self.body) if not st.dead else {}
            n = out.get('normal')
            if n is not None and n[1].dead:
                n = None
            for cc, s in out.get('continue', []):
                if s.dead:
                    continue
                if n is None:
                    n = (cc, s)
                else:
                    from .interp import merge
                    n = (or_(cc, n[0]), merge(cc, s, n[1], base))
            if n is not None:
                n[1].assume(n[0])
                if self.inc is not None and not n[1].dead:
                    e.ev(n[1], self.inc)
                if n[1].dead:
                    n = None
            exits = []
            for t in out.get('break', []):
                if not t[1].dead:
                    exits.append(('break', t[0], t[1], None))
            for t in out.get('return', []):
                if not t[1].dead:
                    exits.append(('return', t[0], t[1], t[2]))
            return c, (n[1] if n else None), exits
        finally:
            e.ctx, e.idx = octx, oidx
            if self.omp:
                e.omp.pop()
            fr.env = env0

    # ---------------------------------------------------------------- inference
    def placeholder(self, leaf, old, keeplen):
        self.nleaf += 1
        fl = []
        ty = self.e.rtype.get(leaf[0]) if not leaf[1] else None
        if leaf[1] and ty is None:
            o = self.S0.mem.get(leaf[0])
            for s in leaf[1][:-1]:
                o = o.f[s[1]]
            if isinstance(o, Struct) and not self.e.std.is_std(o.ty):
                for k, t, r in self.e.fields(o.ty):
                    if k == leaf[1][-1][1]:
                        ty = t
        nm = 'ph!%s!%d' % (self.id, self.nleaf)
        v = self.e.shape_sym(old, nm, (), fl, ty, keeplen)
        fs = self.e.inst_facts(fl)
        if isinstance(v, Iter) and v.ref is not None:
            try:
                q = self.S0.mem.get(v.ref.root)
                q = get_at(q, v.ref.path)
                if isinstance(q, Seq):
                    pass
            except Exception:
                pass
        return ('ph', v, fs)

    def guess(self, leaf, old, new):
        """first guess from one execution starting in the initial state"""
        if isinstance(old, T) and isinstance(new, T) and old.sort in ('Int',):
            d = sub(new, old)
            if is_num(d):
                return Closed('sum', lambda j: add(old, mul(j, d)), lambda j: d)
        if isinstance(old, Iter) and isinstance(new, Iter) and old.ref == new.ref and old.rev == new.rev:
            d = sub(new.idx, old.idx)
            if is_num(d):
                return Closed('sum', lambda j: Iter(old.ref, add(old.idx, mul(j, d)), old.rev), lambda j: d)
        return None

    def infer(self):
        e = self.e
        k = self.k
        acc, e.access = e.access, None
        e.quiet += 1
        try:
            for rnd in range(12):
                e.tick()
                st = self.state_at(k)
                head = dict(st.mem)
                c, N, exits = self.run(st, k)
                changed = False
                # static objects first met inside the loop
                for src in [N] + [x[2] for x in exits]:
                    if src is None: continue
                    for r in src.mem:
                        if r not in self.S0.mem and r in e.static_init:
                            self.S0.mem[r] = e.static_init[r]
                            changed = True
                if changed:
                    continue
                if N is None:
                    return
                d = diff(head, N.mem, self.vals)
                if DEBUG:
                    print('== round', rnd, self.id, 'line', self.line)
                    for l, (a, b) in d.items():
                        print('   ', l, '\n        ', vshow(a)[:300], '\n      ->', vshow(b)[:500])
                # new leaves
                for leaf, (old, new) in d.items():
                    if self.find(leaf) is None:
                        # drop leaves below / above
                        for l2 in list(self.vals):
                            if l2[0] == leaf[0] and l2[1][:len(leaf[1])] == leaf[1]:
                                del self.vals[l2]
                        g = None
                        if self.demoted.get(leaf, 0) < 1:
                            g = self.guess(leaf, old, new)
                        if g is None:
                            old0 = get_at(self.S0.mem[leaf[0]], leaf[1])
                            kl = isinstance(new, Seq) and isinstance(old0, Seq) and slen(new) is slen(old0) and bool(old0.segs)
                            shape = old0 if not (isinstance(old0, Seq) and not old0.segs and isinstance(new, Seq) and new.segs) else Seq(new.segs, old0.ety)
                            if old0 is None:
                                shape = new
                            g = self.placeholder(leaf, shape, kl)
                        self.vals[leaf] = g
                        changed = True
                if changed:
                    continue
                for leaf, x in list(self.vals.items()):
                    new = get_at(N.mem[leaf[0]], leaf[1])
                    if isinstance(x, Closed):
                        if not self.check(x, new, k, N.facts):
                            self.demoted[leaf] = self.demoted.get(leaf, 0) + 1
                            old0 = get_at(self.S0.mem[leaf[0]], leaf[1])
                            kl = isinstance(new, Seq) and isinstance(old0, Seq) and slen(new) is slen(old0) and bool(old0.segs)
                            self.vals[leaf] = self.placeholder(leaf, old0 if old0 is not None else new, kl)
                            changed = True
                    elif self.demoted.get(leaf, 0) < 3:
                        old0 = get_at(self.S0.mem[leaf[0]], leaf[1])
                        if isinstance(new, Seq) and isinstance(x[1], Seq) and isinstance(old0, Seq) and old0.segs \
                                and slen(x[1]) is not slen(old0) and slen(new) is slen(x[1]) and len(new.segs) == 1 and not leaf in self.demoted:
                            # the length does not change
                            self.vals[leaf] = self.placeholder(leaf, old0, True)
                            self.demoted.setdefault(leaf, 0)
                            changed = True
                            continue
                        if len(x) > 3:
                            s = self.solve_frontier(x, new, old0, k, N.facts)
                            if s is None:
                                self.vals[leaf] = self.placeholder(leaf, old0, True)
                                self.demoted[leaf] = 9
                                changed = True
                        else:
                            s = self.solve(x[1], new, old0, k, N.facts)
                            if s is None and isinstance(old0, Seq) and isinstance(new, Seq) and slen(x[1]) is slen(old0) and slen(new) is slen(old0) \
                                    and leaf not in self.frontier and len(new.segs) == 1 and new.segs[0][0] == 'c':
                                s = self.frontier_ph(leaf, old0, k)
                        if s is not None:
                            self.vals[leaf] = s
                            changed = True
                if not changed:
                    return
            # no fixed point: forget everything
            for leaf, x in list(self.vals.items()):
                old0 = get_at(self.S0.mem[leaf[0]], leaf[1])
                if isinstance(x, Closed):
                    self.vals[leaf] = self.placeholder(leaf, old0, False)
                self.demoted[leaf] = 9
        finally:
            e.quiet -= 1
            e.access = acc

    def find(self, leaf):
        for l2 in self.vals:
            if l2[0] == leaf[0] and l2[1] == leaf[1][:len(l2[1])]:
                return l2
        return None

    # in-place maps: iteration k changes the element k only, and the elements behind it have
    # their initial values
    def frontier_ph(self, leaf, old0, k):
        self.frontier.add(leaf)
        try:
            ph = self.placeholder(leaf, old0, True)
            u = fresh('u')
            sx = as_comp(old0, NOFACTS)
            pe = vsubst(ph[1].segs[0][3], {ph[1].segs[0][2]: u})
            xe = vsubst(sx[3], {sx[2]: u})
            v = Seq([('c', slen(old0), u, vite(lt(u, k), pe, xe))], old0.ety)
            return ('ph', v, ph[2], ph[1])
        except Undecided:
            return None

    def solve_frontier(self, x, new, old0, k, facts):
        try:
            n = slen(old0)
            u = fresh('u')
            el = lambda q, i, f: sget(q, i, f)
            rng = facts.add(le(ZERO, u), lt(u, n))
            lo, hi = rng.add(lt(u, k)), rng.add(lt(k, u))
            at = vassume(el(new, k, facts), k, facts)
            if self.v_own(at):
                return None
            if not self.provable(lo, vassume(el(new, u, lo), u, lo), el(x[3], u, lo)):
                return None
            if not self.provable(hi, vassume(el(new, u, hi), u, hi), el(old0, u, hi)):
                return None

            def f(j):
                b = fresh('u')
                w = vsubst(at, {k: b})
                if j is not n:
                    w = vite(lt(b, j), w, el(old0, b, NOFACTS))
                return Seq([('c', n, b, w)], old0.ety)
            return Closed('map', f)
        except Undecided:
            return None

    def check(self, x, new, k, facts):
        """the closed form is preserved by the body"""
        cur, nxt = x.f(k), x.f(add(k, ONE))
        if vsame(new, nxt):
            return True
        if x.kind == 'sum':
            a = new.idx if isinstance(new, Iter) else new
            b = cur.idx if isinstance(cur, Iter) else cur
            if isinstance(new, Iter) and new.ref != cur.ref:
                return False
            if isinstance(a, T) and a.sort == b.sort:
                if sub(a, b) is x.aux(k):
                    return True
                return prover.vanishes_by_cases(sub(sub(a, b), x.aux(k))) or prove(facts, eq(sub(a, b), x.aux(k)), 1.0).status == 'yes'
            return False
        if x.kind == 'append':
            if isinstance(new, Seq):
                want = Seq(snorm(cur.segs + x.aux(k)), cur.ety)
                return vsame(Seq(snorm(new.segs), None), want) or (len(new.segs) == len(want.segs) and all(segsame_full(a, b) for a, b in zip(new.segs, want.segs))) or self.provable(facts, new, want)
            return False
        if x.kind == 'schema':
            return vsame(new, x.aux(k)) or self.provable(facts, new, x.aux(k))
        return self.provable(facts, new, nxt)

    def provable(self, facts, a, b):
        try:
            g = veq(a, b, facts)
        except Undecided:
            return False
        if prove(facts, g, 1.0).status == 'yes':
            return True
        return self.by_row(facts, g)

    def by_row(self, facts, g):
        """elements of rows of length w: the ones of row k, and the others"""
        k = self.k
        lits = []
        while g.op in ('forall', 'or'):
            if g.op == 'forall':
                v, g = open_forall(g)
                continue
            es = [x for x in g.args if x.op == 'eq0' or x.op == 'forall']
            if len(es) != 1:
                return False
            facts = facts.add(*[not_(x) for x in g.args if x is not es[0]])
            g = es[0]
        for d in sorted(subterms(g), key=lambda t: t.id):
            if d.op == 'div' and not is_num(d.args[1]) and k not in d.fv:
                s, w = d.args
                if decide(facts, le(ZERO, s)) is not True or decide(facts, le(ONE, w)) is not True:
                    continue
                lo, hi = le(mul(w, k), s), lt(s, add(mul(w, k), w))
                q = self.part(s, w)
                f1 = facts.add(lo, hi)
                g1 = prover.replace(g, {d: k})
                g1 = assume(assume(g1, lo), hi)
                if q is not None:
                    # s = w k + r
                    g1 = subst(g1, {q: add(q, mul(w, k))})
                    f1 = NOFACTS.add(*[subst(x, {q: add(q, mul(w, k))}) if q in x.fv else x for x in f1.list()])
                if prove(f1, g1, 2.0).status != 'yes':
                    return False
                f2 = facts.add(or_(not_(lo), not_(hi)), ne(d, k))
                g2 = prover.replace(g, {and_(lo, hi): FALSE})
                return prove(f2, g2, 2.0).status == 'yes'
        return False

    def part(self, s, w):
        return s if s.op == 'var' and s not in w.fv else None

    # ---------------------------------------------------------------- recurrences
    def solve(self, P, new, x0, k, facts):
        prev = lambda v, j: vsubst(v, {k: j})
        if isinstance(P, T) and isinstance(new, T):
            r = self.solve_term(P, new, x0, k, facts)
            if r is None:
                return None
            return r
        if isinstance(P, Iter) and isinstance(new, Iter) and P.ref == new.ref and P.rev == new.rev:
            d = sub(new.idx, P.idx)
            if not self.own(d):
                f = lambda j: Iter(x0.ref, add(x0.idx, self.sum_to(d, k, j)), x0.rev)
                return Closed('sum', f, lambda j: subst(d, {k: j}))
            return None
        if isinstance(P, Seq) and isinstance(new, Seq):
            return self.solve_seq(P, new, x0, k, facts)
        if not self.v_own(new):
            return self.last(new, x0, k)
        return None

    def sum_to(self, g, k, j):
        b = fresh('k')
        return mk_sum(b, ZERO, j, subst(g, {k: b}))

    def last(self, new, x0, k):
        """x' does not depend on x"""
        try:
            at0 = vsubst(new, {k: num(-1)})
            if x0 is not None and vsame(at0, x0):
                return Closed('last', lambda j: vsubst(new, {k: sub(j, ONE)}), None)
            if x0 is None:
                # not initialised before the loop: only defined from the second iteration on
                return Closed('last', lambda j: vsubst(new, {k: sub(j, ONE)}), None)
            return Closed('schema', lambda j: vite(eq(j, ZERO), x0, vsubst(new, {k: sub(j, ONE)})), lambda j: vsubst(new, {k: j}))
        except Undecided:
            return None

    def solve_term(self, P, new, x0, k, facts):
        if not self.own(new):
            return self.last(new, x0, k)
        if x0 is None:
            return None
        if P.sort in ('Int', 'Real'):
            d = sub(new, P)
            if not self.own(d):
                return Closed('sum', lambda j: add(x0, self.sum_to(d, k, j)), lambda j: subst(d, {k: j}))
            if new is neg(P):
                return Closed('flip', lambda j: mul(x0, ite(eq(imod(j, num(2)), ZERO), num(1, P.sort), num(-1, P.sort))), None)
        if P.sort == 'Bool':
            if new.op == 'or' and P in new.args:
                rest = or_(*[x for x in new.args if x is not P])
                if not self.own(rest):
                    def f(j):
                        b = fresh('k')
                        return or_(x0, exists(b, and_(le(ZERO, b), lt(b, j), subst(rest, {k: b}))))
                    return Closed('schema', f, lambda j: or_(f(j), subst(rest, {k: j})))
            if new.op == 'and' and P in new.args:
                rest = and_(*[x for x in new.args if x is not P])
                if not self.own(rest):
                    def f(j):
                        b = fresh('k')
                        return and_(x0, forall(b, implies(and_(le(ZERO, b), lt(b, j)), subst(rest, {k: b}))))
                    return Closed('schema', f, lambda j: and_(f(j), subst(rest, {k: j})))
            if new is not_(P):
                return Closed('flip', lambda j: iff(x0, eq(imod(j, num(2)), ZERO)), None)
        if new.op == 'ite' and not self.own(new.args[0]):
            c, a, b = new.args
            if b is not P:
                c, a, b = not_(c), b, a
            if b is P and not self.own(a):
                d = delta(c, k)
                if d is not None:
                    ee, r = d
                    h = subst(a, {k: ee})
                    g = subst(r, {k: ee})
                    f = lambda j: ite(and_(le(ZERO, ee), lt(ee, j), g), h, x0)
                    return Closed('schema', f, lambda j: ite(subst(c, {k: j}), subst(a, {k: j}), f(j)))
        return None

    def solve_seq(self, P, new, x0, k, facts):
        if not self.v_own(new):
            return self.last(new, x0, k)
        if not isinstance(x0, Seq):
            return None
        # append
        if new.segs and segsame_full(new.segs[0], P.segs[0]):
            rest = Seq(new.segs[1:], new.ety)
            if not self.v_own(rest) and rest.segs:
                def f(j):
                    b = fresh('k')
                    return Seq(snorm(x0.segs + (('f', j, b, tuple(segmap(s, lambda t: subst(t, {k: b})) for s in rest.segs)),)), P.ety)
                return Closed('append', f, lambda j: tuple(segmap(s, lambda t: subst(t, {k: j})) for s in rest.segs))
            return None
        # prepend is not handled
        if len(new.segs) == 1 and new.segs[0][0] == 'c' and new.segs[0][1] is P.segs[0][1] and slen(P) is slen(x0):
            u = fresh('u')
            pb = vsubst(P.segs[0][3], {P.segs[0][2]: u})
            nb = vsubst(new.segs[0][3], {new.segs[0][2]: u})
            sx = as_comp(x0, NOFACTS)
            xb = vsubst(sx[3], {sx[2]: u})
            fn = self.solve_elem(pb, nb, xb, u, k, facts.add(le(ZERO, u), lt(u, slen(P))), {})
            if fn is None:
                return None
            n = slen(x0)
            return Closed('schema', lambda j: Seq([('c', n, u, fn[0](j))], P.ety), lambda j: Seq([('c', n, u, fn[1](j))], P.ety))
        return None

    def solve_elem(self, pb, nb, xb, u, k, facts, own):
        """element at index u: placeholder pb becomes nb, initially xb -> (value(j), step(j))"""
        flatp, flatn, flatx = [], [], []

        def flat(p, n, x):
            if isinstance(p, Struct):
                for f in p.f:
                    flat(p.f[f], n.f[f], x.f[f])
            elif isinstance(p, T):
                flatp.append(p); flatn.append(n); flatx.append(x)
            else:
                raise Undecided('nested containers')
        try:
            flat(pb, nb, xb)
        except (Undecided, AttributeError, KeyError):
            return self.solve_elem_nested(pb, nb, xb, u, k, facts)
        names = {}
        for p, x in zip(flatp, flatx):
            if p.op == 'app':
                names[p.args[0]] = (p, x)
        sols = {}
        for p, n, x in zip(flatp, flatn, flatx):
            s = self.solve_pt(p, n, x, u, k, facts, names)
            if s is None:
                return None
            sols[p] = s

        def build(p, which, j):
            if isinstance(p, Struct):
                return Struct(p.ty, {f: build(p.f[f], which, j) for f in p.f})
            return sols[p][which](j)
        return (lambda j: build(pb, 0, j)), (lambda j: build(pb, 1, j))

    def solve_elem_nested(self, pb, nb, xb, u, k, facts):
        """elements that are themselves containers: 'updated at one index' only"""
        return None

    def solve_pt(self, p, n, x, u, k, facts, names):
        if n is p:
            return (lambda j: x), (lambda j: x)
        if p.sort in ('Int', 'Real'):
            d = sub(n, p)
            if not self.own(d):
                def f(j):
                    b = fresh('k')
                    return add(x, mk_sum(b, ZERO, j, subst(d, {k: b})))
                return f, (lambda j: add(f(j), subst(d, {k: j})))
        # split off the condition under which the element is written
        c, h = None, None
        if n.op == 'ite':
            c, a, b = n.args
            if b is p: h = a
            elif a is p: c, h = not_(c), b
            if h is None or self.own(c): c, h = None, None
        if c is not None:
            pass
        elif p.sort == 'Bool':
            # (c && h) || (!c && p)
            for y in subterms(n):
                if y.op == 'eq0' and not self.own(y) and u in y.fv and k in y.fv:
                    if assume(n, not_(y)) is p:
                        c, h = y, assume(n, y)
                        break
        if c is None and p.sort != 'Bool':
            # common parts were pulled out of the conditional
            for y in subterms(n):
                if y.op in ('eq0',) and not self.own(y) and u in y.fv:
                    if assume(n, not_(y)) is p:
                        c, h = y, assume(n, y)
                        break
        if c is None or self.own(c):
            if not self.own(n):
                return (lambda j: ite(eq(j, ZERO), x, subst(n, {k: sub(j, ONE)}))), (lambda j: subst(n, {k: j}))
            return None
        d = delta(c, k) or delta_row(c, k, facts)
        if d is None:
            return None
        ee, r = d
        g = subst(r, {k: ee})
        # reads of the element itself (same index)
        hs = subst(h, {k: ee})
        m = {}
        for y in subterms(hs):
            if y.op == 'app' and y.args[0] in names:
                p2, x2 = names[y.args[0]]
                if y is p2:
                    m[y] = x2
                else:
                    iu, iy = p2.args[-1], y.args[-1]
                    if y.args[1:-1] == p2.args[1:-1] and (iy is iu or decide(facts.add(subst(c, {k: ee})), eq(iy, iu)) is True):
                        m[y] = x2
                    else:
                        return None
        hs = subst(hs, m)
        if self.own(hs):
            return None
        f = lambda j: ite(and_(le(ZERO, ee), lt(ee, j), g), hs, x)
        return f, (lambda j: ite(subst(c, {k: j}), hs, f(j)))

    # ---------------------------------------------------------------- trip count
    def trip(self, C, st):
        """number of iterations if the loop is left through its condition"""
        k = self.k
        e = self.e
        if C.op == 'le0':
            r = solve_lin(C.args[0], k) if C.args[0].sort == 'Int' else None
            if r and r[0] > 0:
                a, b = r
                if a == 1:
                    n = sub(ONE, b)
                else:
                    n = add(idiv(neg(b), num(a)), ONE)
                    if decide(st.facts, le(ZERO, neg(b))) is not True:
                        n = ite(le(ZERO, neg(b)), n, ZERO)
                d = decide(st.facts, le(ZERO, n))
                if d is True: return n
                if d is False: return ZERO
                return ite(le(ZERO, n), n, ZERO)
        if C.op == 'not' and C.args[0].op == 'eq0':
            r = solve_lin(C.args[0].args[0], k)
            if r and r[0] in (1, -1):
                n = neg(r[1]) if r[0] == 1 else r[1]
                e.oblige(st, 'termination', 'loop bound is reached', le(ZERO, n), self.line or 0, record=False)
                return n
        return None

    # ---------------------------------------------------------------- the rule
    def execute(self):
        e, S0, k = self.e, self.S0, self.k
        self.infer()
        # condition and exits as functions of k
        e.quiet += 1
        acc, e.access = e.access, None
        try:
            st = self.state_at(k)
            c, N, exits = self.run(st, k)
        finally:
            e.quiet -= 1
            e.access = acc
        n = None
        S0 = self.S0
        self.add_invariants(N)
        if not self.own(c):
            n = self.trip(c, S0)
        unknown_trip = n is None
        if unknown_trip:
            n = e.witness('trip')
            S0.assume(le(ZERO, n))
            if not self.own(c):
                S0.assume(implies(lt(ZERO, n), subst(c, {k: sub(n, ONE)})))
                b = fresh('k')
                S0.assume(forall(b, implies(and_(le(ZERO, b), lt(b, n)), subst(c, {k: b}))))
                nm = 'termination of loops without a syntactic bound'
                e.assumed[nm] = e.assumed.get(nm, 0) + 1
        if n is ZERO:
            st = S0
            if self.cond is not None:
                cc = e.rv(st, self.cond)
                st.assume(not_(cc) if cc.sort == 'Bool' else eq(cc, num(0, cc.sort)))
            return {'normal': (TRUE, st)}
        # exit condition
        B = FALSE
        for x in exits:
            B = or_(B, x[1])
        Bph = self.own(B)
        log = None
        if e.quiet == 0 or e.access is not None or self.omp:
            # final execution: obligations are recorded here
            acc = e.access
            if acc is not None or (self.omp and e.quiet == 0):
                e.access = []
            fs = [lt(k, n)]
            if not Bph and B is not FALSE:
                b = fresh('k')
                fs.append(forall(b, implies(and_(le(ZERO, b), lt(b, k)), not_(subst(B, {k: b})))))
            if N is not None:
                # lengths of sequences introduced in earlier iterations
                j = fresh('k')
                for f in N.facts.since(S0.facts):
                    if f.op in ('le0', 'eq0') and k in f.fv and not self.own(f) and any(y.op == 'app' and y.args[0] in tm.LENGTHS for y in subterms(f)):
                        fs.append(forall(j, implies(and_(le(ZERO, j), lt(j, k)), subst(f, {k: j}))))
            st = self.state_at(k, fs + [f for iv in self.inv for f in iv(k, 0, self.ph_vals())])
            c, N, exits = self.run(st, k, final=True)
            if N is not None and e.quiet == 0:
                nv = {l: get_at(N.mem[l[0]], l[1]) for l in self.ph_vals()}
                for iv in self.inv:
                    iv.state = N
                    for i, f in enumerate(iv(k, 1, nv)):
                        e.oblige(N.copy(), 'invariant', 'loop invariant %d is preserved' % i, f, self.line or 0)
            log = e.access
            e.access = acc
            if acc is not None and log:
                acc.extend(log)
            self.final_check(N, k)
        if self.omp and log is not None and e.quiet == 0:
            races(e, self, S0, n, log)
        return self.leave(n, c, N, exits, B, Bph, unknown_trip)

    def extremum(self, N):
        """running minimum or maximum, with whatever is recorded along with it:
        P' = a(k) if a(k) < P else P,  Q' = b(k) under the same condition"""
        k = self.k
        groups = {}
        for leaf in self.ph_vals():
            old, new = self.vals[leaf][1], get_at(N.mem.get(leaf[0]), leaf[1])
            if not (isinstance(old, T) and isinstance(new, T)) or new is old:
                continue
            c = next((x for y in subterms(new) if y.op == 'ite' for x in (y.args[0],) if self.own(x) and x.op in ('lt0', 'le0')), None)
            if c is None:
                continue
            b = assume(new, c)
            if self.own(b) or assume(new, not_(c)) is not old:
                continue
            groups.setdefault(c, []).append((leaf, old, b))
        out = []
        for c, g in groups.items():
            for leaf, P, a in g:
                if P.sort not in ('Int', 'Real'):
                    continue
                strictm = c in (lt(a, P), le(a, P), not_(lt(P, a)), not_(le(P, a)))
                strictM = c in (lt(P, a), le(P, a), not_(lt(a, P)), not_(le(a, P)))
                if strictm == strictM or any(self.S0.mem.get(l[0]) is None or get_at(self.S0.mem[l[0]], l[1]) is None for l, _, _ in g):
                    continue
                less = (lambda x, y: le(x, y)) if strictm else (lambda x, y: le(y, x))
                init = {l: get_at(self.S0.mem[l[0]], l[1]) for l, _, _ in g}

                nm = self.e.wname('ext')

                def inv(j, plus, vals, g=g, leaf=leaf, a=a, less=less, init=init, nm=nm):
                    n = add(j, num(plus))
                    p = vals[leaf]
                    u = fresh('u')
                    ext = lambda i: app(nm, tuple(self.e.idx) + (i,), a.sort)
                    at = lambda t, i: ext(i) if t is a else subst(t, {k: i})
                    # ext is a name for the compared value
                    if plus:
                        inv.state.assume(eq(ext(k), a))
                    elif j is not k and j is not ZERO:
                        inv.state.assume(forall(u, eq(ext(u), subst(a, {k: u}))))
                    return [less(p, init[leaf]),
                            forall(u, implies(and_(le(ZERO, u), lt(u, n)), less(p, at(a, u)))),
                            or_(and_(*[eq_(vals[l], init[l]) for l, _, _ in g]),
                                exists(u, and_(le(ZERO, u), lt(u, n), *[eq_(vals[l], at(b, u)) for l, _, b in g])))]
                inv.state = None
                out.append(inv)
                break
            else:
                out += self.best_index(c, g)
        return out

    def best_index(self, c, g):
        """running minimum remembered by its place only: Q' = b(k) if F(b(k)) < F(Q) else Q"""
        k, D = self.k, c.args[0]
        for leaf, Q, b in g:
            if Q.sort != 'Int' or D.sort not in ('Int', 'Real') or k in sub(b, k).fv or Q not in D.fv:
                continue
            if any(self.S0.mem.get(l[0]) is None or get_at(self.S0.mem[l[0]], l[1]) is None for l, _, _ in g):
                continue
            q0 = fresh('q')
            F0 = subst(subst(D, {Q: ZERO}), {k: sub(q0, sub(b, k))})
            F = lambda x, F0=F0, q0=q0: subst(F0, {q0: x})
            if sub(D, sub(F(b), F(Q))) not in (ZERO, num(0, 'Real')):
                continue
            init = {l: get_at(self.S0.mem[l[0]], l[1]) for l, _, _ in g}
            nm = self.e.wname('ext')

            def inv(j, plus, vals, Q=Q, leaf=leaf, F=F, init=init, nm=nm, D=D, b=b):
                n = add(j, num(plus))
                q = vals[leaf]
                u = fresh('u')
                ext = lambda i: app(nm, tuple(self.e.idx) + (i,), D.sort)
                if plus:
                    for x in (Q, q, b, init[leaf]):
                        inv.state.assume(eq(ext(x), F(x)))
                elif j is not k and j is not ZERO:
                    inv.state.assume(forall(u, eq(ext(u), F(u))))
                at = lambda t, i: subst(t, {k: i})
                return [le(ext(q), ext(init[leaf])),
                        forall(u, implies(and_(le(ZERO, u), lt(u, n)), le(ext(q), ext(at(b, u))))),
                        or_(and_(*[eq_(vals[l], init[l]) for l, _, _ in g]),
                            exists(u, and_(le(ZERO, u), lt(u, n), *[eq_(vals[l], at(x, u)) for l, _, x in g])))]
            inv.state = None
            return [inv]
        return []

    def add_invariants(self, N):
        """invariants supplied with the contract for values the inference has no closed form of;
        they hold initially (obligation), are assumed before and proved after an iteration"""
        e = self.e
        self.inv = []
        cands = [cb(self) for cb in e.opts.get('invariants', ())]
        if N is not None and self.ph_vals():
            cands += self.extremum(N)
        for iv in cands:
            if iv is None:
                continue
            init = {l: get_at(self.S0.mem.get(l[0]), l[1]) for l in self.ph_vals()}
            if e.quiet == 0:
                for i, f in enumerate(iv(ZERO, 0, init)):
                    e.oblige(self.S0.copy(), 'invariant', 'loop invariant %d holds initially' % i, f, self.line or 0)
            self.inv.append(iv)

    def ph_vals(self):
        return {l: x[1] for l, x in self.vals.items() if not isinstance(x, Closed)}

    def final_check(self, N, k):
        from .interp import Obligation
        e = self.e
        if e.quiet or N is None:
            return
        closed = 0
        for leaf, x in self.vals.items():
            if isinstance(x, Closed):
                new = get_at(N.mem[leaf[0]], leaf[1])
                ok = self.check(x, new, k, N.facts)
                if not ok:
                    raise Undecided('inferred loop invariant is not preserved (%s)' % x.kind)
                closed += 1
        fr = e.frames[-1].fn
        e.loops.append({'function': fr['q'], 'line': self.line, 'solved': closed,
                        'forgotten': len(self.vals) - closed, 'omp': self.omp})

    def leave(self, n, c, N, exits, B, Bph, unknown_trip):
        e, S0, k = self.e, self.S0, self.k
        from .interp import merge
        base = S0.facts
        # ---- exit through the condition
        fin = S0.copy()
        for (r, path), x in self.vals.items():
            if isinstance(x, Closed):
                v = tidy_ranges(x.f(n))
            else:
                v = self.havoc(x, fin)
            if r not in fin.mem:
                fin.mem[r] = None
            fin.mem[r] = set_at(fin.mem[r], path, v)
        for iv in self.inv:
            iv.state = fin
            for f in iv(n, 0, {l: get_at(fin.mem[l[0]], l[1]) for l in self.ph_vals()}):
                fin.assume(f)
        # facts about witnesses introduced in the body
        if N is not None:
            self.export(N, n, fin)
        if exits and N is None:
            # every iteration leaves the loop
            fin.assume(eq(n, ZERO))
        cexit = FALSE
        if self.cond is None:
            fin.dead = True          # left only from within
        if exits:
            if Bph:
                cexit = app(e.wname('exits'), tuple(e.idx), 'Bool') if e.idx else var(e.wname('exits'), 'Bool')
            elif N is None:
                cexit = lt(ZERO, n)
            else:
                b = fresh('k')
                cexit = exists(b, and_(le(ZERO, b), lt(b, n), subst(B, {k: b})))
            fin.assume(not_(cexit))
        if self.cond is not None and not fin.dead:
            octx, oidx = e.ctx, e.idx
            q = e.quiet
            e.quiet += 1
            before = dict(fin.mem)
            try:
                cc = e.rv(fin, self.cond)
            finally:
                e.quiet = q
            if cc.sort != 'Bool':
                cc = ne(cc, num(0, cc.sort))
            fin.assume(not_(cc))
            refine(fin, before, not_(cc))
            if unknown_trip and n.op == 'var' and any(y.op == 'toreal' and y.args[0] is n for y in subterms(cc)):
                v = prover.settled(fin.facts, n)
                if v is not None:
                    fin.mem = {r: vmap(x, lambda t: subst(t, {n: v})) if x is not None and r_uses(x) else x for r, x in fin.mem.items()}
                    fin.assume(eq(n, v))
                    for f in fin.facts.since(base):
                        if n in f.fv:
                            fin.assume(subst(f, {n: v}))
        out = {'return': [], 'break': [], 'continue': []}
        normals = []
        if not fin.dead:
            normals.append((not_(cexit), fin))
        if exits:
            kE = ZERO if N is None else e.witness('stop')
            hv = {}
            for x in self.vals.values():
                if not isinstance(x, Closed):
                    tmp = S0.copy()
                    nv = self.havoc(x, tmp)
                    self.pair(x[1], nv, hv)
            m = {k: kE}

            def sb(t):
                if hv:
                    t = replace_ph(t, hv)
                return subst(t, m)
            for kindx, cx, s, v in exits:
                s2 = s.copy()
                facts = S0.facts
                s2.facts = facts
                s2.assume(and_(le(ZERO, kE), lt(kE, n)))
                if not Bph and N is not None:
                    s2.assume(cexit)
                    b = fresh('k')
                    s2.assume(forall(b, implies(and_(le(ZERO, b), lt(b, kE)), not_(subst(B, {k: b})))))
                elif Bph:
                    s2.assume(cexit)
                for f in s.facts.since(S0.facts):
                    s2.assume(sb(f))
                if Bph or N is not None:
                    for iv in self.inv:
                        for f in iv(k, 0, self.ph_vals()):
                            s2.assume(sb(f))
                s2.assume(sb(cx))
                s2.mem = {r: vmap(x, sb) if x is not None and r_uses(x) else x for r, x in s.mem.items()}
                if v is not None and not isinstance(v, (Ref,)):
                    v = vmap(v, sb)
                elif isinstance(v, Ref):
                    v = vmap(v, sb)
                cond = and_(cexit, sb(cx)) if len(exits) > 1 else cexit
                if s2.dead:
                    continue
                if kindx == 'break':
                    normals.append((cond, s2))
                else:
                    out['return'].append((cond, s2, v))
        if normals:
            c0, s0 = normals[0]
            for cc, s1 in normals[1:]:
                s0 = merge(cc, s1, s0, base)
                c0 = or_(cc, c0)
            out['normal'] = (c0, s0)
        return out

    def pair(self, a, b, hv):
        for x, y in zip(terms_of(a), terms_of(b)):
            hv[x] = y

    def havoc(self, x, st):
        """a fresh arbitrary value of the placeholder's shape, keeping its side facts"""
        e = self.e
        P = x[1]
        nm = e.wname('any')
        m = {}

        def f(t):
            return rename_ph(t, nm, tuple(e.idx), self.pre)
        v = vmap(P, f)
        for g in x[2]:
            st.assume(f(g))
        return v

    def export(self, N, n, fin):
        e = self.e
        k = self.k
        fs = N.facts.since(self.S0.facts)
        mark = '~%s.' % self.id
        for f in fs:
            ok = False
            for y in subterms(f):
                if y.op == 'app' and mark in y.args[0] or (y.op == 'app' and '~' in y.args[0] and k in y.fv):
                    ok = True
                    break
            if ok and not self.own(f):
                fin.facts = fin.facts.add(forall(k, implies(and_(le(ZERO, k), lt(k, n)), f)))


def r_uses(x):
    return True


def rename_ph(t, nm, idx, pre='ph!'):
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if not has_ph(x):
            r = x
        elif x.op == 'var' and x.args[0].startswith(pre):
            n = nm + '/' + x.args[0][3:]
            r = app(n, idx, x.sort) if idx else var(n, x.sort)
        elif x.op == 'app' and x.args[0].startswith(pre):
            n = nm + '/' + x.args[0][3:]
            r = app(n, idx + tuple(go(y) for y in x.args[1:]), x.sort)
        else:
            r = tm.rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def replace_ph(t, hv):
    """replace placeholders (variables, and applications by name) by their havocked versions"""
    names = {}
    vs = {}
    for a, b in hv.items():
        if a.op == 'var':
            vs[a] = b
        elif a.op == 'app' and b.op == 'app':
            names[a.args[0]] = (b.args[0], b.args[1:len(b.args) - (len(a.args) - 1)])
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if not has_ph(x):
            r = x
        elif x in vs:
            r = vs[x]
        elif x.op == 'app' and x.args[0] in names:
            n, pre = names[x.args[0]]
            r = app(n, tuple(pre) + tuple(go(y) for y in x.args[1:]), x.sort)
        else:
            r = tm.rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def loop(eng, st, cond, inc, body, line, omp=False):
    if cond is not None and cond.get('k') in ('Bool', 'Int') and str(cond.get('v')) in ('True', 'true', '1'):
        cond = None          # while(true)
    # constant trip: execute iteration by iteration
    pend = {'return': [], 'break': [], 'continue': []}
    fr = eng.frames[-1]
    cur = st
    outer = TRUE
    brk = []
    base = st.facts
    for it in range(400):
        if cond is None or it == 0 and over_sorted(eng, st, cond):
            break
        probe = cur.copy()
        eng.quiet += 1
        acc, eng.access = eng.access, None
        ctx = list(eng.ctx)
        try:
            c = eng.rv(probe, cond)
        finally:
            eng.quiet -= 1
            eng.access = acc
            eng.ctx[1] = ctx[1]
        if not isinstance(c, T):
            raise Undecided('loop condition')
        if c.sort != 'Bool':
            c = ne(c, num(0, c.sort))
        if c is not TRUE and c is not FALSE and (it > 0 or eng.opts.get('pin')):
            q = decide(cur.facts, c) if it < 30 else None
            if q is not None and (it > 0 or eng.opts.get('pin')):
                c = TRUE if q else FALSE
        if c is FALSE:
            eng.rv(cur, cond)
            res = {'normal': (outer, cur)}
            return finish(eng, res, pend, brk, base)
        if c is not TRUE or (omp and it == 0 and not eng.opts.get('pin')):
            break
        # one concrete iteration
        if omp:
            eng.omp.append(num(it))
        env0 = dict(fr.env)
        try:
            eng.rv(cur, cond)
            r = eng.x(cur, body)
        finally:
            fr.env = env0
            if omp:
                eng.omp.pop()
        for t in r.get('return', []):
            pend['return'].append((and_(outer, t[0]),) + t[1:])
        for t in r.get('break', []):
            brk.append((and_(outer, t[0]), t[1]))
        n = r.get('normal')
        if n is not None and n[1].dead:
            n = None
        from .interp import merge
        b2 = cur.facts
        for cc, s in r.get('continue', []):
            if s.dead: continue
            n = (cc, s) if n is None else (or_(cc, n[0]), merge(cc, s, n[1], base))
        if n is None:
            return finish(eng, {}, pend, brk, base)
        outer = and_(outer, n[0])
        cur = n[1]
        if inc is not None:
            if omp: eng.omp.append(num(it))
            try:
                eng.ev(cur, inc)
            finally:
                if omp: eng.omp.pop()
    L = Loop(eng, cur, cond, inc, body, line, omp)
    res = L.execute()
    if outer is not TRUE or pend['return'] or brk:
        if 'normal' in res:
            res['normal'] = (and_(outer, res['normal'][0]), res['normal'][1])
        res['return'] = [(and_(outer, t[0]),) + tuple(t[1:]) for t in res.get('return', [])]
    return finish(eng, res, pend, brk, base)


def finish(eng, res, pend, brk, base):
    from .interp import merge
    out = {'return': pend['return'] + list(res.get('return', [])), 'break': [], 'continue': []}
    normals = []
    if res.get('normal') is not None and not res['normal'][1].dead:
        normals.append(res['normal'])
    for c, s in brk:
        if not s.dead:
            normals.append((c, s))
    if normals:
        c0, s0 = normals[0]
        for cc, s1 in normals[1:]:
            s0 = merge(cc, s1, s0, base)
            c0 = or_(cc, c0)
        out['normal'] = (c0, s0)
    return out


def do_loop(eng, st, s):
    from .interp import merge
    fr = eng.frames[-1]
    base = st.facts
    env0 = dict(fr.env)
    r = eng.x(st, s['b'])
    fr.env = env0
    pend = {'return': list(r.get('return', [])), 'break': [], 'continue': []}
    brk = list(r.get('break', []))
    n = r.get('normal')
    for cc, s1 in r.get('continue', []):
        if s1.dead: continue
        n = (cc, s1) if n is None or n[1].dead else (or_(cc, n[0]), merge(cc, s1, n[1], base))
    if n is None or n[1].dead:
        return finish(eng, {}, pend, brk, base)
    res = loop(eng, n[1], s['c'], None, s['b'], s.get('l'))
    if 'normal' in res:
        res['normal'] = (and_(n[0], res['normal'][0]), res['normal'][1])
    res['return'] = [(and_(n[0], t[0]),) + tuple(t[1:]) for t in res.get('return', [])]
    return finish(eng, res, pend, brk, base)


# -------------------------------------------------------------------- OpenMP
def accumulations(e):
    """(expression added to, expression added) of every x += e; e is JSON"""
    out = []

    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'CAsg' and x['op'] in ('+=', '-='):
                out.append((x['a'], x['b']))
            elif x.get('k') == 'OpCall' and x.get('op') in ('+=', '-=') and len(x.get('a', [])) == 2:
                out.append((x['a'][0], x['a'][1]))
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(e)
    return out


def var_ids(e):
    out = []

    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'Ref' and x.get('dk') in ('var', 'parm'):
                out.append(x['id'])
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(e)
    return out


def reduction_vars(eng, s, body):
    """reduction(+: x): the loop must do nothing with x but add to it; then the result is the one of
    the sequential loop whatever the order (in real arithmetic)"""
    out = []
    for c in s.get('cl', []):
        if c['k'] != 'reduction':
            continue
        if c.get('op') not in ('operator+', 'operator-', '+', '-'):
            raise Undecided('OpenMP reduction %s' % c.get('op'))
        for v in c['vars']:
            ids = var_ids(v)
            if len(ids) != 1:
                raise Undecided('OpenMP reduction variable')
            adds = [a for a in accumulations(body) if var_ids(a[0]) == ids and a[0].get('k') == 'Ref' and ids[0] not in var_ids(a[1])]
            if var_ids(body).count(ids[0]) != len(adds):
                raise Undecided('OpenMP reduction variable used otherwise')
            r = eng.frames[-1].env.get(ids[0])
            if not isinstance(r, Ref):
                raise Undecided('OpenMP reduction variable')
            out.append(r.root)
    return tuple(out)


def guarded(eng, st, b, k):
    """critical or atomic: one accumulation x += e, whose order does not matter (in real arithmetic)"""
    while b['s'] == 'Compound' and len(b['b']) == 1:
        b = b['b'][0]
    adds = accumulations(b)
    if not (b['s'] == 'Expr' and len(adds) == 1):
        raise Undecided('%s with more than an accumulation' % k)
    ids = var_ids(adds[0][0])
    if any(i in var_ids(adds[0][1]) for i in ids[:1]):
        raise Undecided('%s with more than an accumulation' % k)
    acc, eng.access = eng.access, [] if eng.access is not None else None
    try:
        r = eng.x(st, b)
        if acc is not None:
            roots = {x[0].root for x in eng.access if x[1]}
            acc.extend((ref, 'guarded' if ref.root in roots else wr, f) for ref, wr, f in eng.access)
        return r
    finally:
        eng.access = acc


def omp_stmt(eng, st, s):
    k = s['k']
    b = s.get('b')
    if k in ('OMPParallelForDirective', 'OMPForDirective', 'OMPParallelForSimdDirective'):
        bad = [c['k'] for c in s.get('cl', []) if not c.get('impl') and c['k'] not in ('schedule', 'default', 'shared', 'nowait', 'if', 'proc_bind', 'reduction')]
        if bad:
            raise Undecided('OpenMP clause %s' % bad)
        while b and b['s'] == 'Compound' and len(b['b']) == 1:
            b = b['b'][0]
        if not b or b['s'] != 'For':
            raise Undecided('OpenMP loop form')
        fr = eng.frames[-1]
        env0 = dict(fr.env)
        if b.get('i'):
            eng.x(st, b['i'])
        line0, eng.omp_line = eng.omp_line, b.get('l') or 0
        eng.omp_private = reduction_vars(eng, s, b['b'])
        try:
            out = loop(eng, st, cond=b.get('c'), inc=b.get('u'), body=b['b'], line=b.get('l'), omp=True)
        finally:
            eng.omp_line = line0
            eng.omp_private = ()
        fr.env = env0
        return out
    if k in ('OMPCriticalDirective', 'OMPAtomicDirective'):
        return guarded(eng, st, b, k)
    if k in ('OMPSimdDirective',):
        return eng.x(st, b)
    raise Undecided('OpenMP directive %s' % k)


def races(eng, L, S0, n, log):
    """different iterations do not conflict, except through locations owned by one thread"""
    from .interp import Obligation
    k = L.k
    shared = {}
    for ref, wr, facts in log:
        if ref.root not in S0.mem:
            continue
        if ref.root in L.private:
            continue
        shared.setdefault(ref.root, []).append((ref, wr, facts))
    loopvars = [r for r in loop_roots(L)]
    k2 = var(k.args[0] + "'", 'Int')
    done = set()
    fnq = eng.frames[-1].fn['q']
    count = 0
    for root, acc in shared.items():
        if root in loopvars:
            continue
        uniq = {}
        for ref, wr, facts in acc:
            key = (ref.path, wr, tuple(facts.since(S0.facts)))
            uniq[key] = (ref, wr, facts)
        acc = list(uniq.values())
        for i, (ra, wa, fa) in enumerate(acc):
            if not wa:
                continue
            for rb, wb, fb in acc:
                if wa == wb == 'guarded':
                    continue
                key = (ra.path, rb.path, wb, tuple(fa.since(S0.facts)), tuple(fb.since(S0.facts)))
                if key in done:
                    continue
                done.add(key)
                # rename everything iteration-dependent in b
                fbs = fb.since(S0.facts)
                fas = fa.since(S0.facts)
                ren = {k: k2}
                outer = set()
                for f in S0.facts.list():
                    outer |= f.fv
                for t in list(fbs) + [s[1] for s in rb.path if s[0] == 'i']:
                    for v in t.fv:
                        if v.args[0].startswith('kL~') and v is not k and v not in eng.idx:
                            ren.setdefault(v, var(v.args[0] + "'", 'Int'))
                        elif v.args[0].startswith(('w!', 'ph!')):
                            ren.setdefault(v, var(v.args[0] + "'", v.sort))
                facts = S0.facts
                for f in fas:
                    facts = facts.add(f)
                for f in fbs:
                    facts = facts.add(subst(f, ren))
                facts = facts.add(and_(le(ZERO, k), lt(k, n), le(ZERO, k2), lt(k2, n), ne(k, k2)))
                t1, t2 = eng.thr(k), eng.thr(k2)
                facts = facts.add(ne(t1, t2))
                same = TRUE
                for sa, sb in zip(ra.path, rb.path):
                    if sa[0] == 'i' and sb[0] == 'i':
                        same = and_(same, eq(sa[1], subst(sb[1], ren)))
                    elif sa != sb:
                        same = FALSE
                count += 1
                r = prove(facts, not_(same), eng.timeout)
                eng.obligs.append(Obligation('race', 'iterations of the parallel loop do not conflict', fnq, L.line, r, not_(same), facts))
    eng.omp_loops = getattr(eng, 'omp_loops', [])
    eng.omp_loops.append({'function': fnq, 'line': L.line, 'pairs': count})


def over_sorted(eng, st, cond):
    """the loop runs over a sorted list: not unrolled, so that sums over it stay sums over the list"""
    found = []

    def val(v):
        if isinstance(v, Iter):
            return val(v.ref)
        if isinstance(v, Ref):
            return val(get_at(st.mem[v.root], v.path))
        return isinstance(v, Seq) and any(s[0] == 'p' or s[0] == 'c' and any(x.op == 'app' and x.args[0] in tm.SORTED for t in terms_of(s[3]) for x in subterms(t)) for s in v.segs)

    def walk(e):
        if isinstance(e, dict):
            if e.get('k') == 'Ref' and e.get('dk') in ('var', 'parm'):
                r = eng.frames[-1].env.get(e['id'])
                try:
                    if isinstance(r, Ref) and val(r):
                        found.append(r)
                except (KeyError, IndexError, AttributeError, TypeError, Undecided):
                    pass
            for x in e.values():
                walk(x)
        elif isinstance(e, list):
            for x in e:
                walk(x)
    walk(cond)
    return bool(found)


def loop_roots(L):
    """roots of the loop's own control variable (private by OpenMP rules)"""
    out = set()
    c = L.inc

    def walk(e):
        if isinstance(e, dict):
            if e.get('k') == 'Ref' and e.get('dk') in ('var', 'parm'):
                r = L.e.frames[-1].env.get(e['id'])
                if isinstance(r, Ref):
                    out.add(r.root)
            for x in e.values():
                walk(x)
        elif isinstance(e, list):
            for x in e:
                walk(x)
    walk(c)
    return out
