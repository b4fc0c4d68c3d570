"""Assumed contracts for the C++ standard library (and OpenMP, boost constants)
used by the code under verification, plus the specification intrinsics vc_*."""
from fractions import Fraction
from .term import *
from . import term as tm
from .values import *
from .prover import decide, quick, prove

SEQS = ('vector', 'list', 'deque', 'initializer_list', 'array')
from .interp import ISTREAMS
ITERS = ('__normal_iterator', '_List_iterator', '_List_const_iterator', 'reverse_iterator', '_Deque_iterator')


def _cos(x):
    if is_num(x) and numval(x) == 0:
        return RONE
    p = x.args[0][1] if x.op == 'poly' else 1
    if p < 0:
        return app('cos', (neg(x),), 'Real')


def _sin(x):
    if is_num(x) and numval(x) == 0:
        return RZERO
    p = x.args[0][1] if x.op == 'poly' else 1
    if p < 0:
        return neg(app('sin', (neg(x),), 'Real'))


def _sqrt(x):
    if is_num(x):
        v = Fraction(numval(x))
        if v >= 0:
            import math
            a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator:
                return num(Fraction(a, b), 'Real')


tm._app_simpl.update({'cos': _cos, 'sin': _sin, 'sqrt': _sqrt})
PI = app('pi', (), 'Real')


def kind(tmpl):
    if not tmpl:
        return None
    t = tmpl.replace('__cxx11::', '').replace('__debug::', '')
    if t.startswith('__gnu_cxx::'):
        return t[11:]
    if t.startswith('std::'):
        return t[5:]
    return None


class Std:
    def __init__(self, eng):
        self.e = eng
        self._k = {}
        self.sorts = {}     # permutation id -> (comparator description)

    # ------------------------------------------------------------ types
    def kind(self, ty):
        k = self._k.get(ty)
        if k is None:
            t = self.e.ti(ty)
            k = kind(t.get('tmpl') or t.get('q')) or ''
            self._k[ty] = k
        return k or None

    def is_std(self, ty):
        return self.kind(ty) is not None

    def stateless(self, ty):
        t = self.e.ti(ty)
        return t['k'] == 'rec' and not t.get('fields') and not self.is_std(ty)

    def tup_types(self, ty):
        t = self.e.ti(ty)
        out = []
        for a in t['targs']:
            if isinstance(a, dict) and 'pack' in a:
                out.extend(a['pack'])
            else:
                out.append(a)
        return out

    def sym(self, ty, name, args, facts):
        k = self.kind(ty)
        if k is None:
            return None
        e = self.e
        if k in ('vector', 'list', 'deque', 'initializer_list'):
            n = var(name + '.len', 'Int') if not args else app(name + '.len', args, 'Int')
            if facts is not None:
                facts.append((args, le(ZERO, n)))
                facts.append((args, le(n, num(1 << 60))))
                if args:
                    tm.LENGTHS.add(name + '.len')
            return e.sym_seq(e.targ(ty, 0), n, name, args, facts)
        if k == 'array':
            return e.sym_seq(e.targ(ty, 0), num(int(e.targ(ty, 1)['i'])), name, args, facts)
        if k == 'complex':
            return Struct(ty, {c: e.sym(e.targ(ty, 0), name + '.' + c, args, facts) for c in ('re', 'im')})
        if k == 'tuple':
            return Struct(ty, {str(i): e.sym(a, '%s.%d' % (name, i), args, facts) for i, a in enumerate(self.tup_types(ty))})
        if k == 'pair':
            return Struct(ty, {n: e.sym(a, name + '.' + n, args, facts) for n, a in zip(('first', 'second'), self.tup_types(ty))})
        if k == 'basic_string':
            return var(name, 'Str') if not args else app(name, args, 'Str')
        if k == 'function':
            sig = e.targ(ty, 0)
            rt = sig.split(' (')[0].split('(')[0].strip()
            if facts is not None and not args:
                # the range of the values
                try:
                    ps = [x.strip() for x in sig[sig.index('(') + 1:sig.rindex(')')].split(',')]
                    vs = [fresh('x', e.sort(p)) for p in ps] if all(e.sort(p) for p in ps) else None
                except (KeyError, Undecided):
                    vs = None
                if vs and e.sort(rt) == 'Int':
                    fl = []
                    e.sym(rt, name, tuple(vs), fl)
                    for _, f in fl:
                        for v in reversed(vs):
                            f = forall(v, f)
                        facts.append(((), f))
            return FnV(name, rt)
        raise Undecided('arbitrary value of library type %s' % ty)

    def default(self, ty, st, zero):
        k = self.kind(ty)
        if k is None:
            return None
        e = self.e
        if k in ('vector', 'list', 'deque', 'initializer_list'):
            return Seq([], e.targ(ty, 0))
        if k == 'array':
            el = e.default_value(e.targ(ty, 0), st, zero=zero)
            return Seq([('c', num(int(e.targ(ty, 1)['i'])), fresh('v'), el)], e.targ(ty, 0))
        if k == 'complex':
            return Struct(ty, {'re': RZERO, 'im': RZERO})
        if k == 'tuple':
            return Struct(ty, {str(i): e.default_value(a, st, zero=True) for i, a in enumerate(self.tup_types(ty))})
        if k == 'pair':
            return Struct(ty, {n: e.default_value(a, st, zero=True) for n, a in zip(('first', 'second'), self.tup_types(ty))})
        if k == 'basic_string':
            return strc('')
        if k == 'function':
            return Opaque('empty function')
        if k in ('basic_ostream', 'basic_ostringstream', 'basic_stringstream'):
            return Struct(ty, {'out': Seq([], 'STR')})
        if k in ISTREAMS:
            return Struct(ty, {'lines': Seq([], 'Str'), 'pos': ZERO, 'fail': FALSE})
        if k == 'default_random_engine':
            return Opaque(k)
        if k.startswith('less') or k.startswith('plus') or k.startswith('equal_to') or k.startswith('allocator') or k.startswith('greater'):
            return Struct(ty, {})
        raise Undecided('default value of library type %s' % ty)

    def global_value(self, q, ty, st):
        if 'boost' in q and q.endswith('pi'):
            return PI
        return None

    # ------------------------------------------------------------ element operations
    def find_op(self, name, a, b):
        """user-defined operator for struct values a, b"""
        e = self.e
        ta = a.ty if isinstance(a, Struct) else None
        tb = b.ty if isinstance(b, Struct) else None
        if ta:
            for o in e.ti(ta).get('ops') or []:
                if o['n'] == name and len(o['params']) == 1 and o['params'][0]['t'] == (tb or o['params'][0]['t']):
                    return o, True
        for o in e.ops:
            if o['n'] == name and len(o['params']) == 2 and o['params'][0]['t'] == ta and o['params'][1]['t'] == tb:
                return o, False
        return None, None

    def pure_call(self, st, f, this, args):
        """call evaluated in a copy of the state; only the value is kept"""
        e = self.e
        s = st.copy()
        if this is not None and not isinstance(this, Ref):
            this = e.alloc(s, this)
        v = e.call(s, f, this, args)
        if isinstance(v, Ref):
            v = e.read(s, v)
        return v

    def eqv(self, st, a, b):
        """a == b with the element type's own operator=="""
        if isinstance(a, T) and isinstance(b, T):
            return eq(a, b)
        if isinstance(a, Struct) and isinstance(b, Struct):
            k = self.kind(a.ty)
            if k in ('tuple', 'pair', 'complex'):
                r = TRUE
                for x in a.f:
                    r = and_(r, self.eqv(st, a.f[x], b.f[x]))
                return r
            o, mem = self.find_op('operator==', a, b)
            if o is None:
                # base class vectors
                if list(a.f) == ['#0'] and list(b.f) == ['#0']:
                    return self.eqv(st, a.f['#0'], b.f['#0'])
                raise Undecided('no operator== for %s' % a.ty)
            return self.pure_call(st, o, a, [b]) if mem else self.pure_call(st, o, None, [a, b])
        if isinstance(a, Seq) and isinstance(b, Seq):
            la, lb = slen(a), slen(b)
            r = eq(la, lb)
            if r is FALSE:
                return r
            i = fresh('e')
            s = st.copy()
            s.assume(and_(le(ZERO, i), lt(i, la), r))
            if s.dead or not a.segs or not b.segs:
                return r
            if is_num(la) and is_num(lb):
                for j in range(numval(la)):
                    r = and_(r, self.eqv(st, sget(a, num(j), st.facts), sget(b, num(j), st.facts)))
                return r
            x = self.eqv(s, sget(a, i, s.facts), sget(b, i, s.facts))
            return and_(r, forall(i, implies(and_(le(ZERO, i), lt(i, la)), x)))
        return veq(a, b, st.facts)

    def lessv(self, st, a, b, name='operator<'):
        if isinstance(a, T) and isinstance(b, T):
            return lt(a, b)
        if isinstance(a, Struct) and isinstance(b, Struct):
            k = self.kind(a.ty)
            if k in ('tuple', 'pair'):
                r = FALSE
                for x in reversed(list(a.f)):
                    u, v = a.f[x], b.f[x]
                    r = or_(self.lessv(st, u, v), and_(not_(self.lessv(st, v, u)), r))
                return r
            o, mem = self.find_op('operator<', a, b)
            if o is not None:
                return self.pure_call(st, o, a, [b]) if mem else self.pure_call(st, o, None, [a, b])
        if isinstance(a, Seq) and isinstance(b, Seq):
            la, lb = slen(a), slen(b)
            if is_num(la) and is_num(lb):
                n = min(numval(la), numval(lb))
                r = TRUE if numval(la) < numval(lb) else FALSE
                for j in reversed(range(n)):
                    u, v = sget(a, num(j), st.facts), sget(b, num(j), st.facts)
                    r = or_(self.lessv(st, u, v), and_(not_(self.lessv(st, v, u)), r))
                return r
        raise Undecided('operator< for %s' % type(a).__name__)

    def cmpv(self, st, cmp, a, b):
        if cmp is None:
            return self.lessv(st, a, b)
        s = st.copy()
        r = self.e.call_value(s, cmp, [a, b])
        if isinstance(r, Ref):
            r = self.e.read(s, r)
        return r

    # ------------------------------------------------------------ iterators
    def deref(self, st, it):
        e = self.e
        i = sub(it.idx, ONE) if it.rev else it.idx
        q = e.read(st, it.ref, log=False)
        if isinstance(q, T) and q.sort == 'Str':
            e.oblige(st, 'bounds', 'dereferenced iterator is valid', and_(le(ZERO, i), lt(i, self.strlen(q))), e.cur_line)
            return it.ref.sub(('i', i))
        if not isinstance(q, Seq):
            raise Undecided('dereference of a foreign iterator')
        e.oblige(st, 'bounds', 'iterator is dereferenceable', and_(le(ZERO, i), lt(i, slen(q))), e.cur_line)
        return it.ref.sub(('i', i))

    def adv(self, it, n):
        return Iter(it.ref, sub(it.idx, n) if it.rev else add(it.idx, n), it.rev)

    def diff(self, a, b):
        if not isinstance(b, Iter) or a.ref != b.ref:
            raise Undecided('difference of iterators of different containers')
        d = sub(a.idx, b.idx)
        return neg(d) if a.rev else d

    def rng(self, a, b):
        """(container ref, lo, hi, reversed)"""
        if not (isinstance(a, Iter) and isinstance(b, Iter)) or a.ref != b.ref:
            raise Undecided('iterator range')
        if a.rev != b.rev:
            raise Undecided('mixed iterators')
        return (a.ref, b.idx, a.idx, True) if a.rev else (a.ref, a.idx, b.idx, False)

    def slice_of(self, st, a, b):
        e = self.e
        ref, lo, hi, rev = self.rng(a, b)
        q = e.read(st, ref)
        n = slen(q)
        e.oblige(st, 'bounds', 'valid iterator range', and_(le(ZERO, lo), le(lo, hi), le(hi, n)), e.cur_line)
        if st.dead:
            return Seq([], q.ety)
        s = sslice(q, lo, hi, st.facts)
        return srev(s, st.facts) if rev else s

    def overwrite(self, st, ref, lo, s):
        """ref[lo..lo+len(s)) = s"""
        e = self.e
        q = e.read(st, ref, log=False)
        n, m = slen(q), slen(s)
        e.oblige(st, 'bounds', 'output range fits', and_(le(ZERO, lo), le(add(lo, m), n)), e.cur_line)
        if not s.segs or st.dead:
            return
        a = sslice(q, ZERO, lo, st.facts)
        b = sslice(q, add(lo, m), n, st.facts)
        if e.access is not None:
            v = fresh('w')
            e.access.append((e.unfocus(ref).sub(('i', v)), True, st.facts.add(le(lo, v), lt(v, add(lo, m)))))
        e.write(st, ref, sconcat(sconcat(a, s), b), log=False)

    # ------------------------------------------------------------ arguments
    def R(self, st, a):
        e = self.e
        if isinstance(a, dict):
            return e.rv(st, a)
        if isinstance(a, Ref):
            return e.read(st, a)
        return a

    def L(self, st, a):
        e = self.e
        if isinstance(a, dict):
            return e.lv(st, a)
        return a if isinstance(a, Ref) else e.alloc(st, a)

    # ------------------------------------------------------------ construction
    def construct(self, st, ty, f, args, ex):
        e = self.e
        k = self.kind(ty)
        ps = [p['t'] for p in f['params']]
        args = [a for a, p in zip(args, ps) if not p.replace('const ', '').strip().startswith('std::allocator')]
        if f.get('copy') and args:
            return self.R(st, args[0])
        if k in ('vector', 'list', 'deque'):
            et = e.targ(ty, 0)
            if not args:
                return Seq([], et)
            v = [self.R(st, a) for a in args]
            if len(v) == 1 and isinstance(v[0], Seq):
                return Seq(v[0].segs, et)
            if isinstance(v[0], Iter) and len(v) >= 2:
                return Seq(self.slice_of(st, v[0], v[1]).segs, et)
            if isinstance(v[0], T):
                n = v[0]
                el = v[1] if len(v) > 1 else e.default_value(et, st, zero=True)
                if isinstance(el, T) and e.sort(et) == 'Real': el = toreal(el)
                if isinstance(el, T) and self.kind(et) == 'complex':
                    el = Struct(et, {'re': toreal(el), 'im': RZERO})
                if decide(st.facts, le(ZERO, n)) is not True:
                    e.oblige(st, 'bounds', 'size of a container is not negative', le(ZERO, n), e.cur_line)
                return Seq(snorm((('c', n, fresh('v'), el),)), et)
            raise Undecided('container constructor')
        if k == 'initializer_list':
            if not args:
                return Seq([], e.targ(ty, 0))
            v = self.R(st, args[0])
            return v
        if k == 'complex':
            t = e.targ(ty, 0)
            v = [self.R(st, a) for a in args]
            if v and isinstance(v[0], Struct):
                return Struct(ty, dict(v[0].f))
            v = [toreal(x) for x in v] + [RZERO, RZERO]
            return Struct(ty, {'re': v[0], 'im': v[1]})
        if k in ('tuple', 'pair'):
            names = [str(i) for i in range(len(self.tup_types(ty)))] if k == 'tuple' else ['first', 'second']
            v = [self.R(st, a) for a in args]
            if len(v) == 1 and isinstance(v[0], Struct) and self.kind(v[0].ty) == k and len(names) != 1:
                v = list(v[0].f.values())
            tys = self.tup_types(ty)
            return Struct(ty, {n: e.cvt(st, x, None, t) if isinstance(x, T) and e.sort(t) and e.sort(t) != x.sort else x for n, x, t in zip(names, v, tys)})
        if k == 'function':
            if not args:
                return Opaque('empty function')
            v = self.R(st, args[0])
            if isinstance(v, Ref):
                v = e.read(st, v)
            return v
        if k == 'reference_wrapper':
            r = self.L(st, args[0])
            v = e.read(st, r, log=False)
            if isinstance(v, Struct) and self.kind(v.ty) == 'reference_wrapper':
                return v
            return Struct(ty, {'p': r})
        if k == 'basic_string':
            if not args:
                return strc('')
            v = [self.R(st, a) for a in args]
            if len(v) == 1 and isinstance(v[0], T) and v[0].sort == 'Str':
                return v[0]
            if isinstance(v[0], T) and v[0].sort == 'Str' and len(v) == 1:
                return v[0]
            if len(v) >= 2 and isinstance(v[0], T) and is_num(v[0]) and is_num(v[1]):
                return strc(chr(numval(v[1])) * numval(v[0]))
            if len(v) == 1 and isinstance(v[0], T) and v[0].sort == 'Str': return v[0]
            raise Undecided('string constructor')
        if k in ('__normal_iterator', '_List_const_iterator', '_List_iterator'):
            return self.R(st, args[0])
        if k == 'reverse_iterator':
            v = self.R(st, args[0])
            return v if isinstance(v, Iter) and v.rev else Iter(v.ref, v.idx, True)
        if k in ('basic_ostringstream', 'basic_stringstream'):
            return Struct(ty, {'out': Seq([], 'STR')})
        if k in ISTREAMS and not args:
            return self.e.default_value(ty, st, zero=True)
        if k == 'ostream_iterator':
            r = self.L(st, args[0])
            sep = self.R(st, args[1]) if len(args) > 1 else strc('')
            return OStreamIter(r, sep, e.targ(ty, 0))
        if k and not args:
            return self.default(ty, st, True)
        raise Undecided('constructor of %s' % ty)

    def init_list(self, st, ty, ex):
        k = self.kind(ty)
        if k is None:
            return None
        e = self.e
        if k == 'array':
            if not ex['a']:
                return self.default(ty, st, True)
            v = e.rv(st, ex['a'][0])
            return Seq(v.segs, e.targ(ty, 0))
        if not ex['a']:
            return self.default(ty, st, True)
        raise Undecided('initialiser list for %s' % ty)

    def assign(self, st, this, v, f):
        e = self.e
        old = None
        if isinstance(this, Ref):
            k = self.kind(f.get('cls', ''))
            if k == 'complex' and isinstance(v, T):
                v = Struct(f['cls'], {'re': toreal(v), 'im': RZERO})
            if k in ('vector', 'list', 'deque') and isinstance(v, Seq):
                v = Seq(v.segs, e.targ(f['cls'], 0))
            e.write(st, this, v)
        return this

    def call_functor(self, st, c, args):
        k = self.kind(c.ty)
        if k and k.split('<')[0] in ('less', 'greater', 'equal_to', 'plus', 'multiplies'):
            a, b = [self.R(st, x) for x in args]
            k = k.split('<')[0]
            if k == 'less': return self.lessv(st, a, b)
            if k == 'greater': return self.lessv(st, b, a)
            if k == 'equal_to': return self.eqv(st, a, b)
            if k == 'plus': return self.cplx('+', a, b)
            if k == 'multiplies': return self.cplx('*', a, b)
        return None

    # ------------------------------------------------------------ complex numbers
    def cplx(self, op, a, b):
        if isinstance(a, T) and isinstance(b, T):
            return {'+': add, '-': sub, '*': mul}[op](a, b)
        ty = a.ty if isinstance(a, Struct) else b.ty
        z = lambda x: (x.f['re'], x.f['im']) if isinstance(x, Struct) else (toreal(x), RZERO)
        (ar, ai), (br, bi) = z(a), z(b)
        if op == '+': r = (add(ar, br), add(ai, bi))
        elif op == '-': r = (sub(ar, br), sub(ai, bi))
        elif op == '*': r = (sub(mul(ar, br), mul(ai, bi)), add(mul(ar, bi), mul(ai, br)))
        else:
            n = add(mul(br, br), mul(bi, bi))
            if isinstance(b, T):
                r = (rdiv(ar, br), rdiv(ai, br))
            else:
                r = (rdiv(add(mul(ar, br), mul(ai, bi)), n), rdiv(sub(mul(ai, br), mul(ar, bi)), n))
        return Struct(ty, {'re': r[0], 'im': r[1]})

    # ------------------------------------------------------------ calls
    def call(self, st, f, this, args, ex=None):
        e = self.e
        if ex is not None and ex.get('l'):
            e.cur_line = ex['l']
        n = f['n']
        if n.startswith('vc_'):
            m = getattr(self, n, None)
            if m is None:
                raise Undecided('intrinsic %s' % n)
            return m(st, f, args, ex)
        cls = f.get('cls')
        if cls:
            k = self.kind(cls)
            if k is None and f.get('ctor'):
                raise Undecided('constructor call')
            if k is None:
                # methods of system classes outside std
                raise Undecided('function %s' % f['q'])
            r = self.method(st, k, n, f, this, args, ex)
        else:
            r = self.free(st, n, f, args, ex)
        if r is NotImplemented:
            raise Undecided('library function %s' % f['q'])
        nm = f.get('tmpl') or f['q']
        from .interp import strip_targs
        nm = strip_targs(nm)
        e.assumed[nm] = e.assumed.get(nm, 0) + 1
        return r

    def method(self, st, k, n, f, this, args, ex):
        e = self.e
        base = k.split('<')[0]
        if base in ('_Vector_base', '_List_base', '_Vector_impl'):
            base = 'vector'
        if base in SEQS:
            return self.seq_method(st, base, n, f, this, args, ex)
        if base in ITERS:
            return self.iter_op(st, n, [this] + list(args), ex, f)
        if base == 'back_insert_iterator':
            if n in ('operator*', 'operator++'):
                return this
            if n == 'operator=':
                out = e.read(st, this)
                v = self.R(st, args[0])
                if isinstance(out, BackIns) and not isinstance(v, BackIns):
                    self.output(st, lit([v], None), out)
                    return this
        if base == 'complex':
            if n in ('real', 'imag'):
                c = 're' if n == 'real' else 'im'
                if args:
                    e.write(st, this.sub(('f', c)), toreal(self.R(st, args[0])))
                    return None
                return e.read(st, this).f[c]
            if n in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
                b = self.R(st, args[0])
                a = e.read(st, this)
                if n[8] == '/':
                    self.nonzero(st, b)
                e.write(st, this, self.retype(self.cplx(n[8], a, b), a.ty))
                return this
            if n == 'operator=':
                v = self.R(st, args[0])
                a = f['cls']
                if isinstance(v, T):
                    v = Struct(a, {'re': toreal(v), 'im': RZERO})
                e.write(st, this, Struct(a, dict(v.f)))
                return this
        if base == 'function':
            if n == 'operator()':
                c = e.read(st, this)
                return e.call_value(st, c, args, ex)
            if n == 'operator bool':
                return TRUE
            if n == 'operator=':
                v = self.R(st, args[0])
                e.write(st, this, v)
                return this
        if base == 'reference_wrapper':
            v = e.read(st, this)
            if n == 'get' or n.startswith('operator ') and n != 'operator()':
                return v.f['p']
        if base == 'numeric_limits':
            return self.limits(n, f['cls'])
        if base in ISTREAMS or base in ('basic_ios', 'ios_base'):
            q = e.read(st, this)
            if isinstance(q, Struct) and 'lines' in q.f:
                if n in ('operator bool', 'operator!', 'fail', 'good'):
                    if n == 'good':
                        raise Undecided('state of a stream')
                    return q.f['fail'] if n in ('operator!', 'fail') else not_(q.f['fail'])
        if base in ('basic_ostream', 'basic_ostringstream', 'basic_stringstream'):
            if n == 'operator<<':
                v = self.R(st, args[0])
                if isinstance(v, Closure):
                    return self.manip(st, this, v)
                self.put(st, this, v, f['params'][0]['t'])
                return this
            if n == 'str' and not args:
                q = e.read(st, this).f['out']
                segs = q.segs
                if all(s[0] == 'c' and s[1] is ONE for s in segs):
                    return self.strjoin([vsubst(s[3], {s[2]: ZERO}) for s in segs])
                raise Undecided('contents of a string stream of unknown length')
            if n in ('precision', 'flush', 'width'):
                return this
        if base == 'basic_string':
            return self.str_method(st, n, f, this, args)
        if base == 'allocator' or base == '__new_allocator':
            return Opaque('allocator')
        return NotImplemented

    def retype(self, v, ty):
        return Struct(ty, v.f)

    def nonzero(self, st, b):
        e = self.e
        if isinstance(b, Struct):
            c = or_(ne(b.f['re'], RZERO), ne(b.f['im'], RZERO))
        else:
            c = ne(toreal(b), RZERO)
        e.oblige(st, 'division', 'divisor is not zero', c, e.cur_line)

    def limits(self, n, cls):
        e = self.e
        t = e.targ(cls, 0)
        s = e.sort(t)
        if n == 'epsilon':
            return num(Fraction(1, 1 << 52), 'Real') if s == 'Real' else ZERO
        if s == 'Int':
            lo, hi = e.int_range(t)
            if n == 'max': return num(hi)
            if n in ('min', 'lowest'): return num(lo)
        if s == 'Real' and n in ('max', 'lowest', 'min'):
            return {'max': app('DBL_MAX', (), 'Real'), 'lowest': neg(app('DBL_MAX', (), 'Real')), 'min': app('DBL_MIN', (), 'Real')}[n]
        return NotImplemented

    # ------------------------------------------------------------ strings, streams
    def strjoin(self, ts):
        out = []
        for t in ts:
            if t.op == 'app' and t.args[0] == 'cat':
                out.extend(t.args[1:])
            else:
                out.append(t)
        r = []
        for t in out:
            if t.op == 'const' and t.args[0] == 's:':
                continue
            if r and r[-1].op == 'const' and t.op == 'const':
                r[-1] = strc(r[-1].args[0][2:] + t.args[0][2:])
            else:
                r.append(t)
        if not r:
            return strc('')
        if len(r) == 1:
            return r[0]
        return app('cat', tuple(r), 'Str')

    def tostr(self, v, ty=None):
        if v.sort == 'Str':
            return v
        if v.sort == 'Bool':
            v = ite(v, ONE, ZERO)
        if ty in ('char', 'signed char', 'unsigned char'):
            if is_num(v):
                return strc(chr(numval(v)))
            return app('chr', (v,), 'Str')
        if is_num(v) and v.sort == 'Int':
            return strc(str(numval(v)))
        if v.op == 'ite' and v.sort == 'Int' and is_num(v.args[1]) and is_num(v.args[2]):
            return ite(v.args[0], self.tostr(v.args[1]), self.tostr(v.args[2]))
        return app('to_string' + v.sort[0], (v,), 'Str')

    def put(self, st, ref, v, ty=None):
        e = self.e
        if isinstance(v, Struct) and self.kind(v.ty) == 'complex':
            self.putstr(st, ref, app('to_stringC', (v.f['re'], v.f['im']), 'Str'))
            return
        if not isinstance(v, T):
            raise Undecided('printing %s' % type(v).__name__)
        self.putstr(st, ref, self.tostr(v, ty))

    def manip(self, st, ref, v):
        """a manipulator is a mark in the text: what follows is written in another format"""
        n = getattr(v, 'name', None)
        if not n:
            raise Undecided('stream manipulator')
        if n in ('endl', 'ends'):
            self.putstr(st, ref, strc('\n' if n == 'endl' else '\0'))
        elif n != 'flush':
            self.putstr(st, ref, app('manip.' + n, (), 'Str'))
        return ref

    def putstr(self, st, ref, t):
        e = self.e
        for x in (t.args[1:] if t.op == 'app' and t.args[0] == 'cat' else (t,)):
            if x.op == 'const' and x.args[0] == 's:':
                continue
            s = e.read(st, ref)
            q = s.f['out']
            segs = list(q.segs)
            if segs and segs[-1][0] == 'c' and segs[-1][1] is ONE and segs[-1][3].op == 'const' and x.op == 'const':
                segs[-1] = ('c', ONE, segs[-1][2], strc(segs[-1][3].args[0][2:] + x.args[0][2:]))
            else:
                segs.append(('c', ONE, fresh('u'), x))
            e.write(st, ref, Struct(s.ty, {'out': Seq(segs, 'STR')}))

    def str_method(self, st, n, f, this, args):
        e = self.e
        s = e.read(st, this)
        if n in ('operator=', 'assign') and len(args) == 1:
            e.write(st, this, self.R(st, args[0]))
            return this
        if n in ('operator+=', 'append', 'push_back') and len(args) == 1:
            v = self.tostr(self.R(st, args[0]), f['params'][0]['t'])
            e.write(st, this, self.strjoin([s, v]))
            return None if n == 'push_back' else this
        if n == 'empty':
            return eq(s, strc(''))
        if n == 'c_str':
            return s
        if n in ('begin', 'cbegin', 'end', 'cend'):
            return Iter(this, ZERO if 'begin' in n else self.strlen(s))
        if n in ('size', 'length'):
            if s.op == 'const':
                return num(len(s.args[0]) - 2)
            return self.strlen(s)
        if n in ('operator[]', 'at', 'front', 'back'):
            n_ = self.strlen(s)
            i = {'front': ZERO, 'back': sub(n_, ONE)}.get(n)
            if i is None:
                i = self.R(st, args[0])
            # s[s.size()] is the terminating zero
            lim = le(i, n_) if n == 'operator[]' else lt(i, n_)
            e.oblige(st, 'bounds', 'position within the string', and_(le(ZERO, i), lim), e.cur_line)
            return self.char(st, s, i)
        if n in ('find_first_not_of', 'find_first_of', 'find') and args:
            return self.find_char(st, s, n, [self.R(st, a) for a in args], f)
        if n == 'compare' and len(args) == 1:
            b = self.R(st, args[0])
            return ite(eq(s, b), ZERO, ite(lt(s, b), num(-1), ONE))
        return NotImplemented

    def strlen(self, s):
        if s.op == 'const':
            return num(len(s.args[0]) - 2)
        tm.LENGTHS.add('strlen')
        return app('strlen', (s,), 'Int')

    def char(self, st, s, i):
        if s.op == 'const' and is_num(i):
            t = s.args[0][2:].encode('utf-8') + b'\0'
            if 0 <= numval(i) < len(t):
                c = t[numval(i)]
                return num(c - 256 if c > 127 else c)
        if s.op == 'const':
            raise Undecided('character of a literal')
        if i is self.strlen(s):
            return ZERO
        c = app('char', (s, i), 'Int')
        st.assume(and_(le(num(-128), c), le(c, num(127))))
        st.assume(implies(eq(i, self.strlen(s)), eq(c, ZERO)))
        return c

    def find_char(self, st, s, n, v, f):
        """find_first_of, find_first_not_of and find of a character: the position is given by a function of
        the string and the set of characters, about which the contract of the library is assumed"""
        x = v[0]
        if isinstance(x, T) and x.sort == 'Int' and is_num(x):
            cs = [numval(x)]
        elif isinstance(x, T) and x.op == 'const' and (n != 'find' or len(x.args[0]) == 3) and x.args[0].isascii():
            cs = sorted({ord(c) for c in x.args[0][2:]})
        else:
            raise Undecided('search for unknown characters')
        p = v[1] if len(v) > 1 else ZERO
        neg_ = n == 'find_first_not_of'
        inset = lambda i: (lambda c: (not_ if neg_ else (lambda b: b))(or_(*[eq(c, num(k)) for k in cs])))(app('char', (s, i), 'Int'))
        npos = num((1 << 64) - 1)
        r = app('find' + ('!' if neg_ else '') + ','.join(map(str, cs)), (s, p), 'Int')
        N, b = self.strlen(s), fresh('k')
        st.assume(or_(eq(r, npos), and_(le(p, r), lt(r, N), inset(r))))
        lim = ite(eq(r, npos), N, r)
        st.assume(forall(b, or_(lt(b, p), le(lim, b), not_(inset(b)))))
        return r

    # ------------------------------------------------------------ containers
    def seq_method(self, st, k, n, f, this, args, ex):
        e = self.e
        if not isinstance(this, Ref):
            this = e.alloc(st, this)
        ln = e.cur_line
        if n in ('begin', 'cbegin'):
            return Iter(this, ZERO)
        q = e.read(st, this, log=n not in ('operator[]', 'at', 'front', 'back'))
        if isinstance(q, Struct) and '#0' in q.f:
            this = this.sub(('b', '#0'))
            q = q.f['#0']
        if not isinstance(q, Seq):
            raise Undecided('container is %r' % (q,))
        N = slen(q)
        if n in ('end', 'cend'):
            return Iter(this, N)
        if n in ('rbegin', 'crbegin'):
            return Iter(this, N, True)
        if n in ('rend', 'crend'):
            return Iter(this, ZERO, True)
        if n in ('size',):
            return N
        if n == 'empty':
            return eq(N, ZERO)
        if n in ('operator[]', 'at'):
            i = self.R(st, args[0])
            if not isinstance(i, T):
                raise Undecided('container index')
            e.oblige(st, 'bounds', 'container index', and_(le(ZERO, i), lt(i, N)), ln)
            return this.sub(('i', i))
        if n == 'front':
            e.oblige(st, 'bounds', 'front of a non-empty container', lt(ZERO, N), ln)
            return this.sub(('i', ZERO))
        if n == 'back':
            e.oblige(st, 'bounds', 'back of a non-empty container', lt(ZERO, N), ln)
            return this.sub(('i', sub(N, ONE)))
        if n in ('reserve', 'shrink_to_fit'):
            for a in args: self.R(st, a)
            return None
        if n == 'capacity':
            return N
        if n == 'data':
            return this.sub(('i', ZERO))
        if n == 'clear':
            e.write(st, this, Seq([], q.ety))
            return None
        et = q.ety or e.targ(f['cls'], 0)
        if n in ('push_back',):
            v = self.R(st, args[0])
            e.write(st, this, sconcat(q, lit([v], et)))
            return None
        if n == 'push_front':
            v = self.R(st, args[0])
            e.write(st, this, sconcat(lit([v], et), q))
            return None
        if n == 'emplace_back':
            v = self.emplace(st, et, args, f)
            q = e.read(st, this, log=False)
            e.write(st, this, sconcat(q, lit([v], et)))
            return this.sub(('i', N))
        if n in ('pop_back',):
            e.oblige(st, 'bounds', 'pop_back on a non-empty container', lt(ZERO, N), ln)
            e.write(st, this, sslice(q, ZERO, sub(N, ONE), st.facts))
            return None
        if n == 'pop_front':
            e.oblige(st, 'bounds', 'pop_front on a non-empty container', lt(ZERO, N), ln)
            e.write(st, this, sslice(q, ONE, N, st.facts))
            return None
        if n == 'resize':
            m = self.R(st, args[0])
            el = self.R(st, args[1]) if len(args) > 1 else e.default_value(et, st, zero=True)
            if decide(st.facts, le(N, m)) is True:
                r = Seq(snorm(q.segs + (('c', sub(m, N), fresh('v'), el),)), et)
            elif decide(st.facts, le(m, N)) is True:
                r = sslice(q, ZERO, m, st.facts)
            else:
                v = fresh('v')
                if q.segs:
                    old = sget(q, v, st.facts.add(le(ZERO, v), lt(v, N)))
                    r = Seq([('c', m, v, vite(lt(v, N), old, el))], et)
                else:
                    r = Seq([('c', m, v, el)], et)
            e.write(st, this, r)
            return None
        if n in ('erase', 'insert', 'emplace'):
            pos = self.R(st, args[0])
            if not isinstance(pos, Iter) or pos.rev:
                raise Undecided('container position')
            i = pos.idx
            if n == 'erase':
                if len(args) > 1:
                    j = self.R(st, args[1]).idx
                else:
                    j = add(i, ONE)
                e.oblige(st, 'bounds', 'erased range is valid', and_(le(ZERO, i), le(i, j), le(j, N)), ln)
                if st.dead: return pos
                e.write(st, this, sconcat(sslice(q, ZERO, i, st.facts), sslice(q, j, N, st.facts)))
                return Iter(this, i)
            e.oblige(st, 'bounds', 'insert position is valid', and_(le(ZERO, i), le(i, N)), ln)
            if st.dead: return pos
            if n == 'emplace':
                new = lit([self.emplace(st, et, args[1:], f)], et)
            else:
                v = [self.R(st, a) for a in args[1:]]
                if len(v) == 1:
                    new = v[0] if isinstance(v[0], Seq) and not (isinstance(et, str) and self.kind(et) in SEQS) else lit([v[0]], et)
                elif isinstance(v[0], Iter):
                    self.self_append(st, this, v, ln)
                    if st.dead: return pos
                    new = self.slice_of(st, v[0], v[1])
                else:
                    new = Seq([('c', v[0], fresh('v'), v[1])], et)
            e.write(st, this, sconcat(sconcat(sslice(q, ZERO, i, st.facts), new), sslice(q, i, N, st.facts)))
            return Iter(this, i)
        if n == 'assign':
            v = [self.R(st, a) for a in args]
            if len(v) == 1:
                e.write(st, this, Seq(v[0].segs, et))
            elif isinstance(v[0], Iter):
                e.write(st, this, Seq(self.slice_of(st, v[0], v[1]).segs, et))
            else:
                e.write(st, this, Seq(snorm((('c', v[0], fresh('v'), v[1]),)), et))
            return None
        if n == 'fill':
            v = self.R(st, args[0])
            e.write(st, this, Seq(snorm((('c', N, fresh('v'), v),)), et))
            return None
        if n == 'sort':
            cmp = self.R(st, args[0]) if args else None
            e.write(st, this, self.sorted(st, q, cmp))
            return None
        if n == 'swap':
            o = self.L(st, args[0])
            b = e.read(st, o)
            e.write(st, this, b)
            e.write(st, o, q)
            return None
        if n == 'operator=':
            v = self.R(st, args[0])
            e.write(st, this, Seq(v.segs, et))
            return this
        if n == 'get_allocator':
            return Opaque('allocator')
        return NotImplemented

    def emplace(self, st, et, args, f):
        e = self.e
        if e.sort(et):
            v = self.R(st, args[0]) if args else e.default_value(et, st, zero=True)
            if v.sort != e.sort(et):
                v = e.cvt(st, v, None, et) if e.sort(et) != 'Real' else toreal(v)
            return v
        if len(args) == 1:
            v = self.R(st, args[0])
            if isinstance(v, Struct) and v.ty == et:
                return v
            if self.kind(et) in SEQS and isinstance(v, Seq):
                return v
            args = [v] if not isinstance(args[0], dict) else args
            pre = [v]
        else:
            pre = None
        if not args:
            return e.default_value(et, st)
        if self.kind(et) in ('complex', 'tuple', 'pair') or self.kind(et) in SEQS:
            vals = pre or [self.R(st, a) for a in args]
            return self.construct(st, et, {'params': [{'t': ''} for _ in vals]}, vals, None)
        refs = pre or [self.L(st, a) for a in args]
        refs = [r if isinstance(r, Ref) else e.alloc(st, r) for r in refs]
        # inheriting containers: a constructor of the base class taking the same arguments
        best = None
        for c in e.ti(et).get('ctors') or []:
            if len(c['params']) == len(args):
                s = self.match(st, c, refs)
                if s is not None and (best is None or s > best[0]):
                    best = (s, c)
        if best:
            return e.construct(st, best[1], refs, et)
        bases = e.ti(et).get('bases') or []
        fields = e.fields(et)
        if len(bases) == 1 and self.kind(bases[0]) in SEQS and not e.ti(et).get('fields'):
            vals = [e.read(st, r) for r in refs]
            return Struct(et, {'#0': self.construct(st, bases[0], {'params': [{'t': ''} for _ in vals]}, vals, None)})
        raise Undecided('constructor of %s for emplace' % et)

    def match(self, st, c, refs):
        e = self.e
        s = 0
        for p, r in zip(c['params'], refs):
            v = e.read(st, r, log=False)
            srt = e.sort(p['t'])
            if isinstance(v, T):
                if srt is None:
                    return None
                if srt == v.sort:
                    s += 2
                elif srt == 'Str' or v.sort == 'Str':
                    return None
                else:
                    s += 1
            elif isinstance(v, Struct):
                if p['t'] != v.ty:
                    return None
                s += 2
            elif isinstance(v, Seq):
                if self.kind(p['t']) not in SEQS:
                    return None
                s += 1
            else:
                s += 0
        return s

    # ------------------------------------------------------------ sorting
    def sorted(self, st, q, cmp):
        e = self.e
        n = slen(q)
        if is_num(n) and numval(n) <= 1 and all(s[0] == 'c' for s in q.segs):
            return q
        few = self.listed(q)
        if few is not None and 1 < len(few) <= 24 and (e.idx or len(few) > 6):
            return self.sort_few(st, q, cmp, few, n)
        if is_num(n) and numval(n) <= 6:
            return self.sort_net(st, q, cmp, numval(n))
        pid = e.wname('perm')
        name = 'perm:' + pid
        if e.idx:
            pid = (pid,) + tuple(e.idx)
        from .interp import Obligation
        # precondition: the comparison is a strict weak order on the elements
        self.check_order(st, q, cmp)
        res = Seq([('p', pid, q.segs)], q.ety)
        i, j = fresh('i'), fresh('j')
        g = and_(le(ZERO, i), lt(i, n))
        pi = perm_index(pid, i)
        st.assume(tm.forall_raw(i, implies(g, le(ZERO, pi))))
        st.assume(tm.forall_raw(i, implies(g, lt(pi, n))))
        tm.PERMS[name] = (tuple(e.idx), n)
        pj = perm_index(pid, j)
        gj = and_(le(ZERO, j), lt(j, n))
        st.assume(forall([i, j], implies(and_(g, gj, ne(i, j)), ne(pi, pj))))
        if is_pure(q):
            s = st.copy()
            rngc = and_(le(ZERO, i), lt(i, j), lt(j, n))
            s.assume(rngc)
            if not s.dead:
                a, b = sget(q, pi, s.facts), sget(q, pj, s.facts)
                c = self.cmpv(s, cmp, b, a)
                st.assume(forall([i, j], implies(rngc, not_(c))))
        return res

    def listed(self, q):
        """[(condition, element)] of a list given element by element"""
        out = []

        def go(segs, c):
            for s in segs:
                if s[0] == 'c' and is_num(s[1]) and numval(s[1]) <= 8:
                    out.extend((c, vsubst(s[3], {s[2]: num(j)})) for j in range(numval(s[1])))
                elif s[0] == 'g':
                    if not go(s[2], and_(c, s[1])):
                        return False
                else:
                    return False
            return True
        return out if go(q.segs, TRUE) else None

    def sort_few(self, st, q, cmp, elems, n):
        """sorting a list given element by element: an arbitrary ordered list with the same elements
        (sums over it are sums over the given elements)"""
        e = self.e
        self.check_order(st, q, cmp)
        name = e.wname('sorted')
        ix = tuple(e.idx)
        v = fresh('v')
        sym = e.shape_sym(elems[0][1], name, ix + (v,))
        leaves = terms_of(sym)
        if any(x.op != 'app' for x in leaves):
            raise Undecided('sorting elements of this kind')
        rows = []
        for c, x in elems:
            ts = terms_of(x)
            if len(ts) != len(leaves):
                raise Undecided('sorting elements of different shapes')
            rows.append((c, {l.args[0]: t for l, t in zip(leaves, ts)}))
        for l in leaves:
            tm.SORTED[l.args[0]] = name
        tm.GROUPS[name] = (ix, n, rows)
        rng = lambda i: and_(le(ZERO, i), lt(i, n))
        i, j = fresh('i'), fresh('j')
        at = lambda k: vsubst(sym, {v: k})
        # every element is one of those given
        st.assume(tm.forall_raw(i, implies(rng(i), or_(*[and_(c, *[eq(app(l.args[0], ix + (i,), l.sort), r[l.args[0]]) for l in leaves]) for c, r in rows]))))
        g = and_(le(ZERO, i), lt(i, j), lt(j, n))
        s = st.copy()
        s.assume(g)
        if not s.dead:
            strict = not e.quiet
            if strict:
                for a in range(len(elems)):
                    for b in range(a):
                        t = st.copy()
                        t.assume(and_(elems[a][0], elems[b][0]))
                        if t.dead:
                            continue
                        d = or_(self.cmpv(t, cmp, elems[a][1], elems[b][1]), self.cmpv(t, cmp, elems[b][1], elems[a][1]))
                        if d is TRUE:
                            continue
                        if d is FALSE or e.prove_quick(t.facts, d) is not True:
                            strict = False
                            break
                    if not strict:
                        break
            c = self.cmpv(s, cmp, at(j), at(i)) if not strict else not_(self.cmpv(s, cmp, at(i), at(j)))
            st.assume(forall([j, i], implies(g, not_(c))))
        return Seq([('c', n, v, sym)], q.ety)

    def sort_net(self, st, q, cmp, n):
        """sorting a literal sequence: insertion sort as nested conditionals"""
        self.check_order(st, q, cmp)
        el = [sget(q, num(i), st.facts) for i in range(n)]
        # stable bubble network
        for i in range(n):
            for j in range(n - 1 - i):
                c = self.cmpv(st, cmp, el[j + 1], el[j])
                a, b = vite(c, el[j + 1], el[j]), vite(c, el[j], el[j + 1])
                el[j], el[j + 1] = a, b
        return lit(el, q.ety)

    def check_order(self, st, q, cmp):
        e = self.e
        if cmp is None or e.quiet:
            return
        ctr = e.ctx[1]
        try:
            base = e.some_elem(q)
            xs = [e.shape_sym(base, e.wname('ord'), (), None) for _ in range(3)]
        except Undecided:
            return
        finally:
            e.ctx[1] = ctr      # the names of later values do not depend on this check
        s = st.copy()
        s.facts = NOFACTS
        a, b, c = xs
        try:
            f = lambda x, y: self.cmpv(s, cmp, x, y)
            ab, ba, bc, ac, aa = f(a, b), f(b, a), f(b, c), f(a, c), f(a, a)
            cb, ca = f(c, b), f(c, a)
        except Undecided:
            return
        inc = lambda x, y: and_(not_(x), not_(y))
        old = st.facts
        t = st.copy()
        t.facts = NOFACTS
        e.oblige(t, 'order', 'comparison passed to sort is irreflexive', not_(aa), e.cur_line)
        e.oblige(t, 'order', 'comparison passed to sort is asymmetric', not_(and_(ab, ba)), e.cur_line)
        e.oblige(t, 'order', 'comparison passed to sort is transitive', implies(and_(ab, bc), ac), e.cur_line)
        e.oblige(t, 'order', 'incomparability under the comparison passed to sort is transitive',
                 implies(and_(inc(ab, ba), inc(bc, cb)), inc(ac, ca)), e.cur_line)

    # ------------------------------------------------------------ iterator operators
    def iter_op(self, st, n, args, ex, f):
        e = self.e
        a = args[0]
        if n in ('operator++', 'operator--'):
            r = self.L(st, a)
            v = e.read(st, r)
            d = ONE if n == 'operator++' else num(-1)
            e.write(st, r, self.adv(v, d))
            return v if len(args) > 1 else r
        if n in ('operator+=', 'operator-='):
            r = self.L(st, a)
            v = e.read(st, r)
            d = self.R(st, args[1])
            e.write(st, r, self.adv(v, d if n == 'operator+=' else neg(d)))
            return r
        x = self.R(st, a)
        if n in ('operator*', 'operator->'):
            if len(args) == 1:
                if n == 'operator->':
                    return self.deref(st, x)
                return self.deref(st, x)
        if n == 'base':
            if x.rev:
                return Iter(x.ref, x.idx)
            return x
        y = self.R(st, args[1])
        if n == 'operator[]':
            return self.deref(st, self.adv(x, y))
        if n == 'operator+':
            if isinstance(x, T): x, y = y, x
            return self.adv(x, y)
        if n == 'operator-':
            if isinstance(y, Iter): return self.diff(x, y)
            return self.adv(x, neg(y))
        if n in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            return e.compare(n[8:], x, y)
        return NotImplemented

    # ------------------------------------------------------------ free functions
    def free(self, st, n, f, args, ex):
        e = self.e
        R = lambda i: self.R(st, args[i])
        L = lambda i: self.L(st, args[i])
        if n in ('operator""i', 'operator""if', 'operator""il'):
            return Struct(f['rt'], {'re': RZERO, 'im': toreal(R(0))})
        if n.startswith('operator'):
            return self.free_op(st, n, f, args, ex)
        if n in ('move', 'forward', 'ref', 'cref', 'as_const') and len(args) == 1:
            if n in ('ref', 'cref'):
                return Struct(f['rt'], {'p': L(0)})
            return L(0)
        if n in ('pi', 'half_pi', 'two_pi', 'third_pi'):
            c = {'pi': 1, 'half_pi': Fraction(1, 2), 'two_pi': 2, 'third_pi': Fraction(1, 3)}[n]
            return mul(num(c, 'Real'), PI)
        if n == 'getline' and len(args) == 2:
            r = L(0)
            q = e.read(st, r)
            if not (isinstance(q, Struct) and 'lines' in q.f):
                raise Undecided('input stream of unknown contents')
            got = and_(not_(q.f['fail']), lt(q.f['pos'], slen(q.f['lines'])))
            old = e.read(st, L(1))
            line = sget(q.f['lines'], q.f['pos'], st.facts) if got is not FALSE and q.f['lines'].segs else strc('')
            # without another line the string is left as it is or emptied
            e.write(st, L(1), ite(got, line, ite(app(e.wname('kept'), tuple(e.idx), 'Bool'), old, strc(''))))
            e.write(st, r.sub(('f', 'pos')), ite(got, add(q.f['pos'], ONE), q.f['pos']))
            e.write(st, r.sub(('f', 'fail')), not_(got))
            return r
        if n == 'isspace' and len(args) == 1:
            c = R(0)
            return ite(or_(eq(c, num(32)), and_(le(num(9), c), le(c, num(13)))), ONE, ZERO)
        if n == '__assert_fail':
            e.oblige(st, 'assertion', 'assert', FALSE, e.cur_line)
            st.dead = True
            return None
        if n == 'omp_get_thread_num':
            if not e.omp:
                return ZERO
            k = e.omp[-1]
            t = e.thr(k)
            st.assume(and_(le(ZERO, t), lt(t, self.nthreads(st))))
            return t
        if n == 'omp_get_max_threads':
            return self.nthreads(st)
        if n == 'omp_get_num_threads':
            if not e.omp:
                return ONE
            t = app('team', (num(e.omp_epoch), num(e.omp_line)), 'Int')         # no contract beyond this; thr(k) < team size <= maximum
            st.assume(and_(le(ONE, t), le(t, self.nthreads(st)), lt(e.thr(e.omp[-1]), t)))
            return t
        if n in ('omp_get_num_procs', 'omp_get_thread_limit'):
            t = var(n[8:], 'Int')                    # unrelated to the number of threads
            st.assume(and_(le(ONE, t), le(t, num(1 << 20))))
            return t
        if n in ('cos', 'sin', 'tan', 'exp', 'sqrt', 'log'):
            x = R(0)
            if not isinstance(x, T):
                return NotImplemented
            x = toreal(x)
            if n == 'sqrt':
                e.oblige(st, 'domain', 'argument of sqrt is not negative', le(RZERO, x), e.cur_line)
            return app_s(n, (x,), 'Real')
        if n in ('round', 'floor', 'ceil', 'trunc', 'lround', 'llround', 'rint', 'nearbyint'):
            x = toreal(R(0))
            if n == 'round': return self.rnd(st, roundr(x))
            if n in ('lround', 'llround'): return tm.as_int(roundr(x))
            if n == 'floor': return floorr(x)
            if n == 'ceil': return neg(floorr(neg(x)))
            if n == 'trunc': return toreal(toint(x))
            return NotImplemented
        if n in ('abs', 'fabs', 'labs', 'llabs'):
            x = R(0)
            if isinstance(x, Struct):
                return app_s('sqrt', (add(mul(x.f['re'], x.f['re']), mul(x.f['im'], x.f['im'])),), 'Real')
            d = decide(st.facts, le(num(0, x.sort), x))
            if d is True: return x
            if d is False: return neg(x)
            return ite(le(num(0, x.sort), x), x, neg(x))
        if n == 'fmod':
            a, b = toreal(R(0)), toreal(R(1))
            e.oblige(st, 'division', 'divisor of fmod is not zero', ne(b, RZERO), e.cur_line)
            return sub(a, mul(b, toreal(toint(rdiv(a, b)))))
        if n in ('pow',):
            a, b = R(0), R(1)
            if is_num(b) and numval(b) == int(numval(b)) and 0 <= numval(b) <= 6:
                r = RONE
                for _ in range(int(numval(b))):
                    r = mul(r, toreal(a))
                return r
            return NotImplemented
        if n == 'norm':
            x = R(0)
            if isinstance(x, T): return mul(toreal(x), toreal(x))
            return add(mul(x.f['re'], x.f['re']), mul(x.f['im'], x.f['im']))
        if n == 'conj':
            x = R(0)
            if isinstance(x, T):
                return Struct(f['rt'], {'re': toreal(x), 'im': RZERO}) if e.ti(f['rt'])['k'] == 'rec' else x
            return Struct(x.ty, {'re': x.f['re'], 'im': neg(x.f['im'])})
        if n == 'real':
            x = R(0)
            return toreal(x) if isinstance(x, T) else x.f['re']
        if n == 'imag':
            x = R(0)
            return RZERO if isinstance(x, T) else x.f['im']
        if n == 'polar':
            r, t = toreal(R(0)), toreal(R(1)) if len(args) > 1 else RZERO
            return Struct(f['rt'], {'re': mul(r, app_s('cos', (t,), 'Real')), 'im': mul(r, app_s('sin', (t,), 'Real'))})
        if n in ('min', 'max') and len(args) in (2, 3):
            a, b = R(0), R(1)
            cmp = R(2) if len(args) == 3 else None
            c = self.cmpv(st, cmp, b, a) if n == 'min' else self.cmpv(st, cmp, a, b)
            d = decide(st.facts, c)
            if d is not None: return b if d else a
            return vite(c, b, a)
        if n == 'minmax' and len(args) == 2:
            a, b = R(0), R(1)
            c = self.cmpv(st, None, b, a)
            return Struct(f['rt'], {'first': vite(c, b, a), 'second': vite(c, a, b)})
        if n == 'swap':
            a, b = L(0), L(1)
            x, y = e.read(st, a), e.read(st, b)
            e.write(st, a, y)
            e.write(st, b, x)
            return None
        if n == 'exchange':
            a = L(0)
            x = e.read(st, a)
            e.write(st, a, R(1))
            return x
        if n == 'make_tuple' or n == 'tie' or n == 'forward_as_tuple':
            # the values (a tuple of references is only read here: operator= on it
            # is not modelled)
            return Struct(f['rt'], {str(i): R(i) for i in range(len(args))})
        if n == 'make_pair':
            return Struct(f['rt'], {'first': R(0), 'second': R(1)})
        if n == 'get' and f.get('targs'):
            i = int(f['targs'][0]['i'])
            r = L(0)
            v = e.read(st, r, log=False)
            if isinstance(v, Seq):
                return r.sub(('i', num(i)))
            if self.kind(v.ty) == 'pair':
                return r.sub(('f', ('first', 'second')[i]))
            return r.sub(('f', str(i)))
        if n == 'to_string':
            return self.tostr(R(0))
        if n in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend', 'size', 'empty', 'data', 'crbegin', 'crend') and len(args) == 1:
            return self.seq_method(st, 'vector', n, {'cls': ''}, L(0), [], ex)
        if n in ('next', 'prev'):
            it = R(0)
            d = R(1) if len(args) > 1 else ONE
            return self.adv(it, d if n == 'next' else neg(d))
        if n == 'advance':
            r = L(0)
            e.write(st, r, self.adv(e.read(st, r), R(1)))
            return None
        if n == 'distance':
            return self.diff(R(1), R(0))
        if n == 'back_inserter':
            return BackIns(L(0))
        if n in ('setprecision', 'setw', 'setfill'):
            return app('manip.' + n, (R(0),), 'Str')
        if n in ('isfinite',):
            return TRUE
        if n in ('isnan', 'isinf'):
            return FALSE
        if n in ('strtoul', 'getenv', 'atoi', 'stoi'):
            return NotImplemented
        return self.algorithm(st, n, f, args, ex)

    def rnd(self, st, r):
        """facts about std::round of a real"""
        for x in tm.subterms(r):
            if x.op == 'round' and not any(v.args[0].startswith('$') for v in x.fv):
                a = x.args[0]
                y = toreal(x)
                h = num(Fraction(1, 2), 'Real')
                st.assume(le(y, add(a, h)))
                st.assume(le(sub(a, h), y))
        return r

    def nthreads(self, st):
        t = app('omp_max_threads', (num(self.e.omp_epoch),), 'Int')
        st.assume(and_(le(ONE, t), le(t, num(1 << 20))))
        return t

    def self_append(self, st, ref, its, line):
        """iterators into the container that is appended to do not stay valid"""
        def base(r):
            p = r.path
            while p and p[-1] == ('b', '#0'):
                p = p[:-1]
            return r.root, p
        if any(isinstance(i, Iter) and base(i.ref) == base(ref) for i in its):
            self.e.oblige(st, 'bounds', 'iterators into the source stay valid while it is appended to', FALSE, line)

    def algorithm(self, st, n, f, args, ex):
        e = self.e
        R = lambda i: self.R(st, args[i])
        L = lambda i: self.L(st, args[i])
        if args and n in ('copy', 'copy_n', 'move', 'reverse_copy', 'transform', 'copy_if', 'remove_copy', 'remove_copy_if', 'unique_copy', 'copy_backward'):
            v = [R(i) for i in range(len(args))]
            for o in v:
                if isinstance(o, BackIns):
                    self.self_append(st, o.ref, v, e.cur_line)
            if st.dead:
                return v[-1]
            R = lambda i: v[i]
        if n in ('copy', 'move', 'copy_n', 'reverse_copy'):
            a, b, out = R(0), R(1), R(2)
            if n == 'copy_n':
                b = self.adv(a, b)
            s = self.slice_of(st, a, b)
            if n == 'reverse_copy':
                s = srev(s, st.facts)
            return self.output(st, s, out)
        if n == 'transform':
            a, b = R(0), R(1)
            s = self.slice_of(st, a, b)
            if len(args) == 4:
                out, fn = R(2), R(3)
                r = self.mapseq(st, s, lambda stt, x: self.purefn(stt, fn, [x]))
                return self.output(st, r, out)
            c, out, fn = R(2), R(3), R(4)
            s2 = self.slice_of(st, c, self.adv(c, slen(s)))
            v = fresh('v')
            stt = st.copy()
            stt.assume(and_(le(ZERO, v), lt(v, slen(s))))
            el = self.purefn(stt, fn, [sget(s, v, stt.facts), sget(s2, v, stt.facts)])
            return self.output(st, Seq([('c', slen(s), v, el)], None), out)
        if n in ('fill', 'fill_n'):
            a, b, v = R(0), R(1), R(2)
            if n == 'fill_n':
                b = self.adv(a, b)
            ref, lo, hi, rev = self.rng(a, b)
            self.overwrite(st, ref, lo, Seq(snorm((('c', sub(hi, lo), fresh('v'), v),)), None))
            return None
        if n == 'iota':
            a, b, v = R(0), R(1), R(2)
            ref, lo, hi, rev = self.rng(a, b)
            u = fresh('v')
            self.overwrite(st, ref, lo, Seq(snorm((('c', sub(hi, lo), u, add(v, u if v.sort == 'Int' else toreal(u))),)), None))
            return None
        if n == 'reverse':
            a, b = R(0), R(1)
            ref, lo, hi, rev = self.rng(a, b)
            s = self.slice_of(st, a, b)
            self.overwrite(st, ref, lo, srev(s, st.facts))
            return None
        if n == 'sort' or n == 'stable_sort':
            a, b = R(0), R(1)
            cmp = R(2) if len(args) > 2 else None
            ref, lo, hi, rev = self.rng(a, b)
            s = self.slice_of(st, a, b)
            r = self.sorted(st, s, cmp)
            q = e.read(st, ref)
            if decide(st.facts, and_(eq(lo, ZERO), eq(hi, slen(q)))) is True:
                e.write(st, ref, r)
            else:
                self.overwrite(st, ref, lo, r)
            return None
        if n == 'equal':
            a, b, c = R(0), R(1), R(2)
            s = self.slice_of(st, a, b)
            pred = None
            m = slen(s)
            extra = TRUE
            rest = args[3:]
            if rest:
                x = R(3)
                if isinstance(x, Iter):
                    s2 = self.slice_of(st, c, x)
                    extra = eq(m, slen(s2))
                    if len(rest) > 1: pred = R(4)
                else:
                    pred = x
                    s2 = self.slice_of(st, c, self.adv(c, m))
            else:
                s2 = self.slice_of(st, c, self.adv(c, m))
            if extra is FALSE:
                return FALSE
            return and_(extra, self.all_pairs(st, s, s2, m, extra, pred))
        if n in ('find', 'find_if', 'find_if_not'):
            a, b = R(0), R(1)
            x = R(2)
            ref, lo, hi, rev = self.rng(a, b)
            if rev: return NotImplemented
            q = e.read(st, ref)
            e.oblige(st, 'bounds', 'valid iterator range', and_(le(ZERO, lo), le(lo, hi), le(hi, slen(q))), e.cur_line)

            def p(stt, el):
                if n == 'find': return self.eqv(stt, el, x)
                r = self.purefn(stt, x, [el])
                return r if n == 'find_if' else not_(r)
            return Iter(ref, self.first(st, q, lo, hi, p))
        if n in ('any_of', 'all_of', 'none_of', 'count_if', 'count'):
            s = self.slice_of(st, R(0), R(1))
            x = R(2)
            if not s.segs:
                return {'any_of': FALSE, 'all_of': TRUE, 'none_of': TRUE}.get(n, ZERO)
            i = fresh('e')
            stt = st.copy()
            g = and_(le(ZERO, i), lt(i, slen(s)))
            stt.assume(g)
            el = sget(s, i, stt.facts)
            c = self.eqv(stt, el, x) if n == 'count' else self.purefn(stt, x, [el])
            if n == 'any_of': return exists(i, and_(g, c))
            if n == 'all_of': return forall(i, implies(g, c))
            if n == 'none_of': return forall(i, implies(g, not_(c)))
            return mk_sum(i, ZERO, slen(s), ite(c, ONE, ZERO))
        if n in ('lower_bound', 'upper_bound'):
            a, b, x = R(0), R(1), R(2)
            cmp = R(3) if len(args) > 3 else None
            ref, lo, hi, rev = self.rng(a, b)
            if rev: return NotImplemented
            q = e.read(st, ref)
            if n == 'lower_bound':
                below = lambda stt, el: self.cmpv(stt, cmp, el, x)
            else:
                below = lambda stt, el: not_(self.cmpv(stt, cmp, x, el))
            i = fresh('i')
            if q.segs:
                # precondition: partitioned
                j = fresh('j')
                stt = st.copy()
                g = and_(le(lo, i), lt(i, j), lt(j, hi))
                stt.assume(g)
                if not stt.dead:
                    bj, bi = below(stt, sget(q, j, stt.facts)), below(stt, sget(q, i, stt.facts))
                    e.oblige(st, 'precondition', 'range passed to %s is partitioned' % n, forall([i, j], implies(and_(g, bj), bi)), e.cur_line)
            w = self.first(st, q, lo, hi, lambda stt, el: not_(below(stt, el)))
            if q.segs:
                stt = st.copy()
                g = and_(le(w, i), lt(i, hi))
                stt.assume(g)
                if not stt.dead:
                    st.assume(forall(i, implies(g, not_(below(stt, sget(q, i, stt.facts))))))
            return Iter(ref, w)
        if n == 'accumulate':
            s = self.slice_of(st, R(0), R(1))
            init = R(2)
            fn = R(3) if len(args) > 3 else None
            return self.fold(st, s, init, fn)
        if n == 'inner_product' and len(args) == 4:
            a, b, c = R(0), R(1), R(2)
            s = self.slice_of(st, a, b)
            s2 = self.slice_of(st, c, self.adv(c, slen(s)))
            init = R(3)
            v = fresh('v')
            stt = st.copy()
            stt.assume(and_(le(ZERO, v), lt(v, slen(s))))
            if stt.dead or not s.segs: return init
            el = self.cplx('*', sget(s, v, stt.facts), sget(s2, v, stt.facts))
            return self.fold(st, Seq([('c', slen(s), v, el)], None), init, None)
        if n == 'for_each':
            a, b, fn = R(0), R(1), R(2)
            return NotImplemented
        if n in ('min_element', 'max_element'):
            return NotImplemented
        return NotImplemented

    def fold(self, st, s, init, fn):
        e = self.e
        if not s.segs:
            return init
        N = slen(s)
        if fn is not None and not (isinstance(fn, Struct) and self.kind(fn.ty or '') and 'plus' in self.kind(fn.ty)):
            if is_num(N) and numval(N) <= 64:
                acc = init
                for i in range(numval(N)):
                    acc = self.purefn(st, fn, [acc, sget(s, num(i), st.facts)])
                return acc
            # acc' = acc + g(element)
            ph = e.shape_sym(init, e.wname('acc'), (), None)
            v = fresh('v')
            stt = st.copy()
            stt.assume(and_(le(ZERO, v), lt(v, N)))
            r = self.purefn(stt, fn, [ph, sget(s, v, stt.facts)])
            pv = set(t for t in terms_of(ph))

            def rec(p, x, i0):
                if isinstance(p, Struct):
                    return Struct(p.ty, {k: rec(p.f[k], x.f[k], i0.f[k]) for k in p.f})
                g = sub(x, p)
                if g.fv & pv:
                    raise Undecided('fold with a non-additive operation')
                return add(i0, mk_sum(v, ZERO, N, g))
            return rec(ph, r, init)
        zero = vmap(init, lambda t: num(0, t.sort))
        if isinstance(init, T):
            srt = init.sort
            total = ssum(s, lambda el: toreal(el) if srt == 'Real' and isinstance(el, T) else el, zero)
            if isinstance(total, Struct):
                raise Undecided('sum of complex numbers into a real number')
            return add(init, total)

        def conv(el):
            if isinstance(el, T) and isinstance(init, Struct):
                return Struct(init.ty, {'re': toreal(el), 'im': RZERO})
            return el
        return self.cplx('+', init, ssum(s, conv, zero))

    def purefn(self, st, fn, vals):
        s = st.copy()
        r = self.e.call_value(s, fn, vals)
        if isinstance(r, Ref):
            r = self.e.read(s, r)
        return r

    def mapseq(self, st, s, fn):
        def go(segs, stt):
            out = []
            for g in segs:
                if g[0] == 'c':
                    s2 = stt.copy()
                    s2.assume(and_(le(ZERO, g[2]), lt(g[2], g[1])))
                    out.append(('c', g[1], g[2], fn(s2, g[3])))
                elif g[0] == 'g':
                    s2 = stt.copy()
                    s2.assume(g[1])
                    out.append(('g', g[1], go(g[2], s2)))
                elif g[0] == 'f':
                    s2 = stt.copy()
                    s2.assume(and_(le(ZERO, g[2]), lt(g[2], g[1])))
                    out.append(('f', g[1], g[2], go(g[3], s2)))
                else:
                    out.append(('p', g[1], go(g[2], stt)))
            return tuple(out)
        return Seq(go(s.segs, st), None)

    def output(self, st, s, out):
        e = self.e
        if isinstance(out, BackIns):
            q = e.read(st, out.ref)
            r = out.ref
            if isinstance(q, Struct) and '#0' in q.f:
                r = r.sub(('b', '#0'))
                q = q.f['#0']
            e.write(st, r, Seq(sconcat(q, s).segs, q.ety))
            return out
        if isinstance(out, OStreamIter):
            self.print_seq(st, s, out)
            return out
        if isinstance(out, Iter) and not out.rev:
            self.overwrite(st, out.ref, out.idx, s)
            return self.adv(out, slen(s))
        raise Undecided('output iterator')

    def print_seq(self, st, s, out):
        e = self.e
        n = slen(s)
        if is_num(n):
            for i in range(numval(n)):
                self.print_el(st, out.ref, sget(s, num(i), st.facts))
                self.putstr(st, out.ref, out.sep)
            return
        v = fresh('v')
        stt = st.copy()
        stt.assume(and_(le(ZERO, v), lt(v, n)))
        o = e.read(st, out.ref)
        tmp = e.alloc(stt, Struct(o.ty, {'out': Seq([], 'STR')}))
        self.print_el(stt, tmp, sget(s, v, stt.facts))
        self.putstr(stt, tmp, out.sep)
        q = e.read(stt, tmp).f['out']
        e.write(st, out.ref, Struct(o.ty, {'out': Seq(snorm(o.f['out'].segs + (('f', n, v, q.segs),)), 'STR')}))

    def print_el(self, st, ref, v):
        e = self.e
        if isinstance(v, T) or (isinstance(v, Struct) and self.kind(v.ty) == 'complex'):
            return self.put(st, ref, v)
        if isinstance(v, Struct):
            for o in e.ops:
                if o['n'] == 'operator<<' and len(o['params']) == 2 and o['params'][1]['t'] == v.ty:
                    e.call(st, o, None, [ref, v])
                    return
        raise Undecided('printing an element')

    def first(self, st, q, lo, hi, p):
        """smallest index in [lo,hi) whose element satisfies p, else hi"""
        e = self.e
        if not q.segs:
            return lo
        if is_num(lo) and is_num(hi) and numval(hi) - numval(lo) <= 24:
            r = hi
            for i in reversed(range(numval(lo), numval(hi))):
                c = p(st, sget(q, num(i), st.facts))
                r = ite(c, num(i), r)
            return r
        w = e.witness('pos')
        before = st.facts
        st.assume(le(lo, w))
        st.assume(le(w, hi))
        s = st.copy()
        s.assume(lt(w, hi))
        if not s.dead:
            st.assume(implies(lt(w, hi), p(s, sget(q, w, s.facts))))
        i = fresh('i')
        g = and_(le(lo, i), lt(i, w))
        s = st.copy()
        s.assume(g)
        if not s.dead:
            st.assume(forall(i, implies(g, not_(p(s, sget(q, i, s.facts))))))
        # whether it is found may follow from quantified facts
        if any(f.op in ('forall', 'or') and any(x.op == 'forall' for x in subterms(f)) for f in before.list()):
            for c in (lt(w, hi), eq(w, hi)):
                if prove(st.facts, c, 0.6, deep=False).status == 'yes':
                    st.assume(c)
                    return w if c.op != 'eq0' else hi
        return w

    def all_pairs(self, st, s, s2, m, extra, pred):
        if not s.segs or not s2.segs:
            return TRUE
        cmp = (lambda stt, a, b: self.eqv(stt, a, b)) if pred is None else (lambda stt, a, b: self.purefn(stt, pred, [a, b]))
        if is_num(m) and numval(m) <= 16:
            r = TRUE
            for i in range(numval(m)):
                r = and_(r, cmp(st, sget(s, num(i), st.facts), sget(s2, num(i), st.facts)))
            return r
        i = fresh('e')
        stt = st.copy()
        g = and_(le(ZERO, i), lt(i, m))
        stt.assume(and_(g, extra))
        if stt.dead:
            return TRUE
        c = cmp(stt, sget(s, i, stt.facts), sget(s2, i, stt.facts))
        return forall(i, implies(g, c))

    # ------------------------------------------------------------ free operators
    def free_op(self, st, n, f, args, ex):
        e = self.e
        if n == 'operator<<' or n == 'operator>>':
            if n == 'operator>>': return NotImplemented
            r = self.L(st, args[0])
            v = self.R(st, args[1])
            if isinstance(v, Closure):
                return self.manip(st, r, v)
            if isinstance(v, Opaque):
                return r
            self.put(st, r, v, f['params'][1]['t'] if len(f['params']) > 1 else None)
            return r
        a = self.R(st, args[0])
        b = self.R(st, args[1]) if len(args) > 1 else None
        if isinstance(a, Iter) or isinstance(b, Iter):
            return self.iter_op(st, n, [a, b] if b is not None else [a], ex, f)
        op = n[8:]
        if op == '==': return self.eqv(st, self.lift2(a, b)[0], self.lift2(a, b)[1])
        if op == '!=': return not_(self.eqv(st, self.lift2(a, b)[0], self.lift2(a, b)[1]))
        if op in ('<', '>', '<=', '>='):
            if op == '<': return self.lessv(st, a, b)
            if op == '>': return self.lessv(st, b, a)
            if op == '<=': return not_(self.lessv(st, b, a))
            return not_(self.lessv(st, a, b))
        isz = lambda x: isinstance(x, Struct) and self.kind(x.ty) == 'complex'
        if isz(a) or isz(b):
            if b is None:
                if op == '-': return Struct(a.ty, {'re': neg(a.f['re']), 'im': neg(a.f['im'])})
                if op == '+': return a
            if op in '+-*/':
                if op == '/': self.nonzero(st, b)
                return self.cplx(op, a, b)
        if op == '+' and isinstance(a, T) and isinstance(b, T) and (a.sort == 'Str' or b.sort == 'Str'):
            ps = f['params']
            return self.strjoin([self.tostr(a, ps[0]['t']), self.tostr(b, ps[1]['t'])])
        if n.startswith('operator""'):
            return NotImplemented
        return NotImplemented

    def lift2(self, a, b):
        isz = lambda x: isinstance(x, Struct) and self.kind(x.ty) == 'complex'
        if isz(a) and isinstance(b, T):
            return a, Struct(a.ty, {'re': toreal(b), 'im': RZERO})
        if isz(b) and isinstance(a, T):
            return Struct(b.ty, {'re': toreal(a), 'im': RZERO}), b
        return a, b

    # ------------------------------------------------------------ specification intrinsics
    def vc_assume(self, st, f, args, ex):
        c = self.R(st, args[0])
        st.assume(c)
        return None

    def vc_assert(self, st, f, args, ex):
        c = self.R(st, args[0])
        nm = self.R(st, args[1]).args[0][2:]
        self.e.oblige(st, 'post', nm, c, ex.get('l', 0) if ex else 0)
        return None

    def named(self, st, ty, nm):
        e = self.e
        fl = []
        v = e.sym(ty, nm, (), fl)
        p = (e.opts.get('pin') or {}).get(nm + '.len')
        if p is not None and isinstance(v, Seq) and slen(v).op == 'var':
            m = {slen(v): num(p)}
            v = vsubst(v, m)
            fl = [x if not isinstance(x, T) else subst(x, m) for x in fl]
        for x in e.inst_facts(fl):
            st.assume(x)
        e.inputs[nm] = v
        return v

    def vc_any(self, st, f, args, ex):
        nm = self.R(st, args[0]).args[0][2:]
        v = self.e.pinned(f['rt'], nm)
        if v is not None:
            return v
        return self.named(st, f['rt'], nm)

    def vc_u64(self, st, f, args, ex):
        return self.vc_any(st, f, args, ex)
    vc_i64 = vc_bool = vc_real = vc_name = vc_cplx = vc_seq = vc_fun = vc_u64

    def vc_fresh_seq(self, st, f, args, ex):
        """an arbitrary sequence, another one in every iteration"""
        e = self.e
        nm = e.wname(self.R(st, args[0]).args[0][2:])
        ix = tuple(e.idx)
        fl = []
        v = e.sym(f['rt'], nm, ix, fl)
        for a, x in fl:
            st.assume(forall([y for y in a if y.op == 'var' and y not in ix], x))
        return v

    def vc_lines(self, st, f, args, ex):
        """the stream holds n lines, given by a function"""
        r, n, fn = self.L(st, args[0]), self.R(st, args[1]), self.R(st, args[2])
        v, g, t = self.bound_call(st, n, fn)
        if t is None:
            t = strc('')
        self.e.write(st, r, Struct(self.e.read(st, r).ty, {'lines': Seq([('c', n, v, t)], 'Str'), 'pos': ZERO, 'fail': FALSE}))

    def vc_seq_n(self, st, f, args, ex):
        n = self.R(st, args[1])
        v = self.vc_any(st, f, args, ex)
        st.assume(eq(slen(v.f['#0'] if isinstance(v, Struct) else v), n))
        return v

    def bound_call(self, st, n, fn):
        v = fresh('k')
        s = st.copy()
        g = and_(le(ZERO, v), lt(v, n))
        s.assume(g)
        if s.dead:
            return v, g, None
        self.e.quiet += 1
        try:
            r = self.e.call_value(s, fn, [v])
            if isinstance(r, Ref):
                r = self.e.read(s, r)
        finally:
            self.e.quiet -= 1
        return v, g, r

    def small(self, n):
        return is_num(n) and 0 <= numval(n) <= 40

    def each(self, st, n, fn):
        out = []
        self.e.quiet += 1
        try:
            for i in range(numval(n)):
                s = st.copy()
                r = self.e.call_value(s, fn, [num(i)])
                if isinstance(r, Ref):
                    r = self.e.read(s, r)
                out.append(r)
        finally:
            self.e.quiet -= 1
        return out

    def vc_sum(self, st, f, args, ex):
        n, fn = self.R(st, args[0]), self.R(st, args[1])
        if self.small(n):
            tot = None
            for r in self.each(st, n, fn):
                tot = r if tot is None else vadd(tot, r)
            if tot is None:
                return self.e.default_value(f['rt'], st, zero=True)
            return tot
        v, g, r = self.bound_call(st, n, fn)
        if r is None:
            return self.e.default_value(f['rt'], st, zero=True)
        return vzip1(r, lambda t: mk_sum(v, ZERO, n, t))

    def vc_forall(self, st, f, args, ex):
        n, fn = self.R(st, args[0]), self.R(st, args[1])
        if self.small(n):
            return and_(*self.each(st, n, fn))
        v, g, r = self.bound_call(st, n, fn)
        if r is None:
            return TRUE
        return forall(v, implies(g, r))

    def vc_exists(self, st, f, args, ex):
        n, fn = self.R(st, args[0]), self.R(st, args[1])
        if self.small(n):
            return or_(*self.each(st, n, fn))
        v, g, r = self.bound_call(st, n, fn)
        if r is None:
            return FALSE
        return exists(v, and_(g, r))

    def vc_small(self, st, f, args, ex):
        return TRUE

    def vc_threads(self, st, f, args, ex):
        self.e.omp_epoch += 1        # another number of threads, another schedule
        return None

    def vc_pi(self, st, f, args, ex):
        return PI

    def vc_cos(self, st, f, args, ex):
        return app_s('cos', (toreal(self.R(st, args[0])),), 'Real')

    def vc_sin(self, st, f, args, ex):
        return app_s('sin', (toreal(self.R(st, args[0])),), 'Real')

    def vc_same(self, st, f, args, ex):
        """structural identity of two values (not the type's own operator==)"""
        return veq(self.R(st, args[0]), self.R(st, args[1]), st.facts)

    def vc_near(self, st, f, args, ex):
        """equality of real numbers (exact here; within rounding when executed)"""
        a, b = self.R(st, args[0]), self.R(st, args[1])
        a, b = self.lift2(a, b)
        if isinstance(a, Struct):
            return and_(*[eq(a.f[k], b.f[k]) for k in a.f])
        return eq(toreal(a), toreal(b))

    def vc_is_perm(self, st, f, args, ex):
        a, b = self.R(st, args[0]), self.R(st, args[1])

        def un(s):
            if isinstance(s, Struct):
                s = s.f['#0']
            out = []
            for g in s.segs:
                out.extend(un(Seq(g[2], s.ety)).segs if g[0] == 'p' else [g])
            return Seq(out, s.ety)
        ua, ub = un(a), un(b)
        return veq(ua, ub, st.facts)

    def vc_sum_seq(self, st, f, args, ex):
        q, fn = self.R(st, args[0]), self.R(st, args[1])
        if isinstance(q, Struct):
            q = q.f['#0']
        if not q.segs:
            return self.e.default_value(f['rt'], st, zero=True)
        self.e.quiet += 1
        try:
            m = self.mapseq(st, q, lambda stt, el: self.purefn(stt, fn, [el]))
        finally:
            self.e.quiet -= 1
        zero = None

        def z(segs):
            s = segs[0]
            while s[0] != 'c':
                s = s[2][0] if s[0] in 'gp' else s[3][0]
            return vmap(s[3], lambda t: num(0, t.sort))
        return ssum(m, lambda x: x, z(m.segs))
