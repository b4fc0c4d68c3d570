"""Symbolic execution of the extracted program text, generating verification
conditions.  Loops are replaced by inferred, separately re-verified inductive
invariants (loops.py); calls to the C++ library by assumed contracts (std.py)."""
import re, time
from fractions import Fraction
from .term import *
from . import term as tm
from .values import *
from . import prover
ISTREAMS = ('basic_istream', 'basic_istringstream', 'basic_ifstream')
from .prover import Facts, NOFACTS, quick, decide, prove

MASKS = {8: 1 << 8, 16: 1 << 16, 32: 1 << 32, 64: 1 << 64}


class State:
    __slots__ = ('mem', 'facts', 'dead')

    def __init__(self, mem=None, facts=NOFACTS, dead=False):
        self.mem = mem if mem is not None else {}
        self.facts = facts
        self.dead = dead

    def copy(self):
        return State(dict(self.mem), self.facts, self.dead)

    def become(self, o):
        self.mem = o.mem
        self.facts = o.facts
        self.dead = o.dead

    def assume(self, c):
        if c is FALSE or quick(self.facts, c) is False:
            self.dead = True
        self.facts = self.facts.add(c)


def merge(c, a, b, base):
    """state after 'c ? a : b' (both extend the facts base)"""
    if a.dead and b.dead:
        return a
    if a.dead:
        return b
    if b.dead:
        return a
    r = State(a.mem, base)
    if a.mem is not b.mem:
        mem = {}
        for k, x in a.mem.items():
            y = b.mem.get(k, None)
            if y is None:
                if k in b.mem:
                    mem[k] = None
                else:
                    mem[k] = x
                continue
            if x is None:
                mem[k] = None
                continue
            try:
                mem[k] = x if x is y else vite(c, x, y)
            except Undecided as e:
                mem[k] = Opaque('unmergeable')
        for k, y in b.mem.items():
            if k not in a.mem:
                mem[k] = y
        r.mem = mem
    fa = a.facts.since(base)
    fb = b.facts.since(base)
    sb = set(fb)
    n = not_(c)
    for f in fa:
        if f in sb:
            r.facts = r.facts.add(f)
    for f in fa:
        if f not in sb:
            r.facts = r.facts.add(implies(c, f))
    sa = set(fa)
    for f in fb:
        if f not in sa:
            r.facts = r.facts.add(implies(n, f))
    return r


class Obligation:
    def __init__(self, kind, name, fn, line, res, goal, facts):
        self.kind, self.name, self.fn, self.line, self.res, self.goal, self.facts = kind, name, fn, line, res, goal, facts

    def __repr__(self):
        return '%s %s@%s:%s %s' % (self.kind, self.name, self.fn, self.line, self.res.status)


def strip_targs(q):
    out = []
    d = 0
    i = 0
    while i < len(q):
        c = q[i]
        if c == '<':
            if q[max(0, i - 8):i].endswith('operator'):
                # operator< / operator<< / operator<=
                m = re.match(r'<<=|<<|<=>|<=|<', q[i:])
                # only treat as operator name when nothing but <...> follows
                out.append(m.group(0))
                i += len(m.group(0))
                continue
            d += 1
        elif c == '>' and d > 0:
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


class Frame:
    def __init__(self, fn, this=None):
        self.fn = fn
        self.env = {}
        self.this = this


class Engine:
    def __init__(self, ir, opts=None):
        self.fns = ir['functions']
        self.types = ir['types']
        self.globals = ir['globals']
        self.ops = ir.get('ops', [])
        self.opts = opts or {}
        self.obligs = []
        self.nroot = 0
        self.quiet = 0            # >0: detection pass, obligations not recorded
        self.frames = []
        self.depth = 0
        self.loop_facts = []
        self.used = {}            # functions executed symbolically
        self.loops = []           # invariants established
        self.assumed = {}         # assumed library contracts used
        self.omp_epoch = 0
        self.omp_line = 0
        self.omp = []             # stack of iteration variables of parallel loops
        self.access = None        # access log inside parallel loops
        self.alias = {}           # root of a focused element -> the element
        self.static_roots = {}
        self.contracts = self.opts.get('contracts', {})
        self.timeout = self.opts.get('timeout', 3.0)
        self.deadline = None
        self.cur_line = 0
        self.proved_quick = {}
        self.inputs = {}          # symbolic inputs by name
        self.ctx = ['', 0]        # naming context of witnesses
        self.idx = []             # iteration variables of the enclosing loops
        self.rtype = {}
        self.static_init = {}
        from . import std
        self.std = std.Std(self)
        self.bysig = {}
        for i, f in self.fns.items():
            self.bysig.setdefault(f['q'], []).append(i)

    # ------------------------------------------------------------ bookkeeping
    def thr(self, k):
        """the thread executing iteration k of the current parallel loop"""
        return app('thr', (k, num(self.omp_epoch), num(self.omp_line)), 'Int')

    def oblige(self, st, kind, name, cond, line=0, record=True):
        """obligation cond; afterwards it is assumed"""
        if st.dead:
            return
        if self.quiet == 0 and record:
            self.tick()
            r = prove(st.facts, cond, self.timeout)
            if not (r.status == 'yes' and kind == 'arith'):
                fr = self.frames[-1].fn if self.frames else None
                self.obligs.append(Obligation(kind, name, fr['q'] if fr else '?', line, r, cond, st.facts))
            else:
                self.arith_ok = getattr(self, 'arith_ok', 0) + 1
        st.assume(cond)

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Undecided('time budget exhausted')

    def alloc(self, st, v, ty=None):
        self.nroot += 1
        r = self.nroot
        st.mem[r] = v
        if ty is not None:
            self.rtype[r] = ty
        return Ref(r)

    def wname(self, p):
        self.ctx[1] += 1
        return '%s~%s.%d' % (p, self.ctx[0], self.ctx[1])

    def witness(self, p, sort='Int'):
        """a value fixed by the execution, depending on the enclosing iterations"""
        n = self.wname(p)
        return app(n, tuple(self.idx), sort) if self.idx else var(n, sort)

    def pinned(self, ty, nm):
        p = self.opts.get('pin') or {}
        if nm in p:
            s = self.sort(ty)
            v = p[nm]
            if s == 'Bool':
                return TRUE if v else FALSE
            return num(Fraction(v) if s == 'Real' else v, s)
        return None

    # ------------------------------------------------------------ memory
    def read(self, st, ref, log=True):
        if not isinstance(ref, Ref):
            raise Undecided('read through %r' % (ref,))
        if ref.root not in st.mem:
            raise Undecided('dangling reference')
        if self.access is not None and log:
            self.access.append((self.unfocus(ref), False, st.facts))
        v = st.mem[ref.root]
        for s in ref.path:
            v = self.step(v, s, st)
        if v is None:
            raise Undecided('uninitialised object')
        if isinstance(v, Opaque) and v.n == 'unmergeable':
            raise Undecided('value depends on an unmerged condition')
        return v

    def step(self, v, s, st):
        if v is None:
            raise Undecided('uninitialised object')
        if s[0] == 'i':
            if isinstance(v, T) and v.sort == 'Str':
                return self.std.char(st, v, s[1])
            if not isinstance(v, Seq):
                raise Undecided('index into %s' % type(v).__name__)
            return sget(v, s[1], st.facts)
        if not isinstance(v, Struct):
            raise Undecided('field %s of %r' % (s[1], v))
        return v.f[s[1]]

    def write(self, st, ref, val, log=True):
        if not isinstance(ref, Ref):
            raise Undecided('write through %r' % (ref,))
        if self.access is not None and log:
            self.access.append((self.unfocus(ref), True, st.facts))
        if st.dead:
            return
        st.mem[ref.root] = self.upd(st.mem.get(ref.root), ref.path, val, st)

    def upd(self, v, path, val, st):
        if not path:
            return val
        s = path[0]
        if s[0] == 'i':
            if isinstance(v, T) and v.sort == 'Str':
                return self.std.char(st, v, s[1])
            if not isinstance(v, Seq):
                raise Undecided('index into %s' % type(v).__name__)
            if len(path) == 1:
                return sset(v, s[1], val, st.facts)
            return sset(v, s[1], self.upd(sget(v, s[1], st.facts), path[1:], val, st), st.facts)
        if v is None:
            raise Undecided('write into uninitialised object')
        n = dict(v.f)
        n[s[1]] = self.upd(n.get(s[1]), path[1:], val, st)
        return Struct(v.ty, n)

    # ------------------------------------------------------------ types
    def ti(self, ty):
        return self.types.get(ty) or {'k': 'unknown'}

    def tmpl(self, ty):
        return self.ti(ty).get('tmpl') or self.ti(ty).get('q') or ty

    def targ(self, ty, i):
        return self.ti(ty)['targs'][i]

    def sort(self, ty):
        t = self.ti(ty)
        if t['k'] == 'builtin':
            b = t['b']
            if b == 'bool': return 'Bool'
            if b in ('u', 's'): return 'Int'
            if b == 'f': return 'Real'
        if t['k'] == 'enum':
            return 'Int'
        if t['k'] == 'ptr' and t['e'] in ('const char', 'char'):
            return 'Str'
        return None

    def int_range(self, ty):
        t = self.ti(ty)
        if t['k'] == 'enum':
            t = self.ti(t['u'])
        if t['k'] == 'builtin' and t['b'] in ('u', 's'):
            w = t['w']
            return (0, (1 << w) - 1) if t['b'] == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        return None

    def fields(self, ty):
        """[(key, type, refkind)] including base subobjects"""
        t = self.ti(ty)
        out = []
        for i, b in enumerate(t.get('bases') or []):
            if self.is_empty(b):
                continue
            out.append(('#%d' % i, b, ''))
        for f in t.get('fields') or []:
            out.append((f['n'], f['t'], f['r']))
        return out

    def is_empty(self, ty):
        t = self.ti(ty)
        if self.std.is_std(ty):
            return False
        return t['k'] == 'rec' and not self.fields(ty)

    def sym(self, ty, name, args=(), facts=None, shape=None):
        """arbitrary value of a type; args are index terms; appends range facts"""
        t = self.ti(ty)
        s = self.sort(ty)
        if s:
            v = var(name, s) if not args else app(name, args, s)
            if facts is not None and s == 'Int':
                lo, hi = self.int_range(ty)
                facts.append((args, le(num(lo), v)))
                facts.append((args, le(v, num(hi))))
            return v
        r = self.std.sym(ty, name, args, facts)
        if r is not None:
            return r
        if t['k'] == 'array':
            return self.sym_seq(t['e'], num(t['n']), name, args, facts)
        if t['k'] == 'rec':
            f = {}
            for k, fty, fr in self.fields(ty):
                if fr:
                    raise Undecided('symbolic reference member')
                f[k] = self.sym(fty, name + '.' + k, args, facts)
            return Struct(ty, f)
        raise Undecided('arbitrary value of type %s' % ty)

    def sym_seq(self, ety, n, name, args, facts):
        v = fresh('v')
        sub = [] if facts is not None else None
        body = self.sym(ety, name + '[]', tuple(args) + (v,), sub)
        if facts is not None:
            facts.extend(sub)
        return Seq([('c', n, v, body)], ety)

    def inst_facts(self, fl):
        """close range facts over index variables"""
        out = []
        for args, f in fl:
            vs = [a for a in args if a.op == 'var']
            out.append(forall(vs, f) if vs else f)
        return out

    def prove_quick(self, facts, goal, timeout=3.0):
        """is the goal provable (used to choose between sound descriptions, not recorded)"""
        fs = tuple(prover.relevant(facts, goal))
        key = (goal, fs)
        if key not in self.proved_quick:
            self.proved_quick[key] = prover.prove(facts, goal, timeout, False).status == 'yes'
        return self.proved_quick[key]

    def shape_sym(self, v, name, args=(), facts=None, ty=None, keeplen=False):
        """arbitrary value of the same shape as v (used to forget a value)"""
        if isinstance(v, T):
            r = var(name, v.sort) if not args else app(name, args, v.sort)
            if facts is not None and v.sort == 'Int' and ty is not None:
                rg = self.int_range(ty)
                if rg:
                    facts.append((args, and_(le(num(rg[0]), r), le(r, num(rg[1])))))
            return r
        if isinstance(v, Struct):
            tys = {}
            if facts is not None and not self.std.is_std(v.ty):
                tys = {k: t for k, t, r in self.fields(v.ty)}
            return Struct(v.ty, {k: self.shape_sym(x, name + '.' + k, args, facts, tys.get(k)) for k, x in v.f.items()})
        if isinstance(v, Seq):
            if keeplen:
                n = slen(v)
            else:
                n = var(name + '.len', 'Int') if not args else app(name + '.len', args, 'Int')
                if facts is not None:
                    facts.append((args, and_(le(ZERO, n), le(n, num(1 << 60)))))
                    if args:
                        tm.LENGTHS.add(name + '.len')
            u = fresh('v')
            if v.ety == 'STR':
                return Seq([('c', n, u, app(name + '[]', tuple(args) + (u,), 'Str'))], v.ety)
            if v.segs:
                el = self.some_elem(v)
                body = self.shape_sym(el, name + '[]', tuple(args) + (u,), facts, v.ety if isinstance(v.ety, str) else None)
            elif v.ety is not None:
                body = self.sym(v.ety, name + '[]', tuple(args) + (u,), facts)
            else:
                raise Undecided('sequence of unknown element type')
            return Seq([('c', n, u, body)], v.ety)
        if isinstance(v, Iter):
            return Iter(v.ref, var(name, 'Int') if not args else app(name, args, 'Int'), v.rev)
        if isinstance(v, Ref):
            if any(s[0] == 'i' for s in v.path):
                p = []
                for j, s in enumerate(v.path):
                    p.append(('i', var('%s@%d' % (name, j), 'Int')) if s[0] == 'i' else s)
                return Ref(v.root, tuple(p))
            return v
        if v is None:
            return None
        if isinstance(v, (Closure, FnV, Opaque)):
            raise Undecided('loop modifies a function object')
        raise Undecided('forgetting %s' % type(v).__name__)

    def some_elem(self, q):
        s = q.segs[0]
        while s[0] in ('g', 'f', 'p'):
            s = s[2][0] if s[0] in ('g', 'p') else s[3][0]
        return s[3]

    def default_value(self, ty, st, fr=None, zero=False):
        t = self.ti(ty)
        s = self.sort(ty)
        if s:
            if zero:
                return {'Bool': FALSE, 'Int': ZERO, 'Real': RZERO}.get(s) or strc('')
            v = self.witness('uninit', s)
            rg = self.int_range(ty)
            if rg:
                st.assume(le(num(rg[0]), v))
                st.assume(le(v, num(rg[1])))
            return v
        r = self.std.default(ty, st, zero)
        if r is not None:
            return r
        if t['k'] == 'array':
            el = self.default_value(t['e'], st, zero=zero)
            return Seq([('c', num(t['n']), fresh('v'), el)], t['e'])
        if t['k'] == 'ptr':
            return NULL
        if t['k'] == 'rec':
            if t.get('lambda'):
                return Struct(ty, {})
            # user-provided default constructor?
            for c in t.get('ctors') or []:
                if not c['params']:
                    return self.construct(st, c, [], ty)
            f = {}
            for i, b in enumerate(t.get('bases') or []):
                if not self.is_empty(b):
                    f['#%d' % i] = self.default_value(b, st, zero=zero)
            tmp = self.alloc(st, Struct(ty, f))
            for fd in t.get('fields') or []:
                if fd.get('init') is not None:
                    v = self.init_value(st, fd['init'], fd['t'], fd['r'], this=tmp)
                elif fd['r']:
                    v = None
                else:
                    v = self.default_value(fd['t'], st, zero=zero)
                self.write(st, tmp.sub(('f', fd['n'])), v, log=False)
            return st.mem.pop(tmp.root)
        raise Undecided('default value of %s' % ty)

    # ------------------------------------------------------------ evaluation
    def rv(self, st, e):
        """value of an expression"""
        v = self.ev(st, e)
        if e.get('lv') and isinstance(v, Ref):
            return self.read(st, v)
        return v

    def lv(self, st, e):
        """location of an expression (materialising prvalues)"""
        v = self.ev(st, e)
        if e.get('lv'):
            if not isinstance(v, Ref):
                return self.alloc(st, v)
            return v
        return self.alloc(st, v)

    def ev(self, st, e):
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Undecided('expression %s (%s) at line %s' % (e['k'], e.get('cls'), e.get('l')))
        return m(st, e)

    def e_Int(self, st, e):
        s = self.sort(e['t'])
        if s == 'Bool':
            return TRUE if int(e['v']) else FALSE
        return num(int(e['v']))

    def e_Float(self, st, e):
        return num(Fraction(e['d']), 'Real')

    def e_Bool(self, st, e):
        return TRUE if e['v'] else FALSE

    def e_Str(self, st, e):
        return strc(e['v'])

    def e_Null(self, st, e):
        return NULL

    def e_This(self, st, e):
        t = self.frames[-1].this
        if t is None:
            raise Undecided('this outside a member function')
        return t

    def e_Ref(self, st, e):
        dk = e['dk']
        if dk == 'fun':
            c = Closure(e['f']['id'], {}, None)
            c.name = e['f'].get('n')
            return c
        if dk in ('global', 'static') and e['id'] not in self.frames[-1].env:
            if dk == 'static':
                raise Undecided('static variable before its declaration')
            return self.global_ref(st, e['q'], e['t'])
        r = self.frames[-1].env.get(e['id'])
        if r is None:
            raise Undecided('unbound variable %s' % e['n'])
        return r

    def global_ref(self, st, q, ty):
        key = ('g', q)
        r = self.static_roots.get(key)
        if r is None:
            self.nroot += 1
            r = self.static_roots[key] = self.nroot
        if r not in st.mem:
            v = self.std.global_value(q, ty, st)
            if v is None:
                g = self.globals.get(q)
                if g is None or g.get('init') is None:
                    raise Undecided('global %s' % q)
                self.frames.append(Frame({'q': q}))
                try:
                    v = self.init_value(st, g['init'], g['t'], '')
                finally:
                    self.frames.pop()
            st.mem[r] = v
        return Ref(r)

    def e_Member(self, st, e):
        if e['mk'] == 'static':
            return self.global_ref(st, e['q'], e['t'])
        if e['mk'] != 'field':
            raise Undecided('member %s' % e['n'])
        b = self.ev(st, e['b'])
        if e.get('arrow'):
            if e['b'].get('lv') and not isinstance(b, Iter):
                b = self.read(st, b)
            if isinstance(b, Iter):
                b = self.std.deref(st, b)
        elif not e['b'].get('lv') and not isinstance(b, Ref):
            b = self.alloc(st, b)
        r = b.sub(('f', e['n']))
        if e.get('fr'):
            x = self.read(st, r)
            return x
        return r

    def e_Mat(self, st, e):
        v = self.ev(st, e['e'])
        if e['e'].get('lv'):
            return v
        return self.alloc(st, v)

    def e_ZeroInit(self, st, e):
        return self.default_value(e['t'], st, zero=True)

    def e_Cast(self, st, e):
        ck = e['ck']
        s = e['e']
        if ck in ('LValueToRValue',):
            return self.rv(st, s)
        if ck in ('NoOp', 'ArrayToPointerDecay', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'UserDefinedConversion', 'ConstructorConversion', 'BitCast', 'LValueBitCast'):
            return self.ev(st, s)
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase'):
            v = self.ev(st, s)
            return self.to_base(st, v, s['t'], e['t'])
        if ck == 'BaseToDerived':
            raise Undecided('downcast')
        if ck == 'ToVoid':
            self.ev(st, s)
            return None
        v = self.rv(st, s)
        return self.convert(st, v, s['t'], e['t'], ck, e.get('l', 0))

    def to_base(self, st, v, frm, to):
        ft = frm
        tt = to
        ptr = False
        if self.ti(ft)['k'] == 'ptr':
            ft = self.ti(ft)['e'].replace('const ', '')
            tt = self.ti(tt)['e'].replace('const ', '')
            if isinstance(v, Ref) is False:
                raise Undecided('pointer cast')
        if self.std.kind(ft) in ('basic_ostringstream', 'basic_stringstream', 'basic_ofstream') and self.std.kind(tt) in ('basic_ostream', 'basic_ios', 'ios_base'):
            return v
        if self.std.kind(ft) in ISTREAMS and self.std.kind(tt) in ('basic_istream', 'basic_ios', 'ios_base'):
            return v
        for i, b in enumerate(self.ti(ft).get('bases') or []):
            if b == tt:
                if self.is_empty(b):
                    return v
                if isinstance(v, Ref):
                    return v.sub(('b', '#%d' % i))
                return v.f['#%d' % i]
            # deeper
            sub = self.ti(b).get('bases') or []
            if sub and not self.std.is_std(b):
                try:
                    w = v.sub(('b', '#%d' % i)) if isinstance(v, Ref) else v.f['#%d' % i]
                    return self.to_base(st, w, b, tt)
                except Undecided:
                    pass
        raise Undecided('base %s of %s' % (tt, ft))

    def convert(self, st, v, frm, to, ck, line=0):
        if ck == 'IntegralCast' or ck == 'BooleanToSignedIntegral':
            return self.to_int_type(st, v, to, line, cast=True)
        if ck == 'IntegralToBoolean':
            if v.sort == 'Bool': return v
            return ne(v, ZERO)
        if ck == 'FloatingToBoolean':
            return ne(v, RZERO)
        if ck == 'IntegralToFloating':
            return toreal(v)
        if ck == 'FloatingCast':
            return v
        if ck == 'FloatingToIntegral':
            r = toint(v)
            lo, hi = self.int_range(to)
            self.oblige(st, 'conversion', 'floating value fits the integer type', and_(lt(num(lo - 1, 'Real'), v), lt(v, num(hi + 1, 'Real'))), line)
            return r
        if ck == 'PointerToBoolean':
            if isinstance(v, Ref): return TRUE
            if v is NULL: return FALSE
        if ck == 'NullToPointer':
            return NULL
        raise Undecided('cast %s' % ck)

    def to_int_type(self, st, v, ty, line, cast=False):
        if v.sort == 'Bool':
            if self.sort(ty) == 'Bool': return v
            return ite(v, ONE, ZERO)
        if self.sort(ty) == 'Bool':
            return ne(v, ZERO)
        lo, hi = self.int_range(ty)
        return self.wrap(st, v, lo, hi, line, cast)

    def wrap(self, st, v, lo, hi, line, cast=False):
        if is_num(v) and lo <= numval(v) <= hi:
            return v
        c = and_(le(num(lo), v), le(v, num(hi)))
        q = quick(st.facts, c)
        if q is True:
            return v
        if st.dead:
            return v
        if decide(st.facts, c) is True:
            return v
        if lo == 0:
            if is_num(v):
                return num(numval(v) % (hi + 1))
            # try one wrap
            return emod(v, num(hi + 1))
        if cast:
            w = hi + 1 - lo
            r = emod(v, num(w))
            return ite(le(r, num(hi)), r, sub(r, num(w)))
        self.oblige(st, 'overflow', 'signed arithmetic does not overflow', c, line)
        return v

    def arith(self, st, op, a, b, ty, line=0):
        s = self.sort(ty)
        if s == 'Real':
            a, b = toreal(a), toreal(b)
            if op == '+': return add(a, b)
            if op == '-': return sub(a, b)
            if op == '*': return mul(a, b)
            if op == '/':
                self.oblige(st, 'division', 'divisor is not zero', ne(b, RZERO), line)
                return rdiv(a, b)
            raise Undecided('float operator ' + op)
        if s == 'Bool':
            a = ite(a, ONE, ZERO) if a.sort == 'Bool' else a
            b = ite(b, ONE, ZERO) if b.sort == 'Bool' else b
        if a.sort == 'Bool': a = ite(a, ONE, ZERO)
        if b.sort == 'Bool': b = ite(b, ONE, ZERO)
        lo, hi = self.int_range(ty) or (-(1 << 63), (1 << 63) - 1)
        if op in ('+', '-', '*'):
            r = {'+': add, '-': sub, '*': mul}[op](a, b)
            return self.wrap(st, r, lo, hi, line)
        if op in ('/', '%'):
            self.oblige(st, 'division', 'divisor is not zero', ne(b, ZERO), line)
            if decide(st.facts, and_(le(ZERO, a), lt(ZERO, b))) is True:
                qr = smart_divmod(a, b, st.facts)
                if qr is not None:
                    return qr[0] if op == '/' else qr[1]
            return idiv(a, b) if op == '/' else imod(a, b)
        if op in ('&', '|', '^', '<<', '>>'):
            if is_num(a) and is_num(b):
                x, y = numval(a), numval(b)
                r = {'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y, '>>': x >> y}[op]
                return self.wrap(st, num(r), lo, hi, line)
            if op == '&' and is_num(a) and not is_num(b):
                a, b = b, a
            if op == '&' and is_num(b) and numval(b) > 0 and decide(st.facts, le(ZERO, a)) is True:
                # a mask of consecutive bits: (a div 2^s) mod 2^w, shifted back
                m = numval(b)
                sh = (m & -m).bit_length() - 1
                if ((m >> sh) + 1) & (m >> sh) == 0:
                    r = imod(idiv(a, num(1 << sh)) if sh else a, num((m >> sh) + 1))
                    return mul(r, num(1 << sh)) if sh else r
            if op == '<<' and is_num(b):
                return self.wrap(st, mul(a, num(1 << numval(b))), lo, hi, line)
            if op == '>>' and is_num(b) and decide(st.facts, le(ZERO, a)) is True:
                return idiv(a, num(1 << numval(b)))
            bl = self.bool_bits(op, a, b)
            if bl is not None: return bl
        raise Undecided('integer operator ' + op)

    def bool_bits(self, op, a, b):
        x, y = tm.unbool(a), tm.unbool(b)
        if x is None or y is None:
            return None
        if op == '&': return ite(and_(x, y), ONE, ZERO)
        if op == '|': return ite(or_(x, y), ONE, ZERO)
        if op == '^': return ite(iff(x, not_(y)), ONE, ZERO)
        return None

    def compare(self, op, a, b):
        if not isinstance(a, T) or not isinstance(b, T):
            if op == '==': return veq(a, b)
            if op == '!=': return not_(veq(a, b))
            if isinstance(a, Iter) and isinstance(b, Iter) and a.ref == b.ref:
                return self.compare(op, self.std.diff(a, b), ZERO)
            raise Undecided('comparison of objects')
        if op == '==': return eq(a, b)
        if op == '!=': return ne(a, b)
        if op == '<': return lt(a, b)
        if op == '<=': return le(a, b)
        if op == '>': return lt(b, a)
        if op == '>=': return le(b, a)

    def e_Bin(self, st, e):
        op = e['op']
        if op == '=':
            r = self.lv(st, e['a']) if not e['b'].get('lv') else None
            v = self.rv(st, e['b'])
            if r is None:
                r = self.lv(st, e['a'])
            self.write(st, r, v)
            return r
        if op == ',':
            self.ev(st, e['a'])
            return self.ev(st, e['b'])
        if op in ('&&', '||'):
            a = self.rv(st, e['a'])
            skip = not_(a) if op == '&&' else a
            d = decide(st.facts, skip, 0.2) if a.op != 'const' else (skip is TRUE)
            if d is True:
                return FALSE if op == '&&' else TRUE
            s2 = st.copy()
            s2.assume(not_(skip))
            b = self.rv(s2, e['b'])
            s1 = st.copy()
            s1.assume(skip)
            base = st.facts
            st.become(merge(skip, s1, s2, base))
            return and_(a, b) if op == '&&' else or_(a, b)
        a = self.rv(st, e['a'])
        b = self.rv(st, e['b'])
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b)
        if isinstance(a, (Iter, Ref)) or isinstance(b, (Iter, Ref)):
            return self.ptr_arith(st, op, a, b)
        return self.arith(st, op, a, b, e['t'], e.get('l', 0))

    def ptr_arith(self, st, op, a, b):
        if isinstance(a, Iter) and isinstance(b, T):
            return self.std.adv(a, b if op == '+' else neg(b))
        if isinstance(a, Iter) and isinstance(b, Iter) and op == '-':
            return self.std.diff(a, b)
        if isinstance(a, Ref) and a.path and a.path[-1][0] == 'i' and isinstance(b, T):
            i = add(a.path[-1][1], b) if op == '+' else sub(a.path[-1][1], b)
            return Ref(a.root, a.path[:-1] + (('i', i),))
        raise Undecided('pointer arithmetic')

    def e_CAsg(self, st, e):
        op = e['op'][:-1]
        b = self.rv(st, e['b'])
        r = self.lv(st, e['a'])
        a = self.read(st, r)
        if isinstance(a, (Iter, Ref)):
            v = self.ptr_arith(st, op, a, b)
        else:
            if e['clt'] != e['a']['t']:
                a = self.cvt(st, a, e['a']['t'], e['clt'])
            v = self.arith(st, op, a, b, e['ct'], e.get('l', 0))
            v = self.cvt(st, v, e['ct'], e['a']['t'])
        self.write(st, r, v)
        return r

    def cvt(self, st, v, frm, to):
        fs, ts = self.sort(frm), self.sort(to)
        if ts == 'Real': return toreal(v)
        if fs == 'Real':
            if ts == 'Bool': return ne(v, RZERO)
            return self.convert(st, v, frm, to, 'FloatingToIntegral')
        return self.to_int_type(st, v, to, 0, cast=True)

    def e_Un(self, st, e):
        op = e['op']
        if op in ('++', '--'):
            r = self.lv(st, e['e'])
            a = self.read(st, r)
            if isinstance(a, (Ref, Iter)):
                n = self.ptr_arith(st, op[0], a, ONE)
            else:
                if a.sort == 'Bool': a = ite(a, ONE, ZERO)
                n = self.arith(st, op[0], a, num(1, a.sort), e['e']['t'], e.get('l', 0))
            self.write(st, r, n)
            return a if e.get('post') else r
        if op == '*':
            v = self.rv(st, e['e'])
            if isinstance(v, Iter):
                return self.std.deref(st, v)
            if isinstance(v, (Ref, Closure)):
                return v
            raise Undecided('dereference')
        if op == '&':
            return self.lv(st, e['e'])
        v = self.rv(st, e['e'])
        if op == '!': return not_(v)
        if op == '-':
            if v.sort == 'Real': return neg(v)
            lo, hi = self.int_range(e['t'])
            return self.wrap(st, neg(v), lo, hi, e.get('l', 0))
        if op == '+': return v
        if op == '~':
            lo, hi = self.int_range(e['t'])
            return sub(num(hi), v) if lo == 0 else sub(neg(v), ONE)
        if op in ('__extension__',): return v
        raise Undecided('unary ' + op)

    def e_Cond(self, st, e):
        c = self.rv(st, e['c'])
        if e['b'].get('k') == 'Call' and (e['b'].get('f') or {}).get('n') == '__assert_fail':
            self.oblige(st, 'assertion', 'assert', c, e.get('l', 0))
            return None
        d = TRUE if c is TRUE else FALSE if c is FALSE else None
        if d is None:
            q = decide(st.facts, c, 0.3)
            d = TRUE if q is True else FALSE if q is False else None
        if d is TRUE: return self.ev(st, e['a'])
        if d is FALSE: return self.ev(st, e['b'])
        base = st.facts
        s1 = st.copy(); s1.assume(c)
        s2 = st.copy(); s2.assume(not_(c))
        a = self.ev(s1, e['a'])
        b = self.ev(s2, e['b'])
        lv = e.get('lv')
        if lv and isinstance(a, Ref) and isinstance(b, Ref) and a != b:
            try:
                r = vite(c, a, b)
            except Undecided:
                # the chosen object is only read through this reference
                va, vb = self.read(s1, a), self.read(s2, b)
                st.become(merge(c, s1, s2, base))
                return self.alloc(st, vite(c, va, vb))
            st.become(merge(c, s1, s2, base))
            return r
        st.become(merge(c, s1, s2, base))
        if a is None or b is None:
            return None
        return vite(c, a, b)

    def e_Sub(self, st, e):
        b = self.ev(st, e['b'])
        i = self.rv(st, e['i'])
        if e['b'].get('lv') and self.ti(e['b']['t'])['k'] == 'ptr':
            b = self.read(st, b)
        if isinstance(b, Iter):
            return self.std.deref(st, self.std.adv(b, i))
        if isinstance(b, Ref):
            v = self.read(st, b, log=False)
            if isinstance(v, Seq):
                self.oblige(st, 'bounds', 'array index', and_(le(ZERO, i), lt(i, slen(v))), e.get('l', 0))
                return b.sub(('i', i))
            if b.path and b.path[-1][0] == 'i':
                return self.ptr_arith(st, '+', b, i)
        raise Undecided('subscript')

    def e_InitList(self, st, e):
        ty = e['t']
        t = self.ti(ty)
        if e.get('transp') and len(e['a']) == 1:
            return self.rv(st, e['a'][0])
        if t['k'] == 'array':
            el = [self.init_value(st, x, t['e'], '') for x in e['a']]
            while len(el) < t['n']:
                el.append(self.init_value(st, e['fill'], t['e'], '') if e.get('fill') else self.default_value(t['e'], st, zero=True))
            return lit(el, t['e'])
        if self.sort(ty):
            if not e['a']:
                return self.default_value(ty, st, zero=True)
            return self.rv(st, e['a'][0])
        if t['k'] == 'rec':
            r = self.std.init_list(st, ty, e)
            if r is not None:
                return r
            f = {}
            fl = self.fields(ty)
            empties = [b for b in (t.get('bases') or []) if self.is_empty(b)]
            args = list(e['a'])
            names = []
            for i, b in enumerate(t.get('bases') or []):
                names.append(('#%d' % i, b, '', self.is_empty(b)))
            for fd in t.get('fields') or []:
                names.append((fd['n'], fd['t'], fd['r'], False))
            for (k, fty, fr, emp), x in zip(names, args):
                if emp:
                    continue
                f[k] = self.init_value(st, x, fty, fr)
            for (k, fty, fr, emp) in names[len(args):]:
                if emp: continue
                f[k] = self.default_value(fty, st, zero=True)
            return Struct(ty, f)
        raise Undecided('initialiser list for %s' % ty)

    def e_StdInitList(self, st, e):
        return self.rv(st, e['e'])

    def e_ArrCopy(self, st, e):
        return self.rv(st, e['e'])

    def e_Lambda(self, st, e):
        caps = {}
        this = None
        for c in e['caps']:
            if c.get('this'):
                this = self.frames[-1].this
            elif c['ref']:
                caps[c['id']] = self.ev(st, c['init'])
            else:
                v = self.rv(st, c['init'])
                caps[c['id']] = ('val', v)
        fid = e.get('f', {}).get('id')
        if fid is None and len(e.get('specs', ())) == 1:
            fid = e['specs'][0]['id']      # generic lambda used with one list of argument types
        cl = Closure(fid, {k: v for k, v in caps.items() if not isinstance(v, tuple)}, this)
        cl.caps.update({k: ByVal(v[1]) for k, v in caps.items() if isinstance(v, tuple)})
        cl.ty = e['t']
        return cl

    def e_Throw(self, st, e):
        self.oblige(st, 'exception', 'no exception is thrown', FALSE, e.get('l', 0))
        st.dead = True
        return None

    # ------------------------------------------------------------ calls
    def init_value(self, st, e, ty, r, this=None):
        """initialise a variable of type ty (reference kind r) from expression e"""
        if this is not None:
            self.frames.append(Frame({'q': 'init'}, this))
            try:
                return self.init_value(st, e, ty, r)
            finally:
                self.frames.pop()
        if r:
            return self.lv(st, e)
        return self.rv(st, e)

    def e_Ctor(self, st, e):
        ty = e['t']
        f = e['f']
        args = e['a']
        if f.get('copy') and (f.get('dflt') or f.get('sys')):
            return self.rv(st, args[0])
        if f.get('sys'):
            return self.std.construct(st, ty, f, args, e)
        return self.construct(st, f, args, ty)

    def bind_args(self, st, f, args):
        """evaluate argument expressions (or take ready values) for parameters"""
        out = []
        ps = f['params']
        for i, a in enumerate(args):
            p = ps[i] if i < len(ps) else {'r': ''}
            if isinstance(a, dict):
                out.append(self.lv(st, a) if p['r'] else self.rv(st, a))
            elif p['r']:
                out.append(a if isinstance(a, Ref) else self.alloc(st, a))
            else:
                out.append(self.read(st, a) if isinstance(a, Ref) and self.ti(p['t'])['k'] != 'ptr' else a)
        return out

    def construct(self, st, f, args, ty):
        fn = self.fns.get(f['id'])
        if fn is None or ('body' not in fn and not fn.get('inits')):
            if f.get('def') and not args:
                return self.default_value(ty, st)
            raise Undecided('constructor %s' % f['q'])
        a = self.bind_args(st, fn, args)
        this = self.alloc(st, Struct(ty, {}))
        fr = Frame(fn, this)
        self.bind_params(st, fn, a, fr)
        self.used[fn['q']] = fn
        self.enter(fr)
        try:
            t = self.ti(ty)
            done = set()
            for ini in fn.get('inits') or []:
                if ini.get('deleg'):
                    v = self.rv(st, ini['e'])
                    self.write(st, this, v, log=False)
                    done = {k for k, _, _ in self.fields(ty)}
                elif 'base' in ini:
                    if self.is_empty(ini['base']):
                        continue
                    k = '#%d' % [x for x in t['bases']].index(ini['base'])
                    if ini['e']['k'] == 'InhCtor':
                        v = self.inherited(st, ini['e'], ini['base'], a, fn)
                    else:
                        v = self.rv(st, ini['e'])
                    self.write(st, this.sub(('b', k)), v, log=False)
                    done.add(k)
                else:
                    fd = [x for x in t['fields'] if x['n'] == ini['field']][0]
                    v = self.init_value(st, ini['e'], fd['t'], fd['r'])
                    self.write(st, this.sub(('f', fd['n'])), v, log=False)
                    done.add(fd['n'])
            for k, fty, fr_ in self.fields(ty):
                if k not in done:
                    self.write(st, this.sub(('f', k)), self.default_value(fty, st) if not fr_ else None, log=False)
            if fn.get('body'):
                self.run_body(st, fn)
        finally:
            self.leave()
        if st.dead:
            return self.dead_value(ty)
        return st.mem.pop(this.root)

    def dead_value(self, ty):
        return Opaque('dead')

    def inherited(self, st, e, base, argrefs, fn):
        return self.std.construct(st, base, e['f'], argrefs, e)

    def enter(self, fr):
        self.frames.append(fr)
        self.depth += 1
        if self.depth > 60:
            raise Undecided('recursion too deep')

    def leave(self):
        self.frames.pop()
        self.depth -= 1

    def bind_params(self, st, fn, args, fr):
        for p, a in zip(fn['params'], args):
            if p['r']:
                fr.env[p['id']] = a
            else:
                fr.env[p['id']] = self.alloc(st, a, p['t'])

    def e_Call(self, st, e):
        f = e.get('f')
        if f is None:
            c = self.rv(st, e['c'])
            return self.call_value(st, c, e['a'], e)
        return self.call(st, f, None, e['a'], e)

    def e_MCall(self, st, e):
        f = e['f']
        o = self.ev(st, e['o'])
        if e.get('arrow'):
            if e['o'].get('lv'):
                o = self.read(st, o)
            if isinstance(o, Iter):
                o = self.std.deref(st, o)
        elif not isinstance(o, Ref):
            o = self.alloc(st, o)
        return self.call(st, f, o, e['a'], e)

    def e_OpCall(self, st, e):
        f = e.get('f')
        if f is None:
            raise Undecided('operator call')
        args = e['a']
        if f.get('cls') and not f.get('static'):
            t = self.ti(f['cls'])
            o = self.ev(st, args[0])
            if t.get('lambda') and isinstance(o, Ref):
                o = self.read(st, o)
            if isinstance(o, Closure):
                return self.call_value(st, o, args[1:], e, f['id'])
            if not isinstance(o, Ref):
                o = self.alloc(st, o)
            return self.call(st, f, o, args[1:], e)
        return self.call(st, f, None, args, e)

    def call(self, st, f, this, args, e=None):
        """call function reference f; result: Ref if it returns a reference, else value"""
        if st.dead:
            return Opaque('dead')
        fn = self.fns.get(f['id'])
        c = self.contracts.get(strip_targs(f.get('tmpl') or f['q']))
        if c is not None and not self.opts.get('inline'):
            r = c(self, st, f, this, args, e)
            if r is not NotImplemented:
                return r
        if f.get('sys') or fn is None or 'body' not in fn or f['n'].startswith('vc_'):
            if f.get('asgn') and (f.get('dflt') or f.get('sys')):
                v = self.rv(st, args[0]) if isinstance(args[0], dict) else args[0]
                if isinstance(v, Ref): v = self.read(st, v)
                h = self.std.assign(st, this, v, f)
                return this
            alg = f.get('alg')
            if alg is None or alg['id'] not in self.fns:
                return self.std.call(st, f, this, args, e)
            snap = st.copy()
            try:
                return self.std.call(st, f, this, args, e)
            except Undecided:
                # no contract applies: the definition by a loop
                st.become(snap)
                return self.call(st, alg, None, args, e)
        if f.get('asgn') and f.get('dflt'):
            v = self.rv(st, args[0])
            self.write(st, this, v)
            return this
        if this is None and f['q'] in self.opts.get('pure', ()):
            # checked against its contract elsewhere: here only that the result is a function of the arguments
            v = [self.rv(st, x) if isinstance(x, dict) else x for x in args]
            v = [self.read(st, x) if isinstance(x, Ref) else x for x in v]
            if all(isinstance(x, T) for x in v):
                return app('=' + f['q'], tuple(v), self.sort(f['rt']))
        a = self.bind_args(st, fn, args)
        return self.invoke(st, fn, this, a)

    # A call on an element of a container runs on a separate copy of the element, which is
    # written back afterwards: nothing else the call can reach aliases the element.
    def unfocus(self, ref):
        while ref.root in self.alias:
            t = self.alias[ref.root]
            ref = Ref(t.root, t.path + ref.path)
        return ref

    def focused(self, st, this, a):
        if not isinstance(this, Ref) or not any(s[0] == 'i' for s in this.path) or st.dead:
            return False
        try:
            v = self.read(st, this, log=False)
        except Undecided:
            return False
        hit = []

        def scan(x):
            if isinstance(x, Seq):
                hit.append(x)
            elif isinstance(x, Struct):
                for y in x.f.values():
                    scan(y)
        scan(v)
        if not hit:
            return False

        def reach(x, seen):
            if isinstance(x, (list, tuple)):
                return all(reach(y, seen) for y in x)
            if isinstance(x, dict):
                return all(reach(y, seen) for y in x.values())
            if isinstance(x, Iter):
                return x.ref is None or reach(x.ref, seen)
            if isinstance(x, Ref):
                if x.root == this.root:
                    return False
                if x.root in seen:
                    return True
                seen.add(x.root)
                return reach(st.mem.get(x.root), seen)
            if isinstance(x, Struct):
                return reach(x.f, seen)
            if isinstance(x, (T, Seq)) or x is None or isinstance(x, (str, int, bool)):
                return True
            return False
        return reach(v, set()) and reach(a, set())

    def invoke(self, st, fn, this, a, caps=None):
        if not caps and self.focused(st, this, a):
            v = self.read(st, this, log=False)
            r = self.alloc(st, v, fn.get('cls'))
            self.alias[r.root] = this
            out = self.invoke(st, fn, r, a)
            if st.dead:
                return out
            if st.mem[r.root] is not v:
                self.write(st, this, st.mem[r.root], log=False)
            if isinstance(out, Ref) and out.root == r.root:
                out = Ref(this.root, this.path + out.path)
            elif isinstance(out, Iter) and out.ref is not None and out.ref.root == r.root:
                out = Iter(Ref(this.root, this.path + out.ref.path), out.idx, out.rev)
            return out
        fr = Frame(fn, this)
        if caps:
            fr.env.update(caps)
        self.bind_params(st, fn, a, fr)
        self.used[fn['q']] = fn
        self.enter(fr)
        try:
            return self.run_body(st, fn)
        finally:
            self.leave()

    def run_body(self, st, fn):
        base = st.facts
        out = self.x(st.copy(), fn['body'])
        res = []   # (cond, state, value)
        for c, s, v in out.get('return', []):
            if not s.dead:
                res.append((c, s, v))
        n = out.get('normal')
        if n is not None and not n[1].dead:
            res.append((n[0], n[1], None))
        if out.get('break') or out.get('continue'):
            raise Undecided('break outside a loop')
        if not res:
            st.dead = True
            return Opaque('dead')
        rr = fn['rr']
        c0, s0, v0 = res[-1]
        for c, s, v in reversed(res[:-1]):
            if rr and isinstance(v, Ref) and isinstance(v0, Ref) and v != v0:
                try:
                    nv = vite(c, v, v0)
                    s0 = merge(c, s, s0, base)
                except Undecided:
                    va, vb = self.read(s, v), self.read(s0, v0)
                    s0 = merge(c, s, s0, base)
                    nv = self.alloc(s0, vite(c, va, vb))
                v0 = nv
            else:
                if v is not None and v0 is not None:
                    try:
                        v0 = vite(c, v, v0)
                    except Undecided:
                        raise
                elif v is not None or v0 is not None:
                    if fn['rt'] != 'void':
                        raise Undecided('missing return value')
                s0 = merge(c, s, s0, base)
        if n is not None and not n[1].dead and fn['rt'] != 'void' and not fn.get('ctor'):
            # flowing off the end of a value-returning function
            if decide(n[1].facts, FALSE) is not True:
                raise Undecided('control may reach the end of %s' % fn['q'])
        st.become(s0)
        return v0

    def call_value(self, st, c, args, e=None, fid=None):
        """call a function object (fid: the specialisation of a generic lambda that is called)"""
        if isinstance(c, Ref):
            c = self.read(st, c)
        if isinstance(c, Closure):
            fn = self.fns.get(c.fid)
            if fn is None or 'body' not in fn:
                fn = self.fns.get(fid)
            if fn is None or 'body' not in fn:
                raise Undecided('call of unknown function object')
            a = self.bind_args(st, fn, args)
            caps = {}
            for k, v in c.caps.items():
                if isinstance(v, ByVal):
                    caps[k] = self.alloc(st, v.v)
                else:
                    caps[k] = v
            return self.invoke(st, fn, c.this, a, caps)
        if isinstance(c, FnV):
            vals = [self.rv(st, a) if isinstance(a, dict) else (self.read(st, a) if isinstance(a, Ref) else a) for a in args]
            flat = []
            for v in vals:
                flat.extend(self.flatten(v))
            return self.fn_result(c, flat, st)
        if isinstance(c, PyFn):
            vals = [self.rv(st, a) if isinstance(a, dict) else (self.read(st, a) if isinstance(a, Ref) else a) for a in args]
            return c.f(self, st, *vals)
        if isinstance(c, Struct):
            for op in self.ti(c.ty).get('ops') or []:
                if op['n'] == 'operator()' and len(op['params']) == len(args):
                    return self.call(st, op, self.alloc(st, c), args, e)
            r = self.std.call_functor(st, c, args)
            if r is not None:
                return r
        raise Undecided('call of %r' % (c,))

    def flatten(self, v):
        if isinstance(v, T): return [v]
        if isinstance(v, Struct):
            out = []
            for k in v.f: out.extend(self.flatten(v.f[k]))
            return out
        raise Undecided('argument of an arbitrary function is %s' % type(v).__name__)

    def fn_result(self, c, flat, st):
        fl = []
        r = self.sym(c.rt, c.name, tuple(flat), fl)
        for args, f in fl:
            st.assume(f)
        return r

    # ------------------------------------------------------------ statements
    # result: {'normal': (cond, state) or absent, 'return': [(cond, state, value)],
    #          'break': [(cond, state)], 'continue': [(cond, state)]}
    def x(self, st, s):
        if s is None:
            return {'normal': (TRUE, st)}
        if st.dead:
            return {}
        m = getattr(self, 'x_' + s['s'], None)
        if m is None:
            raise Undecided('statement %s (%s) at line %s' % (s['s'], s.get('k'), s.get('l')))
        return m(st, s)

    def seq(self, st, stmts):
        out = {'return': [], 'break': [], 'continue': []}
        cond = TRUE
        cur = st
        for s in stmts:
            r = self.x(cur, s)
            for k in ('return', 'break', 'continue'):
                for t in r.get(k, []):
                    out[k].append((and_(cond, t[0]),) + t[1:])
            n = r.get('normal')
            if n is None or n[1].dead:
                return out
            cond = and_(cond, n[0])
            cur = n[1]
        out['normal'] = (cond, cur)
        return out

    def x_Compound(self, st, s):
        return self.seq(st, s['b'])

    def x_Expr(self, st, s):
        self.ev(st, s['e'])
        if st.dead:
            return {}
        return {'normal': (TRUE, st)}

    def x_Null(self, st, s):
        return {'normal': (TRUE, st)}

    def x_Decl(self, st, s):
        for v in s['v']:
            self.declare(st, v)
            if st.dead:
                return {}
        return {'normal': (TRUE, st)}

    def declare(self, st, v):
        fr = self.frames[-1]
        if v.get('static'):
            fr.env[v['id']] = self.static_local(st, v)
            return
        if v.get('init') is not None:
            x = self.init_value(st, v['init'], v['t'], v['r'])
        else:
            x = self.default_value(v['t'], st)
        if v['r']:
            if not isinstance(x, Ref):
                x = self.alloc(st, x)
            fr.env[v['id']] = x
        else:
            fr.env[v['id']] = self.alloc(st, x, v['t'])

    def const_init(self, e):
        """initialiser that does not depend on local state"""
        if isinstance(e, dict):
            if e.get('k') == 'Ref' and e.get('dk') in ('parm', 'var', 'static'):
                return False
            if e.get('k') == 'This':
                return False
            return all(self.const_init(x) for k, x in e.items() if k not in ('f',))
        if isinstance(e, list):
            return all(self.const_init(x) for x in e)
        return True

    def static_local(self, st, v):
        key = ('s', v['id'])
        root = self.static_roots.get(key)
        if root is None:
            self.nroot += 1
            root = self.static_roots[key] = self.nroot
        if root not in st.mem:
            init = v.get('init')
            const = v.get('const')
            if init is not None and self.const_init(init) and (self.opts.get('static_const', {}).get(v['n'], True) and self.is_never_written(v)):
                st.mem[root] = self.init_value(st, init, v['t'], v['r'])
            elif v['r']:
                raise Undecided('static reference')
            else:
                fl = []
                st.mem[root] = self.sym(v['t'], 'earlier-call content of static %s!%d' % (v['n'], root), (), fl)
                for f in self.inst_facts(fl):
                    st.assume(f)
            self.static_init[root] = st.mem[root]
        return Ref(root)

    def is_never_written(self, v):
        return v.get('cst', False) or self.std.stateless(v['t'])

    def x_If(self, st, s):
        fr = self.frames[-1]
        if s.get('i'):
            self.x(st, s['i'])
        if s.get('cv'):
            self.declare(st, s['cv'])
        from .loops import refine
        before = dict(st.mem)
        c = self.rv(st, s['c'])
        if st.dead:
            return {}
        if not isinstance(c, T):
            raise Undecided('condition is not a scalar')
        d = decide(st.facts, c, 0.4)
        if d is True:
            st.assume(c)
            refine(st, before, c)
            return self.x(st, s['t'])
        if d is False:
            st.assume(not_(c))
            refine(st, before, not_(c))
            return self.x(st, s.get('e'))
        base = st.facts
        s1 = st.copy(); s1.assume(c)
        s2 = st; s2.assume(not_(c))
        refine(s1, before, c)
        refine(s2, before, not_(c))
        env0 = dict(fr.env)
        r1 = self.x(s1, s['t']) if not s1.dead else {}
        fr.env = dict(env0)
        r2 = self.x(s2, s.get('e')) if not s2.dead else {}
        fr.env = env0
        nc = not_(c)
        out = {}
        for k in ('return', 'break', 'continue'):
            out[k] = [(and_(c, t[0]),) + t[1:] for t in r1.get(k, [])] + [(and_(nc, t[0]),) + t[1:] for t in r2.get(k, [])]
        n1, n2 = r1.get('normal'), r2.get('normal')
        if n1 and n1[1].dead: n1 = None
        if n2 and n2[1].dead: n2 = None
        if n1 and n2:
            cond = or_(and_(c, n1[0]), and_(nc, n2[0]))
            out['normal'] = (cond, merge(c, n1[1], n2[1], base))
        elif n1:
            out['normal'] = (and_(c, n1[0]), n1[1])
        elif n2:
            out['normal'] = (and_(nc, n2[0]), n2[1])
        return out

    def x_Return(self, st, s):
        fn = self.frames[-1].fn
        if s.get('e') is None:
            return {'return': [(TRUE, st, None)]}
        if fn['rr']:
            v = self.lv(st, s['e'])
        else:
            v = self.rv(st, s['e'])
            if fn['rt'] == 'void':
                v = None
        if st.dead:
            return {}
        return {'return': [(TRUE, st, v)]}

    def x_Break(self, st, s):
        return {'break': [(TRUE, st)]}

    def x_Continue(self, st, s):
        return {'continue': [(TRUE, st)]}

    def x_OMP(self, st, s):
        from . import loops
        return loops.omp_stmt(self, st, s)

    def x_For(self, st, s):
        from . import loops
        fr = self.frames[-1]
        env0 = dict(fr.env)
        if s.get('i'):
            r = self.x(st, s['i'])
        c, b = self.split_cond(s.get('c'), s['b'])
        out = loops.loop(self, st, cond=c, inc=s.get('u'), body=b, line=s.get('l'))
        fr.env = env0
        return out

    def simple_cond(self, x):
        """a comparison of variables and constants: always defined, no effects"""
        return (isinstance(x, dict) and x.get('k') == 'Bin' and x.get('op') in ('<', '<=', '>', '>=', '!=')
                and self.simple_leaf(x['a']) and self.simple_leaf(x['b']))

    def simple_leaf(self, y):
        k = y.get('k')
        if k in ('Ref', 'Int', 'This'):
            return True
        if k in ('Cast', 'Paren', 'ICast'):
            return isinstance(y.get('e'), dict) and self.simple_leaf(y['e'])
        if k == 'Member':
            return isinstance(y.get('b'), dict) and self.simple_leaf(y['b'])
        if k == 'MCall':
            return y['f'].get('n') in ('size', 'end', 'cend', 'begin', 'cbegin') and isinstance(y.get('o'), dict) and self.simple_leaf(y['o'])
        return False

    def simple_flag(self, x):
        """a variable, or its negation: evaluating it has no effect"""
        while isinstance(x, dict) and (x.get('k') in ('Paren', 'Cast', 'ICast') or x.get('k') == 'Un' and x.get('op') == '!'):
            x = x.get('e')
        return isinstance(x, dict) and self.simple_leaf(x)

    def split_cond(self, c, b):
        """while(A && B) S  is  while(A) { if(!B) break; S }"""
        x = c
        while isinstance(x, dict) and x.get('k') in ('Paren', 'Cast') and x.get('e') is not None and x.get('ck', 'NoOp') in ('NoOp',):
            x = x['e']
        if isinstance(x, dict) and x.get('k') == 'Bin' and x.get('op') == '&&':
            if self.simple_flag(x['a']) and self.simple_cond(x['b']):
                # neither has an effect: the range first
                x = dict(x, a=x['b'], b=x['a'])
            b = {'s': 'Compound', 'b': [{'s': 'If', 'c': x['b'], 't': {'s': 'Compound', 'b': []}, 'e': {'s': 'Break'}}, b]}
            return self.split_cond(x['a'], b)
        return c, b

    def x_While(self, st, s):
        from . import loops
        c, b = self.split_cond(s['c'], s['b'])
        return loops.loop(self, st, cond=c, inc=None, body=b, line=s.get('l'))

    def x_Do(self, st, s):
        from . import loops
        return loops.do_loop(self, st, s)

    def x_ForRange(self, st, s):
        from . import loops
        fr = self.frames[-1]
        env0 = dict(fr.env)
        for k in ('r', 'bg', 'en'):
            self.x(st, s[k])
        body = {'s': 'Compound', 'b': [s['v'], s['b']]}
        out = loops.loop(self, st, cond=s['c'], inc=s['u'], body=body, line=s.get('l'))
        fr.env = env0
        return out

    def x_Switch(self, st, s):
        v = self.rv(st, s['c'])
        items = []

        def flat(x):
            if x is None: return
            if x['s'] == 'Compound':
                for y in x['b']: flat(y)
            elif x['s'] in ('Case', 'Default'):
                items.append(('label', x.get('c')))
                flat(x['b'])
            else:
                items.append(('stmt', x))
        flat(s['b'])
        labels = [(i, it[1]) for i, it in enumerate(items) if it[0] == 'label']
        out = {'return': [], 'break': [], 'continue': []}
        normals = []
        base = st.facts
        conds = []
        dflt = None
        for i, c in labels:
            if c is None:
                dflt = i
            else:
                conds.append((eq(v, self.rv(st, c)), i))
        none = and_(*[not_(c) for c, _ in conds])
        cases = conds + [(none, dflt)]
        for c, i in cases:
            if decide(st.facts, c) is False:
                continue
            s1 = st.copy()
            s1.assume(c)
            if i is None:
                normals.append((c, s1))
                continue
            r = self.seq(s1, [it[1] for it in items[i:] if it[0] == 'stmt'])
            for t in r['return']: out['return'].append((and_(c, t[0]),) + t[1:])
            for t in r['continue']: out['continue'].append((and_(c, t[0]),) + t[1:])
            for t in r['break']: normals.append((and_(c, t[0]), t[1]))
            if r.get('normal'): normals.append((and_(c, r['normal'][0]), r['normal'][1]))
        if normals:
            c0, s0 = normals[-1]
            for c, s1 in reversed(normals[:-1]):
                s0 = merge(c, s1, s0, base)
                c0 = or_(c0, c)
            out['normal'] = (c0, s0)
        return out


class ByVal:
    def __init__(self, v): self.v = v


class PyFn:
    """function object implemented by the specification"""
    def __init__(self, f): self.f = f
