"""Symbolic interpretation of contract formulas, and the proof context."""
from fractions import Fraction
import z3
from . import sc, solver, engine as E
from .sc import And, Or, Not, Implies, Iff, OutOfSubset, ite
from .solver import Forall
from .arr import *

def raw(x):
    if isinstance(x, V): return x.x
    if isinstance(x, float): return Fraction(repr(x))
    return x
class V:
    """number with operators"""
    __slots__ = ('x',)
    def __init__(self, x): self.x = x
    def __add__(s, o): return NotImplemented if isinstance(o, Dual) else V(sc.add(s.x, raw(o)))
    __radd__ = __add__
    def __sub__(s, o): return NotImplemented if isinstance(o, Dual) else V(sc.sub(s.x, raw(o)))
    def __rsub__(s, o): return V(sc.sub(raw(o), s.x))
    def __mul__(s, o): return NotImplemented if isinstance(o, Dual) else V(sc.mul(s.x, raw(o)))
    __rmul__ = __mul__
    def __truediv__(s, o): return NotImplemented if isinstance(o, Dual) else V(_div(s.x, raw(o)))
    def __rtruediv__(s, o): return V(_div(raw(o), s.x))
    def __neg__(s): return V(sc.neg(s.x))
    def __pow__(s, n): return V(sc.ipow(s.x, n))
    def __lt__(s, o): return sc.lt(s.x, raw(o))
    def __le__(s, o): return sc.le(s.x, raw(o))
    def __gt__(s, o): return sc.gt(s.x, raw(o))
    def __ge__(s, o): return sc.ge(s.x, raw(o))
    def __eq__(s, o): raise TypeError('use S.eq')
    __hash__ = None
class Dual:
    '''value and derivative along a direction'''
    def __init__(self, v, d): self.v, self.d = v, d
    @staticmethod
    def of(o): return o if isinstance(o, Dual) else Dual(o if isinstance(o, V) else V(raw(o)), V(Fraction(0)))
    def __add__(s, o): o = Dual.of(o); return Dual(s.v + o.v, s.d + o.d)
    __radd__ = __add__
    def __neg__(s): return Dual(-s.v, -s.d)
    def __sub__(s, o): o = Dual.of(o); return Dual(s.v - o.v, s.d - o.d)
    def __rsub__(s, o): return Dual.of(o) - s
    def __mul__(s, o): o = Dual.of(o); return Dual(s.v*o.v, s.d*o.v + s.v*o.d)
    __rmul__ = __mul__
    def __truediv__(s, o): o = Dual.of(o); return Dual(s.v/o.v, s.d/o.v - s.v*o.d/(o.v*o.v))
    def __rtruediv__(s, o): return Dual.of(o)/s
def _div(a, b):
    va, na, pa, ma = sc.parts(sc.tonum(a)); vb, nb, pb, mb = sc.parts(sc.tonum(b))
    cb, ca = sc.const(vb), sc.const(va)
    if cb is not None and cb != 0: r = sc._mul(va, 1/Fraction(cb))
    elif ca is not None and ca == 0: r = Fraction(0)
    else: r = sc.zr(va)/sc.zr(vb)
    return sc.xf(r, Or(na, nb))
class AV:
    """array with numpy-like scalar indexing"""
    def __init__(self, a, content=None): self.a = a; self.c = content or a.snap(); self.shape = a.shape
    def __getitem__(self, i):
        if not isinstance(i, tuple): i = (i,)
        i = tuple(iz(raw(k)) for k in i)
        i = tuple(iadd(n, k) if isinstance(k, int) and k < 0 else k for k, n in zip(i, self.shape))
        v = self.c(i)
        return v if sc.is_boolv(v) else (V(v) if self.a.dtype != 'i' else IV(v))
    @property
    def n(self): return self.shape[0]
def IV(v): return iz(v) if not isinstance(v, sc.XF) else V(v)
def idx(x): return iz(raw(x))

class FA:
    def __init__(self, lo, hi, fn): self.lo, self.hi, self.fn = idx(lo), idx(hi), fn
    def body(self, i): 
        b = self.fn(i)
        if isinstance(b, FA): raise OutOfSubset('nested forall')
        return Implies(inrange(i, self.lo, self.hi), b)
class Conj:
    def __init__(self, xs): self.xs = xs

class SS:
    symbolic = True
    pi = V(sc.PI)
    def eq(self, a, b):
        a, b = raw(a), raw(b)
        return sc.same(a, b)
    def close(self, a, b, scale): return self.eq(a, b)
    same = eq
    def ite(self, c, a, b):
        r = ite(c, raw(a), raw(b)); return r if sc.is_boolv(r) else (V(r) if not sc.is_intv(r) else r)
    def And(self, *xs):
        if any(isinstance(x, (FA, Conj)) for x in xs): return Conj(xs)
        return And(*xs)
    def Or(self, *xs): return Or(*xs)
    def Not(self, x): return Not(x)
    def implies(self, a, b): return Implies(a, b() if callable(b) else b)
    def iff(self, a, b): return Iff(a, b)
    def forall(self, lo, hi, fn): return FA(lo, hi, fn)
    def isnan(self, x): return sc.is_nan(raw(x))
    def max(self, a, b): return V(sc.maximum(raw(a), raw(b)))
    def min(self, a, b): return V(sc.minimum(raw(a), raw(b)))
    def abs(self, x):
        if isinstance(x, Dual): return Dual(self.abs(x.v), self.ite(x.v >= 0, x.d, -x.d))
        return V(sc.absv(raw(x)))
    def _f(self, fn, *x):
        nan = Or(*[sc.parts(raw(v))[1] for v in x])
        return V(sc.xf(fn(*[sc.parts(raw(v))[0] for v in x]), nan))
    def sqrt(self, x): return self._f(sc.sqrt_, x)
    def cbrt(self, x):
        if isinstance(x, Dual): c = self.cbrt(x.v); return Dual(c, x.d/(c*c*3))
        return self._f(sc.cbrt_, x)
    def pow(self, x, q): return self._f(sc.pows_, x, q)
    def powq(self, x, a, b):
        q = Fraction(a, b)
        def f(v):
            if q.denominator == 1: return sc.ipow(v, q.numerator)
            if q.denominator == 2: return sc.ipow(sc.sqrt_(v), q.numerator)
            if q.denominator == 3: return sc.ipow(sc.cbrt_(v), q.numerator)
            return sc.powq_(v, q)
        return self._f(f, x)
    def sin(self, x): return self._f(sc.sin_, x)
    def cos(self, x): return self._f(sc.cos_, x)
    def arctan(self, x): return self._f(sc.arctan_, x)
    def arcsin(self, x): return self._f(sc.arcsin_, x)
    def tanh(self, x): return self._f(sc.tanh_, x)
    def val(self, x): return V(x) if not isinstance(x, V) else x
    def div(self, a, b): return V(_div(raw(a), raw(b)))

class P:
    """one proof: symbolic inputs, call of the real function, postconditions"""
    def __init__(self, eng, small=None):
        self.eng = eng; self.S = SS(); self.small = small or {}
        self.inputs = {}
    # ---- inputs
    def size(self, name, lo=0):
        if name in self.small: return self.small[name]
        n = self.eng.fresh(name, sc.I); self.eng.fact(n >= lo); self.inputs[name] = ('int', n); return n
    def int(self, name):
        n = self.eng.fresh(name, sc.I); self.inputs[name] = ('int', n); return n
    def real(self, name, gt=None, ge=None, le=None, lt=None):
        n = self.eng.fresh(name, sc.R); self.inputs[name] = ('real', n)
        if gt is not None: self.eng.fact(n > sc.zr(raw(gt)))
        if ge is not None: self.eng.fact(n >= sc.zr(raw(ge)))
        if le is not None: self.eng.fact(n <= sc.zr(raw(le)))
        if lt is not None: self.eng.fact(n < sc.zr(raw(lt)))
        return V(n)
    def bool(self, name):
        b = self.eng.fresh(name, sc.B); self.inputs[name] = ('bool', b); return b
    def arr(self, name, shape, dtype='f', nan=False, cond=None):
        """input array; cond(v) holds for every (non-NaN) element; nan: may hold NaN"""
        if not isinstance(shape, tuple): shape = (shape,)
        shape = tuple(idx(s) for s in shape)
        sort = {'f': sc.R, 'i': sc.I, 'b': sc.B}[dtype]
        f = self.eng.freshfn(name, *([sc.I]*len(shape) + [sort]))
        fn = self.eng.freshfn(name + '_nan', *([sc.I]*len(shape) + [sc.B])) if nan else None
        def c(i):
            a = [sc.zi(k) for k in i]; v = f(*a)
            return sc.xf(v, fn(*a) if nan is True else And(nan(*i), fn(*a))) if nan else v
        A = mk(shape, c, dtype, name=name); A.buf.input = True
        self.inputs[name] = ('arr', A, c)
        if cond is not None:
            self.eng.fact(Forall(len(shape), lambda *i: Implies(And(*[inrange(k, 0, n) for k, n in zip(i, shape)]), self._cond(c(i), lambda v: cond(*([v] + list(i)) if cond.__code__.co_argcount > 1 else [v]))), name))
        return A
    def _cond(self, v, cond):
        if isinstance(v, sc.XF): return Or(v.nan, cond(V(v.v)))
        return cond(v if sc.is_boolv(v) else V(v))
    def assume(self, f, name=''):
        if isinstance(f, Conj):
            for x in f.xs: self.assume(x, name)
        elif isinstance(f, FA): self.eng.fact(Forall(1, f.body, name))
        else: self.eng.fact(f)
    def forall_assume(self, n, fn, name=''): self.eng.fact(Forall(n, fn, name))
    # ---- postconditions
    def check(self, name, f, extra=(), using=None, rules=None):
        if isinstance(f, Conj):
            for k, x in enumerate(f.xs): self.check(name, x, extra)
        elif isinstance(f, FA):
            if isinstance(f.lo, int) and isinstance(f.hi, int):
                for i in range(f.lo, f.hi): self.check('%s [%d]' % (name, i), f.fn(i), extra)
                return
            i = self.eng.fresh('i', sc.I)
            g0 = self.eng.guards; self.eng.guards = g0 + [sc.zb(inrange(i, f.lo, f.hi))]
            try:
                if self.eng.valid_int(z3.BoolVal(False)): return
                self.check(name, f.fn(i), tuple(extra) + (i,))
            finally: self.eng.guards = g0
        else:
            self.nposts = getattr(self, 'nposts', 0) + 1
            self.eng.validc = {}
            if f is True or (z3.is_expr(f) and z3.is_true(z3.simplify(f))):
                self.eng.obls.append(E.Obl(name, self.eng.snapfacts(), True, 'post', extra, '')); return
            self.eng.obls.append(E.Obl(name, self.eng.snapfacts(), sc.zb(f), 'post', extra, ''))
            if using is not None: self.eng.obls[-1].using = [sc.zb(u) for u in using], [(raw(a) if sc.is_boolv(raw(a)) else sc.zr(raw(a)), sc.zr(raw(b))) for a, b in rules or []]
    def cover(self, name):
        """the assumptions so far are satisfiable"""
        self.eng.covers.append((name, self.eng.snapfacts()))
    def unchanged(self, A, name=None):
        """frame: the whole input array holds its initial values"""
        kind, a, c = self.inputs[name or A.buf.name]
        cur = a.buf.content
        ks = [self.eng.fresh('fr', sc.I) if not isinstance(n, int) or n > 6 else None for n in a.shape]
        import itertools
        rngs = [range(n) if k is None else [k] for k, n in zip(ks, a.shape)]
        for t in itertools.product(*rngs):
            g = And(*[inrange(k, 0, n) for k, n in zip(t, a.shape)])
            self.check('%s is not modified' % a.buf.name, Implies(g, sc.same(cur(t), c(t))), tuple(k for k in t if z3.is_expr(k)))
    def call(self, qual, *args, **kw):
        u = lambda x: x.a if isinstance(x, AV) else (x.x if isinstance(x, V) else ({k: u(v) for k, v in x.items()} if isinstance(x, dict) else ([u(v) for v in x] if isinstance(x, list) else x)))
        return self.eng.call(self.eng.func(qual), [u(a) for a in args], {k: u(v) for k, v in kw.items()})
    def cur(self, A): return AV(A)
    def old(self, A): k, a, c = self.inputs[A.buf.name]; return AV(a, c)
    # ---- sums
    def sum(self, fn, timeout=10):
        """sum over all integers of a finitely supported term; provably equal to the sums the code formed, where the solver can show it"""
        eng = self.eng; c = eng.np; can = lambda i: raw(fn(i)); k = eng.fresh('sm', sc.I)
        S_ = eng.fresh('specsum', sc.R)
        for (S, can2, t2, isint) in list(eng.sums):
            a, b = sc.tofloat(can(k)), sc.tofloat(can2(k))
            if solver.prove(eng.snapfacts(), sc.zb(sc.eq_f(a, b)), timeout, (k,), quick=True).status == 'unsat': eng.fact(S_ == sc.zr(sc.tofloat(S)))
        return V(S_)
    # ---- helpers
    def shore(self, n, name, cols, nancols, missing):
        """ShoreY/ShoreZ-like input: columns nancols are NaN exactly where missing(i)"""
        def nan(i, j):
            if isinstance(j, int): return missing(sc.zi(i)) if j in nancols else False
            return And(Or(*[sc.zb(ieq(j, k)) for k in nancols]), missing(sc.zi(i)))
        f = self.eng.freshfn(name, sc.I, sc.I, sc.R)
        c = lambda i: sc.xf(f(sc.zi(i[0]), sc.zi(i[1])), nan(*i))
        A = mk((n, cols), c, 'f', name=name); A.buf.input = True; self.inputs[name] = ('arr', A, c)
        return A
    def lemma(self, name, f, using=None, extra=()):
        """an intermediate obligation, available to the later ones"""
        self.check('lemma: ' + name, f, extra, using); self.nposts -= 1; self.assume(f)
    def ghost(self, name, v):
        """a named ghost value"""
        g = self.real(name); self.inputs.pop(name, None); self.eng.fact(sc.zb(sc.same(g.x, raw(v)))); return g
    def eng_tuple(self, xs): return tuple(raw(x) for x in xs)
    def enum(self, mask, lo, hi):
        """the increasing enumeration of {i in [lo,hi): mask(i)}; enumerations of provably the same set are the same"""
        eng = self.eng; lo, hi = idx(lo), idx(hi); N = isub(hi, lo)
        A = mk((N,), lambda i: mask(iadd(i[0], lo)), 'b')
        en = eng.np.enum(A)
        for other, _ in list(eng.enums.values()):
            if other is en: continue
            i = eng.fresh('se', sc.I)
            g = And(ieq(other.N, N), Implies(inrange(i, 0, N), Iff(other.mask(i), en.mask(i))))
            if g is True or (g is not False and solver.prove(eng.snapfacts(), sc.zb(g), 4, (i,), quick=True).status == 'unsat'):
                eng.fact(sc.zb(ieq(other.n, en.n)))
                eng.fact(Forall(1, lambda k, o=other: Implies(inrange(k, 0, en.n), sc.zb(ieq(o.e(k), en.e(k)))), 'same enumeration'))
        return SEnum(en, lo)
class SEnum:
    def __init__(self, en, lo): self.en, self.lo, self.count = en, lo, en.n
    def at(self, k): return iadd(self.en.e(k), self.lo)
    def rank(self, i): return self.en.rank(isub(i, self.lo))
