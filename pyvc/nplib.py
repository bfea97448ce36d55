"""Contract-level model of the numpy (and python builtin) operations used by the code under verification."""
import ast, itertools
from fractions import Fraction
import z3
from . import sc, solver
from .sc import And, Or, Not, Implies, Iff, OutOfSubset, ite
from .solver import Forall
from .arr import *
from . import engine as E

CANON = [z3.Int('__c%d' % k) for k in range(4)]

def reindex(t, c):
    """(o, s): every array in t is read at o + s*c; (0, 1) if there is no such form"""
    forms = set(); keep = []
    st = [t]; seen = set()
    while st:
        u = st.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if z3.is_app(u) and u.num_args() and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for a in u.children():
                if a.sort() == sc.I and has(a, c):
                    for s in (1, -1):
                        o = z3.simplify(a - s*c)
                        if not has(o, c): forms.add((o.get_id(), s)); keep.append((o, s)); break
                    else: return 0, 1
        st.extend(u.children())
    if len(forms) != 1: return 0, 1
    o, s = keep[0]; return iz(o), s
def has(t, c):
    st = [t]; seen = set()
    while st:
        u = st.pop()
        if u.eq(c): return True
        if u.get_id() in seen: continue
        seen.add(u.get_id()); st.extend(u.children())
    return False

class FlatView:
    def __init__(self, a): self.a = a
    def m_getitem(self, eng, k):
        return eng.getitem(self.flat1(eng), k)
    def flat1(self, eng):
        if self.a.ndim == 1: return self.a
        if self.a.ndim == 0: return None
        raise OutOfSubset('flat of 2-D')
    def m_setitem(self, eng, k, v):
        if self.a.ndim == 0:
            x = eng.scalar(v); eng.write(self.a, lambda i: True, lambda i: x); return
        eng.setitem(self.flat1(eng), k, v)

def dty(x):
    if isinstance(x, Arr): return x.dtype
    if sc.is_boolv(x): return 'b'
    if sc.is_intv(x): return 'i'
    if sc.is_num(x): return 'f'
    raise OutOfSubset('array element %r' % (x,))

class NP:
    def __init__(self, eng):
        self.e = eng
        self.builtins = {
            'range': self.b_range, 'len': self.b_len, 'min': self.b_min, 'max': self.b_max, 'abs': self.abs_,
            'sum': self.b_sum, 'int': self.b_int, 'float': self.b_float, 'bool': lambda x: eng.truth(x), 'list': self.b_list, 'tuple': self.b_tuple,
            'enumerate': self.b_enumerate, 'zip': self.b_zip, 'str': lambda *a: E.Opaque('str'), 'isinstance': self.b_isinstance,
            'any': lambda x: Or(*[sc.norm(eng.truth(v)) for v in self.need_list(x)]) if not isinstance(x, Arr) else self.any(x),
            'all': lambda x: And(*[sc.norm(eng.truth(v)) for v in self.need_list(x)]) if not isinstance(x, Arr) else self.all(x),
            'round': lambda x, *a: self.oos('round'), 'reversed': self.b_reversed, 'sorted': lambda *a, **k: self.oos('sorted'),
            'dict': lambda *a, **k: dict(*a, **k), 'pow': self.power, 'slice': lambda *a: E.SliceV(*( (None, a[0], None) if len(a) == 1 else (tuple(a) + (None,)*(3-len(a)))))}
    def oos(self, w): raise OutOfSubset(w)
    # -------------------------------------------------------------- module attributes
    def modattr(self, m, attr):
        n = m.name
        if n.startswith('repo:'):
            mod = self.e.module(n[5:]); d = mod.defs.get(attr)
            if d is None: raise OutOfSubset('%s.%s' % (n, attr))
            return self.e.resolve_def(mod, attr, d)
        q = n + '.' + attr
        if q in self.e.ext: 
            v = self.e.ext[q]
            return E.Builtin(v, q) if callable(v) and not isinstance(v, (E.Builtin,)) and not hasattr(v, 'm_getattr') else v
        if n in ('numpy', 'np'):
            if attr == 'pi': return sc.PI
            if attr == 'nan' or attr == 'NaN': return sc.NAN
            if attr == 'inf': return sc.PINF
            if attr in ('float64', 'float32', 'float_', 'double'): return E.Builtin(self.b_float, 'float')
            if attr in ('int64', 'int32', 'int_', 'intp'): return E.Builtin(self.b_int, 'int')
            if attr in ('bool_',): return E.Builtin(lambda x: self.e.truth(x), 'bool')
            if attr in ('ndarray',): return E.ExcType('ndarray')
            if attr == 'random': return E.Mod('numpy.random')
            if attr == 'newaxis': return None
            f = getattr(self, 'f_' + attr, None)
            if f is None: raise OutOfSubset('numpy.' + attr)
            return E.Builtin(f, q)
        if n == 'numpy.random': return E.Builtin(lambda *a, **k: self.random(attr, *a, **k), q)
        if n == 'math':
            if attr == 'pi': return sc.PI
            if attr in ('nan',): return sc.NAN
            if attr in ('inf',): return sc.PINF
            f = {'sqrt': self.f_sqrt, 'sin': self.f_sin, 'cos': self.f_cos, 'tan': self.f_tan, 'atan': self.f_arctan, 'atan2': self.f_arctan2,
                 'exp': self.f_exp, 'log': self.f_log, 'fabs': self.abs_, 'tanh': self.f_tanh, 'asin': self.f_arcsin, 'isnan': self.f_isnan, 'pow': self.power,
                 'floor': self.b_floor, 'ceil': self.b_ceil, 'hypot': self.f_hypot}.get(attr)
            if f: return E.Builtin(f, q)
        if n == 'scipy' and attr == 'linalg': return E.Mod('scipy.linalg')
        if n in ('scipy.linalg', 'numpy.linalg') and attr == 'LinAlgError': return E.ExcType('LinAlgError')
        if n == 'logging': return E.Builtin(lambda *a, **k: None, q)
        raise OutOfSubset(q)
    def random(self, attr, *a, **k):
        if attr in ('random', 'rand', 'random_sample'):
            sh = a[0] if a else None
            if sh is None: return self.e.fresh('rnd', sc.R)
            sh = tuple(iz(x) for x in (sh if isinstance(sh, (tuple, list)) else a))
            f = self.e.freshfn('rnd', *([sc.I]*len(sh) + [sc.R]))
            return mk(sh, lambda i: f(*[sc.zi(x) for x in i]), 'f')
        raise OutOfSubset('numpy.random.' + attr)
    # -------------------------------------------------------------- elementwise
    def isbool(self, x): return (isinstance(x, Arr) and x.dtype == 'b') or sc.is_boolv(x)
    def bothbool(self, a, b): return self.isbool(a) and self.isbool(b)
    def conv(self, x):
        if isinstance(x, (list, tuple)): return self.array(list(x))
        if isinstance(x, Arr) or sc.is_num(x) or sc.is_boolv(x): return x
        if hasattr(x, 'm_asarray'): return x.m_asarray(self.e)
        raise OutOfSubset('operand %r' % (x,))
    def shape_bc(self, arrs):
        shs = [a.shape for a in arrs]; nd = max(len(s) for s in shs); out = []
        for k in range(nd):
            ds = [s[k-nd+len(s)] for s in shs if k-nd+len(s) >= 0]
            d = None
            for x in ds:
                if isinstance(x, int) and x == 1: continue
                if d is None: d = x
                else:
                    self.e.samedim(d, x)
                    if isinstance(x, int): d = x
            out.append(1 if d is None else d)
        return tuple(out)
    def acc(self, a, sh):
        """function idx(out shape)->elem of a"""
        if not isinstance(a, Arr): return lambda i: a
        f = a.snap(); off = len(sh) - a.ndim
        pick = [None if (isinstance(d, int) and d == 1 and not (isinstance(sh[k+off], int) and sh[k+off] == 1)) else k+off for k, d in enumerate(a.shape)]
        return lambda i: f(tuple(0 if p is None else i[p] for p in pick))
    def ew(self, fn, args, dtype=None, defn=None, what=''):
        """elementwise fn over broadcast args; defn(*vals): definedness obligation"""
        args = [self.conv(a) for a in args]
        arrs = [a for a in args if isinstance(a, Arr)]
        if not arrs:
            if defn is not None:
                d = sc.norm(defn(*args))
                if d is not True: self.defob(what, d)
            return fn(*args)
        sh = self.shape_bc(arrs)
        acs = [self.acc(a, sh) for a in args]
        if dtype is None:
            dts = [dty(a) for a in args]
            dtype = 'f' if 'f' in dts else ('i' if 'i' in dts or 'b' in dts else 'b')
            if all(d == 'b' for d in dts): dtype = 'i'
        def g(i): return fn(*[a(i) for a in acs])
        comp = None
        encs = [a.comp for a in arrs if a.comp is not None and not (a.ndim == 1 and isinstance(a.shape[0], int) and a.shape[0] == 1)]
        if len(sh) == 1 and encs and all(c[0] is encs[0][0] for c in encs) and \
           all(a.comp is not None or (isinstance(a.shape[0], int) and a.shape[0] == 1) or a.ndim == 0 for a in arrs):
            bases = [(a.comp[1] if isinstance(a, Arr) and a.comp is not None else (lambda i, ac=ac: ac((0,)) if True else None)) for a, ac in zip(args, acs)]
            bases = []
            for a, ac in zip(args, acs):
                if isinstance(a, Arr) and a.comp is not None: bases.append(a.comp[1])
                else: bases.append(lambda i, ac=ac: ac((0,)))
            comp = (encs[0][0], lambda i: fn(*[b(i) for b in bases]))
        if defn is not None:
            if comp is not None:
                en = comp[0]; k = self.e.fresh('d', sc.I)
                d = sc.norm(defn(*[b(k) for b in bases]))
                if d is not True: self.defob(what, Implies(And(inrange(k, 0, en.N), en.mask(k)), d), (k,))
            else:
                ks = tuple(self.e.fresh('d', sc.I) for _ in sh)
                ks2 = tuple(0 if (isinstance(n, int) and n == 1) else k for k, n in zip(ks, sh))
                d = sc.norm(defn(*[a(ks2) for a in acs]))
                if d is not True:
                    self.defob(what, Implies(And(*[inrange(k, 0, n) for k, n in zip(ks2, sh) if not isinstance(k, int)]), d), [k for k in ks2 if not isinstance(k, int)])
        return mk(sh, g, dtype, comp=comp)
    def surely(self, fn, args, defn):
        '''the definedness condition is provable here'''
        old = self.e.defmode; self.e.defmode = 'ask'; self.asked = []
        try: self.ew(fn, args, 'f', defn, '')
        finally: self.e.defmode = old
        return all(self.asked)
    def defob(self, what, d, extra=()):
        if self.e.defmode == 'ask': self.asked.append(self.e.valid(sc.zb(d), 1.5)); return
        if self.e.defmode == 'obligation': self.e.oblige(what, sc.zb(d), 'def', extra)
        elif self.e.defmode == 'assume': self.e.dropped.add('definedness: ' + what)
    def ew1(self, fn, a, dtype=None): return self.ew(lambda x: fn(sc.tonum(x)) if not (dtype == 'b') else fn(x), [a], dtype)
    def ew2(self, fn, a, b, dtype=None): return self.ew(fn, [a, b], dtype)
    def logical_and(self, a, b): return self.ew(lambda x, y: And(self.tb(x), self.tb(y)), [a, b], 'b')
    def logical_or(self, a, b): return self.ew(lambda x, y: Or(self.tb(x), self.tb(y)), [a, b], 'b')
    def tb(self, x):
        if sc.is_boolv(x): return x
        return Or(sc.is_nan(x), sc.ne(x, 0))
    def f_logical_and(self, a, b): return self.logical_and(a, b)
    def f_logical_or(self, a, b): return self.logical_or(a, b)
    def f_logical_not(self, a): return self.ew(lambda x: Not(self.tb(x)), [a], 'b')
    def f_logical_xor(self, a, b): return self.ew(lambda x, y: Not(Iff(self.tb(x), self.tb(y))), [a, b], 'b')
    def cmpw(self, fn, a, b, where=None, out=None):
        if where is None and out is None: return self.ew2(fn, a, b, 'b')
        if out is not None:
            base = out
        else:
            base = None
        args = [a, b] + ([where] if where is not None else []) + ([base] if base is not None else [])
        self.e.fresh('unset', sc.B)
        if base is None:
            nd = max([x.ndim for x in (a, b, where) if isinstance(x, Arr)] + [0])
            u = self.e.freshfn('unset', *([sc.I]*nd + [sc.B]))
            r = self.ew(lambda x, y, w: And(w, fn(x, y)), [a, b, where], 'b')
            f = r.snap(); wf = self.acc(where, r.shape)
            return mk(r.shape, lambda i: ite(wf(i), f(i), u(*[sc.zi(k) for k in i])), 'b')
        w = where if where is not None else True
        r = self.ew(lambda x, y, w, o: ite(w, fn(x, y), o), [a, b, w, base], 'b')
        f = r.snap(); self.e.write(base, lambda i: True, f)
        return base
    def f_greater(self, a, b, out=None, where=None): return self.cmpw(sc.gt, a, b, where, out)
    def f_greater_equal(self, a, b, out=None, where=None): return self.cmpw(sc.ge, a, b, where, out)
    def f_less(self, a, b, out=None, where=None): return self.cmpw(sc.lt, a, b, where, out)
    def f_less_equal(self, a, b, out=None, where=None): return self.cmpw(sc.le, a, b, where, out)
    def f_equal(self, a, b): return self.ew2(sc.eq, a, b, 'b')
    def f_not_equal(self, a, b): return self.ew2(sc.ne, a, b, 'b')
    def f_isnan(self, a): return self.ew(lambda x: sc.is_nan(x), [a], 'b')
    def f_isfinite(self, a): return self.ew(lambda x: sc.finite(x), [a], 'b')
    def abs_(self, a): return a.m_abs(self.e) if hasattr(a, "m_abs") else self.ew1(sc.absv, a)
    f_abs = f_absolute = f_fabs = lambda self, a: self.abs_(a)
    def f_rad2deg(self, a): return self.divide(self.ew2(sc.mul, a, Fraction(180)), sc.PI)
    f_degrees = lambda self, a: self.f_rad2deg(a)
    def f_negative(self, a): return self.ew1(sc.neg, a)
    def f_add(self, a, b): return self.ew2(sc.add, a, b)
    def f_subtract(self, a, b): return self.ew2(sc.sub, a, b)
    def f_multiply(self, a, b): return self.ew2(sc.mul, a, b)
    def f_maximum(self, a, b): return self.ew2(sc.maximum, a, b)
    def f_minimum(self, a, b): return self.ew2(sc.minimum, a, b)
    def f_fmax(self, a, b): return self.ew2(lambda x, y: ite(sc.is_nan(x), y, ite(sc.is_nan(y), x, sc.maximum(x, y))), a, b)
    def f_fmin(self, a, b): return self.ew2(lambda x, y: ite(sc.is_nan(x), y, ite(sc.is_nan(y), x, sc.minimum(x, y))), a, b)
    def f_clip(self, a, lo, hi):
        r = a
        if lo is not None: r = self.f_maximum(r, lo)
        if hi is not None: r = self.f_minimum(r, hi)
        return r
    def f_sign(self, a): return self.ew1(lambda x: ite(sc.lt(x, 0), Fraction(-1), ite(sc.gt(x, 0), Fraction(1), Fraction(0))), a)
    def f_square(self, a): return self.ew1(lambda x: sc.mul(x, x), a)
    # division and powers
    def divide(self, a, b):
        if self.e.ieee:
            def sure(x, y):
                _, n1, p1, m1 = sc.parts(sc.tonum(x)); v, n, p, m = sc.parts(sc.tonum(y))
                return And(Not(Or(p1, m1, p, m)), Or(n1, n, Not(sc.eq_f(v, 0))))
            def plain(x, y):
                v1, n1, _, _ = sc.parts(sc.tonum(x)); v2, n2, _, _ = sc.parts(sc.tonum(y)); return sc.xf(self.div_v(v1, v2), Or(n1, n2))
            return self.ew(plain if self.surely(plain, [a, b], sure) else self.div_ieee, [a, b], 'f')
        def defn(x, y):
            _, n1, p1, m1 = sc.parts(x); v, n, p, m = sc.parts(y)
            return Or(n1, n, p, m, Not(sc.eq_f(v, 0)))
        return self.ew(self.div_f, [a, b], 'f', defn, 'no division by zero')
    f_divide = f_true_divide = lambda self, a, b: self.divide(a, b)
    def div_f(self, a, b):
        v1, n1, p1, m1 = sc.parts(sc.tonum(a)); v2, n2, p2, m2 = sc.parts(sc.tonum(b))
        if any(x is not False for x in (p1, m1, p2, m2)): return self.div_ieee(a, b)
        return sc.xf(self.div_v(v1, v2), Or(n1, n2))
    def div_v(self, v1, v2):
        c2 = sc.const(v2); c1 = sc.const(v1)
        if c2 is not None:
            if c2 == 0: return self.e.fresh('div0', sc.R)
            if c1 is not None: return Fraction(c1) / Fraction(c2)
            return sc._mul(sc.zr(v1), 1/Fraction(c2)) if c2 != 1 else sc.tofloat(v1)
        if c1 is not None and c1 == 0: return Fraction(0)
        return sc.zr(v1) / sc.zr(v2)
    def div_ieee(self, a, b):
        v1, n1, p1, m1 = sc.parts(sc.tonum(a)); v2, n2, p2, m2 = sc.parts(sc.tonum(b))
        i1, i2 = Or(p1, m1), Or(p2, m2)
        z2 = And(Not(n2), Not(i2), sc.eq_f(v2, 0)); z1 = And(Not(n1), Not(i1), sc.eq_f(v1, 0))
        if z2 is False and i1 is False and i2 is False: return sc.xf(self.div_v(v1, v2), Or(n1, n2))
        nan = Or(n1, n2, And(i1, i2), And(z1, z2))
        s = self.e.fresh('zsign', sc.B) if z2 is not False else False
        pos1 = Or(p1, And(Not(m1), sc.lt_f(0, v1))); pos2 = Or(And(z2, s), And(Not(z2), Or(p2, And(Not(m2), sc.lt_f(0, v2)))))
        inf = And(Not(nan), Or(i1, z2)); same = Iff(pos1, pos2)
        v = ite(i2, Fraction(0), self.div_v(v1, v2))
        return sc.xf(v, nan, And(inf, same), And(inf, Not(same)))
    def power(self, a, b):
        def defn(x, q):
            if isinstance(x, sc.XF): x = x.v   # NaN propagates
            c = sc.const(q)
            if c is not None:
                if Fraction(c).denominator == 1: return True if c >= 0 else Not(sc.eq_f(x, 0))
                return sc.le_f(0, x) if c > 0 else sc.lt_f(0, x)
            return Or(sc.lt_f(0, x), And(sc.eq_f(x, 0), sc.le_f(0, q)))
        if isinstance(a, Arr) and a.dtype == 'f' or not isinstance(a, Arr): dt = None
        dt = 'f'
        if not isinstance(a, Arr) and not isinstance(b, Arr) and sc.is_intv(a) and isinstance(b, int) and b >= 0: dt = None
        if isinstance(a, Arr) and a.dtype == 'i' and isinstance(b, int) and b >= 0: dt = 'i'
        if self.e.ieee:
            def sure(x, q): _, n, p, m = sc.parts(sc.tonum(x)); return And(Not(Or(p, m)), Or(n, defn(x, q)))
            def plain(x, q): v, n, _, _ = sc.parts(sc.tonum(x)); return sc.xf(self.pow_v(v, q), n)
            ok = sc.const(b) is not None and self.surely(plain, [a, b], sure)
            return self.ew(plain if ok else self.pow_s, [a, b], dt)
        return self.ew(self.pow_s, [a, b], dt, defn, 'power of a value in its domain')
    f_power = lambda self, a, b: self.power(a, b)
    def pow_v(self, x, q):
        c = sc.const(q)
        if c is None: return sc.pows_(x, q)
        c = Fraction(c); cx = sc.const(x)
        if c == 1: return x
        if c.denominator == 1:
            if c == 0: return Fraction(1)
            if c > 0: return sc.ipow(x, int(c)) if c <= 12 else self.oos('large power')
            return self.div_v(Fraction(1), sc.ipow(x, -int(c)))
        if c.denominator == 2: base = sc.sqrt_(x); n = c.numerator
        elif c.denominator == 3: base = sc.cbrt_(x); n = c.numerator
        else:
            if c < 0: return self.div_v(Fraction(1), sc.powq_(x, -c))
            return sc.powq_(x, c)
        if n > 0: return sc.ipow(base, n)
        return self.div_v(Fraction(1), sc.ipow(base, -n))
    def pow_s(self, x, q):
        v, n, p, m = sc.parts(sc.tonum(x))
        if not self.e.ieee:
            if p is not False or m is not False or isinstance(q, sc.XF): raise OutOfSubset('power of infinity')
            return sc.xf(self.pow_v(v, q), n)
        c = sc.const(q)
        if c is None: raise OutOfSubset('ieee power with symbolic exponent')
        c = Fraction(c); isint = c.denominator == 1
        fin = Not(Or(n, p, m))
        r = self.pow_v(v, q)
        nan = n; pi = False; ni = False
        if not isint:
            nan = Or(nan, And(fin, sc.lt_f(v, 0)))
            if c > 0: pi = Or(p, m)
            else:
                r = ite(Or(p, m), Fraction(0), r); pi = And(fin, sc.eq_f(v, 0))
        elif c > 0:
            odd = c.numerator % 2 == 1
            pi = p if odd else Or(p, m); ni = m if odd else False
        elif c < 0:
            r = ite(Or(p, m), Fraction(0), r)
            z = And(fin, sc.eq_f(v, 0))
            if z is not False:
                if c.numerator % 2 == 0: pi = z
                else:
                    s = self.e.fresh('zsign', sc.B); pi = And(z, s); ni = And(z, Not(s))
        return sc.xf(r, nan, pi, ni)
    def mod(self, a, b):
        def f(x, y):
            x, y = sc.tonum(x), sc.tonum(y)
            if isinstance(x, sc.XF) or isinstance(y, sc.XF):
                vx, nx, px, mx = sc.parts(x); vy, ny, py, my = sc.parts(y)
                if any(t is not False for t in (px, mx, py, my)): raise OutOfSubset('inf %')
                return sc.xf(f(vx, vy), Or(nx, ny))
            cx, cy = sc.const(x), sc.const(y)
            if cx is not None and cy is not None and cy != 0: return cx % cy
            if sc.is_intv(x) and sc.is_intv(y):
                if cy is None or cy <= 0: raise OutOfSubset('int % symbolic')
                return sc.norm(sc.zi(x) % sc.zi(y))
            q = sc.uf('floordiv', sc.R, sc.R, sc.I)(sc.zr(x), sc.zr(y))
            r = sc.zr(x) - z3.ToReal(q)*sc.zr(y)
            if q.get_id() not in sc.AX:
                yy = sc.zr(y)
                sc._axiom(q, [z3.Implies(yy > 0, z3.And(r >= 0, r < yy)), z3.Implies(yy < 0, z3.And(r <= 0, r > yy))])
            return r
        return self.ew(f, [a, b], None, lambda x, y: Not(sc.eq_f(sc.parts(y)[0], 0)), 'no modulo by zero')
    f_mod = f_remainder = lambda self, a, b: self.mod(a, b)
    def floordiv(self, a, b):
        def f(x, y):
            cx, cy = sc.const(x), sc.const(y)
            if cx is not None and cy: return cx // cy if isinstance(cx, int) and isinstance(cy, int) else Fraction(cx // cy)
            if sc.is_intv(x) and isinstance(cy, int) and cy > 0: return sc.norm(sc.zi(x) / sc.zi(cy))
            if isinstance(x, sc.XF) or isinstance(y, sc.XF): raise OutOfSubset('// nan')
            r = self.mod(x, y)
            return z3.ToReal(sc.uf('floordiv', sc.R, sc.R, sc.I)(sc.zr(x), sc.zr(y)))
        return self.ew(f, [a, b], None, lambda x, y: Not(sc.eq_f(sc.parts(y)[0], 0)), 'no division by zero')
    def b_floor(self, x):
        x = self.e.scalar(x)
        if isinstance(x, sc.XF): raise OutOfSubset('floor nan')
        c = sc.const(x)
        import math
        if c is not None: return math.floor(c)
        return sc.norm(z3.ToInt(sc.zr(x))) if not sc.is_intv(x) else x
    def b_ceil(self, x): return sc.neg(self.b_floor(sc.neg(self.e.scalar(x))))
    def f_floor(self, a):
        return self.ew(lambda x: sc.tofloat(self.b_floor(x)), [a], 'f')
    def f_ceil(self, a): return self.ew(lambda x: sc.tofloat(self.b_ceil(x)), [a], 'f')
    def fin1(self, fn, a, defn=None, what=''):
        def g(x):
            v, n, p, m = sc.parts(sc.tonum(x))
            if p is not False or m is not False: raise OutOfSubset('function of infinity')
            return sc.xf(fn(v), n)
        return self.ew(g, [a], 'f', (lambda x: defn(sc.parts(sc.tonum(x))[0])) if defn else None, what)
    def f_sqrt(self, a): return self.power(a, Fraction(1, 2))
    def f_cbrt(self, a): return self.fin1(sc.cbrt_, a)
    def f_sin(self, a): return self.fin1(sc.sin_, a)
    def f_cos(self, a): return self.fin1(sc.cos_, a)
    def f_tan(self, a): return self.fin1(sc.tan_, a)
    def f_tanh(self, a): return self.fin1(sc.tanh_, a)
    def f_arctan(self, a): return self.fin1(sc.arctan_, a)
    def f_exp(self, a): return self.fin1(sc.exp_, a)
    def f_log(self, a): return self.fin1(sc.log_, a, lambda x: sc.lt_f(0, x), 'log of positive')
    def f_arcsin(self, a): return self.fin1(sc.arcsin_, a, lambda x: And(sc.le_f(-1, x), sc.le_f(x, 1)), 'arcsin within [-1,1]')
    def f_arccos(self, a): return self.fin1(lambda x: sc._sub(sc.PI/2, sc.arcsin_(x)), a, lambda x: And(sc.le_f(-1, x), sc.le_f(x, 1)), 'arccos within [-1,1]')
    def f_arctan2(self, a, b): return self.ew(lambda y, x: sc.arctan2_(y, x), [a, b], 'f')
    def f_hypot(self, a, b): return self.f_sqrt(self.f_add(self.f_square(a), self.f_square(b)))
    def f_deg2rad(self, a): return self.ew1(lambda x: sc.mul(x, sc.PI/180), a)
    f_radians = lambda self, a: self.f_deg2rad(a)
    # -------------------------------------------------------------- construction
    def shp(self, s):
        if isinstance(s, (tuple, list)): return tuple(iz(x) for x in s)
        if isinstance(s, Arr): raise OutOfSubset('array shape')
        return (iz(s),)
    def dtype_of(self, dtype, default):
        if dtype is None: return default
        if isinstance(dtype, E.Builtin): return {'float': 'f', 'int': 'i', 'bool': 'b'}[dtype.name]
        raise OutOfSubset('dtype')
    def f_zeros(self, s, dtype=None):
        d = self.dtype_of(dtype, 'f'); z = {'f': Fraction(0), 'i': 0, 'b': False}[d]
        return mk(self.shp(s), lambda i: z, d)
    def f_ones(self, s, dtype=None):
        d = self.dtype_of(dtype, 'f'); z = {'f': Fraction(1), 'i': 1, 'b': True}[d]
        return mk(self.shp(s), lambda i: z, d)
    def f_empty(self, s, dtype=None):
        d = self.dtype_of(dtype, 'f'); sh = self.shp(s)
        f = self.e.freshfn('empty', *([sc.I]*len(sh) + [{'f': sc.R, 'i': sc.I, 'b': sc.B}[d]]))
        return mk(sh, lambda i: f(*[sc.zi(k) for k in i]), d)
    def f_full(self, s, v, dtype=None):
        sh = self.shp(s)
        d = self.dtype_of(dtype, dty(v)); f = self.e.bcast_fn(v, sh)
        conv = (lambda x: sc.tofloat(x)) if d == 'f' else (lambda x: x)
        return mk(sh, lambda i: conv(f(i)), d)
    def f_full_like(self, a, v, dtype=None): return self.f_full(a.shape, v, dtype or E.Builtin(None, {'f': 'float', 'i': 'int', 'b': 'bool'}[a.dtype]))
    def f_zeros_like(self, a, dtype=None): return self.f_zeros(a.shape, dtype or E.Builtin(None, {'f': 'float', 'i': 'int', 'b': 'bool'}[a.dtype]))
    def f_ones_like(self, a, dtype=None): return self.f_ones(a.shape, dtype or E.Builtin(None, {'f': 'float', 'i': 'int', 'b': 'bool'}[a.dtype]))
    f_empty_like = f_zeros_like
    def array(self, x):
        if isinstance(x, Arr): return self.copy(x)
        if isinstance(x, (list, tuple)):
            if len(x) == 0: return mk((0,), lambda i: Fraction(0), 'f')
            xs = [self.array(y) if isinstance(y, (list, tuple, Arr)) else y for y in x]
            if isinstance(xs[0], Arr):
                if xs[0].ndim != 1: raise OutOfSubset('nested array')
                for y in xs[1:]: self.e.samedim(xs[0].shape[0], y.shape[0])
                fs = [y.snap() for y in xs]
                d = 'f' if any(y.dtype == 'f' for y in xs) else xs[0].dtype
                return mk((len(xs), xs[0].shape[0]), lambda i: self.pick([f((i[1],)) for f in fs], i[0]), d)
            ds = [dty(y) for y in xs]
            d = 'f' if 'f' in ds else ('i' if 'i' in ds else 'b')
            cv = (lambda v: sc.tofloat(v)) if d == 'f' else (lambda v: v)
            return mk((len(xs),), lambda i: self.pick([cv(v) for v in xs], i[0]), d)
        if sc.is_num(x) or sc.is_boolv(x):
            return mk((), lambda i: x, dty(x))
        if hasattr(x, 'm_asarray'): return self.copy(x.m_asarray(self.e))
        raise OutOfSubset('np.array(%r)' % type(x))
    def pick(self, vals, i):
        if isinstance(i, int): return vals[i]
        r = vals[-1]
        for k in range(len(vals)-2, -1, -1): r = ite(ieq(i, k), vals[k], r)
        return r
    def f_array(self, x, dtype=None):
        a = self.array(x)
        return self.astype(a, dtype) if dtype is not None else a
    def f_asarray(self, x, dtype=None): return x if isinstance(x, Arr) else self.array(x)
    f_atleast_1d = lambda self, x: x if isinstance(x, Arr) and x.ndim else self.array([x])
    def copy(self, a):
        f = a.snap(); r = mk(a.shape, f, a.dtype, comp=a.comp)
        if a.getinv(): r.inv = a.getinv(); r.invver = r.buf.version
        return r
    f_copy = lambda self, a: self.copy(a)
    def astype(self, a, dtype):
        d = dtype if dtype in ('f', 'i', 'b') else self.dtype_of(dtype, 'f')
        f = a.snap()
        if d == a.dtype: return self.copy(a)
        if d == 'f': return mk(a.shape, lambda i: sc.tofloat(f(i)), 'f')
        if d == 'b': return mk(a.shape, lambda i: self.tb(f(i)), 'b')
        if d == 'i' and a.dtype == 'b': return mk(a.shape, lambda i: sc.tonum(f(i)), 'i')
        raise OutOfSubset('astype int')
    def f_arange(self, a, b=None, step=1):
        lo, hi = (0, a) if b is None else (a, b)
        lo, hi, step = iz(self.e.scalar(lo)), iz(self.e.scalar(hi)), iz(self.e.scalar(step))
        if not all(isinstance(x, int) or sc.is_intv(x) for x in (lo, hi, step)): raise OutOfSubset('float arange')
        if not isinstance(step, int) or step == 0: raise OutOfSubset('arange step')
        n = isub(hi, lo) if step > 0 else isub(lo, hi); s = abs(step)
        if s != 1: n = -(-n // s) if isinstance(n, int) else isimp((sc.zi(n) + (s-1)) / s)
        if isinstance(n, int): n = max(n, 0)
        elif not self.e.valid(ile(0, n)): n = iz(ite(ilt(n, 0), 0, n))
        def inv(j):
            d = isub(j, lo) if step > 0 else isub(lo, j)
            if s == 1: return inrange(d, 0, n), d
            if isinstance(d, int): return And(d % s == 0, inrange(d // s, 0, n)), d // s
            k = isimp(d / s)
            return And(sc.norm(z3.simplify(d % s == 0)), inrange(k, 0, n)), k
        r = mk((n,), lambda i: iadd(lo, imul(step, i[0])), 'i'); r.inv = inv; r.invver = r.buf.version
        return r
    def f_concatenate(self, xs, axis=0):
        xs = [self.conv(x) for x in self.need_list(xs)]
        if axis not in (0,): raise OutOfSubset('concatenate axis')
        if any(x.ndim != 1 for x in xs): raise OutOfSubset('concatenate 2-D')
        ds = [x.dtype for x in xs]; d = 'f' if 'f' in ds else ('i' if 'i' in ds else 'b')
        offs = [0]
        for x in xs: offs.append(iadd(offs[-1], x.shape[0]))
        fs = [x.snap() for x in xs]
        cv = sc.tofloat if d == 'f' else (lambda v: v)
        def g(i):
            r = cv(fs[-1]((isub(i[0], offs[-2]),)))
            for k in range(len(xs)-2, -1, -1):
                c = ilt(i[0], offs[k+1])
                if c is False: continue
                r = ite(c, cv(fs[k]((isub(i[0], offs[k]),))), r) if c is not True else cv(fs[k]((isub(i[0], offs[k]),)))
            return r
        return mk((offs[-1],), g, d)
    f_hstack = lambda self, xs: self.f_concatenate(xs)
    def f_append(self, a, b):
        b = self.conv(b)
        if not isinstance(b, Arr): b = self.array([b])
        if b.ndim == 0: b = self.array([b.get(())])
        return self.f_concatenate([self.conv(a), b])
    def f_insert(self, a, k, v): raise OutOfSubset('np.insert')
    def f_flipud(self, a): return self.e.getitem(a, E.SliceV(None, None, -1))
    f_flip = lambda self, a: self.f_flipud(a) if a.ndim == 1 else self.oos('flip')
    def f_diff(self, a): return self.e.binop(ast.Sub, self.e.getitem(a, E.SliceV(1, None, None)), self.e.getitem(a, E.SliceV(None, -1, None)))
    def f_column_stack(self, xs):
        xs = self.need_list(xs); fs = [x.snap() for x in xs]
        for x in xs[1:]: self.e.samedim(xs[0].shape[0], x.shape[0])
        return mk((xs[0].shape[0], len(xs)), lambda i: self.pick([sc.tofloat(f((i[0],))) for f in fs], i[1]), 'f')
    def f_tile(self, *a): raise OutOfSubset('tile')
    def f_linspace(self, *a, **k): raise OutOfSubset('linspace')
    def f_size(self, a): return self.size(a)
    def f_shape(self, a): return a.shape
    def f_ndim(self, a): return a.ndim if isinstance(a, Arr) else 0
    def size(self, a):
        n = 1
        for d in a.shape: n = imul(n, d)
        return n
    # -------------------------------------------------------------- enumerations
    def enum(self, m):
        """enumeration of the true positions of a 1-D bool Arr"""
        e = self.e; N = m.shape[0]; f = m.snap()
        mask = memo(lambda i: f(i))
        mk1 = lambda i: mask((i,))
        c = sc.zb(mk1(CANON[0])); key = (z3.simplify(c).get_id(), sc.zi(N).get_id() if not isinstance(N, int) else N)
        if key in e.enums: return e.enums[key][0]
        keep = z3.simplify(c)
        if m.comp is not None: pass
        # constant-size small arrays: still symbolic
        n = e.fresh('cnt', sc.I)
        run = self.convex(mk1, N)
        gs = e.guards; e.guards = []
        try:
            if run:
                a = e.fresh('run', sc.I)
                e.fact(And(n >= 0, a >= 0, sc.zb(ile(iadd(a, n), N))))
                e.fact(Forall(1, lambda i: Implies(inrange(i, 0, N), Iff(mk1(i), inrange(i, a, iadd(a, n)))), 'run'))
                marks = landmarks(keep, CANON[0])
                pts = [a, isimp(a + n - 1), isimp(a - 1), isimp(a + n), z3.IntVal(0), isub(N, 1)] + [x for t in marks for x in (t, isimp(t-1), isimp(t+1))]
                for t in pts:
                    e.fact(Implies(inrange(t, 0, N), Iff(mk1(t), inrange(t, a, iadd(a, n)))))
                en = Enum(mk1, N, n, lambda k: iadd(a, k), lambda j: isub(j, a), (a, n))
            else:
                fe = e.freshfn('enum', sc.I, sc.I); fr = e.freshfn('rank', sc.I, sc.I)
                e.fact(And(n >= 0, sc.zb(ile(n, N))))
                ef = lambda k: (k.arg(0) if z3.is_expr(k) and z3.is_app(k) and k.decl().eq(fr) and False else fe(sc.zi(k)))
                def axk(k): 
                    t = fe(sc.zi(k)); return Implies(inrange(k, 0, n), And(inrange(t, 0, N), mk1(t), fr(t) == sc.zi(k)))
                def axj(j):
                    t = fr(sc.zi(j)); return Implies(And(inrange(j, 0, N), mk1(j)), And(inrange(t, 0, n), fe(t) == sc.zi(j)))
                e.fact(Forall(1, axk, 'enum')); e.fact(Forall(1, axj, 'rank'))
                e.fact(Forall(2, lambda j, k: Implies(And(inrange(j, 0, n), inrange(k, 0, n), ilt(j, k)), fe(sc.zi(j)) < fe(sc.zi(k))) if not ieq(j, k) is True else True, 'enum increasing'))
                def ends(j): return Implies(And(inrange(j, 0, N), mk1(j)), And(n > 0, fe(z3.IntVal(0)) <= sc.zi(j), fe(n-1) >= sc.zi(j)))
                e.fact(Forall(1, ends, 'enum ends'))
                e.fact(Implies(n > 0, And(axk(0), axk(isimp(n-1)))))
                en = Enum(mk1, N, n, ef, lambda j: fr(sc.zi(j)), None); en.fr = fr
        finally: e.guards = gs
        e.enums[key] = (en, keep)
        return en
    def convex(self, mk1, N):
        """is the mask provably a contiguous run?"""
        e = self.e
        i, j, k = e.fresh('cv', sc.I), e.fresh('cv', sc.I), e.fresh('cv', sc.I)
        try: g = Implies(And(ile(0, i), i < j, j < k, sc.zb(ilt(k, N)), mk1(i), mk1(k)), mk1(j))
        except OutOfSubset: return False
        if isinstance(g, bool): return g
        if not any(isinstance(f, Forall) and f.name == 'increasing' for f in e.facts) and not e.is_intform(g): return False
        fs = [f for f in e.snapfacts() if not isinstance(f, Forall) or f.name in ('increasing', 'grid')]
        ng = z3.Not(g)
        return e.query('c', g, lambda: solver.check(solver.instantiate(fs, [ng], (), 1) + [ng], 1.5).status == 'unsat')
    def idx_arr(self, en):
        N, n = en.N, en.n
        r = mk((n,), lambda k: iz(en.e(k[0])), 'i')
        r.inv = lambda j: (And(inrange(j, 0, N), en.mask(j)), iz(en.rank(j)))
        r.comp = (en, lambda j: j)
        return r
    def f_where(self, c, a=None, b=None):
        if a is not None:
            return self.ew(lambda x, y, z: ite(self.tb(x), y, z), [c, a, b], None if True else 'f') if not self.bothbool(a, b) else self.ew(lambda x, y, z: ite(self.tb(x), y, z), [c, a, b], 'b')
        c = self.conv(c)
        if c.dtype != 'b': c = self.ew(lambda x: self.tb(x), [c], 'b')
        if c.ndim != 1: raise OutOfSubset('where on 2-D')
        return (self.idx_arr(self.enum(c)),)
    f_nonzero = lambda self, c: self.f_where(c)
    def f_flatnonzero(self, c): return self.f_where(c)[0]
    def f_argwhere(self, c): raise OutOfSubset('argwhere')
    # -------------------------------------------------------------- fancy indexing
    def fancy_get(self, v, fancy):
        e = self.e
        if fancy[0] == 'mask':
            m = fancy[1]
            if v.ndim == m.ndim == 2: raise OutOfSubset('2-D mask read')
            raise OutOfSubset('mask')
        if fancy[0] == 'multi': raise OutOfSubset('several index arrays')
        ax, k = fancy
        k = self.conv(k)
        if k.ndim != 1: raise OutOfSubset('2-D index array')
        f = v.snap(); sh = list(v.shape)
        if k.dtype == 'b':
            e.samedim(sh[ax], k.shape[0], 'mask length agrees')
            # masks over a compressed index array: compose
            en = self.enum(k)
            base = lambda i: f((i,)) if v.ndim == 1 else None
            N2 = sh[ax]; sh[ax] = en.n
            def g(i):
                p = i[ax]; t = en.e(p)
                if z3.is_expr(p) and z3.is_app(p) and getattr(en, 'fr', None) is not None and p.decl().eq(en.fr): t = iz(p.arg(0))
                return f(i[:ax] + (iz(t),) + i[ax+1:])
            r = mk(sh, g, v.dtype)
            if v.ndim == 1:
                r.comp = (en, lambda i: f((i,)))
                inv0 = v.getinv()
                if inv0:
                    def inv(j):
                        p, kk = inv0(j); return And(p, inrange(kk, 0, N2), en.mask(kk)), iz(en.rank(kk))
                    r.inv = inv; r.invver = r.buf.version
            return r
        if k.dtype == 'f':
            n = k.shape[0]
            if isinstance(n, int) and n == 0: raise E.PyExc('IndexError')
            if e.valid_int(ieq(n, 0)) : raise E.PyExc('IndexError', 'float index')
            raise E.PyExc('IndexError', 'arrays used as indices must be of integer type')
        kf = k.snap(); n = k.shape[0]; N = sh[ax]
        # bounds
        t = e.fresh('ix', sc.I); kv = kf((t,))
        if k.comp is not None and k.comp[0].run is None:
            en = k.comp[0]; kv2 = k.comp[1](t)
            goal = Implies(And(inrange(t, 0, en.N), en.mask(t)), And(ile(isub(0, N), kv2), ilt(kv2, N)))
            nonneg = e.valid(Implies(And(inrange(t, 0, en.N), en.mask(t)), ile(0, kv2)))
        else:
            t2 = t if not (isinstance(n, int) and n == 1) else 0
            kv = kf((t2,))
            goal = Implies(inrange(t2, 0, n), And(ile(isub(0, N), kv), ilt(kv, N)))
            nonneg = e.valid(Implies(inrange(t2, 0, n), ile(0, kv)))
        if not (goal is True or e.valid(goal)): e.oblige('index array in bounds', sc.zb(goal), 'def', (t,))
        sh[ax] = n
        def at(p):
            q = kf((p,))
            return q if nonneg else iz(ite(ilt(q, 0), iadd(q, N), q))
        r = mk(sh, lambda i: f(i[:ax] + (at(i[ax]),) + i[ax+1:]), v.dtype)
        if k.comp is not None and v.ndim == 1 and nonneg:
            r.comp = (k.comp[0], lambda j: f((k.comp[1](j),)))
        return r
    def fancy_set(self, v, fancy, val):
        e = self.e
        if fancy[0] == 'mask':
            m = fancy[1]
            if m.ndim != v.ndim: raise OutOfSubset('mask rank')
            for x, y in zip(m.shape, v.shape): e.samedim(x, y)
            if isinstance(val, Arr) and not (val.ndim == 0): raise OutOfSubset('2-D masked array store')
            mf = m.snap(); x = e.scalar(val)
            e.write(v, lambda i: mf(i), lambda i: x); return
        if fancy[0] == 'multi': raise OutOfSubset('several index arrays')
        ax, k = fancy
        if isinstance(k, (list, tuple)) and all(isinstance(x, int) for x in k) and v.ndim == 1:
            N = v.shape[0]; ks = [e.idxnorm(x, N) for x in k]
            vf = e.bcast_fn(val, (len(ks),))
            def pickv(i):
                r = vf((0,))
                for p in range(1, len(ks)): r = ite(ieq(i[0], ks[p]), vf((p,)), r)
                return r
            e.write(v, lambda i: Or(*[ieq(i[0], q) for q in ks]), pickv); return
        k = self.conv(k)
        if k.ndim != 1: raise OutOfSubset('2-D index array store')
        sh = list(v.shape); N = sh[ax]
        if k.dtype == 'b':
            e.samedim(N, k.shape[0], 'mask length agrees')
            mf = k.snap()
            if not isinstance(val, Arr) or val.ndim == 0 or all(isinstance(d, int) and d == 1 for d in val.shape):
                x = e.scalar(val) if isinstance(val, Arr) else val
                e.write(v, lambda i: mf((i[ax],)), lambda i: x); return
            en = self.enum(k)
            if val.ndim == 1 and v.ndim == 1 and val.comp is not None and val.comp[0] is en:
                b = val.comp[1]
                e.write(v, lambda i: mf((i[0],)), lambda i: b(i[0])); return
            sh[ax] = en.n; vf = e.bcast_fn(val, tuple(sh))
            e.write(v, lambda i: mf((i[ax],)), lambda i: vf(i[:ax] + (iz(en.rank(i[ax])),) + i[ax+1:])); return
        if k.dtype == 'f':
            # e.g. np.empty(0) used as index: numpy raises
            raise E.PyExc('IndexError', 'arrays used as indices must be of integer type')
        n = k.shape[0]; sh[ax] = n
        inv = k.getinv()
        if inv is None: raise OutOfSubset('store through an index array without known inverse')
        t = e.fresh('ix', sc.I); kf = k.snap(); 
        if k.comp is not None and k.comp[0].run is None:
            en = k.comp[0]; kv = k.comp[1](t)
            goal = Implies(And(inrange(t, 0, en.N), en.mask(t)), inrange(kv, 0, N))
        else:
            kv = kf((t,)); goal = Implies(inrange(t, 0, n), inrange(kv, 0, N))
        if not (goal is True or e.valid(goal)): e.oblige('index array in bounds (store)', sc.zb(goal), 'def', (t,))
        if isinstance(val, Arr) and val.ndim == 1 and v.ndim == 1 and val.comp is not None and k.comp is not None and val.comp[0] is k.comp[0] and self.is_ident(k):
            b = val.comp[1]
            e.write(v, lambda i: inv(i[0])[0], lambda i: b(i[0])); return
        vf = e.bcast_fn(val, tuple(sh))
        e.write(v, lambda i: inv(i[ax])[0], lambda i: vf(i[:ax] + (inv(i[ax])[1],) + i[ax+1:]))
    def is_ident(self, k):
        r = k.comp[1](CANON[3]); return z3.is_expr(r) and r.eq(CANON[3])
    # -------------------------------------------------------------- reductions
    def flat_elems(self, a):
        """(index arity, ranges-condition, elem) for a reduction over all elements"""
        if a.comp is not None:
            en, b = a.comp
            return 1, (lambda i: And(inrange(i, 0, en.N), en.mask(i))), (lambda i: b(i))
        sh = a.shape; f = a.snap()
        return len(sh), (lambda *i: And(*[inrange(k, 0, n) for k, n in zip(i, sh)])), (lambda *i: f(tuple(i)))
    def small(self, a, cap=16):
        if a.comp is not None or not all(isinstance(d, int) for d in a.shape): return None
        n = 1
        for d in a.shape: n *= d
        if n > cap: return None
        return [a.get(tuple(i)) for i in itertools.product(*[range(d) for d in a.shape])]
    def any(self, a):
        e = self.e
        if not isinstance(a, Arr): return e.truth(a) if not isinstance(a, (list, tuple)) else Or(*[e.truth(x) for x in a])
        xs = self.small(a)
        if xs is not None: return Or(*[self.tb(x) for x in xs])
        nd, rng, el = self.flat_elems(a)
        cs = CANON[:nd]; body = sc.zb(And(rng(*cs), self.tb(el(*cs))))
        sb = z3.simplify(body)
        if z3.is_false(sb): return False
        key = ('any', sb.get_id())
        if key in e.enums: return e.enums[key][0]
        b = e.fresh('any', sc.B); ws = [e.fresh('w', sc.I) for _ in range(nd)]
        gs = e.guards; e.guards = []
        e.fact(Implies(b, And(rng(*ws), self.tb(el(*ws)))))
        e.fact(Forall(nd, lambda *i: Implies(And(rng(*i), self.tb(el(*i))), b), 'any'))
        e.guards = gs
        e.enums[key] = (b, sb)
        return b
    def all(self, a):
        e = self.e
        if not isinstance(a, Arr): return e.truth(a) if not isinstance(a, (list, tuple)) else And(*[e.truth(x) for x in a])
        f = a.snap()
        na = mk(a.shape, lambda i: Not(self.tb(f(i))), 'b')
        if a.comp is not None: na.comp = (a.comp[0], lambda i, b=a.comp[1]: Not(self.tb(b(i))))
        return Not(self.any(na))
    def f_any(self, a, axis=None):
        if axis is not None: raise OutOfSubset('axis')
        return self.any(self.conv(a))
    def f_all(self, a, axis=None):
        if axis is not None: raise OutOfSubset('axis')
        return self.all(self.conv(a))
    def extremum(self, a, less, name, ignore_nan=False):
        """max/min over all elements"""
        e = self.e
        if not isinstance(a, Arr): return a
        xs = self.small(a)
        if xs is not None:
            if not xs: raise E.PyExc('ValueError')
            r = xs[0]
            for x in xs[1:]: r = sc.minimum(r, x) if name == 'min' else sc.maximum(r, x)
            return r
        nd, rng, el = self.flat_elems(a)
        cs = CANON[:nd]; v = el(*cs)
        vn = sc.parts(v)
        key = ('ext', name, ignore_nan, z3.simplify(sc.zb(rng(*cs))).get_id(), z3.simplify(sc.zr(vn[0])).get_id(), z3.simplify(sc.zb(vn[1])).get_id(), dty(v) if not isinstance(v, sc.XF) else 'f')
        if key in e.enums: return e.enums[key][0]
        isint = a.dtype == 'i'
        r = e.fresh(name, sc.I if isint else sc.R); ws = [e.fresh('w', sc.I) for _ in range(nd)]
        # non-empty obligation: numpy raises ValueError on empty
        if a.comp is not None: e.oblige('reduction of a non-empty array', a.comp[0].n > 0)
        else:
            e.oblige('reduction of a non-empty array', sc.zb(And(*[ilt(0, n) for n in a.shape])))
        gs = e.guards
        hasnan = isinstance(v, sc.XF)
        def val(*i): return sc.parts(el(*i))
        nanf = e.fresh(name + '_nan', sc.B) if hasnan and not ignore_nan else False     # some element is NaN
        r0 = r; wit = (lambda q: And(Not(q[1]), sc.eq_f(q[0], r0)))(val(*ws))
        if nanf is not False:
            e.fact(And(rng(*ws), ite(nanf, val(*ws)[1], wit)))
        else: e.fact(And(rng(*ws), wit))
        def body(*i):
            q = val(*i)
            c = sc.le_f(q[0], r0) if name == 'max' else sc.le_f(r0, q[0])
            if nanf is not False: return Implies(And(rng(*i), Not(nanf)), And(Not(q[1]), c))
            return Implies(And(rng(*i), Not(q[1])), c)
        r = sc.xf(r, nanf)
        e.fact(Forall(nd, body, name))
        if nd == 1 and isint:      # the end points, for the int-only validity checks
            e.fact(body(0))
            if a.comp is None: e.fact(body(isub(a.shape[0], 1)))
        if not e.guards: e.enums[key] = (r, (v, vn))
        return r
    def f_max(self, a, axis=None):
        if axis is not None: return self.axisred(a, axis, sc.maximum)
        return self.extremum(self.conv(a), None, 'max')
    def f_min(self, a, axis=None):
        if axis is not None: return self.axisred(a, axis, sc.minimum)
        return self.extremum(self.conv(a), None, 'min')
    f_amax = lambda self, a, axis=None: self.f_max(a, axis)
    f_amin = lambda self, a, axis=None: self.f_min(a, axis)
    def f_nanmax(self, a): return self.extremum(self.conv(a), None, 'max', True)
    def f_nanmin(self, a): return self.extremum(self.conv(a), None, 'min', True)
    def axisred(self, a, axis, fn):
        if a.ndim != 2 or axis not in (1, -1) or not isinstance(a.shape[1], int): raise OutOfSubset('axis reduction')
        f = a.snap(); m = a.shape[1]
        def g(i):
            r = f((i[0], 0))
            for k in range(1, m): r = fn(r, f((i[0], k)))
            return r
        return mk((a.shape[0],), g, a.dtype)
    def argext(self, a, name):
        e = self.e
        if a.ndim != 1: raise OutOfSubset('argmin 2-D')
        n = a.shape[0]; f = a.snap()
        r = e.fresh(name, sc.I)
        e.oblige('arg-reduction of a non-empty array', sc.zb(ilt(0, n)))
        e.fact(And(inrange(r, 0, n)))
        vr = f((r,))
        if isinstance(vr, sc.XF): raise OutOfSubset('argmin of possibly NaN array')
        better = (lambda x, y: sc.lt_f(x, y)) if name == 'argmin' else (lambda x, y: sc.lt_f(y, x))
        e.fact(Forall(1, lambda i: Implies(inrange(i, 0, n), And(Not(better(f((i,)), vr)), Implies(ilt(i, r), Not(sc.eq_f(f((i,)), vr))))), name))
        return r
    def f_argmin(self, a): return self.argext(self.conv(a), 'argmin')
    def f_argmax(self, a): return self.argext(self.conv(a), 'argmax')
    def total(self, a, nanskip=False, lo_hint=None):
        """sum of all elements: an opaque constant, shared by equal sums"""
        e = self.e
        if not isinstance(a, Arr): return a
        def nz(x): return ite(sc.is_nan(x), Fraction(0), xf0(x)) if isinstance(x, sc.XF) and nanskip else sc.tonum(x)
        def xf0(x): return sc.xf(x.v, False, x.pi, x.ni)
        xs = self.small(a)
        if xs is not None:
            r = 0 if a.dtype in 'ib' else Fraction(0)
            for x in xs: r = sc.add(r, nz(x))
            return r
        if a.ndim != 1: raise OutOfSubset('sum 2-D')
        if a.comp is not None:
            en, b = a.comp; N = en.N
            isint = a.dtype in 'ib'
            fn = lambda i: ite(en.mask(i), nz(b(i)), 0 if isint else Fraction(0))
        else:
            f = a.snap(); N = a.shape[0]; fn = lambda i: nz(f((i,)))
        return self.sumof(fn, N, a.dtype in 'ib')
    def sumof(self, fn, N, isint=False):
        """an opaque constant per sum; its canonical form is a sum over all integers i of a finitely supported term
        (re-indexed by the index the arrays are read at), so that slices, masks and reversals of the same set agree"""
        e = self.e; c = CANON[0]
        v = fn(c)
        if isinstance(v, sc.XF): raise OutOfSubset('sum of possibly NaN values')
        z = (lambda x: sc.zi(x)) if isint else (lambda x: sc.zr(x))
        o, s = reindex(z3.simplify(z(v)), c)
        zero = 0 if isint else Fraction(0)
        def can(i):
            k = isub(i, o) if s == 1 else isub(o, i)
            return ite(inrange(k, 0, N), fn(k), zero)
        t = z3.simplify(z(can(c)), som=True)
        for (S, can2, t2, i2) in e.sums:
            if i2 == isint and t.eq(t2): return S
        S = e.fresh('sum', sc.I if isint else sc.R)
        gs = e.guards; e.guards = []
        e.fact(Implies(ile(N, 0), S == 0))
        e.guards = gs
        e.sums.append((S, can, t, isint))
        return S
    def f_sum(self, a, axis=None):
        if axis is not None: raise OutOfSubset('sum axis')
        return self.total(self.conv(a))
    def f_nansum(self, a): return self.total(self.conv(a), True)
    def f_count_nonzero(self, a): return self.total(self.ew(lambda x: self.tb(x), [a], 'b'))
    def f_mean(self, a): return self.divide(self.total(a), self.size(a))
    def f_nanmean(self, a):
        f = a.snap(); S = self.total(a, True)
        c = self.total(mk(a.shape, lambda i: Not(sc.is_nan(f(i))), 'b'))
        return self.divide(S, c)
    def f_cumsum(self, a): raise OutOfSubset('cumsum')
    def f_allclose(self, a, b): raise OutOfSubset('allclose')
    def f_interp(self, x, xp, fp):
        """np.interp(x, xp, fp): xp increasing enumeration; contract: piecewise linear"""
        return self.e.ext['np.interp'](self.e, x, xp, fp) if 'np.interp' in self.e.ext else self.interp(x, xp, fp)
    def interp(self, x, xp, fp):
        """contract: value between neighbouring points; constant beyond the ends.  xp must be increasing."""
        e = self.e
        x, xp, fp = self.conv(x), self.conv(xp), self.conv(fp)
        n = xp.shape[0]; e.samedim(n, fp.shape[0])
        e.oblige('interp needs at least one point', sc.zb(ilt(0, n)))
        def defined(A, what):
            f = A.snap(); k = e.fresh('ip', sc.I)
            if A.comp is not None:
                en, base = A.comp; v = base(k); c = And(inrange(k, 0, en.N), en.mask(k))
            else: v = f((k,)); c = inrange(k, 0, A.shape[0])
            if not isinstance(v, sc.XF): return f
            e.oblige('interpolation %s are defined' % what, sc.zb(Implies(c, sc.finite(v))), 'def', (k,))
            return lambda i: (lambda v: v.v if isinstance(v, sc.XF) else v)(f(i))
        pf, ff = defined(xp, 'points'), defined(fp, 'values')
        if not isinstance(x, Arr): xs, xf_ = (), (lambda i: x)
        else: xs, xf_ = x.shape, x.snap()
        sg = e.freshfn('seg', sc.R, sc.I)
        def val(q):
            q = sc.zr(q); s = sg(q)
            p0, p1 = pf((s,)), pf((isimp(s+1),)); f0, f1 = ff((s,)), ff((isimp(s+1),))
            first, last = pf((0,)), pf((isub(n, 1),))
            fl, fh = ff((0,)), ff((isub(n, 1),))
            if any(isinstance(t, sc.XF) for t in (p0, p1, f0, f1)): raise OutOfSubset('interp through NaN')
            if s.get_id() not in sc.AX or True:
                sc._axiom(s, [z3.Implies(sc.zb(And(sc.lt(first, q), sc.lt(q, last))), sc.zb(And(s >= 0, ilt(isimp(s+1), n), sc.le(p0, q), sc.lt(q, p1))))])
            return ite(sc.le(q, first), fl, ite(sc.le(last, q), fh, sc.add(f0, self.div_v(sc.mul(sc.sub(f1, f0), sc.sub(q, p0)), sc.sub(p1, p0)))))
        if not isinstance(x, Arr): return val(x)
        r = mk(xs, lambda i: val(xf_(i)), 'f')
        if x.comp is not None: r.comp = (x.comp[0], lambda j: val(x.comp[1](j)))
        return r
    # -------------------------------------------------------------- attributes
    def squeeze(self, a, axis=None):
        if not isinstance(a, Arr): return a
        if axis is not None: raise OutOfSubset('squeeze axis')
        for d in a.shape:
            if not isinstance(d, int) and not self.e.valid_int(Not(ieq(d, 1))): raise OutOfSubset('squeeze of an axis of unknown length')
        keep = [k for k, d in enumerate(a.shape) if not (isinstance(d, int) and d == 1)]
        if len(keep) == a.ndim: return a
        r = a
        while any(isinstance(d, int) and d == 1 for d in r.shape):
            k = next(j for j, d in enumerate(r.shape) if isinstance(d, int) and d == 1); r = self.e.getitem(r, tuple([E.SliceV(None, None, None)]*k + [0] + [E.SliceV(None, None, None)]*(r.ndim-k-1)))
            if not isinstance(r, Arr): return mk((), lambda i, r=r: r, a.dtype)
        return r
    def f_squeeze(self, a, axis=None): return self.squeeze(a, axis)
    def f_ravel(self, a):
        if isinstance(a, (list, tuple)): a = self.array(list(a))
        if not isinstance(a, Arr): return self.array([a])
        if a.ndim == 0: return self.array([a.get(())])
        if a.ndim == 1: return a
        raise OutOfSubset('ravel 2-D')
    def arrattr(self, a, attr):
        B = lambda f: E.Builtin(f, attr)
        if attr == 'size': return self.size(a)
        if attr == 'shape': return a.shape
        if attr == 'ndim': return a.ndim
        if attr == 'values': return a
        if attr == 'copy': return B(lambda: self.copy(a))
        if attr == 'flat': return FlatView(a)
        if attr in ('any', 'all', 'max', 'min', 'sum', 'mean', 'argmin', 'argmax'):
            return B(lambda *x, **k: getattr(self, 'f_' + attr)(a, *x, **k))
        if attr == 'astype': return B(lambda d, **k: self.astype(a, d))
        if attr == 'tolist': return B(lambda: self.e.concrete_iter(a) if self.e.concrete_iter(a) is not None else self.oos('tolist'))
        if attr == 'item': return B(lambda *x: self.e.scalar(a))
        if attr in ('ravel', 'flatten') and a.ndim == 1: return B(lambda *x: a if attr == 'ravel' else self.copy(a))
        if attr in ('ravel', 'flatten') and a.ndim == 0: return B(lambda *x: self.array([a.get(())]))
        if attr == 'squeeze': return B(lambda *x, **k: self.squeeze(a, *x, **k))
        if attr == 'T':
            if a.ndim == 1: return a
            if a.ndim == 2 and all(d[0] == 'ax' for d in a.dims):
                f = a.snap(); return mk(a.shape[::-1], lambda i: f((i[1], i[0])), a.dtype)
        if attr == 'fill':
            def fill(v): self.e.write(a, lambda i: True, lambda i: v)
            return B(fill)
        if attr == 'dtype': return E.Opaque('dtype')
        if attr == 'clip': return B(lambda *x: self.f_clip(a, *x))
        if attr == 'nonzero': return B(lambda: self.f_where(a))
        raise OutOfSubset('array attribute ' + attr)
    def scalarattr(self, v, attr):
        B = lambda f: E.Builtin(f, attr)
        if attr == 'size': return 1
        if attr == 'copy': return B(lambda: v)
        if attr == 'item': return B(lambda: v)
        if attr == 'squeeze': return B(lambda *a: v)
        if attr in ('ravel', 'flatten'): return B(lambda: self.array([v]))
        if attr == 'shape': return ()
        if attr in ('any', 'all'): return B(lambda: self.e.truth(v))
        raise OutOfSubset('scalar attribute ' + attr)
    def listattr(self, l, attr):
        e = self.e
        def append(x):
            e.list_mut(l)
            for d in e.appendlog: d.setdefault(id(l), (l, []))[1].append(x)
            l.append(x)
        def extend(x): e.list_extend(l, x)
        def pop(k=-1): e.list_mut(l); return l.pop(k)
        t = {'append': append, 'extend': extend, 'pop': pop, 'copy': lambda: list(l)}
        if attr in t: return E.Builtin(t[attr], attr)
        raise OutOfSubset('list.' + attr)
    def dictattr(self, d, attr):
        e = self.e
        def upd(x): e.dict_mut(d); d.update(x)
        t = {'keys': lambda: list(d), 'values': lambda: list(d.values()), 'items': lambda: [(k, v) for k, v in d.items()], 'get': lambda k, v=None: d.get(k, v), 'copy': lambda: dict(d), 'update': upd}
        if attr in t: return E.Builtin(t[attr], attr)
        raise OutOfSubset('dict.' + attr)
    def strattr(self, s, attr):
        if attr in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'replace', 'split', 'capitalize'): return E.Builtin(getattr(s, attr), attr)
        if attr == 'format': return E.Builtin(lambda *a, **k: E.Opaque('str'), attr)
        raise OutOfSubset('str.' + attr)
    # -------------------------------------------------------------- python builtins
    def need_list(self, x):
        it = self.e.concrete_iter(x)
        if it is None: raise OutOfSubset('iteration over symbolic sequence')
        return it
    def b_range(self, *a):
        a = [iz(self.e.scalar(x)) for x in a]
        if all(isinstance(x, int) for x in a): return range(*a)
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) == 3 else 1)
        return SymRange(lo, hi, st)
    def b_len(self, x):
        if isinstance(x, Arr): return x.shape[0]
        if isinstance(x, (list, tuple, str, dict, range)): return len(x)
        if hasattr(x, 'm_len'): return x.m_len(self.e)
        raise OutOfSubset('len')
    def b_minmax(self, fn, red, args):
        if len(args) == 1:
            if isinstance(args[0], Arr) and self.e.concrete_iter(args[0]) is None: return red(args[0])
            args = self.need_list(args[0])
        r = args[0]
        for x in args[1:]:
            if hasattr(r, 'm_minmax'): r = r.m_minmax(self.e, fn, x); continue
            r = fn(self.e.scalar(r), self.e.scalar(x))
        return r
    def b_min(self, *a): return self.b_minmax(sc.pymin, self.f_min, a)
    def b_max(self, *a): return self.b_minmax(sc.pymax, self.f_max, a)
    def b_sum(self, x, s=0):
        if isinstance(x, Arr) and self.small(x) is None: return self.e.binop(ast.Add, self.total(x), s)
        for v in self.need_list(x): s = self.e.binop(ast.Add, s, v)
        return s
    def b_int(self, x):
        x = self.e.scalar(x)
        if sc.is_intv(x): return x
        if sc.is_boolv(x): return sc.tonum(x)
        if isinstance(x, Fraction): return int(x)
        if z3.is_expr(x): return iz(ite(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))
        raise OutOfSubset('int()')
    def b_float(self, x):
        if isinstance(x, str): return Fraction(x) if x.lower() not in ('nan', 'inf') else (sc.NAN if x.lower() == 'nan' else sc.PINF)
        return sc.tofloat(self.e.scalar(x))
    def b_list(self, x=()):
        return list(self.need_list(x))
    def b_tuple(self, x=()): return tuple(self.need_list(x))
    def b_enumerate(self, x, start=0):
        it = self.e.concrete_iter(x)
        if it is None:
            if isinstance(x, Arr): return SymEnumerate(x, start)
            raise OutOfSubset('enumerate')
        return [(k + start, v) for k, v in enumerate(it)]
    def b_zip(self, *xs):
        its = [self.e.concrete_iter(x) for x in xs]
        if any(i is None for i in its):
            if all(isinstance(x, Arr) for x in xs): return SymZip(xs)
            raise OutOfSubset('zip')
        return list(zip(*its))
    def b_reversed(self, x):
        if isinstance(x, SymRange):
            if abs(x.step) != 1: raise OutOfSubset('reversed range')
            return SymRange(isub(x.hi, x.step), isub(x.lo, x.step), -x.step)
        return self.need_list(x)[::-1]
    def b_isinstance(self, x, t):
        ts = t if isinstance(t, tuple) else (t,)
        names = [getattr(y, 'name', '') for y in ts]
        if isinstance(x, Arr): return 'ndarray' in names
        if sc.is_floatv(x): return 'float' in names
        if sc.is_intv(x): return 'int' in names
        raise OutOfSubset('isinstance')
def landmarks(form, c, cap=12):
    """integer terms t such that form compares c with t: where the truth of form may change"""
    out = {}; seen = set(); st = [form]
    def lin(t):
        """(coefficient of c, rest) or None"""
        if t.eq(c): return 1, z3.IntVal(0)
        if z3.is_add(t) or z3.is_sub(t):
            k, r = 0, z3.IntVal(0)
            for j, a in enumerate(t.children()):
                x = lin(a)
                if x is None: return None
                s = -1 if z3.is_sub(t) and j else 1
                k += s*x[0]; r = r + s*x[1]
            return k, r
        if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
            x = lin(t.arg(1))
            if x is None: return None
            v = t.arg(0).as_long(); return v*x[0], v*x[1]
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
            x = lin(t.arg(0)); return None if x is None else (-x[0], -x[1])
        q = [t]; s2 = set()
        while q:
            u = q.pop()
            if u.eq(c): return None
            if u.get_id() in s2: continue
            s2.add(u.get_id()); q.extend(u.children())
        return 0, t
    while st:
        u = st.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if z3.is_app(u) and u.num_args() == 2 and u.sort() == sc.B and u.arg(0).sort() == sc.I and u.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            x, y = lin(u.arg(0)), lin(u.arg(1))
            if x is not None and y is not None and x[0] - y[0] in (1, -1):
                t = isimp((y[1] - x[1])*(x[0] - y[0])); t = sc.zi(t); out[t.get_id()] = t
        st.extend(u.children())
    return list(out.values())[:cap]
class SymRange:
    def __init__(self, lo, hi, step): self.lo, self.hi, self.step = lo, hi, step
class SymEnumerate:
    def __init__(self, x, start): self.x, self.start = x, start
class SymZip:
    def __init__(self, xs): self.xs = xs
