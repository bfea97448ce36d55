"""Scalar layer: exact arithmetic on Python constants and z3 terms.

Numbers are mathematical reals / integers.  A float that may be NaN or infinite is an XF:
a real term plus flags (z3 Bool or Python bool).  Constants: int (integer), Fraction (float).
"""
from fractions import Fraction
import z3

class OutOfSubset(Exception):
    """The code uses a construct outside the verified subset."""

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()

# ------------------------------------------------------------------ booleans
def is_t(x): return x is True
def is_f(x): return x is False
def zb(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    return x
def And(*xs):
    out = []
    for x in xs:
        if x is False: return False
        if x is True: continue
        if z3.is_expr(x):
            if z3.is_false(x): return False
            if z3.is_true(x): continue
        out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return z3.And(*out)
def Or(*xs):
    out = []
    for x in xs:
        if x is True: return True
        if x is False: continue
        if z3.is_expr(x):
            if z3.is_true(x): return True
            if z3.is_false(x): continue
        out.append(x)
    if not out: return False
    if len(out) == 1: return out[0]
    return z3.Or(*out)
def Not(x):
    if isinstance(x, bool): return not x
    if z3.is_true(x): return False
    if z3.is_false(x): return True
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def Implies(a, b): return Or(Not(a), b)
def Iff(a, b):
    if isinstance(a, bool): return b if a else Not(b)
    if isinstance(b, bool): return a if b else Not(a)
    if a.eq(b): return True
    return a == b

# ------------------------------------------------------------------ numbers
class XF:
    """extended float: value v if no flag is set"""
    __slots__ = ('v', 'nan', 'pi', 'ni')
    def __init__(self, v, nan=False, pi=False, ni=False):
        self.v, self.nan, self.pi, self.ni = v, nan, pi, ni
    def __repr__(self): return 'XF(%s,nan=%s,pi=%s,ni=%s)' % (self.v, self.nan, self.pi, self.ni)

def xf(v, nan=False, pi=False, ni=False):
    def n(b):
        if z3.is_expr(b):
            if z3.is_true(b): return True
            if z3.is_false(b): return False
        return b
    nan, pi, ni = n(nan), n(pi), n(ni)
    if nan is False and pi is False and ni is False: return v
    return XF(v, nan, pi, ni)
NAN = XF(Fraction(0), True)
PINF = XF(Fraction(0), False, True)
NINF = XF(Fraction(0), False, False, True)

def parts(x):
    if isinstance(x, XF): return x.v, x.nan, x.pi, x.ni
    return x, False, False, False
def finite(x):
    _, a, b, c = parts(x)
    return Not(Or(a, b, c))
def is_nan(x):
    return x.nan if isinstance(x, XF) else False

def is_num(x):
    return isinstance(x, (int, Fraction, XF)) and not isinstance(x, bool) or (z3.is_expr(x) and z3.is_arith(x))
def is_boolv(x):
    return isinstance(x, bool) or (z3.is_expr(x) and z3.is_bool(x))
def is_intv(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (z3.is_expr(x) and z3.is_int(x))
def is_floatv(x):
    return isinstance(x, (Fraction, XF)) or (z3.is_expr(x) and z3.is_real(x))
def is_symbolic(x): return z3.is_expr(x) or isinstance(x, XF)

def tonum(x):
    """bool -> 0/1"""
    if isinstance(x, bool): return int(x)
    if z3.is_expr(x) and z3.is_bool(x): return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x
def tofloat(x):
    x = tonum(x)
    if isinstance(x, int): return Fraction(x)
    if z3.is_expr(x) and z3.is_int(x): return z3.ToReal(x)
    return x
def zr(x):
    """to a z3 Real term"""
    x = tonum(x)
    if isinstance(x, int) or isinstance(x, Fraction): return z3.RealVal(str(Fraction(x)))
    if z3.is_int(x): return z3.ToReal(x)
    return x
def zi(x):
    x = tonum(x)
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, Fraction) and x.denominator == 1: return z3.IntVal(int(x))
    return x
def const(x):
    """python number if x is a numeral, else None"""
    if isinstance(x, (int, Fraction)): return x
    if z3.is_expr(x):
        if z3.is_int_value(x): return x.as_long()
        if z3.is_rational_value(x): return Fraction(x.numerator_as_long(), x.denominator_as_long())
    return None
def norm(x):
    """fold numerals back to python"""
    if z3.is_expr(x):
        if z3.is_int_value(x): return x.as_long()
        if z3.is_rational_value(x): return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_true(x): return True
        if z3.is_false(x): return False
    return x

def _two(a, b):
    """coerce two finite numbers to operate natively"""
    a, b = tonum(a), tonum(b)
    if not z3.is_expr(a) and not z3.is_expr(b):
        if isinstance(a, Fraction) or isinstance(b, Fraction): return Fraction(a), Fraction(b)
        return a, b
    if is_intv(a) and is_intv(b): return zi(a), zi(b)
    return zr(a), zr(b)

def _add(a, b):
    ca, cb = const(a), const(b)
    if ca == 0 and ca is not None and (is_floatv(b) or is_intv(a)): return b
    if cb == 0 and cb is not None and (is_floatv(a) or is_intv(b)): return a
    a, b = _two(a, b); return norm(a + b)
def _sub(a, b):
    cb = const(b)
    if cb == 0 and cb is not None and (is_floatv(a) or is_intv(b)): return a
    a, b = _two(a, b); return norm(a - b)
def _mul(a, b):
    ca, cb = const(a), const(b)
    if ca == 1 and (is_floatv(b) or is_intv(a)): return b
    if cb == 1 and (is_floatv(a) or is_intv(b)): return a
    if (ca is not None and ca == 0) or (cb is not None and cb == 0):
        return 0 if is_intv(a) and is_intv(b) else Fraction(0)
    a, b = _two(a, b); return norm(a * b)

def neg(a):
    if isinstance(a, XF): return xf(neg(a.v), a.nan, a.ni, a.pi)
    a = tonum(a)
    return norm(-a)
def add(a, b):
    if isinstance(a, XF) or isinstance(b, XF):
        v1, n1, p1, m1 = parts(a); v2, n2, p2, m2 = parts(b)
        nan = Or(n1, n2, And(p1, m2), And(m1, p2))
        return xf(_add(v1, v2), nan, And(Not(nan), Or(p1, p2)), And(Not(nan), Or(m1, m2)))
    return _add(a, b)
def sub(a, b):
    if isinstance(a, XF) or isinstance(b, XF): return add(a, neg(b))
    return _sub(a, b)
def sgn_pos(v): return lt_f(Fraction(0), v)
def mul(a, b):
    if isinstance(a, XF) or isinstance(b, XF):
        v1, n1, p1, m1 = parts(a); v2, n2, p2, m2 = parts(b)
        i1, i2 = Or(p1, m1), Or(p2, m2)
        if i1 is False and i2 is False: return xf(_mul(v1, v2), Or(n1, n2))
        z1, z2 = And(Not(i1), Not(n1), eq_f(v1, 0)), And(Not(i2), Not(n2), eq_f(v2, 0))
        nan = Or(n1, n2, And(i1, z2), And(i2, z1))
        pos1 = Or(p1, And(Not(m1), lt_f(0, v1))); pos2 = Or(p2, And(Not(m2), lt_f(0, v2)))
        inf = And(Not(nan), Or(i1, i2))
        same = Iff(pos1, pos2)
        return xf(_mul(v1, v2), nan, And(inf, same), And(inf, Not(same)))
    return _mul(a, b)

# finite comparisons
def lt_f(a, b): a, b = _two(a, b); return norm(a < b) if z3.is_expr(a) or z3.is_expr(b) else a < b
def le_f(a, b): a, b = _two(a, b); return norm(a <= b) if z3.is_expr(a) or z3.is_expr(b) else a <= b
def eq_f(a, b):
    a, b = _two(a, b)
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b): return True
    return norm(a == b) if z3.is_expr(a) or z3.is_expr(b) else a == b
def lt(a, b):
    if isinstance(a, XF) or isinstance(b, XF):
        v1, n1, p1, m1 = parts(a); v2, n2, p2, m2 = parts(b)
        return And(Not(n1), Not(n2), Not(p1), Not(m2), Or(m1, p2, lt_f(v1, v2)))
    return lt_f(a, b)
def eq(a, b):
    if is_boolv(a) and is_boolv(b): return Iff(a, b)
    if isinstance(a, XF) or isinstance(b, XF):
        v1, n1, p1, m1 = parts(a); v2, n2, p2, m2 = parts(b)
        return And(Not(n1), Not(n2), Or(And(p1, p2), And(m1, m2),
                   And(Not(Or(p1, m1, p2, m2)), eq_f(v1, v2))))
    return eq_f(a, b)
def le(a, b):
    if isinstance(a, XF) or isinstance(b, XF): return Or(lt(a, b), eq(a, b))
    return le_f(a, b)
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def ne(a, b): return Not(eq(a, b))

def same(a, b):
    """identical values, NaN equal to NaN"""
    if is_boolv(a) and is_boolv(b): return Iff(a, b)
    if isinstance(a, XF) or isinstance(b, XF):
        v1, n1, p1, m1 = parts(a); v2, n2, p2, m2 = parts(b)
        return And(Iff(n1, n2), Iff(p1, p2), Iff(m1, m2),
                   Or(n1, p1, m1, eq_f(v1, v2)))
    return eq_f(a, b)

def ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if is_boolv(a) and is_boolv(b):
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b: return a
            return c if a else Not(c)
        if a is True: return Or(c, b)
        if a is False: return And(Not(c), b)
        if b is True: return Or(Not(c), a)
        if b is False: return And(c, a)
        if a.eq(b): return a
        return z3.If(c, a, b)
    if isinstance(a, XF) or isinstance(b, XF):
        v1, n1, p1, m1 = parts(a); v2, n2, p2, m2 = parts(b)
        # a value with a constant-true flag has no meaningful v
        if n1 is True or p1 is True or m1 is True: v = v2
        elif n2 is True or p2 is True or m2 is True: v = v1
        else: v = ite(c, v1, v2)
        return xf(v, ite(c, n1, n2), ite(c, p1, p2), ite(c, m1, m2))
    a, b = tonum(a), tonum(b)
    if not z3.is_expr(a) and not z3.is_expr(b):
        if type(a) is type(b) and a == b: return a
        if is_intv(a) and is_intv(b): return z3.If(c, zi(a), zi(b))
        return z3.If(c, zr(a), zr(b))
    a, b = _two(a, b)
    if a.eq(b): return a
    return z3.If(c, a, b)

def minimum(a, b):   # numpy: NaN propagates
    if isinstance(a, XF) or isinstance(b, XF):
        r = ite(Or(le(a, b), is_nan(a)), a, b)
        return r
    return ite(le(a, b), a, b)
def maximum(a, b):
    if isinstance(a, XF) or isinstance(b, XF):
        return ite(Or(ge(a, b), is_nan(a)), a, b)
    return ite(ge(a, b), a, b)
def pymin(a, b): return ite(lt(b, a), b, a)
def pymax(a, b): return ite(gt(b, a), b, a)
def absv(a):
    if isinstance(a, XF): return xf(absv(a.v), a.nan, Or(a.pi, a.ni), False)
    a = tonum(a)
    if not z3.is_expr(a): return abs(a)
    return z3.If(a >= 0, a, -a)

# ------------------------------------------------------------------ functions with axioms
AX = {}        # term id -> (term, [axioms])
def _axiom(t, axs):
    AX[t.get_id()] = (t, [zb(a) for a in axs if a is not True])
    return t
PI = z3.Real('pi')
_axiom(PI, [PI > z3.RealVal('3.14159265358979'), PI < z3.RealVal('3.14159265358980')])
_ufs = {}
def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _ufs: _ufs[k] = z3.Function(name, *sorts)
    return _ufs[k]

def ukey(x):
    """canonical argument for an uninterpreted real function"""
    t = z3.simplify(zr(x), som=True)
    return t

def sqrt_(x):
    c = const(x)
    if c is not None and c >= 0:
        import math
        n, d = math.isqrt(Fraction(c).numerator), math.isqrt(Fraction(c).denominator)
        if n*n == Fraction(c).numerator and d*d == Fraction(c).denominator: return Fraction(n, d)
    k = ukey(x)
    t = uf('sqrt', R, R)(k)
    if t.get_id() not in AX:
        _axiom(t, [z3.Implies(k >= 0, z3.And(t >= 0, t*t == k)), z3.Implies(k > 0, t > 0)])
    return t
def cbrt_(x):
    c = const(x)
    if c is not None and c in (0, 1): return Fraction(c)
    k = ukey(x)
    t = uf('cbrt', R, R)(k)
    if t.get_id() not in AX:
        _axiom(t, [t*t*t == k, (t > 0) == (k > 0), (t < 0) == (k < 0)])
    return t
def powq_(x, q):
    k = ukey(x)
    t = uf('pow_%d_%d' % (q.numerator, q.denominator), R, R)(k)
    if t.get_id() not in AX:
        _axiom(t, [z3.Implies(k > 0, t > 0)] + ([z3.Implies(k == 0, t == 0)] if q > 0 else []))
    return t
def pows_(x, p):
    kx, kp = ukey(x), ukey(p)
    t = uf('pow', R, R, R)(kx, kp)
    if t.get_id() not in AX:
        _axiom(t, [z3.Implies(kx > 0, t > 0), z3.Implies(z3.And(kx == 0, kp > 0), t == 0),
                   z3.Implies(kp == 0, t == 1), z3.Implies(kp == 1, t == kx),
                   z3.Implies(z3.And(kx >= 0), t >= 0)])
    return t
def ipow(x, n):
    r = None
    for _ in range(n): r = x if r is None else mul(r, x)
    return Fraction(1) if r is None else r

def fun1(name, x, axf):
    k = ukey(x)
    t = uf(name, R, R)(k)
    if t.get_id() not in AX: _axiom(t, axf(k, t))
    return t

def _angle(x):
    """decompose a real term into [(coef, atom)] and k with x = sum coef*atom + k*pi/2; None if not possible"""
    t = z3.simplify(zr(x), som=True)
    terms = []; k = Fraction(0)
    def go(t, c):
        nonlocal k
        v = const(t)
        if v is not None: terms.append((c*v, None)); return
        if z3.is_add(t):
            for a in t.children(): go(a, c)
            return
        if z3.is_mul(t):
            cs = [const(a) for a in t.children()]
            rest = [a for a, v in zip(t.children(), cs) if v is None]
            cc = c
            for v in cs:
                if v is not None: cc = cc*v
            if len(rest) == 1: go(rest[0], cc); return
            terms.append((cc, z3.Product(*rest) if len(rest) > 1 else rest[0])); return
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS: go(t.arg(0), -c); return
        if z3.is_sub(t):
            ch = t.children(); go(ch[0], c)
            for a in ch[1:]: go(a, -c)
            return
        if t.eq(PI): k += 2*c; return
        terms.append((c, t))
    go(t, Fraction(1))
    return terms, k

def _sincos_atom(coef, atom):
    """(sin, cos) of coef*atom"""
    if atom is None:
        if coef == 0: return Fraction(0), Fraction(1)
        a = z3.RealVal(str(abs(coef)))
        s, c = uf('sin', R, R)(a), uf('cos', R, R)(a)
        if s.get_id() not in AX: _axiom(s, [s*s + c*c == 1])
        return (s if coef > 0 else -s), c
    n = abs(coef)
    if n != 1:
        if n.denominator == 1 and n <= 4:
            s, c = _sincos_atom(Fraction(1), atom); rs, rc = Fraction(0), Fraction(1)
            for _ in range(int(n)): rs, rc = add(mul(rs, c), mul(rc, s)), sub(mul(rc, c), mul(rs, s))
            return (rs if coef > 0 else neg(rs)), rc
        a = z3.simplify(z3.RealVal(str(n))*atom)
    else: a = atom
    nm = a.decl().name() if z3.is_app(a) else ''
    s, c = uf('sin', R, R)(a), uf('cos', R, R)(a)
    if s.get_id() not in AX:
        ax = [s*s + c*c == 1]
        if nm == 'arctan2':
            y, x = a.arg(0), a.arg(1); r = zr(sqrt_(x*x + y*y))
            ax += [r*s == y, r*c == x, z3.Implies(r == 0, z3.And(s == 0, c == 1))]
        elif nm == 'arcsin':
            u = a.arg(0)
            ax += [z3.Implies(z3.And(u >= -1, u <= 1), z3.And(s == u, c >= 0))]
        elif nm == 'arctan':
            u = a.arg(0)
            ax += [c > 0, s == u*c]
        ax += [z3.Implies(a == 0, z3.And(s == 0, c == 1)),
               z3.Implies(z3.And(a >= -PI/2, a <= PI/2), c >= 0),
               z3.Implies(z3.And(a > -PI/2, a < PI/2), c > 0),
               z3.Implies(z3.And(a >= 0, a <= PI), s >= 0), z3.Implies(z3.And(a <= 0, a >= -PI), s <= 0),
               z3.Implies(z3.And(a > 0, a < PI), s > 0), z3.Implies(z3.And(a < 0, a > -PI), s < 0)]
        _axiom(s, ax); _axiom(c, ax)
    return (s if coef > 0 else -s), c

def sincos(x):
    c = const(x)
    terms, k = _angle(x)
    rs, rc = Fraction(0), Fraction(1)
    for coef, atom in terms:
        s, c = _sincos_atom(coef, atom)
        rs, rc = add(mul(rs, c), mul(rc, s)), sub(mul(rc, c), mul(rs, s))
    if k.denominator != 1:
        s, c = _sincos_atom(k/2, PI); rs, rc = add(mul(rs, c), mul(rc, s)), sub(mul(rc, c), mul(rs, s))
    else:
        for _ in range(int(k) % 4): rs, rc = rc, neg(rs)
    # sign knowledge for the whole angle
    return rs, rc
def sin_(x): return sincos(x)[0]
def cos_(x): return sincos(x)[1]
def tan_(x):
    s, c = sincos(x); return norm(zr(s)/zr(c))
def arctan_(x): return fun1('arctan', x, lambda k, t: [t > -PI/2, t < PI/2, (t > 0) == (k > 0), (t < 0) == (k < 0)])
def arcsin_(x): return fun1('arcsin', x, lambda k, t: [z3.Implies(z3.And(k >= -1, k <= 1), z3.And(t >= -PI/2, t <= PI/2)),
                                                        z3.Implies(z3.And(k > 0, k <= 1), t > 0), z3.Implies(z3.And(k < 0, k >= -1), t < 0), z3.Implies(k == 0, t == 0)])
def arctan2_(y, x):
    ky, kx = ukey(y), ukey(x)
    t = uf('arctan2', R, R, R)(ky, kx)
    if t.get_id() not in AX: _axiom(t, [t >= -PI, t <= PI])
    return t
def tanh_(x): return fun1('tanh', x, lambda k, t: [t > -1, t < 1, (t > 0) == (k > 0), (t < 0) == (k < 0)])
def exp_(x): return fun1('exp', x, lambda k, t: [t > 0, z3.Implies(k == 0, t == 1), z3.Implies(k < 0, t < 1), z3.Implies(k > 0, t > 1)])
def log_(x): return fun1('log', x, lambda k, t: [z3.Implies(z3.And(k > 0, k < 1), t < 0), z3.Implies(k == 1, t == 0), z3.Implies(k > 1, t > 0)])
