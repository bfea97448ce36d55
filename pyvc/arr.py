"""Arrays of symbolic shape.  A Buf is storage (content: index tuple -> scalar); an Arr is a numpy
view or owner of a Buf.  Contents are closures that build z3 terms on demand."""
from fractions import Fraction
import z3
from . import sc
from .sc import And, Or, Not, Implies, OutOfSubset

def iz(x):
    """int index: python int or z3 Int"""
    if isinstance(x, int): return x
    c = sc.const(x)
    return c if isinstance(c, int) else x
def ikey(x): return x if isinstance(x, int) else ('t', x.get_id())
_simp_cache = {}
def isimp(x):
    if isinstance(x, int): return x
    k = x.get_id()
    r = _simp_cache.get(k)
    if r is None:
        s = z3.simplify(x)
        r = (x, iz(s)); _simp_cache[k] = r
    return r[1]
def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(b, int) and b == 0: return a
    if isinstance(a, int) and a == 0: return b
    return isimp(sc.zi(a) + sc.zi(b))
def isub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    if isinstance(b, int) and b == 0: return a
    return isimp(sc.zi(a) - sc.zi(b))
def imul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    if isinstance(a, int) and a == 1: return b
    if isinstance(b, int) and b == 1: return a
    return isimp(sc.zi(a) * sc.zi(b))
def ilt(a, b): return sc.lt_f(a, b)
def ile(a, b): return sc.le_f(a, b)
def ieq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    a, b = sc.zi(a), sc.zi(b)
    if a.eq(b): return True
    r = z3.simplify(a == b)
    if z3.is_true(r): return True
    if z3.is_false(r): return False
    return a == b
def inrange(i, lo, hi): return And(ile(lo, i), ilt(i, hi))

def memo(fn):
    cache = {}
    def g(idx):
        k = tuple(ikey(i) for i in idx)
        r = cache.get(k)
        if r is None:
            r = (idx, fn(idx)); cache[k] = r
        return r[1]
    return g

class Buf:
    _n = 0
    def __init__(self, shape, content, dtype, name=None):
        self.shape = tuple(shape); self.content = memo(content); self.dtype = dtype
        self.name = name; self.readonly = False; self.version = 0
        Buf._n += 1; self.uid = Buf._n

class Enum:
    """increasing enumeration of {i in [0,N): mask(i)}: e(k), rank(i), count n"""
    def __init__(self, maskfn, N, n, e, rank, run=None):
        self.mask, self.N, self.n, self.e, self.rank, self.run = maskfn, N, n, e, rank, run

class Arr:
    """dims: list per buf dim: ('fix', index) or ('ax', start, step, length)"""
    __slots__ = ('buf', 'dims', 'inv', 'invver', 'comp')
    def __init__(self, buf, dims=None, inv=None, comp=None):
        self.buf = buf
        self.dims = dims if dims is not None else [('ax', 0, 1, n) for n in buf.shape]
        self.inv = inv; self.invver = buf.version; self.comp = comp
    @property
    def dtype(self): return self.buf.dtype
    @property
    def shape(self): return tuple(d[3] for d in self.dims if d[0] == 'ax')
    @property
    def ndim(self): return sum(1 for d in self.dims if d[0] == 'ax')
    def tobuf(self, idx):
        out = []; k = 0
        for d in self.dims:
            if d[0] == 'fix': out.append(d[1])
            else:
                out.append(iadd(d[1], imul(d[2], idx[k]))); k += 1
        return tuple(out)
    def frombuf(self, bidx):
        """(present, view index)"""
        cond, out = [], []
        for d, b in zip(self.dims, bidx):
            if d[0] == 'fix': cond.append(ieq(b, d[1]))
            else:
                st, step, n = d[1], d[2], d[3]
                if step == 1: k = isub(b, st)
                elif step == -1: k = isub(st, b)
                else:
                    if not isinstance(step, int): raise OutOfSubset('symbolic step')
                    df = isub(b, st) if step > 0 else isub(st, b); s = abs(step)
                    if isinstance(df, int):
                        if df % s: cond.append(False)
                        k = df // s
                    else:
                        cond.append(sc.norm(z3.simplify(df % s == 0))); k = isimp(df / s)
                cond.append(inrange(k, 0, n)); out.append(k)
        return And(*cond), tuple(out)
    def get(self, *idx):
        if len(idx) == 1 and isinstance(idx[0], tuple): idx = idx[0]
        return self.buf.content(self.tobuf(idx))
    def snap(self):
        c = self.buf.content; d = list(self.dims)
        full = all(x[0] == 'ax' and isinstance(x[1], int) and x[1] == 0 and x[2] == 1 for x in d)
        if full: return c
        me = Arr.__new__(Arr); me.buf = self.buf; me.dims = d; me.inv = None; me.comp = None; me.invver = 0
        return lambda idx: c(me.tobuf(idx))
    def getinv(self):
        return self.inv if self.inv is not None and self.invver == self.buf.version else None
    # spec-level convenience
    def __getitem__(self, idx):
        if not isinstance(idx, tuple): idx = (idx,)
        idx = tuple(iz(i) for i in idx)
        # negative python ints count from the end
        sh = self.shape
        idx = tuple(iadd(sh[k], i) if isinstance(i, int) and i < 0 else i for k, i in enumerate(idx))
        return self.get(idx)
    def __len__(self): raise TypeError

def mk(shape, fn, dtype, inv=None, comp=None, name=None):
    return Arr(Buf(shape, fn, dtype, name), None, inv, comp)
def is_arr(x): return isinstance(x, Arr)
