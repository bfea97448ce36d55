"""Contracts for what the code reaches outside numpy: files, the prompt, netCDF4, pandas time types.  Assumed, listed as trusted wherever used.
Times are exact reals in seconds (pandas rounds to nanoseconds), stored floats are exact (netCDF float32 rounding is not modelled)."""
from fractions import Fraction
import ast, itertools, z3
from . import sc, engine as E
from .sc import And, Or, Not, OutOfSubset, ite, Iff, Implies
from .arr import *
from .solver import Forall

def fork(eng):
    """a side effect outside arrays: never inside a merged branch or a symbolic loop"""
    if eng.inmerge: raise E.NeedFork(eng.inmerge_key[-1])
    if eng.loopstack: raise OutOfSubset('side effect inside a loop')
def B(f, name=''): return E.Builtin(f, name)
num = lambda x: sc.tofloat(x)
CMPS = E.Engine.CMP
FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

class Ext:
    """object with a dictionary of attributes"""
    def __init__(self, what, **attrs): self.what, self.attrs = what, attrs
    def m_getattr(self, eng, a):
        if a not in self.attrs: raise OutOfSubset('%s.%s' % (self.what, a))
        return self.attrs[a]
    def m_truth(self, eng): return True
class Text:
    """unknown string: only compared with constants"""
    def __init__(self, eng, name, low=None): self.eng, self.name, self.low, self.is_ = eng, name, low, {}
    def equals(self, s):
        if self.low is not None:
            if s != s.lower(): return False
            return Or(*[self.low.equals(''.join(v)) for v in itertools.product(*[sorted({c, c.upper()}) for c in s])])
        if s not in self.is_:
            b = self.eng.fresh('%s_is_%r' % (self.name, s), sc.B)
            for o in self.is_.values(): self.eng.fact(Not(And(b, o)))
            self.is_[s] = b
        return self.is_[s]
    def m_compare(self, eng, op, o, sw):
        if not isinstance(o, str): return NotImplemented
        r = self.equals(o)
        return r if op is ast.Eq else Not(r) if op is ast.NotEq else NotImplemented
    def m_getattr(self, eng, a):
        if a in ('lower', 'casefold'): return B(lambda: Text(eng, self.name + '.lower', self if self.low is None else self.low))
        raise OutOfSubset('string method ' + a)
    def m_truth(self, eng): return Not(self.equals(''))
    def m_binop(self, eng, op, o, sw): return E.Opaque('str')

# ---------------------------------------------------------------- time
class TD:
    """Timedelta"""
    def __init__(self, s): self.s = s
    def m_binop(self, eng, op, o, sw):
        n = eng.np; o = n.scalar0(o) if hasattr(n, 'scalar0') else o
        if op in (ast.Add, ast.Sub):
            if isinstance(o, TD): a, b = (o.s, self.s) if sw else (self.s, o.s); return TD(sc.add(a, b) if op is ast.Add else sc.sub(a, b))
            return NotImplemented
        if op is ast.Mult and isnum(o): return TD(sc.mul(self.s, num(o)))
        if op is ast.Div and not sw: return TD(eng.np.divide(self.s, num(o))) if isnum(o) else eng.np.divide(self.s, o.s) if isinstance(o, TD) else NotImplemented
        if op is ast.FloorDiv and not sw and isinstance(o, TD):
            eng.oblige('division by a non-zero interval', sc.ne(o.s, 0)); q = eng.np.divide(self.s, o.s); k = eng.fresh('floor', sc.I); q = sc.zr(q)
            eng.fact(z3.And(z3.ToReal(k) <= q, q < z3.ToReal(k) + 1)); return k
        if op is ast.Mod and not sw and isinstance(o, TD):
            k = TD.m_binop(self, eng, ast.FloorDiv, o, False); return TD(sc.sub(self.s, sc.mul(num(k), o.s)))
        return NotImplemented
    def m_compare(self, eng, op, o, sw):
        if not isinstance(o, TD): return NotImplemented
        return CMPS[FLIP[op] if sw else op](self.s, o.s)
    def m_truth(self, eng): return sc.ne(self.s, 0)
    def m_merge(self, eng, c, o): return TD(ite(c, self.s, o.s))
    def m_minmax(self, eng, fn, o): return TD(fn(self.s, o.s))
    def m_abs(self, eng): return TD(sc.absv(self.s))
    def m_neg(self, eng): return TD(sc.neg(self.s))
    def m_getattr(self, eng, a):
        if a == 'total_seconds': return B(lambda: self.s)
        if a in ('days', 'seconds'):
            d = eng.fresh('days', sc.I); s = sc.zr(self.s); eng.fact(z3.And(86400*z3.ToReal(d) <= s, s < 86400*z3.ToReal(d) + 86400))
            if a == 'days': return d
            w = eng.fresh('secs', sc.I); r = s - 86400*z3.ToReal(d); eng.fact(z3.And(z3.ToReal(w) <= r, r < z3.ToReal(w) + 1)); return w
        raise OutOfSubset('Timedelta.' + a)
def isnum(o): return (sc.is_num(o) or isinstance(o, (int, Fraction))) and not isinstance(o, bool)
class TS:
    """Timestamp / datetime: seconds since an unspecified origin"""
    def __init__(self, t): self.t = t
    def m_binop(self, eng, op, o, sw):
        if op is ast.Add and isinstance(o, TD): return TS(sc.add(self.t, o.s))
        if op is ast.Sub and isinstance(o, TD) and not sw: return TS(sc.sub(self.t, o.s))
        if op is ast.Sub and isinstance(o, TS): return TD(sc.sub(o.t, self.t) if sw else sc.sub(self.t, o.t))
        return NotImplemented
    def m_compare(self, eng, op, o, sw):
        if not isinstance(o, TS): return NotImplemented
        return CMPS[FLIP[op] if sw else op](self.t, o.t)
    def m_merge(self, eng, c, o): return TS(ite(c, self.t, o.t))
    def m_minmax(self, eng, fn, o): return TS(fn(self.t, o.t))
    def m_truth(self, eng): return True
    def m_getattr(self, eng, a):
        if a in ('strftime', 'isoformat'): return B(lambda *x: E.Opaque('str'))
        if a in ('to_pydatetime', 'to_datetime64'): return B(lambda: self)
        raise OutOfSubset('Timestamp.' + a)
class TA:
    """array of Timedeltas"""
    def __init__(self, a): self.a = a
    def m_getattr(self, eng, at):
        if at == 'total_seconds': return B(lambda: self.a)
        if at in ('days', 'seconds'):
            f = self.a.snap(); d = eng.freshfn('days', sc.I, sc.I); n = self.a.shape[0]
            eng.fact(Forall(1, lambda i: Implies(inrange(i, 0, n), z3.And(86400*z3.ToReal(d(sc.zi(i))) <= sc.zr(f((i,))), sc.zr(f((i,))) < 86400*z3.ToReal(d(sc.zi(i))) + 86400)), at))
            if at == 'days': return mk((n,), lambda i: d(sc.zi(i[0])), 'i')
            w = eng.freshfn('secs', sc.I, sc.I)
            eng.fact(Forall(1, lambda i: Implies(inrange(i, 0, n), z3.And(z3.ToReal(w(sc.zi(i))) <= sc.zr(f((i,))) - 86400*z3.ToReal(d(sc.zi(i))), sc.zr(f((i,))) - 86400*z3.ToReal(d(sc.zi(i))) < z3.ToReal(w(sc.zi(i))) + 1)), at))
            return mk((n,), lambda i: w(sc.zi(i[0])), 'i')
        if at in ('size',): return self.a.shape[0]
        if at in ('argmin', 'argmax'): return B(lambda: getattr(eng.np, 'f_' + at)(self.a))
        if at in ('min', 'max'): return B(lambda: TD(getattr(eng.np, 'f_' + at)(self.a)))
        raise OutOfSubset('TimedeltaIndex.' + at)
    def m_asarray(self, eng): return self.a
    def m_abs(self, eng): return TA(eng.np.abs_(self.a))
    def m_getitem(self, eng, k): r = eng.getitem(self.a, k); return TA(r) if isinstance(r, Arr) else TD(r)
    def m_len(self, eng): return self.a.shape[0]
    def m_binop(self, eng, op, o, sw):
        if op is ast.Div and not sw and isinstance(o, TD): return eng.binop(ast.Div, self.a, o.s)
        if op is ast.Div and not sw and isnum(o): return TA(eng.binop(ast.Div, self.a, o))
        if op is ast.Mult and isnum(o): return TA(eng.binop(ast.Mult, self.a, o))
        if op is ast.FloorDiv and not sw and isinstance(o, TD): return eng.binop(ast.FloorDiv, self.a, o.s)
        return NotImplemented
class TI:
    """DatetimeIndex: n times in the order given"""
    def __init__(self, a): self.a = a
    def m_len(self, eng): return self.a.shape[0]
    def m_getattr(self, eng, at):
        if at == 'size': return self.a.shape[0]
        if at == 'shape': return (self.a.shape[0],)
        if at in ('values', 'to_numpy'): return self if at == 'values' else B(lambda: self)
        if at in ('min', 'max'): return B(lambda: TS(getattr(eng.np, 'f_' + at)(self.a)))
        raise OutOfSubset('DatetimeIndex.' + at)
    def m_getitem(self, eng, k):
        r = eng.getitem(self.a, k); return TI(r) if isinstance(r, Arr) else TS(r)
    def m_binop(self, eng, op, o, sw):
        if op is ast.Sub and isinstance(o, TS): return TA(eng.binop(ast.Sub, o.t, self.a) if sw else eng.binop(ast.Sub, self.a, o.t))
        if op in (ast.Add, ast.Sub) and isinstance(o, TD) and not (sw and op is ast.Sub): return TI(eng.binop(op, self.a, o.s))
        return NotImplemented
    def m_compare(self, eng, op, o, sw):
        if isinstance(o, TS): return eng.compare(FLIP[op] if sw else op, self.a, o.t)
        if isinstance(o, TI): return eng.compare(FLIP[op] if sw else op, self.a, o.a)
        return NotImplemented
class Series:
    """pandas Series: values against an index"""
    def __init__(self, index, values): self.index, self.values = index, values
    def m_getattr(self, eng, a):
        if a == 'index': return self.index
        if a in ('values', 'to_numpy'): return self.values if a == 'values' else B(lambda: self.values)
        if a == 'size': return self.values.shape[0]
        raise OutOfSubset('Series.' + a)
    def m_len(self, eng): return self.values.shape[0]

def date_range(eng):
    """pandas.date_range(start, end, freq): start + k*freq for every k >= 0 that does not pass end"""
    def f(start=None, end=None, periods=None, freq=None, closed=None, inclusive=None, **kw):
        incl = inclusive if inclusive is not None else closed if closed is not None else 'both'
        if kw or incl not in ('both', 'right') or (incl == 'right' and periods is not None) or not isinstance(freq, TD) or not isinstance(start, TS) or (end is None) == (periods is None): raise OutOfSubset('date_range')
        s, h = start.t, freq.s
        eng.oblige('the interval is positive', sc.gt(h, 0))
        if periods is not None: n = iz(periods)
        else:
            n = eng.fresh('nrange', sc.I); eng.fact(n >= 0); last, stop, hh = sc.zr(s), sc.zr(end.t), sc.zr(h)
            # the last entry does not pass the end, the next one would
            eng.fact(z3.And(z3.Implies(n > 0, last + z3.ToReal(n-1)*hh <= stop), last + z3.ToReal(n)*hh > stop))
        if incl == 'right':      # without the start itself
            n1 = eng.fresh('nrange', sc.I); eng.fact(n1 == z3.If(n > 0, n-1, 0))
            return TI(mk((n1,), lambda i: sc.add(s, sc.mul(num(iadd(i[0], 1)), h)), 'f'))
        return TI(mk((n,), lambda i: sc.add(s, sc.mul(num(i[0]), h)), 'f'))
    return f
def dtindex(eng):
    def f(x=None, **kw):
        if isinstance(x, TI) and not kw: return x
        if isinstance(x, (list, tuple)) and all(isinstance(t, TS) for t in x) and not kw: ts = [t.t for t in x]; return TI(eng.np.array(ts))
        raise OutOfSubset('DatetimeIndex')
    return f
def series(eng):
    def f(data=None, index=None, **kw):
        if kw or not isinstance(data, Arr) or not isinstance(index, TI): raise OutOfSubset('Series')
        if not eng.valid_int(ieq(data.shape[0], index.a.shape[0])): eng.oblige('one value per index entry', ieq(data.shape[0], index.a.shape[0]))
        return Series(index, eng.np.copy(data))
    return f
def timedelta(eng):
    U = dict(weeks=604800, days=86400, hours=3600, minutes=60, seconds=1, milliseconds=Fraction(1, 1000), microseconds=Fraction(1, 10**6))
    def f(value=None, unit=None, **kw):
        if isinstance(value, TD) and not kw: return value
        if value is not None:
            k = {None: Fraction(1, 10**9), 's': 1, 'sec': 1, 'second': 1, 'seconds': 1, 'm': 60, 'min': 60, 'minutes': 60, 'h': 3600, 'hours': 3600, 'd': 86400, 'D': 86400, 'days': 86400}.get(unit if unit is None or isinstance(unit, str) else 0, 0)
            if k == 0 or not isnum(value) or kw: raise OutOfSubset('Timedelta')
            return TD(sc.mul(num(value), Fraction(k)))
        t = Fraction(0)
        for u, v in kw.items():
            if u not in U: raise OutOfSubset('Timedelta')
            t = sc.add(t, sc.mul(num(v), Fraction(U[u])))
        return TD(t)
    return f
def pandas(eng):
    eng.ext.update({'pandas.date_range': B(date_range(eng)), 'pandas.Series': B(series(eng)), 'pandas.Timedelta': B(timedelta(eng)), 'pandas.to_datetime': B(lambda x, **k: x if isinstance(x, (TI, TS)) else eng.oos('to_datetime')),
                    'pandas.DatetimeIndex': B(dtindex(eng)), 'pandas.Timestamp': B(lambda x: x if isinstance(x, TS) else eng.oos('Timestamp'))})
def symtime(p, name): return TS(p.real(name).x)
def symdelta(p, name, **k): return TD(p.real(name, **k).x)

# ---------------------------------------------------------------- time indexed data
class Union:
    """entries of a table's index followed by other times"""
    def __init__(self, base, extra, unique, order): self.base, self.extra, self.unique, self.order = base, extra, unique, order
    def m_getattr(self, eng, a):
        if a in ('unique', 'drop_duplicates'): return B(lambda: Union(self.base, self.extra, True, self.order))
        if a == 'sort_values': return B(lambda: Union(self.base, self.extra, self.unique, True))
        if a == 'append': return B(lambda o: Union(self.base, self.extra + [o], False, False) if isinstance(o, TI) else eng.oos('append'))
        raise OutOfSubset('Index.' + a)
class TableIndex(TI):
    def __init__(self, table): self.table = table; super().__init__(table.times())
    def m_getattr(self, eng, a):
        if a == 'append': return B(lambda o: Union(self.table, [o], False, False) if isinstance(o, TI) else eng.oos('append'))
        if a == 'union': return B(lambda o: Union(self.table, [o], True, True) if isinstance(o, TI) else eng.oos('union'))
        if a == 'searchsorted':
            def ss(t, side='left'):
                if not isinstance(t, TS) or side not in ('left', 'right'): raise OutOfSubset('searchsorted')
                n = self.a.shape[0]; f = self.a.snap(); k = eng.fresh('ss', sc.I); eng.fact(And(k >= 0, ile(k, n)))
                lt = (lambda x: sc.lt(x, t.t)) if side == 'left' else (lambda x: sc.le(x, t.t))
                eng.fact(Forall(1, lambda i: And(Implies(inrange(i, 0, k), lt(f((i,)))), Implies(inrange(i, k, n), Not(lt(f((i,)))))), 'searchsorted')); return k
            return B(ss)
        return super().m_getattr(eng, a)
class Table:
    """rows lo..hi of one column of gap-free data against strictly increasing times, after reindexing also empty rows at extra times"""
    def __init__(self, X, Y, lo, hi, extra=(), unique=True, order=True, filled=False): self.X, self.Y, self.lo, self.hi, self.extra, self.unique, self.order, self.filled = X, Y, lo, hi, list(extra), unique, order, filled
    def times(self):
        if self.extra: raise OutOfSubset('index of a reindexed table')
        f = self.X.snap(); lo = self.lo; return mk((isub(self.hi, lo),), lambda i: f((iadd(i[0], lo),)), 'f')
    def w(self, **k): d = dict(X=self.X, Y=self.Y, lo=self.lo, hi=self.hi, extra=self.extra, unique=self.unique, order=self.order, filled=self.filled); d.update(k); return Table(**d)
    def rows(self, eng, k):
        if self.extra or not isinstance(k, E.SliceV): raise OutOfSubset('rows of a table')
        st, step, n = eng.slicenorm(k, isub(self.hi, self.lo))
        if step != 1: raise OutOfSubset('table step')
        return self.w(lo=iadd(self.lo, st), hi=iadd(iadd(self.lo, st), n))
    def m_getitem(self, eng, k): return self.rows(eng, k)
    def m_len(self, eng): return isub(self.hi, self.lo) if not self.extra else eng.oos('len')
    def reindex(self, eng, u, **kw):
        if kw or not isinstance(u, Union) or u.base is not self or self.extra: raise OutOfSubset('reindex')
        return self.w(extra=u.extra, unique=u.unique, order=u.order)
    def m_getattr(self, eng, a):
        if a == 'index': return TableIndex(self)
        if a == 'copy': return B(lambda **k: self)
        if a == 'reindex': return B(lambda u=None, index=None, **k: self.reindex(eng, u if u is not None else index, **k))
        if a == 'sort_index': return B(lambda: self.w(order=True))
        if a == 'interpolate':
            def ip(method='linear', **k):
                if k or method not in ('time', 'index', 'values') or not self.order or not self.unique: raise OutOfSubset('interpolate')
                return self.w(filled=True)
            return B(ip)
        if a == 'iloc':
            me = self
            class IL:
                def m_getitem(s, eng, k): return me.rows(eng, k)
            return IL()
        if a == 'loc': return Loc(self)
        raise OutOfSubset('table.' + a)
class Loc:
    def __init__(self, t): self.t = t
    def m_getitem(self, eng, q):
        t = self.t
        if not isinstance(q, TI) or not t.unique or not any(q is x for x in t.extra): raise OutOfSubset('loc')
        # contract of interpolate(method='time') read at q: straight line between the rows around it, the row itself at its time, NaN before the first row
        n = q.a.shape[0]; qf, X, Y = q.a.snap(), t.X.snap(), t.Y.snap(); lo, hi = t.lo, t.hi
        g, gn = eng.freshfn('interp', sc.I, sc.R), eng.freshfn('interp_nan', sc.I, sc.B)
        def f(j, k):
            x, a, b = qf((j,)), X((k,)), X((iadd(k, 1),)); u = And(inrange(j, 0, n), inrange(k, lo, hi)); J = sc.zi(j)
            at = Implies(And(u, sc.eq(x, a)), And(Not(gn(J)), g(J) == sc.zr(num(Y((k,))))))
            if not t.filled: return at
            sl = z3.And(z3.Not(gn(J)), (g(J) - sc.zr(num(Y((k,)))))*(sc.zr(b) - sc.zr(a)) == (sc.zr(num(Y((iadd(k, 1),)))) - sc.zr(num(Y((k,)))))*(sc.zr(x) - sc.zr(a)))
            return And(at, Implies(And(u, ilt(iadd(k, 1), hi), sc.le(a, x), sc.le(x, b)), sl))
        eng.fact(Forall(2, f, 'interpolated'))
        r = Series(q, mk((n,), lambda i: sc.xf(g(sc.zi(i[0])), gn(sc.zi(i[0]))), 'f')); r.table = t; return r

# ---------------------------------------------------------------- files and netCDF4
class Name:
    """a file name"""
    def __init__(self, what): self.what = what
    def m_binop(self, eng, op, o, sw): return E.Opaque('str')
    def m_truth(self, eng): return True
    def m_compare(self, eng, op, o, sw):
        if isinstance(o, Name) and o is self: return op is ast.Eq
        return NotImplemented
class Files:
    """ghost file system: the named files, what happened to them, and the questions asked"""
    def __init__(self, eng):
        self.eng, self.ex, self.data, self.lost, self.log, self.asked = eng, {}, {}, set(), [], []
        x = eng.ext; bn = lambda f: B(f)
        path = Ext('os.path', isfile=bn(self.exists), exists=bn(self.exists), basename=bn(lambda n: E.Opaque('str')), lexists=bn(self.exists))
        x.update({'os.path': path, 'os.remove': bn(self.remove), 'os.unlink': bn(self.remove), 'netCDF4.Dataset': bn(self.dataset), 'netCDF4.date2num': bn(self.date2num), 'netCDF4.num2date': bn(self.num2date),
                  'os.rename': bn(self.oosf), 'os.replace': bn(self.oosf)})
        now = Ext('now', strftime=bn(lambda *a: E.Opaque('str')), isoformat=bn(lambda *a: E.Opaque('str')))
        x['datetime.datetime'] = Ext('datetime', now=bn(lambda *a: now))
        eng.np.builtins['input'] = self.input; eng.np.builtins['setattr'] = lambda o, k, v: o.m_setattr(eng, k, v) if hasattr(o, 'm_setattr') else eng.oos('setattr')
    def oosf(self, *a, **k): raise OutOfSubset('file operation')
    def add(self, n, exists, data=None): self.ex[n] = exists; self.data[n] = data; return n
    def known(self, n):
        if not isinstance(n, Name) or n not in self.ex: raise OutOfSubset('file name %r' % (n,))
    def exists(self, n): self.known(n); return self.ex[n]
    def remove(self, n):
        self.known(n); fork(self.eng)
        if not self.eng.branch(self.ex[n]): raise E.PyExc('FileNotFoundError')
        self.lost.add(n); self.ex[n] = False; self.data[n] = None; self.log.append(('remove', n))
    def input(self, *a):
        fork(self.eng); t = Text(self.eng, 'answer'); self.asked.append(t); return t
    def dataset(self, n, mode='r', format=None, clobber=True, **k):
        self.known(n); fork(self.eng)
        if k or not isinstance(mode, str) or clobber not in (True, False): raise OutOfSubset('Dataset options')
        e = self.eng.branch(self.ex[n])
        if mode == 'w':
            if e and not clobber: raise E.PyExc('OSError')
            if e: self.lost.add(n)
            self.ex[n] = True; self.data[n] = Nc(self); self.log.append(('create', n))
        elif mode == 'x':
            if e: raise E.PyExc('OSError')
            self.ex[n] = True; self.data[n] = Nc(self); self.log.append(('create', n))
        elif mode in ('a', 'r+', 'r'):
            if not e: raise E.PyExc('FileNotFoundError')
            if self.data[n] is None: raise OutOfSubset('contents of an unknown file')
        else: raise OutOfSubset('Dataset mode')
        self.log.append((mode, n)); d = self.data[n]; d.open, d.mode = True, mode; return d
    def date2num(self, t, units, **k):
        if not isinstance(t, TS): raise OutOfSubset('date2num')
        return sc.sub(t.t, self.epoch(units))
    def num2date(self, x, units, **k):
        if isinstance(x, Arr) and x.ndim == 1: return TI(self.eng.binop(ast.Add, x, self.epoch(units)))
        return TS(sc.add(self.eng.scalar(x), self.epoch(units)))
    def epoch(self, u):
        if not isinstance(u, (E.Opaque, Name)): raise OutOfSubset('time units')
        if not hasattr(u, 'epoch'): u.epoch = self.eng.fresh('epoch', sc.R)
        return u.epoch
class Nc:
    """one netCDF file: dimensions, attributes, variables"""
    def __init__(self, fs): self.fs, self.dims, self.attrs, self.vars, self.open, self.mode = fs, {}, {}, {}, True, 'w'
    def live(self, wr=False):
        fork(self.fs.eng)
        if not self.open or (wr and self.mode == 'r'): raise E.PyExc('RuntimeError', 'closed or read-only file')
    def m_truth(self, eng): return True
    def m_enter(self, eng): return self
    def m_exit(self, eng): self.close()
    def close(self): fork(self.fs.eng); self.open = False
    def setatt(self, k, v): self.live(True); self.attrs[k] = v
    def m_setattr(self, eng, k, v): self.setatt(k, v)
    def mkdim(self, name, size=None):
        self.live(True)
        if not isinstance(name, str) or name in self.dims: raise OutOfSubset('dimension name')
        self.dims[name] = Dim(name, None if size is None else iz(size)); return self.dims[name]
    def mkvar(self, name, dtype, dimensions=(), fill_value=None, zlib=None, **k):
        self.live(True)
        if k or fill_value is not None: raise OutOfSubset('createVariable options')
        dn = (dimensions,) if isinstance(dimensions, str) else tuple(dimensions)
        if not isinstance(name, str) or name in self.vars or any(d not in self.dims for d in dn): raise E.PyExc('KeyError')
        self.vars[name] = Var(self, name, [self.dims[d] for d in dn]); return self.vars[name]
    def m_getattr(self, eng, a):
        if a == 'variables': self.live(); return self.vars
        if a == 'dimensions': self.live(); return self.dims
        if a == 'close': return B(self.close)
        if a == 'sync': return B(lambda: None)
        if a == 'createDimension': return B(self.mkdim)
        if a == 'createVariable': return B(self.mkvar)
        if a == 'setncattr': return B(self.setatt)
        if a == 'setncatts': return B(lambda d: [self.setatt(k, v) for k, v in d.items()] and None)
        if a in self.attrs: return self.attrs[a]
        raise OutOfSubset('Dataset.' + a)
    def m_getitem(self, eng, k):
        self.live()
        if not isinstance(k, str) or k not in self.vars: raise E.PyExc('IndexError')
        return self.vars[k]
class Dim:
    def __init__(self, name, n): self.name, self.n, self.grow = name, n, n is None; self.n = 0 if n is None else n
    def m_getattr(self, eng, a):
        if a == 'name': return self.name
        if a == 'size': return self.n
        if a == 'isunlimited': return B(lambda: self.grow)
        raise OutOfSubset('Dimension.' + a)
    def m_len(self, eng): return self.n
    def m_truth(self, eng): return True
class Var:
    def __init__(self, nc, name, dims):
        self.nc, self.name, self.dims, self.attrs, self.data = nc, name, dims, {}, None
        if sum(d.grow for d in dims[1:]) or len(dims) > 2: raise OutOfSubset('variable layout')
        self.fill = nc.fs.eng.freshfn(name + '_fill', *([sc.I]*len(dims) + [sc.R])); self.data = lambda i: self.fill(*[sc.zi(k) for k in i])
    def m_setattr(self, eng, k, v): self.nc.live(True); self.attrs[k] = v
    def m_getattr(self, eng, a):
        if a in self.attrs: return self.attrs[a]
        if a == 'size':
            n = 1
            for d in self.dims: n = imul(n, d.n)
            return n
        if a == 'shape': return tuple(d.n for d in self.dims)
        if a == 'name': return self.name
        if a == 'setncattr': return B(lambda k, v: self.m_setattr(eng, k, v))
        if a == 'squeeze': raise OutOfSubset('squeeze of a variable')
        raise OutOfSubset('Variable.' + a)
    def m_len(self, eng): return self.dims[0].n
    def m_truth(self, eng): return True
    def split(self, eng, key, grow=False):
        """(fixed indices or None per dimension); bounds"""
        ks = list(key) if isinstance(key, tuple) else [key]; ks += [E.SliceV(None, None, None)]*(len(self.dims)-len(ks)); out = []
        if len(ks) != len(self.dims): raise E.PyExc('IndexError')
        for d, k in zip(self.dims, ks):
            if isinstance(k, E.SliceV):
                if k.step not in (None, 1) or k.lo is not None or k.hi is not None: raise OutOfSubset('slice of a variable')
                out.append(None)
            else:
                k = iz(eng.scalar(k))
                if not (isinstance(k, int) or sc.is_intv(k)): raise OutOfSubset('index of a variable')
                if grow and d.grow:
                    if isinstance(k, int) and k < 0 or not eng.valid_int(k >= 0 if not isinstance(k, int) else True): k = eng.idxnorm(k, d.n)
                    d.n = iz(ite(ilt(k, d.n), d.n, iadd(k, 1)))
                else: k = eng.idxnorm(k, d.n)
                out.append(k)
        return out
    def m_setitem(self, eng, key, val):
        self.nc.live(True); ix = self.split(eng, key, True); free = [j for j, k in enumerate(ix) if k is None]
        if any(self.dims[j].grow for j in free): raise OutOfSubset('whole record store')
        if isinstance(val, (TS, TD, TI, TA, E.Opaque, str)) or val is None: raise OutOfSubset('value stored')
        if sc.is_boolv(val): val = sc.tonum(val)
        if isinstance(val, Arr) and val.dtype == 'b': val = eng.np.astype(val, 'float')
        while isinstance(val, Arr) and val.ndim > len(free):
            if not (isinstance(val.shape[0], int) and val.shape[0] == 1): raise OutOfSubset('more values than places')
            val = eng.getitem(val, 0)
        f = eng.bcast_fn(val, tuple(self.dims[j].n for j in free)); old = self.data
        def data(i):
            c = And(*[ieq(i[j], k) for j, k in enumerate(ix) if k is not None]); v = f(tuple(i[j] for j in free)); v = sc.tonum(v) if sc.is_boolv(v) else v
            return ite(c, sc.tofloat(v), old(i)) if c is not True else sc.tofloat(v)
        self.data = memo(data)
    def m_getitem(self, eng, key):
        self.nc.live(); ix = self.split(eng, key); free = [j for j, k in enumerate(ix) if k is None]; data = self.data
        at = lambda i: data(tuple(i[free.index(j)] if k is None else k for j, k in enumerate(ix)))
        return mk(tuple(self.dims[j].n for j in free), at, 'f')
