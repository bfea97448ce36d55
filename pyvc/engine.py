"""Symbolic executor / VC generator for a subset of Python+numpy, over the AST of the real source."""
import ast, os, time, itertools
from fractions import Fraction
import z3
from . import sc, solver
from .sc import And, Or, Not, Implies, Iff, OutOfSubset, ite
from .solver import Forall
from .arr import *

class PathEnd(Exception): pass
class NeedFork(Exception):
    def __init__(self, key): self.key = key
class Restart(Exception): pass
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class ReturnEx(Exception):
    def __init__(self, v): self.v = v
class PyExc(Exception):
    """an exception raised by the interpreted program"""
    def __init__(self, name, msg=''): self.name, self.msg = name, msg; super().__init__(name)

class Opaque:
    """value the verified text only passes around (log strings, plot handles)"""
    def __init__(self, what=''): self.what = what
    def __repr__(self): return 'Opaque(%s)' % self.what
class Poison:
    def __init__(self, key, name): self.key, self.name = key, name
class Conflict:
    def __init__(self, key): self.key = key
class Mod:
    def __init__(self, name): self.name = name
    def __repr__(self): return 'Mod(%s)' % self.name
class Func:
    def __init__(self, node, module, closure=None): self.node, self.module, self.closure = node, module, closure
    @property
    def qual(self): return self.module.name + '.' + self.node.name
class Builtin:
    def __init__(self, fn, name=''): self.fn, self.name = fn, name
class ExcType:
    def __init__(self, name): self.name = name
class SliceV:
    def __init__(self, lo, hi, step): self.lo, self.hi, self.step = lo, hi, step

class Obl:
    using = None
    def __init__(self, name, facts, goal, kind, extra=(), where=''):
        self.name, self.facts, self.goal, self.kind, self.extra, self.where = name, facts, goal, kind, extra, where
        self.result = None

class Module:
    def __init__(self, name, path):
        self.name = name; self.path = path
        self.src = open(path).read(); self.tree = ast.parse(self.src)
        self.defs = {}
        for st in self.tree.body: self.defs_of(st)
    def defs_of(self, st):
        if isinstance(st, ast.FunctionDef): self.defs[st.name] = ('def', st)
        elif isinstance(st, ast.Import):
            for a in st.names: self.defs[a.asname or a.name.split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0])
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                base = ('.' * st.level) + (st.module or '')
                self.defs[a.asname or a.name] = ('from', base, a.name)
        elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            self.defs[st.targets[0].id] = ('const', st.value)
        elif isinstance(st, (ast.If, ast.Try)):
            for s in st.body: self.defs_of(s)

class Frame:
    def __init__(self, func, module): self.func, self.module, self.loc = func, module, {}

class Engine:
    def __init__(self, repo='/repo/hapuamod', ieee=False, maxpaths=400, name_stores=False, deadline=None, fork=False):
        self.forkall = fork
        self.repo = repo; self.modules = {}; self.ieee = ieee; self.maxpaths = maxpaths
        self.contracts = {}        # 'riv.solveSteady' -> handler(eng, args, kwargs)
        self.ext = {}              # extra external functions: 'pandas.Timedelta' -> fn
        self.name_stores = name_stores
        self.nomerge = set(); self.carried = {}; self.seqloops = set(); self.widened = set(); self.unstable = set(); self.hints = []; self.discovering = 0
        self.dropped_inv = {}; self.inv_proved = set(); self.inv_timeout = 4.0
        self.obls = []; self.deadline = deadline
        self.may_raise = True      # assertion failures / raises end the path quietly
        self.used = set()          # functions whose bodies were executed
        self.dropped = set()
        self.defmode = 'obligation'
        self.reset([])
        from . import nplib
        self.np = nplib.NP(self)

    # ---------------------------------------------------------- path state
    def reset(self, dec):
        self.facts = []; self.dec = list(dec); self.dpos = 0; self.alts = []; self.qn = 0; self.qpre = ()
        self.journal = []; self.inmerge = 0; self.counter = {}; self.frames = []
        self.enums = {}; self.sums = []; self.inthyp = None; self.validc = {}
        self.occ = {}; self.outcome = None; self.events = []
        self.raises = []
        self.freshlog = []; self.appendlog = []; self.loopheads = {}
        self.loopstack = []; self.guards = []; self.inmerge_key = []; self.tries = 0
    def explore(self, start):
        self.obls = []; self.npaths = 0; self.covers = []; self.qcache = {}
        pending = [[]]
        while pending:
            dec = pending.pop()
            self.npaths += 1
            if self.npaths > self.maxpaths: raise OutOfSubset('too many paths')
            if self.deadline and time.time() > self.deadline: raise OutOfSubset('time limit while generating obligations')
            self.reset(dec)
            try: start()
            except PathEnd: pass
            except NeedFork as e:
                self.nomerge.add(e.key); self.qcache = {}; pending = [[]]; self.obls = []; self.npaths = 0; self.covers = []; self.onrestart(); continue
            except Restart:
                self.qcache = {}; pending = [[]]; self.obls = []; self.npaths = 0; self.covers = []; self.onrestart(); continue
            pending.extend(self.alts)
    def choose(self, n):
        """fork: pick one of n options, the others are queued"""
        if n == 1: return 0
        if self.inmerge: raise NeedFork(self.inmerge_key[-1])
        if self.dpos < len(self.dec):
            r = self.dec[self.dpos]
        else:
            r = 0
            for k in range(1, n): self.alts.append(self.dec[:self.dpos] + [k])
            self.dec.append(0)
        self.dpos += 1
        return r
    inmerge_key = []
    onrestart = staticmethod(lambda: None)
    def fresh(self, name, sort):
        k = self.counter.get(name, 0); self.counter[name] = k + 1
        c = z3.Const('%s!%d' % (name, k), sort); self.freshlog.append(c)
        return c
    def freshfn(self, name, *sorts):
        k = self.counter.get(name, 0); self.counter[name] = k + 1
        f = z3.Function('%s!%d' % (name, k), *sorts); self.freshlog.append(f)
        return f
    def fact(self, f):
        if f is True: return
        g = And(*self.guards) if self.guards else True
        if isinstance(f, Forall): self.facts.append(f.guarded(g) if g is not True else f)
        else:
            f = Implies(g, f)
            if f is True: return
            if f is False: f = z3.BoolVal(False)
            self.facts.append(f)
        self.validc = {}
    guards = []
    def snapfacts(self): return list(self.facts) + [g for g in self.guards if g is not True]
    def oblige(self, name, goal, kind='def', extra=()):
        if goal is True: return
        if z3.is_expr(goal) and z3.is_true(z3.simplify(goal)): return
        if self.valid_int(goal): return
        self.obls.append(Obl(name, self.snapfacts(), goal, kind, extra, self.where()))
    def where(self):
        return self.frames[-1].module.name + ':' + str(getattr(self, 'line', '?')) if self.frames else ''
    # ---------------------------------------------------------- validity helpers
    _intonly = {}
    def is_intform(self, f):
        r = self._intonly.get(f.get_id())
        if r is not None: return r[1]
        ok = True; st = [f]; seen = set()
        while st:
            u = st.pop()
            if u.get_id() in seen: continue
            seen.add(u.get_id())
            if u.sort() not in (sc.I, sc.B): ok = False; break
            if z3.is_app(u) and u.num_args() > 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.sort() == sc.I:
                pass
            st.extend(u.children())
        self._intonly[f.get_id()] = (f, ok)
        return ok
    def valid_int(self, c):
        """provable from the integer-only ground facts"""
        if isinstance(c, bool): return c
        k = c.get_id()
        if k in self.validc: return self.validc[k][1]
        r = False
        if self.is_intform(c):
            s = z3.Solver(); s.set('timeout', 300)
            for f in self.snapfacts():
                if not isinstance(f, Forall) and self.is_intform(sc.zb(f)): s.add(f)
            s.add(z3.Not(c)); r = s.check() == z3.unsat
        if not r:
            c2 = z3.simplify(c)
            if z3.is_true(c2): r = True
        self.validc[k] = (c, r)
        return r
    def valid(self, c, timeout=1.0):
        if isinstance(c, bool): return c
        if self.valid_int(c): return True
        return self.query('v', c, lambda: solver.prove(self.snapfacts(), c, timeout, quick=True).status == 'unsat')
    qcache = {}; qn = 0
    def query(self, kind, c, fn):
        """paths share their prefix: the n-th query after the same decisions is the same query"""
        k = (kind, self.qpre, tuple(self.dec[:self.dpos]), self.qn, c.hash()); self.qn += 1
        if k not in self.qcache: self.qcache[k] = fn()
        return self.qcache[k]
    def feasible(self, c):
        if isinstance(c, bool): return c
        if self.valid_int(Not(c)): return False
        return self.query('f', c, lambda: self.feasible_(c))
    def feasible_(self, c):
        fs = [f for f in self.snapfacts()]
        r = solver.check([f for f in fs if not isinstance(f, Forall)] + [c], 0.4)
        if r.status == 'unsat': return False
        if any(isinstance(f, Forall) for f in fs):
            r = solver.check(solver.instantiate(fs, [c], (), 1, cap=300) + [c], 0.6)
            if r.status == 'unsat': return False
        return True
    def branch(self, c):
        """python bool, forking if needed"""
        c = sc.norm(c)
        if isinstance(c, bool): return c
        t, f = self.feasible(c), self.feasible(Not(c))
        if t and not f: self.fact(c); return True
        if f and not t: self.fact(Not(c)); return False
        if not t and not f: raise PathEnd()
        if self.choose(2) == 0: self.fact(c); return True
        self.fact(Not(c)); return False

    # ---------------------------------------------------------- storage
    def setcontent(self, buf, fn, merged=False):
        if buf.readonly: raise OutOfSubset('write to read-only buffer %s' % buf.name)
        self.journal.append((buf, buf.content, buf.version))
        buf.content = memo(fn); buf.version += 1
        for L in self.loopstack: L.touch(buf)
    def rollback(self, mark):
        while len(self.journal) > mark:
            e = self.journal.pop()
            if isinstance(e[0], Buf): e[0].content, e[0].version = e[1], e[2]
            else: e[1]()
    def write(self, a, cond, val, dtype=None):
        """a[idx] = val(idx) where cond(idx), pointwise over view a"""
        b = a.buf
        if getattr(b, 'frozen', None): raise NeedFork(b.frozen)
        for L in self.loopstack: L.wrote(a)
        old = b.content
        isint = b.dtype == 'i'
        dims = list(a.dims); me = Arr(b, dims)
        def fn(bidx):
            pres, vi = me.frombuf(bidx)
            if pres is False: return old(bidx)
            c = And(pres, cond(vi))
            if c is False: return old(bidx)
            v = val(vi)
            if b.dtype == 'f': v = sc.tofloat(v)
            elif b.dtype == 'b' and not sc.is_boolv(v): v = sc.ne(v, 0)
            elif b.dtype == 'i' and sc.is_floatv(v): raise OutOfSubset('float stored in int array')
            if c is True: return v
            return ite(c, v, old(bidx))
        self.setcontent(b, fn)
    # python containers
    def log_undo(self, undo):
        self.journal.append((None, undo))

    # ---------------------------------------------------------- modules & names
    def module(self, name):
        if name not in self.modules:
            p = os.path.join(self.repo, name + '.py')
            if not os.path.exists(p): raise OutOfSubset('no module ' + name)
            self.modules[name] = Module(name, p)
        return self.modules[name]
    def func(self, qual):
        m, f = qual.split('.')
        d = self.module(m).defs.get(f)
        if not d or d[0] != 'def': raise OutOfSubset('function %s not found' % qual)
        return Func(d[1], self.module(m))
    BUILTINS = {}
    def lookup(self, name):
        fr = self.frames[-1]
        f = fr
        while f is not None:
            if name in f.loc:
                v = f.loc[name]
                if isinstance(v, Poison):
                    self.carried.setdefault(v.key, set()).add(v.name); raise Restart()
                if isinstance(v, Conflict): raise NeedFork(v.key)
                return v
            f = f.func.closure if f.func is not None else None
        d = fr.module.defs.get(name)
        if d: return self.resolve_def(fr.module, name, d)
        if name in ('True', 'False', 'None'): return {'True': True, 'False': False, 'None': None}[name]
        if name in self.np.builtins: return Builtin(self.np.builtins[name], name)
        if name.endswith('Error') or name == 'Exception' or name.endswith('Exception'): return ExcType(name)
        raise OutOfSubset('name ' + name)
    def resolve_def(self, module, name, d):
        if d[0] == 'def': return Func(d[1], module)
        if d[0] == 'import': return Mod(d[1])
        if d[0] == 'from':
            if d[1].startswith('.'):
                if d[1] == '.': return Mod('repo:' + d[2])
                m = self.module(d[1][1:]); return self.resolve_def(m, d[2], m.defs[d[2]])
            return self.getattr(Mod(d[1]), d[2])
        if d[0] == 'const':
            fr = Frame(None, module); self.frames.append(fr)
            try: return self.ev(d[1])
            finally: self.frames.pop()
        raise OutOfSubset('definition of ' + name)

    # ---------------------------------------------------------- calls
    def call(self, f, args, kwargs, node=None):
        if isinstance(f, Builtin): return f.fn(*args, **kwargs)
        if isinstance(f, Func):
            q = f.qual
            if q in self.contracts: return self.contracts[q](self, args, kwargs)
            return self.call_func(f, args, kwargs)
        if isinstance(f, ExcType): return ('exc', f.name)
        if isinstance(f, Opaque): return Opaque(f.what + '()')
        if hasattr(f, 'm_call'): return f.m_call(self, args, kwargs)
        if isinstance(f, Mod): raise OutOfSubset('call of module ' + f.name)
        if callable(f): return f(*args, **kwargs)
        raise OutOfSubset('call of %r' % (f,))
    def call_func(self, f, args, kwargs):
        node = f.node; fr = Frame(f, f.module)
        if len(self.frames) > 12: raise OutOfSubset('recursion')
        self.used.add(f.qual if not isinstance(node, ast.Lambda) else f.module.name + '.<lambda>')
        a = node.args; names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names):
            if not a.vararg: raise PyExc('TypeError', 'too many arguments')
        for n, v in zip(names, args): fr.loc[n] = v
        if a.vararg: fr.loc[a.vararg.arg] = tuple(args[len(names):])
        for k, v in kwargs.items():
            if k in fr.loc: raise PyExc('TypeError', 'duplicate argument')
            if k not in names and k not in [x.arg for x in a.kwonlyargs]: raise PyExc('TypeError', 'unexpected argument ' + k)
            fr.loc[k] = v
        defs = a.defaults
        for n, d in zip(names[len(names)-len(defs):], defs):
            if n not in fr.loc: fr.loc[n] = self.in_frame(Frame(None, f.module), lambda d=d: self.ev(d))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in fr.loc:
                if d is None: raise PyExc('TypeError')
                fr.loc[x.arg] = self.in_frame(Frame(None, f.module), lambda d=d: self.ev(d))
        for n in names:
            if n not in fr.loc: raise PyExc('TypeError', 'missing argument ' + n)
        self.frames.append(fr)
        line = getattr(self, 'line', None)
        try:
            if isinstance(node, ast.Lambda): return self.ev(node.body)
            try: self.block(node.body)
            except ReturnEx as r: return r.v
            return None
        finally:
            self.frames.pop(); self.line = line
    def in_frame(self, fr, th):
        self.frames.append(fr)
        try: return th()
        finally: self.frames.pop()

    # ---------------------------------------------------------- statements
    def block(self, stmts):
        for st in stmts: self.stmt(st)
    def stmt(self, st):
        self.line = st.lineno
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None: raise OutOfSubset('statement ' + type(st).__name__)
        m(st)
    def s_Pass(self, st): pass
    def s_Expr(self, st):
        if isinstance(st.value, ast.Constant): return
        self.ev(st.value)
    def s_Import(self, st):
        for a in st.names: self.frames[-1].loc[a.asname or a.name.split('.')[0]] = Mod(a.name if a.asname else a.name.split('.')[0])
    def s_ImportFrom(self, st):
        for a in st.names:
            if st.level: raise OutOfSubset('local relative import')
            self.frames[-1].loc[a.asname or a.name] = self.getattr(Mod(st.module), a.name)
    def s_FunctionDef(self, st):
        self.frames[-1].loc[st.name] = Func(st, self.frames[-1].module, self.frames[-1])
    def s_Return(self, st):
        raise ReturnEx(self.ev(st.value) if st.value else None)
    def s_Break(self, st): raise BreakEx()
    def s_Continue(self, st): raise ContinueEx()
    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name): self.frames[-1].loc.pop(t.id, None)
            else: raise OutOfSubset('del')
    def s_Assign(self, st):
        v = self.ev(st.value)
        for t in st.targets: self.assign(t, v)
    def s_AnnAssign(self, st):
        if st.value is not None: self.assign(st.target, self.ev(st.value))
    def s_AugAssign(self, st):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id); v = self.ev(st.value)
            if isinstance(cur, Arr):
                self.aug_arr(cur, self.binop(type(st.op), cur, v)); return
            if isinstance(cur, list) and isinstance(st.op, ast.Add):
                self.list_extend(cur, v); return
            self.frames[-1].loc[t.id] = self.binop(type(st.op), cur, v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value); key = self.evslice(t.slice)
            cur = self.getitem(base, key); v = self.ev(st.value)
            new = self.binop(type(st.op), cur, v)
            self.setitem(base, key, new)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            if isinstance(base, Arr) and t.attr == 'values':
                self.aug_arr(base, self.binop(type(st.op), base, self.ev(st.value))); return
            raise OutOfSubset('attribute augassign')
        else: raise OutOfSubset('augassign target')
    def aug_arr(self, cur, new):
        sh = cur.shape
        val = self.bcast_fn(new, sh)
        if cur.dtype == 'i' and isinstance(new, Arr) and new.dtype == 'f': raise PyExc('TypeError', 'casting')
        self.write(cur, lambda i: True, val)
    def list_extend(self, lst, v):
        it = self.concrete_iter(v)
        if it is None: raise OutOfSubset('extend with symbolic')
        self.list_mut(lst); lst.extend(it)
    def list_mut(self, lst):
        old = list(lst)
        def undo(): lst[:] = old
        self.log_undo(undo)
    def dict_mut(self, d):
        old = dict(d)
        def undo(): d.clear(); d.update(old)
        self.log_undo(undo)
    def assign(self, t, v):
        if isinstance(t, ast.Name): self.frames[-1].loc[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Opaque): vals = [Opaque() for _ in t.elts]
            else: vals = self.concrete_iter(v)
            if vals is None: raise OutOfSubset('unpacking symbolic sequence')
            if len(vals) != len(t.elts): raise PyExc('ValueError', 'unpack')
            for a, b in zip(t.elts, vals): self.assign(a, b)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value); self.setitem(base, self.evslice(t.slice), v)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            if isinstance(base, Opaque): return
            if hasattr(base, 'm_setattr'): base.m_setattr(self, t.attr, v); return
            raise OutOfSubset('attribute assignment')
        else: raise OutOfSubset('assignment target')
    def concrete_iter(self, v):
        if isinstance(v, (list, tuple)): return list(v)
        if isinstance(v, range): return list(v)
        if isinstance(v, str): return list(v)
        if isinstance(v, dict): return list(v)
        if isinstance(v, Arr) and v.ndim >= 1:
            n = v.shape[0]
            n = sc.const(n) if not isinstance(n, int) else n
            if isinstance(n, int):
                return [self.getitem(v, k) for k in range(n)]
        return None
    def s_Assert(self, st):
        v = self.ev(st.test)
        if getattr(v, 'assumed', False): self.dropped.add('assertions about values left arbitrary'); return
        c = self.truth(v)
        self.do_assert(c)
    def do_assert(self, c):
        if c is True: return
        if not self.may_raise or self.tries:
            if self.tries:
                if not self.branch(c): raise PyExc('AssertionError')
                return
            self.oblige('assertion holds', c if z3.is_expr(c) else z3.BoolVal(bool(c)), 'assert'); self.fact(c); return
        self.raises.append((self.snapfacts(), Not(c), 'AssertionError'))
        if c is False: raise PathEnd()
        self.fact(c)
    tries = 0; anymode = None; whilehook = None
    def s_Raise(self, st):
        name = 'Exception'
        if st.exc is not None:
            e = st.exc
            if isinstance(e, ast.Call): e = e.func
            if isinstance(e, ast.Name): name = e.id
            elif isinstance(e, ast.Attribute): name = e.attr
        raise PyExc(name)
    def s_With(self, st):
        for it in st.items:
            cm = self.ev(it.context_expr)
            v = cm
            if hasattr(cm, 'm_enter'): v = cm.m_enter(self)
            elif not isinstance(cm, Opaque): raise OutOfSubset('with')
            if it.optional_vars is not None: self.assign(it.optional_vars, v)
        try: self.block(st.body)
        finally:
            for it in st.items: pass
        for it in st.items:
            if hasattr(cm, 'm_exit'): cm.m_exit(self)
    def s_Try(self, st):
        if self.inmerge: raise NeedFork(self.inmerge_key[-1])
        mark = None
        try:
            self.tries += 1
            try: self.block(st.body)
            finally: self.tries -= 1
        except PyExc as e:
            for h in st.handlers:
                names = []
                if h.type is None: names = None
                else:
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    names = [t.id if isinstance(t, ast.Name) else t.attr for t in ts]
                if names is None or e.name in names or 'Exception' in names or \
                   ('ArithmeticError' in names and e.name == 'ZeroDivisionError') or ('LookupError' in names and e.name in ('IndexError','KeyError')):
                    if h.name: self.frames[-1].loc[h.name] = Opaque('exception')
                    self.block(h.body); break
            else:
                self.block(st.finalbody); raise
        else: self.block(st.orelse)
        self.block(st.finalbody)

    # ---- if with merging
    def s_If(self, st):
        c = sc.norm(self.truth(self.ev(st.test)))
        if isinstance(c, bool):
            self.block(st.body if c else st.orelse); return
        t, f = self.feasible(c), self.feasible(Not(c))
        if not t and not f: raise PathEnd()
        if t and not f: self.fact(c); self.block(st.body); return
        if f and not t: self.fact(Not(c)); self.block(st.orelse); return
        key = ('if', self.frames[-1].module.name, st.lineno, st.col_offset)
        if key in self.nomerge or self.has_exit(st) or (self.forkall and not self.inmerge):
            if self.inmerge: raise NeedFork(self.inmerge_key[-1])
            if self.choose(2) == 0: self.fact(c); self.block(st.body)
            else: self.fact(Not(c)); self.block(st.orelse)
            return
        self.merge_exec(key, c, lambda: self.block(st.body), lambda: self.block(st.orelse))
    def has_exit(self, st):
        def walk(ns, inloop):
            for n in ns:
                if isinstance(n, ast.Return): return True
                if isinstance(n, (ast.Break, ast.Continue)) and not inloop: return True
                if isinstance(n, (ast.FunctionDef, ast.Lambda)): continue
                if isinstance(n, (ast.For, ast.While)):
                    if walk(n.body + n.orelse, True): return True
                elif isinstance(n, ast.If):
                    if walk(n.body + n.orelse, inloop): return True
                elif isinstance(n, ast.Try):
                    if walk(n.body + n.orelse + n.finalbody + [s for h in n.handlers for s in h.body], inloop): return True
                elif isinstance(n, ast.With):
                    if walk(n.body, inloop): return True
            return False
        return walk(st.body + st.orelse, False)
    def merge_exec(self, key, c, th1, th2):
        fr = self.frames[-1]
        res = []
        for cond, th in ((c, th1), (Not(c), th2)):
            mark = len(self.journal); loc0 = dict(fr.loc)
            self.guards = self.guards + [cond]; self.inmerge += 1; self.inmerge_key = self.inmerge_key + [key]
            ev0 = len(self.events); en0 = dict(self.enums); sm0 = list(self.sums)
            exc = None; self.validc = {}
            try:
                th()
            except (PathEnd, PyExc) as e: exc = e
            finally:
                self.guards = self.guards[:-1]; self.inmerge -= 1; self.inmerge_key = self.inmerge_key[:-1]
            self.validc = {}
            if any(not isinstance(e[0], Buf) for e in self.journal[mark:]): raise NeedFork(key)
            if len(self.events) != ev0: raise NeedFork(key)
            bufs = {}
            for e in self.journal[mark:]: bufs.setdefault(e[0].uid, (e[0], e[1]))
            final = {u: (b, b.content) for u, (b, _) in bufs.items()}
            loc1 = dict(fr.loc)
            self.rollback(mark); fr.loc.clear(); fr.loc.update(loc0)
            res.append((exc, final, loc1))
            # enumerations made under a guard stay usable (their facts are guarded); drop to be safe
            self.enums = en0
        (e1, f1, l1), (e2, f2, l2) = res
        if e1 and e2: raise PathEnd() if not (isinstance(e1, PyExc) or isinstance(e2, PyExc)) else NeedFork(key)
        for e, cond, fo, lo in ((e1, c, f2, l2), (e2, Not(c), f1, l1)):
            if e:
                if isinstance(e, PyExc):
                    if self.tries or not self.may_raise: raise NeedFork(key)
                    self.raises.append((self.snapfacts(), cond, e.name))
                self.fact(Not(cond))
                for u, (b, content) in fo.items(): self.setcontent(b, content)
                fr.loc.clear(); fr.loc.update(lo); return
        for u in set(f1) | set(f2):
            b = (f1.get(u) or f2.get(u))[0]
            c1 = f1[u][1] if u in f1 else b.content
            c2 = f2[u][1] if u in f2 else b.content
            self.setcontent(b, lambda idx, c1=c1, c2=c2: ite(c, c1(idx), c2(idx)))
        for n in set(l1) | set(l2):
            if n in l1 and n in l2:
                if l1[n] is l2[n]: fr.loc[n] = l1[n]
                else: fr.loc[n] = self.merge_val(key, c, l1[n], l2[n])
            else: fr.loc[n] = Conflict(key)
    def merge_val(self, key, c, a, b):
        if a is b: return a
        if isinstance(a, (Poison, Conflict)) or isinstance(b, (Poison, Conflict)):
            return a if isinstance(a, (Poison, Conflict)) else b
        if (sc.is_num(a) or sc.is_boolv(a)) and (sc.is_num(b) or sc.is_boolv(b)):
            if sc.is_boolv(a) != sc.is_boolv(b): return Conflict(key)
            if sc.is_intv(a) != sc.is_intv(b) and not sc.is_boolv(a): a, b = sc.tofloat(a), sc.tofloat(b)
            return ite(c, a, b)
        if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and a.dtype == b.dtype:
            if a.buf is b.buf and a.dims == b.dims: return a
            sh = []
            for x, y in zip(a.shape, b.shape):
                sh.append(x if ieq(x, y) is True else iz(ite(c, x, y)))
            fa, fb = a.snap(), b.snap()
            m = mk(sh, lambda idx: ite(c, fa(idx), fb(idx)), a.dtype)
            ia, ib = a.getinv(), b.getinv()
            if ia and ib:
                def inv(j):
                    p1, k1 = ia(j); p2, k2 = ib(j); return ite(c, p1, p2), iz(ite(c, k1, k2))
                m.inv = inv; m.invver = m.buf.version
            m.buf.frozen = key
            return m
        if isinstance(a, (tuple,)) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(key, c, x, y) for x, y in zip(a, b))
        if isinstance(a, Opaque) and isinstance(b, Opaque): return a
        if type(a) is type(b) and isinstance(a, (str, type(None))) and a == b: return a
        if hasattr(a, 'm_merge') and type(a) is type(b):
            r = a.m_merge(self, c, b)
            if r is not None: return r
        return Conflict(key)

    # ---- loops: see loops.py
    def s_While(self, st):
        from . import loops
        loops.exec_while(self, st)
    def s_For(self, st):
        from . import loops
        loops.exec_for(self, st)

    # ---------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise OutOfSubset('expression ' + type(e).__name__)
        return m(e)
    def e_Constant(self, e):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str): return v
        if isinstance(v, int): return v
        if isinstance(v, float): return Fraction(repr(v))
        if v is Ellipsis: raise OutOfSubset('ellipsis')
        return v
    def e_Name(self, e): return self.lookup(e.id)
    def e_Tuple(self, e): return tuple(self.evlist(e.elts))
    def e_List(self, e): return self.evlist(e.elts)
    def evlist(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                it = self.concrete_iter(self.ev(x.value))
                if it is None: raise OutOfSubset('star')
                out += it
            else: out.append(self.ev(x))
        return out
    def e_Dict(self, e):
        return {self.ev(k): self.ev(v) for k, v in zip(e.keys, e.values)}
    def e_JoinedStr(self, e): return Opaque('str')
    def e_Lambda(self, e): return Func(e, self.frames[-1].module, self.frames[-1])
    def e_IfExp(self, e):
        c = sc.norm(self.truth(self.ev(e.test)))
        if isinstance(c, bool): return self.ev(e.body if c else e.orelse)
        key = ('ifexp', self.frames[-1].module.name, e.lineno, e.col_offset)
        if key in self.nomerge:
            return self.ev(e.body) if self.branch(c) else self.ev(e.orelse)
        self.guards = self.guards + [c]; a = self.ev(e.body); self.guards = self.guards[:-1]
        self.guards = self.guards + [Not(c)]; b = self.ev(e.orelse); self.guards = self.guards[:-1]
        r = self.merge_val(key, c, a, b)
        if isinstance(r, Conflict): raise NeedFork(key)
        return r
    def e_BoolOp(self, e):
        key = ('bool', self.frames[-1].module.name, e.lineno, e.col_offset)
        isand = isinstance(e.op, ast.And)
        acc = None; ng = 0
        try:
            for k, x in enumerate(e.values):
                v = self.ev(x)
                if k == len(e.values)-1 and acc is None: return v
                c = sc.norm(self.truth(v))
                if isinstance(c, bool):
                    if c != isand:
                        # short circuit
                        if acc is None: return v
                        return False if isand else True
                    continue
                if acc is None: acc = c
                else: acc = And(acc, c) if isand else Or(acc, c)
                self.guards = self.guards + [c if isand else Not(c)]; ng += 1
            return acc if acc is not None else v
        finally:
            if ng: self.guards = self.guards[:-ng]
    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not): return Not(sc.norm(self.truth(v)))
        if isinstance(e.op, ast.USub):
            if hasattr(v, 'm_neg'): return v.m_neg(self)
            return self.np.ew1(sc.neg, v)
        if isinstance(e.op, ast.UAdd): return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Arr) and v.dtype == 'b': return self.np.ew1(Not, v, 'b')
            if sc.is_boolv(v): return Not(v)
            raise OutOfSubset('~ on non-bool')
    def e_BinOp(self, e):
        a = self.ev(e.left); b = self.ev(e.right)
        if isinstance(e.op, ast.Mod) and (isinstance(a, str) or isinstance(a, Opaque)): return Opaque('str')
        return self.binop(type(e.op), a, b)
    def e_Compare(self, e):
        left = self.ev(e.left); res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            v = self.compare(type(op), left, right)
            res = v if res is None else (self.np.logical_and(res, v) if isinstance(v, Arr) else And(res, v))
            left = right
        return res
    def e_Attribute(self, e): return self.getattr(self.ev(e.value), e.attr)
    def e_Subscript(self, e): return self.getitem(self.ev(e.value), self.evslice(e.slice))
    def evslice(self, s):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.ev(x) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple): return tuple(self.evslice(x) for x in s.elts)
        return self.ev(s)
    def e_Slice(self, s): return self.evslice(s)
    def e_ListComp(self, e): return list(self.comp_iter(e))
    def e_GeneratorExp(self, e): return list(self.comp_iter(e))
    def comp_iter(self, e):
        out = []
        fr = Frame(Func(None, self.frames[-1].module, self.frames[-1]), self.frames[-1].module)
        self.frames.append(fr)
        try:
            def go(gs):
                if not gs: out.append(self.ev(e.elt)); return
                g = gs[0]
                it = self.concrete_iter(self.ev(g.iter))
                if it is None: raise OutOfSubset('comprehension over symbolic sequence')
                for v in it:
                    self.assign(g.target, v)
                    ok = True
                    for c in g.ifs:
                        cc = sc.norm(self.truth(self.ev(c)))
                        if not isinstance(cc, bool): cc = self.branch(cc)
                        if not cc: ok = False; break
                    if ok: go(gs[1:])
            go(e.generators)
        finally: self.frames.pop()
        return out
    def e_Call(self, e):
        # logging and printing are dropped (arguments not evaluated)
        f = e.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id not in self.frames[-1].loc:
            d = self.frames[-1].module.defs.get(f.value.id)
            if d == ('import', 'logging'): self.dropped.add('logging'); return None
        if isinstance(f, ast.Name) and f.id == 'print': self.dropped.add('print'); return None
        fn = self.ev(f)
        args = self.evlist(e.args); kwargs = {}
        for k in e.keywords:
            if k.arg is None: kwargs.update(self.ev(k.value))
            else: kwargs[k.arg] = self.ev(k.value)
        return self.call(fn, args, kwargs, e)

    # ---------------------------------------------------------- operations
    def truth(self, v):
        if isinstance(v, bool): return v
        if v is None: return False
        if isinstance(v, Arr):
            n = 1
            for d in v.shape:
                if not isinstance(d, int):
                    self.oblige('array used as a condition has one element', ieq(d, 1)); d = 1
                n *= d
            if n != 1: raise PyExc('ValueError', 'truth of array')
            return self.truth(v.get(tuple(0 for _ in v.shape)))
        if isinstance(v, (int, Fraction)): return v != 0
        if isinstance(v, (str, list, tuple, dict)): return len(v) > 0
        if sc.is_boolv(v): return v
        if sc.is_num(v): return Or(sc.is_nan(v), sc.ne(v, 0))
        if isinstance(v, Opaque): raise OutOfSubset('condition on opaque value %s' % v.what)
        if isinstance(v, (Func, Builtin)): return True
        if hasattr(v, 'm_truth'): return v.m_truth(self)
        raise OutOfSubset('truth of %r' % (v,))
    def binop(self, op, a, b):
        for x, y, sw in ((a, b, False), (b, a, True)):
            if hasattr(x, 'm_binop'):
                r = x.m_binop(self, op, y, sw)
                if r is not NotImplemented: return r
        if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque('op')
        if isinstance(a, str) and isinstance(b, str) and op is ast.Add: return a + b
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op is ast.Add: return a + b
        if isinstance(a, list) and isinstance(b, int) and op is ast.Mult: return a * b
        if isinstance(a, str) or isinstance(b, str): return Opaque('str')
        if isinstance(a, list): a = self.np.array(a)
        if isinstance(b, list): b = self.np.array(b)
        n = self.np
        if op is ast.Add: return n.ew2(sc.add, a, b) if not n.bothbool(a, b) else n.logical_or(a, b)
        if op is ast.Sub: return n.ew2(sc.sub, a, b)
        if op is ast.Mult: return n.ew2(sc.mul, a, b) if not n.bothbool(a, b) else n.logical_and(a, b)
        if op is ast.Div: return n.divide(a, b)
        if op is ast.Pow: return n.power(a, b)
        if op is ast.Mod: return n.mod(a, b)
        if op is ast.FloorDiv: return n.floordiv(a, b)
        if op is ast.BitAnd: return n.logical_and(a, b) if n.isbool(a) and n.isbool(b) else self.oos('&')
        if op is ast.BitOr: return n.logical_or(a, b) if n.isbool(a) and n.isbool(b) else self.oos('|')
        if op is ast.BitXor: return n.ew2(lambda x, y: Not(Iff(x, y)), a, b, 'b') if n.isbool(a) and n.isbool(b) else self.oos('^')
        raise OutOfSubset('operator %s' % op.__name__)
    def oos(self, w): raise OutOfSubset(w)
    CMP = {ast.Lt: sc.lt, ast.LtE: sc.le, ast.Gt: sc.gt, ast.GtE: sc.ge, ast.Eq: sc.eq, ast.NotEq: sc.ne}
    def compare(self, op, a, b):
        if op in (ast.Is, ast.IsNot):
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                r = (a is b)
                if (isinstance(a, bool) and sc.is_boolv(b)) or (isinstance(b, bool) and sc.is_boolv(a)): r = Iff(a, b)
                if isinstance(a, Opaque) or isinstance(b, Opaque): raise OutOfSubset('is on opaque')
                return r if op is ast.Is else Not(r)
            raise OutOfSubset('is')
        if op in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return r if op is ast.In else Not(r)
        for x, y, sw in ((a, b, False), (b, a, True)):
            if hasattr(x, 'm_compare'):
                r = x.m_compare(self, op, y, sw)
                if r is not NotImplemented: return r
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None or isinstance(a, (tuple, dict)) or isinstance(b, (tuple, dict)):
            if isinstance(a, Opaque) or isinstance(b, Opaque): raise OutOfSubset('comparison of opaque')
            if op is ast.Eq: return a == b
            if op is ast.NotEq: return a != b
            raise PyExc('TypeError')
        if isinstance(a, list) and isinstance(b, list):
            if len(a) != len(b): return op is not ast.Eq
            r = And(*[self.truth(self.compare(ast.Eq, x, y)) for x, y in zip(a, b)])
            return r if op is ast.Eq else Not(r)
        if isinstance(a, Opaque) or isinstance(b, Opaque): raise OutOfSubset('comparison of opaque')
        return self.np.ew2(self.CMP[op], a, b, 'b')
    def contains(self, c, x):
        if hasattr(c, 'm_contains'): return c.m_contains(self, x)
        if isinstance(c, dict):
            if isinstance(x, str): return x in c
            raise OutOfSubset('in dict')
        if isinstance(c, (list, tuple)):
            return Or(*[sc.norm(self.truth(self.compare(ast.Eq, y, x))) for y in c])
        if isinstance(c, str) and isinstance(x, str): return x in c
        if isinstance(c, Arr): return self.np.any(self.compare(ast.Eq, c, x))
        raise OutOfSubset('in')
    def getattr(self, v, attr):
        if isinstance(v, Mod): return self.anymode(v, attr) if self.anymode else self.np.modattr(v, attr)
        if isinstance(v, Opaque): return Opaque(v.what + '.' + attr)
        if isinstance(v, Arr): return self.np.arrattr(v, attr)
        if isinstance(v, list): return self.np.listattr(v, attr)
        if isinstance(v, dict): return self.np.dictattr(v, attr)
        if isinstance(v, str): return self.np.strattr(v, attr)
        if hasattr(v, 'm_getattr'): return v.m_getattr(self, attr)
        if sc.is_num(v) or sc.is_boolv(v): return self.np.scalarattr(v, attr)
        if isinstance(v, tuple) and attr == 'index': raise OutOfSubset('tuple.index')
        raise OutOfSubset('attribute %s of %r' % (attr, type(v)))

    # ---------------------------------------------------------- indexing
    def idxnorm(self, i, n, what='index'):
        """bounds obligation and negative index semantics"""
        if isinstance(i, bool): raise OutOfSubset('bool index')
        if isinstance(i, Fraction): raise PyExc('IndexError')
        if isinstance(i, Arr) and i.ndim == 0: i = i.get(())
        i = iz(i)
        if isinstance(i, int) and isinstance(n, int):
            if not -n <= i < n: raise PyExc('IndexError')
            return i if i >= 0 else i + n
        if not (isinstance(i, int) or sc.is_intv(i)): raise OutOfSubset('index %r' % (i,))
        if isinstance(i, int):
            if i >= 0: self.bound(ilt(i, n)); return i
            self.bound(ile(-i, n)); return iadd(n, i)
        if self.valid(ile(0, i)): self.bound(ilt(i, n)); return i
        self.bound(And(ile(isub(0, n), i), ilt(i, n)))
        return iz(ite(ilt(i, 0), iadd(i, n), i))
    def bound(self, c):
        if c is True: return
        if self.valid_int(c): return
        if self.tries and False: pass
        self.oblige('index in bounds', sc.zb(c)); self.fact(c)
    def slicenorm(self, s, n):
        """(start, step, length)"""
        step = 1 if s.step is None else iz(s.step)
        if step not in (1, -1) and not (isinstance(step, int) and step != 0): raise OutOfSubset('slice step')
        def clampidx(i, lo, hi):
            # i possibly negative -> +n ; clamp into [lo,hi]
            if isinstance(i, Arr): raise OutOfSubset('array slice bound')
            i = iz(i)
            if isinstance(i, Fraction): raise PyExc('TypeError')
            if isinstance(i, int):
                if i < 0: i = iadd(n, i)
            elif not self.valid(ile(0, i)):
                i = iz(ite(ilt(i, 0), iadd(i, n), i))
            if not self.valid(ile(lo, i)): i = iz(ite(ilt(i, lo), lo, i))
            if not self.valid(ile(i, hi)): i = iz(ite(ilt(hi, i), hi, i))
            return i
        if step > 0:
            lo = 0 if s.lo is None else clampidx(s.lo, 0, n)
            hi = n if s.hi is None else clampidx(s.hi, 0, n)
            ln = isub(hi, lo)
        else:
            lo = isub(n, 1) if s.lo is None else clampidx(s.lo, -1, isub(n, 1))
            hi = -1 if s.hi is None else clampidx(s.hi, -1, isub(n, 1))
            ln = isub(lo, hi)
        a = abs(step)
        if a != 1:
            ln = (ln + a - 1)//a if isinstance(ln, int) else isimp((sc.zi(ln) + (a-1)) / a)
        if isinstance(ln, int): ln = max(ln, 0)
        elif not self.valid(ile(0, ln)): ln = iz(ite(ilt(ln, 0), 0, ln))
        return lo, step, ln
    def split_key(self, a, key):
        """apply the basic part of the key; -> (view, None) or (view, (axis, fancy key))"""
        if not isinstance(key, tuple): key = (key,)
        key = list(key)
        nd = a.ndim
        if any(k is None for k in key): raise OutOfSubset('newaxis')
        # 2-D boolean mask
        if len(key) == 1 and isinstance(key[0], Arr) and key[0].ndim > 1:
            return a, ('mask', key[0])
        if len(key) > nd: raise PyExc('IndexError', 'too many indices')
        key += [SliceV(None, None, None)] * (nd - len(key))
        dims = []; fancy = None; ki = 0; outax = 0
        nfancy = sum(1 for k in key if isinstance(k, (Arr, list)) and not (isinstance(k, Arr) and k.ndim == 0))
        if nfancy > 1: return a, ('multi', key)
        for d in a.dims:
            if d[0] == 'fix': dims.append(d); continue
            k = key[ki]; ki += 1
            st, step, n = d[1], d[2], d[3]
            if isinstance(k, SliceV):
                lo, s2, ln = self.slicenorm(k, n)
                dims.append(('ax', iadd(st, imul(step, lo)), step*s2, ln)); outax += 1
            elif isinstance(k, (Arr, list)) and not (isinstance(k, Arr) and k.ndim == 0):
                dims.append(d); fancy = (outax, k); outax += 1
            else:
                i = self.idxnorm(k, n); dims.append(('fix', iadd(st, imul(step, i))))
        v = Arr(a.buf, dims)
        if a.getinv() and fancy is None and a.ndim == 1 and v.ndim == 1:
            # slices of index arrays keep their inverse
            inv0 = a.getinv(); (lo, s2, ln) = self.slicenorm(key[0], a.shape[0])
            if s2 in (1, -1):
                def inv(j):
                    p, k = inv0(j); kk = isub(k, lo) if s2 == 1 else isub(lo, k)
                    return And(p, inrange(kk, 0, ln)), kk
                v.inv = inv; v.invver = a.buf.version
        return v, fancy
    def getitem(self, a, key):
        if hasattr(a, 'm_getitem'): return a.m_getitem(self, key)
        if isinstance(a, Opaque): return Opaque(a.what + '[]')
        if isinstance(a, dict):
            if isinstance(key, str) or isinstance(key, int):
                if key not in a: raise PyExc('KeyError')
                return a[key]
            raise OutOfSubset('dict key')
        if isinstance(a, (list, tuple, str)):
            if isinstance(key, SliceV):
                xs = [sc.norm(x) if x is not None else None for x in (key.lo, key.hi, key.step)]
                if any(z3.is_expr(x) for x in xs): raise OutOfSubset('symbolic slice of list')
                return a[slice(*xs)]
            k = iz(key) if not isinstance(key, Arr) else self.oos('list index')
            if isinstance(k, int):
                if not -len(a) <= k < len(a): raise PyExc('IndexError')
                return a[k]
            if isinstance(a, str): raise OutOfSubset('str index')
            k = self.idxnorm(k, len(a)); r = a[-1]
            for j in range(len(a)-2, -1, -1): r = self.merge_val(('list',), ieq(k, j), a[j], r)
            return r
        if isinstance(a, Arr):
            v, fancy = self.split_key(a, key)
            if fancy is None:
                if v.ndim == 0: return v.get(())
                return v
            return self.np.fancy_get(v, fancy)
        raise OutOfSubset('subscript of %r' % type(a))
    def setitem(self, a, key, val):
        if hasattr(a, 'm_setitem'): return a.m_setitem(self, key, val)
        if isinstance(a, Opaque): return
        if isinstance(a, dict):
            if not isinstance(key, (str, int)): raise OutOfSubset('dict key')
            self.dict_mut(a); a[key] = val; return
        if isinstance(a, list):
            k = iz(key)
            if not isinstance(k, int): raise OutOfSubset('list store')
            if not -len(a) <= k < len(a): raise PyExc('IndexError')
            self.list_mut(a); a[k] = val; return
        if isinstance(a, Arr):
            v, fancy = self.split_key(a, key)
            if isinstance(val, (list, tuple)): val = self.np.array(list(val))
            if v.dtype == 'i' and ((isinstance(val, Arr) and val.dtype == 'f') or sc.is_floatv(val)): raise OutOfSubset('float into int array')
            if fancy is None:
                if v.ndim == 0:
                    x = self.scalar(val)
                    if self.name_stores and z3.is_expr(x) and x.num_args() > 0 and v.dtype == 'f':
                        c = self.fresh('st', sc.R); self.fact(c == x); x = c
                    elif self.name_stores and isinstance(x, sc.XF) and v.dtype == 'f' and z3.is_expr(x.v) and x.v.num_args() > 0:
                        c = self.fresh('st', sc.R); self.fact(c == x.v); x = sc.xf(c, x.nan, x.pi, x.ni)
                    self.write(v, lambda i: True, lambda i: x); return
                f = self.bcast_fn(val, v.shape)
                self.write(v, lambda i: True, f); return
            self.np.fancy_set(v, fancy, val); return
        raise OutOfSubset('store into %r' % type(a))
    def scalar(self, v):
        if isinstance(v, Arr):
            for d in v.shape:
                if not isinstance(d, int) or d != 1:
                    if isinstance(d, int): raise PyExc('ValueError')
                    self.oblige('one element', ieq(d, 1))
            return v.get(tuple(0 for _ in v.shape))
        return v
    def samedim(self, a, b, what='array lengths agree'):
        c = ieq(a, b)
        if c is True: return
        if c is False: raise PyExc('ValueError', 'shape mismatch')
        if self.valid_int(c): return
        self.oblige(what, c); self.fact(c)
    def bcast_fn(self, val, shape):
        """function idx->value broadcasting val to shape"""
        if isinstance(val, (list, tuple)): val = self.np.array(list(val))
        if not isinstance(val, Arr): return lambda i: val
        vs = val.shape; f = val.snap(); nd = len(shape)
        if len(vs) > nd:
            if all(isinstance(d, int) and d == 1 for d in vs[:len(vs)-nd]): pass
            else: raise PyExc('ValueError', 'broadcast')
        pick = []
        off = nd - len(vs)
        for k, d in enumerate(vs):
            if k + off < 0: pick.append(None); continue
            if isinstance(d, int) and d == 1 and not (isinstance(shape[k+off], int) and shape[k+off] == 1): pick.append(None); continue
            self.samedim(d, shape[k+off]); pick.append(k+off)
        return lambda i: f(tuple(0 if p is None else i[p] for p in pick))
