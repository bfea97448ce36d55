"""Frame conditions (assigns clauses) of real functions, discharged by a flow-sensitive alias analysis of their source.

Contract of a function under this verifier: it writes to nothing reachable from its parameters, except parameters named in `may`.
One obligation per write (subscript / attribute / augmented assignment, in-place method, out= argument, call of a mutating function,
call of another function of the repository: checked against that function's own summary).  Abstract value = (self, elem, nd, mask):
self / elem = parameters whose memory the object itself / the objects in it may be, nd = number of dimensions if known, mask = certainly an
index array (not a slice).  Unknown calls return something that may alias every argument, and are reported as dropped contracts."""
import ast, os

def parse(t):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore'); return ast.parse(t)

class V:
    __slots__ = ('s', 'e', 'nd', 'mask', 'fn')
    def __init__(self, s=(), e=(), nd=None, mask=False, fn=None): self.s, self.e, self.nd, self.mask, self.fn = frozenset(s), frozenset(e), nd, mask, fn
    def join(self, o): return V(self.s | o.s, self.e | o.e, self.nd if self.nd == o.nd else None, self.mask and o.mask, self.fn if self.fn == o.fn else None)
    def __eq__(self, o): return (self.s, self.e, self.nd, self.mask, self.fn) == (o.s, o.e, o.nd, o.mask, o.fn)
    def __hash__(self): return 0
FRESH = V()
SCALAR = V(nd=0)
VIEWS = {'asarray', 'asanyarray', 'ravel', 'reshape', 'squeeze', 'transpose', 'swapaxes', 'flipud', 'fliplr', 'flip', 'atleast_1d', 'atleast_2d', 'broadcast_to', 'expand_dims', 'rollaxis', 'moveaxis',
         'ascontiguousarray', 'split', 'array_split', 'hsplit', 'vsplit', 'diagonal', 'real', 'imag', 'rot90', 'require', 'frombuffer', 'ma', 'nditer', 'asfarray', 'masked_invalid'}
VIEWM = {'view', 'ravel', 'reshape', 'squeeze', 'transpose', 'swapaxes', 'diagonal', 'T', 'flat', 'real', 'imag', 'base', 'values', 'to_numpy', 'iloc', 'loc', 'at', 'iat', 'data', 'array', 'index', 'columns', 'get', 'items', 'keys', 'setdefault'}
NPMUT = {'copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'put_along_axis', 'shuffle', 'at'}          # write to their first argument
METHMUT = {'sort', 'fill', 'put', 'itemset', 'resize', 'partition', 'append', 'extend', 'pop', 'remove', 'insert', 'update', 'clear', 'setflags', 'setfield', 'byteswap', 'reverse', 'popitem', 'setdefault', '__setitem__', '__iadd__', '__imul__', '__isub__', '__itruediv__', 'setitem', 'set_value', 'shuffle'}
UFUNC2 = {'add', 'subtract', 'multiply', 'divide', 'true_divide', 'floor_divide', 'maximum', 'minimum', 'fmax', 'fmin', 'power', 'mod', 'remainder', 'logical_and', 'logical_or', 'logical_xor', 'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'hypot', 'arctan2', 'copysign'}
UFUNC1 = {'sqrt', 'abs', 'absolute', 'fabs', 'exp', 'log', 'log10', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'isnan', 'isfinite', 'logical_not', 'negative', 'square', 'floor', 'ceil', 'rint', 'sign', 'tanh', 'sinh', 'cosh', 'degrees', 'radians', 'deg2rad', 'rad2deg', 'cbrt', 'isinf', 'invert'}
OUT3 = {'clip': 3, 'cumsum': 3, 'round': 2, 'around': 2, 'round_': 2}
MASKF = {'where', 'nonzero', 'flatnonzero', 'isnan', 'logical_and', 'logical_or', 'logical_not', 'argsort', 'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'isfinite', 'argwhere', 'arange'}
SAFEMETH = {'copy', 'mean', 'sum', 'min', 'max', 'std', 'any', 'all', 'astype', 'tolist', 'argmin', 'argmax', 'cumsum', 'dot', 'round', 'clip', 'nonzero', 'strftime', 'format', 'join', 'total_seconds', 'item', 'flatten', 'repeat', 'take', 'compress', 'isnull', 'notnull', 'to_pydatetime'}
ARTDATA = {'get_xdata', 'get_ydata', 'get_data', 'get_xydata', 'get_xy', 'get_array', 'get_offsets', 'get_path', 'get_vertices', 'get_verts', 'get_segments', 'get_clim'}
NPMODS = {'np', 'numpy'}

class Frame:
    def __init__(self, repo, module, may=(), scalars=(), ndims=None, containers=()):
        self.repo, self.module = repo, module; self.mods = {}; self.sums = {}; self.stack = []
        self.may, self.scalars, self.ndims = set(may), set(scalars), dict(ndims or {})
        self.obl = 0; self.failed = []; self.trusted = set()
        self.load(module)
    def load(self, m):
        if m in self.mods: return self.mods[m]
        p = os.path.join(self.repo, 'hapuamod', m + '.py'); t = parse(open(p, encoding='utf-8').read())
        imp = {}; fns = {}
        for n in ast.walk(t):
            if isinstance(n, ast.ImportFrom) and n.module and n.module.split('.')[0] == 'hapuamod':
                for a in n.names: imp[a.asname or a.name] = ('mod', a.name) if n.module == 'hapuamod' else ('fn', n.module.split('.')[1], a.name)
        for n in t.body:
            if isinstance(n, ast.FunctionDef): fns[n.name] = n
        self.mods[m] = (fns, imp); return self.mods[m]
    # ---- summaries
    def summary(self, m, f):
        """(parameters written, return value as V over parameter names)"""
        k = (m, f)
        if k in self.sums: return self.sums[k]
        fns, _ = self.load(m)
        if f not in fns: return None
        if k in self.stack: return (set(self.params(fns[f])), V(self.params(fns[f]), self.params(fns[f])))      # recursion: assume the worst
        self.stack.append(k); r = Fn(self, m, fns[f]).run(); self.stack.pop()
        self.sums[k] = r; return r
    @staticmethod
    def params(fn):
        a = fn.args; return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
    def verify(self, f):
        """check the contract of one function; failures appended"""
        w, _ = self.summary(self.module, f)
        return sorted(w - self.may)

class Fn:
    def __init__(self, fr, m, fn):
        self.fr, self.m, self.fn = fr, m, fn; self.written = set(); self.ret = None; self.sites = {}; self.final = False
    def run(self):
        env = {}; fr = self.fr
        for p in fr.params(self.fn):
            if p in fr.scalars: env[p] = SCALAR
            elif p in fr.may: env[p] = V({p}, {})                 # figure records: their members are artists, not model arrays
            else: env[p] = V({p}, {p}, fr.ndims.get(p))
        self.block(self.fn.body, env)
        self.fr.obl += len(self.sites)
        for (line, what), ps in sorted(self.sites.items()):
            bad = sorted(ps - fr.may)
            if bad: fr.failed.append({'obligation': '%s.%s writes only to its own data' % (self.m, self.fn.name), 'where': '%s.py:%d' % (self.m, line), 'reason': '%s may write to %s' % (what, ', '.join(bad))})
        return (self.written, self.ret or FRESH)
    def write(self, v, node, what, elem=False):
        ps = set(v.s) | (set(v.e) if elem else set())
        self.sites.setdefault((node.lineno, what), set()).update(ps); self.written |= ps
    # ---- statements
    def block(self, body, env):
        for st in body:
            if not self.stmt(st, env): return False
        return True
    def merge(self, a, b):
        out = {}
        for k in set(a) | set(b): out[k] = a[k].join(b[k]) if k in a and k in b else (a.get(k) or b.get(k))
        return out
    def stmt(self, st, env):
        if isinstance(st, ast.Assign):
            v = self.ev(st.value, env)
            for t in st.targets: self.assign(t, v, env, st.value)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None: self.assign(st.target, self.ev(st.value, env), env, st.value)
        elif isinstance(st, ast.AugAssign):
            v = self.ev(st.value, env)
            if isinstance(st.target, ast.Name):
                b = env.get(st.target.id, FRESH)
                if b.nd != 0 and b.s: self.write(b, st, 'in-place update of %s' % st.target.id)
                env[st.target.id] = V(b.s if b.nd != 0 else (), b.e | v.e | (v.s if False else frozenset()), b.nd, False)
            else: self.assign(st.target, FRESH, env, None)
        elif isinstance(st, (ast.Expr,)): self.ev(st.value, env)
        elif isinstance(st, ast.Return):
            v = self.ev(st.value, env) if st.value is not None else FRESH
            self.ret = v if self.ret is None else self.ret.join(v); return False
        elif isinstance(st, ast.If):
            self.ev(st.test, env); a, b = dict(env), dict(env)
            ra, rb = self.block(st.body, a), self.block(st.orelse, b)
            m = self.merge(a, b) if ra and rb else (a if ra else b)
            env.clear(); env.update(m); return ra or rb
        elif isinstance(st, (ast.For, ast.While)):
            for _ in range(20):
                before = dict(env); e = dict(env)
                if isinstance(st, ast.For):
                    it = self.ev(st.iter, e); self.assign(st.target, self.member(it), e, None)
                else: self.ev(st.test, e)
                self.block(st.body, e); m = self.merge(before, e); env.clear(); env.update(m)
                if m == before: break
            self.block(st.orelse, env)
        elif isinstance(st, ast.With):
            for i in st.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None: self.assign(i.optional_vars, v, env, None)
            return self.block(st.body, env)
        elif isinstance(st, ast.Try):
            a = dict(env); self.block(st.body, a); m = self.merge(env, a)
            for h in st.handlers:
                b = dict(m)
                if h.name: b[h.name] = FRESH
                self.block(h.body, b); m = self.merge(m, b)
            self.block(st.orelse, m); self.block(st.finalbody, m); env.clear(); env.update(m)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)): self.write(self.ev(t.value, env), st, 'del')
        elif isinstance(st, ast.Raise): return False
        elif isinstance(st, ast.Assert): self.ev(st.test, env)
        elif isinstance(st, ast.FunctionDef): env[st.name] = V(fn=('local', st.name)); self.local(st, env)
        return True
    def local(self, st, env):
        e = dict(env)
        for p in Frame.params(st): e[p] = V(self.reach(env), self.reach(env)) if False else V({'<local>'}, {'<local>'})
        self.block(st.body, e)          # closures: writes to captured parameters are seen; own parameters are judged at the call below
    def reach(self, env): return frozenset().union(*[v.s | v.e for v in env.values()]) if env else frozenset()
    def member(self, v):
        if v.nd == 1: return SCALAR
        if v.nd == 0: return SCALAR
        return V(v.s | v.e, v.e, v.nd-1 if v.nd else None, False)
    def assign(self, t, v, env, src):
        if isinstance(t, ast.Name): env[t.id] = v
        elif isinstance(t, ast.Starred): self.assign(t.value, v, env, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                vs = [self.ev(x, env) for x in src.elts]
                for x, w in zip(t.elts, vs): self.assign(x, w, env, None)
            else:
                for x in t.elts: self.assign(x, self.member(v), env, None)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env); self.ev(t.slice, env); self.write(b, t, 'assignment to %s[..]' % ast.unparse(t.value)); self.absorb(t.value, v, env)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env); self.write(b, t, 'assignment to %s' % ast.unparse(t)); self.absorb(t.value, v, env)
    def absorb(self, base, v, env):
        """a stored value may be found again in the container"""
        if isinstance(base, ast.Name) and base.id in env and not env[base.id].s:
            b = env[base.id]; env[base.id] = V(b.s, b.e | v.s | v.e, b.nd, False, b.fn)
    # ---- expressions
    def ev(self, x, env):
        if x is None or isinstance(x, ast.Constant): return SCALAR
        if isinstance(x, ast.Name):
            if x.id in env: return env[x.id]
            return V(fn=('name', x.id))
        if isinstance(x, (ast.BinOp,)):
            a, b = self.ev(x.left, env), self.ev(x.right, env)
            if isinstance(x.op, (ast.Add, ast.Mult)) and (isinstance(x.left, (ast.List, ast.Tuple)) or isinstance(x.right, (ast.List, ast.Tuple))): return V((), a.e | b.e)
            nd = max(a.nd, b.nd) if a.nd is not None and b.nd is not None else None
            return V(nd=nd, mask=isinstance(x.op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and (a.mask or b.mask))
        if isinstance(x, ast.UnaryOp): v = self.ev(x.operand, env); return V(nd=v.nd, mask=isinstance(x.op, ast.Invert) and v.mask)
        if isinstance(x, ast.Compare):
            vs = [self.ev(x.left, env)] + [self.ev(c, env) for c in x.comparators]
            nds = [v.nd for v in vs]; return V(nd=max(nds) if all(n is not None for n in nds) else None, mask=not all(n == 0 for n in nds))
        if isinstance(x, ast.BoolOp):
            vs = [self.ev(v, env) for v in x.values]; r = vs[0]
            for v in vs[1:]: r = r.join(v)
            return r
        if isinstance(x, ast.IfExp): self.ev(x.test, env); return self.ev(x.body, env).join(self.ev(x.orelse, env))
        if isinstance(x, (ast.Tuple, ast.List, ast.Set)):
            vs = [self.ev(v, env) for v in x.elts]; s = frozenset().union(*[v.s | v.e for v in vs]) if vs else frozenset()
            return V((), s, None, True)
        if isinstance(x, ast.Dict):
            vs = [self.ev(v, env) for v in x.values] + [self.ev(k, env) for k in x.keys if k is not None]
            return V((), frozenset().union(*[v.s | v.e for v in vs]) if vs else frozenset())
        if isinstance(x, ast.Starred): return self.ev(x.value, env)
        if isinstance(x, ast.Slice):
            for y in (x.lower, x.upper, x.step): self.ev(y, env) if y is not None else None
            return FRESH
        if isinstance(x, ast.Subscript): return self.sub(x, env)
        if isinstance(x, ast.Attribute):
            b = self.ev(x.value, env)
            if x.attr in ('size', 'shape', 'ndim', 'dtype', 'days', 'seconds'): return SCALAR
            if b.fn: return V(fn=b.fn + (x.attr,))
            return V(b.s | b.e, b.e, b.nd if x.attr in ('T', 'values', 'real', 'imag') else None) if (b.s or b.e) else FRESH
        if isinstance(x, ast.Call): return self.call(x, env)
        if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            e = dict(env)
            for g in x.generators:
                it = self.ev(g.iter, e); self.assign(g.target, self.member(it), e, None)
                for c in g.ifs: self.ev(c, e)
            vs = [self.ev(x.key, e), self.ev(x.value, e)] if isinstance(x, ast.DictComp) else [self.ev(x.elt, e)]
            return V((), frozenset().union(*[v.s | v.e for v in vs]))
        if isinstance(x, ast.Lambda):
            e = dict(env)
            for p in Frame.params(x): e[p] = FRESH
            v = self.ev(x.body, e); return V((), v.s | v.e)
        if isinstance(x, ast.NamedExpr): v = self.ev(x.value, env); self.assign(x.target, v, env, x.value); return v
        if isinstance(x, (ast.JoinedStr, ast.FormattedValue)):
            for c in ast.iter_child_nodes(x):
                if isinstance(c, ast.expr): self.ev(c, env)
            return SCALAR
        r = FRESH
        for c in ast.iter_child_nodes(x):
            if isinstance(c, ast.expr): v = self.ev(c, env); r = V(r.s | v.s, r.e | v.e)
        return r
    def sub(self, x, env):
        b = self.ev(x.value, env); ix = x.slice
        if isinstance(ix, ast.Index): ix = ix.value
        parts = list(ix.elts) if isinstance(ix, ast.Tuple) else [ix]
        vals = [self.ev(p, env) for p in parts]
        if not (b.s or b.e): return V(fn=None, nd=None)
        sl = [isinstance(p, ast.Slice) or (isinstance(p, ast.Constant) and p.value in (None, Ellipsis)) for p in parts]
        kind = b.nd
        arr = lambda p, v: isinstance(p, (ast.List,)) or v.mask
        if b.s and kind is not None:
            if any(arr(p, v) for p, v in zip(parts, vals)): return V(nd=None)               # advanced indexing copies
            nsl = sum(sl); ind = [(p, v) for p, v, q in zip(parts, vals, sl) if not q]
            if len(ind) >= kind: return V(nd=None)                                          # every axis indexed: element or copy
            if nsl == 0 and len(parts) >= kind: return V(nd=None)
            known = all(v.nd == 0 for _, v in ind)
            return V(b.s, b.e, kind-len(ind) if known else None)
        if not b.s: return V(b.e, b.e)                                                      # member of an own container
        if any(arr(p, v) for p, v in zip(parts, vals)) and not any(isinstance(p, ast.Constant) for p in parts): return V((), b.e)
        return V(b.s | b.e, b.e)
    def call(self, x, env):
        args = [self.ev(a, env) for a in x.args]; kws = {k.arg: self.ev(k.value, env) for k in x.keywords}
        allv = args + list(kws.values())
        reach = V(frozenset().union(*[v.s | v.e for v in allv]) if allv else (), frozenset().union(*[v.e for v in allv]) if allv else ())
        out = kws.get('out')
        if out is not None: self.write(out, x, 'out= argument', elem=True)
        # repository functions: by their own contract
        tgt = None; f = x.func
        if isinstance(f, ast.Name):
            fns, imp = self.fr.load(self.m)
            if f.id not in env:
                if f.id in fns: tgt = (self.m, f.id)
                elif f.id in imp and imp[f.id][0] == 'fn': tgt = imp[f.id][1:]
            elif env[f.id].fn and env[f.id].fn[0] == 'local':
                for v in allv: self.write(v, x, 'call of the local function %s' % f.id, elem=False) if v.s and v.nd != 0 and self.localwrites(f.id) else None
                return reach
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id not in env:
            fns, imp = self.fr.load(self.m)
            if f.value.id in imp and imp[f.value.id][0] == 'mod': tgt = (imp[f.value.id][1], f.attr)
        if tgt:
            sm = self.fr.summary(*tgt)
            if sm is not None:
                fn = self.fr.load(tgt[0])[0][tgt[1]]; ps = [a.arg for a in fn.args.posonlyargs + fn.args.args]; bind = {}
                star = any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords)
                for p, v in zip(ps, args): bind[p] = v
                for k, v in kws.items():
                    if k is not None: bind[k] = v
                if star or len(args) > len(ps): bind = {p: reach for p in Frame.params(fn)}
                for p in sorted(sm[0]):
                    if p in bind and not (p in self.fr.may and not bind[p].s): self.write(bind[p], x, 'call of %s, which writes to its parameter %s,' % (tgt[1], p))
                sub = lambda ps_: frozenset().union(*[bind[p].s | bind[p].e for p in ps_ if p in bind]) if ps_ else frozenset()
                self.sites.setdefault((x.lineno, 'call of %s' % tgt[1]), set())
                return V(sub(sm[1].s), sub(sm[1].e) | sub(sm[1].s), sm[1].nd)
        name = f.attr if isinstance(f, ast.Attribute) else (f.id if isinstance(f, ast.Name) else '')
        root = f
        while isinstance(root, ast.Attribute): root = root.value
        isnp = isinstance(f, ast.Attribute) and isinstance(root, ast.Name) and root.id in NPMODS and root.id not in env
        if isnp:
            if name in NPMUT and args: self.write(args[0], x, 'np.%s' % name, elem=True)
            if name in UFUNC2 and len(args) > 2: self.write(args[2], x, 'output of np.%s' % name, elem=True)
            if name in UFUNC1 and len(args) > 1: self.write(args[1], x, 'output of np.%s' % name, elem=True)
            if name in OUT3 and len(args) > OUT3[name]: self.write(args[OUT3[name]], x, 'output of np.%s' % name, elem=True)
            if name == 'nan_to_num' and (len(args) > 1 or 'copy' in kws) and args: self.write(args[0], x, 'np.nan_to_num', elem=True)
            if name == 'array' and not ('copy' in kws): return V((), (), args[0].nd if args else None)
            if name in VIEWS or name in ('array', 'nan_to_num'):
                if args and not args[0].s and isinstance(x.args[0], (ast.List, ast.Tuple)): return V(nd=None)
                return V(reach.s, reach.e, args[0].nd if args and name in ('asarray', 'flipud', 'fliplr', 'flip') else None)
            if out is not None: return out
            nd = None
            if name in MASKF: return V((), (), nd, True)
            if name in ('sin', 'cos', 'sqrt', 'abs', 'maximum', 'minimum', 'tan', 'isnan'): ns = [a.nd for a in args]; nd = max(ns) if ns and all(n is not None for n in ns) else None
            if name in ('min', 'max', 'nanmin', 'nanmax', 'sum', 'mean', 'any', 'all') and len(args) == 1 and not kws: nd = 0
            return V(nd=nd)
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value, env)
            if name in ARTDATA: self.fr.trusted.add('.%s()' % name); return V({'data held by an artist'}, {'data held by an artist'}, None)      # matplotlib keeps what it was given: may be a model array
            if b.s and name in METHMUT: self.write(b, x, 'in-place method %s' % name)
            elif name in ('append', 'extend', 'insert', 'update', 'setdefault', '__setitem__', 'add') and not b.s and isinstance(f.value, ast.Name):
                v = V(reach.s, reach.e); self.absorb(f.value, v, env)
            if b.s and 'inplace' in kws: self.write(b, x, '%s(inplace)' % name)
            if b.s or b.e:
                if name in SAFEMETH:
                    if name == 'astype' and 'copy' in kws: return V(b.s, b.e)
                    return V(nd=b.nd if name == 'copy' else None)
                if name in VIEWM: return V(b.s | b.e, b.e)
                self.fr.trusted.add('.%s()' % name)
                return V(b.s | b.e | reach.s, b.e | reach.e)
            self.fr.trusted.add('.%s()' % name)
            return V((), reach.s | reach.e) if False else FRESH             # artist and axes methods: trusted not to write to the arrays given
        if name in ('abs', 'float', 'int', 'len', 'round', 'bool', 'str', 'range', 'isinstance', 'print', 'min', 'max', 'sum'):
            if name in ('min', 'max'): return SCALAR
            return V(nd=0 if name in ('float', 'int', 'len', 'bool', 'str') else (args[0].nd if name == 'abs' and args else None))
        if name == 'setattr' and args: self.write(args[0], x, 'setattr')
        if name in ('list', 'tuple', 'dict', 'zip', 'enumerate', 'sorted', 'reversed', 'map', 'filter', 'set', 'iter', 'next'): return V(reach.s if name in ('next', 'iter') else (), reach.s | reach.e)
        self.fr.trusted.add('%s()' % name)
        return V(reach.s, reach.s | reach.e)
    def localwrites(self, name): return any(('<local>' in ps) for ps in self.sites.values())
