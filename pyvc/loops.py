"""Loops with a symbolic number of iterations.

* `for` whose body stores only at the position of the current element: summarised as a recurrence.  A fresh
  function `final` stands for the array after the loop; the body is executed once for a generic iteration K and
  the resulting relation between final at K's position and the state before is generalised over K.
* `for` that only appends the current element to a list: the list becomes the sequence of selected elements.
* other `for` / `while`: the generic *last* iteration is executed from a state in which everything the body
  assigns is arbitrary, except for invariants that were proved (Houdini: candidates proved to hold at entry and to
  be preserved); or no iteration takes place.
"""
import ast
from fractions import Fraction
import z3
from . import sc, solver
from .sc import And, Or, Not, Implies, Iff, OutOfSubset, ite
from .solver import Forall
from .arr import *
from . import engine as E

class LoopRec:
    def __init__(self, start): self.start = start; self.writes = {}; self.writes0 = set(); self.bad = set(); self.lists = {}
    def touch(self, buf): 
        self.writes0.add(buf.uid)
        if buf.uid <= self.start: self.writes.setdefault(buf.uid, (buf, []))
    def wrote(self, a):
        if a.buf.uid <= self.start: self.writes.setdefault(a.buf.uid, (a.buf, []))[1].append(list(a.dims))
    def appended(self, l): self.lists[id(l)] = l

def lkey(eng, st): return (type(st).__name__, eng.frames[-1].module.name, st.lineno, st.col_offset)

def assigned(body):
    names = []
    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in names: names.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts: tgt(x)
        elif isinstance(t, ast.Starred): tgt(t.value)
    def walk(ns):
        for n in ns:
            if isinstance(n, ast.Assign):
                for t in n.targets: tgt(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)): tgt(n.target)
            elif isinstance(n, ast.For): tgt(n.target)
            elif isinstance(n, ast.FunctionDef): tgt(ast.Name(n.name, ast.Store()))
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None: tgt(i.optional_vars)
            for f in ('body', 'orelse', 'finalbody'):
                if not isinstance(n, (ast.FunctionDef, ast.Lambda)): walk(getattr(n, f, []) or [])
            for h in getattr(n, 'handlers', []) or []: walk(h.body)
    walk(body)
    return names

def only_logging(body):
    for s in body:
        if isinstance(s, ast.Pass): continue
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant): continue
            if isinstance(s.value, ast.Call):
                f = s.value.func
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'logging': continue
                if isinstance(f, ast.Name) and f.id == 'print': continue
        return False
    return True

# ---------------------------------------------------------------- sub-exploration
class PathRes:
    def __init__(self): self.outcome = None; self.exc = None; self.facts = []; self.loc = None; self.bufs = {}; self.fresh = []; self.rec = None; self.events = []; self.appends = {}

def sub_explore(eng, start, thunk):
    """run thunk on every path from the current state; the state is restored"""
    fr = eng.frames[-1]
    save = (eng.dec, eng.dpos, eng.alts, eng.inmerge, eng.inmerge_key); qpre0 = eng.qpre
    eng.qpre = qpre0 + (tuple(eng.dec[:eng.dpos]), eng.qn)
    nf = len(eng.facts); loc0 = dict(fr.loc); mark = len(eng.journal); en0 = dict(eng.enums); sm0 = list(eng.sums)
    ev0 = len(eng.events); nfr = len(eng.frames); tries0 = eng.tries
    out = []; pending = [[]]
    ok = False
    try:
        while pending:
            dec = pending.pop()
            eng.dec, eng.dpos, eng.alts, eng.inmerge, eng.inmerge_key = list(dec), 0, [], 0, []
            p = PathRes(); p.rec = LoopRec(start); eng.loopstack.append(p.rec)
            f0 = len(eng.freshlog); eng.appendlog.append({})
            try:
                try: thunk(); p.outcome = 'normal'
                except E.BreakEx: p.outcome = 'break'
                except E.ContinueEx: p.outcome = 'normal'
                except E.ReturnEx as r: p.outcome = 'return'; p.exc = r
                except E.PyExc as r: p.outcome = 'exc'; p.exc = r
                except E.PathEnd: p.outcome = 'end'
            finally:
                eng.loopstack.pop(); p.appends = eng.appendlog.pop()
            p.facts = eng.facts[nf:]; p.loc = dict(fr.loc); p.fresh = eng.freshlog[f0:]
            for u, (b, _) in p.rec.writes.items(): p.bufs[u] = (b, b.content)
            p.events = eng.events[ev0:]
            p.list_touch = [e for e in eng.journal[mark:] if not isinstance(e[0], Buf)]
            pending.extend(eng.alts)
            eng.rollback(mark); del eng.facts[nf:]; fr.loc.clear(); fr.loc.update(loc0)
            eng.enums = dict(en0); eng.sums = list(sm0); del eng.events[ev0:]; eng.validc = {}
            eng.tries = tries0
            out.append(p)
            if len(out) > 200: raise OutOfSubset('too many paths in loop body')
        ok = True
    finally:
        eng.dec, eng.dpos, eng.alts, eng.inmerge, eng.inmerge_key = save; eng.qpre = qpre0
        if not ok: pass
    return out

# ---------------------------------------------------------------- generalisation over the iteration index
CANONF = {'sqrt', 'cbrt', 'sin', 'cos', 'arctan', 'arcsin', 'arctan2', 'tanh', 'exp', 'log', 'pow'}
class Gen:
    """facts of the generic iteration K as a function of the iteration index"""
    def __init__(self, eng, K, fresh):
        self.K = K; self.consts = []; self.funs = []
        n = eng.counter.get('gen', 0); eng.counter['gen'] = n + 1
        for c in fresh:
            if isinstance(c, z3.FuncDeclRef):
                sorts = [sc.I] + [c.domain(i) for i in range(c.arity())] + [c.range()]
                self.funs.append((c, z3.Function('%s@%d' % (c.name(), n), *sorts)))
            elif not c.eq(K):
                self.consts.append((c, z3.Function('%s@%d' % (c.decl().name(), n), sc.I, c.sort())))
    def at(self, form, t, ph=()):
        """form with K := t (and placeholders ph := values)"""
        t = sc.zi(t)
        sub = [(self.K, t)] + [(c, f(t)) for c, f in self.consts] + [(p, sc.zi(v)) for p, v in ph]
        r = z3.substitute(form, *sub)
        if self.funs:
            for f, g in self.funs:
                args = [z3.Var(i, f.domain(i)) for i in range(f.arity())]
                r = z3.substitute_funs(r, (f, g(t, *args)))
        return normidx(r)
def normidx(form):
    '''simplify the integer arguments of functions'''
    cache = {}
    stack = [form]
    while stack:
        u = stack[-1]; k = u.get_id()
        if k in cache: stack.pop(); continue
        if not z3.is_app(u) or u.num_args() == 0: cache[k] = (u, u); stack.pop(); continue
        ch = u.children(); todo = [c for c in ch if c.get_id() not in cache]
        if todo: stack.extend(todo); continue
        stack.pop(); nc = [cache[c.get_id()][1] for c in ch]
        if u.decl().kind() == z3.Z3_OP_UNINTERPRETED: nc = [z3.simplify(c) if c.sort() == sc.I and c.num_args() else c for c in nc]
        cache[k] = (u, u if all(a.eq(b) for a, b in zip(nc, ch)) else u.decl()(*nc) if u.decl().kind() == z3.Z3_OP_UNINTERPRETED else z3.substitute(u, *[(a, b) for a, b in zip(ch, nc) if not a.eq(b)]))
    return cache[form.get_id()][1]

_ph = [z3.Int('__p%d' % k) for k in range(4)]
def closed(form):
    """form together with the axioms of the functions in it"""
    ax = solver.axioms_for([form])
    return z3.And(form, *ax) if ax else form

def iter_elem(eng, it):
    """(n, element(k), inverse(j)->(present,k) for the index-like element) or None"""
    from .nplib import SymRange, SymEnumerate, SymZip
    if isinstance(it, SymRange):
        lo, hi, s = it.lo, it.hi, it.step
        if not isinstance(s, int) or s == 0: raise OutOfSubset('range step')
        n = isub(hi, lo) if s > 0 else isub(lo, hi)
        a = abs(s)
        if a != 1: n = -(-n // a) if isinstance(n, int) else isimp((sc.zi(n) + (a-1))/a)
        if not isinstance(n, int) and not eng.valid(ile(0, n)): n = iz(ite(ilt(n, 0), 0, n))
        def inv(j):
            d = isub(j, lo) if s > 0 else isub(lo, j)
            if a == 1: return inrange(d, 0, n), d
            if isinstance(d, int): return And(d % a == 0, inrange(d//a, 0, n)), d//a
            k = isimp(d/a); return And(sc.norm(z3.simplify(d % a == 0)), inrange(k, 0, n)), k
        return n, (lambda k: iadd(lo, imul(s, k))), inv
    if isinstance(it, Arr):
        if it.ndim != 1: raise OutOfSubset('loop over rows')
        f = it.snap(); return it.shape[0], (lambda k: f((iz(k),))), it.getinv()
    if isinstance(it, SymEnumerate):
        f = it.x.snap(); n = it.x.shape[0]; st = it.start
        return n, (lambda k: (iadd(st, k), f((iz(k),)))), (lambda j: (inrange(isub(j, st), 0, n), isub(j, st)))
    if isinstance(it, SymZip):
        n = it.xs[0].shape[0]
        for x in it.xs[1:]: eng.samedim(n, x.shape[0], 'zipped arrays of equal length')
        fs = [x.snap() for x in it.xs]
        invs = [x.getinv() for x in it.xs]
        return n, (lambda k: tuple(f((iz(k),)) for f in fs)), next((i for i in invs if i), None)
    return None

def exec_for(eng, st):
    if only_logging(st.body) and not st.orelse:
        eng.dropped.add('logging'); return
    it = eng.ev(st.iter)
    conc = eng.concrete_iter(it)
    if conc is not None:
        for v in conc:
            eng.assign(st.target, v)
            try: eng.block(st.body)
            except E.BreakEx: return
            except E.ContinueEx: continue
        eng.block(st.orelse); return
    if hasattr(it, 'm_iter'):
        return exec_for_items(eng, st, it.m_iter(eng))
    ie = iter_elem(eng, it)
    if ie is None: raise OutOfSubset('for over %r' % type(it))
    n, elem, inv = ie
    if isinstance(n, int):
        for k in range(n):
            eng.assign(st.target, elem(k))
            try: eng.block(st.body)
            except E.BreakEx: return
            except E.ContinueEx: continue
        eng.block(st.orelse); return
    if eng.valid_int(ile(n, 0)): eng.block(st.orelse); return
    key = lkey(eng, st)
    fr = eng.frames[-1]; start = Buf._n
    tnames = assigned([ast.Assign(targets=[st.target], value=None)])
    names = [x for x in assigned(st.body) if x not in tnames]
    if key not in eng.seqloops:
        try:
            if pointwise(eng, st, key, n, elem, inv, names, tnames, start): return
        except E.Restart:
            # a local is carried from one iteration to the next
            if eng.carried.get(key): eng.seqloops.add(key)
            raise
        eng.seqloops.add(key)
    sequential(eng, st, key, n, elem, names, tnames, start)

def exec_for_items(eng, st, items):
    for v in items:
        eng.assign(st.target, v)
        try: eng.block(st.body)
        except E.BreakEx: return
        except E.ContinueEx: continue
    eng.block(st.orelse)

def poison(eng, key, names, tnames):
    loc = eng.frames[-1].loc
    for x in names:
        if x in loc: loc[x] = E.Poison(key, x)
    for x in tnames: loc.pop(x, None)

def has_xf(eng, content, nd):
    if eng.ieee: return True
    try: v = content(tuple(z3.Int('__q%d' % k) for k in range(nd)))
    except OutOfSubset: return True
    return isinstance(v, sc.XF)

def ufcontent(eng, name, nd, dtype, xf):
    sort = {'f': sc.R, 'i': sc.I, 'b': sc.B}[dtype]
    f = eng.freshfn(name, *([sc.I]*nd + [sort]))
    if dtype != 'f' or not xf: return lambda idx: f(*[sc.zi(i) for i in idx])
    fn = eng.freshfn(name + '_nan', *([sc.I]*nd + [sc.B]))
    if not eng.ieee: return lambda idx: sc.xf(f(*[sc.zi(i) for i in idx]), fn(*[sc.zi(i) for i in idx]))
    fp = eng.freshfn(name + '_pi', *([sc.I]*nd + [sc.B])); fm = eng.freshfn(name + '_ni', *([sc.I]*nd + [sc.B]))
    def c(idx):
        a = [sc.zi(i) for i in idx]; nan, p, m = fn(*a), fp(*a), fm(*a)
        return sc.xf(f(*a), nan, And(Not(nan), p), And(Not(nan), Not(p), m))
    return c

def pointwise(eng, st, key, n, elem, inv, names, tnames, start):
    """recurrence / map / filter summary; False if the loop does not have that form"""
    fr = eng.frames[-1]
    # ---- discovery run
    K = eng.fresh('it', sc.I)
    def body_at(K):
        def th():
            eng.fact(inrange(K, 0, n))
            if isinstance(elem(K), tuple) or True: eng.assign(st.target, elem(K))
            eng.block(st.body)
        return th
    loc0 = dict(fr.loc); obl0 = len(eng.obls); ra0 = len(eng.raises)
    poison(eng, key, names, tnames)
    eng.discovering += 1
    try: paths = sub_explore(eng, start, body_at(K))
    finally: eng.discovering -= 1; fr.loc.clear(); fr.loc.update(loc0); del eng.obls[obl0:]; del eng.raises[ra0:]
    if any(p.events for p in paths): raise OutOfSubset('external effect in a symbolic loop')
    bufs = {}; lists = {}
    for p in paths:
        for u, (b, dl) in p.rec.writes.items(): bufs.setdefault(u, (b, []))[1].extend(dl)
        for i, (l, items) in p.appends.items(): lists[i] = l
        if len(p.list_touch) != sum(len(x[1]) for x in p.appends.values()): raise OutOfSubset('container changed in a symbolic loop')
        if p.outcome in ('break', 'return', 'exc') : return False
    if any(isinstance(l, list) and len(l) for l in lists.values()): raise OutOfSubset('append to a non-empty list')
    # which axis / index
    info = {}
    for u, (b, dls) in bufs.items():
        if not dls: return False
        ax = None
        e0 = elem(K)
        cands = [e0] if not isinstance(e0, tuple) else [x for x in e0]
        for dims in dls:
            fix = [(k, d[1]) for k, d in enumerate(dims) if d[0] == 'fix']
            hit = [k for k, ix in fix if any(sc.is_intv(c) and ieq(ix, iz(c)) is True for c in cands)]
            hit += [k for k, ix in fix if not isinstance(ix, int) and any(sc.is_intv(c) and eng_eq(eng, n, K, ix, c) for c in cands) and k not in hit]
            if ax is None: ax = set(hit)
            else: ax &= set(hit)
        if not ax: return False
        info[u] = (b, min(ax))
    if bufs and inv is None: return False
    # ---- summary run
    pre = {u: b.content for u, (b, ax) in info.items()}
    # arrays whose elements stay defined and finite: at entry, and after each iteration (checked below)
    dropped = eng.dropped_inv.setdefault(key, set()); finite = {}
    for q, (u, (b, ax)) in enumerate(sorted(info.items())):
        nm = 'buffer %d holds finite numbers' % q
        if nm in dropped or not has_xf2(eng, b, paths, u): continue
        if allfinite(eng, pre[u], b.shape): finite[u] = nm
        else: dropped.add(nm)
    def keeps_finite(th):
        def go():
            th()
            for u, nm in finite.items():
                b, ax = info[u]; w = next(iz(c) for c in (elem(K) if isinstance(elem(K), tuple) else (elem(K),)) if sc.is_intv(c))
                f = b.content
                if not allfinite(eng, (lambda idx: f(tuple(idx[:ax]) + (w,) + tuple(idx[ax:]))), tuple(d for k, d in enumerate(b.shape) if k != ax)):
                    dropped.add(nm); raise E.Restart()
                eng.inv_proved.add((key, nm))
        return go
    fin = {u: ufcontent(eng, 'fin', len(b.shape), b.dtype, u not in finite and has_xf2(eng, b, paths, u)) for u, (b, ax) in info.items()}
    if eng.ieee:      # name the entry contents
        for u, (b, ax) in info.items():
            old = pre[u]
            try: x0 = old(tuple(z3.Int('__q%d' % k) for k in range(len(b.shape))))
            except OutOfSubset: continue
            if not z3.is_expr(x0) or z3.is_app(x0) and x0.num_args() and x0.decl().kind() == z3.Z3_OP_UNINTERPRETED: continue
            pre[u] = ufcontent(eng, 'pre', len(b.shape), b.dtype, u not in finite and isinstance(x0, sc.XF))
            val0 = (lambda idx, c=old: sc.parts(c(idx))[0]) if u in finite else old
            eng.fact(Forall(len(b.shape), lambda *i, u=u, v=val0, sh=b.shape: Implies(And(*[inrange(k, 0, d) for k, d in zip(i, sh)]), sc.same(pre[u](i), v(i))), 'contents before the loop'))
    lp = {i: eng.freshfn('sel', sc.I, sc.B) for i in lists}
    cell = {'rel': None}
    mark = len(eng.journal)
    def pending_(j, K):   # position j is written at or after iteration K
        p, k = inv(j); c = And(p, ile(K, k))
        return sc.norm(z3.simplify(sc.zb(c)))
    for u, (b, ax) in info.items():
        eng.setcontent(b, lambda idx, u=u, ax=ax: ite(pending_(idx[ax], K), pre[u](idx), fin[u](idx)))
        def frame(*idx, u=u, ax=ax, b=b):
            p, k = inv(idx[ax]); 
            return Implies(And(*[inrange(i, 0, d) for i, d in zip(idx, b.shape)] + [Not(p)]), sc.same(fin[u](idx), pre[u](idx)))
        eng.fact(Forall(len(b.shape), frame, 'loop frame'))
    late = Forall(1, lambda t: None if cell['rel'] is None else cell['rel'](t), 'earlier iterations')
    nf0 = len(eng.facts)
    eng.fact(Forall(1, lambda t: None if cell['rel'] is None else Implies(inrange(t, 0, K), cell['rel'](t)), 'earlier iterations'))
    poison(eng, key, names, tnames)
    try: paths = sub_explore(eng, start, keeps_finite(body_at(K)))
    finally: fr.loc.clear(); fr.loc.update(loc0)
    del eng.facts[nf0:]; eng.validc = {}
    rels = []
    for p in paths:
        if p.outcome == 'end': continue
        gen = Gen(eng, K, p.fresh)
        ground = []; fors = []
        for f in p.facts: (fors if isinstance(f, Forall) else ground).append(f)
        parts_ = []
        for u, (b, ax) in info.items():
            c2 = p.bufs[u][1] if u in p.bufs else b.content
            e0 = elem(K)
            w = None
            for c in ([e0] if not isinstance(e0, tuple) else e0):
                if sc.is_intv(c): w = iz(c); break
            val = (lambda idx, c=c2: sc.parts(c(idx))[0]) if u in finite else c2
            if len(b.shape) == 1: ground.append(sc.zb(sc.same(fin[u]((w,)), val((w,)))))
            else:
                oth = [z3.Int('__r%d' % k) for k in range(len(b.shape))]
                def rowrel(*r, u=u, b=b, ax=ax, c2=val, w=w):
                    idx = list(r[:ax]) + [w] + list(r[ax:])
                    return Implies(And(*[inrange(i, 0, d) for k, (i, d) in enumerate(zip(idx, b.shape)) if k != ax]), sc.same(fin[u](tuple(idx)), c2(tuple(idx))))
                others = [d for k, d in enumerate(b.shape) if k != ax]
                if len(others) == 1 and isinstance(others[0], int) and others[0] <= 8:
                    for r in range(others[0]): ground.append(sc.zb(rowrel(r)))
                else: fors.append(Forall(len(others), rowrel, 'row'))
        for i in lists:
            items = p.appends.get(i, (None, []))[1]
            for x in items:
                if not (sc.is_intv(x) and ieq(iz(x), iz(elem(K))) is True): raise OutOfSubset('append of something else than the loop element')
            ground.append(lp[i](K) if items else z3.Not(lp[i](K)))
        g = closed(sc.zb(And(*[sc.zb(x) for x in ground])))
        rels.append((gen, g, fors))
    if not rels: raise E.PathEnd()
    gcache = {}
    def rel(t):
        return Or(*[gen.at(g, t) for gen, g, fors in rels])
    cell['rel'] = rel
    multi = len(rels) > 1
    sel = None
    if multi:
        sel = eng.freshfn('path', sc.I, sc.I)
        def rel(t):
            tt = sc.zi(t)
            return And(Or(*[sel(tt) == k for k in range(len(rels))]), *[Implies(sel(tt) == k, gen.at(g, t)) for k, (gen, g, fors) in enumerate(rels)])
        cell['rel'] = rel
    eng.fact(Forall(1, lambda t: Implies(inrange(t, 0, n), cell['rel'](t)), 'loop relation'))
    for k, (gen, g, fors) in enumerate(rels):
        for f in fors:
            m = f.n
            def inst(t, *idx, f=f, gen=gen, k=k):
                b = sc.zb(f.inst(tuple(_ph[:f.n])))
                b = closed(b)
                r = gen.at(b, t, [(_ph[q], idx[q]) for q in range(f.n)])
                return Implies(And(inrange(t, 0, n), (sel(sc.zi(t)) == k) if multi else True), r)
            eng.fact(Forall(m+1, inst, f.name))
    for u, (b, ax) in info.items(): eng.setcontent(b, fin[u])
    for i, l in lists.items():
        # the list of selected elements, as an index array
        m = mk((n,), lambda idx, i=i: lp[i](sc.zi(idx[0])), 'b')
        src = mk((n,), lambda idx: elem(idx[0]), 'i')
        if inv: src.inv = inv; src.invver = src.buf.version
        sl = eng.np.fancy_get(src, (0, m))
        for nm, v in list(fr.loc.items()):
            if v is l: fr.loc[nm] = sl
    # locals assigned in the body are not available afterwards (unless re-assigned)
    poison(eng, key, names, tnames)
    eng.block(st.orelse)
    return True

def allfinite(eng, content, shape):
    ks = tuple(n if False else eng.fresh('fi', sc.I) for n in shape)
    v = content(ks)
    if not isinstance(v, sc.XF): return True
    return eng.valid(sc.zb(Implies(And(*[inrange(k, 0, n) for k, n in zip(ks, shape)]), Not(Or(v.nan, v.pi, v.ni)))), 3 if eng.ieee else eng.inv_timeout)
def eng_eq(eng, n, K, a, b):
    b = iz(b)
    if isinstance(a, int) and isinstance(b, int): return a == b
    g = eng.guards; eng.guards = g + [sc.zb(inrange(K, 0, n))]
    eng.validc = {}
    try: return eng.valid_int(sc.zb(ieq(a, b)))
    finally: eng.guards = g; eng.validc = {}

def has_xf2(eng, b, paths, u):
    if b.dtype != 'f': return False
    if eng.ieee: return True
    if has_xf(eng, b.content, len(b.shape)): return True
    for p in paths:
        if u in p.bufs:
            v = p.bufs[u][1](tuple(z3.Int('__q%d' % k) for k in range(len(b.shape))))
            if isinstance(v, sc.XF): return True
    return False

# ---------------------------------------------------------------- generic last iteration
def havoc_val(eng, v, name, widen=False):
    if sc.is_boolv(v): return eng.fresh('hv_' + name, sc.B)
    if sc.is_intv(v) and not widen: return eng.fresh('hv_' + name, sc.I)
    if sc.is_num(v):
        r = eng.fresh('hv_' + name, sc.R)
        if isinstance(v, sc.XF) or eng.ieee:
            nan = eng.fresh('hv_' + name + '_nan', sc.B)
            if eng.ieee or (isinstance(v, sc.XF) and (v.pi is not False or v.ni is not False)):
                p, m = eng.fresh('hv_' + name + '_pi', sc.B), eng.fresh('hv_' + name + '_ni', sc.B)
                return sc.xf(r, nan, And(Not(nan), p), And(Not(nan), Not(p), m))
            return sc.xf(r, nan)
        return r
    if isinstance(v, Arr):
        return mk(v.shape, ufcontent(eng, 'hv_' + name, v.ndim, v.dtype, has_xf(eng, v.snap(), v.ndim)), v.dtype)
    if hasattr(v, 'm_havoc'): return v.m_havoc(eng, name)
    if isinstance(v, E.Opaque): return v
    if isinstance(v, (list, tuple)) and all(sc.is_num(x) or sc.is_boolv(x) for x in v):
        return type(v)(havoc_val(eng, x, name) for x in v)
    raise OutOfSubset('loop changes %s of an unsupported kind' % name)

def is_inv_term(t, fresh):
    if isinstance(t, int): return True
    names = set(c.get_id() for c in fresh if not isinstance(c, z3.FuncDeclRef))
    fn = set(c.name() for c in fresh if isinstance(c, z3.FuncDeclRef))
    st = [t]; seen = set()
    while st:
        u = st.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if u.get_id() in names: return False
        if z3.is_app(u) and u.num_args() and u.decl().name() in fn: return False
        st.extend(u.children())
    return True

class State:
    """the havocked part of the state at the loop head"""
    def __init__(self): self.scal = {}; self.arrs = {}; self.bufs = {}

def sequential(eng, st, key, n, elem, names, tnames, start):
    k0 = eng.choose(2) if not eng.valid_int(ilt(0, n)) else 1
    if k0 == 0:
        eng.fact(ile(n, 0)); eng.block(st.orelse); return
    eng.fact(ilt(0, n))
    last_iter(eng, st, key, names, tnames, start, n, elem)

def exec_while(eng, st):
    if eng.whilehook and eng.whilehook(eng, st): return
    key = lkey(eng, st)
    start = Buf._n
    names = assigned(st.body)
    c = sc.norm(eng.truth(eng.ev(st.test)))
    if c is False: eng.block(st.orelse); return
    # concrete unrolling while the condition stays a constant and the loop is small
    if c is not True:
        t, f = eng.feasible(c), eng.feasible(Not(c))
        if not t: eng.fact(Not(c)); eng.block(st.orelse); return
        if f and eng.choose(2) == 0:
            eng.fact(Not(c)); eng.block(st.orelse); return
        eng.fact(c)
    last_iter(eng, st, key, names, [], start, None, None)

def last_iter(eng, st, key, names, tnames, start, n, elem):
    fr = eng.frames[-1]
    loc0 = dict(fr.loc)
    carried = eng.carried.get(key, set())
    K = eng.fresh('it', sc.I) if n is not None else None
    # ---- discovery of written buffers (fixpoint)
    hb = {}   # uid -> (buf, None | [point dims])
    fm = len(eng.freshlog)
    for rnd in range(4):
        mark = len(eng.journal)
        obl0, ra0 = len(eng.obls), len(eng.raises); nf = len(eng.facts)
        hs = set_state(eng, key, names, tnames, carried, loc0, hb)
        def th():
            if K is not None:
                eng.fact(inrange(K, 0, n)); eng.assign(st.target, elem(K))
            else:
                c = sc.norm(eng.truth(eng.ev(st.test)))
                if c is False: raise E.PathEnd()
                eng.fact(c)
            eng.block(st.body)
        eng.discovering += 1
        try: paths = sub_explore(eng, start, th)
        finally:
            eng.discovering -= 1
            fr.loc.clear(); fr.loc.update(loc0); del eng.obls[obl0:]; del eng.raises[ra0:]; eng.rollback(mark); del eng.facts[nf:]; eng.validc = {}
        new = False
        ends = [p for p in paths if p.outcome == 'normal']
        for p in paths:
            if p.events: raise OutOfSubset('external effect in a symbolic loop')
            if p.list_touch: raise OutOfSubset('container changed in a symbolic loop')
            for u, (b, dls) in p.rec.writes.items():
                pts = []
                for d in dls:
                    if all(x[0] == 'fix' and is_inv_term(x[1], eng.freshlog[fm:]) for x in d): pts.append(tuple(x[1] for x in d))
                    else: pts = None; break
                if u not in hb: hb[u] = (b, pts); new = True
                elif hb[u][1] is not None:
                    if pts is None: hb[u] = (b, None); new = True
                    else:
                        for q in pts:
                            if not any(all(ieq(x, y) is True for x, y in zip(q, r)) for r in hb[u][1]): hb[u][1].append(q); new = True
        # array names the body binds to another array
        for p in paths:
            if p.outcome not in ('normal', 'break'): continue
            for x in names:
                a = loc0.get(x)
                if isinstance(a, Arr) and p.loc.get(x) is not a and (key, x) not in eng.unstable:
                    eng.unstable.add((key, x)); new = True
        if new: continue
        # a carried array is a new array at the end of every iteration, and never changed in place: no aliasing
        for p in paths:
            if p.outcome not in ('normal', 'break'): continue
            seen = {}
            for x in names:
                if (key, x) in eng.unstable and x in carried and isinstance(p.loc.get(x), Arr):
                    b = p.loc[x].buf
                    if p.loc[x] is hs['loc'].get(x): continue
                    if b.uid <= start or b.uid in seen: raise OutOfSubset('loop-carried array %s may share storage' % x)
                    seen[b.uid] = x
            for x, v in hs['loc'].items():
                if isinstance(v, Arr) and v.buf.uid in p.rec.writes0: raise OutOfSubset('loop-carried array %s changed in place' % x)
        # type stability of carried locals
        for p in ends:
            for x in carried:
                a, b = loc0.get(x), p.loc.get(x)
                if sc.is_intv(a) and sc.is_floatv(b) and (key, x) not in eng.widened:
                    eng.widened.add((key, x)); raise E.Restart()
        if not new: break
    else: raise OutOfSubset('loop writes do not stabilise')
    # ---- invariants
    pre = {u: b.content for u, (b, p) in hb.items()}
    # which array is which specified relation, at entry
    hint_ok = set()
    for hn, hf, hsh in (eng.hints if not eng.discovering else []):
        cf = hf()
        for x, v in loc0.items():
            if x in carried and isinstance(v, Arr) and v.ndim == 1 and v.dtype == 'f' and ieq(hsh, v.shape[0]) is True and (key, x) in eng.unstable:
                nm = '%s %s' % (x, hn)
                if nm in eng.dropped_inv.get(key, ()): continue
                g = v.snap(); i = eng.fresh('hi', sc.I)
                if eng.valid(sc.zb(Implies(inrange(i, 0, hsh), sc.eq_f(g((i,)), cf(i)))), eng.inv_timeout): hint_ok.add(nm)
    hv = set_state(eng, key, names, tnames, carried, loc0, hb)
    if K is not None: eng.fact(inrange(K, 0, n))
    if K is not None:
        # a scalar whose value after an iteration is determined by the iteration alone
        for x in hv['loc']:
            if not sc.is_num(hv['loc'][x]) or isinstance(hv['loc'][x], sc.XF): continue
            ts = [p.loc.get(x) for p in paths if p.outcome == 'normal']
            if not ts or any(not z3.is_expr(t) or isinstance(t, sc.XF) or not t.eq(ts[0]) for t in ts): continue
            if not is_inv_term(ts[0], [c for c in eng.freshlog[fm:] if isinstance(c, z3.FuncDeclRef) or not c.eq(K)]): continue
            prev = recanon(z3.substitute(ts[0], (K, sc.zi(isub(K, 1)))))
            eng.fact(sc.zb(Implies(ilt(0, K), sc.same(hv['loc'][x], prev if hv['loc'][x].sort() == prev.sort() else sc.tofloat(prev)))))
    inv = candidates(eng, key, loc0, hv, hb, pre, n) if not eng.discovering else []
    dropped = eng.dropped_inv.setdefault(key, set())
    act = []
    for name, at_entry, mkf in inv:
        if name in dropped: continue
        if any(name.endswith(' ' + hn) for hn, _, _ in eng.hints) and name not in hint_ok: dropped.add(name); continue
        if not all_valid(eng, at_entry()): dropped.add(name); continue
        act.append((name, mkf))
    for name, mkf in act:
        for f in mkf(hv['loc'], {u: (b, b.content) for u, (b, p) in hb.items()}): eng.fact(f)
    if K is not None:
        eng.loopheads[key] = (K, hv)
        # first iteration: the entry state
        for f in first_facts(eng, loc0, hv, hb, pre, K): eng.fact(f)
    # ---- the iteration
    if K is not None: eng.assign(st.target, elem(K))
    else:
        c = sc.norm(eng.truth(eng.ev(st.test)))
        if c is False: raise E.PathEnd()
        if c is not True and not eng.feasible(c): raise E.PathEnd()
        eng.fact(c)
    try:
        try: eng.block(st.body)
        except E.ContinueEx: pass
    except E.BreakEx:
        return
    # ---- end of body: invariants preserved
    cur = {u: (b, b.content) for u, (b, p) in hb.items()}
    for name, mkf in act:
        try: fs = mkf(fr.loc, cur)
        except (KeyError, OutOfSubset): fs = None
        if fs is None or not all_valid(eng, fs):
            dropped.add(name); raise E.Restart()
        eng.inv_proved.add((key, name))
    if K is not None:
        eng.fact(sc.zb(ieq(K, isub(n, 1))))
    else:
        c = sc.norm(eng.truth(eng.ev(st.test)))
        if c is True: raise E.PathEnd()
        if c is not False:
            if not eng.feasible(Not(c)): raise E.PathEnd()
            eng.fact(Not(c))
    eng.block(st.orelse)

def set_state(eng, key, names, tnames, carried, loc0, hb):
    loc = eng.frames[-1].loc
    hv = {'loc': {}, 'bufs': {}}
    for x in names:
        if x in loc0:
            if isinstance(loc0[x], Arr) and (key, x) not in eng.unstable: continue    # only changed in place
            if x in carried:
                v = loc0[x]
                if isinstance(v, (E.Poison, E.Conflict)): loc[x] = v; continue
                loc[x] = hv['loc'][x] = havoc_val(eng, v, x, (key, x) in eng.widened)
            else: loc[x] = E.Poison(key, x)
    for x in tnames: loc.pop(x, None)
    for u, (b, pts) in hb.items():
        c = ufcontent(eng, 'hvb', len(b.shape), b.dtype, has_xf(eng, b.content, len(b.shape)))
        if pts is None:
            eng.setcontent(b, c)
        else:
            old = b.content
            vals = [(q, c(q)) for q in pts]
            def fn(idx, old=old, vals=vals):
                r = old(idx)
                for q, v in vals:
                    cond = And(*[ieq(x, y) for x, y in zip(idx, q)])
                    r = ite(cond, v, r)
                return r
            eng.setcontent(b, fn)
        hv['bufs'][u] = b.content
    return hv

def all_valid(eng, fs):
    for f in fs:
        if isinstance(f, Forall):
            ks = tuple(eng.fresh('inv', sc.I) for _ in range(f.n))
            if not eng.valid(sc.zb(f.inst(ks)), eng.inv_timeout): return False
        elif f is True: continue
        elif not eng.valid(sc.zb(f), eng.inv_timeout): return False
    return True

def first_facts(eng, loc0, hv, hb, pre, K):
    c = ieq(K, 0); out = []
    for x, v in hv['loc'].items():
        v0 = loc0[x]
        if sc.is_num(v) or sc.is_boolv(v): out.append(Implies(c, sc.same(v, v0)))
        elif isinstance(v, Arr):
            f, g = v.snap(), v0.snap(); sh = v.shape
            out.append(Forall(v.ndim, lambda *i, f=f, g=g, sh=sh: Implies(And(c, *[inrange(k, 0, d) for k, d in zip(i, sh)]), sc.same(f(i), g(i))), 'first iteration'))
    for u, (b, p) in hb.items():
        f, g, sh = hv['bufs'][u], pre[u], b.shape
        out.append(Forall(len(sh), lambda *i, f=f, g=g, sh=sh: Implies(And(c, *[inrange(k, 0, d) for k, d in zip(i, sh)]), sc.same(f(i), g(i))), 'first iteration'))
    return out

def candidates(eng, key, loc0, hv, hb, pre, n):
    """(name, entry formulas, fn(loc, bufs)->formulas)"""
    out = []
    # integers do not fall below / rise above their entry value
    for x, v in sorted(hv['loc'].items()):
        v0 = loc0[x]
        if sc.is_intv(v) and sc.is_intv(v0):
            out.append(('%s not below entry' % x, lambda: [], lambda loc, b, x=x, v0=v0: [sc.le_f(v0, loc[x])]))
            out.append(('%s not above entry' % x, lambda: [], lambda loc, b, x=x, v0=v0: [sc.le_f(loc[x], v0)]))
        elif hasattr(v, 'm_cands'):
            for nm, f in v.m_cands(eng, v0):
                out.append(('%s %s' % (x, nm), (lambda f=f, v0=v0: [f(v0)]), lambda loc, b, x=x, f=f: [f(loc[x])]))
        elif isinstance(v, (list,)) and all(sc.is_intv(y) for y in v):
            for k in range(len(v)):
                out.append(('%s[%d] not below entry' % (x, k), lambda: [], lambda loc, b, x=x, k=k, v0=v0: [sc.le_f(v0[k], loc[x][k])]))
                out.append(('%s[%d] not above entry' % (x, k), lambda: [], lambda loc, b, x=x, k=k, v0=v0: [sc.le_f(loc[x][k], v0[k])]))
    # float arrays: signs, and relations between arrays that hold elementwise at entry
    items = []   # (name, entry content, getter(loc,bufs)->content, shape)
    for x, v in sorted(hv['loc'].items()):
        if isinstance(v, Arr) and v.ndim == 1 and v.dtype == 'f':
            items.append((x, loc0[x].snap(), (lambda loc, b, x=x: loc[x].snap()), v.shape))
    for j, (u, (b, p)) in enumerate(sorted(hb.items())):
        if p is None and len(b.shape) == 1 and b.dtype == 'f':
            items.append(('buffer %d' % j, pre[u], (lambda loc, bb, u=u: bb[u][1]), b.shape))
    def fall(sh, body): return [Forall(1, lambda i: Implies(inrange(i, 0, sh[0]), body(i)), 'loop invariant')]
    for (nm, c0, get, sh) in items:
        out.append(('%s > 0' % nm, (lambda c0=c0, sh=sh: fall(sh, lambda i: sc.lt(0, c0((i,))))), (lambda loc, b, get=get, sh=sh: fall(sh, lambda i, g=get(loc, b): sc.lt(0, g((i,)))))))
        out.append(('%s nonzero' % nm, (lambda c0=c0, sh=sh: fall(sh, lambda i: Not(sc.eq(0, c0((i,)))))), (lambda loc, b, get=get, sh=sh: fall(sh, lambda i, g=get(loc, b): Not(sc.eq(0, g((i,))))))))
        # relations supplied by the specification, over the current state
        for hn, hf, hsh in eng.hints:
            if not (nm in hv['loc'] and ieq(hsh, sh[0]) is True): continue
            def mkh(loc, b, get=get, sh=sh, hf=hf):
                g = get(loc, b); cf = hf()
                return fall(sh, lambda i: sc.eq_f(g((i,)), cf(i)))
            out.append(('%s %s' % (nm, hn), (lambda: []), mkh))
        # relation: entry value of this array in terms of the entry values of the others
        q = z3.Int('__cand')
        e0 = c0((q,))
        if isinstance(e0, sc.XF) or not z3.is_expr(e0): continue
        subs = []
        for (nm2, d0, get2, sh2) in items:
            if nm2 == nm: continue
            t = d0((q,))
            if z3.is_expr(t) and not isinstance(t, sc.XF) and contains(e0, t): subs.append((t, get2))
        if subs and not any(contains(t, e0) for t, _ in subs):
            def mkf(loc, b, e0=e0, subs=subs, get=get, sh=sh):
                g = get(loc, b); gs = [(t, g2(loc, b)) for t, g2 in subs]
                def body(i):
                    r = z3.substitute(e0, *[(t, sc.zr(c((q,)))) for t, c in gs])
                    r = recanon(r)
                    r = z3.substitute(r, (q, sc.zi(i)))
                    return sc.eq_f(g((i,)), r)
                def body2(i):
                    vals = [(t, sc.zr(c((i,)))) for t, c in gs]
                    r = z3.substitute(e0, *vals); r = z3.substitute(r, (q, sc.zi(i)))
                    return sc.eq_f(g((i,)), recanon(r))
                return fall(sh, body2)
            out.append(('%s keeps its relation to %d arrays' % (nm, len(subs)), lambda: [], mkf))
    return out

def contains(t, s):
    st = [t]; seen = set()
    while st:
        u = st.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if u.eq(s): return True
        st.extend(u.children())
    return False

def recanon(t):
    """rebuild applications of axiomatised functions so that their axioms are registered"""
    cache = {}
    def go(u):
        r = cache.get(u.get_id())
        if r is not None: return r[1]
        if not z3.is_app(u) or u.num_args() == 0: r = u
        else:
            ch = [go(c) for c in u.children()]
            nm = u.decl().name() if u.decl().kind() == z3.Z3_OP_UNINTERPRETED else ''
            if nm == 'sqrt': r = sc.zr(sc.sqrt_(ch[0]))
            elif nm == 'cbrt': r = sc.zr(sc.cbrt_(ch[0]))
            elif nm.startswith('pow_'):
                a, b = nm[4:].split('_'); r = sc.zr(sc.powq_(ch[0], Fraction(int(a), int(b))))
            elif nm == 'pow': r = sc.zr(sc.pows_(ch[0], ch[1]))
            elif nm in ('exp', 'log', 'tanh', 'arctan', 'arcsin'): r = sc.zr(getattr(sc, nm + '_')(ch[0]))
            elif all(a.eq(b) for a, b in zip(ch, u.children())): r = u
            else: r = u.decl()(*ch) if u.decl().kind() == z3.Z3_OP_UNINTERPRETED else z3.substitute(u, *[(a, b) for a, b in zip(u.children(), ch)])
        cache[u.get_id()] = (u, r); return r
    return go(t)
