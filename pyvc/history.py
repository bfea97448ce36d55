"""Contracts over the history of a run: callees reduced to their contracts and recorded as events, unknown values left
arbitrary (Any), and a loop contract whose invariants tie the program's variables to a ghost state advanced by the events."""
import ast, z3
from . import sc, solver, engine as E
from .sc import And, Or, Not, OutOfSubset, Implies, Iff
from .world import TS, TD, B
from .arr import *

class Any:
    """a value about which nothing is known; every operation on it gives such a value and cannot fail (assumed)"""
    assumed = True
    def __init__(self, what='?'): self.what = what
    def __repr__(self): return 'Any(%s)' % self.what
    def m_getattr(self, eng, a): return self if a in ('values', 'T', 'copy') else Any('%s.%s' % (self.what, a))
    def m_getitem(self, eng, k): return Any()
    def m_setitem(self, eng, k, v): pass
    def m_setattr(self, eng, k, v): pass
    def m_binop(self, eng, op, o, sw): return Any()
    def m_compare(self, eng, op, o, sw): return Any()
    def m_truth(self, eng): return eng.fresh('any', sc.B)
    def m_contains(self, eng, x): return eng.fresh('any', sc.B)
    def m_merge(self, eng, c, o): return Any()
    def m_call(self, eng, a, k): return Any()
    def m_neg(self, eng): return Any()
    def m_abs(self, eng): return Any()
    def m_len(self, eng):
        n = eng.fresh('anylen', sc.I); eng.fact(n >= 0); return n
def anyin(xs): return any(isinstance(x, Any) or (isinstance(x, (list, tuple)) and anyin(x)) for x in xs)
FREE = ('matplotlib', 'pandas.DataFrame', 'pandas.concat', 'logging', 'warnings', 'time', 'datetime')
def anymode(eng):
    """library functions given an unknown value return one; drawing, logging and table building are outside the property"""
    def get(v, attr):
        if not v.name.startswith('repo:') and (v.name + '.' + attr).startswith(FREE) and (v.name + '.' + attr) not in eng.ext and v.name != 'logging':
            return B(lambda *a, **k: Any(attr))
        try: r = eng.np.modattr(v, attr)
        except OutOfSubset:
            if v.name.startswith('repo:'): raise
            r = None
        if r is None or isinstance(r, E.Builtin):
            def f(*a, **k):
                if anyin(a) or anyin(tuple(k.values())): return Any(attr)
                if r is None: raise OutOfSubset('%s.%s' % (v.name, attr))
                return r.fn(*a, **k)
            return B(f, getattr(r, 'name', attr))
        return r
    eng.anymode = get
    for b in ('list', 'zip', 'len', 'float', 'int', 'sum', 'abs', 'min', 'max', 'round'):
        f0 = eng.np.builtins.get(b)
        def f(*a, f0=f0, b=b, **k):
            if anyin(a): return Any(b)
            if f0 is None: raise OutOfSubset(b)
            if b in ('zip', 'list') and all(isinstance(x, (list, tuple)) for x in a): return list(zip(*a)) if b == 'zip' else list(*a)
            return f0(*a, **k)
        eng.np.builtins[b] = f

def params(eng, qual, args, kwargs):
    """actual arguments in the order of the parameters"""
    a = eng.func(qual).node.args; names = [x.arg for x in a.posonlyargs + a.args]
    out = list(args) + [None]*(len(names) - len(args))
    for k, v in kwargs.items():
        if k in names: out[names.index(k)] = v
    return out
def returned(eng, qual, default):
    """names at the positions of the returned tuple"""
    rs = [n for n in ast.walk(eng.func(qual).node) if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple)]
    if not rs: return default
    ns = [e.id if isinstance(e, ast.Name) else '?' for e in rs[-1].value.elts]
    return ns

class History:
    """loop contract.  ghost: name -> value at loop entry; step(ghost, events) -> (new ghost, [(obligation name, formula)]);
    facts(ghost) -> [(name, formula)] candidate invariants of the ghost state; done(ghost) -> obligations when the loop is left"""
    def __init__(self, p, entry, step, facts, consts): self.p, self.entry, self.step, self.facts, self.consts = p, entry, step, facts, consts; self.keep = p.eng.__dict__.setdefault('histkeep', {}); p.eng.whilehook = self.hook
    def event(self, *e):
        eng = self.p.eng
        if eng.inmerge: raise E.NeedFork(eng.inmerge_key[-1])
        eng.events.append(e)
    def cands(self, loc, names, g):
        out = {('ghost', k): v for k, v in self.facts(g)}
        for x in names:
            v = loc.get(x)
            if isinstance(v, TS):
                for k, w in g.items():
                    if isinstance(w, TS): out[x, '==', k] = sc.eq(v.t, w.t)
                for k, w in self.consts.items():
                    if isinstance(w, TS): out[x, '<=', k] = sc.le(v.t, w.t); out[x, '>=', k] = sc.ge(v.t, w.t)
            elif isinstance(v, TD): out[x, '>', 0] = sc.gt(v.s, 0); out[x, '>=', 0] = sc.ge(v.s, 0)
            elif sc.is_boolv(v):
                for k, w in g.items():
                    if sc.is_boolv(w): out[x, '==', k] = Iff(v, w)
        return out
    def havoc(self, loc, names, g):
        eng = self.p.eng
        for x in names:
            v = loc.get(x)
            if v is None: continue
            if isinstance(v, TS): loc[x] = TS(eng.fresh(x, sc.R))
            elif isinstance(v, TD): loc[x] = TD(eng.fresh(x, sc.R))
            elif isinstance(v, Any): loc[x] = Any(x)
            elif sc.is_boolv(v): loc[x] = eng.fresh(x, sc.B)
            elif sc.is_intv(v): loc[x] = eng.fresh(x, sc.I)
            elif sc.is_num(v): loc[x] = eng.fresh(x, sc.R)
            else: del loc[x]       # must be set again before it is read
        return {k: TS(eng.fresh('g' + k, sc.R)) if isinstance(v, TS) else eng.fresh('g' + k, sc.B) for k, v in g.items()}
    def hook(self, eng, st):
        from . import loops
        if any(isinstance(n, (ast.While, ast.For)) for n in ast.walk(ast.Module(st.body, []))) : pass
        fr = eng.frames[-1]; key = loops.lkey(eng, st); names = loops.assigned(st.body) if st else []
        names = [x for x in names if x in fr.loc]; loc0 = dict(fr.loc)
        if eng.loopstack: return False
        g0 = self.entry(list(eng.events)); first = self.cands(fr.loc, names, g0)
        def body(g):
            c = sc.norm(eng.truth(eng.ev(st.test)))
            if c is False: raise E.PathEnd()
            eng.fact(c); n0 = len(eng.events)
            left = False
            try: eng.block(st.body)
            except E.BreakEx: left = True
            except E.ContinueEx: pass
            return left, eng.events[n0:]
        proved = lambda fs, f: f is True or (f is not False and solver.check(solver.instantiate(fs, [z3.Not(sc.zb(f))], (), 1) + [z3.Not(sc.zb(f))], 4).status == 'unsat')
        key = (key, tuple(eng.dec[:eng.dpos]), frozenset(eng.nomerge))
        if key not in self.keep:
            keep = [k for k, f in first.items() if proved(eng.snapfacts(), f)]; saw = False
            while True:
                mark = len(eng.journal); nf = len(eng.facts); o0, r0 = len(eng.obls), len(eng.raises); res = []; bad = set()
                def th():
                    g = self.havoc(fr.loc, names, g0); inv = self.cands(fr.loc, names, g)
                    for k in keep:
                        if k in inv: eng.fact(inv[k])
                    left, ev = body(g)
                    if left: raise E.BreakEx()
                    g1, _ = self.step(g, ev); out = self.cands(fr.loc, names, g1); fs = eng.snapfacts()
                    res.append((bool(ev), [k for k in keep if k not in bad and not (k in out and proved(fs, out[k]))])); bad.update(res[-1][1])
                eng.discovering += 1
                try: loops.sub_explore(eng, Buf._n, th)
                finally:
                    eng.discovering -= 1; fr.loc.clear(); fr.loc.update(loc0); del eng.obls[o0:]; del eng.raises[r0:]; eng.rollback(mark); del eng.facts[nf:]; eng.validc = {}
                if not any(e for e, _ in res): return False       # not a loop over steps
                if not bad: break
                keep = [k for k in keep if k not in bad]
            self.keep[key] = keep
        keep = self.keep[key]; p = self.p
        for k in keep: p.check('on entry: ' + self.say(k), first.get(k, False))
        n = eng.choose(2)
        g = self.havoc(fr.loc, names, g0); inv = self.cands(fr.loc, names, g)
        for k in keep:
            if k in inv: eng.fact(inv[k])
        if n == 0:
            left, ev = body(g)
            if left and not ev: self.state = g; return True      # left before anything was done
            g1, posts = self.step(g, ev); self.record(posts)
            if left: self.state = g1; return True
            out = self.cands(fr.loc, names, g1)
            for k in keep: p.check('after a step: ' + self.say(k), out.get(k, False))
            raise E.PathEnd()
        c = sc.norm(eng.truth(eng.ev(st.test)))
        if c is True: raise E.PathEnd()
        eng.fact(Not(c)); self.state = g; eng.block(st.orelse); return True
    def say(self, k): return 'invariant %s' % k[1] if k[0] == 'ghost' else 'invariant on a program variable: %s %s' % (k[1], k[2]) 
    def record(self, posts):
        for nm, f in posts: self.p.check(nm, f)
