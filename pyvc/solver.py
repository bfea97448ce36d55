"""Discharging obligations: quantifier instantiation + z3 (cvc5 as second back end)."""
import time, os
import z3
from . import sc
from .sc import And, Or, Not, Implies, zb

class Forall:
    """for all integer tuples idx: body(*idx)   (ranges are part of body)"""
    __slots__ = ('n', 'fn', 'name', 'cache', 'guard', 'trig')
    def __init__(self, n, fn, name='', guard=True, trig=None):
        self.n, self.fn, self.name, self.cache, self.guard, self.trig = n, fn, name, {}, guard, trig
    def inst(self, idx):
        k = tuple(i if isinstance(i, int) else ('t', i.get_id()) for i in idx)
        r = self.cache.get(k)
        if r is None:
            b = self.fn(*idx)
            if b is None: return True      # relation of an unfinished loop summary
            r = (idx, b); self.cache[k] = r
        return Implies(self.guard, r[1]) if self.guard is not True else r[1]
    def guarded(self, g):
        f = Forall(self.n, self.fn, self.name, And(g, self.guard), self.trig); f.cache = self.cache; return f

_sub = {}   # term id -> (term, frozenset of index-argument terms ids, set of ids with axioms)
_terms = {}
def scan(t):
    """(index terms, axiom keys) occurring in t; iterative, cached per term"""
    r = _sub.get(t.get_id())
    if r is not None: return r[1], r[2]
    stack = [t]
    while stack:
        u = stack[-1]; uid = u.get_id()
        if uid in _sub: stack.pop(); continue
        ch = u.children()
        pend = [c for c in ch if c.get_id() not in _sub]
        if pend: stack.extend(pend); continue
        idx, axs = set(), set()
        for c in ch:
            r = _sub[c.get_id()]; idx |= r[1]; axs |= r[2]
        if z3.is_app(u) and u.num_args() > 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for c in ch:
                if c.sort() == sc.I: _terms[c.get_id()] = c; idx.add(c.get_id())
        if uid in sc.AX: axs.add(uid)
        _sub[uid] = (u, frozenset(idx), frozenset(axs)); stack.pop()
    r = _sub[t.get_id()]
    return r[1], r[2]

def axioms_for(forms):
    done, out, todo = set(), [], list(forms)
    while todo:
        f = todo.pop()
        _, axs = scan(f)
        for a in axs:
            if a not in done:
                done.add(a)
                for x in sc.AX[a][1]:
                    out.append(x); todo.append(x)
    return out

def flat(xs):
    out = []
    for x in xs:
        if x is True: continue
        if x is False: out.append(z3.BoolVal(False)); continue
        if z3.is_and(x): out.extend(flat(x.children()))
        else: out.append(x)
    return out

class Result:
    def __init__(self, status, model=None, t=0, solver='z3', reason=''):
        self.status, self.model, self.t, self.solver, self.reason = status, model, t, solver, reason

def instantiate(facts, goal_terms, extra, rounds, cap=6000):
    ground = flat([f for f in facts if not isinstance(f, Forall)])
    foralls = [f for f in facts if isinstance(f, Forall)]
    insts = []
    cur = set()
    termmap = {}
    def addterm(c):
        s = sc.norm(z3.simplify(c)) if z3.is_expr(c) else c
        k = s if isinstance(s, int) else ('t', s.get_id())
        if k not in termmap: termmap[k] = s; return k
        return None
    for t in extra: addterm(t)
    forms = list(goal_terms)
    for g in forms + (ground if rounds > 1 else []):
        for tid in scan(g)[0]: addterm(_terms[tid])
    doneinst = set()
    for r in range(rounds):
        ks = list(termmap)
        new = []
        for fi, f in enumerate(foralls):
            import itertools
            for tup in itertools.product(ks, repeat=f.n):
                if (fi, tup) in doneinst: continue
                doneinst.add((fi, tup))
                try: b = f.inst(tuple(termmap[k] for k in tup))
                except sc.OutOfSubset: continue
                if b is True: continue
                new += flat([b])
                if len(insts) + len(new) > cap: break
        insts += new
        before = len(termmap)
        for g in new:
            for tid in scan(g)[0]: addterm(_terms[tid])
        if r == 0 and rounds > 1:
            for g in ground:
                for tid in scan(g)[0]: addterm(_terms[tid])
        if len(termmap) == before and r > 0: break
        if len(insts) > cap: break
    return ground + insts

def check(forms, timeout, want_model=False, seed=None, old=False):
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', int(timeout*1000))
    if seed is not None:
        s.set('random_seed', seed); s.set('smt.random_seed', seed)
        if old: s.set('smt.arith.solver', 2)
    forms = flat(forms)
    seen = set(); fs = []
    for f in forms:
        if f.get_id() not in seen: seen.add(f.get_id()); fs.append(f)
    ax = axioms_for(fs)
    s.add(*fs); s.add(*ax)
    try: r = s.check()
    except z3.Z3Exception as e: return Result('unknown', None, time.time()-t0, reason=str(e))
    st = str(r)
    m = s.model() if r == z3.sat else None
    return Result(st, m, time.time()-t0, reason=s.reason_unknown() if st == 'unknown' else '')

def check_cvc5(forms, timeout):
    t0 = time.time()
    try:
        import cvc5
        s = z3.Solver(); fs = flat(forms); s.add(*fs); s.add(*axioms_for(fs))
        txt = '(set-logic ALL)\n' + s.to_smt2()
        sl = cvc5.Solver(); sl.setOption('tlimit-per', str(int(timeout*1000))); sl.setOption('nl-ext-tplanes', 'true')
        p = cvc5.InputParser(sl); p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'vc')
        sm = p.getSymbolManager(); res = 'unknown'
        while True:
            c = p.nextCommand()
            if c.isNull(): break
            o = c.invoke(sl, sm)
            if o.strip() in ('sat', 'unsat', 'unknown'): res = o.strip()
        return Result(res, None, time.time()-t0, 'cvc5')
    except Exception as e:
        return Result('unknown', None, time.time()-t0, 'cvc5', repr(e)[:200])

def limited(fn, timeout, exact=False):
    '''run fn in a child process, ended after the time limit (solvers do not always keep theirs)'''
    import select, signal
    rd, wr = os.pipe(); t0 = time.time(); pid = os.fork()
    if pid == 0:
        try:
            r = fn(); os.write(wr, ('%s|%s' % (r.status, r.solver)).encode())
        except BaseException: pass
        os._exit(0)
    os.close(wr); out = b''
    if select.select([rd], [], [], timeout + 2)[0]: out = os.read(rd, 4096)
    os.close(rd)
    try: os.kill(pid, signal.SIGKILL)
    except OSError: pass
    os.waitpid(pid, 0)
    if b'|' not in out: return Result('unknown', t=time.time()-t0, reason='timeout')
    st, so = out.decode().split('|'); return Result(st if st == 'unsat' or exact else 'unknown', t=time.time()-t0, solver=so, reason='portfolio')
def ackermann(forms, timeout):
    """real-only abstraction (function applications become constants: sound for unsat), decided by nlsat"""
    fs = flat(forms); fs = fs + axioms_for(fs); seen = {}; sub = []; stack = list(fs); ints = False
    while stack:
        t = stack.pop()
        if t.get_id() in seen: continue
        seen[t.get_id()] = t
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
            sub.append(t)
            if t.sort() == sc.I: return Result('unknown', reason='integers')
            continue
        if z3.is_int(t): return Result('unknown', reason='integers')
        stack.extend(t.children())
    try:
        gs = [z3.substitute(f, *[(t, z3.Const('ack!%d' % t.get_id(), t.sort())) for t in sub]) for f in fs]
        s = z3.SolverFor('QF_NRA'); s.set('timeout', int(timeout*1000)); s.add(*gs)
        return Result('unsat' if s.check() == z3.unsat else 'unknown', reason='abstraction', solver='z3/nlsat')
    except z3.Z3Exception as e: return Result('unknown', reason=str(e))

_mulf, _divf = z3.Function('times', sc.R, sc.R, sc.R), z3.Function('over', sc.R, sc.R, sc.R)
def ufabstract(forms, timeout):
    """products and quotients of unknowns become uninterpreted functions (sound for unsat); linear arithmetic with functions"""
    memo = {}; keep = []; prod = {}
    def go(root):
        stack = [root]
        while stack:
            t = stack[-1]; k = t.get_id()
            if k in memo: stack.pop(); continue
            pend = [c for c in t.children() if c.get_id() not in memo]
            if pend: stack.extend(pend); continue
            ch = [memo[c.get_id()] for c in t.children()]; kind = t.decl().kind() if z3.is_app(t) else None
            if not z3.is_app(t): r = t
            elif kind == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]): r = _divf(ch[0], ch[1])
            elif kind == z3.Z3_OP_MUL and t.sort() == sc.R:
                co, v = 1, []
                for x in ch:
                    if z3.is_rational_value(x): co = co*x.as_fraction(); continue
                    c2, v2 = prod.get(x.get_id(), (1, [x])); co = co*c2; v = v + v2
                v = sorted(v, key=lambda x: x.get_id()); r = v[0] if v else z3.RealVal(1)
                for x in v[1:]: r = _mulf(r, x)
                if co != 1: r = z3.RealVal(co)*r
                prod[r.get_id()] = (co, v)
            else: r = t.decl()(*ch) if ch and any(a.get_id() != b.get_id() for a, b in zip(ch, t.children())) else t
            memo[k] = r; keep.append(t); stack.pop()
        return memo[root.get_id()]
    try:
        fs = flat(forms); fs = fs + axioms_for(fs)
        s = z3.Solver(); s.set('timeout', int(timeout*1000)); s.add(*[go(z3.simplify(f)) for f in fs])
        return Result('unsat' if s.check() == z3.unsat else 'unknown', reason='abstraction', solver='z3/uf')
    except z3.Z3Exception as e: return Result('unknown', reason=str(e))

def portfolio(forms, timeout):
    """products abstracted, nlsat on the abstraction, other seeds, z3's older arithmetic solver, cvc5, then one long run"""
    r = limited(lambda: ufabstract(forms, min(4, timeout)), min(4, timeout))
    if r.status == 'unsat': return r
    r = limited(lambda: ackermann(forms, min(6, timeout)), min(6, timeout))
    if r.status == 'unsat': return r
    for seed, old in ((11, True), (12, False), (13, False), (14, True), (15, False)):
        r = limited(lambda: check(forms, min(4, timeout), seed=seed, old=old), min(4, timeout))
        if r.status == 'unsat': return r
    r = limited(lambda: check_cvc5(forms, min(timeout, 20)), min(timeout, 20))
    if r.status == 'unsat': return r
    r = limited(lambda: check(forms, timeout, seed=21), timeout)
    return r

def polyeq(goal):
    """equalities provable by polynomial normalisation alone"""
    if z3.is_eq(goal) and goal.arg(0).sort() in (sc.R, sc.I):
        d = z3.simplify(goal.arg(0) - goal.arg(1), som=True)
        c = sc.const(d)
        return c is not None and c == 0
    return False

def prove(facts, goal, timeout=20, extra=(), quick=False, using=None):
    """facts: list of Bool/Forall; goal: z3 Bool or python bool (already skolemised).  unsat = proved"""
    t0 = time.time()
    if using is not None:
        from . import poly
        if z3.is_expr(goal) and z3.is_eq(goal) and poly.follows(facts, goal, using[0], extra, timeout, using[1]): return Result('unsat', t=time.time()-t0, solver='ring')
    if goal is True: return Result('unsat', t=0, solver='simplify')
    if goal is False: goal = z3.BoolVal(False)
    from . import signs
    if polyeq(goal): return Result('unsat', t=time.time()-t0, solver='poly')
    g = z3.simplify(goal)
    if z3.is_true(g): return Result('unsat', t=time.time()-t0, solver='simplify')
    ng = z3.Not(goal)
    stages = [(0, min(2, timeout)), (1, min(6, timeout)), (2, timeout), (3, timeout)]
    if quick: stages = [(0, timeout), (2, timeout)]
    last = None
    nf = any(isinstance(f, Forall) for f in facts)
    for rounds, to in stages:
        if quick and rounds == 2 and nf:
            f1 = instantiate(facts, [ng], extra, 1)
            if signs.provable(f1, g): return Result('unsat', t=time.time()-t0, solver='signs')
        if rounds == 0: forms = flat([f for f in facts if not isinstance(f, Forall)])
        elif not nf: break
        else: forms = instantiate(facts, [ng], extra, rounds)
        if rounds <= 1 and signs.provable(forms, g): return Result('unsat', t=time.time()-t0, solver='signs')
        r = check(forms + [ng], to) if quick else limited(lambda: check(forms + [ng], to), to, True)     # the solver does not always keep its own limit
        if r.status == 'unsat': r.t = time.time()-t0; return r
        if rounds == 1 and not quick and nf and r.status == 'unknown':
            r = limited(lambda: ufabstract(forms + [ng], 5), 5)
            if r.status == 'unsat': r.t = time.time()-t0; return r
        if r.status == 'unknown' and not quick and not nf:
            r = portfolio(forms + [ng], timeout)
            if r.status == 'unsat': r.t = time.time()-t0; return r
        last = r
        last_forms = forms
    if not quick and last.status != 'sat' and nf:
        r = portfolio(last_forms + [ng], timeout)
        if r.status == 'unsat': r.t = time.time()-t0; return r
    last.t = time.time()-t0
    return last
