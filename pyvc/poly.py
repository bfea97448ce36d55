"""Polynomial back end: equalities that follow from given equalities by ring arithmetic (division by the same divisor on
both sides), after deciding the conditionals that occur in them from the facts."""
from fractions import Fraction
import z3, time
from . import sc, solver

class Undecided(Exception):
    def __init__(self, c): self.c = c

class Ring:
    def __init__(self, facts, extra, splits, deadline, ints, known, und): self.facts, self.extra, self.splits, self.deadline = facts, extra, splits, deadline; self.ints = ints; self.known = known; self.und = und; self.atoms = {}; self.cache = {}; self.dec = dict(known); self.keep = []; self.idem = set(); self.divs = {}
    def atom(self, key):
        if key not in self.atoms: self.atoms[key] = len(self.atoms)
        return {((self.atoms[key], 1),): Fraction(1)}
    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = c.get_id()
        if k in self.dec: return self.dec[k]
        if z3.is_not(c): return not self.decide(c.arg(0))
        if z3.is_and(c):
            return all(self.decide(x) for x in c.children())
        if z3.is_or(c):
            return any(self.decide(x) for x in c.children())
        for s, v in self.splits:
            if s.eq(c): return v
        fs = self.facts + [s if v else z3.Not(s) for s, v in self.splits]
        self.keep.append(c)
        if intonly(c):
            s = self.ints; s.push()
            try:
                s.add(*[s_ if v else z3.Not(s_) for s_, v in self.splits if intonly(s_)])
                for goal, v in ((c, True), (z3.Not(c), False)):
                    s.push(); s.add(z3.Not(goal)); r = s.check(); s.pop()
                    if r == z3.unsat: self.dec[k] = v; return v
            finally: s.pop()
            raise Undecided(c)
        if k in self.und: raise Undecided(c)
        to = max(.1, min(1, self.deadline - time.time()))
        for goal, v in ((c, True), (z3.Not(c), False)):
            if solver.prove(fs, goal, to, self.extra, quick=True).status == 'unsat': self.dec[k] = v; return v
        self.und[k] = c
        raise Undecided(c)
    def add(self, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + k*c
            if v: r[m] = v
            else: r.pop(m, None)
        return r
    def mulm(self, m, n):
        d = dict(m)
        for a, e in n:
            v = d.get(a, 0) + e
            if v > 1 and a in self.idem: v = 1
            if v: d[a] = v
            else: d.pop(a)
        return tuple(sorted(d.items()))
    def mul(self, a, b):
        r = {}
        if len(a)*len(b) > 200000: raise ValueError('polynomial too large')
        for m, c in a.items():
            for n, d in b.items():
                k = self.mulm(m, n); v = r.get(k, 0) + c*d
                if v: r[k] = v
                else: r.pop(k, None)
        return r
    def key(self, p): return tuple(sorted(p.items()))
    def inv(self, p):
        if len(p) == 1:
            (m, c), = p.items(); return {tuple((a, -e) for a, e in m): 1/c}
        if not p: raise ValueError('division by zero')
        ms = sorted(p); lead = p[ms[0]]
        q = {m: c/lead for m, c in p.items()}
        r = self.atom(('inv', self.key(q)))
        return self.mul(r, {(): 1/lead})
    def isabs(self, c, a, b):
        return not self.add(self.norm(a), self.norm(b)) if z3.is_app(a) and a.num_args() < 3 else False
    def ind(self, c):
        '''indicator (0 or 1) of a condition on reals'''
        neg = False
        while z3.is_not(c): c = c.arg(0); neg = not neg
        o = c.decl().kind()
        if o in (z3.Z3_OP_GE, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_LT) and c.arg(0).sort() == sc.R:
            p = self.add(self.norm(c.arg(0)), self.norm(c.arg(1)), -1)
            if o in (z3.Z3_OP_LE, z3.Z3_OP_GT): p = {m: -v for m, v in p.items()}     # p >= 0 for <=, >=; p < 0 for <, >
            if o in (z3.Z3_OP_GT, z3.Z3_OP_LT): neg = not neg
            k = ('ind', self.key(p))
        else: k = ('ind', c.sexpr())
        i = self.atom(k); self.idem.add(self.atoms[k])
        return self.add({(): Fraction(1)}, i, -1) if neg else i
    def ikey(self, t):
        """canonical key of an integer (or boolean) argument"""
        t = self.res(t)
        if z3.is_int(t): return ('r', self.key(self.norm(t)))
        return ('t', z3.simplify(t).sexpr())
    def res(self, t):
        while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE: t = t.arg(1) if self.decide(t.arg(0)) else t.arg(2)
        return t
    def norm(self, t):
        k = t.get_id(); r = self.cache.get(k)
        if r is None: r = self.norm_(t); self.cache[k] = r; self.keep.append(t)
        return r
    def norm_(self, t):
        if z3.is_int_value(t): v = t.as_long(); return {(): Fraction(v)} if v else {}
        if z3.is_rational_value(t): v = Fraction(t.numerator_as_long(), t.denominator_as_long()); return {(): v} if v else {}
        if not z3.is_app(t): raise ValueError
        o = t.decl().kind(); ch = t.children()
        if o == z3.Z3_OP_ADD:
            r = {}
            for c in ch: r = self.add(r, self.norm(c))
            return r
        if o == z3.Z3_OP_SUB:
            r = self.norm(ch[0])
            for c in ch[1:]: r = self.add(r, self.norm(c), -1)
            return r
        if o == z3.Z3_OP_UMINUS: return self.add({}, self.norm(ch[0]), -1)
        if o == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in sorted(ch, key=lambda c: 0 if sc.const(c) is not None else 1): r = self.mul(r, self.norm(c))
            return r
        if o == z3.Z3_OP_DIV:
            if sc.const(ch[1]) is None: self.divs[ch[1].get_id()] = ch[1]
            return self.mul(self.norm(ch[0]), self.inv(self.norm(ch[1])))
        if o == z3.Z3_OP_POWER and sc.const(ch[1]) is not None and Fraction(sc.const(ch[1])).denominator == 1:
            n = int(sc.const(ch[1])); b = self.norm(ch[0])
            if n < 0: self.divs[ch[0].get_id()] = ch[0]; b = self.inv(b); n = -n
            r = {(): Fraction(1)}
            for _ in range(n): r = self.mul(r, b)
            return r
        if o == z3.Z3_OP_TO_REAL: return self.norm(ch[0])
        if o == z3.Z3_OP_ITE:
            c = z3.simplify(t.arg(0))
            try:
                if intonly(c) or not self.isabs(c, t.arg(1), t.arg(2)): v = self.decide(c); return self.norm(t.arg(1) if v else t.arg(2))
            except Undecided as e:
                if intonly(e.c): raise
            i = self.ind(c)
            return self.add(self.mul(i, self.norm(t.arg(1))), self.mul(self.add({(): Fraction(1)}, i, -1), self.norm(t.arg(2))))
        if o == z3.Z3_OP_UNINTERPRETED and ch:
            return self.atom(('app', t.decl().name()) + tuple(self.ikey(c) if c.sort() != sc.R else ('r', self.key(self.norm(c))) for c in ch))
        if o in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            return self.atom((str(o),) + tuple(self.key(self.norm(c)) for c in ch))
        return self.atom(('t', t.sexpr()))

_io = {}
def intonly(t):
    '''no real-valued subterm'''
    r = _io.get(t.get_id())
    if r is None: r = (t, t.sort() != sc.R and all(intonly(c) for c in t.children())) if z3.is_app(t) else (t, False); _io[t.get_id()] = r
    return r[1]

def carried_rules(facts, extra, goal, using, decide):
    """equations that define loop-carried values (names hv_*): invariants of the loops, at the given indices"""
    terms = list(extra); ks = list(terms) + [t + 1 for t in terms]
    out = {}
    def put(f):
        g = []
        while True:
            if z3.is_implies(f): g.append(f.arg(0)); f = f.arg(1); continue
            if z3.is_or(f):
                pos = [c for c in f.children() if not z3.is_not(c)]
                if len(pos) == 1: g += [c.arg(0) for c in f.children() if z3.is_not(c)]; f = pos[0]; continue
            break
        if z3.is_and(f):
            for c in f.children(): put(z3.Implies(z3.And(*g), c) if g else c)
            return
        if not (z3.is_eq(f) and f.arg(0).sort() == sc.R): return
        for x, y in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (x.decl().name().startswith('hv_') and not mentions(y, x) or x.decl().name().startswith('hvb!') and not carried(y)):
                k = z3.simplify(x).get_id()
                out.setdefault(k, []).append((x, g, y)); return
    for f in facts:
        if isinstance(f, solver.Forall):
            if f.n != 1: continue
            for k in ks:
                try: b = f.inst((sc.norm(z3.simplify(k)),))
                except sc.OutOfSubset: continue
                if b is not True and b is not False: put(b)
        else: put(f)
    return out
def carried(t):
    st = [t]; seen = set()
    while st:
        u = st.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.decl().name().startswith('hv'): return True
        st.extend(u.children())
    return False
def mentions(t, x):
    st = [t]; seen = set()
    while st:
        u = st.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if u.eq(x): return True
        st.extend(u.children())
    return False
def follows(facts, goal, using, extra=(), timeout=40, subst=()):
    """goal: a real equality; True if its difference is a combination of the differences of the equalities `using`"""
    deadline = time.time() + timeout
    rules = carried_rules(facts, extra, goal, using, None)
    todo = [([], {})]; und = {}
    ints = z3.Solver(); ints.set('timeout', 400)
    ints.add(*[f for f in solver.flat([f for f in facts if not isinstance(f, solver.Forall)]) if intonly(f)])
    while todo:
        splits, known = todo.pop()
        if time.time() > deadline or len(splits) > 8: return False
        sub = []
        for c, v in splits:
            if v and z3.is_eq(c) and c.arg(0).sort() == sc.I:
                for x, y in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not mentions(y, x): sub.append((x, y)); break
        S = lambda t: z3.substitute(t, *sub) if sub else t
        R = Ring(facts, extra, splits, deadline, ints, known, und)
        try:
            memo = {}
            def rule(a):
                if a not in memo:
                    memo[a] = None
                    for x_, g, y in lazy[a]:
                        if all(R.decide(S(gg)) for gg in g): memo[a] = R.norm(S(y)); break
                return memo[a]
            def apply(P):
                for _ in range(20):
                    hit = None
                    for m in P:
                        for a, e in m:
                            if a in lazy and rule(a) is not None: hit = a
                    if hit is None: return P
                    Q = {}
                    for m, c in P.items():
                        e = dict(m).get(hit, 0); rest = tuple(x for x in m if x[0] != hit); t = {rest: c}
                        y = rule(hit)
                        if e < 0:
                            if len(y) != 1: raise ValueError('division by a carried value')
                            y = R.inv(y)
                        for _ in range(abs(e)): t = R.mul(t, y)
                        Q = R.add(Q, t)
                    P = Q
                return P
            lazy = {}
            p = R.add(R.norm(S(goal.arg(0))), R.norm(S(goal.arg(1))), -1)
            if not p:
                if not nonzero(R, sub): return False
                continue
            qs = [R.add(R.norm(S(u.arg(0))), R.norm(S(u.arg(1))), -1) for u in using]
            for x, cands in ((c[0][0], c) for c in rules.values()):
                xa = R.norm(S(x))
                if len(xa) != 1: continue
                (m, _), = xa.items()
                if len(m) == 1: lazy[m[0][0]] = cands
            for x, y in subst:          # given rewrite rules  x -> y
                xa = R.ind(z3.simplify(S(x))) if z3.is_bool(x) else R.norm(S(x))     # x: a condition that holds (y = 1), or a term
                if len(xa) == 1:
                    (m, v), = xa.items()
                    if len(m) == 1 and v == 1 and m[0][1] == 1: memo[m[0][0]] = R.norm(S(y)); lazy[m[0][0]] = None
            p = apply(p); qs = [apply(q) for q in qs]
            if p and not reduce_(R, p, [q for q in qs if q], deadline): return False
            if not nonzero(R, sub): return False
        except Undecided as e:
            for v in (True, False):
                s = splits + [(e.c, v)]
                lit = e.c if v else z3.Not(e.c)
                if intonly(lit):
                    ints.push(); ints.add(lit, *[a if b else z3.Not(a) for a, b in splits if intonly(a)]); r = ints.check(); ints.pop()
                    if r != z3.unsat: todo.append((s, R.dec))
                elif solver.prove(facts + [a if b else z3.Not(a) for a, b in splits], z3.Not(lit), 1, extra, quick=True).status != 'unsat': todo.append((s, R.dec))
        except ValueError: return False
    return True
def nonzero(R, sub):
    '''every divisor that was cancelled is not zero'''
    fs = R.facts + [a if b else z3.Not(a) for a, b in R.splits]
    for t in list(R.divs.values()):
        k = t.get_id()
        if k in R.und and R.und[k] is True: continue
        g = z3.Not(t == 0)
        if solver.prove(fs, g, max(.5, min(4, R.deadline - time.time())), R.extra, quick=True).status != 'unsat': return False
    return True
def reduce_(R, p, qs, deadline):
    for _ in range(60):
        if not p: return True
        if time.time() > deadline: return False
        best = None
        for q in qs:
            done = set()
            for mq, cq in q.items():
                iv = tuple((a, -e) for a, e in mq)
                for mp, cp in p.items():
                    r = R.mulm(mp, iv)
                    if (id(q), r, cp/cq) in done: continue
                    done.add((id(q), r, cp/cq))
                    n = R.add(p, R.mul(q, {r: cp/cq}), -1)
                    if best is None or len(n) < len(best): best = n
                    if not n: return True
        if best is None or len(best) >= len(p): return False
        p = best
    return False
