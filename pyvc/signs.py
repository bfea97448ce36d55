"""Sign back end: comparisons with zero that follow from the signs of the parts (products, sums, quotients, roots,
conditionals), the definitions among the facts, and one-literal facts whose integer guards hold."""
from fractions import Fraction
import z3
from . import sc
NEG, ZERO, POS = 1, 2, 4
ANY = 7
K = z3
CMP = {z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE}
def mulsign(a, b):
    r = 0
    for x in (NEG, ZERO, POS):
        if not a & x: continue
        for y in (NEG, ZERO, POS):
            if not b & y: continue
            r |= ZERO if ZERO in (x, y) else (POS if x == y else NEG)
    return r
def addsign(a, b):
    r = 0
    for x in (NEG, ZERO, POS):
        if not a & x: continue
        for y in (NEG, ZERO, POS):
            if not b & y: continue
            r |= y if x == ZERO else (x if y == ZERO or x == y else ANY)
    return r
def flip(a): return (POS if a & NEG else 0) | (a & ZERO) | (NEG if a & POS else 0)
_io = {}
def intonly(t):
    r = _io.get(t.get_id())
    if r is None:
        r = (t, t.sort() != sc.R and all(intonly(c) for c in t.children())) if z3.is_app(t) else (t, False); _io[t.get_id()] = r
    return r[1]
def atoms(t, out, seen):
    st = [t]
    while st:
        u = st.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.sort() == sc.R: out.append(u.get_id())
        st.extend(u.children())

class Budget(Exception): pass
LIMIT = 20000
class Signs:
    def __init__(self, forms):
        """forms: ground facts"""
        self.ints = z3.Solver(); self.ints.set('timeout', 300); self.index = {}; self.keep = []; self.memo = {}; self.busy = set(); self.local = []; self.gm = {}; self.n = 0
        for f in forms: self.add(f)
    def add(self, f):
        if not z3.is_expr(f): return
        if intonly(f): self.ints.add(f); return
        if z3.is_and(f):
            for c in f.children(): self.add(c)
            return
        g = []
        while True:
            if z3.is_implies(f): g.append(f.arg(0)); f = f.arg(1); continue
            if z3.is_or(f):
                ints = [c for c in f.children() if intonly(c)]; rest = [c for c in f.children() if not intonly(c)]
                if len(rest) == 1 and ints: g += [z3.Not(c) for c in ints]; f = rest[0]; continue
            break
        if z3.is_and(f) and g:
            for c in f.children(): self.lit(g, c)
            return
        self.lit(g, f)
    def lit(self, g, f):
        if z3.is_and(f):
            for c in f.children(): self.lit(g, c)
            return
        if z3.is_or(f) or z3.is_implies(f):
            ff = f
            g2 = list(g)
            if z3.is_implies(f): g2.append(f.arg(0)); ff = f.arg(1)
            else:
                ints = [c for c in f.children() if intonly(c)]; rest = [c for c in f.children() if not intonly(c)]
                if len(rest) != 1 or not ints: return
                g2 += [z3.Not(c) for c in ints]; ff = rest[0]
            if all(intonly(x) for x in g2): self.lit(g2, ff)
            return
        r = self.parse(f)
        if r is None: return
        for key, kind, other in r:
            if isinstance(key, int): self.index.setdefault(key, []).append((g, kind, other)); self.keep.append((f, other))
    def parse(self, f):
        """[(id of a term, kind, other)]: kind in < <= > >= == !="""
        neg = False
        while z3.is_not(f): f = f.arg(0); neg = not neg
        if not z3.is_app(f) or f.num_args() != 2 or f.arg(0).sort() not in (sc.R,): return None
        k = f.decl().kind(); a, b = f.arg(0), f.arg(1)
        if k == z3.Z3_OP_EQ or k == z3.Z3_OP_DISTINCT:
            e = (k == z3.Z3_OP_EQ) != neg; s = '==' if e else '!='
            return [(a.get_id(), s, b), (b.get_id(), s, a)]
        if k not in CMP: return None
        s = {z3.Z3_OP_LT: '<', z3.Z3_OP_LE: '<=', z3.Z3_OP_GT: '>', z3.Z3_OP_GE: '>='}[k]
        if neg: s = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[s]
        o = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[s]
        return [(a.get_id(), s, b), (b.get_id(), o, a)]
    def guards(self, g):
        for c in g:
            if not intonly(c): return False
            k = c.get_id()
            if k not in self.gm:
                self.n += 1
                if self.n > 150: return False
                self.ints.push(); self.ints.add(z3.Not(c)); self.gm[k] = self.ints.check() == z3.unsat; self.ints.pop(); self.keep.append(c)
            if not self.gm[k]: return False
        return True
    steps = 0
    def bound(self, kind, so):
        """sign of x with  x kind y,  so = sign of y"""
        if kind == '==': return so
        if kind == '!=': return ANY & ~ZERO if so == ZERO else ANY
        if kind == '>': return POS if not so & NEG else ANY
        if kind == '>=': return POS if so == POS else (POS | ZERO if not so & NEG else ANY)
        if kind == '<': return NEG if not so & POS else ANY
        if kind == '<=': return NEG if so == NEG else (NEG | ZERO if not so & POS else ANY)
    def sign(self, t, depth=0):
        k = t.get_id()
        if not self.local and k in self.memo: return self.memo[k]
        if k in self.busy or depth > 40: return ANY
        self.steps += 1
        if self.steps > LIMIT: raise Budget()
        self.busy.add(k)
        try:
            s = self.struct(t, depth)
            if s not in (NEG, ZERO, POS):
                for key, kind, other in [x for l in self.local for x in (self.parse(l) or [])]:
                    if key == k: s &= self.bound(kind, self.sign(other, depth + 1)) or s
                for g, kind, other in self.index.get(k, ()):
                    if s in (NEG, ZERO, POS): break
                    b = self.bound(kind, self.sign(other, depth + 1))
                    if b & s != s and self.guards(g): s &= b
        finally: self.busy.discard(k)
        if not self.local and (not self.busy or s in (NEG, ZERO, POS)): self.memo[k] = s
        return s
    def struct(self, t, depth):
        c = sc.const(t)
        if c is not None: return POS if c > 0 else (ZERO if c == 0 else NEG)
        if not z3.is_app(t): return ANY
        o = t.decl().kind(); ch = t.children()
        S = lambda x: self.sign(x, depth + 1)
        if o == z3.Z3_OP_MUL:
            cnt = {}
            for x in ch: cnt.setdefault(x.get_id(), [x, 0])[1] += 1
            r = POS
            for x, n in cnt.values():
                s = S(x)
                if n % 2 == 0: s = (POS if s & (NEG | POS) else 0) | (s & ZERO)
                r = mulsign(r, s)
            return r
        if o == z3.Z3_OP_ADD:
            r = ZERO
            for x in ch: r = addsign(r, S(x))
            return r
        if o == z3.Z3_OP_SUB:
            r = S(ch[0])
            for x in ch[1:]: r = addsign(r, flip(S(x)))
            return r
        if o == z3.Z3_OP_UMINUS: return flip(S(ch[0]))
        if o == z3.Z3_OP_DIV:
            d = S(ch[1])
            if d & ZERO: return ANY
            return mulsign(S(ch[0]), d)
        if o == z3.Z3_OP_ITE:
            r = 0
            for lit, x in ((ch[0], ch[1]), (z3.Not(ch[0]), ch[2])):
                if intonly(lit):
                    if self.guards([z3.Not(lit)]): continue
                    r |= S(x)
                else:
                    self.local.append(lit)
                    try: r |= S(x)
                    finally: self.local.pop()
            return r or ANY
        if o == z3.Z3_OP_UNINTERPRETED and len(ch) == 1:
            n = t.decl().name()
            if n == 'cbrt': return S(ch[0])
            if n == 'sqrt':
                s = S(ch[0]); return POS if s == POS else (ANY if s & NEG else POS | ZERO)
            if n.startswith('pow_') and S(ch[0]) == POS: return POS
            if n == 'exp': return POS
        return ANY
    def holds(self, f):
        if z3.is_true(f): return True
        if z3.is_and(f): return all(self.holds(c) for c in f.children())
        if z3.is_or(f): return any(self.holds(c) for c in f.children())
        if intonly(f): return self.guards([f])
        neg = False; c = f
        while z3.is_not(c): c = c.arg(0); neg = not neg
        if neg and z3.is_and(c): return any(self.holds(z3.Not(x)) for x in c.children())
        if neg and z3.is_or(c): return all(self.holds(z3.Not(x)) for x in c.children())
        if neg and z3.is_implies(c): return self.holds(c.arg(0)) and self.holds(z3.Not(c.arg(1)))
        p = self.parse(f)
        if not p: return False
        k = f
        while z3.is_not(k): k = k.arg(0)
        a, b = k.arg(0), k.arg(1); kind = p[0][1]
        cb, ca = sc.const(b), sc.const(a)
        if cb is not None and cb == 0: s = self.sign(a)
        elif ca is not None and ca == 0: s = flip(self.sign(b))
        else: s = addsign(self.sign(a), flip(self.sign(b)))
        ok = {'<': NEG, '<=': NEG | ZERO, '>': POS, '>=': POS | ZERO, '==': ZERO, '!=': NEG | POS}[kind]
        return s & ~ok == 0
def provable(forms, goal):
    try: return Signs(forms).holds(goal)
    except (z3.Z3Exception, Budget): return False
