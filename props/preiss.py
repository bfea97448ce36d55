"""Symbolic contract of riv.solveFullPreissmann: shared set-up of the proofs of H02, H03 and H04."""
from fractions import Fraction

class Delta:
    """pandas.Timedelta"""
    def __init__(self, secs): self.secs = secs
    def m_getattr(self, eng, name):
        from pyvc.sc import OutOfSubset
        if name == 'total_seconds': return lambda: self.secs
        raise OutOfSubset('Timedelta.' + name)

class Run:
    """inputs of one call, and the log of the contracted calls it made"""
    def __init__(self, p, closed, raises=False):
        from pyvc import sc
        from pyvc.arr import mk, iadd, isub, imul, inrange
        from pyvc.engine import PyExc
        S = p.S; self.p = p; eng = p.eng; self.closed = closed
        n = self.n = p.size('n', 2); T = self.T = p.size('T', 1)
        pos = lambda v: v > 0
        self.z = p.arr('z', n); self.B = p.arr('B', n, cond=pos); self.LA = p.arr('LagArea', n, cond=lambda v: v >= 0); self.LL = p.arr('LagLen', n, cond=lambda v: v >= 0)
        self.h = p.arr('h', n); self.V = p.arr('V', n); self.dx = p.arr('dx', isub(n, 1), cond=pos)
        self.Q = p.arr('Q', T, cond=pos); self.sea = p.arr('sea', T)
        self.dt = p.real('dt', gt=0)
        self.N = dict(Theta=p.real('Theta', gt=0, le=1), Beta=p.real('Beta', gt=0), ErrTol=p.real('ErrTol', gt=0), MaxIt=p.int('MaxIt'), WarnTol=p.real('WarnTol', gt=0))
        p.assume(self.N['MaxIt'] >= 1)
        self.P = dict(Gravity=p.real('Gravity', gt=0), RoughnessManning=p.real('n_', ge=0), BarrierPermeability=p.real('Perm', ge=0))
        self.log = []
        def solve_banded(lu, ab, b):
            # contract: the returned x satisfies sum_j ab[2+i-j, j] x[j] = b[i] for every row i
            # (a singular matrix raises LinAlgError)
            if list(lu) != [2, 2]: raise sc.OutOfSubset('bandwidth')
            if raises and eng.tries and eng.choose(2): raise PyExc('LinAlgError')
            m = imul(2, n)
            eng.oblige('solve_banded: matrix has five rows', sc.zb(ab.shape[0] == 5 if isinstance(ab.shape[0], int) else ab.shape[0] == 5))
            eng.samedim(ab.shape[1], b.shape[0], 'solve_banded: one column per unknown')
            eng.samedim(b.shape[0], m, 'solve_banded: two unknowns per section')
            f = eng.freshfn('delta', sc.I, sc.R); x = mk((m,), lambda i: f(sc.zi(i[0])), 'f')
            self.log.append(('solve', dict(ab=ab.snap(), b=b.snap(), x=x.snap(), h=self.h.snap(), V=self.V.snap())))
            return x
        eng.ext['scipy.linalg.solve_banded'] = solve_banded
        eng.ext['scipy.linalg.LinAlgError'] = 'LinAlgError'
        def solveSteady(eng, args, kw):
            # contract of riv.solveSteady (decided by H01): depths positive, V B h = Q, or AssertionError
            args = list(args)
            D, U = eng.freshfn('steady_h', sc.I, sc.R), eng.freshfn('steady_V', sc.I, sc.R)
            A, W = mk((n,), lambda i: D(sc.zi(i[0])), 'f'), mk((n,), lambda i: U(sc.zi(i[0])), 'f')
            from pyvc.solver import Forall
            eng.fact(Forall(1, lambda i: sc.Implies(inrange(i, 0, n), sc.And(D(sc.zi(i)) > 0, sc.Not(U(sc.zi(i)) == 0))), 'steady profile'))
            self.log.append(('steady', dict(args=args, kw=kw, h=A.snap(), V=W.snap(), snaps=[a.snap() if hasattr(a, 'snap') else a for a in args])))
            return (A, W)
        eng.contracts['riv.solveSteady'] = solveSteady
        def friction():
            h, V = self.h.snap(), self.V.snap(); n_ = self.P['RoughnessManning']
            from pyvc.spec import V as W
            def at(i):
                v = W(V((i,))); c = S.cbrt(W(h((i,))))
                return (v*S.abs(v)*(n_*n_)/(c*c*c*c)).x
            return at
        def area():
            h, B = self.h.snap(), self.B.snap()
            return lambda i: sc.mul(h((i,)), B((i,)))
        eng.hints = [('is the friction slope of the current state', friction, n), ('is the flow area of the current state', area, n)]
    def call(self):
        p = self.p
        p.call('riv.solveFullPreissmann', self.z, self.B, self.LA, self.LL, self.closed, self.h, self.V, self.dx, Delta(self.dt.x), self.Q, self.sea, self.N, self.P)
        if len(self.log) == 0: raise AssertionError('no step')
    def last(self):
        """(kind, record of the last linear solve, head state of the last time step, its index)"""
        from pyvc.sc import OutOfSubset
        kind, rec = self.log[-1]
        return kind, rec
    def head(self):
        """state (depths, velocities) at the start of the last time step and its index"""
        from pyvc.sc import OutOfSubset
        eng = self.p.eng
        hs = [v for k, v in eng.loopheads.items() if self.h.buf.uid in v[1]['bufs'] and self.V.buf.uid in v[1]['bufs']]
        if len(hs) != 1: raise OutOfSubset('one loop over the boundary values')
        K, hv = hs[0]
        return hv['bufs'][self.h.buf.uid], hv['bufs'][self.V.buf.uid], K
    # ---- the discretised equations (specification), as functions of a state given by contents of h and V
    def f(self, c):
        from pyvc.spec import V
        from pyvc.arr import iz
        return lambda i: V(c((iz(i),)))
    def balance(self, k, h, V, h0, V0, sea, sea0):
        from pyvc.arr import iadd, isub, ieq
        S = self.p.S; k1 = iadd(k, 1); n = self.n
        z, B, LA, LL, dx = [self.f(a.snap()) for a in (self.z, self.B, self.LA, self.LL, self.dx)]
        th = self.N['Theta']; P = self.P['BarrierPermeability']; half = Fraction(1, 2)
        w = lambda new, old: new*th + old*(1 - th)
        def L(i):   # half of each neighbouring reach
            return S.ite(ieq(i, 0), dx(0)*half, S.ite(ieq(i, isub(n, 1)), dx(isub(i, 1))*half, (dx(isub(i, 1)) + dx(i))*half))
        def area(i): return B(i) + LA(i)/L(i)
        vol = lambda h: dx(k)*half*(h(k)*area(k) + h(k1)*area(k1))
        q = lambda h, V, i: V(i)*B(i)*h(i)
        net = w(q(h, V, k1) - q(h, V, k), q(h0, V0, k1) - q(h0, V0, k))
        head = lambda h, s: (z(k) + h(k) + z(k1) + h(k1))*half - s
        seep = P*((LL(k) + LL(k1))*half)*w(head(h, sea), head(h0, sea0))
        return vol(h) - vol(h0) + self.dt*net + self.dt*seep
    def momentum(self, k, h, V, h0, V0):
        from pyvc.arr import iadd
        S = self.p.S; k1 = iadd(k, 1)
        z, B, dx = [self.f(a.snap()) for a in (self.z, self.B, self.dx)]
        th = self.N['Theta']; be = self.N['Beta']; g = self.P['Gravity']; n_ = self.P['RoughnessManning']; half = Fraction(1, 2)
        w = lambda new, old: new*th + old*(1 - th)
        def Sf(h, V, i): c = S.cbrt(h(i)); return V(i)*S.abs(V(i))*(n_*n_)/(c*c*c*c)
        A = lambda h, i: B(i)*h(i)
        S0 = (z(k) - z(k1))/dx(k)
        flux = lambda h, V: be*(V(k1)*S.abs(V(k1))*A(h, k1) - V(k)*S.abs(V(k))*A(h, k))
        pres = lambda h: g*(A(h, k) + A(h, k1))*half*(h(k1) - h(k))
        fr = lambda h, V: g*dx(k)*half*(A(h, k1)*(S0 - Sf(h, V, k1)) + A(h, k)*(S0 - Sf(h, V, k)))
        Qm = lambda h, V: dx(k)*half*(V(k)*A(h, k) + V(k1)*A(h, k1))
        return Qm(h, V) - Qm(h0, V0) + self.dt*(w(flux(h, V), flux(h0, V0)) + w(pres(h), pres(h0)) - w(fr(h, V), fr(h0, V0)))
    def rowdiff(self, rec, row):
        """left and right hand side of one row of the linear system of the last solve"""
        from pyvc.arr import iadd, isub, inrange, iz
        from pyvc.spec import V
        from pyvc import sc
        lhs = V(Fraction(0)); m = 2*self.n
        for o in (-2, -1, 0, 1, 2):
            j = iz(sc.zi(iadd(row, o)))
            t = V(rec['ab']((2 - o, j)))*V(rec['x']((j,)))
            g = inrange(j, 0, m)
            lhs = lhs + self.p.S.ite(g, t, V(Fraction(0)))
        return lhs, V(rec['b']((iz(row),)))
    def sea_old(self, h0, K):
        from pyvc.arr import isub
        S = self.p.S; n1 = isub(self.n, 1); z = self.f(self.z.snap()); sea = self.f(self.sea.snap())
        return S.ite(K == 0, z(n1) + self.f(h0)(n1), sea(K - 1))

def state(r, rec):
    """(final h, V), (iterate h, V), corrections dh, dV of the last linear solve"""
    from pyvc.spec import V as W
    from pyvc import sc
    d = rec['x']
    return r.f(r.h.snap()), r.f(r.V.snap()), r.f(rec['h']), r.f(rec['V']), (lambda i: W(d((2*sc.zi(i),)))), (lambda i: W(d((2*sc.zi(i) + 1,))))
def unclamped(p, r, st, cells):
    """the corrected values at the given sections were positive depths and non-zero velocities"""
    S = p.S; h, V, hp, Vp, dh, dV = st
    for i in cells: p.assume(S.And(hp(i) - dh(i) > 0, S.Not(S.eq(Vp(i) - dV(i), 0))))
    for i in cells:
        e = () if isinstance(i, int) else (i,)
        p.lemma('depth is the iterate less the correction', S.eq(h(i), hp(i) - dh(i)), extra=e); p.lemma('velocity is the iterate less the correction', S.eq(V(i), Vp(i) - dV(i)), extra=e)
def bounded(p, r, st, cells):
    """ghost corrections, shown below the tolerance"""
    from pyvc import sc
    from pyvc.arr import iz
    S = p.S; h, V, hp, Vp, dh, dV = st; g = p.ghost; t = g('tol', r.N['ErrTol']); out = []
    for n_, i in enumerate(cells):
        x, y, b = g('dh%d' % n_, dh(i)), g('dV%d' % n_, dV(i)), g('B%d' % n_, r.f(r.B.snap())(i))
        for q, j in ((x, 2*sc.zi(i)), (y, 2*sc.zi(i) + 1)): p.lemma('correction below tolerance', S.abs(q) < t, extra=(j,))
        p.lemma('widths are positive', b > 0, extra=(sc.zi(i),))
        pr = g('pr%d' % n_, x*y); p.lemma('product below the squared tolerance', S.And(pr <= t*t, pr >= -(t*t)))
        out.append((b, pr))
    return t, out
def converged(p, r, rec):
    from pyvc.spec import V as W
    from pyvc import sc
    p.check('an accepted step has converged', p.S.forall(0, 2*sc.zi(r.n), lambda j: p.S.abs(W(rec['x']((j,)))) < r.N['ErrTol']))
def accepted(p, closed):
    """one call; the record of its last linear solve, or None if the last step reverted to the steady profile"""
    from pyvc import sc
    r = Run(p, closed); r.call(); kind, rec = r.last(); p.nposts = getattr(p, 'nposts', 0) + 1
    if kind != 'solve': return r, None
    return r, rec

def water(p, closed):
    from pyvc.arr import isub
    from pyvc import sc
    S = p.S; r, rec = accepted(p, closed)
    if rec is None: return
    n1 = isub(r.n, 1); st = h, V, hp, Vp, dh, dV = state(r, rec)
    h0c, V0c, K = r.head(); h0, V0 = r.f(h0c), r.f(V0c); sea = r.f(r.sea.snap())(K); sea0 = r.sea_old(h0c, K)
    converged(p, r, rec)
    p.check('the last step uses the last boundary values', sc.zb(sc.zi(K) == sc.zi(r.T) - 1))
    k = p.eng.fresh('k', sc.I); p.assume(k >= 0); p.assume(k < sc.zi(n1)); k1 = k + 1
    unclamped(p, r, st, (k, k1))
    row = S.eq(*r.rowdiff(rec, 2*k + 1)); p.assume(row)
    B = r.f(r.B.snap()); th = r.N['Theta']
    bil = r.dt*th*(B(k1)*dh(k1)*dV(k1) - B(k)*dh(k)*dV(k))
    hq, Vq = (lambda i: hp(i) - dh(i)), (lambda i: Vp(i) - dV(i))
    res = r.balance(k, hq, Vq, h0, V0, sea, sea0)
    p.check('reach water balance: the error is the product of the last corrections', S.eq(res, bil), using=[row], extra=(k, sc.zi(n1)))
    t, ((b0, p0), (b1, p1)) = bounded(p, r, st, (k, k1))
    p.check('reach water balance: that product is below width times the squared tolerance', S.And(b1*p1 - b0*p0 <= (b0 + b1)*(t*t), b1*p1 - b0*p0 >= -((b0 + b1)*(t*t))))
def ends(p, closed):
    from pyvc.arr import isub
    from pyvc import sc
    S = p.S; r, rec = accepted(p, closed)
    if rec is None: return
    n1 = isub(r.n, 1); st = h, V, hp, Vp, dh, dV = state(r, rec); h0c, V0c, K = r.head()
    B = r.f(r.B.snap()); Q = r.f(r.Q.snap())(K); sea = r.f(r.sea.snap())(K); z = r.f(r.z.snap())
    unclamped(p, r, st, (0, n1))
    up = S.eq(*r.rowdiff(rec, 0)); p.assume(up)
    p.check('upstream discharge: the error is the product of the last corrections', S.eq((Vp(0) - dV(0))*B(0)*(hp(0) - dh(0)) - Q, B(0)*dh(0)*dV(0)), using=[up], extra=(sc.zi(0), sc.zi(n1)))
    dn = S.eq(*r.rowdiff(rec, 2*sc.zi(n1) + 1)); p.assume(dn)
    if closed: p.check('no water leaves downstream: what is left is the product of the last corrections', S.eq((Vp(n1) - dV(n1))*(hp(n1) - dh(n1)), dh(n1)*dV(n1)), using=[dn], extra=(sc.zi(n1),))
    else: p.check('the downstream level is the supplied sea level', S.eq(z(n1) + hp(n1) - dh(n1), sea), using=[dn], extra=(sc.zi(n1),))
    t, ((b0, p0), (b1, p1)) = bounded(p, r, st, (0, n1))
    p.check('upstream: that product is below width times the squared tolerance', S.And(b0*p0 <= b0*(t*t), b0*p0 >= -(b0*(t*t))))
    for A in (r.z, r.B, r.LA, r.LL, r.dx, r.Q, r.sea): p.unchanged(A)
def momentum(p, closed):
    """each correction solves the exact linearisation of the discrete momentum equation about the iterate"""
    from pyvc.arr import isub
    from pyvc.spec import Dual
    from pyvc import sc
    S = p.S; r, rec = accepted(p, closed)
    if rec is None: return
    n1 = isub(r.n, 1); st = h, V, hp, Vp, dh, dV = state(r, rec)
    h0c, V0c, K = r.head(); h0, V0 = r.f(h0c), r.f(V0c)
    converged(p, r, rec)
    k = p.eng.fresh('k', sc.I); p.assume(k >= 0); p.assume(k < sc.zi(n1)); k1 = k + 1
    for i in (k, k1): p.assume(Vp(i) > 0)          # forward flow
    rules = []
    for i in (k, k1):
        p.lemma('forward flow', Vp(i) >= 0); rules.append((Vp(i) >= 0, Fraction(1)))
        c = S.cbrt(hp(i)); p.lemma('cube of the cube root', S.eq(hp(i), c*c*c), extra=(i,)); rules.append((hp(i), c*c*c))
    row = S.eq(*r.rowdiff(rec, 2*k + 2)); p.assume(row)
    H, U = (lambda i: Dual(hp(i), dh(i))), (lambda i: Dual(Vp(i), dV(i)))
    R = Dual.of(r.momentum(k, H, U, h0, V0))
    p.check('the correction solves the exact linearisation of the momentum equation about the iterate', S.eq(R.d, R.v), using=[row], rules=rules, extra=(k, sc.zi(n1)))
def usable(p, closed):
    from pyvc import sc
    from pyvc.arr import ieq, isub
    S = p.S; r = Run(p, closed, raises=True); r.call(); kind, rec = r.last()
    h, V = p.cur(r.h), p.cur(r.V)
    p.check('every depth is positive', S.forall(0, r.n, lambda i: h[i] > 0))
    p.check('no velocity is zero', S.forall(0, r.n, lambda i: S.Not(S.eq(V[i], 0))))
    if kind == 'solve': converged(p, r, rec); return
    names = ['dx', 'z', 'B', 'n', 'Q', 'DsWl', 'NumericalPars']; a = dict(zip(names, rec['snaps'])); a.update(rec['kw'])
    last = isub(r.T, 1)
    from pyvc.spec import V as W
    for nm, A in (('dx', r.dx), ('z', r.z), ('B', r.B)):
        p.check('the steady profile is computed for this channel: ' + nm, S.forall(0, A.shape[0], lambda i: S.eq(W(a[nm]((i,))), r.f(A.snap())(i))))
    p.check('the steady profile is computed with the river roughness', S.eq(W(a['n']), r.P['RoughnessManning']))
    p.check('the steady profile is computed for the inflow of that step', S.eq(W(a['Q']), r.f(r.Q.snap())(last)))
    p.check('the steady profile is computed for the downstream level of that step', S.eq(W(a['DsWl']), r.f(r.sea.snap())(last)))
    p.check('an unconverged step leaves the steady profile with the caller', S.forall(0, r.n, lambda i: S.And(S.eq(h[i], W(rec['h']((i,)))), S.eq(V[i], W(rec['V']((i,)))))))
