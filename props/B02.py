"""Bedload by transect for output (riv.storeBedload)."""
LEVEL = 'proof'; BUDGET = 10
RULE = 'distinct (open, directions, numbers of online lagoon and outlet transects up to 4, overlap of lagoon and outlet transects) classes evaluated'

# ---- shared symbolic channel: river sections, online lagoon transects, outlet transects, two end sections
def chan_inputs(p, closed, rl=True, ro=True):
    """OnlineLagoon and OutletChanIx are runs of transects in either direction; ChanFlag as assembleChannel builds it"""
    from pyvc import sc
    from pyvc.arr import iadd, isub, imul, ilt, mk
    S = p.S; eng = p.eng
    T = p.size('NTransects', 1); nr = p.size('nr', 1); nl = p.size('nl', 1); no = 0 if closed else p.size('no', 1)
    def run(name, n, right):
        a = p.int(name + '_start'); last = a + (n-1) if right else a - (n-1)
        p.assume(sc.And(a >= 0, a < T, last >= 0, last < T))
        A = mk((n,), lambda i: iadd(a, i[0]) if right else isub(a, i[0]), 'i', name=name); A.buf.input = True
        inv = lambda j: (sc.And(ilt(-1, (isub(j, a) if right else isub(a, j))), ilt((isub(j, a) if right else isub(a, j)), n)), isub(j, a) if right else isub(a, j))
        A.inv = inv; A.invver = A.buf.version
        p.inputs[name] = ('arr', A, A.buf.content); return A, (lambda k: iadd(a, k) if right else isub(a, k)), (lambda j: isub(j, a) if right else isub(a, j)), a
    lag = run('OnlineLagoon', nl, rl)
    out = run('OutletChanIx', no, ro) if not closed else None
    n = nr + nl + (0 if closed else no + 2)
    def flag(i):
        k = sc.zi(i[0]); import z3
        if closed: return z3.If(k < nr, 0, 1)
        return z3.If(k < nr, 0, z3.If(k < nr+nl, 1, z3.If(k < nr+nl+no, 2, z3.If(k == nr+nl+no, 3, 4))))
    F = mk((sc.zi(n) if not isinstance(n, int) else n,), flag, 'i', name='ChanFlag'); F.buf.input = True; p.inputs['ChanFlag'] = ('arr', F, F.buf.content)
    return T, nr, nl, no, n, lag, out, F
def proof(closed, rl, ro):
    def f(p):
        from pyvc import sc
        from pyvc.arr import isub, ieq, iadd, inrange
        from pyvc.spec import V
        from fractions import Fraction
        S = p.S; T, nr, nl, no, n, lag, out, F = chan_inputs(p, closed, rl, ro); zero = V(Fraction(0))
        Q = p.arr('Bedload', isub(n, 1)); q = p.old(Q)
        import pyvc.nplib
        oc = out[0] if not closed else p.eng.np.f_empty(0)
        L, O, E = p.call('riv.storeBedload', Q, T, lag[0], oc, F, closed); l, o = p.cur(L), p.cur(O)
        p.check('one value per transect', sc.And(ieq(L.shape[0], T), ieq(O.shape[0], T)))
        m = isub(nl, 1) if closed else nl
        k = lag[2]
        p.check('lagoon bedload at its transect, zero elsewhere', S.forall(0, T, lambda j: S.eq(l[j], S.ite(inrange(k(j), 0, m), q[iadd(nr, k(j))], zero))))
        if closed:
            p.check('outlet bedload zero when closed', S.forall(0, T, lambda j: S.eq(o[j], zero)))
            p.check('outlet end bedload zero when closed', S.eq(V(E) if not hasattr(E, 'buf') else p.cur(E)[0], zero))
        else:
            ko = out[2]
            p.check('outlet bedload at its transect, zero elsewhere', S.forall(0, T, lambda j: S.eq(o[j], S.ite(inrange(ko(j), 0, no), q[iadd(iadd(nr, nl), ko(j))], zero))))
            p.check('outlet end bedload', sc.And(ieq(E.shape[0], 1), S.eq(p.cur(E)[0], q[iadd(iadd(nr, nl), no)])) if hasattr(E, 'buf') else S.eq(V(E), q[iadd(iadd(nr, nl), no)]))
        p.unchanged(Q)
    return f
PROOFS = [('riv.storeBedload (%s, lagoon %s, outlet %s)' % ('closed' if c else 'open', 'rightwards' if rl else 'leftwards', '-' if c else 'rightwards' if ro else 'leftwards'), proof(c, rl, ro), {})
          for c, rl, ro in ((True, True, True), (True, False, True), (False, True, True), (False, True, False), (False, False, True), (False, False, False))]

def gen(rng):
    import numpy as np
    closed = bool(rng.random() < .35); T = int(rng.integers(3, 14)); nr = int(rng.integers(1, 5))
    def run(m):
        k = int(rng.integers(1, m+1)); a = int(rng.integers(0, T-k+1)); r = np.arange(a, a+k); return r if rng.random() < .5 else r[::-1].copy()
    lag = run(min(5, T)); out = run(min(5, T)) if not closed else np.empty(0)
    fl = np.concatenate([np.full(nr, 0), np.full(lag.size, 1)] + ([np.full(out.size, 2), [3, 4]] if not closed else []))
    return dict(Q=rng.normal(size=fl.size-1), T=T, lag=lag, out=out, fl=fl, closed=closed)
def nontrivial(inp):
    l, o = inp['lag'], inp['out']
    d = lambda a: 0 if a.size < 2 else int(a[1] > a[0]) + 1
    return (inp['closed'], d(l), d(o), min(4, l.size), min(4, o.size), bool(set(l) & set(o)))
def evaluate(inp, S):
    import numpy as np, copy
    from hapuamod import riv
    i0 = copy.deepcopy(inp); bad = []; nr = int(np.sum(i0['fl'] == 0)); nl = i0['lag'].size
    L, O, E = riv.storeBedload(inp['Q'], inp['T'], inp['lag'], inp['out'], inp['fl'], inp['closed'])
    wl, wo = np.zeros(i0['T']), np.zeros(i0['T'])
    for k in range(nl - (1 if i0['closed'] else 0)): wl[i0['lag'][k]] = i0['Q'][nr+k]
    we = 0.0
    if not i0['closed']:
        for k in range(i0['out'].size): wo[i0['out'][k]] = i0['Q'][nr+nl+k]
        we = i0['Q'][nr+nl+i0['out'].size]
    if not np.array_equal(L, wl): bad.append(('lagoon bedload at its transect, zero elsewhere', '%r expected %r' % (np.asarray(L).tolist(), wl.tolist())))
    if not np.array_equal(O, wo): bad.append(('outlet bedload at its transect, zero elsewhere', '%r expected %r' % (np.asarray(O).tolist(), wo.tolist())))
    if np.asarray(E).size != 1 or float(np.asarray(E).flat[0]) != we: bad.append(('outlet end bedload', '%r expected %r' % (E, we)))
    for k in ('Q', 'lag', 'out', 'fl'):
        if not np.array_equal(inp[k], i0[k]): bad.append(('inputs are not modified', k))
    return bad
