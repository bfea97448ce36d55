"""Storing channel hydraulics by transect, and reassembling (riv.storeHydraulics, riv.assembleChannel)."""
from props.common import geometry, assemble
LEVEL = 'proof'; BUDGET = 20
RULE = 'distinct (scatter or round trip, open, directions, numbers of online transects up to 3, overlap of lagoon and outlet transects) classes evaluated'
def proof_store(closed, rl, ro):
    def f(p):
        from props.B02 import chan_inputs
        from pyvc import sc
        from pyvc.arr import isub, ieq, iadd, inrange
        from pyvc.spec import V
        S = p.S; T, nr, nl, no, n, lag, out, F = chan_inputs(p, closed, rl, ro)
        D, U, Z = p.arr('ChanDep', n), p.arr('ChanVel', n), p.arr('LagoonElev', T); d, u, z = p.old(D), p.old(U), p.old(Z)
        oc = out[0] if not closed else p.eng.np.f_empty(0)
        r = [p.cur(a) for a in p.call('riv.storeHydraulics', D, U, lag[0], oc, F, Z, closed)]
        WL, LV, OD, OV, ED, EV = r; NAN = V(sc.NAN)
        for nm, a in zip(('lagoon level', 'lagoon velocity', 'outlet depth', 'outlet velocity'), r): p.check('%s: one value per transect' % nm, ieq(a.shape[0], T))
        for nm, a in (('depth', ED), ('velocity', EV)): p.check('outlet end %s: two values' % nm, ieq(a.shape[0], 2))
        k = lag[2]; on = lambda j: inrange(k(j), 0, nl)
        a, b = lag[3], lag[1](isub(nl, 1)); lo, hi = (a, b) if rl else (b, a)
        lev = lambda j: z[j] + d[iadd(nr, k(j))]
        p.check('lagoon level is bed plus depth on online transects', S.forall(lo, iadd(hi, 1), lambda j: S.eq(WL[j], lev(j))))
        p.check('lagoon level continues the nearest online level', S.forall(0, lo, lambda j: S.eq(WL[j], lev(lo))))
        p.check('lagoon level continues the nearest online level', S.forall(iadd(hi, 1), T, lambda j: S.eq(WL[j], lev(hi))))
        p.check('lagoon velocity at its transect, missing elsewhere', S.forall(0, T, lambda j: S.eq(LV[j], S.ite(on(j), u[iadd(nr, k(j))], NAN))))
        if closed:
            p.check('no outlet depth or velocity when closed', S.forall(0, T, lambda j: S.And(S.isnan(OD[j]), S.isnan(OV[j]))))
            for q in (0, 1): p.check('no outlet end depth or velocity when closed', S.And(S.isnan(ED[q]), S.isnan(EV[q])))
        else:
            ko = out[2]; oo = lambda j: inrange(ko(j), 0, no); m = iadd(nr, nl)
            p.check('outlet depth at its transect, missing elsewhere', S.forall(0, T, lambda j: S.eq(OD[j], S.ite(oo(j), d[iadd(m, ko(j))], NAN))))
            p.check('outlet velocity at its transect, missing elsewhere', S.forall(0, T, lambda j: S.eq(OV[j], S.ite(oo(j), u[iadd(m, ko(j))], NAN))))
            for q in (0, 1): p.check('outlet end depth and velocity', S.And(S.eq(ED[q], d[iadd(iadd(m, no), q)]), S.eq(EV[q], u[iadd(iadd(m, no), q)])))
        for x in (D, U, Z): p.unchanged(x)
    return f
PROOFS = [('riv.storeHydraulics (%s, lagoon %s, outlet %s)' % ('closed' if c else 'open', 'rightwards' if rl else 'leftwards', '-' if c else 'rightwards' if ro else 'leftwards'), proof_store(c, rl, ro), {})
          for c, rl, ro in ((True, True, True), (True, False, True), (False, True, True), (False, True, False), (False, False, True), (False, False, False))]
def gen(rng):
    import numpy as np
    if rng.random() < .4:
        g = geometry(rng, closed=False, pinch=0.) if rng.random() < .8 else geometry(rng)
        return dict(kind='trip', g=g, seed=int(rng.integers(1 << 30)))
    closed = bool(rng.random() < .35); T = int(rng.integers(3, 14)); nr = int(rng.integers(1, 5))
    def run(m):
        k = int(rng.integers(1, m+1)); a = int(rng.integers(0, T-k+1)); r = np.arange(a, a+k); return r if rng.random() < .5 else r[::-1].copy()
    lag = run(min(5, T)); out = run(min(5, T)) if not closed else np.empty(0)
    fl = np.concatenate([np.full(nr, 0), np.full(lag.size, 1)] + ([np.full(out.size, 2), [3, 4]] if not closed else []))
    return dict(kind='store', h=rng.uniform(.01, 5, fl.size), V=rng.normal(size=fl.size), lag=lag, out=out, fl=fl, closed=closed, z=rng.uniform(-3, 2, T))
def nontrivial(inp):
    d = lambda a: 0 if a.size < 2 else int(a[1] > a[0]) + 1
    if inp['kind'] == 'store':
        l, o = inp['lag'], inp['out']; return ('store', inp['closed'], d(l), d(o), min(3, l.size), min(3, o.size), bool(set(l) & set(o)))
    g = inp['g']; return ('trip', g['closed'], bool(g['E'][0] > 0), bool(g['E'][0] < g['E'][1]))
def evaluate(inp, S):
    import numpy as np, copy
    from hapuamod import riv
    bad = []; i0 = copy.deepcopy(inp)
    if inp['kind'] == 'store':
        h, V, lag, out, fl, z, closed = [i0[k] for k in ('h', 'V', 'lag', 'out', 'fl', 'z', 'closed')]
        r = riv.storeHydraulics(inp['h'], inp['V'], inp['lag'], inp['out'], inp['fl'], inp['z'], closed)
        nr = int((fl == 0).sum()); T = z.size; nan = np.full(T, np.nan)
        WL, LV, OD, OV = nan.copy(), nan.copy(), nan.copy(), nan.copy(); ED, EV = [np.nan]*2, [np.nan]*2
        for k, i in enumerate(lag): WL[i] = z[i] + h[nr+k]; LV[i] = V[nr+k]
        WL[:min(lag)] = WL[min(lag)]; WL[max(lag)+1:] = WL[max(lag)]
        if not closed:
            b = nr + lag.size
            for k, i in enumerate(out): OD[i] = h[b+k]; OV[i] = V[b+k]
            b += out.size; ED, EV = h[b:b+2], V[b:b+2]
        for nm, got, want in zip(('lagoon level', 'lagoon velocity', 'outlet depth', 'outlet velocity', 'outlet end depth', 'outlet end velocity'), r, (WL, LV, OD, OV, ED, EV)):
            got, want = np.asarray(got), np.asarray(want)
            if got.shape != want.shape: bad.append(('%s: one value per transect' % nm, '%r expected %r' % (got.shape, want.shape))); continue
            for k in range(want.size):
                if not S.eq(got[k], want[k]): bad.append(('%s at its transect, missing elsewhere' % nm, 'transect %d: %r expected %r' % (k, got[k], want[k])))
        for k in ('h', 'V', 'lag', 'out', 'fl', 'z'):
            if not np.array_equal(inp[k], i0[k]): bad.append(('inputs are not modified', k))
        return bad
    g = inp['g']; rng = np.random.default_rng(inp['seed'])
    r = assemble(riv, g); on, oc, fl, cl = r[7], r[8], r[9], bool(r[10])
    if cl: return bad
    h, V = rng.uniform(.05, 5, fl.size), rng.uniform(-1, 3, fl.size)
    s = riv.storeHydraulics(h.copy(), V.copy(), on, oc, fl, g['Z'][:, 3], cl)
    nr = g['riv'].size
    g2 = dict(g, rdep=h[:nr].copy(), rvel=V[:nr].copy(), WL=s[0], LV=s[1], OD=s[2], OV=s[3], ED=s[4], EV=s[5])
    r2 = assemble(riv, g2)
    for nm, got, want in (('depths', r2[5], h), ('velocities', r2[6], V)):
        got = np.asarray(got)
        if got.shape != want.shape or not all(S.close(a, b, 5.) for a, b in zip(got, want)):
            bad.append(('reassembling the stored values gives back the %s' % nm, '%r expected %r' % (got.tolist(), want.tolist())))
    return bad
