"""The assembled channel (riv.assembleChannel)."""
from props.common import geometry, assemble, online
LEVEL = "exploration"; BUDGET = 20
RULE = 'distinct (side of the outlet, orientation, closed before/after, lagoon pinched, number of online lagoon transects up to 3, missing depths/velocities filled) classes evaluated'
def proof(case):
    def f(p):
        from props import chanproof as C
        from pyvc import sc
        from pyvc.sc import And, Or, Not, Implies
        from pyvc.arr import iadd, isub, ieq, ilt, ile, inrange
        from pyvc.spec import V
        g = C.setup(p, case); C.fork_outlet(p, g); S = p.S; eng = p.eng
        C.river_lagoon(p, g)
        n, nr, noc, z, y, P = g.non, g.nr, g.noc, g.z, g.y, g.P
        if not g.ob: p.check('mouth closed exactly when it was or a width is below the minimum', g.closed is True)
        m = iadd(nr, n); N = m if g.closed else iadd(iadd(m, noc), 2)
        fl, el, wi, de, ve, dx = [p.cur(a) for a in (g.flag, g.elev, g.width, g.dep, g.vel, g.dx)]
        for nm, a in (('flags', fl), ('bed levels', el), ('widths', wi), ('depths', de), ('velocities', ve)): p.check('%s: one per section' % nm, ieq(a.shape[0], N))
        p.check('spacing: one shorter', ieq(dx.shape[0], isub(N, 1)))
        riv = lambda f: S.forall(0, nr, f); lag = lambda f: S.forall(0, n, lambda k: f(k, iadd(nr, k), g.at(k))); out = lambda f: S.forall(0, noc, lambda k: f(k, iadd(m, k), g.oat(k)))
        p.check('type flags', riv(lambda k: ieq(fl[k], 0))); p.check('type flags', lag(lambda k, s, i: ieq(fl[s], 1)))
        p.check('bed levels of the river', riv(lambda k: S.eq(el[k], g.re[k]))); p.check('bed levels of the lagoon', lag(lambda k, s, i: S.eq(el[s], z[i, 3])))
        p.check('widths of the river', riv(lambda k: S.eq(wi[k], P['RiverWidth']))); p.check('widths of the lagoon', lag(lambda k, s, i: S.eq(wi[s], g.lw(i))))
        ini_d = [riv(lambda k: S.eq(de[k], g.rd[k])), lag(lambda k, s, i: S.eq(de[s], g.wl[i] - z[i, 3]))]
        for t in ini_d: p.check('stored depths are kept', t)
        keepv = lambda s, v: Or(S.isnan(v), S.eq(ve[s], v))
        p.check('stored velocities are kept', S.forall(0, isub(m, 1) if g.closed else m, lambda s: Or(And(ilt(s, nr), S.eq(ve[s], g.rv[s])), And(ile(nr, s), keepv(s, g.lv[g.at(isub(s, nr))])))))
        if g.closed:
            p.check('a closed channel has zero end velocity', S.eq(ve[isub(m, 1)], C._zero()))
            p.check('closed: no outlet sections', ieq(p.cur(g.oc).shape[0], 0))
            p.check('spacing between sections', S.forall(0, isub(N, 1), lambda k: S.eq(dx[k], g.step)))
        else:
            oc = p.cur(g.oc)
            p.check('online outlet transects run from lagoon to sea', ieq(oc.shape[0], noc)); p.check('online outlet transects run from lagoon to sea', S.forall(0, noc, lambda k: ieq(oc[k], g.oat(k))))
            p.check('type flags', out(lambda k, s, i: ieq(fl[s], 2)))
            e = iadd(m, noc)
            p.check('type flags', And(ieq(fl[e], 3), ieq(fl[iadd(e, 1)], 4)))
            p.check('bed levels of the outlet', out(lambda k, s, i: S.eq(el[s], z[i, 1]))); p.check('bed levels of the outlet end', And(S.eq(el[e], g.ee), S.eq(el[iadd(e, 1)], S.min(P['MaxOutletElev'], g.ee))))
            p.check('widths of the outlet', out(lambda k, s, i: S.eq(wi[s], y[i, 1] - y[i, 2]))); p.check('widths of the outlet end', And(S.eq(wi[e], g.ew), S.eq(wi[iadd(e, 1)], g.ew)))
            p.check('stored depths are kept', out(lambda k, s, i: Or(S.isnan(g.od[i]), S.eq(de[s], g.od[i])))); p.check('stored velocities are kept', out(lambda k, s, i: keepv(s, g.ov[i])))
            for q in (0, 1): p.check('stored end values are kept', And(Or(S.isnan(g.ed[q]), S.eq(de[iadd(e, q)], g.ed[q])), keepv(iadd(e, q), g.ev[q])))
            p.check('spacing between sections', S.forall(0, isub(e, 1), lambda k: S.eq(dx[k], g.step))); p.check('spacing to the section in the sea', S.eq(dx[e], g.step))
            # the distance from the last outlet transect to the outlet end; transects are one spacing apart, X = 0 at the river
            X = lambda i: V(g.X(i)); d = lambda i: V(sc.zr(sc.tofloat(isub(i, g.x0))))*g.step
            p.assume(And(S.eq(X(g.b), d(g.b)), S.eq(X(iadd(g.b, 1)), d(g.b) + g.step), S.eq(X(isub(g.b, 1)), d(g.b) - g.step)))
            p.check('spacing to the outlet end', S.eq(dx[isub(e, 1)], g.step + S.abs(g.e1 - X(g.b))))
        p.check('all depths and velocities are defined', S.forall(0, N, lambda k: And(Not(S.isnan(de[k])), Not(S.isnan(ve[k])))))
        for A in g.ins: p.unchanged(A)
    return f
def proofs():
    from props import chanproof as C
    return [(C.name(c), proof(c), {'fork': True}) for c in C.CASES]
PROOFS = []   # proofs()
def gen(rng): return dict(g=geometry(rng))
def nontrivial(inp):
    import numpy as np
    g = inp['g']; lag, chan, closed, right, pin, ob = online(g)
    return (float(np.sign(g['E'][0])), bool(g['E'][0] < g['E'][1]), g['closed'], closed, bool(pin), min(3, len(lag)), min(3, len(chan)), bool(np.isnan(g['OD'][chan]).any()) if chan else False, bool(np.isnan(g['LV'][lag]).any()))
def fill(v, w=None):
    """NaN entries replaced by straight-line interpolation in section number between defined neighbours"""
    import numpy as np
    ok = [k for k in range(len(v)) if not np.isnan(v[k])]; out = list(v)
    for k in range(len(v)):
        if np.isnan(v[k]):
            lo = [j for j in ok if j < k]; hi = [j for j in ok if j > k]
            if not lo: out[k] = v[hi[0]]
            elif not hi: out[k] = v[lo[-1]]
            else: a, b = lo[-1], hi[0]; out[k] = v[a] + (v[b]-v[a])*(k-a)/(b-a)
    return out
def evaluate(inp, S):
    import numpy as np, copy
    from hapuamod import riv
    g = inp['g']; g0 = copy.deepcopy(g); bad = []
    X, Y, Z, E, P, dx = g0['X'], g0['Y'], g0['Z'], g0['E'], g0['P'], g0['dx']
    nanE = np.isnan(E[0])
    r = assemble(riv, g)
    (Cdx, Ce, Cw, La, Ll, Cd, Cv, on, oc, fl, cl) = r
    lag, chan, closed, right, pin, ob = online(g0)
    if bool(cl) != closed: return [('mouth closed exactly when it was or a width is below the minimum', 'closed=%r expected %r' % (cl, closed))]
    on = [int(i) for i in on]
    if nanE and on != lag:
        g1 = copy.deepcopy(g0); g1['E'][0] = 1.0; lag = online(g1)[0]
    if on != lag: return [('online lagoon transects walk from the river to the outlet', '%r expected %r' % (on, lag))]
    if not closed and [int(i) for i in oc] != chan: return [('online outlet transects run from lagoon to sea', '%r expected %r' % (list(oc), chan))]
    R = g0['riv'].size; nsec = R + len(lag) + (len(chan)+2 if not closed else 0)
    wf = [0]*R + [1]*len(lag) + ([2]*len(chan) + [3, 4] if not closed else [])
    lw = Y[:, 3]-Y[:, 4]
    we = list(g0['riv']) + [Z[i, 3] for i in lag]; ww = [P['RiverWidth']]*R + [lw[i] for i in lag]
    wd = list(g0['rdep']) + [g0['WL'][i]-Z[i, 3] for i in lag]; wv = list(g0['rvel']) + [g0['LV'][i] for i in lag]
    wx = [dx]*(nsec-1)
    if not closed:
        ew, ee = float(g0['EW']), float(g0['EE'])
        we += [Z[i, 1] for i in chan] + [ee, min(P['MaxOutletElev'], ee)]; ww += [Y[i, 1]-Y[i, 2] for i in chan] + [ew, ew]
        wd += [g0['OD'][i] for i in chan] + list(g0['ED']); wv += [g0['OV'][i] for i in chan] + list(g0['EV'])
        wx[-2] = dx + abs(E[1]-X[chan[-1]])
    else: wv[-1] = 0.0
    missing = [k for k in range(nsec) if np.isnan(wd[k])]; missv = [k for k in range(nsec) if np.isnan(wv[k])]
    wd = fill(wd)
    q = fill([wd[k]*wv[k] for k in range(nsec)])
    wv = [wv[k] if k not in missv else q[k]/wd[k] for k in range(nsec)]
    for nm, got, want in (('type flags', fl, wf), ('bed levels', Ce, we), ('widths', Cw, ww), ('depths', Cd, wd), ('velocities', Cv, wv), ('spacing', Cdx, wx)):
        got = np.asarray(got)
        if got.shape != (len(want),): bad.append(('%s: one per section (spacing one shorter)' % nm, '%r expected %d' % (got.shape, len(want))))
        else:
            for k in range(len(want)):
                if not S.close(got[k], want[k], 1.0): bad.append(('%s refer to their section' % nm, 'section %d: %r expected %r' % (k, got[k], want[k])))
    if any(lw[i] <= 0 for i in on): bad.append(('online lagoon widths are positive', ''))
    for k in g:
        if k == 'P':
            if g[k] != g0[k]: bad.append(('no input is modified', k))
        elif not np.array_equal(np.asarray(g[k], float), np.asarray(g0[k], float), equal_nan=True): bad.append(('no input is modified', k))
    return bad
