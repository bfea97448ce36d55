"""the morphology step (mor.updateMorphology): generator of consistent states and the sediment budget written out transect by transect"""
import numpy as np, copy
from props.common import geometry, assemble

def state(rng, calm=None, **kw):
    """a valid geometry with the channel assembled from it and forcing rates; None when the channel cannot be assembled"""
    import pandas as pd
    from hapuamod import riv
    g = geometry(rng, **kw)
    if calm is None: calm = rng.random() < .6
    if calm:      # levels below every crest, nothing pinched
        g['WL'] = np.minimum(g['WL'], 1.8)
        g['OD'] = np.where(np.isnan(g['OD']), np.nan, np.minimum(g['OD'], 1.5))
    try: (cdx, ce, cw, la, ll, cd, cv, on, oc, fl, closed) = assemble(riv, copy.deepcopy(g))
    except (AssertionError, ValueError, IndexError): return None
    n = g['X'].size; ns = ce.size
    (WL, LV, OD, OV, ED, EV) = riv.storeHydraulics(cd, cv, on, oc, fl, g['Z'][:, 3], closed)
    if not calm:
        if rng.random() < .5:
            k = rng.integers(0, n, int(rng.integers(1, 4))); g['Z'][k, 0] = rng.uniform(1., 2.5, k.size)
        if rng.random() < .3: WL = WL + rng.uniform(0, 2.5)
    mag = 10**rng.uniform(-6, -1.5)
    bed = rng.uniform(0, 1, ns-1)*mag*(1 if rng.random() < .8 else -.5)
    if rng.random() < .2: bed[:] = mag
    if rng.random() < .1: bed[:] = 0
    lst = rng.normal(0, 1, n-1)*10**rng.uniform(-5, -1.5)
    if rng.random() < .2: lst[:] = lst[0]
    if rng.random() < .1: lst[:] = 0
    cst = np.where(rng.random(n) < .6, 0., rng.random(n))*10**rng.uniform(-7, -3)
    owp = rng.random(n) < .4
    mmin = float(rng.choice([1., 5., 10., 15.])); mmax = mmin*float(rng.choice([1, 4, 60, 360]))
    if rng.random() < .08: mmax = 86400.*2
    mdt = min(mmax, mmin*2.0**int(rng.integers(0, 8)))
    if rng.random() < .15: mdt = float(rng.choice([7., 13., 3., mmin*.5]))
    d = dict(X=g['X'], Y=g['Y'], Z=g['Z'], E=g['E'], EW=g['EW'], EE=g['EE'], riv=g['riv'], on=on, oc=oc, WL=WL, OD=OD, cw=cw, cd=cd, cdx=cdx, fl=fl, closed=bool(closed),
             LST=lst, bed=bed, CST=cst, OW=owp, MorDt=pd.Timedelta(seconds=mdt), P=g['P'], T=dict(MorDtMin=pd.Timedelta(seconds=mmin), MorDtMax=pd.Timedelta(seconds=mmax)),
             N=dict(Dx=g['dx'], MaxMorChange=float(rng.choice([.01, .05, .25]))))
    return d if valid(d) else None

def step(d):
    from hapuamod import mor
    return mor.updateMorphology(d['X'], d['Y'], d['Z'], d['E'], d['EW'], d['EE'], d['riv'], d['on'], d['oc'], d['WL'], d['OD'], d['cw'], d['cd'], d['cdx'], d['fl'], d['closed'],
                                d['LST'], d['bed'], d['CST'], d['OW'], d['MorDt'], d['P'], d['T'], d['N'])
def valid(d):
    """well-formed barrier (the invariant M03 keeps) before the step"""
    Y, Z = d['Y'], d['Z']; p = ~np.isnan(Y[:, 1])
    crest = np.where(p, Y[:, 0]-Y[:, 1], Y[:, 0]-Y[:, 3])
    return bool((crest > 0).all() and (Y[:, 0] > Y[:, 4]).all())

def rates(d):
    """rate of change of every position and level from its own sediment budget"""
    X, Y, Z, E, P, Dx = d['X'], d['Y'], d['Z'], d['E'], d['P'], d['N']['Dx']; n = X.size
    bed, fl, cw, cd = d['bed'], d['fl'], d['cw'], d['cd']; ns = fl.size; closed = d['closed']
    dY, dZ, dR = np.zeros((n, 5)), np.zeros((n, 4)), []
    wid = xm = agg = 0.0
    il = io = 0
    present = [not np.isnan(Y[i, 1]) for i in range(n)]
    H = [P['ClosureDepth'] + Z[i, 0] for i in range(n)]
    for s in range(1, ns if closed else ns-1):
        vol = bed[s-1] - (bed[s] if s < ns-1 else 0.0)
        dep, ero = max(vol, 0.), max(-vol, 0.)
        wide = cw[s]/cd[s] > P['WidthDepthRatio']; eb, ek = (ero, 0.) if wide else (0., ero)
        if fl[s] == 0: dR.append(vol/(P['RiverWidth']*Dx))
        elif fl[s] == 1:
            i = int(d['on'][il]); il += 1
            dZ[i, 3] += (dep-eb)/((Y[i, 3]-Y[i, 4])*Dx)
            top = Z[i, 2] if present[i] else Z[i, 0]
            dY[i, 3] += ek/2/((top-Z[i, 3])*Dx); dY[i, 4] -= ek/2/((P['BackshoreElev']-Z[i, 3])*Dx)
        elif fl[s] == 2:
            i = int(d['oc'][io]); io += 1
            dZ[i, 1] += (dep-eb)/((Y[i, 1]-Y[i, 2])*Dx)
            dY[i, 1] += ek/2/((Z[i, 0]-Z[i, 1])*Dx); dY[i, 2] -= ek/2/((Z[i, 2]-Z[i, 1])*Dx)
        elif fl[s] == 3:
            agg = (dep-eb)/(float(d['EW'])*Dx)
            wid += ek/((P['BeachTopElev']-float(d['EE']))*P['SpitWidth'])
            sgn = 1 if E[0] < E[1] else (-1 if E[0] > E[1] else 0)
            xm += sgn*wid/2*P['OutletBankEroFac']
    for i in range(1, n-1): dY[i, 0] += (d['LST'][i-1]-d['LST'][i])/(H[i]*Dx) - d['CST'][i]/H[i]
    if not closed:
        for i in range(n):
            dY[i, 0] += Dx*bed[-1]/P['OutletSedSpreadDist']*max(1-abs(X[i]-E[1])/P['OutletSedSpreadDist'], 0.)/(H[i]*Dx)
        rb = min(i for i in range(n) if X[i] > E[1]); q = d['LST'][rb-1]
        fill = abs(q)/((P['BeachTopElev']-float(d['EE']))*P['SpitWidth']); wid -= fill
        if q > 0: dY[rb, 0] -= q/(H[rb]*Dx); xm += fill/2
        else: dY[rb-1, 0] -= -q/(H[rb-1]*Dx); xm -= fill/2
    for i in range(n):
        w = Y[i, 0]-Y[i, 1] if present[i] else Y[i, 0]-Y[i, 3]
        dZ[i, 0] += (1-d['OW'][i])*d['CST'][i]/w
        if present[i]: dY[i, 1] -= d['OW'][i]*d['CST'][i]/(Z[i, 0]-Z[i, 1])
        else: dY[i, 3] -= d['OW'][i]*d['CST'][i]/(Z[i, 0]-Z[i, 3])
    dY[0, 0] = dY[-1, 0] = -P['ShorelineErosionRate']/(365.25*86400)
    return dY, dZ, np.array(dR), wid, agg, xm

def fastest(d, r):
    dY, dZ, dR, wid, agg, xm = r
    v = [np.abs(dR).max() if dR.size else 0., np.nanmax(np.abs(dY)), np.nanmax(np.abs(dZ)), abs(wid), abs(agg), abs(xm)]
    return float(max(v))
def timestep(d, R):
    """(adapted step in s, decided clear of every threshold)"""
    t, lo, hi, M = d['MorDt'].total_seconds(), d['T']['MorDtMin'].total_seconds(), d['T']['MorDtMax'].total_seconds(), d['N']['MaxMorChange']
    clear = True
    near = lambda a, b: abs(a-b) <= 1e-7*max(abs(a), abs(b))
    while True:
        if near(R*t, M): clear = False
        if t > lo and R*t > M: t /= 2
        else: break
    while True:
        if near(R*t, M/2): clear = False
        if t < hi and R*t < M/2: t *= 2
        else: break
    return t, clear
def expected(d, t, r, lim=None):
    dY, dZ, dR, wid, agg, xm = r
    c = (lambda a: a) if lim is None else (lambda a: np.minimum(np.maximum(a, -lim), lim))
    e = copy.deepcopy(d)
    e['riv'][1:] += c(dR)*t; e['Y'] += c(dY)*t; e['Z'] += c(dZ)*t
    if not d['closed']:
        e['EW'] = np.asarray(float(e['EW']) + c(wid)*t); e['EE'] = np.asarray(float(e['EE']) + c(agg)*t); e['E'][1] += c(xm)*t
    return e
def quiet(d, e, eps=1e-6, breach=False):
    """no topology adjustment is due in state e reached from d (clear of thresholds by eps); breach=True: none but a breach"""
    X, Y, Z, E, P = e['X'], e['Y'], e['Z'], e['E'], e['P']; n = X.size
    p = ~np.isnan(Y[:, 1]); x0 = int(np.flatnonzero(X == 0)[0])
    if not (Y[:, 0] > Y[:, 4]+eps).all() or not (breach or (Y[:, 0] > Y[:, 3]+eps).all()): return False
    if not (Y[p, 1] > Y[p, 2]+eps).all() or not (Y[p, 2] > Y[p, 3]+eps).all(): return False
    if not ((Y[:, 1] < Y[:, 0]-eps) | ~p | (breach and d['closed'])).all(): return False
    if Y[x0, 3]-Y[x0, 4] < P['MinOutletWidth']+eps: return False
    if not (X[1]+eps < E[1] < X[-2]-eps): return False
    if not d['closed']:
        last = int(d['oc'][-1])
        if E[0] < E[1] and E[1] > X[last+1]-eps: return False
        if not E[0] < E[1] and E[1] < X[last-1]+eps: return False
        if abs(E[1]-E[0]) < eps or (d['E'][0] < d['E'][1]) != (E[0] < E[1]): return False
        if any(X[i] - eps <= E[1] <= X[i] + eps for i in range(n)): pass
    if breach: return True
    crest = np.where(p, np.minimum(Z[:, 0], np.where(p, Z[:, 2], 99)), Z[:, 0])
    w = np.full(n, -9999.); lag = d['Y'][:, 3] > d['Y'][:, 4]; w[lag] = d['WL'][lag]
    if not d['closed']:
        for i in d['oc']: w[i] = d['OD'][i] + d['Z'][i, 1]
    if w.max() > crest.min()-eps: return False
    return True
SAME = ['X', 'on', 'oc', 'WL', 'OD', 'cw', 'cd', 'cdx', 'fl', 'LST', 'bed', 'CST', 'OW']
def untouched(d0, d):
    bad = [k for k in SAME if not np.array_equal(np.asarray(d0[k], float), np.asarray(d[k], float), equal_nan=True)]
    return bad + [k for k in ('P', 'N', 'T') if d0[k] != d[k]]
