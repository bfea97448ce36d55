"""shared generators of valid model states (numpy only) and shared contract pieces"""
import numpy as np

def phys(rng=None):
    g = 9.81
    p = dict(Gravity=g, RhoSed=2650., RhoSea=1025., RhoRiv=1000., VoidRatio=.4, GrainSize=.018, GrainRoughness=.035, CritShieldsStress=.0495, MPM_coef=3.97, MPM_exp=1.5,
             RiverWidth=100., RoughnessManning=.04, WidthDepthRatio=30., BackshoreElev=10., MaxOutletElev=-2., OT_coef=.00015, OT_exp=2., BeachTopElev=2., SpitWidth=10.,
             MinOutletWidth=1., OutletSedSpreadDist=100., OutletBankEroFac=.5, BarrierPermeability=.001, ClosureDepth=5., BeachSlope=.13, ShorelineErosionRate=0., WaveDataDepth=10.,
             BreakerCoef=8.0/(1025*g**1.5*.25), K2coef=.017/((2650-1025)*g*.6), GammaRatio=.5, BarRatSlope=.05, BarRatInt=1.)
    if rng is not None:
        p.update(RiverWidth=float(rng.choice([20., 70., 100.])), MinOutletWidth=float(rng.choice([.5, 1., 3.])), MaxOutletElev=float(rng.choice([-2., -1., .5])), SpitWidth=float(rng.choice([4., 10.])),
                 OutletBankEroFac=float(rng.choice([.5, 1., .2])), OutletSedSpreadDist=float(rng.choice([30., 100., 250.])), WidthDepthRatio=float(rng.choice([5., 30., 80.])),
                 ShorelineErosionRate=float(rng.choice([0., 0., .5])), ClosureDepth=float(rng.choice([5., 8.])), BackshoreElev=float(rng.choice([8., 10.])), BeachTopElev=float(rng.choice([2., 3.])))
    return p

def geometry(rng, closed=None, pinch=.25, relic=.3, gaps=.3, nmax=9, wide=False):
    """a valid model state: see the class invariant in DESIGN.md"""
    P = phys(rng)
    dx = float(rng.choice([5., 10., 20.]))
    nl, nr = int(rng.integers(3, nmax)), int(rng.integers(3, nmax))
    X = np.arange(-nl, nr+1)*dx; n = X.size; x0 = nl
    mw = P['MinOutletWidth']
    Y = np.full((n, 5), np.nan); Z = np.full((n, 4), np.nan)
    Y[:, 4] = rng.normal(0, 3, n) - 60
    lag = rng.uniform(2*mw, 50, n)
    Y[:, 3] = Y[:, 4] + lag
    Y[:, 0] = Y[:, 3] + rng.uniform(40, 90, n)
    Z[:, 0] = rng.uniform(2.5, 5, n); Z[:, 3] = rng.uniform(-2.5, -.2, n)
    if closed is None: closed = bool(rng.random() < .3)
    # outlet start on a transect, end anywhere inside the domain
    lo, hi = 1, n-2
    s = int(rng.choice([x0, rng.integers(lo, hi+1)]))
    e = int(rng.integers(lo, hi+1))
    ex = X[e] + (dx*rng.choice([0., .5, rng.uniform(0, 1)]) if e < hi else 0.)
    if rng.random() < .3: ex = X[s] + dx*rng.choice([0., .3, -.3])
    ex = float(min(max(ex, X[1]), X[-2]))
    E = np.array([X[s], ex])
    a, b = min(E), max(E)
    chan = np.flatnonzero((X >= a) & (X <= b))
    if E[0] >= E[1]: chan = chan[::-1]
    on = np.zeros(n, bool); on[chan] = True
    away = -1 if E[0] >= 0 else 1
    # lagoon ends somewhere; anywhere off the flow path it may vanish
    onl = np.zeros(n, bool)
    step = 1 if s >= x0 else -1
    onl[[x0] + list(range(x0, s, step))] = True
    if rng.random() < .7:
        L, R = int(rng.integers(0, x0+1)), int(rng.integers(x0, n))
        z = np.ones(n, bool); z[L:R+1] = False
        z[onl] = False
        Y[z, 3] = Y[z, 4]
    if rng.random() < gaps:
        k = rng.integers(0, n, int(rng.integers(1, 3)))
        k = k[(k != x0)]
        w = rng.choice([0., .5*mw, .9*mw, 1.5*mw], k.size)
        if not closed and rng.random() < .6: k = k[~onl[k]]; w = w[:k.size]
        Y[k, 3] = Y[k, 4] + w
    # channels
    present = on.copy()
    if closed and rng.random() < .4: present[:] = False
    if rng.random() < relic:
        r0 = int(rng.integers(0, n)); r1 = min(n, r0 + int(rng.integers(1, 4))); present[r0:r1] = True
    if closed and rng.random() < .5: present[on] = rng.random(on.sum()) < .8
    k = np.flatnonzero(present)
    w = rng.uniform(2*mw, 15, k.size)
    Y[k, 1] = Y[k, 0] - rng.uniform(5, 12, k.size); Y[k, 2] = Y[k, 1] - w
    Z[k, 1] = rng.uniform(-2.5, 0, k.size); Z[k, 2] = rng.uniform(2.2, 5, k.size)
    offl = [i for i in k if not on[i] or closed]
    for i in offl:
        if rng.random() < .4: Y[i, 2] = Y[i, 1] - rng.choice([0., .5*mw, mw, 1.2*mw])
    ew = float(rng.uniform(2*mw, 40))
    if not closed and rng.random() < pinch:
        if rng.random() < .3: ew = float(rng.choice([.5*mw, .99*mw, 0., -.1]))
        else:
            i = int(rng.choice(chan)); Y[i, 2] = Y[i, 1] - rng.choice([0., .5*mw, .99*mw])
        if rng.random() < .15: ew = mw
    if closed and rng.random() < .3: E = np.array([np.nan, E[1]])
    # hydraulics
    nriv = int(rng.integers(2, 6))
    riv = np.sort(rng.uniform(-1, 3, nriv))[::-1].copy()
    WL = Z[:, 3] + rng.uniform(.3, 3, n)
    LV = np.full(n, np.nan); OD = np.full(n, np.nan); OV = np.full(n, np.nan)
    o = np.flatnonzero(onl); LV[o] = rng.uniform(-1, 2, o.size)
    if rng.random() < .4 and o.size > 1: LV[rng.choice(o)] = np.nan
    if not closed:
        OD[chan] = rng.uniform(.3, 3, chan.size); OV[chan] = rng.uniform(-1, 2, chan.size)
        if rng.random() < .4: i = int(rng.choice(chan)); OD[i] = OV[i] = np.nan
        if rng.random() < .2: i = int(rng.choice(chan)); OV[i] = np.nan
        ED, EV = rng.uniform(.3, 3, 2), rng.uniform(-1, 2, 2)
        if rng.random() < .15: ED[:] = np.nan; EV[:] = np.nan
    else: ED, EV = np.full(2, np.nan), np.full(2, np.nan)
    return dict(X=X, Y=Y, Z=Z, E=E, EW=np.asarray(ew), EE=np.asarray(float(rng.uniform(-2.5, 0))), closed=bool(closed), dx=dx, riv=riv, rdep=rng.uniform(.3, 3, nriv), rvel=rng.uniform(-.5, 2, nriv),
                WL=WL, LV=LV, OD=OD, OV=OV, ED=ED, EV=EV, P=P)

def assemble(riv, g):
    return riv.assembleChannel(g['X'], g['Y'], g['Z'], g['E'], g['EW'], g['EE'], g['closed'], g['riv'], g['rdep'], g['rvel'], g['WL'], g['LV'], g['OD'], g['OV'], g['ED'], g['EV'], g['dx'], g['P'])

def online(g):
    """specification of the flow path: (online lagoon transects, outlet transects, closed, side, pinched list)"""
    X, Y, E, P = g['X'], g['Y'], g['E'], g['P']; mw = P['MinOutletWidth']; n = X.size
    x0 = int(np.flatnonzero(X == 0)[0]); closed = g['closed']; lw = Y[:, 3]-Y[:, 4]
    chan = []
    if not closed:
        a, b = min(E), max(E)
        chan = [i for i in range(n) if a <= X[i] <= b]
        if not E[0] < E[1]: chan = chan[::-1]
        ow = [Y[i, 1]-Y[i, 2] if not np.isnan(Y[i, 1]-Y[i, 2]) else 0. for i in chan]
        if float(g['EW']) <= mw or any(w <= mw for w in ow): closed = True
    right = E[0] >= 0 or (np.isnan(E[0]) and False)
    if closed:
        far = max(i for i in range(n) if lw[i] > 0) if right else min(i for i in range(n) if lw[i] > 0)
        lag = list(range(x0, far+1)) if right else list(range(x0, far-1, -1))
    elif E[0] == 0: lag = [x0]
    elif right: lag = [i for i in range(x0, n) if X[i] < E[0]]
    else: lag = [i for i in range(x0, -1, -1) if X[i] > E[0]]
    cut = next((k for k, i in enumerate(lag) if lw[i] < mw), len(lag))
    opened_before_pinch = not closed
    if cut < len(lag): closed = True
    pinched = lag[cut:]; lag = lag[:cut]
    if closed: chan = []
    return lag, chan, closed, right, pinched, opened_before_pinch
