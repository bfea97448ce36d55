"""A breach happens only where connected water meets a lost or overtopped barrier."""
from props import morph
LEVEL = 'exploration'; BUDGET = 30
RULE = 'distinct (closed, relic outlet known, kinds of candidate place, kind of breach) classes of updates without other topology change'
PROOFS = []
_last = [None]
def gen(rng):
    import numpy as np
    d = morph.state(rng, calm=bool(rng.random() < .5), gaps=.3, **(dict(closed=True) if rng.random() < .5 else {}))
    if d is None: return None
    Y, Z, n = d['Y'], d['Z'], d['X'].size; p = ~np.isnan(Y[:, 1])
    for _ in range(int(rng.integers(1, 4))):
        i = int(rng.integers(0, n)); m = rng.integers(0, 6)
        if rng.random() < .15: i = int(rng.choice([0, n-1]))
        if m == 0 and not p[i]: Y[i, 0] = max(Y[i, 3], Y[i, 4]) + 10**rng.uniform(-6, -1)          # barrier about to go
        elif m == 1 and p[i] and d['closed']: Y[i, 0] = Y[i, 1] + 10**rng.uniform(-6, -1)           # relic channel about to open
        elif m == 2: Z[i, 0] = (d['WL'][i] if np.isfinite(d['WL'][i]) else 1.) - rng.uniform(-.3, .5)
        elif m == 3: d['WL'][:] = d['WL'] + rng.uniform(0, 1.5)
        elif m == 4 and p[i]: Z[i, 0] = max(Z[i, 1]+.2, Z[i, 0]-rng.uniform(0, 3))
        elif m == 5 and not d['closed']: d['OD'][:] = d['OD'] + rng.uniform(0, 2.)
    if rng.random() < .3 and len(d['on']):      # barrier about to go where the lagoon has just been pinched off
        for i in (int(min(d['on']))-1, int(max(d['on']))+1):
            if 0 < i < n-1 and not p[i] and rng.random() < .7 and d['P']['MinOutletWidth'] > .75:
                Y[i, 3] = Y[i, 4] + rng.uniform(.35, d['P']['MinOutletWidth']-.35); Y[i, 0] = Y[i, 3] + 10**rng.uniform(-6, -1)
                if rng.random() < .5: d['CST'][:] = 0; d['OW'][:] = False
    if rng.random() < .4: d['P']['ShorelineErosionRate'] = float(rng.choice([0., 1e6]))
    if rng.random() < .5: d['LST'] = d['LST']*10**rng.uniform(0, 2)
    return d if morph.valid(d) else None
def nontrivial(inp): return _last[0]
def places(d, e):
    """(places where connected water meets a lost or overtopped barrier: {transect: (kinds)}, connected channel mask, connected lagoon mask, clear of thresholds)"""
    import numpy as np
    X, Y, Z, E, P, n = e['X'], e['Y'], e['Z'], e['E'], e['P'], e['X'].size; W = P['MinOutletWidth']; eps = 1e-6
    closed = d['closed']; p = ~np.isnan(Y[:, 1]); x0 = int(np.flatnonzero(X == 0)[0]); clear = True
    wide0, wide1 = d['Y'][:, 3]-d['Y'][:, 4], Y[:, 3]-Y[:, 4]
    if (np.abs(wide0-W) < .3).any() or ((wide0 > W) != (wide1 > W)).any() or (np.abs(wide1-W) < .3).any(): clear = False
    if (np.abs(wide0) < .3).any() or (np.abs(wide1) < .3).any(): clear = False
    lag = np.zeros(n, bool); lag[x0] = True                                        # lagoon connected to the river
    for rng_ in (range(x0+1, n), range(x0-1, -1, -1)):
        for i in rng_:
            if wide1[i] > W: lag[i] = True
            else: break
    cw = np.where(p, Y[:, 1]-Y[:, 2], -1.)
    if (np.abs(cw[p]-W) < eps).any(): clear = False
    chan = np.zeros(n, bool); seed = []
    if not closed: seed = [int(min(d['oc'])), int(max(d['oc']))]; chan[seed[0]:seed[1]+1] = True
    elif not np.isnan(d['E'][0]):
        i = int(np.argmin(np.abs(X-d['E'][0])))
        if cw[i] >= W and (lag[i] or i == x0): seed = [i, i]; chan[i] = True
    wl = np.where(d['Y'][:, 3] > d['Y'][:, 4], d['WL'], -9999.)
    if not closed:
        for i in d['oc']: wl[i] = d['OD'][i] + d['Z'][i, 1]
    if seed:
        i = seed[0]
        while i > 1 and cw[i-1] >= W: wl[i-1] = wl[i]; i -= 1; chan[i] = True
        i = seed[1]
        while i < n-2 and cw[i+1] >= W: wl[i+1] = wl[i]; i += 1; chan[i] = True
    kinds = {}
    for j in range(1, n-1):
        k = set()
        if closed and p[j] and chan[j] and Y[j, 0] <= Y[j, 1]: k.add('channel lost')
        if not p[j] and lag[j] and Y[j, 3] >= Y[j, 0] and wide1[j] > 0: k.add('barrier lost')
        crest = Z[j, 0] if chan[j] or not p[j] else max(Z[j, 0], Z[j, 2])
        if wl[j] > crest and (chan[j] or lag[j]): k.add('overtopped')
        if k: kinds[j] = k
        if abs(wl[j]-crest) < eps or abs(Y[j, 3]-Y[j, 0]) < eps or (p[j] and abs(Y[j, 0]-Y[j, 1]) < eps): clear = False
        if p[j] and Y[j, 0] <= Y[j, 1] and not chan[j]:      # offline channel filled in from the shoreface first: its levels change
            if max(Z[j, 0], Z[j, 2]) > wl[j]+eps and Z[j, 2] < wl[j]+eps: clear = False
    return kinds, chan, lag, clear
def evaluate(inp, S):
    import numpy as np, copy
    _last[0] = None
    d = inp; d0 = copy.deepcopy(d); X, W = d0['X'], d0['P']['MinOutletWidth']
    r = morph.rates(d0); R = morph.fastest(d0, r); t, clear = morph.timestep(d0, R); M = d0['N']['MaxMorChange']
    e = morph.expected(d0, t, r, M/t if R*t > M else None)
    if not clear or not morph.quiet(d0, e, breach=True): return []
    kinds, chan, lag, ok = places(d0, e)
    if not ok: return []
    try: dt, breach = morph.step(d)
    except AssertionError: return []
    bad = []; breach = bool(breach); E, E0 = d['E'], d0['E']
    _last[0] = (d0['closed'], bool(np.isnan(E0[0])), tuple(sorted({a for k in kinds.values() for a in k})), breach and ('channel' if E[0] != E[1] else 'lagoon'))
    if breach and not kinds: bad.append(('a breach needs connected water at a lost or overtopped barrier', 'breach at %r' % E[1])); return bad
    if d0['closed'] and kinds and not breach: bad.append(('closed mouth always breaches at a lost or overtopped barrier', '%r' % {float(X[j]): sorted(k) for j, k in kinds.items()}))
    if not breach:
        a, b = E[1], e['E'][1]
        if not abs(a-b) <= 1e-9*(1+abs(b)) and not (np.isnan(a) and np.isnan(b)): bad.append(('the outlet stays where it was without a breach', '%r expected %r' % (a, b)))
        if not np.array_equal(np.isnan(d['Y'][:, 1]) | np.isnan(e['Y'][:, 1]), np.isnan(d['Y'][:, 1])): bad.append(('no new channel without a breach', ''))
        return bad
    j = np.flatnonzero(X == E[1])
    if j.size != 1 or int(j[0]) not in kinds: bad.append(('breach is at a place with lost or overtopped barrier', 'breach at %r, places %r' % (E[1], [float(X[i]) for i in kinds]))); return bad
    j = int(j[0])
    if not d0['closed']:
        near = (chan[j] and abs(X[j]-E0[0]) < abs(e['E'][1]-E0[0])) or abs(X[j]) < (abs(E0[0]) if 'barrier lost' in kinds[j] else min(abs(E0[0]), abs(e['E'][1])))
        if not near: bad.append(('with an open outlet only a place closer to the river breaches', 'at %r outlet %r' % (X[j], e['E'].tolist())))
    same = lambda a, b: np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)
    Y, Z = d['Y'], d['Z']
    close = lambda a, b: bool(np.all(np.isclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-9, atol=1e-9, equal_nan=True)))
    if chan[j]:
        if not same(E[0], E0[0]): bad.append(('breach on a connected channel keeps its upstream end', '%r before %r' % (E[0], E0[0])))
        if not close(d['EW'], e['EW']) or not close(d['EE'], e['EE']): bad.append(('breach on a connected channel moves only the seaward end', 'width / level of the end changed'))
        if not close(Y[j, 1:], e['Y'][j, 1:]) or not close(Z[j], e['Z'][j]): bad.append(('breach on a connected channel moves only the seaward end', 'transect %d: Y %r expected %r, Z %r expected %r' % (j, Y[j], e['Y'][j], Z[j], e['Z'][j])))
        if not Y[j, 1] < Y[j, 0]: bad.append(('breached channel lies behind the sea', '%r' % Y[j]))
    else:
        if E[0] != X[j]: bad.append(('new outlet goes straight through the breached transect', '%r' % E))
        w = float(d['EW']); 
        if not w >= 2*W*(1-1e-12): bad.append(('new outlet is at least twice the closure width wide', '%r' % w))
        if not abs(Y[j, 1]-Y[j, 2]-w) <= 1e-6: bad.append(('new channel has the width of the outlet end', '%r end width %r' % (Y[j], w)))
        if not (Y[j, 3] < Y[j, 2] and Y[j, 4] < Y[j, 2] and Y[j, 1] < Y[j, 0]): bad.append(('new outlet fits between lagoon and sea', '%r' % Y[j]))
        if not close(w, max(float(e['EW']), 2*W)): bad.append(('new outlet is the wider of the present end and twice the closure width', '%r' % w))
        if not float(d['EE']) <= min(float(e['EE']), d0['P']['MaxOutletElev'])+1e-9: bad.append(('new outlet bed is no higher than the present end and the highest outlet level', '%r' % d['EE']))
        if np.isnan(Z[j, 1:3]).any(): bad.append(('new outlet has a bed and an inner barrier', '%r' % Z[j]))
    for c, (o, nw) in dict(transects=(e['Y'], Y)).items():
        m = np.arange(X.size) != j
        pn, po = ~np.isnan(nw[:, 1]), ~np.isnan(o[:, 1])
        if (pn & ~po & m).any(): bad.append(('a breach creates one new channel only', 'also at %r' % X[pn & ~po & m]))
    return bad
