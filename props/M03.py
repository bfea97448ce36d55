"""Well-formed barrier geometry after every morphology update."""
from props import morph
LEVEL = 'exploration'; BUDGET = 30
RULE = 'distinct (closed before, orientation, topology events: channel added / removed / truncated / lagoon dissolved / cliff moved / breach) classes of completed updates'
PROOFS = []
def gen(rng): return push(rng, morph.state(rng))
def push(rng, d):
    """large rates on some runs so that banks, shore and lagoon collide within one step"""
    import numpy as np, pandas as pd
    if d is None: return None
    Y, n = d['Y'], d['X'].size; p = ~np.isnan(Y[:, 1])
    k = rng.integers(0, n, int(rng.integers(0, 4)))
    for i in k:
        m = rng.integers(0, 4)
        if p[i]:
            w = Y[i, 1]-Y[i, 2]
            if m == 0: Y[i, 1] = Y[i, 0] - 10**rng.uniform(-5, -1); Y[i, 2] = Y[i, 1]-w
            elif m == 1: Y[i, 3] = Y[i, 2] - 10**rng.uniform(-5, -1); 
            elif m == 2 and i not in d["on"]: Y[i, 4] = Y[i, 3] = Y[i, 2] - 10**rng.uniform(-4, 0)
        elif m == 3: Y[i, 3] = Y[i, 0] - 10**rng.uniform(-4, 0)
        elif m == 2: Y[i, 0] = max(Y[i, 3], Y[i, 4]) + 10**rng.uniform(-4, 0)
    if rng.random() < .15 and not d['closed'] and len(d['oc']) > 1:
        a = int(rng.integers(0, len(d['oc']))); both = rng.random() < .3
        for i in d['oc'][a:a+int(rng.integers(1, 4))]:
            if both or rng.random() < .5: w = Y[i, 1]-Y[i, 2]; Y[i, 1] = Y[i, 0] - 10**rng.uniform(-6, -3); Y[i, 2] = Y[i, 1]-w
            if both or rng.random() < .5: Y[i, 3] = Y[i, 2] - 10**rng.uniform(-6, -3)
    if rng.random() < .4 and not d['closed']:
        X, E, i = d['X'], d['E'], int(d['oc'][-1]); gap = float(rng.choice([0., 10**rng.uniform(-6, -2)]))
        s = rng.integers(0, 3)
        if s == 0: E[1] = X[min(i+1, n-2)]-max(gap, 1e-9) if E[0] < E[1] else X[max(i-1, 1)]+max(gap, 1e-9)
        elif s == 1: E[1] = X[i] + gap*(1 if E[0] < E[1] else -1)
        else: E[1] = [X[1]+gap, X[-2]-gap][int(rng.integers(0, 2))] if abs(X[i]-[X[1], X[-2]][int(E[0] < E[1])]) < 1e-9 else E[1]
        a, b = min(E), max(E); want = [j for j in range(n) if a <= X[j] <= b]
        if sorted(want) != sorted(int(j) for j in d['oc']): return None
        if (d['oc'][0] < d['oc'][-1]) != (E[0] < E[1]) and len(want) > 1: return None
    if rng.random() < .5: d['P']['ShorelineErosionRate'] = float(rng.choice([0., 1e4]))
    lw = Y[:, 3]-Y[:, 4]
    if not (lw[d["on"]] >= d["P"]["MinOutletWidth"]).all(): return None
    if not d["closed"] and not (Y[d["oc"], 1]-Y[d["oc"], 2] > d["P"]["MinOutletWidth"]).all(): return None
    return d if morph.valid(d) and ok(d) else None
def ok(d):
    """precondition: the geometry is well formed and the mouth inside the domain"""
    import numpy as np
    return not wellformed(d, pre=True) and (d['X'][1] <= d['E'][1] <= d['X'][-2])
def wellformed(d, pre=False):
    import numpy as np
    Y, Z, X, P = d['Y'], d['Z'], d['X'], d['P']; bad = []
    def say(c, m): 
        if m.any(): bad.append((c, 'transect %d: Y=%r Z=%r' % (int(np.flatnonzero(m)[0]), Y[np.flatnonzero(m)[0]], Z[np.flatnonzero(m)[0]])))
    for c, nm in ((0, 'shoreline'), (3, 'lagoon edge'), (4, 'cliff')): say('%s is defined everywhere' % nm, np.isnan(Y[:, c]))
    for c, nm in ((0, 'barrier crest'), (3, 'lagoon bed')): say('%s is defined everywhere' % nm, np.isnan(Z[:, c]))
    p = ~np.isnan(Y[:, 1])
    say('outlet banks come in pairs', p != ~np.isnan(Y[:, 2]))
    say('outlet bed level is present exactly where banks are', p != ~np.isnan(Z[:, 1]))
    say('inner barrier level is present exactly where banks are', p != ~np.isnan(Z[:, 2]))
    say('outlet channel does not overlap the lagoon', p & ~(Y[:, 2] > Y[:, 3]))
    say('outlet channel does not overlap the sea', p & ~(Y[:, 1] < Y[:, 0]))
    say('the barrier has positive width', ~p & ~(Y[:, 0] > Y[:, 3]))
    x0 = np.flatnonzero(X == 0)[0]
    if not pre and not Y[x0, 3]-Y[x0, 4] >= P['MinOutletWidth']: bad.append(('lagoon at the river mouth is at least the minimum width', '%r' % (Y[x0, 3]-Y[x0, 4])))
    return bad
def events(d0, d, breach):
    import numpy as np
    p0, p1 = ~np.isnan(d0['Y'][:, 1]), ~np.isnan(d['Y'][:, 1])
    return (bool((p1 & ~p0).any()), bool((p0 & ~p1).any()), bool(d['E'][0] != d0['E'][0] and not np.isnan(d['E'][0])), bool(abs(d['E'][1]-d0['E'][1]) > d0['N']['MaxMorChange']*1.01), bool((np.abs(d['Y'][:, 3]-d0['Y'][:, 3]) > 1.01*d0['N']['MaxMorChange']).any()),
            bool((np.abs(d['Y'][:, 4]-d0['Y'][:, 4]) > 1.01*d0['N']['MaxMorChange']).any()), bool(breach))
_last = [None]
def nontrivial(inp): return _last[0]
def evaluate(inp, S):
    import numpy as np, copy
    d0 = copy.deepcopy(inp); d = inp; _last[0] = None
    try: dt, breach = morph.step(d)
    except AssertionError: 
        _last[0] = ('assert',); return []
    _last[0] = (d0['closed'], bool(d0['E'][0] < d0['E'][1])) + events(d0, d, breach)
    return wellformed(d)
