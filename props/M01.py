"""Sediment budget of one morphology step."""
from props import morph
LEVEL = 'exploration'; BUDGET = 25
RULE = 'distinct (closed, orientation, side, drift direction at the outlet, bank or bed erosion present, overtopping, whole or fractional step) classes of steps without topology change'
PROOFS = []
def gen(rng): return morph.state(rng, calm=True, pinch=0., gaps=.1, closed=bool(rng.random() < .35))
def nontrivial(inp):
    import numpy as np
    r = morph.rates(inp); R = morph.fastest(inp, r); t, clear = morph.timestep(inp, R)
    if not clear or R*t > inp['N']['MaxMorChange'] or not morph.quiet(inp, morph.expected(inp, t, r)): return None
    E, X = inp['E'], inp['X']
    k = () if inp['closed'] else (bool(E[0] < E[1]), float(np.sign(E[0])), float(np.sign(inp['LST'][np.flatnonzero(X > E[1])[0]-1])))
    return (inp['closed'],) + k + (bool((r[0][:, 4] != 0).any()), bool(inp['CST'].any()), t == int(t))
def evaluate(inp, S):
    import numpy as np, copy
    d = inp; d0 = copy.deepcopy(d)
    r = morph.rates(d0); R = morph.fastest(d0, r); t, clear = morph.timestep(d0, R)
    if not clear or R*t > d0['N']['MaxMorChange']: return []
    e = morph.expected(d0, t, r)
    if not morph.quiet(d0, e): return []
    dt, breach = morph.step(d)
    return compare(d0, d, e, dt, breach, t)
def compare(d0, d, e, dt, breach, t):
    import numpy as np
    bad = []
    if breach: bad.append(('no breach without eroded or overtopped barrier', ''))
    if abs(dt.total_seconds()-t) > 1e-9*t: bad.append(('time step is the adapted one', '%r expected %r' % (dt.total_seconds(), t)))
    cols = dict(Y=['shoreline', 'outlet seaward bank', 'outlet lagoonward bank', 'lagoon edge', 'cliff'], Z=['barrier crest', 'outlet bed', 'inner barrier', 'lagoon bed'])
    for k in ('Y', 'Z'):
        for c, nm in enumerate(cols[k]):
            a, b = d[k][:, c], e[k][:, c]; mv = np.abs(e[k][:, c]-d0[k][:, c])
            ok = (np.isnan(a) & np.isnan(b)) | (np.abs(a-b) <= 1e-11*(1+np.abs(b)) + 1e-7*mv)
            if not ok.all():
                i = int(np.flatnonzero(~ok)[0]); bad.append(('%s changes by its own sediment budget times the step' % nm, 'transect %d: %r expected %r (before %r)' % (i, a[i], b[i], d0[k][i, c])))
    for k, nm in (('riv', 'river bed'), ('EW', 'outlet end width'), ('EE', 'outlet end level'), ('E', 'outlet position')):
        a, b, o = np.asarray(d[k], float), np.asarray(e[k], float), np.asarray(d0[k], float)
        if d0['closed'] and k == 'E': a, b, o = a[1:], b[1:], o[1:]
        ok = (np.isnan(a) & np.isnan(b)) | (np.abs(a-b) <= 1e-11*(1+np.abs(b)) + 1e-7*np.abs(b-o))
        if not ok.all(): bad.append(('%s changes by its own sediment budget times the step' % nm, '%r expected %r (before %r)' % (a, b, o)))
    return bad
