"""Adaptive morphological time step and the cap on change per step."""
from props import morph
LEVEL = 'exploration'; BUDGET = 25
RULE = 'distinct (closed, halvings, doublings, change limited, whole step, topology unchanged) classes of updates'
PROOFS = []
_last = [None]
def gen(rng):
    d = morph.state(rng, calm=bool(rng.random() < .8), pinch=0., gaps=.1, closed=bool(rng.random() < .35))
    if d is None: return None
    if rng.random() < .4:
        f = 10**rng.uniform(0, 3); which = rng.integers(0, 4)
        if which in (0, 3): d['bed'] = d['bed']*f
        if which in (1, 3): d['LST'] = d['LST']*f
        if which == 2: d['CST'] = d['CST']*f
    return d
def nontrivial(inp): return _last[0]
def evaluate(inp, S):
    import numpy as np, copy
    _last[0] = None
    d = inp; d0 = copy.deepcopy(d); r = morph.rates(d0); R = morph.fastest(d0, r); t, clear = morph.timestep(d0, R); M = d0['N']['MaxMorChange']
    if not clear: return []
    lim = M/t if R*t > M else None
    e = morph.expected(d0, t, r, lim)
    q = morph.quiet(d0, e)
    try: dt, breach = morph.step(d)
    except AssertionError: return []
    t0 = d0['MorDt'].total_seconds(); bad = []
    _last[0] = (d0['closed'], int(np.sign(t-t0))*min(3, int(abs(np.log2(t/t0)))), lim is not None, t == int(t), q)
    if abs(dt.total_seconds()-t) > 1e-9*t: bad.append(('time step returned is the previous one halved and doubled within its limits', '%r expected %r (before %r, fastest rate %r)' % (dt.total_seconds(), t, t0, R)))
    lo, hi = d0['T']['MorDtMin'].total_seconds(), d0['T']['MorDtMax'].total_seconds()
    if lo <= t0 <= hi and not (lo/2 < dt.total_seconds()*(1+1e-9) and dt.total_seconds() < 2*hi): bad.append(('time step stays within half the minimum and twice the maximum', '%r' % dt.total_seconds()))
    if not q: return bad
    for k, nm in (('Y', 'position'), ('Z', 'level'), ('riv', 'river bed'), ('EW', 'outlet end width'), ('EE', 'outlet end level'), ('E', 'outlet position')):
        if k == 'E' and d0['closed']: continue
        c = np.abs(np.asarray(d[k], float) - np.asarray(d0[k], float))
        if np.nanmax(c, initial=0.) > M*(1+1e-9)+1e-9: bad.append(('%s moves by no more than the maximum change' % nm, '%r > %r' % (np.nanmax(c), M)))
        if lim is not None:
            a, b = np.asarray(d[k], float), np.asarray(e[k], float)
            ok = (np.isnan(a) & np.isnan(b)) | (np.abs(a-b) <= 1e-9*(1+np.abs(b)))
            if not ok.all(): bad.append(('%s: limited change keeps its direction and is otherwise the full change' % nm, '%r expected %r' % (a[~ok][0], b[~ok][0])))
    return bad
