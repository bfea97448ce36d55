"""Outlet mouth stays inside the domain; forcing inputs untouched; river bed moves only by its own budget."""
from props import morph
LEVEL = 'exploration'; BUDGET = 25
RULE = 'distinct (closed, held at left / right edge / not, orientation, change limited, breach) classes of updates'
PROOFS = []
_last = [None]
def gen(rng):
    import numpy as np
    from props import M03
    d = morph.state(rng)
    if d is None: return None
    if rng.random() < .5: d = M03.push(rng, d)
    if d is None: return None
    X = d['X']
    if not d['closed'] and rng.random() < .4: d['LST'] = d['LST']*10**rng.uniform(0, 4)
    if d['closed'] and rng.random() < .4: d['E'][1] = float(rng.choice([X[1], X[-2], X[1]+1e-6, X[-2]-1e-6]))
    return d if X[1] <= d['E'][1] <= X[-2] else None
def nontrivial(inp): return _last[0]
def evaluate(inp, S):
    import numpy as np, copy
    _last[0] = None
    d = inp; d0 = copy.deepcopy(d); X = d0['X']; r = morph.rates(d0); R = morph.fastest(d0, r); t, clear = morph.timestep(d0, R); M = d0['N']['MaxMorChange']
    lim = M/t if R*t > M else None
    e = morph.expected(d0, t, r, lim)
    try: dt, breach = morph.step(d)
    except AssertionError: return []
    bad = []; side = 0
    if not X[1] <= d['E'][1] <= X[-2]: bad.append(('seaward end of the outlet lies between the second and second-last transect', '%r not in [%r, %r]' % (d['E'][1], X[1], X[-2])))
    if clear and not breach:
        side = -1 if e['E'][1] < X[1]-1e-6 else (1 if e['E'][1] > X[-2]+1e-6 else 0)
        if side:
            edge = X[1] if side < 0 else X[-2]; moved = d['E'][1] != edge
            cut = not d0['closed'] and (np.isnan(d['Y'][:, 1]) != np.isnan(d0['Y'][:, 1])).any()     # the sea may cut the outlet off afterwards
            if moved and not cut: bad.append(('outlet pushed past an edge is held at that edge', '%r instead of %r' % (d['E'][1], edge)))
    _last[0] = (d0['closed'], side, bool(d0['E'][0] < d0['E'][1]), lim is not None, bool(breach))
    u = morph.untouched(d0, d)
    if u: bad.append(('forcing inputs are left untouched', ', '.join(u)))
    if clear:
        a, b, o = np.asarray(d['riv']), np.asarray(e['riv']), np.asarray(d0['riv'])
        if not (np.abs(a-b) <= 1e-11*(1+np.abs(b)) + 1e-7*np.abs(b-o)).all(): bad.append(('river bed changes only by its own bedload budget', '%r expected %r' % (a, b)))
    return bad
