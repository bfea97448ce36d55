"""Offline lagoon area and length are attached to the channel exactly once (riv.assembleChannel)."""
from props.common import geometry, assemble, online
LEVEL = 'exploration'; BUDGET = 20
RULE = 'distinct (side of the outlet, closed before/after, lagoon pinched, one or more online transects, area on each side) classes evaluated'
PROOFS = []
def gen(rng): return dict(g=geometry(rng))
def nontrivial(inp):
    import numpy as np
    g = inp['g']; lag, chan, closed, right, pin, ob = online(g)
    return (float(np.sign(g['E'][0])), g['closed'], closed, len(pin) > 0, min(2, len(lag)))
def areas(g, lag, right, pin, ob):
    """(area, length) facing away from the outlet, and beyond the online part on the outlet side"""
    X, Y, E, dx = g['X'], g['Y'], g['E'], g['dx']; lw = Y[:, 3]-Y[:, 4]
    a = [i for i in range(X.size) if (X[i] < 0 if right else X[i] > 0)]
    b = list(pin)
    if ob: b += [i for i in range(X.size) if (X[i] > E[0] if right else X[i] < E[0])]
    f = lambda ix: (sum(lw[i]*dx for i in ix), sum(dx for i in ix if lw[i] > 0))
    return f(a), f(b)
def evaluate(inp, S):
    import numpy as np, copy
    from hapuamod import riv
    g = inp['g']; g0 = copy.deepcopy(g); bad = []
    r = assemble(riv, g); La, Ll, on, fl = np.asarray(r[3], float), np.asarray(r[4], float), r[7], np.asarray(r[9])
    lag, chan, closed, right, pin, ob = online(g0)
    on = [int(i) for i in on]
    if on != lag and np.isnan(g0['E'][0]):
        g1 = copy.deepcopy(g0); g1['E'][0] = 1.0; lag, chan, closed, right, pin, ob = online(g1)
    if on != lag: return [('online lagoon transects', '%r expected %r' % (on, lag))]
    (a0, l0), (a1, l1) = areas(g0, lag, right, pin, ob)
    n = np.asarray(r[1]).size; R = g0['riv'].size; first, last = R, R+len(lag)-1
    if La.shape != (n,) or Ll.shape != (n,): return [('one storage area and length per section', '')]
    wa = np.zeros(n); wl = np.zeros(n); wl[first:last+1] = g0['dx']
    wa[first] += a0; wa[last] += a1; wl[first] += l0; wl[last] += l1
    for k in range(n):
        if not S.close(La[k], wa[k], 1.0): bad.append(('storage area', 'section %d: %r expected %r' % (k, La[k], wa[k])))
        if not S.close(Ll[k], wl[k], 1.0): bad.append(('seepage length', 'section %d: %r expected %r' % (k, Ll[k], wl[k])))
    return bad
