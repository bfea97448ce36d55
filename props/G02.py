"""Polyline crossings (geom.intersectPolyline)."""
LEVEL = 'proof'; BUDGET = 12
RULE = 'distinct (number of vertices, number of crossings, vertex on the line, closed polygon) classes evaluated'

def left(pl, i, x): return pl[i, 0] < x
def ordinate(S, pl, i, x):
    """straight line through vertices i and i+1, evaluated at x"""
    return S.div(pl[i, 1]*(pl[i+1, 0] - x) + pl[i+1, 1]*(x - pl[i, 0]), pl[i+1, 0] - pl[i, 0])

def proof(p):
    from pyvc import sc
    from pyvc.arr import ieq, iadd
    from pyvc.spec import AV
    import z3
    S = p.S; n = p.size('n', 2); pl = p.arr('Polyline', (n, 2)); x = p.real('x')
    r = p.call('geom.intersectPolyline', pl, x)
    o = p.old(pl); R = AV(r)
    cross = lambda i: sc.Not(sc.Iff(left(o, i, x), left(o, i+1, x)))
    # the crossings are enumerated by an increasing index map: every crossing once, nothing else, in order
    en = p.enum(cross, 0, n-1)
    p.check('as many ordinates as crossing segments', ieq(r.shape[0], en.count))
    p.check('ordinate k lies on crossing segment k at x', S.forall(0, r.shape[0], lambda k: sc.Implies(ieq(r.shape[0], en.count), S.eq(R[k], ordinate(S, o, en.at(k), x)))))
    p.unchanged(pl)
PROOFS = [('geom.intersectPolyline', proof, {})]

def gen(rng):
    import numpy as np
    n = int(rng.integers(2, 12)); k = rng.random()
    if k < .3: P = rng.integers(-3, 4, (n, 2)).astype(float); x = float(rng.integers(-3, 4))
    elif k < .5: P = np.cumsum(np.abs(rng.normal(size=(n, 2))), axis=0); x = float(rng.choice(P[:, 0]))
    else: P = rng.normal(size=(n, 2))*10**rng.uniform(-2, 3); x = float(rng.normal()*np.std(P[:, 0]))
    if rng.random() < .2: P = np.vstack([P, P[:1]])
    return dict(P=P, x=x)
def _want(P, x):
    out = []
    for i in range(P.shape[0]-1):
        if (P[i, 0] < x) != (P[i+1, 0] < x): out.append(i)
    return out
def nontrivial(inp):
    import numpy as np
    w = _want(inp['P'], inp['x'])
    return (inp['P'].shape[0], len(w), bool(np.any(inp['P'][:, 0] == inp['x'])), bool(np.all(inp['P'][0] == inp['P'][-1]))) if w else None
def evaluate(inp, S):
    import numpy as np
    from hapuamod import geom
    P, x = inp['P'], inp['x']; P0 = P.copy(); bad = []
    r = np.asarray(geom.intersectPolyline(P, x)); w = _want(P0, x)
    if r.shape != (len(w),): bad.append(('as many ordinates as crossing segments', '%r vs %d' % (r.shape, len(w))))
    else:
        for k, i in enumerate(w):
            lo, hi = min(P0[i, 1], P0[i+1, 1]), max(P0[i, 1], P0[i+1, 1])
            if not S.close(r[k], ordinate(S, P0, i, x), max(abs(lo), abs(hi))): bad.append(('ordinate k lies on crossing segment k at x', '%d %r' % (k, r[k])))
    if not np.array_equal(P, P0): bad.append(('Polyline is not modified', ''))
    return bad
FIXED = [dict(P=__import__('numpy').array([[0., 0.], [1., 1.]]), x=5.0), dict(P=__import__('numpy').array([[0., 0.], [1., 1.]]), x=1.0), dict(P=__import__('numpy').array([[0., 0.], [1., 1.], [0., 3.]]), x=1.0)]
def small(name, d):
    import numpy as np
    return dict(P=np.array(d['Polyline'], float).reshape(-1, 2), x=d['x'])
from_model = small
PROOFS[0][2]['small'] = [dict(n=2), dict(n=3)]
