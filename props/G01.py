"""Model and real-world coordinates convert back and forth without distortion (geom.mod2real, geom.real2mod)."""
LEVEL = 'proof'; BUDGET = 12
RULE = 'distinct (scalar or array, quadrant of the bearing, quadrant of the point, coincident points) classes evaluated'
TRUSTED = ['sin/cos/arctan2/sqrt: addition theorems, sin^2+cos^2=1, polar decomposition (axioms of pyvc/sc.py)']

# ---- contract: geom.mod2real / geom.real2mod
def shape_spec(S, xr, yr, xm, ym, ox, oy, d):
    """the coordinate system of the documentation: model y axis points offshore along the bearing d, model x axis
    90 degrees clockwise of it, model origin at the real-world origin"""
    s, c = S.sin(d), S.cos(d)
    return S.And(S.close(xr, ox + xm*c + ym*s, S.abs(ox) + S.abs(xm) + S.abs(ym)),
                 S.close(yr, oy - xm*s + ym*c, S.abs(oy) + S.abs(xm) + S.abs(ym)))

def _sym(p, arr):
    S = p.S; d = p.real('d'); ox, oy = p.real('ox'), p.real('oy')
    org = p.eng_tuple([ox, oy])
    if arr:
        n = p.size('n', 0); x, y = p.arr('x', n), p.arr('y', n)
        rng = lambda f: S.forall(0, n, f)
        at = lambda A, i: p.cur(A)[i]
    else:
        x, y = p.real('x'), p.real('y'); n = 1
        rng = lambda f: f(0)
        at = lambda A, i: A if not hasattr(A, 'buf') else p.cur(A)[i]
        from pyvc.spec import V
        at = lambda A, i: A if isinstance(A, V) else V(A)
    return S, d, ox, oy, org, x, y, n, rng, at

def proof(arr):
    def fwd(p):
        S, d, ox, oy, org, x, y, n, rng, at = _sym(p, arr)
        xr, yr = p.call('geom.mod2real', x, y, org, d)
        p.check('mod2real: model axes map to the configured origin and bearing', rng(lambda i: shape_spec(S, at(xr, i), at(yr, i), at(x, i), at(y, i), ox, oy, d)))
        if arr: p.unchanged(x); p.unchanged(y)
    def inv(p):
        S, d, ox, oy, org, x, y, n, rng, at = _sym(p, arr)
        xm, ym = p.call('geom.real2mod', x, y, org, d)
        p.check('real2mod: the result is the model point that maps to the given real point', rng(lambda i: shape_spec(S, at(x, i), at(y, i), at(xm, i), at(ym, i), ox, oy, d)))
        if arr: p.unchanged(x); p.unchanged(y)
    def rt1(p):
        S, d, ox, oy, org, x, y, n, rng, at = _sym(p, arr)
        xr, yr = p.call('geom.mod2real', x, y, org, d)
        xm, ym = p.call('geom.real2mod', xr, yr, org, d)
        p.check('model to real and back returns x', rng(lambda i: S.eq(at(xm, i), at(x, i))))
        p.check('model to real and back returns y', rng(lambda i: S.eq(at(ym, i), at(y, i))))
    def rt2(p):
        S, d, ox, oy, org, x, y, n, rng, at = _sym(p, arr)
        xm, ym = p.call('geom.real2mod', x, y, org, d)
        xr, yr = p.call('geom.mod2real', xm, ym, org, d)
        p.check('real to model and back returns x', rng(lambda i: S.eq(at(xr, i), at(x, i))))
        p.check('real to model and back returns y', rng(lambda i: S.eq(at(yr, i), at(y, i))))
    k = 'array' if arr else 'scalar'
    return [('geom.mod2real (%s)' % k, fwd, {}), ('geom.real2mod (%s)' % k, inv, {}), ('mod2real then real2mod (%s)' % k, rt1, {}), ('real2mod then mod2real (%s)' % k, rt2, {})]
def iso(p):
    from pyvc.spec import V
    S = p.S; d = p.real('d'); ox, oy = p.real('ox'), p.real('oy'); org = p.eng_tuple([ox, oy])
    pts = [(p.real('x%d' % k), p.real('y%d' % k)) for k in range(2)]
    a, b = [tuple(V(v) for v in p.call('geom.mod2real', x, y, org, d)) for x, y in pts]
    (x0, y0), (x1, y1) = pts
    s, c = S.sin(d), S.cos(d)
    k = s*s + c*c; e = (x0-x1)**2 + (y0-y1)**2; dd = (a[0]-b[0])**2 + (a[1]-b[1])**2
    p.lemma('squared distance is scaled by sin^2+cos^2', S.eq(dd, k*e))
    p.lemma('sin^2+cos^2=1', S.eq(k, V(1)))
    p.check('mod2real preserves distances', S.implies(S.And(S.eq(p.ghost('D', dd), p.ghost('K', k)*p.ghost('E', e)), S.eq(p.ghost('K1', k), V(1))), S.eq(dd, e)))
PROOFS = proof(False) + proof(True) + [('mod2real is an isometry', iso, {})]

# ---- concrete contract evaluation
def gen(rng):
    import numpy as np
    k = int(rng.integers(0, 4)); n = int(rng.integers(1, 6))
    d = [float(rng.uniform(-2*np.pi, 4*np.pi)), float(rng.choice([0, np.pi/2, np.pi, 3*np.pi/2, 2*np.pi, -np.pi/2])), float(rng.uniform(0, 2*np.pi))][int(rng.integers(0, 3))]
    sc = float(10**rng.uniform(-1, 4))
    org = [float(v) for v in rng.uniform(-1, 1, 2)*[sc, 10*sc]] if rng.random() < .8 else [0.0, 0.0]
    x, y = rng.uniform(-sc, sc, n), rng.uniform(-sc, sc, n)
    if rng.random() < .3: x[rng.integers(0, n)] = 0; y[rng.integers(0, n)] = 0
    if rng.random() < .2: x[rng.integers(0, n)] = 0
    if rng.random() < .2: y[rng.integers(0, n)] = 0
    if rng.random() < .1: x = np.round(x).astype(int); y = np.round(y).astype(int)
    if k == 0: x, y = float(x[0]), float(y[0])
    org = np.array(org) if rng.random() < .5 else (tuple(org) if rng.random() < .5 else org)
    return dict(x=x, y=y, org=org, d=d)
def nontrivial(inp):
    import numpy as np
    x, y = np.atleast_1d(inp['x']), np.atleast_1d(inp['y'])
    return (np.ndim(inp['x']), int(inp['d']//(np.pi/2)), bool(np.any((x == 0) & (y == 0))), bool(np.any(x > 0)), bool(np.any(y > 0)))
def evaluate(inp, S):
    import numpy as np, copy
    from hapuamod import geom
    bad = []
    x, y, org, d = inp['x'], inp['y'], inp['org'], inp['d']
    keep = copy.deepcopy((x, y, org))
    xr, yr = geom.mod2real(x, y, org, d)
    X, Y, XR, YR = [np.atleast_1d(v).astype(float) for v in (x, y, xr, yr)]
    if XR.shape != X.shape or YR.shape != X.shape: return [('mod2real keeps the shape of its points', '%s' % (XR.shape,))]
    for i in range(X.size):
        if not shape_spec(S, XR[i], YR[i], X[i], Y[i], org[0], org[1], d): bad.append(('mod2real: model axes map to the configured origin and bearing', 'point %d: %r %r -> %r %r' % (i, X[i], Y[i], XR[i], YR[i])))
    sc = np.max(np.abs(X)) + np.max(np.abs(Y)) + abs(org[0]) + abs(org[1])
    xb, yb = [np.atleast_1d(v) for v in geom.real2mod(xr, yr, org, d)]
    xm, ym = geom.real2mod(x, y, org, d)
    XM, YM = np.atleast_1d(xm), np.atleast_1d(ym)
    x2, y2 = [np.atleast_1d(v) for v in geom.mod2real(xm, ym, org, d)]
    if not (xb.shape == yb.shape == XM.shape == YM.shape == x2.shape == y2.shape == X.shape): return bad + [('conversions keep the shape of the points', '')]
    for i in range(X.size):
        if not (S.close(xb[i], X[i], sc) and S.close(yb[i], Y[i], sc)): bad.append(('model to real and back is the identity', 'point %d %r %r -> %r %r' % (i, X[i], Y[i], xb[i], yb[i])))
        if not (S.close(x2[i], X[i], sc) and S.close(y2[i], Y[i], sc)): bad.append(('real to model and back is the identity', 'point %d' % i))
        if not shape_spec(S, X[i], Y[i], XM[i], YM[i], org[0], org[1], d): bad.append(('real2mod: the result is the model point that maps to the given real point', 'point %d' % i))
    k2 = (x, y, org)
    if not all(np.array_equal(a, b) for a, b in zip(keep, k2)): bad.append(('inputs are not modified', ''))
    return bad
FIXED = [dict(x=0.0, y=0.0, org=[1.0, 2.0], d=0.3), dict(x=0.0, y=5.0, org=[1.0, 2.0], d=1.2), dict(x=3.0, y=0.0, org=(0.0, 0.0), d=4.0)]
