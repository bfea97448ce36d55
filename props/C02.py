"""Run-up and overtopping (coast.runup, coast.overtopping)."""
LEVEL = 'proof'; BUDGET = 12
RULE = 'distinct sets of (channel present, lagoon present, channel pinched, crest high for its width, crest reached) transect kinds evaluated'
PARS = ('OT_coef', 'OT_exp', 'BarRatSlope', 'BarRatInt')

# ---- contract
def flux(S, rl, sl, Z, i, a):
    return a['OT_coef']*S.pow(S.max(rl + sl - Z[i, 0], _num(S, 0)), a['OT_exp'])
def _num(S, v):
    if not S.symbolic: return float(v)
    from pyvc.spec import V
    from fractions import Fraction
    return V(Fraction(repr(v)))
def overwash(S, Y, Z, i, a):
    """all of the flux goes to the backshore"""
    channel = S.Not(S.isnan(Y[i, 1]))
    width = S.ite(channel, Y[i, 0] - Y[i, 1], S.max(Y[i, 0] - Y[i, 3], _num(S, 0.001)))
    nothing_behind = S.And(S.Not(channel), Y[i, 3] <= Y[i, 4])
    pinched = S.And(channel, Y[i, 1] <= Y[i, 2])
    high = Z[i, 0] > width*a['BarRatSlope'] + a['BarRatInt']
    return S.Or(pinched, S.And(S.Not(nothing_behind), high))

def proof(p):
    from pyvc.arr import ieq, isub
    from pyvc import sc
    S = p.S; n = p.size('n', 1)
    chan = p.eng.freshfn('chan_missing', sc.I, sc.B)
    Y = p.shore(n, 'ShoreY', 5, (1, 2), chan); Z = p.shore(n, 'ShoreZ', 4, (1, 2), chan)
    a = {k: p.real(k, gt=0) for k in PARS}; rl, sl = p.real('Runup', ge=0), p.real('SeaLevel')
    tot, prop = p.call('coast.overtopping', rl, sl, Y, Z, a); T, O = p.cur(tot), p.cur(prop); y, z = p.old(Y), p.old(Z)
    p.check('one flux and partition per transect', sc.And(ieq(T.shape[0], n), ieq(O.shape[0], n)))
    p.check('flux law', S.forall(0, n, lambda i: S.eq(T[i], flux(S, rl, sl, z, i, a))))
    p.check('flux is never negative and zero where the crest is not reached', S.forall(0, n, lambda i: S.And(T[i] >= 0, S.implies(rl + sl <= z[i, 0], S.eq(T[i], _num(S, 0))))))
    if prop.dtype == 'b': p.check('partition', S.forall(0, n, lambda i: S.iff(O[i], overwash(S, y, z, i, a))))
    else: p.check('partition', S.forall(0, n, lambda i: S.eq(O[i], S.ite(overwash(S, y, z, i, a), _num(S, 1), _num(S, 0)))))
    p.unchanged(Y); p.unchanged(Z)
def proof_runup(p):
    S = p.S; s = p.real('BeachSlope', gt=0); t = p.real('WavePeriod', gt=0); h = p.real('Hs', ge=0)
    from pyvc.spec import V
    r = p.call('coast.runup', t, h, s)
    p.check('run-up formula', S.eq(V(r), _num(S, 0.49)*S.sqrt(s)*t*h))
PROOFS = [('coast.overtopping', proof, {'asserts': True}), ('coast.runup', proof_runup, {})]

def gen(rng):
    import numpy as np
    n = int(rng.integers(1, 12)); Y = np.zeros((n, 5)); Z = np.zeros((n, 4))
    Y[:, 0] = rng.normal(0, 5, n); Y[:, 3] = Y[:, 0] - rng.choice([0., 5., 30., -1.], n)*rng.uniform(.2, 1, n)
    Y[:, 4] = Y[:, 3] - rng.choice([0., 10., 50., -.5], n)*rng.uniform(.2, 1, n)
    Z[:, 0] = rng.uniform(0, 6, n); Z[:, 3] = rng.uniform(-3, 1, n); Z[:, 1] = rng.uniform(-3, 1, n); Z[:, 2] = rng.uniform(0, 6, n)
    Y[:, 1] = Y[:, 0] - rng.uniform(0, 20, n); Y[:, 2] = Y[:, 1] - rng.choice([0., 10., -1.], n)
    m = rng.random(n) < .5; Y[m, 1:3] = np.nan; Z[m, 1:3] = np.nan
    a = dict(OT_coef=float(10**rng.uniform(-5, -1)), OT_exp=float(rng.choice([1.0, 1.5, 2.0, 3.0, rng.uniform(.5, 4)])), BarRatSlope=float(rng.uniform(.001, .2)), BarRatInt=float(rng.uniform(.1, 5)))
    return dict(Y=Y, Z=Z, a=a, rl=float(rng.uniform(0, 4)), sl=float(rng.uniform(-1.5, 3)), wave=[float(v) for v in (rng.uniform(1, 20), rng.uniform(0, 8), rng.uniform(.005, .4))])
def nontrivial(inp):
    from pyvc.cspec import CS
    S = CS(); k = set()
    Y, Z, a = inp['Y'], inp['Z'], inp['a']
    for i in range(Y.shape[0]):
        c = not S.isnan(Y[i, 1]); w = Y[i, 0]-Y[i, 1] if c else max(Y[i, 0]-Y[i, 3], .001)
        k.add((c, bool(Y[i, 3] > Y[i, 4]), bool(c and Y[i, 1] <= Y[i, 2]), bool(Z[i, 0] > w*a['BarRatSlope']+a['BarRatInt']), bool(inp['rl']+inp['sl'] > Z[i, 0])))
    return frozenset(k)
def evaluate(inp, S):
    import numpy as np
    from hapuamod import coast
    Y, Z, a = inp['Y'], inp['Z'], inp['a']; Y0, Z0, a0 = Y.copy(), Z.copy(), dict(a); bad = []; n = Y.shape[0]
    tot, prop = coast.overtopping(inp['rl'], inp['sl'], Y, Z, a); tot, prop = np.asarray(tot), np.asarray(prop)
    if tot.shape != (n,) or prop.shape != (n,): return [('one flux and partition per transect', '')]
    for i in range(n):
        if not S.eq(tot[i], flux(S, inp['rl'], inp['sl'], Z0, i, a0)): bad.append(('flux law', 'transect %d: %r' % (i, tot[i])))
        if not tot[i] >= 0: bad.append(('flux is never negative', 'transect %d: %r' % (i, tot[i])))
        if inp['rl'] + inp['sl'] < Z0[i, 0] and tot[i] != 0: bad.append(('flux is zero where the crest is not reached', 'transect %d: %r' % (i, tot[i])))
        c = not np.isnan(Y0[i, 1]); w = Y0[i, 0]-Y0[i, 1] if c else max(Y0[i, 0]-Y0[i, 3], .001)
        if abs(Z0[i, 0] - (w*a0['BarRatSlope']+a0['BarRatInt'])) < 1e-9: continue
        if float(prop[i]) != float(overwash(S, Y0, Z0, i, a0)): bad.append(('partition', 'transect %d: %r' % (i, prop[i])))
    if not (np.array_equal(Y, Y0, equal_nan=True) and np.array_equal(Z, Z0, equal_nan=True) and a == a0): bad.append(('inputs are not modified', ''))
    t, h, s = inp['wave']
    if not S.eq(coast.runup(t, h, s), 0.49*S.sqrt(s)*t*h): bad.append(('run-up formula', '%r' % coast.runup(t, h, s)))
    return bad
