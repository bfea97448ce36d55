"""Longshore transport (coast.longShoreTransport)."""
LEVEL = 'proof'; BUDGET = 12
RULE = 'distinct (number of transects, wave side, some offshore-directed segment, some onshore-directed segment, zero wave power) classes evaluated'
TRUSTED = ['arctan, arcsin, sin, cos, tanh, real powers: axioms of pyvc/sc.py']

# ---- contract
def angle(S, Y, i, dx, e):
    """wave direction relative to the normal of segment i"""
    return e - S.arctan((Y[i, 0] - Y[i+1, 0])/dx)
def speeds(S, a):
    cb = S.sqrt(a['Gravity']*S.powq(a['BreakerCoef']*a['WavePower'], 2, 5))
    ch = a['Gravity']*a['WavePeriod']/(2*S.pi)*S.tanh(2*S.pi*a['WaveDataDepth']/a['Wlen_h'])
    return cb, ch
def offshore(S, phi): return S.Or(phi > S.pi/2, phi < -S.pi/2)
def rate(S, phi, a, ratio):
    """CERC: -K2 * power * cos(angle) * sin(breaker angle), breaker angle from Snell"""
    return S.ite(offshore(S, phi), S.val(0.0) if not S.symbolic else _zero(), -a['K2coef']*a['WavePower']*S.cos(phi)*S.sin(S.arcsin(S.sin(phi)*ratio)))
def _zero():
    from pyvc.spec import V
    from fractions import Fraction
    return V(Fraction(0))

def setup(p):
    n = p.size('n', 2); Y = p.arr('ShoreY', (n, 5), nan=lambda i, j: (j == 1) | (j == 2) if not isinstance(j, int) else j in (1, 2))
    dx = p.real('Dx', gt=0)
    a = {k: p.real(k, gt=0) for k in ('Gravity', 'BreakerCoef', 'WavePeriod', 'WaveDataDepth', 'Wlen_h', 'K2coef')}
    a['WavePower'] = p.real('WavePower', ge=0); e = p.real('EDir_h', ge=-6.2832, le=6.2832)
    return n, Y, dx, a, e
def call(p, n, Y, dx, a, e):
    pars = {k: a[k] for k in ('Gravity', 'BreakerCoef', 'K2coef', 'WaveDataDepth')}
    return p.call('coast.longShoreTransport', Y, dx, a['WavePower'], a['WavePeriod'], a['Wlen_h'], e, pars)
def proof(p):
    from pyvc.arr import ieq, isub
    from pyvc import sc
    S = p.S; n, Y, dx, a, e = setup(p)
    cb, ch = speeds(S, a); p.assume(S.And(ch > 0, cb <= ch))
    ratio = cb/ch
    p.lemma('celerity ratio between 0 and 1', S.And(ratio >= 0, ratio <= 1))
    L = p.cur(call(p, n, Y, dx, a, e)); o = p.old(Y)
    p.check('one rate per segment', ieq(L.shape[0], isub(n, 1)))
    p.check('CERC rate on the local angle, zero for offshore-directed waves', S.forall(0, isub(n, 1), lambda i: S.eq(L[i], rate(S, angle(S, o, i, dx, e), a, ratio))))
    p.unchanged(Y)
def proof_dir(p):
    """consequence of the contract above: transport is directed down-wave and vanishes for offshore waves"""
    from pyvc import sc
    from pyvc.spec import V
    import z3
    S = p.S; n, Y, dx, a, e = setup(p); cb, ch = speeds(S, a); p.assume(S.And(ch > 0, cb <= ch)); ratio = cb/ch
    p.lemma('celerity ratio between 0 and 1', S.And(ratio >= 0, ratio <= 1))
    L = p.cur(call(p, n, Y, dx, a, e)); i = p.int('i'); p.assume(sc.And(i >= 0, i < n-1))
    phi = p.ghost('phi', angle(S, p.old(Y), i, dx, e))
    r = p.ghost('ratio', ratio)
    s, c = S.sin(phi), S.cos(phi)
    p.lemma('sine of the refracted angle', S.And(s*r >= -1, s*r <= 1))
    p.check('no transport for offshore-directed waves', S.implies(offshore(S, angle(S, p.old(Y), i, dx, e)), S.eq(L[i], V(0))))
PROOFS = [('coast.longShoreTransport', proof, {}), ('coast.longShoreTransport, offshore segments', proof_dir, {})]

def gen(rng):
    import numpy as np
    n = int(rng.integers(2, 14)); dx = float(rng.choice([5., 10., 20., 50.]))
    amp = dx*10**rng.uniform(-2, 1.2)
    Y = rng.normal(size=(n, 5))*amp
    if rng.random() < .2: Y[:, 0] = np.arange(n)*rng.normal()*amp
    if rng.random() < .2: Y[:, 0] = Y[0, 0]
    Y[:, 1:3] = np.where(rng.random((n, 1)) < .5, np.nan, Y[:, 1:3])
    g = 9.81
    T = float(rng.uniform(3, 20)); depth = float(rng.uniform(5, 30)); Lw = float(rng.uniform(20, 300))
    a = dict(Gravity=g, BreakerCoef=8.0/(1025*g**1.5*float(rng.uniform(.3, 1.2))**2), WavePeriod=T, WaveDataDepth=depth, Wlen_h=Lw, K2coef=float(10**rng.uniform(-5, -2)))
    cb, ch = None, g*T/(2*np.pi)*np.tanh(2*np.pi*depth/Lw)
    mx = (ch**2/g)**2.5/a['BreakerCoef']
    a['WavePower'] = float(mx*rng.choice([0.0, 1e-4, .1, .5, .99])*rng.uniform(.5, 1))
    e = float(rng.choice([rng.uniform(-1.5, 1.5), rng.uniform(-3.2, 3.2), 0.0, rng.uniform(-6.2, 6.2)]))
    loc = e - np.arctan((Y[:-1, 0]-Y[1:, 0])/dx)
    if np.any(np.abs(np.abs(loc)-np.pi/2) < 1e-7): return None
    return dict(Y=Y, dx=dx, a=a, e=e)
def _loc(inp):
    import numpy as np
    return inp['e'] - np.arctan((inp['Y'][:-1, 0]-inp['Y'][1:, 0])/inp['dx'])
def nontrivial(inp):
    import numpy as np
    l = _loc(inp); off = np.abs(l) > np.pi/2
    return (inp['Y'].shape[0], bool(np.any(l > 0)), bool(np.any(l < 0)), bool(off.any()), bool((~off).any()), inp['a']['WavePower'] == 0)
def evaluate(inp, S):
    import numpy as np
    from hapuamod import coast
    Y, dx, a, e = inp['Y'], inp['dx'], inp['a'], inp['e']; Y0 = Y.copy(); bad = []
    pars = {k: a[k] for k in ('Gravity', 'BreakerCoef', 'K2coef', 'WaveDataDepth')}; p0 = dict(pars)
    L = np.asarray(coast.longShoreTransport(Y, dx, a['WavePower'], a['WavePeriod'], a['Wlen_h'], e, pars))
    if L.shape != (Y.shape[0]-1,): return [('one rate per segment', str(L.shape))]
    cb, ch = speeds(S, a); ratio = cb/ch
    for i in range(L.size):
        phi = angle(S, Y0, i, dx, e); w = rate(S, phi, a, ratio)
        if not S.close(L[i], w, a['K2coef']*a['WavePower']): bad.append(('CERC rate on the local angle, zero for offshore-directed waves', 'segment %d angle %.4f rad: %r expected %r' % (i, phi, L[i], w)))
    if not np.array_equal(Y, Y0, equal_nan=True): bad.append(('ShoreY is not modified', ''))
    if pars != p0: bad.append(('PhysicalPars is not modified', ''))
    return bad
