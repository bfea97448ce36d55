"""Meyer-Peter Mueller bedload (riv.calcBedload)."""
LEVEL = 'proof'; BUDGET = 12
RULE = 'distinct (channel length up to 6, some section below/above threshold, some negative/zero/positive velocity above threshold, weighting class) classes evaluated'
PK = ('RhoRiv', 'RhoSed', 'Gravity', 'GrainSize', 'GrainRoughness', 'MPM_coef', 'MPM_exp', 'CritShieldsStress')
def _n(S, v):
    if not S.symbolic: return float(v)
    from pyvc.spec import V
    from fractions import Fraction
    return V(Fraction(repr(v)))
# ---- contract
def shields(S, h, V, i, a):
    slope = V[i]*V[i]*a['GrainRoughness']**2/S.powq(h[i], 4, 3)
    return a['RhoRiv']*a['Gravity']*h[i]*slope/((a['RhoSed'] - a['RhoRiv'])*a['Gravity']*a['GrainSize'])
def section(S, B, h, V, i, a):
    q = a['MPM_coef']*S.pow(S.max(shields(S, h, V, i, a) - a['CritShieldsStress'], _n(S, 0)), a['MPM_exp'])*B[i]*S.sqrt((a['RhoSed']/a['RhoRiv'] - 1)*a['Gravity']*a['GrainSize']**3)/(1 - a['VoidRatio'])
    return S.ite(V[i] < 0, -q, q)
def inputs(p):
    N = p.size('N', 2); z = p.arr('z', N); B = p.arr('B', N, cond=lambda v: v > 0); h = p.arr('h', N, cond=lambda v: v > 0); Vv = p.arr('V', N)
    from pyvc.arr import isub
    dx = p.arr('dx', isub(N, 1), cond=lambda v: v > 0); par = {k: p.real(k, gt=0) for k in PK}
    par['VoidRatio'] = p.real('VoidRatio', ge=0, lt=1); p.assume(par['RhoSed'] > par['RhoRiv'])
    return N, z, B, h, Vv, dx, par, p.real('Psi', ge=0, le=1)
def proof(p):
    from pyvc.arr import ieq, isub
    S = p.S; N, z, B, h, Vv, dx, par, psi = inputs(p)
    R = p.call('riv.calcBedload', z, B, h, Vv, dx, par, psi); r = p.cur(R); o = p.old
    p.check('one rate per reach', ieq(R.shape[0], isub(N, 1)))
    sec = lambda i: section(S, o(B), o(h), o(Vv), i, par)
    p.check('weighting of the Meyer-Peter Mueller rates of the two end sections', S.forall(0, isub(N, 1), lambda i: S.eq(r[i], (1 - psi)*sec(i) + psi*sec(i + 1))))
    for A in (z, B, h, Vv, dx): p.unchanged(A)
def proof_sign(p):
    """lemma over the section formula: nothing at or below threshold, direction of the flow above it"""
    S = p.S; N, z, B, h, Vv, dx, par, psi = inputs(p); o = p.old; i = p.int('i'); p.assume(S.And(i >= 0, i < N))
    q = section(S, o(B), o(h), o(Vv), i, par); t = shields(S, o(h), o(Vv), i, par)
    p.check('nothing moves at or below the critical stress', S.implies(t <= par['CritShieldsStress'], S.eq(q, _n(S, 0))))
    p.check('never against the flow', S.And(S.implies(o(Vv)[i] < 0, q <= 0), S.implies(o(Vv)[i] >= 0, q >= 0)))
    R = p.call('riv.calcBedload', z, B, h, Vv, dx, par, psi)
PROOFS = [('riv.calcBedload', proof, {'small': [dict(N=2)]}), ('threshold and direction', proof_sign, {})]
def from_model(name, d):
    import numpy as np
    if 'z' not in d: return None
    a = {k: d[k] for k in PK}; a['VoidRatio'] = d['VoidRatio']
    return dict(z=np.array(d['z']), B=np.array(d['B']), h=np.array(d['h']), V=np.array(d['V']), dx=np.array(d['dx']), a=a, psi=d['Psi'])

def gen(rng):
    import numpy as np
    n = int(rng.integers(2, 9))
    a = dict(RhoRiv=float(rng.choice([1000., 998., 1025.])), RhoSed=float(rng.uniform(2000, 3000)), Gravity=9.81, GrainSize=float(10**rng.uniform(-3.3, -1)), GrainRoughness=float(rng.uniform(.015, .05)),
             MPM_coef=float(rng.choice([8., 3.97, 5.])), MPM_exp=float(rng.choice([1.5, 1.6, 2.0, 1.0])), CritShieldsStress=float(rng.uniform(.02, .08)), VoidRatio=float(rng.choice([0., .3, .4])))
    h = 10**rng.uniform(-1.5, 1, n); tc = a['CritShieldsStress']*(a['RhoSed']-a['RhoRiv'])*a['GrainSize']/a['RhoRiv']
    vc = np.sqrt(tc*h**(1/3))/a['GrainRoughness']
    V = vc*rng.choice([-3., -1.5, -.7, 0., .5, .99, 1.01, 1.5, 4.], n)*(1 if rng.random() < .5 else rng.uniform(.8, 1.2, n))
    if rng.random() < .1: V = np.round(V).astype(float)
    return dict(z=rng.normal(size=n), B=rng.uniform(1, 200, n), h=h, V=V, dx=rng.uniform(1, 50, n-1), a=a, psi=float(rng.choice([0., .4, 1., rng.uniform(0, 1)])))
def nontrivial(inp):
    from pyvc.cspec import CS
    S = CS(); a = inp['a']; th = [shields(S, inp['h'], inp['V'], i, a) - a['CritShieldsStress'] for i in range(inp['h'].size)]
    ab = [v for v, t in zip(inp['V'], th) if t > 0]
    return (min(6, len(th)), any(t <= 0 for t in th), any(v < 0 for v in ab), any(v > 0 for v in ab), 0 if inp['psi'] == 0 else 2 if inp['psi'] == 1 else 1) if ab else None
def evaluate(inp, S):
    import numpy as np, copy
    from hapuamod import riv
    i0 = copy.deepcopy(inp); a = i0['a']; bad = []
    r = np.asarray(riv.calcBedload(inp['z'], inp['B'], inp['h'], inp['V'], inp['dx'], inp['a'], inp['psi'])); n = i0['h'].size
    if r.shape != (n-1,): return [('one rate per reach', str(r.shape))]
    q = [section(S, i0['B'], i0['h'], i0['V'], i, a) for i in range(n)]
    for i in range(n-1):
        w = (1-i0['psi'])*q[i] + i0['psi']*q[i+1]; sc = max(abs(q[i]), abs(q[i+1]))
        if abs(r[i]-w) > 1e-9*sc + 1e-14: bad.append(('weighting of the Meyer-Peter Mueller rates of the two end sections', 'reach %d: %r expected %r' % (i, r[i], w)))
    for k in ('z', 'B', 'h', 'V', 'dx'):
        if not np.array_equal(inp[k], i0[k]): bad.append(('%s is not modified' % k, ''))
    if inp['a'] != a: bad.append(('PhysicalPars is not modified', ''))
    return bad
