"""Steady river profile (riv.solveSteady)."""
from props.channel import channel, pars
LEVEL = 'exploration'; BUDGET = 20
RULE = 'distinct (number of sections up to 5, some section critical, downstream critical, iteration failed, negative initial estimate) classes'
from fractions import Fraction
def steady(p):
    from pyvc import sc
    from pyvc.arr import isub
    from pyvc.spec import V as W, raw
    S = p.S; n = p.size('n', 1); n1 = isub(n, 1)
    pos = lambda v: v > 0
    z = p.arr('z', n); B = p.arr('B', n, cond=pos); dx = p.arr('dx', n1, cond=pos)
    r = p.real('rough', ge=0); Q = p.real('Q', gt=0); sea = p.real('sea')
    N = dict(Beta=p.real('Beta', gt=0), ErrTol=p.real('ErrTol', gt=0), MaxIt=p.int('MaxIt'))
    h, V = p.call('riv.solveSteady', dx, z, B, r, Q, sea, N)
    h, V = p.cur(h), p.cur(V); z, B, dx = p.cur(z), p.cur(B), p.cur(dx)
    g = Fraction('9.81')
    def crit(i): return S.cbrt(Q*Q/(B[i]*B[i]*g))
    def fin(x):
        v, a, b, c = sc.parts(raw(x)); return S.Not(S.Or(a, b, c))
    def val(x): return W(sc.parts(raw(x))[0])
    def good(i): return S.And(fin(h[i]), fin(V[i]), val(h[i]) >= crit(i), S.eq(val(V[i])*B[i]*val(h[i]), Q))
    p.check('downstream depth', S.And(fin(h[n1]), S.eq(val(h[n1]), S.max(crit(n1), sea - z[n1]))))
    p.lemma('the last section is usable', good(n1))
    j = p.eng.fresh('j', sc.I); p.assume(j >= 0); p.assume(j < sc.zi(n1)); 
    ex = (j, j + 1, sc.zi(n) - 2 - j, sc.zi(n1))
    p.check('depths and velocities are numbers', S.And(fin(h[j]), fin(V[j])), extra=ex)
    p.check('no depth is below critical depth', val(h[j]) >= crit(j), extra=ex)
    p.lemma('critical depth is positive', crit(j) > 0, extra=ex)
    q = Q/(B[j]*val(h[j])); p.lemma('velocity is discharge over area', S.eq(val(V[j]), q), extra=ex)
    p.check('the same discharge passes every section', S.eq(val(V[j])*B[j]*val(h[j]), Q), extra=ex, using=[], rules=[(val(V[j]), q)])
PROOFS = [('riv.solveSteady', steady, {'ieee': True, 'name_stores': True})]
OTIMEOUT = 60
def gen(rng):
    import numpy as np
    z, B, dx = channel(rng); N = pars(rng); q = float(rng.choice([.2, 1., 4.])*B.mean()*rng.uniform(.5, 1.5))
    if rng.random() < .1: z = z + np.linspace(rng.uniform(0, 5), 0, z.size)
    n = float(rng.choice([.02, .04, .1]))
    if rng.random() < .02:      # estimate exactly at the minimum of specific energy
        q = float(np.sqrt(9.81)*10); B = np.array([10., 20.]); z = np.zeros(2); dx = np.array([10.]); N['Beta'] = 1.0
        return dict(z=z, B=B, dx=dx, n=0.0, Q=q, sea=1.0, N=N)
    return dict(z=z, B=B, dx=dx, n=n, Q=q, sea=float(z[-1] + rng.uniform(-1, 3)), N=N)
def nontrivial(d):
    import numpy as np
    c = (d['Q']**2/(d['B']**2*9.81))**(1/3)
    return (min(5, d['z'].size), d['sea']-d['z'][-1] < c[-1], bool((np.diff(d['z']) > 0).any()), bool((np.diff(d['B']) != 0).any()), d['n'] == 0)
def evaluate(d, S):
    import numpy as np, copy
    from hapuamod import riv
    d0 = copy.deepcopy(d); bad = []
    try: h, V = riv.solveSteady(d['dx'], d['z'], d['B'], d['n'], d['Q'], d['sea'], d['N'])
    except AssertionError: return bad
    z, B, dx, n, Q, N = d0['z'], d0['B'], d0['dx'], d0['n'], d0['Q'], d0['N']; g = 9.81
    c = (Q**2/(B**2*g))**(1/3)
    if h.shape != z.shape or V.shape != z.shape: return [('one depth and velocity per section', '')]
    for k in range(z.size):
        if not S.eq(h[k]*B[k]*V[k], Q): bad.append(('the same discharge passes every section', 'section %d: %r' % (k, h[k]*B[k]*V[k])))
        if not h[k] >= c[k]*(1-1e-9): bad.append(('no depth below critical or undefined', 'section %d: depth %r critical %r' % (k, h[k], c[k])))
    if not S.eq(h[-1], max(c[-1], d0['sea']-z[-1])): bad.append(('downstream depth', '%r' % h[-1]))
    E = z + h + N['Beta']*V**2/(2*g); Sf = V**2*n**2/h**(4/3)
    for k in range(z.size-1):
        r = E[k]-E[k+1]-dx[k]*(Sf[k]+Sf[k+1])/2
        if not (abs(r) <= N['ErrTol']*(1+1e-6)+1e-9 or abs(h[k]-c[k]) <= 1e-9*c[k]): bad.append(('energy balance within tolerance, or critical depth', 'section %d: residual %r depth %r critical %r' % (k, r, h[k], c[k])))
    for k in ('z', 'B', 'dx'):
        if not np.array_equal(d[k], d0[k]): bad.append(('inputs are not modified', k))
    return bad
