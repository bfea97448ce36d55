"""Momentum balance of accepted unsteady steps (riv.solveFullPreissmann)."""
from props import preiss
from props.channel import unsteady, accepted, Step
LEVEL = 'proof'; BUDGET = 25
RULE = 'distinct (open, number of sections up to 6, time weighting, momentum coefficient, tolerance) classes with an accepted forward-flow step'
PROOFS = [('riv.solveFullPreissmann: %s (%s)' % (f, 'closed' if c else 'open'), (lambda p, f=f, c=c: getattr(preiss, f)(p, c)), {}) for f in ('momentum',) for c in (False, True)]
OTIMEOUT = 150
TRUSTED = ['contract of scipy.linalg.solve_banded: the returned vector satisfies every row of the banded system (LAPACK is not verified)',
           'contract of riv.solveSteady at its call (positive depths, non-zero velocities); its own postconditions are decided by H01']
ASSUMPTIONS = ['forward flow in the reach at the iterate', 'steps whose matrix was singular (LinAlgError; the code then perturbs the matrix) are excluded',
               'the step from an exact linearisation to the order of the tolerance is Taylor expansion; the constants are checked by the bounded evaluation']
def gen(rng): return unsteady(rng, T=int(rng.choice([1, 2, 2, 3])), closed=bool(rng.random() < .15))
def nontrivial(d): return (d['closed'], min(6, d['z'].size), d['N']['Theta'], d['N']['Beta'], d['N']['ErrTol'])
def evaluate(d, S):
    import numpy as np, copy
    from hapuamod import riv
    d0 = copy.deepcopy(d); bad = []; tol = d0['N']['ErrTol']
    h0, V0, sea0 = d0['h'], d0['V'], d0['z'][-1]+d0['h'][-1]
    # step k of one call over the whole series, started from what the call over the first k-1 values leaves
    for k in range(d0['Q'].size):
        r = accepted(riv, d, k+1, h0, V0)
        if r is None: return bad
        h, V = r
        s = Step(d0['z'], d0['B'], d0['LA'], d0['LL'], d0['closed'], h0, V0, h, V, d0['dx'], d0['dt'], d0['Q'][k], d0['S'][k], sea0, d0['N'], d0['P'])
        ok = (V > 2*tol) & (h > 2*tol) & (V0 > 0)
        j = np.flatnonzero(ok[:-1] & ok[1:] & ~(np.abs(s.mom) <= s.mom_bound))
        if j.size: bad.append(('momentum balance of each reach', 'step %d reach %d: error %.3g m4/s, a true Newton correction below tolerance allows %.3g' % (k, j[0], s.mom[j[0]], s.mom_bound[j[0]])))
        h0, V0, sea0 = h, V, d0['S'][k]
    return bad
