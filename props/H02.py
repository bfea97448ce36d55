"""Water balance of accepted unsteady steps (riv.solveFullPreissmann)."""
from props import preiss
from props.channel import unsteady, accepted, Step
LEVEL = 'proof'; BUDGET = 25
RULE = 'distinct (open, number of sections up to 6, lagoon storage, seepage, time weighting, tolerance) classes with an accepted step'
PROOFS = [('riv.solveFullPreissmann: %s (%s)' % (f, 'closed' if c else 'open'), (lambda p, f=f, c=c: getattr(preiss, f)(p, c)), {}) for f in ('water', 'ends') for c in (False, True)]
OTIMEOUT = 150
TRUSTED = ['contract of scipy.linalg.solve_banded: the returned vector satisfies every row of the banded system (LAPACK is not verified)',
           'contract of riv.solveSteady at its call (positive depths, non-zero velocities); its own postconditions are decided by H01']
ASSUMPTIONS = ['a reach in which a corrected depth or velocity was clamped by the safety limits in the last iteration is excluded', 'steps whose matrix was singular (LinAlgError; the code then perturbs the matrix) are excluded']
def gen(rng): return unsteady(rng, T=int(rng.choice([1, 2, 3])))
def nontrivial(d): return (d['closed'], min(6, d['z'].size), bool(d['LA'].any()), d['P']['BarrierPermeability'] > 0, d['N']['Theta'], d['N']['ErrTol'])
def evaluate(d, S):
    import numpy as np, copy
    from hapuamod import riv
    d0 = copy.deepcopy(d); bad = []
    h0, V0, sea0 = d0['h'], d0['V'], d0['z'][-1]+d0['h'][-1]
    for t in range(d0['Q'].size):
        r = accepted(riv, d, t+1, h0, V0)
        if r is None: break
        h, V = r; s = Step(d0['z'], d0['B'], d0['LA'], d0['LL'], d0['closed'], h0, V0, h, V, d0['dx'], d0['dt'], d0['Q'][t], d0['S'][t], sea0, d0['N'], d0['P'])
        k = np.flatnonzero(~(np.abs(s.cont) <= s.cont_bound))
        if k.size: bad.append(('stored water changes by inflow minus outflow minus seepage', 'step %d reach %d: volume error %.3g m3, allowed %.3g' % (t, k[0], s.cont[k[0]], s.cont_bound[k[0]])))
        if not abs(s.us) <= s.us_bound: bad.append(('upstream discharge is the supplied inflow', 'error %.3g' % s.us))
        if not abs(s.ds) <= s.ds_bound: bad.append(('no water leaves downstream' if d0['closed'] else 'downstream level is the supplied sea level', 'error %.3g' % s.ds))
        h0, V0, sea0 = h, V, d0['S'][t]
    for n in ('z', 'B', 'LA', 'LL', 'dx', 'Q', 'S'):
        if not np.array_equal(d[n], d0[n]): bad.append(('inputs are not modified', n))
    return bad
