"""The unsteady solver always leaves a usable state with its caller (riv.solveFullPreissmann)."""
from props import preiss
from props.channel import unsteady, run, Spy
LEVEL = 'proof'; BUDGET = 25
RULE = 'distinct (open, number of steps up to 4, split point, iteration limit, some step reverted to steady, depths or velocities clamped) classes'
PROOFS = [('riv.solveFullPreissmann: %s (%s)' % (f, 'closed' if c else 'open'), (lambda p, f=f, c=c: getattr(preiss, f)(p, c)), {}) for f in ('usable',) for c in (False, True)]
OTIMEOUT = 150
TRUSTED = ['contract of scipy.linalg.solve_banded: the returned vector satisfies every row of the banded system (LAPACK is not verified)',
           'contract of riv.solveSteady at its call (positive depths, non-zero velocities); its own postconditions are decided by H01']
ASSUMPTIONS = ['equality of one call and successive calls follows from: the loop state is (h, V) plus the friction slope and flow area proved equal to functions of (h, V), and the previous sea level proved equal to the downstream level; it is also evaluated directly']
def gen(rng):
    import numpy as np
    T = int(rng.integers(1, 5)); d = unsteady(rng, T=T, closed=bool(rng.random() < .2), tol=rng.choice([1e-3, 1e-4, 1e-5]), nmax=8)
    d['kind'] = 'run'
    if rng.random() < .4: d['N']['MaxIt'] = int(rng.choice([1, 2, 3, 4]))
    d['Nsteady'] = None
    if rng.random() < .15: d['V'][rng.integers(d['V'].size)] = 0.
    if rng.random() < .1: d['h'][rng.integers(d['h'].size)] *= -1
    d['split'] = int(rng.integers(0, T)) if T > 1 else 0
    return d
def nontrivial(d): return (d['closed'], d['Q'].size, d['split'], min(4, d['N']['MaxIt']), bool((d['V'] == 0).any()), bool((d['h'] <= 0).any()))
def evaluate(d, S):
    import numpy as np, copy
    from hapuamod import riv
    d0 = copy.deepcopy(d); bad = []; T = d0['Q'].size
    def go(h, V, a, b): run(riv, copy.deepcopy(d0), h, V, d0['Q'][a:b], d0['S'][a:b])
    steady = []
    real = riv.solveSteady
    N2 = dict(d0['N'], MaxIt=200)
    # the fallback profile must itself be computable: give it its own iteration limit
    def ss(dx, z, B, n, Q, sea, N): r = real(dx, z, B, n, Q, sea, dict(N, MaxIt=200)); steady.append((Q, sea, r[0].copy(), r[1].copy())); return r
    riv.solveSteady = ss
    try:
        h, V = d0['h'].copy(), d0['V'].copy()
        try: go(h, V, 0, T)
        except (AssertionError, ValueError): return bad
        calls = list(steady)
        if not (h > 0).all(): bad.append(('every depth is positive', '%r' % h.tolist()))
        if not (V != 0).all(): bad.append(('no velocity is zero', '%r' % V.tolist()))
        # step by step
        hs, Vs = d0['h'].copy(), d0['V'].copy(); clean = True; rev = 0
        for k in range(T):
            del steady[:]
            try:
                with Spy(riv) as spy: go(hs, Vs, k, k+1)
            except (AssertionError, ValueError): return bad
            if spy.deltas and not steady and not (np.abs(spy.deltas[-1]) < d0['N']['ErrTol']).all():
                bad.append(('an unconverged step leaves the steady profile of that step with the caller', 'step %d: last correction %.3g after %d iterations, no steady profile' % (k, np.abs(spy.deltas[-1]).max(), len(spy.deltas)))); return bad
            if len(spy.deltas) > d0['N']['MaxIt']: bad.append(('a step takes no more than the allowed iterations', '%d' % len(spy.deltas))); return bad
            if not (hs > 0).all() or not (Vs != 0).all(): bad.append(('every depth is positive and no velocity zero after each step', '')); return bad
            if steady:
                rev += 1
                w = real(d0['dx'], d0['z'], d0['B'], d0['P']['RoughnessManning'], d0['Q'][k], d0['S'][k], N2)
                if not (np.allclose(hs, w[0], rtol=0, atol=1e-9) and np.allclose(Vs, w[1], rtol=0, atol=1e-9)):
                    bad.append(('an unconverged step leaves the steady profile of that step with the caller', 'step %d: depths %r expected %r' % (k, hs.tolist(), w[0].tolist()))); return bad
            if abs(d0['z'][-1]+hs[-1]-d0['S'][k]) > 1e-9: clean = False
        if T > 1 and not d0['closed'] and clean and (d0['h'] > 0).all():
            tol = max(1e-6, 50*d0['N']['ErrTol']**2)
            if len(calls) == rev and not (np.allclose(h, hs, rtol=0, atol=tol) and np.allclose(V, Vs, rtol=0, atol=tol)):
                bad.append(('one call over the series equals successive calls', '%d steps, %d reverted: depths %r expected %r' % (T, rev, h.tolist(), hs.tolist())))
    finally: riv.solveSteady = real
    return bad
