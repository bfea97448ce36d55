"""Synthetic tide: regular times, sine about mean level with the 12 h 25.2 min period."""
LEVEL = 'proof'; BUDGET = 10
RULE = 'distinct (interval divides the span, number of values, sign of range, long span) classes'
TRUSTED = ['pandas date_range / Timedelta / Series contracts (pyvc/world.py)', '|sin| <= 1, sin 0 = 0']
ASSUMPTIONS = ['times are exact reals (pandas rounds the interval to whole nanoseconds)', 'the given interval is positive']
def proof(p):
    from pyvc import world as W; from pyvc.arr import ieq, isub; from pyvc.spec import V, FA
    W.pandas(p.eng); S = p.S
    s, e, h = W.symtime(p, 'StartDate'), W.symtime(p, 'EndDate'), W.symdelta(p, 'OutputInt', gt=0); m, r = p.real('MeanSeaLevel'), p.real('TidalRange', ge=0)
    R = p.call('synth.harmonicTide', s, e, h, m, r)
    if not isinstance(R, W.Series) or not isinstance(R.index, W.TI): p.check('a time series is returned', False); return
    n = R.index.a.shape[0]; t, v = p.cur(R.index.a), p.cur(R.values); S0, E0, H = V(s.t), V(e.t), V(h.s); real = lambda k: V(p.eng.np.b_float(k))
    p.check('one value per time', ieq(R.values.shape[0], n))
    p.check('times start at the start date and are one interval apart', S.forall(0, n, lambda k: S.eq(t[k], S0 + real(k)*H)))
    p.check('no time after the end date', S.forall(0, n, lambda k: t[k] <= E0))
    p.check('the series goes on until the next time would pass the end date', S0 + real(n)*H > E0)
    T = V(p.eng.np.b_float(44712))
    p.check('mean level plus half the range times the sine of elapsed time over 12 h 25.2 min', S.forall(0, n, lambda k: S.eq(v[k], m + r/2*S.sin(S.pi*2*(t[k] - S0)/T))))
    p.check('starts at mean level', S.implies(n > 0, lambda: S.eq(v[0], m)))
    p.check('never leaves mean level plus or minus half the range', S.forall(0, n, lambda k: S.And(v[k] - m <= r/2, m - v[k] <= r/2)))
PROOFS = [('synth.harmonicTide', proof, {})]
def gen(rng):
    import pandas as pd
    t0 = pd.Timestamp('2000-01-01') + pd.Timedelta(seconds=int(rng.integers(0, 10**9)))
    dt = pd.Timedelta(seconds=float(rng.choice([60, 600, 900, 1800, 3600, 5000, 86400, 44712, .5, 100000])))
    n = int(rng.integers(0, 400)); frac = float(rng.choice([0., .3, .999]))
    return dict(t0=t0, t1=t0 + dt*n + pd.Timedelta(microseconds=int(dt.value//1000*frac)), dt=dt, mean=float(rng.normal(0, 2)), rng=float(rng.choice([0., 1., 2.4, rng.uniform(0, 10)])), n=n, frac=frac)
def nontrivial(i): return (i['frac'], min(5, i['n']), i['rng'] > 0, i['dt'].total_seconds() > 44712)
def evaluate(i, S):
    import numpy as np, pandas as pd, math
    from hapuamod import synth
    o = synth.harmonicTide(i['t0'], i['t1'], i['dt'], i['mean'], i['rng'])
    bad = []; n = int((i['t1']-i['t0'])//i['dt']) + 1
    want = [i['t0'] + i['dt']*k for k in range(n)]
    if len(o) != n or list(o.index) != want: bad.append(('one value at every output interval from the start date up to the end date', '%d values, expected %d' % (len(o), n))); return bad
    v = np.asarray(o.values, float); T = (12*60+25.2)*60
    e = np.array([i['mean'] + i['rng']/2*math.sin(2*math.pi*math.fmod((t-i['t0']).total_seconds(), T)/T) for t in want])
    if not np.allclose(v, e, rtol=0, atol=1e-9*(1+abs(i['mean'])+i['rng'])): k = int(np.argmax(np.abs(v-e))); bad.append(('mean level plus half the range times the sine of elapsed time over 12 h 25.2 min', 'at %s: %r expected %r' % (want[k], v[k], e[k])))
    if not abs(v[0]-i['mean']) < 1e-12*(1+abs(i['mean'])): bad.append(('starts at mean level', '%r' % v[0]))
    if (np.abs(v-i['mean']) > i['rng']/2*(1+1e-12)+1e-12*(1+abs(i['mean']))).any(): bad.append(('never leaves mean level plus or minus half the range', ''))
    return bad
