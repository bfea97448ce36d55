"""Boundary series interpolated linearly in time at exactly the requested times."""
LEVEL = 'proof'; BUDGET = 20
RULE = 'distinct (series or table, number of requested times, first / last / between / on a sample, regular spacing) classes'
TRUSTED = ['pandas contracts of index comparison, slicing, append / unique / reindex / sort_index / interpolate(method=time) / loc (pyvc/world.py)']
ASSUMPTIONS = ['times and values are exact reals', 'the columns of a table are handled independently (pandas); the proof is about an arbitrary one']
def proof(p):
    from pyvc import world as W; from pyvc.arr import ieq, isub, iadd, inrange, ile; from pyvc.spec import V; from pyvc.solver import Forall; from pyvc import sc
    W.pandas(p.eng); S = p.S; n, m = p.size('n', 2), p.size('m', 1)
    X, Y, Q = p.arr('X', n), p.arr('Y', n), p.arr('Q', m); x, y, q = p.old(X), p.old(Y), p.old(Q)
    for a, k in ((x, n), (q, m)):      # strictly increasing
        p.forall_assume(2, lambda i, j, a=a, k=k: S.implies(S.And(inrange(i, 0, k), inrange(j, 0, k), i < j), lambda: a[i] < a[j]), 'increasing')
    p.assume(S.And(x[0] <= q[0], q[isub(m, 1)] <= x[isub(n, 1)]))
    T = W.Table(X, Y, 0, n); I = W.TI(Q)
    R = p.call('core.interpolate_at', T, I)
    if not isinstance(R, W.Series): p.check('a series is returned', False); return
    t, r = p.cur(R.index.a), p.cur(R.values)
    p.check('one value per requested time', S.And(ieq(R.values.shape[0], m), ieq(R.index.a.shape[0], m)))
    j, k = p.int('j'), p.int('k'); p.assume(S.And(inrange(j, 0, m), inrange(k, 0, isub(n, 1))))
    p.check('values at exactly the requested times in the requested order', S.eq(t[j], q[j]))
    p.assume(S.And(x[k] <= q[j], q[j] <= x[iadd(k, 1)]))
    if hasattr(R, 'table'):
        lo, hi = R.table.lo, R.table.hi; k1 = iadd(k, 1); ex = (j, k, k1, lo, isub(hi, 1))
        p.lemma('requested times in order', S.And(q[0] <= q[j], q[j] <= q[isub(m, 1)]), extra=(j, 0, isub(m, 1)))
        p.lemma('rows kept reach the first requested time', x[lo] <= q[0], extra=(lo,)); p.lemma('rows kept reach the last requested time', x[isub(hi, 1)] >= q[isub(m, 1)], extra=(isub(hi, 1),))
        p.lemma('no neighbour is cut off before the first requested time', S.Or(ile(lo, k), S.And(ieq(lo, k1), S.eq(q[j], x[k1]))), extra=ex)
        p.lemma('no neighbour is cut off after the last requested time', S.Or(k1 < hi, S.And(ieq(k1, hi), S.eq(q[j], x[k]))), extra=ex)
    a, b = V(y[k].x), V(y[iadd(k, 1)].x)
    p.check('straight line between the neighbouring samples', S.And(S.Not(S.isnan(r[j])), S.eq((r[j] - a)*(x[iadd(k, 1)] - x[k]), (b - a)*(q[j] - x[k]))), extra=(j, k, iadd(k, 1)))
    p.check('a sample time gives the sample', S.And(S.implies(S.eq(q[j], x[k]), lambda: S.eq(r[j], a)), S.implies(S.eq(q[j], x[iadd(k, 1)]), lambda: S.eq(r[j], b))), extra=(j, k, iadd(k, 1)))
    p.cover('requested times inside the range')
    p.unchanged(X); p.unchanged(Y); p.unchanged(Q)
PROOFS = [('core.interpolate_at', proof, {})]
def gen(rng):
    import numpy as np, pandas as pd
    n = int(rng.integers(2, 60)); t0 = pd.Timestamp('2001-03-01') + pd.Timedelta(seconds=int(rng.integers(0, 10**7)))
    reg = bool(rng.random() < .5)
    gaps = np.full(n-1, float(rng.choice([60, 900, 3600, 86400]))) if reg else np.maximum(np.round(10**rng.uniform(0, 5, n-1), 3), .001)
    off = np.concatenate([[0], np.cumsum(gaps)]); idx = pd.DatetimeIndex([t0 + pd.Timedelta(milliseconds=int(round(o*1000))) for o in off])
    cols = int(rng.integers(0, 5))
    mk = lambda: np.where(rng.random(n) < .1, 0., rng.normal(0, 10**rng.uniform(-2, 3), n))
    df = pd.Series(mk(), index=idx) if cols == 0 else pd.DataFrame({'c%d' % k: mk() for k in range(cols)}, index=idx)
    k = int(rng.integers(0, 5)); span = (idx[-1]-idx[0]).value
    if k == 0: q = [idx[int(rng.integers(0, n))]]
    elif k == 1: q = [idx[0] + pd.Timedelta(int(rng.integers(0, span//10**6+1))*10**6)]
    elif k == 2:
        a = idx[0] + pd.Timedelta(int(rng.integers(0, span//10**6+1))*10**6); h = pd.Timedelta(seconds=float(rng.choice([1, 5, 60, 7.5])))
        q = [t for t in (a + h*j for j in range(int(rng.integers(1, 40)))) if t <= idx[-1]]
    elif k == 3: q = sorted({idx[0] + pd.Timedelta(int(x)*10**6) for x in rng.integers(0, span//10**6+1, int(rng.integers(1, 20)))})
    else: q = sorted({idx[int(j)] for j in rng.integers(0, n, int(rng.integers(1, 6)))} | {idx[0] if rng.random() < .5 else idx[-1]})
    return dict(df=df, q=pd.DatetimeIndex(q), reg=reg)
def nontrivial(i):
    import pandas as pd
    d, q = i['df'], i['q']
    return (isinstance(d, pd.Series), min(3, len(q)), bool(q[0] == d.index[0]), bool(q[-1] == d.index[-1]), bool(q.isin(d.index).any()), bool((~q.isin(d.index)).any()), i['reg'])
def evaluate(i, S):
    import numpy as np, pandas as pd, copy
    from hapuamod import core
    df, q = i['df'], i['q']; d0, q0 = df.copy(deep=True), q.copy()
    o = core.interpolate_at(df, q); bad = []
    if list(o.index) != list(q0): bad.append(('values at exactly the requested times in the requested order', '%r' % list(o.index)[:5])); return bad
    x = d0.index.values.astype('datetime64[ns]').astype(np.int64); xq = q0.values.astype('datetime64[ns]').astype(np.int64)
    tab, res = (d0.to_frame('v'), o.to_frame('v')) if isinstance(d0, pd.Series) else (d0, o)
    if list(tab.columns) != list(res.columns): bad.append(('every column is interpolated', '%r' % list(res.columns))); return bad
    for c in tab.columns:
        y, r = tab[c].values, res[c].values
        for j, t in enumerate(xq):
            k = int(np.searchsorted(x, t, 'right'))-1
            if x[k] == t: e = y[k]; ok = r[j] == e; nm = 'at a sample time the value is the sample'
            else:
                w = (t-x[k])/(x[k+1]-x[k]); e = y[k] + (y[k+1]-y[k])*w; ok = abs(r[j]-e) <= 1e-7*max(abs(y[k]), abs(y[k+1])); nm = 'between samples the value is the straight line between the neighbouring samples'
            if not ok: bad.append((nm, 'column %s at %s: %r expected %r' % (c, q0[j], r[j], e))); break
    if not d0.equals(df) or list(d0.index) != list(df.index): bad.append(('the source series is not changed', ''))
    return bad
