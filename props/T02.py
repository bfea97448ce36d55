"""A run advances to its end time and writes outputs on schedule."""
import os
LEVEL = 'proof'; BUDGET = 40
RULE = 'distinct (end time hit exactly, output interval shorter than steps, series end with the run, breach of a closed mouth, number of steps, day-long steps) classes of runs'
TRUSTED = ['pandas contracts of Timestamp and Timedelta arithmetic and date_range (pyvc/world.py)', 'matplotlib calls and logging have no effect on the run']
ASSUMPTIONS = ['times are exact reals', 'the configuration is valid: positive time steps, end not before start, boundary series cover the run (loadmod)',
               'each part of a step (assembleChannel, solvers, transport, storing, drawing) completes; only the unsteady solver may fail', 'updateMorphology returns a positive step (M02)', 'the assertions and array operations of core.main on values left arbitrary hold']
def nextdue(p):
    from pyvc import world as W; from pyvc.spec import V; import z3; from pyvc import sc
    W.pandas(p.eng); S = p.S
    d, i, t = p.real('due'), p.real('interval', ge=0), p.real('now'); p.assume(t >= d)
    r = p.call('core.nextDue', W.TS(d.x), W.TD(i.x), W.TS(t.x))
    if not isinstance(r, W.TS): p.check('a time is returned', False); return
    r = V(r.t); k = p.eng.fresh('k', sc.I); kr = V(z3.ToReal(k))
    p.check('no interval: an output is due every step', S.implies(S.eq(i, 0), lambda: S.eq(r, d)))
    p.check('the next due time lies after the present', S.implies(i > 0, lambda: r > t))
    p.check('no due time in between is skipped', S.implies(i > 0, lambda: r - i <= t))
    fl = p.eng.fresh('q', sc.I); fr = V(z3.ToReal(fl)); x = (t - d)/i
    p.assume(S.implies(i > 0, lambda: S.And(fr <= x, x < fr + 1)))
    p.check('due times stay on the grid of the interval', S.implies(i > 0, lambda: S.eq(r, d + (fr + 1)*i)))
    a, b = p.eng.fresh('a', sc.I), p.eng.fresh('b', sc.I); A, B = (V(z3.ToReal(x)) for x in (a, b)); now = lambda K: S.And(d + K*i > t, d + K*i - i <= t)
    p.assume(S.implies(i > 0, lambda: S.And(S.Or(A <= B, A >= B + 1), S.implies(A >= B + 1, lambda: (A - B - 1)*i >= 0), S.Or(B <= A, B >= A + 1), S.implies(B >= A + 1, lambda: (B - A - 1)*i >= 0))))      # products of non-negative factors
    p.check('only one due time on the grid is the next', S.implies(S.And(i > 0, now(A), now(B)), lambda: S.eq(A, B)))
    p.cover('a time past the due time')
def run(p):
    from pyvc import world as W, history as H, engine as E, sc; from pyvc.sc import And, Or, Not, Implies, Iff; from pyvc.spec import V; from pyvc.solver import Forall; from pyvc.arr import mk, inrange, isub, ieq; import z3
    eng = p.eng; S = p.S; W.pandas(eng); H.anymode(eng); TS, TD, Any, B = W.TS, W.TD, H.Any, W.B
    t0, t1 = p.real('start'), p.real('end'); p.assume(t0 <= t1)
    hyd, mmin, mmax = p.real('hyd', gt=0), p.real('mmin', gt=0), p.real('mmax', gt=0)
    oi, ti, li, pi = (p.real(n, ge=0) for n in ('outint', 'tsint', 'logint', 'plotint')); cl = p.bool('closed')
    Start, End = TS(t0.x), TS(t1.x)
    TP = dict(StartTime=Start, EndTime=End, HydDt=TD(hyd.x), MorDtMin=TD(mmin.x), MorDtMax=TD(mmax.x))
    OO = dict(OutFile=E.Opaque('name'), TsOutFile=E.Opaque('name'), OutInt=TD(oi.x), TsOutInt=TD(ti.x), LogInt=TD(li.x), PlotInt=TD(pi.x))
    class Table:
        def __init__(self, n): self.n = n
    tabs = dict(FlowTs=Table('flow'), WaveTs=Table('waves'), SeaLevelTs=Table('sea'))
    known = dict(TimePars=TP, OutputOpts=OO, Closed=cl, **tabs)
    names = H.returned(eng, 'loadmod.loadModel', [])
    if not all(k in names for k in known): raise sc.OutOfSubset('results of loadModel')
    def load(eng, a, k): hist.event('load', cl); return tuple(known.get(n, Any(n)) for n in names)
    def assemble(eng, a, k):
        c = H.params(eng, 'riv.assembleChannel', a, k)[6]; c = eng.truth(c); r = eng.fresh('closed', sc.B); eng.fact(Implies(c, r)); hist.event('asm', c, r)
        return tuple(Any('channel') for _ in range(10)) + (r,)
    def interp(eng, a, k):
        tab, q = H.params(eng, 'core.interpolate_at', a, k)[:2]
        if not isinstance(tab, Table) or not isinstance(q, W.TI): raise sc.OutOfSubset('interpolate_at')
        n = q.a.shape[0]; f = q.a.snap(); at = lambda i: f((i,))
        hist.event('bdy', tab.n, n, at)
        if tab.n == 'waves': return Any('waves')
        return W.Series(q, p.arr('bdy_' + tab.n, n))
    def fulls(eng, a, k):
        hist.event('full')
        if eng.choose(2): raise E.PyExc('RuntimeError')
    def morph(eng, a, k):
        ps = H.params(eng, 'mor.updateMorphology', a, k); dt = [x for x in ps if isinstance(x, TD)]; c = [x for x in ps if sc.is_boolv(x)]
        if len(dt) != 1 or len(c) != 1: raise sc.OutOfSubset('arguments of updateMorphology')
        new = eng.fresh('mordt', sc.R); eng.fact(new > 0); b = eng.fresh('breach', sc.B); hist.event('mor', eng.truth(c[0]), dt[0].s, new, b); return (TD(new), b)
    def writer(kind, qual):
        def f(eng, a, k):
            t = [x for x in H.params(eng, qual, a, k)[1:] if isinstance(x, TS)]; hist.event(kind, t[0].t if t else None)
        return f
    def nextdue_(eng, a, k):        # contract proved above
        d, i, t = H.params(eng, 'core.nextDue', a, k)
        if not (isinstance(d, TS) and isinstance(i, TD) and isinstance(t, TS)): raise sc.OutOfSubset('nextDue')
        eng.oblige('nextDue is asked once the due time has come', sc.zb(sc.le(d.t, t.t)))
        r = eng.fresh('due', sc.R); pos = sc.gt(i.s, 0); eng.fact(sc.ite(pos, And(sc.gt(r, t.t), sc.le(sc.sub(r, i.s), t.t)), sc.eq(r, d.t))); hist.event('next', d.t, i.s, t.t, r); return TS(r)
    if 'nextDue' in eng.module('core').defs: eng.contracts['core.nextDue'] = nextdue_
    def some(n=None): return lambda eng, a, k: Any() if n is None else tuple(Any() for _ in range(n))
    eng.contracts.update({'loadmod.loadModel': load, 'riv.assembleChannel': assemble, 'core.interpolate_at': interp, 'riv.solveFullPreissmann': fulls, 'riv.solveSteady': some(2), 'riv.storeHydraulics': some(6),
        'riv.calcBedload': some(), 'riv.storeBedload': some(3), 'coast.longShoreTransport': some(), 'coast.runup': some(), 'coast.overtopping': some(2), 'mor.updateMorphology': morph,
        'out.newOutFile': some(), 'out.newTsOutFile': some(), 'out.writeCurrent': writer('out', 'out.writeCurrent'), 'out.writeTsOut': writer('ts', 'out.writeTsOut')})
    for f in ('longSection', 'updateLongSection', 'bdyCndFig', 'updateBdyCndFig', 'modelView', 'updateModelView'): eng.contracts['visualise.' + f] = some()
    le, lt = sc.le, sc.lt
    def entry(ev):
        asm = [e for e in ev if e[0] == 'asm']
        return dict(now=Start, out=TS(sc.add(Start.t, OO['OutInt'].s)), ts=TS(sc.add(Start.t, OO['TsOutInt'].s)), closed=asm[-1][2] if asm else cl)
    def due(d, i, t, ev):       # the one time on the grid d + k*i with  t < it <= t + i
        nx = [e for e in ev if e[0] == 'next']
        if nx:
            r = eng.fresh('next', sc.R); eng.fact(sc.ite(sc.gt(i, 0), And(sc.gt(r, t), sc.le(sc.sub(r, i), t)), sc.eq(r, d)))
            for _, d2, i2, t2, r2 in nx: eng.fact(Implies(And(sc.eq(d, d2), sc.eq(i, i2), sc.eq(t, t2)), sc.eq(r, r2)))
            return r
        q = eng.fresh('q', sc.I); x = z3.Real('x'); ii = sc.zr(i); x = sc.zr(eng.np.divide(sc.sub(t, d), i))
        eng.fact(Implies(ii > 0, z3.And(z3.ToReal(q) <= x, x < z3.ToReal(q) + 1)))
        return sc.ite(sc.gt(i, 0), sc.add(d, sc.mul(i, z3.ToReal(q) + 1)), d)
    def step(g, ev):
        T = g['now'].t; mors = [e for e in ev if e[0] == 'mor']; asm = [e for e in ev if e[0] == 'asm']; posts = []
        C = lambda n, f: posts.append((n, f))
        C('a step updates the morphology exactly once', len(mors) == 1)
        if len(mors) != 1: return g, posts
        _, cin, dtin, dt, breach = mors[0]; im = ev.index(mors[0])
        rest = sc.sub(End.t, T); T1 = sc.add(T, sc.ite(lt(dt, rest), dt, rest))
        C('time advances strictly', lt(T, T1)); C('time never passes the end', le(T1, End.t))
        C('the channel is assembled once a step, before the morphology', len(asm) == 1 and ev.index(asm[0]) < im)
        if len(asm) == 1:
            C('a breach in one step re-opens the mouth for the next, otherwise the closure state is carried on', Iff(asm[0][1], g['closed'])); C('the morphology sees the closure state of the assembled channel', Iff(cin, asm[0][2]))
        g1 = dict(now=TS(T1), closed=And(asm[0][2], Not(breach)) if asm else g['closed'])
        for kind, iv in (('out', OO['OutInt']), ('ts', OO['TsOutInt'])):
            d = g[kind].t; w = [e for e in ev if e[0] == kind]; is_due = le(d, T1)
            C('%s: at most one record a step' % kind, len(w) <= 1)
            C('%s: a record exactly when the step reaches a due time' % kind, is_due if w else Not(is_due))
            if w: C('%s: the record carries the time reached' % kind, sc.eq(w[0][1], T1) if w[0][1] is not None else False); C('%s: the record is written after the morphology update' % kind, ev.index(w[0]) > im)
            g1[kind] = TS(due(d, iv.s, T1, ev)) if w else g[kind]
        for tab in ('flow', 'sea'):
            for e in [e for e in ev if e[0] == 'bdy' and e[1] == tab]:
                _, _, n, at = e; i = eng.fresh('hi', sc.I); r = inrange(i, 0, n); lim = sc.ite(lt(sc.add(T, dtin), End.t), sc.add(T, dtin), End.t)
                C('the hydraulics run over at least one time', sc.zb(sc.zi(n) >= 1)); C('%s is looked up within the step, never past the end' % tab, Implies(r, And(lt(T, at(i)), le(at(i), lim))))
            C('%s is looked up every step' % tab, any(e[0] == 'bdy' and e[1] == tab for e in ev))
        for e in [e for e in ev if e[0] == 'bdy' and e[1] == 'waves']:
            _, _, n, at = e; C('waves are looked up within the step, never past the end', And(sc.zb(ieq(n, 1)), le(T, at(0)), le(at(0), T1)))
        return g1, posts
    def facts(g):
        T = g['now'].t; return [('the time lies between start and end', And(le(Start.t, T), le(T, End.t)))] + [('no %s record is overdue' % k, Implies(sc.gt(iv.s, 0), lt(T, g[k].t))) for k, iv in (('out', OO['OutInt']), ('ts', OO['TsOutInt']))]
    hist = H.History(p, entry, step, facts, dict(start=Start, end=End)); hist.state = None
    p.call('core.main', E.Opaque('file'), p.bool('overwrite').x if hasattr(p.bool('o2'), 'x') else p.bool('overwrite'))
    if hist.state is None: p.check('the run has a loop over steps', False); return
    p.check('the run ends when the end time is reached', sc.eq(hist.state['now'].t, End.t))
    n0 = [e for e in eng.events if e[0] in ('out', 'ts')]
    for kind in ('out', 'ts'):
        w = [e for e in n0 if e[0] == kind]; p.check('%s: one record before the first step, at the start time' % kind, len(w) == 1 and w[0][1] is not None and sc.eq(w[0][1], Start.t))
    p.cover('a finished run')
PROOFS = [('core.nextDue', nextdue, {}), ('core.main', run, {})]
CNF = """ModelName = 'm'
[BoundaryConditions]
RiverFlow = flow.csv
WaveConditions = wave.csv
SeaLevel = %(sea)s
    [[ShotnoiseHydrographParameters]]
    [[HarmonicTideParameters]]
    MeanSeaLevel = 0
    TidalRange = 1.4
    SeaLevelDt = %(seadt)s
[SpatialInputs]
ShorelineLengthLeft = 60
ShorelineLengthRight = 80
BeachWidth = 90
[InitialConditions]
OutletWidth = 35
OutletBed = -1.0
LagoonBed = -1.0
BarrierElev = 5.5
[Time]
StartTime = '%(start)s'
EndTime = '%(end)s'
HydDt = %(hyd)s
MorDtMin = %(mmin)s
MorDtMax = %(mmax)s
[PhysicalParameters]
Kcoef = 0.017
WaveDataDepth = 10.0
ClosureDepth = 5.0
BeachSlope = 0.13
RiverSlope = 0.003
GrainSize = 0.018
UpstreamLength = 60
RiverWidth = 100
RoughnessManning = 0.04
GrainRoughness = 0.035
WidthDepthRatio = 30
BackshoreElev = 10
MaxOutletElev = -2.0
BeachTopElev = 2
SpitWidth = 10
TargetBarHeight = 5.5
TargetBarWidth = 90
MinOutletWidth = 1.0
[NumericalParameters]
Dx = 20
Beta = 0
[OutputOptions]
OutFile = %(out)s
TsOutFile = %(tsout)s
OutInt = %(outint)s
TsOutInt = %(tsint)s
LogInt = 3600
PlotInt = 0
"""
def gen(rng):
    import pandas as pd
    t0 = pd.Timestamp('2000-09-01') + pd.Timedelta(minutes=int(rng.integers(0, 2880)))
    mmin = float(rng.choice([10., 15., 60.])); hyd = mmin/2 if rng.random() < .5 else mmin/4
    mmax = mmin*float(rng.choice([1, 4, 16]))
    real = bool(rng.random() < .15)
    nst = int(rng.integers(1, 9)); fac = [float(2.**rng.integers(0, 4)) if rng.random() < .8 else float(rng.choice([.5, .75, 1.3])) for _ in range(60)]
    if rng.random() < .12: hyd = 21600.; mmin = mmax = 43200.; fac = [float(rng.choice([1, 2, 4, 5])) for _ in range(60)]
    total = sum(fac[:nst])*mmin
    cut = rng.choice([0., 0., 1., 3., hyd/2, mmin*.4]); total = max(total-cut, 1.) if rng.random() < .7 else total + cut
    total = float(round(total*4)/4) or mmin
    end = t0 + pd.Timedelta(seconds=total)
    tight = bool(rng.random() < .5)
    outint = float(rng.choice([mmin, mmin*3, mmin*.4, 7*mmin, total, total*2, mmin*2.5])); tsint = float(rng.choice([mmin, mmin*2, mmin*.3, total]))
    return dict(start=str(t0), end=str(end), total=total, hyd=hyd, mmin=mmin, mmax=mmax, outint=outint, tsint=tsint, fac=fac, breach=[bool(rng.random() < .3) for _ in range(60)], shut=[bool(rng.random() < .3) for _ in range(60)], tight=tight, relic=[None if rng.random() < .5 else int(rng.choice([-1, 1, 2])) for _ in range(60)], real=real,
                tide=bool(rng.random() < .3), over=bool(rng.random() < .5))
_last = [None]
def nontrivial(i): return _last[0]
def write(i, d):
    import pandas as pd, numpy as np
    t0, t1 = pd.Timestamp(i['start']), pd.Timestamp(i['end'])
    a = t0.floor('min') - (pd.Timedelta(0) if i['tight'] else pd.Timedelta(minutes=7)); b = t1.ceil('min') + (pd.Timedelta(0) if i['tight'] else pd.Timedelta(days=6))
    if a == t0.floor('min') and b <= a: b = a + pd.Timedelta(minutes=1)
    n = 5; span = (b-a)
    mins = sorted({int(span.total_seconds()//60*k//(n-1)) for k in range(n)})
    ts = [a + pd.Timedelta(minutes=m) for m in mins]
    f = lambda t: t.strftime('%d/%m/%Y %H:%M')
    open(d+'/flow.csv', 'w').write('Time,Flow\n' + ''.join('%s,%.1f\n' % (f(t), 20+3*k) for k, t in enumerate(ts)))
    open(d+'/sea.csv', 'w').write('Time,SeaLevel\n' + ''.join('%s,%.2f\n' % (f(t), .1*k) for k, t in enumerate(ts)))
    open(d+'/wave.csv', 'w').write('Time,WavePeriod,Wlen_h,WavePower,EDir_h,Hsig_Offshore\n' + ''.join('%s,8,70,%d,%d,1.0\n' % (f(t), 1000+k, 5*k) for k, t in enumerate(ts)))
    tide = i['tide'] and (i['total']/60) % 1 == 0
    c = dict(i, sea='harmonic' if tide else 'sea.csv', seadt=1 if tide and i['total'] < 86400 else (i['total']/60 if tide else 60), out=d+'/o.nc', tsout=d+'/ts.nc')
    open(d+'/m.cnf', 'w').write(CNF % c)
    return d+'/m.cnf'
def schedule(times, t0, every):
    """indices of the steps at which a record is due: the first one reaching each due time"""
    import pandas as pd
    due, out = t0 + every, []
    for t in times:
        if t >= due:
            out.append(t)
            while due <= t: due += every
    return out
def evaluate(i, S):
    import numpy as np, pandas as pd, tempfile, shutil, netCDF4
    from hapuamod import core, mor, riv, loadmod
    _last[0] = None
    d = tempfile.mkdtemp(); bad = []; cwd = os.getcwd()
    t0, t1 = pd.Timestamp(i['start']), pd.Timestamp(i['end'])
    log = dict(dt=[], given=[], closedarg=[], breach=[], asm=[])
    reals = (mor.updateMorphology, riv.assembleChannel)
    names = reals[0].__code__.co_varnames[:reals[0].__code__.co_argcount]; anames = reals[1].__code__.co_varnames[:reals[1].__code__.co_argcount]
    def stub(*a, **k):
        v = dict(zip(names, a)); v.update(k); j = len(log['dt'])
        log['given'].append(v['MorDt']); log['closedarg'].append(bool(v['Closed']))
        if i['real']: dt, br = reals[0](*a, **k)
        else:
            dt = pd.Timedelta(seconds=i['mmin'])*i['fac'][j % 60]; br = i['breach'][j % 60]
            v['OutletEndWidth'].flat[0] = 35.
            if br and i['relic'][j % 60] is not None:      # a relic channel opens: its ends are at different transects
                X, Y, Z, E = v['ShoreX'], v['ShoreY'], v['ShoreZ'], v['OutletEndX']; o = int(np.flatnonzero(X == 0)[0]); q = o + i['relic'][j % 60]
                if 2 < q < X.size-3:
                    for c in range(min(o, q), max(o, q)+1):
                        if np.isnan(Y[c, 1]): Y[c, 1] = Y[c, 0]-15.; Y[c, 2] = Y[c, 1]-20.; Z[c, 1] = -1.; Z[c, 2] = Z[c, 0]
                    E[:] = [X[o], X[q]]
            elif br: pass
            elif i['shut'][j % 60]: v['OutletEndWidth'].flat[0] = .2       # the mouth closes before the next step
        log['dt'].append(dt); log['breach'].append(bool(br))
        if len(log['dt']) > 3000: raise RuntimeError('the run does not advance to its end time')
        return dt, br
    def asm(*a, **k):
        v = dict(zip(anames, a)); v.update(k); r = reals[1](*a, **k); log['asm'].append((bool(v['Closed']), bool(r[-1]))); return r
    try:
        cf = write(i, d); os.chdir(d)
        mor.updateMorphology, riv.assembleChannel = stub, asm
        err = None
        try: core.main(cf, Overwrite=i['over'])
        except Exception as e: err = e
        if err is not None and (len(log['asm']) == 0): return []             # the configuration was not accepted
        import traceback
        times, t = [], t0
        for x in log['dt']: t = min(t+x, t1); times.append(t)
        reach = times.index(t1)+1 if t1 in times else None
        if err is not None:
            where = [q for q in traceback.extract_tb(err.__traceback__) if '/hapuamod/' in q.filename]
            bad.append(('the run ends normally when its end time is reached', '%s: %s at %s after %d steps' % (type(err).__name__, str(err)[:120], where[-1].name + ':' + str(where[-1].lineno) if where else '', len(times)))); return bad
        if not log['dt']: return []
        if any(not x > pd.Timedelta(0) for x in log['dt']): return []
        if reach is None: bad.append(('the run advances to its end time', 'stopped at %s of %s' % (times[-1], t1)))
        elif reach != len(times): bad.append(('the run stops when its end time is reached', '%d steps more' % (len(times)-reach)))
        if log['given'][0] != pd.Timedelta(seconds=i['mmin']) or any(abs((g-x).total_seconds()) > 1e-9 for g, x in zip(log['given'][1:], log['dt'][:-1])): bad.append(('each step starts from the time step of the previous one', '%r %r' % (log['given'][:4], log['dt'][:4])))
        for fn, every, nm in (('o.nc', i['outint'], 'output'), ('ts.nc', i['tsint'], 'time series')):
            N = netCDF4.Dataset(os.path.join(d, fn)); tv = [pd.Timestamp(x) for x in np.atleast_1d(netCDF4.num2date(N['time'][:], N['time'].units, only_use_cftime_datetimes=False, only_use_python_datetimes=True))]
            cl = np.asarray(N['outlet_closed'][:]).astype(bool) if nm == 'output' else None; N.close()
            want = [t0] + schedule(times, t0, pd.Timedelta(seconds=every))
            near = lambda p, q: abs((p-q).total_seconds()) < 1e-4
            if any(tv[k] >= tv[k+1] for k in range(len(tv)-1)): bad.append(('record times increase strictly', '%s: %r' % (nm, [str(x) for x in tv])))
            if tv and tv[-1] > t1 + pd.Timedelta(microseconds=2): bad.append(('no record after the end time', str(tv[-1])))
            if not tv or not near(tv[0], t0): bad.append(('a record is written for the start time', nm))
            elif len(tv) != len(want) or not all(near(p, q) for p, q in zip(tv, want)): bad.append(('a record is written at the first step reaching each due output time', '%s every %gs: %r expected %r, steps %r' % (nm, every, [str(x-t0) for x in tv], [str(x-t0) for x in want], [str(x-t0) for x in times])))
        # open / closed carried from step to step: asm[0] initial, asm[1] first step
        steps = log['asm'][1:]; reopened = False
        for k in range(1, len(steps)):
            expect = False if log['breach'][k-1] else steps[k-1][1]
            if steps[k][0] != expect:
                bad.append(('a breach re-opens a closed mouth for the next step, otherwise the state is kept', 'step %d given closed=%r, expected %r' % (k, steps[k][0], expect))); break
            if log['breach'][k-1] and steps[k-1][1]: reopened = True
        _last[0] = (reach is not None and t0 + sum(log['dt'], pd.Timedelta(0)) == t1, i['outint'] < max(x.total_seconds() for x in log['dt']), i['tight'], reopened, min(4, len(times)), max(log['dt']) >= pd.Timedelta(days=1), i['real'])
        return bad
    finally:
        mor.updateMorphology, riv.assembleChannel = reals
        os.chdir(cwd); shutil.rmtree(d, ignore_errors=True)
