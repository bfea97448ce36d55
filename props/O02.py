"""An existing result file is never overwritten without consent."""
LEVEL = 'proof'; BUDGET = 25
RULE = 'distinct (file kind, existing file, overwrite flag, answer at the prompt) classes'
KEYS = 'Kcoef RhoSed RhoSea RhoRiv VoidRatio Gravity GammaRatio WaveDataDepth ClosureDepth BeachSlope RiverSlope GrainSize CritShieldsStress UpstreamLength RiverWidth RoughnessManning WidthDepthRatio BackshoreElev MaxOutletElev OT_coef OT_exp BeachTopElev SpitWidth TargetBarHeight TargetBarWidth MinOutletWidth OutletSedSpreadDist OutletBankEroFac BarrierPermeability ShorelineErosionRate'.split()
YES = ['Y', 'y', 'Yes', 'yes', 'YES']; NO = ['n', 'N', 'no', '', ' ', 'No', 'false', 'o', 'nein', 'not yes', 'never', '0']
TRUSTED = ['contracts of os.path.isfile / os.remove / input / netCDF4.Dataset (pyvc/world.py): a file is lost by remove or by Dataset(mode w) only']
ASSUMPTIONS = ['stored floats are exact (netCDF float32 rounding is not modelled)']
def proof(ts):
    def run(p):
        from pyvc import world as W, engine as E; from pyvc.arr import ieq, isub, iadd; from pyvc.spec import V; from pyvc import sc
        S, eng = p.S, p.eng; eng.tries = 1; fs = W.Files(eng); W.pandas(eng); ex, ov = p.bool('file_exists'), p.bool('Overwrite'); f = fs.add(W.Name('FileName'), ex)
        t0 = W.symtime(p, 'StartTime'); name = W.Name('ModelName'); err = None
        n, m = p.size('n', 2), p.size('m', 1); X, riv, org = p.arr('ShoreX', n), p.arr('RiverElev', m), p.arr('Origin', 2); dx, th = p.real('Dx'), p.real('ShoreNormDir'); P = {k: p.real('P_' + k) for k in KEYS}
        try:
            if ts: p.call('out.newTsOutFile', f, name, t0, Overwrite=ov)
            else: p.call('out.newOutFile', f, name, t0, X, dx, riv, org, th, P, Overwrite=ov)
        except E.PyExc as e: err = e
        says = lambda opts: S.Or(*[t.equals(o) for t in fs.asked for o in opts]); plain = says(YES); any_yes = S.Or(*[W.Text(eng, 'a', t).equals(o) for t in fs.asked for o in ('y', 'yes')])
        if f in fs.lost: p.check('an existing file is destroyed only if overwriting was requested or the user answers yes', S.Or(ov, any_yes))
        if err is not None:
            p.check('otherwise the existing file is left untouched', f not in fs.lost and not [x for x in fs.log if x[1] is f])
            p.check('the run stops with an error only without consent to overwrite an existing file', S.And(ex, S.Not(ov), S.Not(plain))); return
        p.check('without consent the run stops with an error', S.implies(ex, S.Or(ov, any_yes)))
        d = fs.data[f]; p.check('a new file is created and closed', isinstance(d, W.Nc) and not d.open and fs.log[-1][1] is f and [x for x, g in fs.log].count('create') == 1)
        if not isinstance(d, W.Nc): return
        p.check('no records yet', 'time' in d.vars and d.vars['time'].dims[0].grow and ieq(d.vars['time'].dims[0].n, 0))
        p.check('model name is stored', d.attrs.get('ModelName') is name)
        if ts: return
        def stored(v, k, val):
            if v not in d.vars or len(d.vars[v].dims) != 1: p.check('model grid is stored: ' + v, False); return
            D = d.vars[v]; p.check('model grid is stored: ' + v, S.And(ieq(D.dims[0].n, k), S.forall(0, k, lambda i: S.eq(V(D.data((i,))), val(i)))))
        x = p.old(X); real = lambda k: V(eng.np.b_float(k))
        stored('transect_x', n, lambda i: x[i]); stored('shore_segment_x', isub(n, 1), lambda i: (x[i] + x[iadd(i, 1)])/2); stored('river_dist', m, lambda i: real(i)*dx)
        at = lambda k: V(eng.scalar(d.attrs[k])) if k in d.attrs and (sc.is_num(eng.scalar(d.attrs[k]))) else None
        def attr(k, v):
            a = at(k); p.check('origin, orientation and parameters are stored: ' + k, False if a is None else S.eq(a, v))
        o = p.old(org); attr('ModelOriginX', o[0]); attr('ModelOriginY', o[1]); attr('ModelOrientation', th*180/S.pi)
        for k in KEYS: attr(k, P[k])
        for A in (X, riv, org): p.unchanged(A)
    return run
PROOFS = [('out.newOutFile', proof(False), {}), ('out.newTsOutFile', proof(True), {})]
def pars(rng): return {k: float(round(rng.uniform(.01, 3000), 4)) for k in KEYS}
def gen(rng):
    import numpy as np, pandas as pd
    n = int(rng.integers(3, 30)); dx = float(rng.choice([5., 10., 20., 12.5]))
    return dict(ts=bool(rng.random() < .4), exists=rng.choice(['no', 'bytes', 'results']), over=bool(rng.random() < .35), answer=str(rng.choice(YES if rng.random() < .35 else NO)),
                X=(np.arange(n)-n//2)*dx, dx=dx, riv=rng.normal(0, 1, int(rng.integers(1, 20))), origin=rng.normal(0, 1e5, 2), dirn=float(rng.uniform(-3.1, 3.1)), P=pars(rng), t0=pd.Timestamp('1999-12-31') + pd.Timedelta(seconds=int(rng.integers(0, 10**8))), sub=bool(rng.random() < .3))
_last = [None]
def nontrivial(i): return (i['ts'], str(i['exists']), i['over'], i['answer'] in YES)
def make(out, i, f, over=None):
    o = i['over'] if over is None else over
    if i['ts']: out.newTsOutFile(f, 'name', i['t0'], Overwrite=o) if o is not None else out.newTsOutFile(f, 'name', i['t0'])
    else: out.newOutFile(f, 'name', i['t0'], i['X'], i['dx'], i['riv'], i['origin'], i['dirn'], i['P'], Overwrite=o)
def evaluate(i, S):
    import numpy as np, tempfile, os, shutil, builtins, netCDF4
    from hapuamod import out
    d = tempfile.mkdtemp(); f = os.path.join(d, 'res ults.nc'); bad = []; asked = []
    old = builtins.input
    def ask(*a): asked.append(a); return i['answer']
    try:
        builtins.input = ask
        other = os.path.join(d, 'other.nc'); open(other, 'wb').write(b'neighbour')
        if i['exists'] == 'bytes': open(f, 'wb').write(b'precious results')
        elif i['exists'] == 'results': 
            make(out, i, f, True)
            N = netCDF4.Dataset(f, 'a'); N.setncattr('precious', 'yes'); N.close()
        before = open(f, 'rb').read() if i['exists'] != 'no' else None
        consent = i['exists'] == 'no' or i['over'] or i['answer'] in YES
        err = None
        try: make(out, i, f)
        except Exception as e: err = e
        if open(other, 'rb').read() != b'neighbour' or sorted(os.listdir(d)) != sorted(['other.nc'] + (['res ults.nc'] if os.path.exists(f) else [])): bad.append(('no other file is touched', '%r' % os.listdir(d)))
        if not consent:
            if not os.path.exists(f) or open(f, 'rb').read() != before: bad.append(('existing file is left untouched without consent', 'answer %r overwrite %r' % (i['answer'], i['over'])))
            if err is None: bad.append(('without consent the run stops with an error', ''))
            return bad
        if err is not None: bad.append(('with consent or no existing file a new file is created', repr(err))); return bad
        try: N = netCDF4.Dataset(f)
        except Exception as e: bad.append(('with consent or no existing file a new file is created', repr(e))); return bad
        if 'precious' in N.ncattrs(): bad.append(('with consent the file is new', ''))
        if N['time'].size != 0: bad.append(('new file holds no records', ''))
        if N.ModelName != 'name': bad.append(('model name stored', N.ModelName))
        if not i['ts']:
            g = lambda v: np.ma.filled(N[v][:], np.nan).astype(float)
            for v, e in (('transect_x', i['X']), ('shore_segment_x', (i['X'][:-1]+i['X'][1:])/2), ('river_dist', np.arange(i['riv'].size)*i['dx'])):
                if g(v).shape != e.shape or not np.allclose(g(v), e, rtol=1e-6): bad.append(('model grid is stored: %s' % v, '%r expected %r' % (g(v)[:4], e[:4])))
            if not np.allclose([N.ModelOriginX, N.ModelOriginY], i['origin']) or not np.isclose(N.ModelOrientation, np.rad2deg(i['dirn'])): bad.append(('origin and orientation are stored', ''))
            for k in KEYS:
                if k not in N.ncattrs() or float(N.getncattr(k)) != i['P'][k]: bad.append(('parameters are stored: %s' % k, '%r' % (N.getncattr(k) if k in N.ncattrs() else None))); break
        N.close()
        return bad
    finally:
        builtins.input = old; shutil.rmtree(d, ignore_errors=True)
