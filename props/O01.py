"""What is written to an output file is what is read back."""
LEVEL = 'proof'; BUDGET = 30
RULE = 'distinct (results or time series, records written, closed / open mix, outlet orientation, channel gaps, fractional seconds) classes'
TRUSTED = ['netCDF4 contract (pyvc/world.py): a store changes the addressed cells only, storing past the end of the unlimited dimension grows it, a load returns the cells; date2num / num2date are inverse']
ASSUMPTIONS = ['stored floats are exact (netCDF float32 rounding is not modelled), no stored value equals the netCDF fill value', 'times are exact reals', 'at least two transects and two river sections (squeeze keeps their arrays 1-D)']
def _file(p, fs, ts, n, m):
    """a file made by the real code, then filled with any number K of arbitrary records"""
    from pyvc import world as W; from pyvc import sc
    eng = p.eng; f = fs.add(W.Name('FileName'), False); t0 = W.symtime(p, 'StartTime'); X = p.arr('ShoreX', n); K = p.size('K')
    if ts: p.call('out.newTsOutFile', f, W.Name('ModelName'), t0)
    else:
        from props.O02 import KEYS
        p.call('out.newOutFile', f, W.Name('ModelName'), t0, X, p.real('Dx', gt=0), p.arr('River0', m), p.arr('Origin', 2), p.real('ShoreNormDir'), {k: p.real('P_' + k) for k in KEYS})
    d = fs.data[f]; d.vars['time'].dims[0].n = K
    for v in d.vars.values():
        if v.dims[0].grow:
            g, gn = eng.freshfn(v.name, *([sc.I]*len(v.dims) + [sc.R])), eng.freshfn(v.name + '_nan', *([sc.I]*len(v.dims) + [sc.B]))
            v.data = (lambda i, g=g, gn=gn: sc.xf(g(*[sc.zi(k) for k in i]), gn(*[sc.zi(k) for k in i]))) if v.name not in ('time', 'outlet_closed') else (lambda i, g=g: g(*[sc.zi(k) for k in i]))
    return f, d, X, K
def _record(p, n, m, tag):
    from pyvc import world as W; from pyvc.arr import isub
    A = lambda nm, *sh: p.arr(nm + tag, sh if len(sh) > 1 else sh[0], nan=True)
    return dict(CurrentTime=W.symtime(p, 'CurrentTime' + tag), SeaLevel=p.real('SeaLevel' + tag), RivFlow=p.real('RivFlow' + tag), Hs_offshore=p.real('Hs' + tag), EDir_h=p.real('EDir' + tag), ShoreY=A('ShoreY', n, 5), ShoreZ=A('ShoreZ', n, 4),
        LagoonWL=A('LagoonWL', n), LagoonVel=A('LagoonVel', n), LagoonBedload=A('LagoonBedload', n), OutletDep=A('OutletDep', n), OutletVel=A('OutletVel', n), OutletBedload=A('OutletBedload', n), LST=A('LST', isub(n, 1)), CST=A('CST', n), OverwashProp=A('Overwash', n),
        RiverElev=A('RiverElev', m), RiverDep=A('RiverDep', m), RiverVel=A('RiverVel', m), RiverBedload=A('RiverBedload', m), OutletEndX=A('OutletEndX', 2), OutletEndElev=A('EndElev', ()) if False else p.real('EndElev' + tag), OutletEndWidth=p.real('EndWidth' + tag),
        OutletEndDep=A('EndDep', 2), OutletEndVel=A('EndVel', 2), OutletEndBedload=p.real('EndBedload' + tag), Closed=p.bool('Closed' + tag))
def _tsrecord(p, tag):
    from pyvc import world as W
    return dict(CurrentTime=W.symtime(p, 'CurrentTime' + tag), SeaLevel=p.real('SeaLevel' + tag), RivFlow=p.real('RivFlow' + tag), Hs_offshore=p.real('Hs' + tag), EDir_h=p.real('EDir' + tag), MeanLagoonWl=p.real('MeanWl' + tag), LagOutflow=p.real('Outflow' + tag),
        SedInflow=p.real('SedInflow' + tag), OutletEndX=p.arr('OutletEndX' + tag, 2, nan=True), Closed=p.bool('Closed' + tag), MorDt=W.symdelta(p, 'MorDt' + tag))
def _expected(p, r, ts):
    """stored variable -> value written for the record (function of the position in the row)"""
    from pyvc.spec import V; from pyvc import sc
    q = {k: (p.old(v) if hasattr(v, 'buf') else v) for k, v in r.items()}; col = lambda a, j: (lambda i: a[i, j]); c = lambda v: (lambda *i: v)
    e = dict(sea_level=c(q['SeaLevel']), river_flow=c(q['RivFlow']), hs_offshore=c(q['Hs_offshore']), wave_dir=c(q['EDir_h']), outlet_end_x=lambda i: q['OutletEndX'][i], outlet_closed=c(V(sc.tofloat(sc.tonum(q['Closed'])))))
    if ts: e.update(lagoon_level=c(q['MeanLagoonWl']), lagoon_outflow=c(q['LagOutflow']), sed_inflow=c(q['SedInflow']), mordt=c(V(q['MorDt'].s))); return e
    for nm, j in zip(('shoreline_y', 'outlet_bank1_y', 'outlet_bank2_y', 'lagoon_y', 'cliff_y'), range(5)): e[nm] = col(q['ShoreY'], j)
    for nm, j in zip(('barrier_crest_z', 'outlet_bed_z', 'inner_barrier_crest_z', 'lagoon_bed_z'), range(4)): e[nm] = col(q['ShoreZ'], j)
    for nm, k in dict(lagoon_wl='LagoonWL', lagoon_vel='LagoonVel', lagoon_bedload='LagoonBedload', outlet_vel='OutletVel', outlet_bedload='OutletBedload', overwash_proportion='OverwashProp', river_bed_z='RiverElev', river_vel='RiverVel', river_bedload='RiverBedload').items():
        e[nm] = lambda i, k=k: q[k][i]
    e.update(outlet_wl=lambda i: q['OutletDep'][i] + q['ShoreZ'][i, 1], river_wl=lambda i: q['RiverElev'][i] + q['RiverDep'][i], lst=lambda i: q['LST'][i]*3600, cst=lambda i: q['CST'][i]*3600, outlet_end_width=c(q['OutletEndWidth']), outlet_end_z=c(q['OutletEndElev']),
             outlet_end_wl=c(q['OutletEndElev'] + q['OutletEndDep'][0]), outlet_end_vel=c(q['OutletEndVel'][0]), outlet_end_bedload=c(q['OutletEndBedload']), dummy_xs_dep=c(q['OutletEndDep'][1]), dummy_xs_vel=c(q['OutletEndVel'][1]))
    return e
def proof_write(ts):
    def run(p):
        from pyvc import world as W; from pyvc.arr import ieq, iadd, inrange; from pyvc.spec import V
        S, eng = p.S, p.eng; fs = W.Files(eng); n, m = p.size('n', 2), p.size('m', 2); f, d, X, K = _file(p, fs, ts, n, m)
        before = {k: v.data for k, v in d.vars.items()}; eng.tries = 0
        r = _tsrecord(p, '') if ts else _record(p, n, m, '')
        args = dict(r); p.call('out.writeTsOut' if ts else 'out.writeCurrent', f, **args)
        p.check('the file is closed and still there', not d.open and fs.data[f] is d and f not in fs.lost)
        p.check('each write appends exactly one new time', ieq(d.vars['time'].dims[0].n, iadd(K, 1)))
        epoch = fs.epoch(d.vars['time'].attrs['units'])
        p.check('the record carries the time it was written for', S.eq(V(d.vars['time'].data((K,))) + V(epoch), V(r['CurrentTime'].t)))
        e = _expected(p, r, ts); t, j = p.int('t'), p.int('j'); p.assume(inrange(t, 0, K))
        for k, v in d.vars.items():
            if not v.dims[0].grow: continue
            tail = (j,) if len(v.dims) == 2 else (); g = inrange(j, 0, v.dims[1].n) if tail else True
            p.check('earlier records are unchanged: ' + k, S.implies(g, S.eq(V(v.data((t,) + tail)), V(before[k]((t,) + tail)))))
            if k == 'time': continue
            if k not in e: p.check('every stored variable is one of the model variables: ' + k, False); continue
            p.check('stored variable %s is what was written' % k, S.implies(g, S.eq(V(v.data((K,) + tail)), e[k](*tail))))
        for k in e:
            if k not in d.vars: p.check('model variable %s is stored' % k, False)
        for k, v in r.items():
            if hasattr(v, 'buf'): p.unchanged(v)
    return run
def proof_read(p):
    """any record of any file: every value read back is the stored one; with the two contracts of writing, what was written for that time"""
    from pyvc import world as W; from pyvc.arr import ieq, iadd, isub, inrange; from pyvc.spec import V; from pyvc import sc
    S, eng = p.S, p.eng; fs = W.Files(eng); n, m = p.size('n', 2), p.size('m', 2); f, d, X, K = _file(p, fs, False, n, m)
    r = _record(p, n, m, ''); p.call('out.writeCurrent', f, **dict(r)); q = {k: (p.old(v) if hasattr(v, 'buf') else v) for k, v in r.items()}
    N = fs.dataset(f, 'r'); R = p.call('out.readTimestep', N, K)
    if not isinstance(R, tuple) or len(R) != 28: p.check('all values are returned', False); return
    (sl, qq, hs, dirn, X1, Y, Z, wl, v, owl, ov, E_, ew, ee, ev, ewl, xd, xv, oc, wp, dirn2, lst, cst, closed, riv, rwl, rv, t) = R; sv = lambda a: V(eng.scalar(a))
    for nm, a, b in (('sea level', sl, q['SeaLevel']), ('river flow', qq, q['RivFlow']), ('wave height', hs, q['Hs_offshore']), ('wave direction', dirn, q['EDir_h']), ('wave direction again', dirn2, q['EDir_h']), ('outlet end width', ew, q['OutletEndWidth']), ('outlet end level', ee, q['OutletEndElev']),
                     ('outlet end velocity', ev, q['OutletEndVel'][0]), ('outlet end water level', ewl, q['OutletEndElev'] + q['OutletEndDep'][0]), ('dummy section depth', xd, q['OutletEndDep'][1]), ('dummy section velocity', xv, q['OutletEndVel'][1])):
        p.check('%s read back is what was written' % nm, S.eq(sv(a), b))
    p.check('time read back is what was written', S.eq(V(t.t), V(q['CurrentTime'].t)) if isinstance(t, W.TS) else False)
    p.check('closed flag read back is what was written', S.iff(eng.truth(closed), q['Closed']))
    o = p.old(X)
    for nm, a, k, b in (('transects', X1, n, lambda i: o[i]), ('lagoon level', wl, n, lambda i: q['LagoonWL'][i]), ('lagoon velocity', v, n, lambda i: q['LagoonVel'][i]), ('outlet level', owl, n, lambda i: q['OutletDep'][i] + q['ShoreZ'][i, 1]), ('outlet velocity', ov, n, lambda i: q['OutletVel'][i]),
                        ('outlet end position', E_, 2, lambda i: q['OutletEndX'][i]), ('longshore transport', lst, n - 1, lambda i: q['LST'][i]), ('cross-shore transport', cst, n, lambda i: q['CST'][i]), ('river bed', riv, m, lambda i: q['RiverElev'][i]),
                        ('river level', rwl, m, lambda i: q['RiverElev'][i] + q['RiverDep'][i]), ('river velocity', rv, m, lambda i: q['RiverVel'][i])):
        A = p.cur(a); p.check('%s read back is what was written' % nm, S.And(ieq(A.shape[0], k), S.forall(0, k, lambda i: S.eq(A[i], b(i)))))
    for A, B_, w, nm in ((p.cur(Y), q['ShoreY'], 5, 'positions'), (p.cur(Z), q['ShoreZ'], 4, 'levels')):
        p.check('%s read back are what was written' % nm, S.And(ieq(A.shape[0], n), ieq(A.shape[1], w)))
        for j in range(w): p.check('%s column %d read back are what was written' % (nm, j), S.forall(0, n, lambda i: S.eq(A[i, j], B_[i, j])))
    e = q['OutletEndX']
    if oc is not None and hasattr(oc, 'shape') and isinstance(oc.shape[0], int) and oc.shape[0] == 0: p.check('no channel transects are read back only for a closed outlet', q['Closed'])
    else:
        p.assume(S.And(S.Not(S.isnan(e[0])), S.Not(S.isnan(e[1])))); c = p.cur(oc); up = e[0] < e[1]; lo, hi = S.min(e[0], e[1]), S.max(e[0], e[1])
        en = p.enum(lambda i: S.And(lo <= o[i], o[i] <= hi), 0, n)
        p.check('channel transects read back are those between the outlet ends', ieq(c.shape[0], en.count))
        p.check('channel transects read back run from the upstream to the seaward end', S.forall(0, en.count, lambda k: S.And(S.implies(up, lambda: ieq(c[k], en.at(k))), S.implies(S.Not(up), lambda: ieq(c[k], en.at(isub(isub(en.count, 1), k)))))))
def proof_find(p):
    from pyvc import world as W; from pyvc.arr import ieq, inrange; from pyvc.spec import V
    S, eng = p.S, p.eng; W.pandas(eng); fs = W.Files(eng); n, m = p.size('n', 2), p.size('m', 2); f, d, X, K = _file(p, fs, False, n, m); p.assume(K >= 1)
    N = fs.dataset(f, 'r'); D = W.symtime(p, 'DatetimeOfInterest'); r = p.call('out.closestTimeIx', N, D)
    if not isinstance(r, tuple) or len(r) != 2: p.check('an index and a time are returned', False); return
    ix, t = r; ix = eng.scalar(ix); T = lambda k: V(d.vars['time'].data((k,))) + V(fs.epoch(d.vars['time'].attrs['units'])); k = p.int('k'); p.assume(inrange(k, 0, K))
    p.check('a record of the file is found', inrange(ix, 0, K))
    p.check('no other record is closer to the requested time', S.abs(T(k) - V(D.t)) >= S.abs(T(ix) - V(D.t)), extra=(k,))
    p.check('the time returned is that of the record found', S.eq(V(t.t), T(ix)) if isinstance(t, W.TS) else False)
PROOFS = [('out.closestTimeIx', proof_find, {}), ('out.writeCurrent', proof_write(False), {}), ('out.writeTsOut', proof_write(True), {}), ('out.readTimestep after out.writeCurrent', proof_read, {'fork': True})]
def gen(rng):
    import numpy as np, pandas as pd
    n = int(rng.integers(4, 30)); dx = float(rng.choice([5., 10., 20.])); X = (np.arange(n)-n//2)*dx; m = int(rng.integers(1, 12))
    R = lambda *s: rng.normal(0, 10**rng.uniform(-3, 2), s)
    t0 = pd.Timestamp('2003-02-28') + pd.Timedelta(seconds=int(rng.integers(0, 10**7))); t = t0; recs = []
    ts = bool(rng.random() < .3); frac = bool(rng.random() < .5)
    for k in range(int(rng.integers(1, 5))):
        closed = bool(rng.random() < .4); Y, Z = R(n, 5), R(n, 4); p = rng.random(n) < .5
        Y[~p, 1:3] = np.nan; Z[~p, 1:3] = np.nan
        E = np.array([X[int(rng.integers(0, n))], X[int(rng.integers(0, n))] + float(rng.choice([0., dx/2]))])
        if closed and rng.random() < .4: E[0] = np.nan
        od, ov = R(n), R(n); q = ~p | (rng.random(n) < .3); od[q] = np.nan; ov[q] = np.nan
        wl, v = R(n), R(n); z = rng.random(n) < .2; wl[z] = np.nan; v[z] = np.nan
        ed, ev = (np.full(2, np.nan), np.full(2, np.nan)) if closed and rng.random() < .5 else (R(2), R(2))
        recs.append(dict(t=t, sl=float(R()), q=float(abs(R())), hs=float(abs(R())), dirn=float(rng.uniform(-1.5, 1.5)), Y=Y, Z=Z, wl=wl, v=v, lb=R(n), od=od, ov=ov, ob=R(n), lst=R(n-1)*1e-2, cst=abs(R(n))*1e-3, ow=(rng.random(n) < .5)*1.,
                         riv=R(m), rd=abs(R(m)), rv=R(m), rb=R(m), E=E, ee=np.asarray(float(R())), ew=np.asarray(float(abs(R()))), ed=ed, ev=ev, eb=0.0 if closed else R(1), closed=closed,
                         mean=float(R()), out=float(R()), sed=float(R()), dt=pd.Timedelta(seconds=float(rng.choice([15., 7.5, 3840, 100000, .25])))))
        t = t + pd.Timedelta(milliseconds=int(rng.choice([7500, 250, 86400000, 1234567 if frac else 60000])))
    return dict(X=X, dx=dx, t0=t0, m=m, recs=recs, ts=ts, P=None, seed=int(rng.integers(0, 10**6)), probe=float(rng.uniform(-.2, 1.2)))
def nontrivial(i):
    r = i['recs']; return (i['ts'], min(3, len(r)), any(a['closed'] for a in r), any(not a['closed'] for a in r), any(a['E'][0] < a['E'][1] for a in r), any(a['t'].microsecond for a in r))
def f32(a):
    import numpy as np
    return np.asarray(a, float).astype(np.float32).astype(float)
def same(a, b, rel=3e-7):
    import numpy as np
    a = np.ma.filled(np.ma.asarray(a).astype(float), np.nan); b = f32(b); a = np.asarray(a, float)
    if a.size != b.size: return False
    a, b = a.reshape(b.shape), b
    with np.errstate(all='ignore'): return bool(np.all((np.abs(a-b) <= rel*(np.abs(b)+1e-30)) | (np.isnan(a) & np.isnan(b))))
def evaluate(i, S):
    import numpy as np, pandas as pd, tempfile, os, shutil, netCDF4
    from hapuamod import out
    from props.O02 import pars
    d = tempfile.mkdtemp(); f = os.path.join(d, 'o.nc'); bad = []
    try:
        P = pars(np.random.default_rng(i['seed']))
        if i['ts']: out.newTsOutFile(f, 'm', i['t0'])
        else: out.newOutFile(f, 'm', i['t0'], i['X'], i['dx'], np.zeros(i['m']), np.zeros(2), .2, P)
        snap = None
        for k, r in enumerate(i['recs']):
            if i['ts']: out.writeTsOut(f, r['t'], r['sl'], r['q'], r['hs'], r['dirn'], r['mean'], r['out'], r['sed'], r['E'], r['closed'], r['dt'])
            else: out.writeCurrent(f, r['t'], r['sl'], r['q'], r['hs'], r['dirn'], r['Y'], r['Z'], r['wl'], r['v'], r['lb'], r['od'], r['ov'], r['ob'], r['lst'], r['cst'], r['ow'], r['riv'], r['rd'], r['rv'], r['rb'],
                                  r['E'], r['ee'], r['ew'], r['ed'], r['ev'], r['eb'], r['closed'])
            N = netCDF4.Dataset(f); now = {v: np.ma.filled(N[v][:].astype(float), np.nan) for v in N.variables if 'time' in N[v].dimensions}
            if N['time'].size != k+1: bad.append(('each write appends exactly one new time', '%d after %d writes' % (N['time'].size, k+1))); N.close(); return bad
            if snap is not None:
                for v in now:
                    if not np.array_equal(now[v][:k], snap[v], equal_nan=True): bad.append(('earlier records are unchanged', v)); N.close(); return bad
            snap = now; N.close()
        N = netCDF4.Dataset(f)
        tv = netCDF4.num2date(N['time'][:], N['time'].units, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
        for k, r in enumerate(i['recs']):
            if abs((pd.Timestamp(tv[k])-r['t']).total_seconds()) > 2e-6: bad.append(('record carries the time it was written for', '%s expected %s' % (tv[k], r['t'])))
            raw = lambda v: N[v][k]
            chk = dict(sea_level=r['sl'], river_flow=r['q'], hs_offshore=r['hs'], wave_dir=r['dirn'], outlet_end_x=r['E'], outlet_closed=r['closed'])
            if i['ts']: chk.update(lagoon_level=r['mean'], lagoon_outflow=r['out'], sed_inflow=r['sed'], mordt=r['dt'].total_seconds())
            else: chk.update(cst=r['cst']*3600, lst=r['lst']*3600, overwash_proportion=r['ow'], lagoon_bedload=r['lb'], outlet_bedload=r['ob'], river_bedload=r['rb'], outlet_end_bedload=np.ravel(r['eb'])[0], dummy_xs_dep=r['ed'][1], dummy_xs_vel=r['ev'][1])
            for v, e in chk.items():
                if not same(raw(v), e): bad.append(('stored variable %s is what was written' % v, '%r expected %r' % (raw(v), e)))
            if i['ts']: continue
            (sl, q, hs, dirn, X, Y, Z, wl, v, owl, ov, E, ew, ee, ev, ewl, xd, xv, oc, wp, dirn2, lst, cst, closed, riv, rwl, rv, t) = out.readTimestep(N, k)
            for nm, a, b in (('sea level', sl, r['sl']), ('river flow', q, r['q']), ('wave height', hs, r['hs']), ('wave direction', dirn, r['dirn']), ('wave direction', dirn2, r['dirn']), ('transects', X, i['X']), ('lagoon level', wl, r['wl']), ('lagoon velocity', v, r['v']),
                             ('outlet level', owl, r['od']+r['Z'][:, 1]), ('outlet velocity', ov, r['ov']), ('outlet end position', E, r['E']), ('outlet end width', ew, r['ew']), ('outlet end level', ee, r['ee']), ('outlet end velocity', ev, r['ev'][0]),
                             ('outlet end water level', ewl, r['ee']+r['ed'][0]), ('dummy section depth', xd, r['ed'][1]), ('dummy section velocity', xv, r['ev'][1]), ('longshore transport', lst, r['lst']), ('cross-shore transport', cst, r['cst']), ('river bed', riv, r['riv']),
                             ('river level', rwl, r['riv']+r['rd']), ('river velocity', rv, r['rv'])):
                if not same(a, b, 1e-6): bad.append(('%s read back is what was written' % nm, '%r expected %r' % (np.asarray(a).ravel()[:6], np.asarray(b).ravel()[:6])))
            for c in range(5):
                if not same(Y[:, c], r['Y'][:, c]): bad.append(('shore position column %d read back is what was written' % c, ''))
            for c in range(4):
                if not same(Z[:, c], r['Z'][:, c]): bad.append(('level column %d read back is what was written' % c, ''))
            if closed is not r['closed'] and bool(closed) != r['closed']: bad.append(('closed flag read back is what was written', ''))
            if abs((pd.Timestamp(t.isoformat())-r['t']).total_seconds()) > 2e-6: bad.append(('time read back is what was written', '%s' % t))
            if not r['closed']:
                e = f32(r['E']); lo, hi = min(e), max(e); want = [j for j in range(i['X'].size) if lo <= f32(i['X'])[j] <= hi]
                if e[0] >= e[1]: want = want[::-1]
                if list(map(int, oc)) != want: bad.append(('channel transects read back follow from the outlet ends', '%r expected %r' % (oc, want)))
            elif np.size(oc): bad.append(('channel transects read back follow from the outlet ends', 'closed: %r' % oc))
        if not i['ts']:
            ts = [r['t'] for r in i['recs']]; want = ts[0] + (ts[-1]-ts[0])*i['probe'] if len(ts) > 1 else ts[0]
            ix, tc = out.closestTimeIx(N, want); dd = [abs((a-want).total_seconds()) for a in ts]
            if not (np.size(ix) == 1 and dd[int(np.ravel(ix)[0])] <= min(dd)+1e-5): bad.append(('record closest to a requested time is found', '%r' % ix))
            elif abs((pd.Timestamp(tc)-ts[int(np.ravel(ix)[0])]).total_seconds()) > 2e-6: bad.append(('record closest to a requested time is found', '%r' % tc))
        N.close()
        return bad
    finally: shutil.rmtree(d, ignore_errors=True)
