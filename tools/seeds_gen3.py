import sys; sys.path.insert(0,'/verif')
from props.T02 import CNF
DEMO = r'''import os, tempfile, shutil, numpy as np, pandas as pd, netCDF4
from hapuamod import core, mor, riv
CNF = """%s"""
def run(end, dts, breach=(), shut=(), ends=None, outint=600., tsint=600.):
    d = tempfile.mkdtemp(); cwd = os.getcwd(); given = []; real = (mor.updateMorphology, riv.assembleChannel)
    names = real[0].__code__.co_varnames[:real[0].__code__.co_argcount]; an = real[1].__code__.co_varnames[:real[1].__code__.co_argcount]; n = [0]
    def stub(*a, **k):
        v = dict(zip(names, a)); v.update(k); j = n[0]; n[0] += 1
        v['OutletEndWidth'].flat[0] = .2 if j in shut else 35.
        if ends and j in ends: v['OutletEndX'][:] = ends[j]
        return pd.Timedelta(seconds=dts[j %% len(dts)]), j in breach
    def asm(*a, **k):
        v = dict(zip(an, a)); v.update(k); given.append(bool(v['Closed'])); return real[1](*a, **k)
    try:
        ts = pd.date_range('2000-08-31', periods=5, freq='12H'); f = lambda t: t.strftime('%%d/%%m/%%Y %%H:%%M')
        open(d+'/flow.csv','w').write('Time,Flow\n' + ''.join('%%s,20\n' %% f(t) for t in ts))
        open(d+'/sea.csv','w').write('Time,SeaLevel\n' + ''.join('%%s,0.1\n' %% f(t) for t in ts))
        open(d+'/wave.csv','w').write('Time,WavePeriod,Wlen_h,WavePower,EDir_h,Hsig_Offshore\n' + ''.join('%%s,8,70,1000,5,1.0\n' %% f(t) for t in ts))
        open(d+'/m.cnf','w').write(CNF %% dict(sea='sea.csv', seadt=60, start='2000-09-01 00:00', end=end, hyd=300, mmin=600, mmax=3600, out=d+'/o.nc', tsout=d+'/t.nc', outint=outint, tsint=tsint))
        os.chdir(d); mor.updateMorphology, riv.assembleChannel = stub, asm
        core.main(d+'/m.cnf', Overwrite=True)
        r = []
        for fn in ('o.nc', 't.nc'):
            N = netCDF4.Dataset(d+'/'+fn); r.append([str(pd.Timestamp(x)) for x in np.atleast_1d(netCDF4.num2date(N['time'][:], N['time'].units, only_use_cftime_datetimes=False, only_use_python_datetimes=True))]); N.close()
        return r, given
    finally:
        mor.updateMorphology, riv.assembleChannel = real; os.chdir(cwd); shutil.rmtree(d, ignore_errors=True)
''' % CNF.replace('%%','%%')
S = {
 'T02_channel_breach': dict(E=[('hapuamod/core.py', "        if Breach:\n            Closed = False", "        if Breach and OutletEndX[0] == OutletEndX[1]:\n            Closed = False")],
   N='a closed mouth that breaches through a relic outlet channel which is not straight (upstream and seaward ends differ)', B='the mouth stays closed in the next step although it breached',
   D="r, g = run('2000-09-01 01:00', [600.], breach=(3,), shut=(0,), ends={3: [0., 20.]})\nassert g[4] is True and g[5] is False, g\n"),
 'T02_record_at_due': dict(E=[('hapuamod/core.py', "        if MorTime >= TsOutTime:", "        if MorTime > TsOutTime:")],
   N='a time step that reaches a due time of the time series exactly', B='the record due at that time is written one step late',
   D="r, g = run('2000-09-01 01:00', [600.], tsint=1200.)\nassert [x[11:16] for x in r[1]] == ['00:00', '00:20', '00:40', '01:00'], r[1]\n"),
}
for i, s in S.items():
    open('/verif/tools/seeds/%s.py' % i, 'w').write('PROPERTY=%r\nEDITS=%r\nNEEDS=%r\nBREAKS=%r\nDEMO=%r\n' % ('T02', s['E'], s['N'], s['B'], DEMO + s['D']))
