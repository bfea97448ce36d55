PROPERTY='T02'
EDITS=[('hapuamod/core.py', '        if Breach:\n            Closed = False', '        if Breach and OutletEndX[0] == OutletEndX[1]:\n            Closed = False')]
NEEDS='a closed mouth that breaches through a relic outlet channel which is not straight (upstream and seaward ends differ)'
BREAKS='the mouth stays closed in the next step although it breached'
DEMO='import os, tempfile, shutil, numpy as np, pandas as pd, netCDF4\nfrom hapuamod import core, mor, riv\nCNF = """ModelName = \'m\'\n[BoundaryConditions]\nRiverFlow = flow.csv\nWaveConditions = wave.csv\nSeaLevel = %(sea)s\n    [[ShotnoiseHydrographParameters]]\n    [[HarmonicTideParameters]]\n    MeanSeaLevel = 0\n    TidalRange = 1.4\n    SeaLevelDt = %(seadt)s\n[SpatialInputs]\nShorelineLengthLeft = 60\nShorelineLengthRight = 80\nBeachWidth = 90\n[InitialConditions]\nOutletWidth = 35\nOutletBed = -1.0\nLagoonBed = -1.0\nBarrierElev = 5.5\n[Time]\nStartTime = \'%(start)s\'\nEndTime = \'%(end)s\'\nHydDt = %(hyd)s\nMorDtMin = %(mmin)s\nMorDtMax = %(mmax)s\n[PhysicalParameters]\nKcoef = 0.017\nWaveDataDepth = 10.0\nClosureDepth = 5.0\nBeachSlope = 0.13\nRiverSlope = 0.003\nGrainSize = 0.018\nUpstreamLength = 60\nRiverWidth = 100\nRoughnessManning = 0.04\nGrainRoughness = 0.035\nWidthDepthRatio = 30\nBackshoreElev = 10\nMaxOutletElev = -2.0\nBeachTopElev = 2\nSpitWidth = 10\nTargetBarHeight = 5.5\nTargetBarWidth = 90\nMinOutletWidth = 1.0\n[NumericalParameters]\nDx = 20\nBeta = 0\n[OutputOptions]\nOutFile = %(out)s\nTsOutFile = %(tsout)s\nOutInt = %(outint)s\nTsOutInt = %(tsint)s\nLogInt = 3600\nPlotInt = 0\n"""\ndef run(end, dts, breach=(), shut=(), ends=None, outint=600., tsint=600.):\n    d = tempfile.mkdtemp(); cwd = os.getcwd(); given = []; real = (mor.updateMorphology, riv.assembleChannel)\n    names = real[0].__code__.co_varnames[:real[0].__code__.co_argcount]; an = real[1].__code__.co_varnames[:real[1].__code__.co_argcount]; n = [0]\n    def stub(*a, **k):\n        v = dict(zip(names, a)); v.update(k); j = n[0]; n[0] += 1\n        v[\'OutletEndWidth\'].flat[0] = .2 if j in shut else 35.\n        if ends and j in ends: v[\'OutletEndX\'][:] = ends[j]\n        return pd.Timedelta(seconds=dts[j % len(dts)]), j in breach\n    def asm(*a, **k):\n        v = dict(zip(an, a)); v.update(k); given.append(bool(v[\'Closed\'])); return real[1](*a, **k)\n    try:\n        ts = pd.date_range(\'2000-08-31\', periods=5, freq=\'12H\'); f = lambda t: t.strftime(\'%d/%m/%Y %H:%M\')\n        open(d+\'/flow.csv\',\'w\').write(\'Time,Flow\\n\' + \'\'.join(\'%s,20\\n\' % f(t) for t in ts))\n        open(d+\'/sea.csv\',\'w\').write(\'Time,SeaLevel\\n\' + \'\'.join(\'%s,0.1\\n\' % f(t) for t in ts))\n        open(d+\'/wave.csv\',\'w\').write(\'Time,WavePeriod,Wlen_h,WavePower,EDir_h,Hsig_Offshore\\n\' + \'\'.join(\'%s,8,70,1000,5,1.0\\n\' % f(t) for t in ts))\n        open(d+\'/m.cnf\',\'w\').write(CNF % dict(sea=\'sea.csv\', seadt=60, start=\'2000-09-01 00:00\', end=end, hyd=300, mmin=600, mmax=3600, out=d+\'/o.nc\', tsout=d+\'/t.nc\', outint=outint, tsint=tsint))\n        os.chdir(d); mor.updateMorphology, riv.assembleChannel = stub, asm\n        core.main(d+\'/m.cnf\', Overwrite=True)\n        r = []\n        for fn in (\'o.nc\', \'t.nc\'):\n            N = netCDF4.Dataset(d+\'/\'+fn); r.append([str(pd.Timestamp(x)) for x in np.atleast_1d(netCDF4.num2date(N[\'time\'][:], N[\'time\'].units, only_use_cftime_datetimes=False, only_use_python_datetimes=True))]); N.close()\n        return r, given\n    finally:\n        mor.updateMorphology, riv.assembleChannel = real; os.chdir(cwd); shutil.rmtree(d, ignore_errors=True)\nr, g = run(\'2000-09-01 01:00\', [600.], breach=(3,), shut=(0,), ends={3: [0., 20.]})\nassert g[4] is True and g[5] is False, g\n'
