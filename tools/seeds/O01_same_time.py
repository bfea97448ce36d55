PROPERTY='O01'
EDITS=[('hapuamod/out.py', "    NcFile = netCDF4.Dataset(FileName, mode='a') \n    \n    # Get index of new time row to add and add current time\n    TimeVar = NcFile.variables['time']\n    TimeIx = TimeVar.size\n    TimeVar[TimeIx] = netCDF4.date2num(CurrentTime, TimeVar.units)\n    \n    # Append data to boundary condition variables\n    NcFile.variables['sea_level'][TimeIx] = SeaLevel\n    NcFile.variables['river_flow'][TimeIx] = RivFlow\n    NcFile.variables['hs_offshore'][TimeIx] = Hs_offshore\n    NcFile.variables['wave_dir'][TimeIx] = EDir_h\n    \n    # Append new data to shore transect variables\n", "    NcFile = netCDF4.Dataset(FileName, mode='a') \n    \n    # Get index of new time row to add and add current time\n    TimeVar = NcFile.variables['time']\n    TimeIx = TimeVar.size\n    TimeVar[TimeIx] = netCDF4.date2num(CurrentTime.replace(microsecond=0), TimeVar.units)\n    \n    # Append data to boundary condition variables\n    NcFile.variables['sea_level'][TimeIx] = SeaLevel\n    NcFile.variables['river_flow'][TimeIx] = RivFlow\n    NcFile.variables['hs_offshore'][TimeIx] = Hs_offshore\n    NcFile.variables['wave_dir'][TimeIx] = EDir_h\n    \n    # Append new data to shore transect variables\n")]
NEEDS='an output time with a fraction of a second (adaptive steps halve below one second multiples)'
BREAKS='the time read back is not the time written'
DEMO=r"""import numpy as np, pandas as pd, tempfile, os, shutil, netCDF4
from hapuamod import out
t=tempfile.mkdtemp()
try:
    f=os.path.join(t,'o.nc'); n=5; X=np.arange(n)*10.; z=np.zeros(n); r=np.array([2.,1.,0.])
    P={k: 1. for k in 'BackshoreElev BarrierPermeability BeachSlope BeachTopElev ClosureDepth CritShieldsStress GammaRatio GrainSize Gravity Kcoef MaxOutletElev MinOutletWidth OT_coef OT_exp OutletBankEroFac OutletSedSpreadDist RhoRiv RhoSea RhoSed RiverSlope RiverWidth RoughnessManning ShorelineErosionRate SpitWidth TargetBarHeight TargetBarWidth UpstreamLength VoidRatio WaveDataDepth WidthDepthRatio'.split()}
    T=pd.Timestamp('2020-01-01')
    out.newOutFile(f,'m',T,X,10.,r,(0.,0.),0.,P,False)
    c=T+pd.Timedelta(seconds=7.5)
    out.writeCurrent(f,c,0.,1.,1.,.1,np.zeros((n,5)),np.zeros((n,4)),z,z,z,z,z,z,z[1:],z,z,r,r,r,r,np.array([0.,10.]),0.,20.,np.array([1.,2.]),np.array([.1,.2]),np.zeros(2),False)
    d=netCDF4.Dataset(f); v=float(d['time'][0]); u=d['time'].units; d.close()
    assert abs(v-netCDF4.date2num(c.to_pydatetime(),u))<1e-6*max(1,abs(v)), v
finally: shutil.rmtree(t)
"""
