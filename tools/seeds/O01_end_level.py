PROPERTY='O01'
EDITS=[('hapuamod/out.py', "    NcFile.variables['outlet_end_wl'][TimeIx] = OutletEndElev + OutletEndDep[0]\n", "    NcFile.variables['outlet_end_wl'][TimeIx] = max(OutletEndElev + OutletEndDep[0], SeaLevel)\n")]
NEEDS='an outlet end whose water level is below sea level (rising tide)'
BREAKS='the outlet end level read back is the sea level instead of the one the model had'
DEMO=r"""import numpy as np, pandas as pd, tempfile, os, shutil, netCDF4
from hapuamod import out
t=tempfile.mkdtemp()
try:
    f=os.path.join(t,'o.nc'); n=5; X=np.arange(n)*10.; z=np.zeros(n); r=np.array([2.,1.,0.])
    P={k: 1. for k in 'BackshoreElev BarrierPermeability BeachSlope BeachTopElev ClosureDepth CritShieldsStress GammaRatio GrainSize Gravity Kcoef MaxOutletElev MinOutletWidth OT_coef OT_exp OutletBankEroFac OutletSedSpreadDist RhoRiv RhoSea RhoSed RiverSlope RiverWidth RoughnessManning ShorelineErosionRate SpitWidth TargetBarHeight TargetBarWidth UpstreamLength VoidRatio WaveDataDepth WidthDepthRatio'.split()}
    T=pd.Timestamp('2020-01-01')
    out.newOutFile(f,'m',T,X,10.,r,(0.,0.),0.,P,False)
    out.writeCurrent(f,T,1.25,1.,1.,.1,np.zeros((n,5)),np.zeros((n,4)),z,z,z,z,z,z,z[1:],z,z,r,r,r,r,np.array([0.,10.]),0.,20.,np.array([1.,2.]),np.array([.1,.2]),np.zeros(2),False)
    d=netCDF4.Dataset(f); v=float(d['outlet_end_wl'][0]); d.close(); assert v==1., v
finally: shutil.rmtree(t)
"""
