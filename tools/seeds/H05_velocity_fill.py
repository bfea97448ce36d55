PROPERTY='H05'
EDITS=[('hapuamod/riv.py','        ChanQ = ChanDep*ChanVel\n        ChanVel[VelNan] = (np.interp(np.where(VelNan)[0], np.where(~VelNan)[0], ChanQ[~VelNan])\n                           / ChanDep[VelNan])\n','        ChanVel[VelNan] = np.interp(np.where(VelNan)[0], np.where(~VelNan)[0], ChanVel[~VelNan])\n')]
NEEDS='a section without stored velocity between sections of different depth'
BREAKS='the filled-in velocity no longer carries the interpolated flow'
DEMO=r"""import numpy as np
from hapuamod import riv
X=np.arange(-3,4)*10.; n=7; Y=np.full((n,5),np.nan); Z=np.full((n,4),np.nan)
Y[:,4]=0; Y[:,3]=20; Y[:,0]=100; Z[:,0]=4; Z[:,3]=-1; Y[4:6,1]=80; Y[4:6,2]=60; Z[4:6,1]=-1; Z[4:6,2]=3
nan=np.nan; lv=np.full(n,nan); lv[3]=nan
od=np.full(n,nan); od[4:6]=3.; ov=np.full(n,nan); ov[4:6]=.5
P=dict(MinOutletWidth=1.,RiverWidth=20.,MaxOutletElev=-2.)
wl=np.full(n,3.)
r=riv.assembleChannel(X,Y,Z,np.array([10.,20.]),np.array(20.),np.array(-1.),False,np.array([0.,0.]),np.ones(2),np.ones(2),wl,lv,od,ov,np.full(2,3.),np.full(2,.5),10.,P)
d,v=r[5],r[6]; assert np.isclose(d[2]*v[2],(d[1]*v[1]+d[3]*v[3])/2), (d,v)
"""
