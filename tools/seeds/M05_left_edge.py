PROPERTY='M05'
EDITS=[('hapuamod/mor.py', '        OutletEndX[1] = ShoreX[1]\n', '        OutletEndX[1] = max(ShoreX[1] - Dx/2, OutletEndX[1])\n')]
NEEDS='an outlet mouth migrating left past the second transect'
BREAKS='the mouth is let out of the domain by up to half a transect spacing'
DEMO=r"""import numpy as np, pandas as pd, copy
from hapuamod import mor
P=dict(ClosureDepth=8.,MinOutletWidth=10.,WidthDepthRatio=20.,RiverWidth=70.,BackshoreElev=5.,BeachTopElev=3.,SpitWidth=10.,OutletBankEroFac=.5,
       OutletSedSpreadDist=60.,ShorelineErosionRate=0.,MaxOutletElev=0.)
nan=np.nan
def state(closed=False):
    X=np.arange(-5,6)*20.; n=X.size
    Y=np.tile([200.,nan,nan,60.,0.],(n,1)); Z=np.tile([3.,nan,nan,-1.],(n,1))
    E=np.array([40.,65.])
    for i in (7,8): Y[i,1:3]=[150.,110.]; Z[i,1:3]=[-.5,3.]
    d=dict(X=X,Y=Y,Z=Z,E=E,EW=np.array(30.),EE=np.array(-.5),riv=np.array([1.,.5,0.]),on=np.array([5,6,7]),oc=np.array([7,8]),WL=np.full(n,.5),OD=np.full(n,nan),
           fl=np.array([0,0,0,1,1,1,2,2,3,4]),closed=closed,MorDt=pd.Timedelta(seconds=60),P=copy.deepcopy(P),
           T=dict(MorDtMin=pd.Timedelta(seconds=10),MorDtMax=pd.Timedelta(seconds=60)),N=dict(Dx=20.,MaxMorChange=.25),LST=np.zeros(n-1),CST=np.zeros(n),OW=np.zeros(n,bool))
    d['OD'][d['oc']]=1.
    if closed: d['fl']=np.array([0,0,0,1,1,1]); d['oc']=np.empty(0,int)
    ns=d['fl'].size; d['cw']=np.full(ns,60.); d['cd']=np.full(ns,1.5); d['cdx']=np.full(ns-1,20.); d['bed']=np.zeros(ns-1)
    return d
def step(d):
    return mor.updateMorphology(d['X'],d['Y'],d['Z'],d['E'],d['EW'],d['EE'],d['riv'],d['on'],d['oc'],d['WL'],d['OD'],d['cw'],d['cd'],d['cdx'],d['fl'],d['closed'],d['LST'],d['bed'],d['CST'],d['OW'],d['MorDt'],d['P'],d['T'],d['N'])

d=state(); d['Y'][7:9,1:3]=nan; d['Z'][7:9,1:3]=nan
for i in (1,2,3): d['Y'][i,1:3]=[150.,110.]; d['Z'][i,1:3]=[-.5,3.]
d['E'][:]=[-40.,-79.999]; d['on']=np.array([5,4,3]); d['oc']=np.array([3,2,1]); d['OD'][:]=nan; d['OD'][1:4]=1.; d['LST'][:]=-.02
d['fl']=np.array([0,0,0,1,1,1,2,2,2,3,4]); d['cw']=np.full(11,60.); d['cd']=np.full(11,1.5); d['cdx']=np.full(10,20.); d['bed']=np.zeros(10)
step(d); assert d['E'][1]>=d['X'][1], d['E']
"""
