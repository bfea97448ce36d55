PROPERTY='M01'
EDITS=[('hapuamod/mor.py', '    LagoonBankElev[OutletPresent] = ShoreZ[OutletPresent, 2]\n', '    LagoonBankElev[OutletPresent] = np.maximum(ShoreZ[OutletPresent, 0], ShoreZ[OutletPresent, 2])\n')]
NEEDS='a narrow online lagoon section that erodes while an outlet channel with a lower inner barrier lies in front of it'
BREAKS='bank erosion of the lagoon is worked out with the height of the wrong barrier, so sediment is lost'
DEMO=r"""import numpy as np, pandas as pd, copy
from hapuamod import mor
P=dict(ClosureDepth=8.,MinOutletWidth=10.,WidthDepthRatio=20.,RiverWidth=70.,BackshoreElev=5.,BeachTopElev=3.,SpitWidth=10.,OutletBankEroFac=.5,
       OutletSedSpreadDist=60.,ShorelineErosionRate=0.,MaxOutletElev=0.)
nan=np.nan
def state(closed=False):
    X=np.arange(-5,6)*20.; n=X.size
    Y=np.tile([200.,nan,nan,60.,0.],(n,1)); Z=np.tile([3.,nan,nan,-1.],(n,1))
    E=np.array([40.,65.])
    for i in (7,8): Y[i,1:3]=[150.,110.]; Z[i,1:3]=[-.5,3.]
    d=dict(X=X,Y=Y,Z=Z,E=E,EW=np.array(30.),EE=np.array(-.5),riv=np.array([1.,.5,0.]),on=np.array([5,6,7]),oc=np.array([7,8]),WL=np.full(n,.5),OD=np.full(n,nan),
           fl=np.array([0,0,0,1,1,1,2,2,3,4]),closed=closed,MorDt=pd.Timedelta(seconds=60),P=copy.deepcopy(P),
           T=dict(MorDtMin=pd.Timedelta(seconds=10),MorDtMax=pd.Timedelta(seconds=60)),N=dict(Dx=20.,MaxMorChange=.25),LST=np.zeros(n-1),CST=np.zeros(n),OW=np.zeros(n,bool))
    d['OD'][d['oc']]=1.
    if closed: d['fl']=np.array([0,0,0,1,1,1]); d['oc']=np.empty(0,int)
    ns=d['fl'].size; d['cw']=np.full(ns,60.); d['cd']=np.full(ns,1.5); d['cdx']=np.full(ns-1,20.); d['bed']=np.zeros(ns-1)
    return d
def step(d):
    return mor.updateMorphology(d['X'],d['Y'],d['Z'],d['E'],d['EW'],d['EE'],d['riv'],d['on'],d['oc'],d['WL'],d['OD'],d['cw'],d['cd'],d['cdx'],d['fl'],d['closed'],d['LST'],d['bed'],d['CST'],d['OW'],d['MorDt'],d['P'],d['T'],d['N'])

d=state(); d['P']['WidthDepthRatio']=100.; d['Z'][7,2]=1.5; d['bed'][:]=[.0,.0,.0,.0,.0,.002,.002,.002,.002]
y=d['Y'].copy(); dt,_=step(d); t=dt.total_seconds()
w=.002/2/((1.5+1.)*20.)*t
assert abs((d['Y'][7,3]-y[7,3])-w)<1e-9, (d['Y'][7,3]-y[7,3], w)
"""
