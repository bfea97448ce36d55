PROPERTY='H06'
EDITS=[('hapuamod/riv.py','            OnlineLagoon = np.arange(X0Ix, np.where(ShoreX > OutletEndX[0])[0][0] - 1, -1)\n            EndArea = np.nansum(LagoonWidth[ShoreX < OutletEndX[0]] * Dx)\n','            OnlineLagoon = np.arange(X0Ix, np.where(ShoreX > OutletEndX[0])[0][0] - 1, -1)\n            EndArea = np.nansum(LagoonWidth[ShoreX <= OutletEndX[0]] * Dx)\n')]
NEEDS='an outlet starting to the left of the river'
BREAKS='the lagoon at the transect where the outlet starts is attached as off-line area although the mirrored case leaves it out'
DEMO=r"""import numpy as np
from hapuamod import riv
X=np.arange(-4,5)*10.; n=9
def run(s):
    Y=np.full((n,5),np.nan); Z=np.full((n,4),np.nan)
    Y[:,4]=0; Y[:,3]=20+np.arange(n)*s; Y[:,0]=200; Z[:,0]=4; Z[:,3]=-1; Y[:,1]=150; Y[:,2]=130; Z[:,1]=-1; Z[:,2]=3
    if s<0: Y[:,3]+=8
    f=np.full(n,.5); P=dict(MinOutletWidth=1.,RiverWidth=20.,MaxOutletElev=-2.)
    return riv.assembleChannel(X,Y,Z,np.array([s*20.,s*30.]),np.array(20.),np.array(-1.),False,np.zeros(2),np.ones(2),np.ones(2),2*f,f,f,f,np.ones(2),f[:2],10.,P)
a,b=run(1.),run(-1.); assert np.allclose(a[3],b[3]) and np.allclose(a[4],b[4]), (a[3],b[3])
"""
