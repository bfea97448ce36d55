PROPERTY='H07'
EDITS=[('hapuamod/riv.py','    LagoonWL[:MinOnline] = LagoonWL[MinOnline]\n','    LagoonWL[:MinOnline] = LagoonWL[OnlineLagoon[0]]\n')]
NEEDS='an outlet to the left of the river with lagoon beyond it'
BREAKS='lagoon left of the online part takes the level at the river mouth instead of the level next to it'
DEMO=r"""import numpy as np
from hapuamod import riv
f=np.array([0,1,1,1,2,3,4]); e=np.full(8,-1.); d=np.array([1,2.,2.1,2.2,1,1,1]); v=np.ones(7)
r=riv.storeHydraulics(d,v,np.array([4,3,2]),np.array([2]),f,e,False)
assert np.allclose(r[0],[1.2,1.2,1.2,1.1,1.,1.,1.,1.]), r[0]
"""
