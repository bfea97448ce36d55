PROPERTY='B02'
EDITS=[('hapuamod/riv.py','        LagoonBedload[OnlineLagoon[:-1]] = Bedload[ChanFlag[:-1]==1]\n','        LagoonBedload[OnlineLagoon[1:]] = Bedload[ChanFlag[:-1]==1]\n')]
NEEDS='a closed mouth'
BREAKS='bedload is reported one transect too far down the lagoon'
DEMO=r"""import numpy as np
from hapuamod import riv
f=np.array([0,0,1,1,1]); b=np.array([.1,.2,.3,.4])
l,o,e=riv.storeBedload(b,8,np.array([3,2,1]),np.empty(0),f,True)
assert np.allclose(l,[0,0,.4,.3,0,0,0,0]) and not o.any() and e==0, (l,o,e)
"""
