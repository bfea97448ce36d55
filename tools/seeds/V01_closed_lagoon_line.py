PROPERTY='V01'
EDITS=[('hapuamod/visualise.py', '        # BarrierBackshore\n        LagoonLineX = ShoreX\n        LagoonLineY = ShoreY[:,3]\n        \n        # Water polygon\n        WaterX = np.hstack([LagoonLineX,            # Lagoon backshore\n                            np.flipud(CliffToRX),   # Cliff RHS\n                            np.flipud(RiverRbX),    # River RB\n', '        # BarrierBackshore (never drawn landward of the cliff)\n        LagoonLineX = ShoreX\n        LagoonLineY = ShoreY[:,3]\n        LagoonLineY[LagoonLineY < ShoreY[:,4]] = ShoreY[LagoonLineY < ShoreY[:,4],4]\n        \n        # Water polygon\n        WaterX = np.hstack([LagoonLineX,            # Lagoon backshore\n                            np.flipud(CliffToRX),   # Cliff RHS\n                            np.flipud(RiverRbX),    # River RB\n')]
NEEDS='a closed mouth and a lagoon edge landward of the cliff line'
BREAKS='drawing the plan view moves the lagoon edge of the model'
DEMO=r"""import numpy as np
from hapuamod import visualise
n=11; X=np.arange(-5,6)*20.; Y=np.tile([200.,np.nan,np.nan,60.,0.],(n,1)); Z=np.tile([3.,np.nan,np.nan,-1.],(n,1)); E=np.array([40.,65.])
Y[7:9,1:3]=[150.,110.]
f=visualise.modelView(X,Y,E,np.array(30.),np.array([7,8]),70.,10.,ShoreZ=Z,WavePower=0,EDir_h=0,LST=np.zeros(n-1),CST=np.zeros(n))
Y[0,4]=61.; k=Y.copy(); 
try: visualise.updateModelView(f,X,Y,E,np.array(30.),np.empty(0,int),Closed=True,ShoreZ=Z,WavePower=100.,EDir_h=.1,LST=np.zeros(n-1),CST=np.zeros(n))
except RuntimeError: pass   # newer matplotlib rejects scalars in set_data
assert np.array_equal(Y,k,equal_nan=True)
"""
