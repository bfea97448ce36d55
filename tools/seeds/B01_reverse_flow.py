PROPERTY='B01'
EDITS=[('hapuamod/riv.py','    Qs_node_bulk[V<0] *= -1\n','    if np.mean(V) < 0:\n        Qs_node_bulk *= -1\n')]
NEEDS='flow reversed in only part of the channel (flood tide in the outlet)'
BREAKS='sections with reversed flow carry bedload downstream, against the flow'
DEMO=r"""import numpy as np
from hapuamod import riv
P=dict(RhoRiv=1000.,RhoSed=2650.,Gravity=9.81,GrainSize=.01,GrainRoughness=.03,CritShieldsStress=.047,MPM_coef=8.,MPM_exp=1.5,VoidRatio=.4)
one=np.ones(3); V=np.array([3.,2.5,-2.]); q=riv.calcBedload(0*one,20*one,one,V,10*np.ones(2),P,0.)
r=riv.calcBedload(0*one,20*one,one,-V,10*np.ones(2),P,0.)
assert np.allclose(q,-r) and q[0]>0, (q,r)
q=riv.calcBedload(0*one,20*one,one,V,10*np.ones(2),P,1.); assert q[1]<0, q
"""
