PROPERTY='C02'
EDITS=[('hapuamod/coast.py','    NoLagoon[OutletPresent] = False\n','    NoLagoon[OutletPresent] = NoLagoon[OutletPresent] & ~(ShoreY[OutletPresent,1] > ShoreY[OutletPresent,2] + CrestWidth[OutletPresent])\n')]
NEEDS='an outlet channel in front of a filled-in lagoon, narrower than the barrier in front of it'
BREAKS='overwash over a high crest stays on the crest although an outlet channel lies behind it'
DEMO=r"""import numpy as np
from hapuamod import coast
P=dict(OT_coef=.001,OT_exp=2.,BarRatSlope=.05,BarRatInt=1.)
Y=np.array([[100.,90.,84.,40.,40.],[100.,90.,70.,40.,40.],[100.,np.nan,np.nan,40.,40.]]); Z=np.array([[4.,0,3,-1.],[4.,0,3,-1.],[4.,np.nan,np.nan,-1.]])
c,o=coast.overtopping(5.,1.,Y,Z,P)
assert list(o)==[True,True,False], o
"""
