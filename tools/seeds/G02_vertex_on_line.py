PROPERTY='G02'
EDITS=[('hapuamod/geom.py','    LeftOfX = Polyline[:,0] < Xcoord\n','    LeftOfX = Polyline[:,0] <= Xcoord\n')]
NEEDS='a polyline vertex lying exactly on the requested x where the line turns back'
BREAKS='a polyline touching x from the left is no longer reported, one touching it from the right now is'
DEMO=r"""import numpy as np
from hapuamod import geom
p=np.array([[-2.,0.],[0.,3.],[-1.,5.]])
r=geom.intersectPolyline(p,0.); assert r.size==2 and np.allclose(r,3.), r
p=np.array([[2.,0.],[0.,3.],[1.,5.]])
r=geom.intersectPolyline(p,0.); assert r.size==0, r
"""
