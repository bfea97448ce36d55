PROPERTY='G01'
EDITS=[('hapuamod/geom.py','    Dist = np.sqrt(Xrelative**2 + Yrelative**2)\n','    Dist = np.maximum(np.sqrt(Xrelative**2 + Yrelative**2), 1.0)\n')]
NEEDS='a point closer than 1 m to the model origin'
BREAKS='such points come back on the unit circle instead of where they were'
DEMO=r"""import numpy as np
from hapuamod import geom
X=np.array([-120.,0.3,0.,40.]); Y=np.array([5.,-0.4,0.,-900.])
for d in (0., 1., 2.5, -3.):
    xr,yr=geom.mod2real(X,Y,(1500000.,5100000.),d); xm,ym=geom.real2mod(xr,yr,(1500000.,5100000.),d)
    assert np.allclose(xm,X,atol=1e-6) and np.allclose(ym,Y,atol=1e-6), (d,xm,ym)
"""
