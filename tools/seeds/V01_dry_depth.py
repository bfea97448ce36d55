PROPERTY='V01'
EDITS=[('hapuamod/visualise.py', '    Dist = np.insert(np.cumsum(ChanDx),0,0)\n    D2 = (Dist[:-1]+Dist[1:])/2\n    WL = ChanElev + ChanDep\n    WL2 = (WL[:-1] + WL[1:])/2\n    Vel2 = (ChanVel[:-1] + ChanVel[1:]) / 2\n    Energy = WL2 + (Vel2**2) / (2*g)\n    Fr = abs(ChanVel) / np.sqrt(g * ChanDep)\n    Q = ChanVel * ChanDep * ChanWidth\n    \n    # Update the lines\n', '    Dist = np.insert(np.cumsum(ChanDx),0,0)\n    D2 = (Dist[:-1]+Dist[1:])/2\n    WL = ChanElev + ChanDep\n    WL2 = (WL[:-1] + WL[1:])/2\n    Vel2 = (ChanVel[:-1] + ChanVel[1:]) / 2\n    Energy = WL2 + (Vel2**2) / (2*g)\n    Dep = np.asarray(ChanDep)\n    Dep[Dep < 0.001] = 0.001\n    Fr = abs(ChanVel) / np.sqrt(g * Dep)\n    Q = ChanVel * ChanDep * ChanWidth\n    \n    # Update the lines\n')]
NEEDS='a nearly dry section (depth below 1 mm) in the live long section'
BREAKS='the plot changes the depth the hydraulic model continues from'
DEMO=r"""import numpy as np
from hapuamod import visualise
n=6; dx=np.full(n-1,10.); z=np.linspace(1,0,n); w=np.full(n,20.); h=np.full(n,1.); v=np.full(n,.5); b=np.zeros(n-1)
f=visualise.longSection(dx,z,w,h,v,b); h[3]=2e-4; k=h.copy(); visualise.updateLongSection(f,dx,z,w,h,v,b); assert np.array_equal(h,k), h
"""
