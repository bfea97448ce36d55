PROPERTY='H03'
EDITS=[('hapuamod/riv.py','            # Update Sf and A\n            Sf = V*np.abs(V) * (n**2) / (h**(4/3))\n            A = h*B\n            \n            # Check if solution is within tolerance\n    #        if np.sum(np.abs(Delta)) < Tol:\n    #            break\n            if np.all(np.abs(Delta) < Tol):\n                break\n','            # Check if solution is within tolerance\n    #        if np.sum(np.abs(Delta)) < Tol:\n    #            break\n            if np.all(np.abs(Delta) < Tol):\n                break\n            \n            # Update Sf and A\n            Sf = V*np.abs(V) * (n**2) / (h**(4/3))\n            A = h*B\n')]
NEEDS='two or more boundary values in one call'
BREAKS='friction and flow area of the next step are those before the last correction, so its momentum and water balance are off and splitting the series changes the result'
DEMO=r"""import numpy as np, pandas as pd
from hapuamod import riv
n=6; z=np.linspace(.5,0,n)-2; B=np.full(n,30.); L=np.zeros(n); dx=np.full(n-1,20.)
N=dict(Beta=1.,Theta=.6,ErrTol=.05,MaxIt=40,WarnTol=.5); P=dict(Gravity=9.81,RoughnessManning=.03,BarrierPermeability=0.)
def start():
    h=np.full(n,1.)-z; return h, 60./(B*h)
Q=np.array([70.,90.,110.]); S=np.array([1.03,1.1,1.2]); dt=pd.Timedelta(seconds=10)
h,V=start(); riv.solveFullPreissmann(z,B,L,L,False,h,V,dx,dt,Q,S,N,P)
h2,V2=start()
for i in range(3): riv.solveFullPreissmann(z,B,L,L,False,h2,V2,dx,dt,Q[i:i+1],S[i:i+1],N,P)
assert np.allclose(h,h2,atol=1e-9) and np.allclose(V,V2,atol=1e-9), (h-h2,V-V2)
"""
