PROPERTY='H04'
EDITS=[('hapuamod/riv.py','        if ItCount >= MaxIt:\n','        if ItCount > MaxIt:\n')]
NEEDS='a step which does not converge within the allowed iterations'
BREAKS='the unconverged state is kept instead of the steady profile'
DEMO=r"""import numpy as np, pandas as pd
from hapuamod import riv
n=5; z=np.linspace(.4,0,n)-2; B=np.full(n,30.); L=np.zeros(n); dx=np.full(n-1,20.)
N=dict(Beta=1.,Theta=.6,ErrTol=1e-6,MaxIt=20,WarnTol=.5); M=dict(N,MaxIt=2); P=dict(Gravity=9.81,RoughnessManning=.03,BarrierPermeability=0.)
h=np.full(n,2.)-z; V=20./(B*h)
hs,Vs=riv.solveSteady(dx,z,B,.03,300.,1.2,N)
h[:]=hs+.5; V[:]=Vs*.7
try: riv.solveFullPreissmann(z,B,L,L,False,h,V,dx,pd.Timedelta(seconds=30),np.array([300.]),np.array([1.2]),dict(N,MaxIt=3),P)
except AssertionError: raise SystemExit('steady solver did not converge in the demo')
assert np.allclose(h,hs,atol=1e-5) and np.allclose(V,Vs,atol=1e-5), (h-hs,V-Vs)
"""
