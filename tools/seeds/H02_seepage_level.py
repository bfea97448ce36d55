PROPERTY='H02'
EDITS=[('hapuamod/riv.py','                              + Theta1 * (h_old[1:] + h_old[:-1] - 2*DsWl_old)))','                              + Theta1 * (h_old[1:] + h_old[:-1] - 2*DsWl)))')]
NEEDS='barrier seepage while the sea level changes over the step'
BREAKS='seepage uses the new sea level for the old part of the step, so stored water and flows no longer balance'
DEMO=r"""import numpy as np, pandas as pd
from hapuamod import riv
n=5; z=np.linspace(.4,0,n)-2; B=np.full(n,30.); L=np.zeros(n); LL=np.full(n,20.); dx=np.full(n-1,20.)
N=dict(Beta=1.,Theta=.6,ErrTol=1e-6,MaxIt=40,WarnTol=.1); P=dict(Gravity=9.81,RoughnessManning=.03,BarrierPermeability=.05)
h=np.full(n,2.)-z; V=20./(B*h); h0,V0=h.copy(),V.copy(); dt=30.
riv.solveFullPreissmann(z,B,L,LL,False,h,V,dx,pd.Timedelta(seconds=dt),np.array([20.]),np.array([1.5]),N,P)
w=lambda a,b:.6*a+.4*b
st=dx/2*30*((h-h0)[1:]+(h-h0)[:-1]); fl=w(np.diff(h*V*B),np.diff(h0*V0*B)); hd=lambda h,s:(h[1:]+z[1:]+h[:-1]+z[:-1])/2-s
se=.05*20*w(hd(h,1.5),hd(h0,2.)); r=st+dt*fl+dt*se
assert abs(r).max()<1e-5, r
"""
