PROPERTY='H01'
EDITS=[('hapuamod/riv.py',"            assert CheckCount < MaxIt, 'Maximum iterations exceeded solving steady state water level'\n","            if CheckCount >= MaxIt:\n                logging.warning('Maximum iterations exceeded solving steady state water level')\n                break\n")]
NEEDS='a profile on which the Newton iteration does not converge in the allowed number of iterations'
BREAKS='an unconverged depth is returned as if it were the solution'
DEMO=r"""import numpy as np
from hapuamod import riv
N=dict(Beta=1.,ErrTol=1e-9,MaxIt=3,WarnTol=.1); n=.04
bad=0; rng=np.random.default_rng(3)
for k in range(400):
    q=float(rng.choice([5.,60.,300.])); z=np.cumsum(rng.normal(.3,.8,4))[::-1]; B=rng.uniform(5,60,4); dx=rng.uniform(5,60,3)
    N['MaxIt']=int(rng.choice([3,4,6]))
    try: h,V=riv.solveSteady(dx,z,B,n,q,z[-1]+1.,N)
    except AssertionError: continue
    E=z+h+V**2/(2*9.81); S=V**2*n**2/h**(4/3); r=E[:-1]-E[1:]-dx*(S[:-1]+S[1:])/2; hc=(q**2/(B**2*9.81))**(1/3)
    if not (np.minimum(abs(r),abs(h-hc)[:-1])<1e-6).all(): bad+=1
assert not bad, bad
"""
