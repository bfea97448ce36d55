import os
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),'seeds')
def s(i, prop, f, old, new, needs, breaks, demo):
    open(os.path.join(H,i+'.py'),'w').write('PROPERTY=%r\nEDITS=[(%r,%r,%r)]\nNEEDS=%r\nBREAKS=%r\nDEMO=r"""%s"""\n'%(prop,'hapuamod/'+f,old,new,needs,breaks,demo))
s('G01_near_origin','G01','geom.py','    Dist = np.sqrt(Xrelative**2 + Yrelative**2)\n','    Dist = np.maximum(np.sqrt(Xrelative**2 + Yrelative**2), 1.0)\n',
 'a point closer than 1 m to the model origin','such points come back on the unit circle instead of where they were',
'''import numpy as np
from hapuamod import geom
X=np.array([-120.,0.3,0.,40.]); Y=np.array([5.,-0.4,0.,-900.])
for d in (0., 1., 2.5, -3.):
    xr,yr=geom.mod2real(X,Y,(1500000.,5100000.),d); xm,ym=geom.real2mod(xr,yr,(1500000.,5100000.),d)
    assert np.allclose(xm,X,atol=1e-6) and np.allclose(ym,Y,atol=1e-6), (d,xm,ym)
''')
s('G02_vertex_on_line','G02','geom.py','    LeftOfX = Polyline[:,0] < Xcoord\n','    LeftOfX = Polyline[:,0] <= Xcoord\n',
 'a polyline vertex lying exactly on the requested x where the line turns back','a polyline touching x from the left is no longer reported, one touching it from the right now is',
'''import numpy as np
from hapuamod import geom
p=np.array([[-2.,0.],[0.,3.],[-1.,5.]])
r=geom.intersectPolyline(p,0.); assert r.size==2 and np.allclose(r,3.), r
p=np.array([[2.,0.],[0.,3.],[1.,5.]])
r=geom.intersectPolyline(p,0.); assert r.size==0, r
''')
s('C01_small_angle','C01','coast.py','    LocalRelShoreDir = np.arctan((ShoreY[0:-1,0] - ShoreY[1:,0])/Dx)\n','    LocalRelShoreDir = (ShoreY[0:-1,0] - ShoreY[1:,0])/Dx\n',
 'a shoreline segment turned by more than a few degrees','segment orientation uses the small-angle approximation, so transport on strongly curved shore is wrong',
'''import numpy as np
from hapuamod import coast
P=dict(Gravity=9.81,BreakerCoef=8./(1025*9.81**1.5*.25),K2coef=1e-5,WaveDataDepth=10.)
Y=np.zeros((3,5)); Y[:,0]=[0.,0.,12.]; dx=10.; e=.2
r=coast.longShoreTransport(Y,dx,8000.,8.,75.,e,P)
cb=(9.81*(P['BreakerCoef']*8000.)**.4)**.5; ch=9.81*8./(2*np.pi)*np.tanh(2*np.pi*10./75.)
for i in range(2):
    a=e-np.arctan((Y[i,0]-Y[i+1,0])/dx); w=-1e-5*8000.*np.cos(a)*np.sin(a)*cb/ch
    assert abs(r[i]-w)<1e-6*abs(w), (i,r[i],w)
''')
s('C02_no_lagoon_with_outlet','C02','coast.py','    NoLagoon[OutletPresent] = False\n','    NoLagoon[OutletPresent] = NoLagoon[OutletPresent] & ~(ShoreY[OutletPresent,1] > ShoreY[OutletPresent,2] + CrestWidth[OutletPresent])\n',
 'an outlet channel in front of a filled-in lagoon, narrower than the barrier in front of it','overwash over a high crest stays on the crest although an outlet channel lies behind it',
'''import numpy as np
from hapuamod import coast
P=dict(OT_coef=.001,OT_exp=2.,BarRatSlope=.05,BarRatInt=1.)
Y=np.array([[100.,90.,84.,40.,40.],[100.,90.,70.,40.,40.],[100.,np.nan,np.nan,40.,40.]]); Z=np.array([[4.,0,3,-1.],[4.,0,3,-1.],[4.,np.nan,np.nan,-1.]])
c,o=coast.overtopping(5.,1.,Y,Z,P)
assert list(o)==[True,True,False], o
''')
s('B01_reverse_flow','B01','riv.py','    Qs_node_bulk[V<0] *= -1\n','    if np.mean(V) < 0:\n        Qs_node_bulk *= -1\n',
 'flow reversed in only part of the channel (flood tide in the outlet)','sections with reversed flow carry bedload downstream, against the flow',
'''import numpy as np
from hapuamod import riv
P=dict(RhoRiv=1000.,RhoSed=2650.,Gravity=9.81,GrainSize=.01,GrainRoughness=.03,CritShieldsStress=.047,MPM_coef=8.,MPM_exp=1.5,VoidRatio=.4)
one=np.ones(3); V=np.array([3.,2.5,-2.]); q=riv.calcBedload(0*one,20*one,one,V,10*np.ones(2),P,0.)
r=riv.calcBedload(0*one,20*one,one,-V,10*np.ones(2),P,0.)
assert np.allclose(q,-r) and q[0]>0, (q,r)
q=riv.calcBedload(0*one,20*one,one,V,10*np.ones(2),P,1.); assert q[1]<0, q
''')
s('B02_closed_shift','B02','riv.py','        LagoonBedload[OnlineLagoon[:-1]] = Bedload[ChanFlag[:-1]==1]\n','        LagoonBedload[OnlineLagoon[1:]] = Bedload[ChanFlag[:-1]==1]\n',
 'a closed mouth','bedload is reported one transect too far down the lagoon',
'''import numpy as np
from hapuamod import riv
f=np.array([0,0,1,1,1]); b=np.array([.1,.2,.3,.4])
l,o,e=riv.storeBedload(b,8,np.array([3,2,1]),np.empty(0),f,True)
assert np.allclose(l,[0,0,.4,.3,0,0,0,0]) and not o.any() and e==0, (l,o,e)
''')
s('H01_maxit','H01','riv.py',"            assert CheckCount < MaxIt, 'Maximum iterations exceeded solving steady state water level'\n","            if CheckCount >= MaxIt:\n                logging.warning('Maximum iterations exceeded solving steady state water level')\n                break\n",
 'a profile on which the Newton iteration does not converge in the allowed number of iterations','an unconverged depth is returned as if it were the solution',
'''import numpy as np
from hapuamod import riv
N=dict(Beta=1.,ErrTol=1e-9,MaxIt=3,WarnTol=.1); n=.04
bad=0; rng=np.random.default_rng(3)
for k in range(400):
    q=float(rng.choice([5.,60.,300.])); z=np.cumsum(rng.normal(.3,.8,4))[::-1]; B=rng.uniform(5,60,4); dx=rng.uniform(5,60,3)
    N['MaxIt']=int(rng.choice([3,4,6]))
    try: h,V=riv.solveSteady(dx,z,B,n,q,z[-1]+1.,N)
    except AssertionError: continue
    E=z+h+V**2/(2*9.81); S=V**2*n**2/h**(4/3); r=E[:-1]-E[1:]-dx*(S[:-1]+S[1:])/2; hc=(q**2/(B**2*9.81))**(1/3)
    if not (np.minimum(abs(r),abs(h-hc)[:-1])<1e-6).all(): bad+=1
assert not bad, bad
''')
s('H02_seepage_level','H02','riv.py','                              + Theta1 * (h_old[1:] + h_old[:-1] - 2*DsWl_old)))','                              + Theta1 * (h_old[1:] + h_old[:-1] - 2*DsWl)))',
 'barrier seepage while the sea level changes over the step','seepage uses the new sea level for the old part of the step, so stored water and flows no longer balance',
'''import numpy as np, pandas as pd
from hapuamod import riv
n=5; z=np.linspace(.4,0,n)-2; B=np.full(n,30.); L=np.zeros(n); LL=np.full(n,20.); dx=np.full(n-1,20.)
N=dict(Beta=1.,Theta=.6,ErrTol=1e-6,MaxIt=40,WarnTol=.1); P=dict(Gravity=9.81,RoughnessManning=.03,BarrierPermeability=.05)
h=np.full(n,2.)-z; V=20./(B*h); h0,V0=h.copy(),V.copy(); dt=30.
riv.solveFullPreissmann(z,B,L,LL,False,h,V,dx,pd.Timedelta(seconds=dt),np.array([20.]),np.array([1.5]),N,P)
w=lambda a,b:.6*a+.4*b
st=dx/2*30*((h-h0)[1:]+(h-h0)[:-1]); fl=w(np.diff(h*V*B),np.diff(h0*V0*B)); hd=lambda h,s:(h[1:]+z[1:]+h[:-1]+z[:-1])/2-s
se=.05*20*w(hd(h,1.5),hd(h0,2.)); r=st+dt*fl+dt*se
assert abs(r).max()<1e-5, r
''')
s('H03_stale_friction','H03','riv.py','''            # Update Sf and A
            Sf = V*np.abs(V) * (n**2) / (h**(4/3))
            A = h*B
            
            # Check if solution is within tolerance
    #        if np.sum(np.abs(Delta)) < Tol:
    #            break
            if np.all(np.abs(Delta) < Tol):
                break
''','''            # Check if solution is within tolerance
    #        if np.sum(np.abs(Delta)) < Tol:
    #            break
            if np.all(np.abs(Delta) < Tol):
                break
            
            # Update Sf and A
            Sf = V*np.abs(V) * (n**2) / (h**(4/3))
            A = h*B
''','two or more boundary values in one call','friction and flow area of the next step are those before the last correction, so its momentum and water balance are off and splitting the series changes the result',
'''import numpy as np, pandas as pd
from hapuamod import riv
n=6; z=np.linspace(.5,0,n)-2; B=np.full(n,30.); L=np.zeros(n); dx=np.full(n-1,20.)
N=dict(Beta=1.,Theta=.6,ErrTol=.05,MaxIt=40,WarnTol=.5); P=dict(Gravity=9.81,RoughnessManning=.03,BarrierPermeability=0.)
def start():
    h=np.full(n,1.)-z; return h, 60./(B*h)
Q=np.array([70.,90.,110.]); S=np.array([1.03,1.1,1.2]); dt=pd.Timedelta(seconds=10)
h,V=start(); riv.solveFullPreissmann(z,B,L,L,False,h,V,dx,dt,Q,S,N,P)
h2,V2=start()
for i in range(3): riv.solveFullPreissmann(z,B,L,L,False,h2,V2,dx,dt,Q[i:i+1],S[i:i+1],N,P)
assert np.allclose(h,h2,atol=1e-9) and np.allclose(V,V2,atol=1e-9), (h-h2,V-V2)
''')
s('H04_no_fallback','H04','riv.py','        if ItCount >= MaxIt:\n','        if ItCount > MaxIt:\n','a step which does not converge within the allowed iterations','the unconverged state is kept instead of the steady profile',
'''import numpy as np, pandas as pd
from hapuamod import riv
n=5; z=np.linspace(.4,0,n)-2; B=np.full(n,30.); L=np.zeros(n); dx=np.full(n-1,20.)
N=dict(Beta=1.,Theta=.6,ErrTol=1e-6,MaxIt=20,WarnTol=.5); M=dict(N,MaxIt=2); P=dict(Gravity=9.81,RoughnessManning=.03,BarrierPermeability=0.)
h=np.full(n,2.)-z; V=20./(B*h)
hs,Vs=riv.solveSteady(dx,z,B,.03,300.,1.2,N)
h[:]=hs+.5; V[:]=Vs*.7
try: riv.solveFullPreissmann(z,B,L,L,False,h,V,dx,pd.Timedelta(seconds=30),np.array([300.]),np.array([1.2]),dict(N,MaxIt=3),P)
except AssertionError: raise SystemExit('steady solver did not converge in the demo')
assert np.allclose(h,hs,atol=1e-5) and np.allclose(V,Vs,atol=1e-5), (h-hs,V-Vs)
''')
s('H05_velocity_fill','H05','riv.py','''        ChanQ = ChanDep*ChanVel
        ChanVel[VelNan] = (np.interp(np.where(VelNan)[0], np.where(~VelNan)[0], ChanQ[~VelNan])
                           / ChanDep[VelNan])
''','''        ChanVel[VelNan] = np.interp(np.where(VelNan)[0], np.where(~VelNan)[0], ChanVel[~VelNan])
''','a section without stored velocity between sections of different depth','the filled-in velocity no longer carries the interpolated flow',
'''import numpy as np
from hapuamod import riv
X=np.arange(-3,4)*10.; n=7; Y=np.full((n,5),np.nan); Z=np.full((n,4),np.nan)
Y[:,4]=0; Y[:,3]=20; Y[:,0]=100; Z[:,0]=4; Z[:,3]=-1; Y[4:6,1]=80; Y[4:6,2]=60; Z[4:6,1]=-1; Z[4:6,2]=3
nan=np.nan; lv=np.full(n,nan); lv[3]=nan
od=np.full(n,nan); od[4:6]=3.; ov=np.full(n,nan); ov[4:6]=.5
P=dict(MinOutletWidth=1.,RiverWidth=20.,MaxOutletElev=-2.)
wl=np.full(n,3.)
r=riv.assembleChannel(X,Y,Z,np.array([10.,20.]),np.array(20.),np.array(-1.),False,np.array([0.,0.]),np.ones(2),np.ones(2),wl,lv,od,ov,np.full(2,3.),np.full(2,.5),10.,P)
d,v=r[5],r[6]; assert np.isclose(d[2]*v[2],(d[1]*v[1]+d[3]*v[3])/2), (d,v)
''')
s('H06_start_transect','H06','riv.py','''            OnlineLagoon = np.arange(X0Ix, np.where(ShoreX > OutletEndX[0])[0][0] - 1, -1)
            EndArea = np.nansum(LagoonWidth[ShoreX < OutletEndX[0]] * Dx)
''','''            OnlineLagoon = np.arange(X0Ix, np.where(ShoreX > OutletEndX[0])[0][0] - 1, -1)
            EndArea = np.nansum(LagoonWidth[ShoreX <= OutletEndX[0]] * Dx)
''','an outlet starting to the left of the river','the lagoon at the transect where the outlet starts is attached as off-line area although the mirrored case leaves it out',
'''import numpy as np
from hapuamod import riv
X=np.arange(-4,5)*10.; n=9
def run(s):
    Y=np.full((n,5),np.nan); Z=np.full((n,4),np.nan)
    Y[:,4]=0; Y[:,3]=20+np.arange(n)*s; Y[:,0]=200; Z[:,0]=4; Z[:,3]=-1; Y[:,1]=150; Y[:,2]=130; Z[:,1]=-1; Z[:,2]=3
    if s<0: Y[:,3]+=8
    f=np.full(n,.5); P=dict(MinOutletWidth=1.,RiverWidth=20.,MaxOutletElev=-2.)
    return riv.assembleChannel(X,Y,Z,np.array([s*20.,s*30.]),np.array(20.),np.array(-1.),False,np.zeros(2),np.ones(2),np.ones(2),2*f,f,f,f,np.ones(2),f[:2],10.,P)
a,b=run(1.),run(-1.); assert np.allclose(a[3],b[3]) and np.allclose(a[4],b[4]), (a[3],b[3])
''')
s('H07_left_lagoon','H07','riv.py','''    LagoonWL[:MinOnline] = LagoonWL[MinOnline]
''','''    LagoonWL[:MinOnline] = LagoonWL[OnlineLagoon[0]]
''','an outlet to the left of the river with lagoon beyond it','lagoon left of the online part takes the level at the river mouth instead of the level next to it',
'''import numpy as np
from hapuamod import riv
f=np.array([0,1,1,1,2,3,4]); e=np.full(8,-1.); d=np.array([1,2.,2.1,2.2,1,1,1]); v=np.ones(7)
r=riv.storeHydraulics(d,v,np.array([4,3,2]),np.array([2]),f,e,False)
assert np.allclose(r[0],[1.2,1.2,1.2,1.1,1.,1.,1.,1.]), r[0]
''')
