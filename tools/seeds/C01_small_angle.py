PROPERTY='C01'
EDITS=[('hapuamod/coast.py','    LocalRelShoreDir = np.arctan((ShoreY[0:-1,0] - ShoreY[1:,0])/Dx)\n','    LocalRelShoreDir = (ShoreY[0:-1,0] - ShoreY[1:,0])/Dx\n')]
NEEDS='a shoreline segment turned by more than a few degrees'
BREAKS='segment orientation uses the small-angle approximation, so transport on strongly curved shore is wrong'
DEMO=r"""import numpy as np
from hapuamod import coast
P=dict(Gravity=9.81,BreakerCoef=8./(1025*9.81**1.5*.25),K2coef=1e-5,WaveDataDepth=10.)
Y=np.zeros((3,5)); Y[:,0]=[0.,0.,12.]; dx=10.; e=.2
r=coast.longShoreTransport(Y,dx,8000.,8.,75.,e,P)
cb=(9.81*(P['BreakerCoef']*8000.)**.4)**.5; ch=9.81*8./(2*np.pi)*np.tanh(2*np.pi*10./75.)
for i in range(2):
    a=e-np.arctan((Y[i,0]-Y[i+1,0])/dx); w=-1e-5*8000.*np.cos(a)*np.sin(a)*cb/ch
    assert abs(r[i]-w)<1e-6*abs(w), (i,r[i],w)
"""
