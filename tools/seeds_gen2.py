import os
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),'seeds')
def s(i, prop, edits, needs, breaks, demo):
    edits=[('hapuamod/'+f,o,n) for f,o,n in edits]
    open(os.path.join(H,i+'.py'),'w').write('PROPERTY=%r\nEDITS=%r\nNEEDS=%r\nBREAKS=%r\nDEMO=r"""%s"""\n'%(prop,edits,needs,breaks,demo))
MOR='''import numpy as np, pandas as pd, copy
from hapuamod import mor
P=dict(ClosureDepth=8.,MinOutletWidth=10.,WidthDepthRatio=20.,RiverWidth=70.,BackshoreElev=5.,BeachTopElev=3.,SpitWidth=10.,OutletBankEroFac=.5,
       OutletSedSpreadDist=60.,ShorelineErosionRate=0.,MaxOutletElev=0.)
nan=np.nan
def state(closed=False):
    X=np.arange(-5,6)*20.; n=X.size
    Y=np.tile([200.,nan,nan,60.,0.],(n,1)); Z=np.tile([3.,nan,nan,-1.],(n,1))
    E=np.array([40.,65.])
    for i in (7,8): Y[i,1:3]=[150.,110.]; Z[i,1:3]=[-.5,3.]
    d=dict(X=X,Y=Y,Z=Z,E=E,EW=np.array(30.),EE=np.array(-.5),riv=np.array([1.,.5,0.]),on=np.array([5,6,7]),oc=np.array([7,8]),WL=np.full(n,.5),OD=np.full(n,nan),
           fl=np.array([0,0,0,1,1,1,2,2,3,4]),closed=closed,MorDt=pd.Timedelta(seconds=60),P=copy.deepcopy(P),
           T=dict(MorDtMin=pd.Timedelta(seconds=10),MorDtMax=pd.Timedelta(seconds=60)),N=dict(Dx=20.,MaxMorChange=.25),LST=np.zeros(n-1),CST=np.zeros(n),OW=np.zeros(n,bool))
    d['OD'][d['oc']]=1.
    if closed: d['fl']=np.array([0,0,0,1,1,1]); d['oc']=np.empty(0,int)
    ns=d['fl'].size; d['cw']=np.full(ns,60.); d['cd']=np.full(ns,1.5); d['cdx']=np.full(ns-1,20.); d['bed']=np.zeros(ns-1)
    return d
def step(d):
    return mor.updateMorphology(d['X'],d['Y'],d['Z'],d['E'],d['EW'],d['EE'],d['riv'],d['on'],d['oc'],d['WL'],d['OD'],d['cw'],d['cd'],d['cdx'],d['fl'],d['closed'],d['LST'],d['bed'],d['CST'],d['OW'],d['MorDt'],d['P'],d['T'],d['N'])
'''
s('M01_bank_height','M01',[('mor.py','    LagoonBankElev[OutletPresent] = ShoreZ[OutletPresent, 2]\n','    LagoonBankElev[OutletPresent] = np.maximum(ShoreZ[OutletPresent, 0], ShoreZ[OutletPresent, 2])\n')],
 'a narrow online lagoon section that erodes while an outlet channel with a lower inner barrier lies in front of it','bank erosion of the lagoon is worked out with the height of the wrong barrier, so sediment is lost',MOR+'''
d=state(); d['P']['WidthDepthRatio']=100.; d['Z'][7,2]=1.5; d['bed'][:]=[.0,.0,.0,.0,.0,.002,.002,.002,.002]
y=d['Y'].copy(); dt,_=step(d); t=dt.total_seconds()
w=.002/2/((1.5+1.)*20.)*t
assert abs((d['Y'][7,3]-y[7,3])-w)<1e-9, (d['Y'][7,3]-y[7,3], w)
''')
s('M02_erosion_rate','M02',[('mor.py','    MaxMorChangeRate = max(np.max(np.abs(RivBedAggRate)),\n','    MaxMorChangeRate = max(np.max(RivBedAggRate),\n')],
 'river bed erosion being the fastest change of the step','fast river erosion neither shortens the step nor is limited to the maximum change',MOR+'''
d=state(); d['N']['MaxMorChange']=.01; d['bed'][:]=[0.,2.,1.6,1.2,.8,.4,.2,0.,0.]; z=d['riv'].copy()
dt,_=step(d); assert np.abs(d['riv']-z).max()<=.01+1e-9 and dt.total_seconds()<=10., (dt, d['riv']-z)
''')
s('M03_relic_inner_barrier','M03',[('mor.py','        ShoreZ[ShoreIntersect, 0] = ShoreZ[ShoreIntersect, 2]\n        ShoreZ[ShoreIntersect, 2] = np.nan\n','        ShoreZ[ShoreIntersect, [0,2]] = ShoreZ[ShoreIntersect, 2]\n' if False else '        ShoreZ[ShoreIntersect, 0] = ShoreZ[ShoreIntersect, 2]\n        ShoreZ[ShoreIntersect, 2] = np.where(ShoreZ[ShoreIntersect, 0] > PhysicalPars[\'BeachTopElev\'], ShoreZ[ShoreIntersect, 2], np.nan)\n')],
 'a relic channel eaten by the sea whose inner barrier is higher than the beach top level','an inner barrier level stays behind at a transect that no longer has an outlet channel',MOR+'''
d=state(); i=2; d['Y'][i,1:3]=[200.-1e-6,170.]; d['Z'][i,1:3]=[0.,4.]; d['LST'][2:]=.05; d['LST'][6:]=0
step(d); assert np.isnan(d['Y'][i,1]) and np.isnan(d['Z'][i,1]) and np.isnan(d['Z'][i,2]), (d['Y'][i],d['Z'][i])
''')
s('M04_left_pinch','M04',[('mor.py','''                    PossBreachTsects.append(TsectIx)
            elif TsectIx < X0Ix:
                if np.all(LagoonOpen[np.arange(TsectIx, X0Ix)]):
''','''                    PossBreachTsects.append(TsectIx)
            elif TsectIx < X0Ix:
                if np.all(LagoonOpen[np.arange(TsectIx+1, X0Ix)]):
''')],
 'a closed mouth and a completely eroded barrier left of the river where the lagoon is too narrow to pass flow','water breaches the barrier at a transect that is cut off from the river',MOR+'''
d=state(True); i=2; d['Y'][7:9,1:3]=nan; d['Z'][7:9,1:3]=nan; d['E'][0]=nan
d['Y'][i]=[60.+1e-6,nan,nan,60.,55.]; d['LST'][2:]=.05
dt,b=step(d); assert not b, d['E']
d=state(True); d['Y'][7:9,1:3]=nan; d['Z'][7:9,1:3]=nan; d['E'][0]=nan; d['Y'][i]=[60.+1e-6,nan,nan,60.,0.]; d['LST'][2:]=.05
dt,b=step(d); assert b
''')
s('M05_water_level_alias','M05',[('mor.py','''    WaterLevel = np.full(ShoreX.size, -9999.9)
    WaterLevel[LagoonPresent] = LagoonWL[LagoonPresent]
''','''    WaterLevel = np.asarray(LagoonWL)
    WaterLevel[~LagoonPresent] = -9999.9
''')],
 'a transect without lagoon, or a relic channel connected to the outlet','the lagoon water levels handed to the morphology step are overwritten and go wrong into the output file',MOR+'''
d=state(); d['Y'][0,3:5]=[50.,50.]; w=d['WL'].copy(); step(d); assert np.array_equal(w,d['WL']), d['WL']
''')
s('M05_left_edge','M05',[('mor.py',"        OutletEndX[1] = ShoreX[1]\n","        OutletEndX[1] = max(ShoreX[1] - Dx/2, OutletEndX[1])\n")],
 'an outlet mouth migrating left past the second transect','the mouth is let out of the domain by up to half a transect spacing',MOR+'''
d=state(); d['Y'][7:9,1:3]=nan; d['Z'][7:9,1:3]=nan
for i in (1,2,3): d['Y'][i,1:3]=[150.,110.]; d['Z'][i,1:3]=[-.5,3.]
d['E'][:]=[-40.,-79.999]; d['on']=np.array([5,4,3]); d['oc']=np.array([3,2,1]); d['OD'][:]=nan; d['OD'][1:4]=1.; d['LST'][:]=-.02
d['fl']=np.array([0,0,0,1,1,1,2,2,2,3,4]); d['cw']=np.full(11,60.); d['cd']=np.full(11,1.5); d['cdx']=np.full(10,20.); d['bed']=np.zeros(10)
step(d); assert d['E'][1]>=d['X'][1], d['E']
''')
s('O01_same_time','O01',[('out.py','''    NcFile = netCDF4.Dataset(FileName, mode='a') 
    
    # Get index of new time row to add and add current time
    TimeVar = NcFile.variables['time']
    TimeIx = TimeVar.size
    TimeVar[TimeIx] = netCDF4.date2num(CurrentTime, TimeVar.units)
    
    # Append data to boundary condition variables
    NcFile.variables['sea_level'][TimeIx] = SeaLevel
    NcFile.variables['river_flow'][TimeIx] = RivFlow
    NcFile.variables['hs_offshore'][TimeIx] = Hs_offshore
    NcFile.variables['wave_dir'][TimeIx] = EDir_h
    
    # Append new data to shore transect variables
''','''    NcFile = netCDF4.Dataset(FileName, mode='a') 
    
    # Get index of new time row to add and add current time
    TimeVar = NcFile.variables['time']
    TimeIx = TimeVar.size
    TimeVar[TimeIx] = netCDF4.date2num(CurrentTime.replace(microsecond=0), TimeVar.units)
    
    # Append data to boundary condition variables
    NcFile.variables['sea_level'][TimeIx] = SeaLevel
    NcFile.variables['river_flow'][TimeIx] = RivFlow
    NcFile.variables['hs_offshore'][TimeIx] = Hs_offshore
    NcFile.variables['wave_dir'][TimeIx] = EDir_h
    
    # Append new data to shore transect variables
''')],'an output time with a fraction of a second (adaptive steps halve below one second multiples)','the time read back is not the time written','''import numpy as np, pandas as pd, tempfile, os, shutil, netCDF4
from hapuamod import out
t=tempfile.mkdtemp()
try:
    f=os.path.join(t,'o.nc'); n=5; X=np.arange(n)*10.; z=np.zeros(n); r=np.array([2.,1.,0.])
    P={k: 1. for k in 'BackshoreElev BarrierPermeability BeachSlope BeachTopElev ClosureDepth CritShieldsStress GammaRatio GrainSize Gravity Kcoef MaxOutletElev MinOutletWidth OT_coef OT_exp OutletBankEroFac OutletSedSpreadDist RhoRiv RhoSea RhoSed RiverSlope RiverWidth RoughnessManning ShorelineErosionRate SpitWidth TargetBarHeight TargetBarWidth UpstreamLength VoidRatio WaveDataDepth WidthDepthRatio'.split()}
    T=pd.Timestamp('2020-01-01')
    out.newOutFile(f,'m',T,X,10.,r,(0.,0.),0.,P,False)
    c=T+pd.Timedelta(seconds=7.5)
    out.writeCurrent(f,c,0.,1.,1.,.1,np.zeros((n,5)),np.zeros((n,4)),z,z,z,z,z,z,z[1:],z,z,r,r,r,r,np.array([0.,10.]),0.,20.,np.array([1.,2.]),np.array([.1,.2]),np.zeros(2),False)
    d=netCDF4.Dataset(f); v=float(d['time'][0]); u=d['time'].units; d.close()
    assert abs(v-netCDF4.date2num(c.to_pydatetime(),u))<1e-6*max(1,abs(v)), v
finally: shutil.rmtree(t)
''')
s('O01_end_level','O01',[('out.py',"    NcFile.variables['outlet_end_wl'][TimeIx] = OutletEndElev + OutletEndDep[0]\n","    NcFile.variables['outlet_end_wl'][TimeIx] = max(OutletEndElev + OutletEndDep[0], SeaLevel)\n")],
 'an outlet end whose water level is below sea level (rising tide)','the outlet end level read back is the sea level instead of the one the model had','''import numpy as np, pandas as pd, tempfile, os, shutil, netCDF4
from hapuamod import out
t=tempfile.mkdtemp()
try:
    f=os.path.join(t,'o.nc'); n=5; X=np.arange(n)*10.; z=np.zeros(n); r=np.array([2.,1.,0.])
    P={k: 1. for k in 'BackshoreElev BarrierPermeability BeachSlope BeachTopElev ClosureDepth CritShieldsStress GammaRatio GrainSize Gravity Kcoef MaxOutletElev MinOutletWidth OT_coef OT_exp OutletBankEroFac OutletSedSpreadDist RhoRiv RhoSea RhoSed RiverSlope RiverWidth RoughnessManning ShorelineErosionRate SpitWidth TargetBarHeight TargetBarWidth UpstreamLength VoidRatio WaveDataDepth WidthDepthRatio'.split()}
    T=pd.Timestamp('2020-01-01')
    out.newOutFile(f,'m',T,X,10.,r,(0.,0.),0.,P,False)
    out.writeCurrent(f,T,1.25,1.,1.,.1,np.zeros((n,5)),np.zeros((n,4)),z,z,z,z,z,z,z[1:],z,z,r,r,r,r,np.array([0.,10.]),0.,20.,np.array([1.,2.]),np.array([.1,.2]),np.zeros(2),False)
    d=netCDF4.Dataset(f); v=float(d['outlet_end_wl'][0]); d.close(); assert v==1., v
finally: shutil.rmtree(t)
''')
s('O02_any_answer','O02',[('out.py','''            Confirm = input('Confirm ok to overwrite "%s" (y/n):' % FileName)
            Overwrite = Confirm in ['Y', 'y', 'Yes', 'yes', 'YES']
        
        if Overwrite:
            os.remove(FileName)
            logging.info('Overwriting output file "%s"' % FileName)
        else:
            raise Exception('Conflict with existing output file "%s"' % FileName)
    else:
        logging.info('Creating new output file "%s"' % FileName)
    
    # create new empty netcdf file and open it for writing
    NcFile = netCDF4.Dataset(FileName, mode='w', format='NETCDF4_CLASSIC') 
    
    # create dimensions
    TimeDim =''','''            Confirm = input('Confirm ok to overwrite "%s" (y/n):' % FileName)
            Overwrite = Confirm.strip()[:1].lower() in 'yes'
        
        if Overwrite:
            os.remove(FileName)
            logging.info('Overwriting output file "%s"' % FileName)
        else:
            raise Exception('Conflict with existing output file "%s"' % FileName)
    else:
        logging.info('Creating new output file "%s"' % FileName)
    
    # create new empty netcdf file and open it for writing
    NcFile = netCDF4.Dataset(FileName, mode='w', format='NETCDF4_CLASSIC') 
    
    # create dimensions
    TimeDim =''')],'an existing time-series file and an empty or unusual answer (return, "s") at the prompt','pressing return destroys the existing time-series file','''import tempfile, os, shutil, builtins, pandas as pd
from hapuamod import out
t=tempfile.mkdtemp()
try:
    f=os.path.join(t,'o.nc')
    for a in ('','s','n','no','e'):
        open(f,'w').write('keep me'); builtins.input=lambda *x: a
        try: out.newTsOutFile(f,'m',pd.Timestamp('2020-01-01')); ok=False
        except Exception: ok=True
        assert ok and open(f).read()=='keep me', a
finally: shutil.rmtree(t)
''')
s('T01_extra_samples','T01',[('core.py','    return Selected.loc[New_idxs]','    return Selected.loc[New_idxs[0]:New_idxs[-1]]')],
 'requested times further apart than the samples of the series','source samples between the requested times are returned as well, so the values no longer match the requested times','''import numpy as np, pandas as pd
from hapuamod import core
i=pd.date_range('2020-01-01',periods=20,freq='10min'); s=pd.Series(np.arange(20.),index=i)
q=pd.DatetimeIndex(['2020-01-01 00:05','2020-01-01 01:00','2020-01-01 02:15']); r=core.interpolate_at(s,q)
assert list(r.index)==list(q) and np.allclose(r.values,[.5,6.,13.5]), r
''')
s('S01_day_wrap','S01',[('synth.py','np.sin(((OutputTimes - StartDate).total_seconds() / TidePeriod) * 2*np.pi))','np.sin(((OutputTimes - StartDate).seconds / TidePeriod) * 2*np.pi))')],
 'a tide series longer than one day','the tide jumps back to the phase of the start at every midnight','''import numpy as np, pandas as pd
from hapuamod import synth
a=pd.Timestamp('2020-01-01'); r=synth.harmonicTide(a,a+pd.Timedelta(days=3),pd.Timedelta(minutes=30),.2,2.)
e=.2+np.sin(np.arange(r.size)*1800/(12*3600+25.2*60)*2*np.pi); assert np.allclose(r.values,e)
''')
s('V01_dry_depth','V01',[('visualise.py','''    Dist = np.insert(np.cumsum(ChanDx),0,0)
    D2 = (Dist[:-1]+Dist[1:])/2
    WL = ChanElev + ChanDep
    WL2 = (WL[:-1] + WL[1:])/2
    Vel2 = (ChanVel[:-1] + ChanVel[1:]) / 2
    Energy = WL2 + (Vel2**2) / (2*g)
    Fr = abs(ChanVel) / np.sqrt(g * ChanDep)
    Q = ChanVel * ChanDep * ChanWidth
    
    # Update the lines
''','''    Dist = np.insert(np.cumsum(ChanDx),0,0)
    D2 = (Dist[:-1]+Dist[1:])/2
    WL = ChanElev + ChanDep
    WL2 = (WL[:-1] + WL[1:])/2
    Vel2 = (ChanVel[:-1] + ChanVel[1:]) / 2
    Energy = WL2 + (Vel2**2) / (2*g)
    Dep = np.asarray(ChanDep)
    Dep[Dep < 0.001] = 0.001
    Fr = abs(ChanVel) / np.sqrt(g * Dep)
    Q = ChanVel * ChanDep * ChanWidth
    
    # Update the lines
''')],'a nearly dry section (depth below 1 mm) in the live long section','the plot changes the depth the hydraulic model continues from','''import numpy as np
from hapuamod import visualise
n=6; dx=np.full(n-1,10.); z=np.linspace(1,0,n); w=np.full(n,20.); h=np.full(n,1.); v=np.full(n,.5); b=np.zeros(n-1)
f=visualise.longSection(dx,z,w,h,v,b); h[3]=2e-4; k=h.copy(); visualise.updateLongSection(f,dx,z,w,h,v,b); assert np.array_equal(h,k), h
''')
s('V01_closed_lagoon_line','V01',[('visualise.py','''        # BarrierBackshore
        LagoonLineX = ShoreX
        LagoonLineY = ShoreY[:,3]
        
        # Water polygon
        WaterX = np.hstack([LagoonLineX,            # Lagoon backshore
                            np.flipud(CliffToRX),   # Cliff RHS
                            np.flipud(RiverRbX),    # River RB
''','''        # BarrierBackshore (never drawn landward of the cliff)
        LagoonLineX = ShoreX
        LagoonLineY = ShoreY[:,3]
        LagoonLineY[LagoonLineY < ShoreY[:,4]] = ShoreY[LagoonLineY < ShoreY[:,4],4]
        
        # Water polygon
        WaterX = np.hstack([LagoonLineX,            # Lagoon backshore
                            np.flipud(CliffToRX),   # Cliff RHS
                            np.flipud(RiverRbX),    # River RB
''')],'a closed mouth and a lagoon edge landward of the cliff line','drawing the plan view moves the lagoon edge of the model','''import numpy as np
from hapuamod import visualise
n=11; X=np.arange(-5,6)*20.; Y=np.tile([200.,np.nan,np.nan,60.,0.],(n,1)); Z=np.tile([3.,np.nan,np.nan,-1.],(n,1)); E=np.array([40.,65.])
Y[7:9,1:3]=[150.,110.]
f=visualise.modelView(X,Y,E,np.array(30.),np.array([7,8]),70.,10.,ShoreZ=Z,WavePower=0,EDir_h=0,LST=np.zeros(n-1),CST=np.zeros(n))
Y[0,4]=61.; k=Y.copy(); 
try: visualise.updateModelView(f,X,Y,E,np.array(30.),np.empty(0,int),Closed=True,ShoreZ=Z,WavePower=100.,EDir_h=.1,LST=np.zeros(n-1),CST=np.zeros(n))
except RuntimeError: pass   # newer matplotlib rejects scalars in set_data
assert np.array_equal(Y,k,equal_nan=True)
''')
