PROPERTY='S01'
EDITS=[('hapuamod/synth.py', 'np.sin(((OutputTimes - StartDate).total_seconds() / TidePeriod) * 2*np.pi))', 'np.sin(((OutputTimes - StartDate).seconds / TidePeriod) * 2*np.pi))')]
NEEDS='a tide series longer than one day'
BREAKS='the tide jumps back to the phase of the start at every midnight'
DEMO=r"""import numpy as np, pandas as pd
from hapuamod import synth
a=pd.Timestamp('2020-01-01'); r=synth.harmonicTide(a,a+pd.Timedelta(days=3),pd.Timedelta(minutes=30),.2,2.)
e=.2+np.sin(np.arange(r.size)*1800/(12*3600+25.2*60)*2*np.pi); assert np.allclose(r.values,e)
"""
