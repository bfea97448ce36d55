PROPERTY='T01'
EDITS=[('hapuamod/core.py', '    return Selected.loc[New_idxs]', '    return Selected.loc[New_idxs[0]:New_idxs[-1]]')]
NEEDS='requested times further apart than the samples of the series'
BREAKS='source samples between the requested times are returned as well, so the values no longer match the requested times'
DEMO=r"""import numpy as np, pandas as pd
from hapuamod import core
i=pd.date_range('2020-01-01',periods=20,freq='10min'); s=pd.Series(np.arange(20.),index=i)
q=pd.DatetimeIndex(['2020-01-01 00:05','2020-01-01 01:00','2020-01-01 02:15']); r=core.interpolate_at(s,q)
assert list(r.index)==list(q) and np.allclose(r.values,[.5,6.,13.5]), r
"""
