PROPERTY='O02'
EDITS=[('hapuamod/out.py', '            Confirm = input(\'Confirm ok to overwrite "%s" (y/n):\' % FileName)\n            Overwrite = Confirm in [\'Y\', \'y\', \'Yes\', \'yes\', \'YES\']\n        \n        if Overwrite:\n            os.remove(FileName)\n            logging.info(\'Overwriting output file "%s"\' % FileName)\n        else:\n            raise Exception(\'Conflict with existing output file "%s"\' % FileName)\n    else:\n        logging.info(\'Creating new output file "%s"\' % FileName)\n    \n    # create new empty netcdf file and open it for writing\n    NcFile = netCDF4.Dataset(FileName, mode=\'w\', format=\'NETCDF4_CLASSIC\') \n    \n    # create dimensions\n    TimeDim =', '            Confirm = input(\'Confirm ok to overwrite "%s" (y/n):\' % FileName)\n            Overwrite = Confirm.strip()[:1].lower() in \'yes\'\n        \n        if Overwrite:\n            os.remove(FileName)\n            logging.info(\'Overwriting output file "%s"\' % FileName)\n        else:\n            raise Exception(\'Conflict with existing output file "%s"\' % FileName)\n    else:\n        logging.info(\'Creating new output file "%s"\' % FileName)\n    \n    # create new empty netcdf file and open it for writing\n    NcFile = netCDF4.Dataset(FileName, mode=\'w\', format=\'NETCDF4_CLASSIC\') \n    \n    # create dimensions\n    TimeDim =')]
NEEDS='an existing time-series file and an empty or unusual answer (return, "s") at the prompt'
BREAKS='pressing return destroys the existing time-series file'
DEMO=r"""import tempfile, os, shutil, builtins, pandas as pd
from hapuamod import out
t=tempfile.mkdtemp()
try:
    f=os.path.join(t,'o.nc')
    for a in ('','s','n','no','e'):
        open(f,'w').write('keep me'); builtins.input=lambda *x: a
        try: out.newTsOutFile(f,'m',pd.Timestamp('2020-01-01')); ok=False
        except Exception: ok=True
        assert ok and open(f).read()=='keep me', a
finally: shutil.rmtree(t)
"""
