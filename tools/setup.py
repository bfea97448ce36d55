"""setup: nothing to build; checks that the tools the checks use are there"""
import subprocess, sys
import z3, cvc5
assert subprocess.run(['/opt/venv/bin/python', '-c', 'import numpy, pandas, scipy, netCDF4'], check=False).returncode == 0
print('ok', z3.get_version_string())
