"""Process set-up shared by all checks; must be imported first."""
import os
import sys
import warnings

for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'
os.environ.setdefault('HDF5_USE_FILE_LOCKING', 'FALSE')
sys.dont_write_bytecode = True
REPO = os.environ.get('FIDES_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)

import numpy as np  # noqa: E402

warnings.simplefilter('ignore')
np.seterr(all='ignore')

import h5py  # noqa: E402, F401
import scipy.linalg  # noqa: E402, F401
import scipy.optimize  # noqa: E402, F401
import scipy.sparse  # noqa: E402, F401

# compile fides from its current sources: byte code left behind by earlier states is not looked at
sys.pycache_prefix = os.path.join(VERIF, '.nopycache')
import fides  # noqa: E402

sys.pycache_prefix = None

if not os.path.abspath(fides.__file__).startswith(os.path.abspath(REPO) + os.sep):
    sys.stderr.write(f'fides imported from {fides.__file__}, not {REPO}\n')
    sys.exit(3)
