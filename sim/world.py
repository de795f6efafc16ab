"""Imports the dependencies, installs the seams, then imports rigeo."""
import sys
import threading
import warnings

import numpy as np
import scipy.linalg
import scipy.spatial
import scipy.stats
import scipy.optimize
import cdd
import cvxpy as cp
import clarabel
from cvxpy.reductions.solvers.conic_solvers.clarabel_conif import CLARABEL as _C  # noqa

import core

warnings.simplefilter("ignore")
np.seterr(all="warn")

core.install_lock_seam()

import rigeo as rg  # noqa: E402

assert rg.__file__.startswith(core.REPO_SRC + "/"), rg.__file__

# warm up lazily-imported parts of the dependencies (not of rigeo) so that every
# fork starts from the same state
_x = cp.Variable(2)
_p = cp.Problem(cp.Minimize(cp.norm2(_x)), [_x >= 1])
_p.solve(solver=cp.CLARABEL)
del _x, _p
