"""Import the code under test from the working tree, and the PBT library."""
import os
import sys

REPO = os.environ.get("PBT_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

# hypothesis and mpmath are only present there; numpy and scipy must keep
# coming from the environment the repository is built in, so append.
if VT not in sys.path:
    sys.path.append(VT)

import numpy                                                # noqa: E402,F401
import scipy.linalg.interpolative                           # noqa: E402,F401
import scipy.special                                        # noqa: E402,F401
import scipy.integrate                                      # noqa: E402,F401
import xprec                                                # noqa: E402,F401
import xprec.linalg                                         # noqa: E402,F401
import hypothesis                                           # noqa: E402,F401
import mpmath                                               # noqa: E402,F401

# xprec.linalg.householder leaves the vector uninitialised for reflectors which
# do nothing (beta = 0), which surfaces as sporadic NaN.  This is a defect of a
# dependency (see DESIGN.md, C11); make it deterministic.
xprec_householder = xprec.linalg.householder


def _householder(x):
    beta, v = xprec_householder(x)
    if beta == 0:
        v = numpy.zeros_like(v)
        v[0] = 1
    return beta, v


xprec.linalg.householder = _householder

_src = os.path.join(REPO, "src")
sys.path.insert(0, _src)
# never trust byte code left behind by an earlier state of the tree
_prefix, sys.pycache_prefix = sys.pycache_prefix, "/nonexistent/pycache"
_dont, sys.dont_write_bytecode = sys.dont_write_bytecode, True
import sparse_ir                                            # noqa: E402
import sparse_ir.adapter                                    # noqa: E402,F401
import sparse_ir.augment                                    # noqa: E402,F401
import sparse_ir.dlr                                        # noqa: E402,F401
import sparse_ir.poly                                       # noqa: E402,F401
import sparse_ir.sampling                                   # noqa: E402,F401
import sparse_ir.svd                                        # noqa: E402,F401
import sparse_ir._gauss                                     # noqa: E402,F401
sys.pycache_prefix = _prefix
sys.dont_write_bytecode = _dont

if not os.path.realpath(sparse_ir.__file__).startswith(os.path.realpath(_src)):
    raise ImportError("sparse_ir imported from " + sparse_ir.__file__)
