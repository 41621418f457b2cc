"""Import /repo's quantities, either plainly or over the symbolic numpy."""
import builtins
import importlib
import os
import sys
import types

REPO = os.environ.get("SYMQ_REPO", "/repo")
Z3_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _prepare():
    sys.dont_write_bytecode = True
    # never read stale bytecode from the tree either
    sys.pycache_prefix = "/nonexistent-pycache-%d" % os.getpid()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(REPO, "quantities", "_version.py")):
        v = types.ModuleType("quantities._version")
        v.__version__ = "0"
        v.version = "0"
        sys.modules["quantities._version"] = v


def load_plain():
    _prepare()
    import warnings
    warnings.simplefilter("ignore")
    import numpy
    numpy.seterr(all="ignore")
    import quantities
    assert os.path.realpath(quantities.__file__).startswith(os.path.realpath(REPO)), quantities.__file__
    return quantities


def load_symbolic():
    _prepare()
    import warnings
    warnings.simplefilter("ignore")
    import numpy as rnp
    rnp.seterr(all="ignore")
    from . import symnp, symhash
    import numpy.ma, numpy.lib, numpy.linalg, numpy.testing, numpy.random, numpy.fft   # noqa: before the switch
    import numpy.core.numeric, numpy.core.umath   # noqa
    import pickle, copy   # noqa
    shim = symnp.make_shim()
    sys.modules["numpy"] = shim
    import quantities
    assert os.path.realpath(quantities.__file__).startswith(os.path.realpath(REPO)), quantities.__file__
    symhash.install(quantities)
    return quantities
