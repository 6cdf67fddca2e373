"""Loads the code under test from /repo's working tree (never from a stale byte-code cache)."""

from __future__ import annotations

import contextlib
import io
import os
import sys
import tempfile
import types
import warnings

import cvxpy  # noqa: F401  (libraries first, with their own byte-code caches)
import numpy as np  # noqa: F401
import pandas as pd
import scipy.linalg  # noqa: F401
import scipy.sparse.linalg  # noqa: F401

warnings.simplefilter("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")

EXPERIMENTS = {"C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32", "C33", "C34"}


class _Quiet(io.TextIOBase):
    def write(self, s):
        return len(s)

    def flush(self):
        pass


def quiet():
    """the code under test prints progress; keep the check's output readable"""
    return contextlib.redirect_stdout(_Quiet())


class PcaStandIn:
    """stand-in for cvx.linalg.pca (package not installed): deterministic principal components"""

    calls: list = []

    def __new__(cls, returns, n_components):
        PcaStandIn.calls.append(returns.copy())
        X = returns.values - returns.values.mean(axis=0)
        _, _, Vt = np.linalg.svd(X, full_matrices=False)
        V = Vt[:n_components]
        V = V * np.sign(V[:, :1] + 1e-300)
        names = [f"F{i}" for i in range(n_components)]
        out = types.SimpleNamespace()
        out.exposure = pd.DataFrame(V, index=names, columns=returns.columns)
        return out


def load(pid):
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.pycache_prefix = tempfile.mkdtemp(prefix="mc-pyc-")  # empty: everything from /repo is compiled from source
    sys.dont_write_bytecode = True
    if pid in EXPERIMENTS:
        import matplotlib

        matplotlib.use("Agg")
        import matplotlib.pyplot  # noqa: F401
        import tqdm

        # progress bars off
        tqdm.trange = lambda *a, **k: range(*a)
        tqdm.tqdm = lambda it, *a, **k: it
        if pid == "C31":
            stub = types.ModuleType("cvx.linalg")
            stub.pca = PcaStandIn
            sys.modules["cvx.linalg"] = stub
    import cvx.covariance.combination as combination
    import cvx.covariance.ewma as ewma
    import cvx.covariance.regularization as regularization

    for m in (combination, ewma, regularization):
        assert os.path.realpath(m.__file__).startswith(os.path.realpath(REPO) + os.sep), m.__file__
    try:
        os.rmdir(sys.pycache_prefix)
    except OSError:
        pass


