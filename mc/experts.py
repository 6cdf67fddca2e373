"""Finite families of expert predictions and returns, and runners of the combined predictor."""

from __future__ import annotations

import contextlib

import cvxpy as cp
import numpy as np
import pandas as pd

from cvx.covariance.combination import from_sigmas

from . import code, ref
from . import histories as H
from .engine import Violation


def bad(msg, **kw):
    raise Violation(msg + "".join(f"\n  {k} = {v}" for k, v in kw.items()))


M2 = {
    "P": np.array([[1.0, 0.5], [0.5, 2.0]]),
    "Q": np.array([[4.0, -1.0], [-1.0, 1.0]]),
    "I": np.diag([0.3, 0.3]),
    "R": np.array([[1.0, 0.9], [0.9, 1.0]]),
    "W": np.array([[30.0, 2.0], [2.0, 0.2]]),
}
R2 = {"x": (1.0, -1.0), "o": (0.0, 0.0), "y": (0.5, 2.0), "h": (-6.0, 5.0), "s": (0.1, -0.2)}
# joint letters: (matrix of expert 0, of expert 1, return)
JOINT = {"a": "PQx", "b": "QIy", "c": "IPo", "d": "RQh", "e": "QRs", "f": "WPy", "g": "PPx"}


class Case:
    """experts, means and returns, with the independent model of the combination problem"""

    def __init__(self, sig, R, mu=None, keys=None, label="date", cols="str", means_as="series", mean_order=None):
        # sig: list per expert of {row: matrix}; R: array of returns; mu: list per expert of {row: vector} or None
        self.T, self.n = R.shape
        self.label = label
        self.idx = H.index(label, self.T)
        self.cols = H.columns(cols, self.n)
        self.K = len(sig)
        self.keys = list(keys) if keys is not None else [f"e{self.K - 1 - k}" for k in range(self.K)]  # not in alphabetical order
        self.sig, self.R, self.mu, self.means_as = sig, R, mu, means_as
        self.mean_order = mean_order  # order of the experts in the dictionary of means
        self.model = ref.Combination(sig, {t: R[t] for t in range(self.T)}, mu)
        self.pos = {t: i for i, t in enumerate(self.idx)}

    def args(self):
        returns = pd.DataFrame(self.R.copy(), index=self.idx, columns=self.cols)
        sigmas = {
            k: {self.idx[t]: pd.DataFrame(m.copy(), index=self.cols, columns=self.cols) for t, m in s.items()}
            for k, s in zip(self.keys, self.sig)
        }
        means = None
        if self.mu is not None:
            mk = (lambda v: pd.Series(v.copy(), index=self.cols)) if self.means_as == "series" else (lambda v: np.array(v))
            means = {k: {self.idx[t]: mk(np.asarray(v, float)) for t, v in m.items()} for k, m in zip(self.keys, self.mu)}
            if self.mean_order is not None:
                means = {self.keys[k]: means[self.keys[k]] for k in self.mean_order}
        return sigmas, returns, means

    def build(self):
        s, r, m = self.args()
        return from_sigmas(s, r, means=m) if m is not None else from_sigmas(s, r)

    def row(self, time):
        return self.pos[time]


def run(comb, **kw):
    with code.quiet():
        return list(comb.solve(**kw))


def word_case(word, mu=None, **kw):
    sig = [{t: M2[JOINT[c][k]] for t, c in enumerate(word)} for k in range(2)]
    R = np.array([R2[JOINT[c][2]] for c in word])
    if mu:
        mu = [{t: np.array([0.3 * (k + 1), -0.2 + 0.1 * t * k]) for t in range(len(word))} for k in range(2)]
    else:
        mu = None
    return Case(sig, R, mu, **kw)


def generic_case(T, n, K, scale=1.0, means=False, zero_rows=(), scales_r=1.0, avail=None, same=False, spread=1.0, units=None, alike=None, **kw):
    """irregular, well conditioned experts

    units: sizes of the assets; alike: experts that share figures of their precision factors ("signs": all but the signs of
    the correlations, "order": the same assets in another order, "diagonal": everything but the correlations)"""
    R = H.generic(T, n, 1.0)
    for t in zero_rows:
        R[t] = 0
    sig, mu = [], []
    for k in range(K):
        kk = 0 if same else k
        s, m = {}, {}
        for t in range(T):
            if avail is not None and t not in avail[k]:
                continue
            Y = np.sin(np.outer(np.arange(1, n + 1), np.arange(1, n + 3)) * (0.7 + 0.31 * kk) + 0.53 * t * (kk + 1))
            C = 0.6 * np.eye(n) + 0.3 * Y @ Y.T / n
            d = np.exp(spread * 0.5 * np.sin(1.1 * np.arange(n) + 2.3 * kk + 0.4 * t))
            if alike:
                Y = np.sin(np.outer(np.arange(1, n + 1), np.arange(1, n + 3)) * 0.7 + 0.53 * t)
                P = 0.6 * np.eye(n) + 0.3 * Y @ Y.T / n  # precision of expert 0
                Lf = np.linalg.cholesky(P)
                if alike == "signs":
                    Lf = Lf * np.where(np.add.outer(np.arange(n), kk * np.arange(n)) % 2 | np.eye(n, dtype=bool), 1.0, -1.0) if kk else Lf
                elif alike == "order":
                    i = np.roll(np.arange(n), kk)
                    Lf = np.linalg.cholesky(P[np.ix_(i, i)])
                elif alike == "diagonal":
                    Lf = np.diag(np.diag(Lf)) + (Lf - np.diag(np.diag(Lf))) * (1 - 0.8 * kk)
                C, d = np.linalg.inv(Lf @ Lf.T), np.ones(n)
            u = np.ones(n) if units is None else np.asarray(units, float)
            d = d * u
            s[t] = (C * np.outer(d, d)) * scale**2
            s[t] = (s[t] + s[t].T) / 2
            m[t] = 0.3 * scale * u * np.cos(np.arange(n) + kk + 0.9 * t)
        sig.append(s)
        mu.append(m)
    return Case(sig, R * scale * scales_r * (1 if units is None else np.asarray(units, float)), mu if means else None, **kw)


# ------------------------------------------------------------------ oracles

GAP = 2e-3  # solver accuracy, for objectives of moderate size
SUM = 1e-6
NEG = 1e-6


def check_weights(case, r, window, what="", slack=(GAP, 1e-5, SUM)):
    t = case.row(r.time)
    w = r.weights
    if list(w.index) != case.keys:
        bad(f"{what}weights carry the wrong expert keys", got=list(w.index), want=case.keys)
    v = np.asarray(w.values, float)
    if not np.isfinite(v).all():
        bad(f"{what}weights are not finite", time=r.time, weights=v)
    if (v < -slack[2]).any():
        bad(f"{what}negative weight", time=r.time, weights=v)
    if abs(v.sum() - 1) > slack[2]:
        bad(f"{what}weights do not sum to one", time=r.time, weights=v, sum=v.sum())
    g = case.model.gap(t, window, v)
    A, B = case.model.data(t, window)
    size = A.shape[0] + 0.5 * float(np.sum((B @ v) ** 2))
    if not g <= slack[0] + slack[1] * size:
        bad(
            f"{what}weights do not maximise the likelihood of the window",
            time=r.time,
            weights=v,
            suboptimality_bound=g,
            objective=case.model.objective(t, window, np.maximum(v, 0)),
            window=window,
        )
    return g


def check_blend(case, r, what=""):
    t = case.row(r.time)
    w = np.asarray(r.weights.values, float)
    m, C = case.model.blend(t, w)
    if list(r.covariance.index) != list(case.cols) or list(r.covariance.columns) != list(case.cols):
        bad(f"{what}covariance has the wrong labels", got=list(r.covariance.index))
    if list(r.mean.index) != list(case.cols):
        bad(f"{what}mean has the wrong labels", got=list(r.mean.index))
    got = r.covariance.values
    sd = np.sqrt(np.diag(C))
    o = np.outer(sd, sd)
    cond = np.linalg.cond(C / o)
    tol = 1e-9 * max(1.0, cond)
    if not (np.abs(got - C) <= tol * o).all():
        bad(f"{what}covariance is not the blend of the experts at that time", time=r.time, got=got.tolist(), want=C.tolist(), weights=w)
    if not (np.abs(got - got.T) <= 1e-9 * max(1.0, cond) * o).all() or np.linalg.eigvalsh((got + got.T) / 2 / o)[0] <= 0:
        bad(f"{what}covariance is not symmetric positive definite", time=r.time, got=got.tolist())
    mm = sd * (np.abs(np.array([case.model.mu[k][t] for k in range(case.K)])) / sd).max()
    if not (np.abs(r.mean.values - m) <= 1e-8 * max(1.0, cond) * mm).all():
        bad(f"{what}mean is not the blend of the experts' means", time=r.time, got=r.mean.values, want=m)


def check_schedule(case, got, window, what=""):
    want = [case.idx[t] for t in case.model.times(window)]
    if [None if g is None else g.time for g in got] != want:
        bad(
            f"{what}reported times are wrong",
            got=[None if g is None else str(g.time) for g in got],
            want=[str(t) for t in want],
            window=window,
        )


def curvature(case, t, window):
    """lower bound of the curvature of the objective over the simplex"""
    A, B = case.model.data(t, window)
    return np.linalg.eigvalsh(B.T @ B + (A / A.max(axis=1)[:, None]).T @ (A / A.max(axis=1)[:, None]))[0]


def same_entry(a, b, what, wtol=1e-5, rtol=1e-5):
    if (a is None) != (b is None):
        bad(f"{what}: one run reports None", first=a, second=b)
    if a is None:
        return
    if a.time != b.time:
        bad(f"{what}: times differ", first=a.time, second=b.time)
    if list(a.weights.index) != list(b.weights.index) or not np.allclose(a.weights.values, b.weights.values, atol=wtol, rtol=0):
        bad(f"{what}: weights differ at {a.time}", first=dict(a.weights), second=dict(b.weights))
    sd = np.sqrt(np.abs(np.diag(a.covariance.values)))
    if not (np.abs(a.covariance.values - b.covariance.values) <= rtol * np.outer(sd, sd) * 10).all():
        bad(f"{what}: covariances differ at {a.time}", first=a.covariance.values.tolist(), second=b.covariance.values.tolist())
    if not (np.abs(a.mean.values - b.mean.values) <= rtol * 10 * (sd + np.abs(a.mean.values).max())).all():
        bad(f"{what}: means differ at {a.time}", first=a.mean.values, second=b.mean.values)


def same_run(a, b, what, **kw):
    if len(a) != len(b):
        bad(f"{what}: different number of entries", first=len(a), second=len(b))
    for x, y in zip(a, b):
        same_entry(x, y, what, **kw)


# ------------------------------------------------------------------ the solver boundary

REAL_SOLVE = cp.Problem.solve


@contextlib.contextmanager
def solver(fn):
    """replace cvxpy.Problem.solve by fn(problem, *args, **kwargs)"""
    cp.Problem.solve = fn
    try:
        yield
    finally:
        cp.Problem.solve = REAL_SOLVE


def set_answer(problem, value, status="optimal"):
    """make `problem` look as if the solver had returned `value` (None: no solution). -> False if not applicable"""
    vs = problem.variables()
    if len(vs) != 1:
        return False
    v = vs[0]
    if value is not None and v.size != len(value):
        return False
    v.save_value(None if value is None else np.asarray(value, float).reshape(v.shape))
    problem._status = status
    problem._value = 0.0 if value is not None else np.nan
    return True
