"""Reference models, written from the properties (closed forms), independent of the code under test."""

from __future__ import annotations

import numpy as np


def weights(k, halflife):
    """weights of k observations, oldest first: halve every `halflife` rows, sum to one"""
    w = 0.5 ** (np.arange(k - 1, -1, -1) / halflife)
    return w / w.sum()


def wmean(X, halflife, shift=False):
    """row t: weighted mean of X[0..t].  shift: computed relative to the first row (exact on constant data)"""
    X = np.asarray(X, dtype=float)
    out = np.empty_like(X)
    base = X[0] if (shift and len(X)) else 0.0
    for t in range(len(X)):
        w = weights(t + 1, halflife)
        out[t] = base + np.tensordot(w, X[: t + 1] - base, axes=(0, 0))
    return out


def capped_wmean(X, halflife, min_periods, cap):
    """As wmean, but each observation after the first min_periods+1 enters capped at cap times the previous mean."""
    X = np.array(X, dtype=float)
    out = np.empty_like(X)
    entered = X.copy()
    for t in range(len(X)):
        if cap and t >= min_periods + 1:
            hi = cap * np.abs(out[t - 1])
            entered[t] = np.minimum(np.maximum(X[t], -hi), hi)
        out[t] = np.tensordot(weights(t + 1, halflife), entered[: t + 1], axes=(0, 0))
    return out


def volatility(R, halflife, min_periods=0, clip_at=None):
    """-> (first reported row, array of volatilities from there on)"""
    v = capped_wmean(np.asarray(R, float) ** 2, halflife, min_periods, clip_at**2 if clip_at else None)
    s = max(min_periods - 1, 0)
    return s, np.sqrt(v[s:])


class Step:
    __slots__ = ("row", "mean", "cov", "vola", "second", "second_mean", "level")


def iewma(R, vh, ch, mpv=20, mpc=20, mean=False, mu1=None, mu2=None, clip_at=None):
    """Iterated EWMA, from its definition.  -> list of Step, one per report, in order

    Step.second is the matrix of second moments of the (clipped, centred) standardised returns, whose diagonal tells
    which correlations are defined; Step.level the magnitude of the raw returns (to judge rounding).
    """
    R = np.nan_to_num(np.asarray(R, dtype=float), nan=0.0)
    T, n = R.shape
    mu1, mu2 = mu1 or vh, mu2 or ch
    m1 = wmean(R, mu1, shift=True) if (mean and T) else np.zeros((T, n))
    X = R - m1
    s, vol = volatility(X, vh, mpv, clip_at)
    rows, adj, vv = [], [], []
    for k, t in enumerate(range(s, T)):
        v = vol[k]
        x = np.full(n, np.nan)
        for i in range(n):
            if v[i] > 0:
                x[i] = X[t, i] / v[i]
            elif X[t, i] != 0:
                x[i] = np.inf * np.sign(X[t, i])
        if clip_at:
            x = np.minimum(np.maximum(x, -clip_at), clip_at)
        if np.isnan(x).all():
            continue
        rows.append(t)
        adj.append(np.nan_to_num(x, nan=0.0))
        vv.append(v)
    if not rows:
        return []
    adj = np.array(adj)
    m2 = wmean(adj, mu2, shift=True) if mean else np.zeros_like(adj)
    Z = adj - m2
    S = wmean(Z[:, :, None] * Z[:, None, :], ch)
    out = []
    for k in range(max(mpc - 1, 0), len(rows)):
        d = np.diag(S[k]).copy()
        with np.errstate(divide="ignore", invalid="ignore"):
            q = np.where(d > 0, 1 / np.sqrt(d), np.nan)
        st = Step()
        st.row = rows[k]
        st.vola = vv[k]
        st.cov = np.outer(vv[k] * q, vv[k] * q) * S[k]
        st.mean = m1[rows[k]] + vv[k] * m2[k]
        st.second = S[k]
        st.second_mean = m2[k]
        st.level = np.abs(R[: rows[k] + 1]).max(axis=0)
        out.append(st)
    return out


# ---------------------------------------------------------------- combination


def chol_precision(cov):
    cov = np.asarray(cov, float)
    sd = np.sqrt(np.diag(cov))  # in units of the standard deviations, whatever the units of the assets
    return np.linalg.cholesky(np.linalg.inv(cov / np.outer(sd, sd))) / sd[:, None]


class Combination:
    """The combination problem from its definition.

    sigmas: list (per expert) of {time index: matrix}, means likewise (or None), R: {time index: return vector}.
    common: times at which every expert predicts, in order.  Each common time but the first is scored with the
    predictions of the common time before it.
    """

    def __init__(self, sigmas, R, means=None):
        self.K = len(sigmas)
        common = [t for t in sigmas[0] if all(t in s for s in sigmas)]
        self.common = sorted(common)
        self.n = len(next(iter(R.values())))
        self.L = [{t: chol_precision(s[t]) for t in self.common} for s in sigmas]
        z = np.zeros(self.n)
        self.mu = [{t: (z if means is None else np.asarray(means[k][t], float)) for t in self.common} for k in range(self.K)]
        self.R = R
        self.A, self.B = {}, {}
        for p, t in zip(self.common, self.common[1:]):
            self.A[t] = np.column_stack([np.diag(self.L[k][p]) for k in range(self.K)])
            self.B[t] = np.column_stack([self.L[k][p].T @ (R[t] - self.mu[k][p]) for k in range(self.K)])
        self.scored = self.common[1:]

    def window(self, window):
        N = len(self.scored)
        return min(window or N, N)

    def times(self, window):
        w = self.window(window)
        return self.scored[w - 1 :] if w else []

    def data(self, t, window):
        w = self.window(window)
        i = self.scored.index(t)
        ts = self.scored[i - w + 1 : i + 1]
        return np.vstack([self.A[s] for s in ts]), np.vstack([self.B[s] for s in ts])

    def objective(self, t, window, w):
        A, B = self.data(t, window)
        w = np.asarray(w, float)
        x = A @ w
        return (np.log(x).sum() if (x > 0).all() else -np.inf) - 0.5 * float(np.sum((B @ w) ** 2))

    def gap(self, t, window, w):
        """upper bound on how far w is from the best weights: max_k grad_k - grad.w (objective is concave)"""
        A, B = self.data(t, window)
        w = np.asarray(w, float)
        g = (A / (A @ w)[:, None]).sum(axis=0) - B.T @ (B @ w)
        return float(g.max() - g @ w)

    def blend(self, t, w):
        L = sum(w[k] * self.L[k][t] for k in range(self.K))
        nu = sum(w[k] * (self.L[k][t].T @ self.mu[k][t]) for k in range(self.K))
        u = 1 / np.diag(L)
        L = L * u[:, None]
        return u * (np.linalg.inv(L.T) @ nu), np.linalg.inv(L @ L.T) * np.outer(u, u)
