"""C22-C26, C30, C31: the experiments' estimators, likelihoods and helpers."""

from __future__ import annotations

import itertools
import types
import warnings
from collections import namedtuple

import numpy as np
import pandas as pd

from cvx.covariance.combination import from_sigmas
from cvx.covariance.ewma import iterated_ewma
from cvx.covariance.regularization import regularize_covariance

from . import code, ref
from . import histories as H
from .engine import Space
from .experts import bad
from .reg_checks import em_step, generic_cov, spectrum


# ------------------------------------------------------------------ C22



def low_rank_model(Z, halflife, r):
    """second-moment models of standardised returns Z (rows), per row: (F F^T, d, smallest gap that decided a truncation)"""
    n = Z.shape[1]
    beta = 0.5 ** (1 / halflife)
    M = np.outer(Z[0], Z[0])
    d = np.zeros(n)
    gap = np.inf
    out = [(M, d, gap)]
    for k in range(1, len(Z)):
        w = beta ** np.arange(k, -1, -1)
        new = 1 / w.sum()
        old = 1 - new
        A = old * M + new * np.outer(Z[k], Z[k])
        D = old * d
        s2 = np.diag(A).copy()
        with np.errstate(divide="ignore", invalid="ignore"):
            s = np.where(s2 > 0, np.sqrt(s2), np.nan)
            R = A / np.outer(s, s)
        if np.isnan(R).any():
            out.append((A * np.nan, D * np.nan, 0.0))
            M, d = A * np.nan, D * np.nan
            continue
        lam, Q = np.linalg.eigh(R)
        lam, Q = lam[::-1], Q[:, ::-1]
        g = lam[r - 1] - lam[r] if r < n else np.inf
        if lam[r - 1] > 1e-9:  # a vanishing eigenvalue decides nothing
            gap = min(gap, g)
        P = (Q[:, :r] * np.maximum(lam[:r], 0)) @ Q[:, :r].T
        d = np.maximum(s2 * (1 - np.diag(P)) + D, 0)
        M = P * np.outer(s, s)
        out.append((M, d, gap))
    return out


def standardised(X, cfg):
    """rows of (twice centred, clipped) standardised returns, with their row numbers, volatilities and means"""
    c = dict(cfg)
    vh, ch = c["vola_halflife"], c["cov_halflife"]
    mean, clip = c.get("mean", False), c.get("clip_at")
    T, n = X.shape
    m1 = ref.wmean(X, c.get("mu_halflife1") or vh, shift=True) if mean else np.zeros((T, n))
    Y = X - m1
    s, vol = ref.volatility(Y, vh, c.get("min_periods_vola", 20), clip)
    rows = [t for t in range(s, T) if (vol[t - s] > 0).all()]
    if not rows:
        return [], None, None, None
    v = np.array([vol[t - s] for t in rows])
    Z = Y[rows] / v
    if clip:
        Z = np.clip(Z, -clip, clip)
    m2 = ref.wmean(Z, c.get("mu_halflife2") or ch, shift=True) if mean else np.zeros_like(Z)
    return rows, Z - m2, v, m1[rows] + v * m2


def undefined(X, cfg):
    """outside the property: an asset whose standardised returns so far are all zero has no correlations"""
    Z = standardised(X, cfg)[1]
    first = 1 if cfg.get("mean", False) else 0  # the first twice-centred return is always zero
    return Z is not None and len(Z) > first and (np.abs(Z[: first + 1]).max(axis=0) < 1e-9).any()


def check_low_rank(ctx, X, cfg, r, key, label="date", cols="str", exact=False):
    from experiments.utils.low_rank_ewma import low_rank_iterated_ewma

    f = H.frame(X, label, cols)
    n = f.shape[1]
    if undefined(f.values.astype(float), cfg):
        return None
    got = list(low_rank_iterated_ewma(f, rank=r, **cfg))
    full = list(iterated_ewma(f, **cfg))
    ctx.trace(2)
    ctx.step(len(f))
    if [g.time for g in got] != [g.time for g in full]:
        bad("times differ from iterated EWMA", got=[str(g.time) for g in got], want=[str(g.time) for g in full])
    rows, Z, v, mu = standardised(f.values.astype(float), cfg)
    mean = cfg.get("mean", False)
    mod = low_rank_model(Z, cfg["cov_halflife"], r) if len(rows) else []
    where = {f.index[t]: k for k, t in enumerate(rows)}
    for g, e in zip(got, full):
        k = where[g.time]
        ctx.state("lr", key, r, str(cfg), k)
        F, d = g.covariance.F, g.covariance.d
        if list(F.index) != list(f.columns) or list(d.index) != list(f.columns) or F.shape != (n, r):
            bad("factor form has the wrong labels or shape", shape=F.shape, want=(n, r))
        if list(g.mean.index) != list(f.columns) or list(g.volatility.index) != list(f.columns):
            bad("mean or volatility has the wrong labels")
        vola = e.volatility.values
        if not np.allclose(g.volatility.values, vola, rtol=1e-10, atol=0):
            bad("volatility differs from iterated EWMA", time=g.time, got=g.volatility.values, want=vola)
        if not (np.abs(g.mean.values - e.mean.values) <= 1e-9 * (vola + np.abs(e.mean.values))).all():
            bad("mean differs from iterated EWMA", time=g.time, got=g.mean.values, want=e.mean.values)
        if mean and k == 0:
            continue  # the first twice-centred return is zero: nothing is defined
        M, D, gap = mod[k]
        C = (F.values @ F.values.T + np.diag(d.values)) / np.outer(vola, vola)
        if not np.isfinite(C).all():
            bad("covariance is not finite", time=g.time, F=F.values.tolist(), d=d.values)
        if (d.values / vola**2 < -1e-12).any():
            bad("negative diagonal", time=g.time, d=d.values)
        if not (np.abs(np.diag(C) - 1) <= 1e-9).all():
            bad("the diagonal is not the squared volatility", time=g.time, got=np.diag(C) * vola**2, want=vola**2)
        R = e.covariance.values / np.outer(vola, vola)
        rank = np.linalg.matrix_rank(Z[: k + 1] / np.abs(Z[: k + 1]).max(), tol=1e-7)
        if rank <= r or exact:
            if not (np.abs(C - R) <= 1e-6).all():
                bad("not exact although the standardised returns span at most `rank` dimensions", time=g.time, rank=r, got=C.tolist(), want=R.tolist())
            ctx.hit("exact", key, r, k)
        if gap > 1e-3:
            S = M + np.diag(D)
            q = 1 / np.sqrt(np.diag(S))
            if not (np.abs(C - S * np.outer(q, q)) <= 1e-6 / min(1, gap)).all():
                bad("not the truncated update", time=g.time, rank=r, got=C.tolist(), want=(S * np.outer(q, q)).tolist())
    return got


def c22(deep):
    CF = [
        dict(vola_halflife=2, cov_halflife=3, min_periods_vola=1, min_periods_cov=1),
        dict(vola_halflife=4, cov_halflife=1.5, min_periods_vola=2, min_periods_cov=3, clip_at=0.9),
        dict(vola_halflife=1, cov_halflife=5, min_periods_vola=0, min_periods_cov=2),
        dict(vola_halflife=3, cov_halflife=2, min_periods_vola=2, min_periods_cov=2, mean=True),
        dict(vola_halflife=3, cov_halflife=2, min_periods_vola=1, min_periods_cov=2, mean=True, mu_halflife1=1, mu_halflife2=6, clip_at=1.2),
        dict(vola_halflife=3, cov_halflife=2, min_periods_vola=2, min_periods_cov=2, mean=True, mu_halflife1=1, mu_halflife2=6),
        dict(vola_halflife=2, cov_halflife=4, min_periods_vola=3, min_periods_cov=4, mean=True, mu_halflife2=1, clip_at=2.5),
        dict(vola_halflife=2, cov_halflife=4, min_periods_vola=3, min_periods_cov=1, mean=True, mu_halflife1=9),
    ]
    # row letters without zeros (three assets); p, q span a plane
    TAB = {"a": (1.0, 2.0, -0.5), "b": (-1.5, 0.5, 0.75), "c": (0.3, -3.0, 1.0), "h": (12.0, -0.25, 3.0), "A": (2.0, 4.0, -1.0), "z": (0.0, 0.0, 0.0), "o": (0.0, 1.0, 0.0)}

    def gen_words():
        for m in (1, 2, 3):
            for w in H.words("abchAzo", [m]):
                if w[0] in "abchA":
                    for r in (1, 2):
                        for k in range(3):
                            if not (k == 1 and m > 1 and w[1] in "zo"):
                                yield [w, r, k]
        for w in H.words("abch" if not deep else "abchA", [5]):
            for r in (1, 2):
                for k in (0, 1):
                    yield [w, r, k]

    def run_words(ctx, sc):
        w, r, k = sc
        check_low_rank(ctx, H.rows(w, TAB), CF[k], r, w)

    def gen_generic():
        for n in range(2, 9 if not deep else 13):
            for r in range(1, n):
                for k in range(len(CF)):
                    for seed in range(1 if not deep else 4):
                        yield [n, r, k, seed]

    def run_generic(ctx, sc):
        n, r, k, seed = sc
        check_low_rank(ctx, H.generic(14 + seed, n)[seed:], CF[k], r, str(sc), ("date", "tick", "str", "desc", "float")[(n + k) % 5], ("str", "int", "rev", "named")[r % 4])

    def gen_thin():
        """returns in a fixed low-dimensional subspace up to time-varying size: exact for ever"""
        for n in (2, 3, 4, 6):
            for dim in (1, 2, 3):
                for r in range(dim, n):
                    for k in range(3):
                        for T in (6, 12):
                            yield [n, dim, r, k, T]

    def run_thin(ctx, sc):
        n, dim, r, k, T = sc
        # standardised returns keep the span only if volatilities stay proportional: each asset's returns are
        # +-1 times a common size per block
        t = np.arange(T)[:, None]
        Fm = np.array([[1.0 if (i % dim) == j else 0.0 for i in range(n)] for j in range(dim)]) * (1 - 2 * (np.arange(n) // dim % 2))
        S = np.cos(1.3 * t * (1 + np.arange(dim)) + np.arange(dim)) + 0.3 * np.sin(t + 1.0)
        X = 0.01 * S @ Fm * (1 + np.arange(n))
        check_low_rank(ctx, X, CF[k], r, str(sc), exact=True)

    def gen_prefix():
        for n, r in [(3, 1), (3, 2), (5, 2)]:
            for k in range(len(CF)):
                for cut in range(1, 10):
                    for fut in ("none", "huge", "zero", "nan", "other"):
                        yield [n, r, k, cut, fut]

    def run_prefix(ctx, sc):
        from experiments.utils.low_rank_ewma import low_rank_iterated_ewma

        n, r, k, cut, fut = sc
        X = H.generic(10, n)
        if undefined(X, CF[k]):
            return
        a = list(low_rank_iterated_ewma(H.frame(X), rank=r, **CF[k]))
        Y = X.copy()
        if fut == "none":
            Y = Y[:cut]
        else:
            Y[cut:] = {"huge": 1e3, "zero": 0.0, "nan": np.nan, "other": 0.02}[fut]
        f = H.frame(Y)
        b = []
        try:
            for x in low_rank_iterated_ewma(f, rank=r, **CF[k]):
                b.append(x)
        except Exception:
            if fut != "nan" and not undefined(Y, CF[k]):
                raise
        ctx.trace(2)
        a = [x for x in a if x.time in f.index[:cut]]
        b = [x for x in b if x.time in f.index[:cut]]
        if [x.time for x in a] != [x.time for x in b]:
            bad("reports up to a time depend on later rows", first=[str(x.time) for x in a], second=[str(x.time) for x in b])
        for i, (x, y) in enumerate(zip(a, b)):
            ctx.step()
            ctx.state("pre", *sc, i)
            if CF[k].get("mean") and i == 0:
                continue
            v = x.volatility.values
            cx = (x.covariance.F.values @ x.covariance.F.values.T + np.diag(x.covariance.d.values)) / np.outer(v, v)
            cy = (y.covariance.F.values @ y.covariance.F.values.T + np.diag(y.covariance.d.values)) / np.outer(v, v)
            if not np.allclose(cx, cy, atol=1e-6, rtol=0) or not np.allclose(v, y.volatility.values, rtol=1e-9) or not np.allclose(x.mean.values, y.mean.values, rtol=1e-7, atol=1e-12):
                bad("a report depends on later rows", time=x.time, future=fut)

    def gen_len():
        for T in range(0, 46):
            yield [T]

    def run_len(ctx, sc):
        """default warm-ups, all lengths around them; empty history"""
        check_low_rank(ctx, H.generic(max(sc[0], 0), 3), dict(vola_halflife=10, cov_halflife=21), 2, str(sc))

    LG = [
        dict(vola_halflife=10, cov_halflife=21, clip_at=4.2),
        dict(vola_halflife=21, cov_halflife=63, min_periods_vola=63, min_periods_cov=20),
        dict(vola_halflife=10, cov_halflife=21, min_periods_vola=10, min_periods_cov=10, mean=True, clip_at=3.0),
    ]

    def gen_warm():
        for w in list(range(21)) + [25, 26, 30, 31, 40, 50, 51, 60, 63, 64, 75]:
            for v in (0, 1, 5):
                yield [v, w]
                yield [w, v]

    def run_warm(ctx, sc):
        """every pair of a short and a (possibly long) warm-up; a history just long enough"""
        v, w = sc
        for extra in (0, 3):
            check_low_rank(ctx, H.generic(max(v, 1) + max(w, 1) + extra, 2), dict(vola_halflife=5, cov_halflife=9, min_periods_vola=v, min_periods_cov=w), 1, str(sc) + str(extra))

    def gen_spike():
        for n, dim in [(2, 1), (3, 2), (5, 3)]:
            for hl in (3, 40, 200, 400, 900):
                for size in (5, 40, 300):
                    for T, at in ((60, 30), (60, 56), (160, 150), (160, 158)):
                        yield [n, dim, hl, size, T, at]

    def run_spike(ctx, sc):
        """returns far beyond the volatilities enter as they are when nothing is to be clipped"""
        n, dim, hl, size, T, at = sc
        t = np.arange(T)[:, None]
        Fm = np.array([[1.0 if (i % dim) == j else 0.0 for i in range(n)] for j in range(dim)]) * (1 - 2 * (np.arange(n) // dim % 2))
        S = np.cos(1.3 * t * (1 + np.arange(dim)) + np.arange(dim)) + 0.3 * np.sin(t + 1.0)
        S[at] *= size
        check_low_rank(ctx, 0.01 * S @ Fm * (1 + np.arange(n)), dict(vola_halflife=hl, cov_halflife=9, min_periods_vola=5, min_periods_cov=5), dim, str(sc), exact=True)

    def gen_large():
        for T, n, ranks in [(150, 3, (1, 2)), (90, 12, (1, 4, 10)), (70, 40, (2, 12)), (45, 100, (3,))] + ([(600, 10, (3,)), (120, 100, (10, 40))] if deep else []):
            for r in ranks:
                for kind in ("plain", "spike", "calm"):
                    for k in range(len(LG)):
                        if LG[k].get("min_periods_vola", 20) < T - 5:
                            yield [T, n, r, kind, k]

    def run_large(ctx, sc):
        T, n, r, kind, k = sc
        check_low_rank(ctx, H.large(kind, T, n), LG[k], r, str(sc), ("date", "tick", "int7")[k])

    def gen_extreme():
        for hl in (0.4, 6, 45, 2600, 1e5):
            for ch in (0.9, 6, 333, 1e5):
                for clip in (None, 0.5, 3.0, 12.0, 80.0, 1e4):
                    for r in (1, 2):
                        for mean in (0, 1):
                            yield [hl, ch, clip, r, mean]

    def run_extreme(ctx, sc):
        hl, ch, clip, r, mean = sc
        X = H.generic(24, 3)
        X[11, 0] *= 40
        X[16, 2] *= -900
        c = dict(vola_halflife=hl, cov_halflife=ch, min_periods_vola=4, min_periods_cov=6)
        if clip:
            c["clip_at"] = clip
        if mean:
            c.update(mean=True, mu_halflife1=ch, mu_halflife2=3 * hl)
        check_low_rank(ctx, X, c, r, str(sc))

    return [
        Space("extreme parameters", "half lives 0.4..100000 x clips up to 10000 x ranks x means, with outliers", gen_extreme, run_extreme),
        Space("words", "all words up to length 3 (7 row letters) and 5 (4 letters), three assets, rank 1 and 2, x configurations", gen_words, run_words),
        Space("generic", "2..8 assets x all ranks x configurations with and without means, labels", gen_generic, run_generic),
        Space("thin", "histories of dimension 1..3: exactness for every rank at least the dimension", gen_thin, run_thin),
        Space("spikes", "thin histories with one row 5 to 300 times the others x half lives up to 900", gen_spike, run_spike),
        Space("prefixes", "every cut point x futures: no look-ahead", gen_prefix, run_prefix),
        Space("lengths", "every history length 0..45 with default warm-ups", gen_len, run_len),
        Space("warm-ups", "warm-ups up to 75 against short ones, either way round", gen_warm, run_warm),
        Space("large", "up to 150 rows, 100 assets, rank 12 x events x configurations", gen_large, run_large),
    ]


# ------------------------------------------------------------------ C23


def logpdf(r, S, m):
    r, m, S = np.asarray(r, float), np.asarray(m, float), np.asarray(S, float)
    sd = np.sqrt(np.diag(S))  # in units of the standard deviations
    L = np.linalg.cholesky(S / np.outer(sd, sd))
    z = np.linalg.solve(L, (r - m) / sd)
    return float(-0.5 * len(r) * np.log(2 * np.pi) - np.log(np.diag(L)).sum() - np.log(sd).sum() - 0.5 * z @ z)


def near(a, b, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool((np.abs(a - b) <= tol * (1 + np.abs(b))).all())


def c23(deep):
    from experiments.utils.experiment_utils import (
        em_low_rank_log_likelihood,
        log_likelihood,
        log_likelihood_low_rank,
        log_likelihood_regularized,
        log_likelihood_sequential,
    )

    S2 = [np.eye(2), np.array([[2, 0.5], [0.5, 1]]), np.array([[1, -0.9], [-0.9, 1.5]]), np.diag([1e-4, 4e-4])]
    R2 = [(0.0, 0.0), (1.0, -1.0), (0.01, 0.02), (-3.0, 5.0)]
    M2 = [None, (0.0, 0.0), (0.5, -0.5), (1.0, -1.0)]

    def gen_batch():
        for m in (1, 2) if not deep else (1, 2, 3):
            for ss in itertools.product(range(len(S2)), repeat=m):
                for rr in itertools.product(range(len(R2)), repeat=m):
                    for k, mu in enumerate(M2):
                        for sc in (None, 100, 0.1):
                            if m < 2 or deep or (k in (0, 2) and sc != 0.1):
                                yield [list(ss), list(rr), k, sc]

    def run_batch(ctx, sc):
        ss, rr, k, scale = sc
        S = np.array([S2[i] for i in ss])
        X = np.array([R2[i] for i in rr])
        mu = None if M2[k] is None else np.array([np.array(M2[k]) * (1 + 0.5 * i) for i in range(len(ss))])
        batch(ctx, X, S, mu, scale, str(sc))

    def batch(ctx, X, S, mu, scale, key):
        keep = [x.copy() if x is not None else None for x in (X, S, mu)]
        kw = {} if scale is None else {"scale": scale}
        s = scale or 1
        a = log_likelihood(X, S, mu, **kw) if mu is not None else log_likelihood(X, S, **kw)
        b = log_likelihood_sequential(X, S, mu, **kw) if mu is not None else log_likelihood_sequential(X, S, **kw)
        ctx.trace(2)
        want = [logpdf(s * X[t], s * s * S[t], s * (0 * X[t] if mu is None else mu[t])) for t in range(len(X))]
        ctx.step(len(X))
        for t in range(len(X)):
            ctx.state("ll", key, t)
        if not near(a, want):
            bad("log_likelihood is not the Gaussian log density", got=a, want=want, scale=s)
        if b is None or not near(b, want):
            bad("log_likelihood_sequential is not the Gaussian log density", got=b, want=want, scale=s)
        for x, y in zip((X, S, mu), keep):
            if y is not None and not np.array_equal(x, y):
                bad("an argument was modified")

    def gen_shapes():
        for n in (1, 2, 3, 5, 10, 30, 100, 240) if not deep else (1, 2, 3, 4, 5, 7, 10, 20, 30, 60, 100, 240, 400):
            for T in (1, 2, 5):
                for size in (1e-3, 0.1, 1.0, 30.0):
                    for means in (0, 1):
                        for scale in (None, 10):
                            if n <= 30 or (T == 2 and means):
                                yield [n, T, size, means, scale]

    def run_shapes(ctx, sc):
        n, T, size, means, scale = sc
        S = np.array([generic_cov(n, t) for t in range(T)]) * size**2
        X = H.generic(T, n, size)
        mu = 0.3 * H.generic(T, n, size)[::-1].copy() if means else None
        batch(ctx, X, S, mu, scale, str(sc))

    # ---- dated likelihoods
    def dated(T, n, cols, size=1.0):
        """size: a number, or one per asset"""
        size = np.asarray(size, float)
        ret = H.frame(H.generic(T, n, 1.0) * size, "bday", cols)
        sig = {t: pd.DataFrame(generic_cov(n, i) * np.multiply.outer(size, size), index=ret.columns, columns=ret.columns) for i, t in enumerate(ret.index)}
        mean = pd.DataFrame(0.4 * H.generic(T, n, 1.0)[::-1] * size, index=ret.index, columns=ret.columns)
        return ret, sig, mean

    def gen_dates():
        for T in (2, 4):
            for mask in range(1, 2**T):
                for n, cols in [(2, "str"), (3, "int"), (3, "rev"), (1, "named")]:
                    for means in (0, 1):
                        for r in [None] + list(range(0, n + 1)):
                            for rev in (0, 1):
                                yield [T, mask, n, cols, means, r, rev]

    def want_dated(ret, sig, mean, cov):
        rows = list(ret.index)
        out = {}
        for t in sig:
            i = rows.index(t)
            if i + 1 < len(rows):
                out[t] = logpdf(ret.iloc[i + 1].values, cov(t), 0 * ret.iloc[0].values if mean is None else mean.loc[t].values)
        return out

    def compare(got, want, what, tol=1e-8):
        if list(got.index) != list(want):
            bad(f"{what}: wrong dates", got=[str(t) for t in got.index], want=[str(t) for t in want])
        if got.dtype != float or not near(got.values, list(want.values()), tol):
            bad(f"{what}: not the log density of the next row's return", got=got.values, want=list(want.values()))

    def run_dates(ctx, sc):
        T, mask, n, cols, means, r, rev = sc
        ret, sig, mean = dated(T, n, cols)
        ts = [t for i, t in enumerate(ret.index) if mask >> i & 1]
        if rev:
            ts = ts[::-1]
        sig = {t: sig[t] for t in ts}
        mu = mean if means else None
        keep = ret.copy()
        a = log_likelihood_regularized(ret, sig, means=mu, r=r) if r is not None else log_likelihood_regularized(ret, sig, mu)
        ctx.trace()
        ctx.step(len(ts))
        ctx.state("dates", *map(str, sc))

        def cov(t):
            C = sig[t].values
            if r is None or r == n:
                return C
            s, R, lam, Q = spectrum(C)
            lo = (Q[:, :r] * lam[:r]) @ Q[:, :r].T
            return (lo + np.diag(1 - np.diag(lo))) * np.outer(s, s)

        compare(a, want_dated(ret, sig, mu, cov), f"regularised likelihood (rank {r})")
        if r:
            low = dict(regularize_covariance(sig, r, low_rank_format=True))
            b = log_likelihood_low_rank(ret, low, means=mu) if means else log_likelihood_low_rank(ret, low)
            ctx.trace()
            compare(b, want_dated(ret, sig, mu, cov), f"factor-form likelihood (rank {r})")
            if not means and r < n:
                c = em_low_rank_log_likelihood(ret, sig, r)
                ctx.trace()

                def em(t):
                    s, R, lam, Q = spectrum(sig[t].values)
                    F = s[:, None] * Q[:, :r] * np.sqrt(lam[:r])
                    d = s**2 * (1 - (Q[:, :r] ** 2 * lam[:r]).sum(axis=1))
                    for _ in range(5):
                        F, d = em_step(sig[t].values, F, d)
                    return F @ F.T + np.diag(d)

                compare(c, want_dated(ret, sig, None, em), f"EM likelihood (rank {r})", 1e-6)
        pd.testing.assert_frame_equal(ret, keep)

    def gen_missing():
        for n, cols in [(2, "str"), (3, "rev")]:
            for gap in range(1, 5):
                for r in (None, 1):
                    yield [n, cols, gap, r]

    def run_missing(ctx, sc):
        """a date whose next row has no returns at all is skipped, the others are not affected"""
        n, cols, gap, r = sc
        ret, sig, mean = dated(5, n, cols)
        base = log_likelihood_regularized(ret, sig, r=r)
        hole = ret.copy()
        hole.iloc[gap] = np.nan
        got = log_likelihood_regularized(hole, sig, r=r)
        ctx.trace(2)
        ctx.step(5)
        ctx.state("missing", *sc)
        want = base.drop(ret.index[gap - 1])
        if list(got.index) != list(want.index) or not near(got.values, want.values):
            bad("a missing next return is not skipped", got=got, want=want)

    def gen_uneven():
        for n in (1, 2, 3):
            for u in itertools.product([1.0, 1e-3, 1e-6, 1e3], repeat=n):
                for means in (0, 1):
                    for r in (None, *range(1, n + 1)):
                        yield [list(u), means, r]

    def run_uneven(ctx, sc):
        """assets in different units"""
        u, means, r = sc
        long_dates(ctx, 4, len(u), r, means, u, sc)

    def gen_long():
        for T, n in [(90, 2), (300, 1), (70, 4)]:
            for r in (None, 1, n):
                for means in (0, 1):
                    for size in (1.0, 0.01):
                        yield [T, n, r, means, size]

    def run_long(ctx, sc):
        """many dates"""
        long_dates(ctx, *sc, sc)

    def long_dates(ctx, T, n, r, means, size, sc):
        ret, sig, mean = dated(T, n, "rev", size)
        mu = mean if means else None

        def cov(t):
            if r is None or r == n:
                return sig[t].values
            s, R, lam, Q = spectrum(sig[t].values)
            lo = (Q[:, :r] * lam[:r]) @ Q[:, :r].T
            return (lo + np.diag(1 - np.diag(lo))) * np.outer(s, s)

        ctx.trace(2)
        ctx.step(T)
        ctx.state("long", *map(str, sc))
        want = want_dated(ret, sig, mu, cov)
        compare(log_likelihood_regularized(ret, sig, means=mu, r=r), want, "many dates")
        if r is not None:
            low = dict(regularize_covariance(sig, r, low_rank_format=True))
            compare(log_likelihood_low_rank(ret, low, means=mu), want, "many dates, factor form")
        X, S = ret.values[1:], np.array([sig[t].values for t in ret.index[:-1]])
        batch(ctx, X, S, None if mu is None else mu.values[:-1].copy(), None, str(sc))

    def gen_large():
        for n in (60, 150, 240):
            for r in (None, 3):
                for size in (1e-3, 1e-2, 50.0):
                    yield [n, r, size]

    def run_large(ctx, sc):
        """large universes: the density must not under- or overflow"""
        n, r, size = sc
        ret, sig, mean = dated(3, n, "int", size)

        def cov(t):
            if r is None:
                return sig[t].values
            s, R, lam, Q = spectrum(sig[t].values)
            lo = (Q[:, :r] * lam[:r]) @ Q[:, :r].T
            return (lo + np.diag(1 - np.diag(lo))) * np.outer(s, s)

        a = log_likelihood_regularized(ret, sig, r=r)
        ctx.trace()
        ctx.step(2)
        ctx.state("large", *sc)
        compare(a, want_dated(ret, sig, None, cov), "large universe", 1e-6)
        if r is not None:
            low = dict(regularize_covariance(sig, r, low_rank_format=True))
            compare(log_likelihood_low_rank(ret, low), want_dated(ret, sig, None, cov), "large universe, factor form", 1e-6)

    return [
        Space("alphabet", "all sequences of (covariance, return) over 4x4 letters up to length 2 x means x scale", gen_batch, run_batch),
        Space("shapes", "1..240 assets x periods x sizes x means x scale", gen_shapes, run_shapes),
        Space("dates", "every subset of dates in either order x assets x labels x means x rank: plain, regularised, factor-form, EM", gen_dates, run_dates),
        Space("missing", "a missing next row at every position", gen_missing, run_missing),
        Space("uneven assets", "up to three assets whose units differ by factors up to 1e9 x rank x means", gen_uneven, run_uneven),
        Space("many dates", "70 to 300 dates x assets x rank x means", gen_long, run_long),
        Space("large universes", "60..240 assets in daily-return units", gen_large, run_large),
    ]


# ------------------------------------------------------------------ C24


def c24(deep):
    from experiments.utils.experiment_utils import rolling_window

    def check(ctx, X, memory, mp, key, label="date", cols="str", default=False, f=None):
        f = H.frame(X, label, cols) if f is None else f
        keep = f.copy()
        got = rolling_window(f, memory) if default else rolling_window(f, memory, min_periods=mp)
        ctx.trace()
        ctx.step(len(f))
        pd.testing.assert_frame_equal(f, keep)
        s = max(mp, 1) - 1
        want = list(f.index[s:])
        if list(got) != want:
            bad("reported dates are wrong", got=[str(t) for t in got], want=[str(t) for t in want], memory=memory, min_periods=mp)
        for t in range(s, len(f)):
            ctx.state("roll", key, memory, mp, t)
            W = X[max(0, t + 1 - memory) : t + 1]
            S = W.T @ W / len(W)
            g = got[f.index[t]]
            if list(g.index) != list(f.columns) or list(g.columns) != list(f.columns):
                bad("wrong labels")
            top = np.abs(X[: t + 1]).max(axis=0)
            if not (np.abs(g.values - S) <= 1e-11 * np.outer(top, top)).all():
                bad("not the average over the last rows", row=t, memory=memory, got=g.values.tolist(), want=S.tolist())

    def gen_words():
        for m in range(1, 7):
            for w in H.words("abzh" if m > 4 else "abczhd", [m]):
                for memory in range(1, m + 2):
                    for mp in (0, 1, 2, m, m + 1) if (m < 6 or deep) else (1,):
                        yield [w, memory, mp]

    def run_words(ctx, sc):
        w, memory, mp = sc
        check(ctx, H.rows(w), memory, mp, w)

    def gen_long():
        for m in (1, 2, 3):
            for w in H.words("abzh", [m]):
                for T, memory, mp in [(45, 20, 20), (70, 63, 5), (60, 7, 20), (41, 100, 20), (260, 125, 60)]:
                    yield [w, T, memory, mp]

    def run_long(ctx, sc):
        w, T, memory, mp = sc
        check(ctx, H.periodic(w, T), memory, mp, ("per", w, T), default=mp == 20)

    def gen_shape():
        for n in (1, 2, 3, 5, 12):
            for label in H.LABELS + H.UNSORTED:
                for cols in ("str", "int", "rev", "named"):
                    for memory in (1, 3, 5, 9, 20):
                        yield [n, label, cols, memory]
        for e in range(-14, 13, 1 if deep else 2):
            for n in (1, 3):
                for memory in (1, 4, 20, 10**6):
                    yield [n, "date", "str", memory, e]

    def run_shape(ctx, sc):
        n, label, cols, memory, *e = sc
        check(ctx, H.generic(13, n) * 10.0 ** (e[0] if e else 0), memory, 2, str(sc), label, cols)

    def gen_uneven():
        for n in (2, 3):
            for e in itertools.product(H.EXPS, repeat=n):
                for memory in (1, 4, 8, 30):
                    yield [list(e), memory]

    def run_uneven(ctx, sc):
        check(ctx, H.uneven(14, sc[0]), sc[1], 3, str(sc), "int7", "odd")

    def gen_types():
        for n in (1, 2, 3):
            for w in H.types(n, "ild"):
                for memory, mp in [(1, 1), (3, 2), (7, 1), (20, 5)]:
                    yield [w, memory, mp]

    def run_types(ctx, sc):
        w, memory, mp = sc
        f, X = H.typed(14, len(w), w)
        check(ctx, X, memory, mp, "types" + w, f=f)

    def gen_large():
        for T, n in H.LARGE_DEEP if deep else H.LARGE:
            for kind in ("plain", "zeros", "spike"):
                for memory, mp in [(20, 20), (63, 63), (125, 20), (250, 60), (500, 1), (T, T), (T - 1, 2)]:
                    yield [T, n, kind, memory, mp]

    def run_large(ctx, sc):
        T, n, kind, memory, mp = sc
        check(ctx, H.large(kind, T, n), memory, mp, str(sc), ("date", "tick", "int7")[memory % 3], default=mp == 20)

    return [
        Space("words", "all words of 6 letters up to length 4, 4 letters up to length 6 x memories x warm-ups", gen_words, run_words),
        Space("periodic long histories", "all periods up to length 3 x (length, memory, warm-up)", gen_long, run_long),
        Space("shapes", "assets 1..12 x labels x memories x units 1e-14..1e12", gen_shape, run_shape),
        Space("uneven assets", "two and three assets whose returns differ by factors up to 1e17 x memories", gen_uneven, run_uneven),
        Space("column types", "all assignments of 3 number types to up to 3 columns x memories", gen_types, run_types),
        Space("large", "up to 700 rows, 100 assets, memories up to the whole history", gen_large, run_large),
    ]


# ------------------------------------------------------------------ C25


def c25(deep):
    from experiments.utils.iterated_ewma_vec import iterated_ewma as vec

    def check(ctx, X, cfg, key, label="date", cols="str", low_rank=None, dtype=None):
        f = H.frame(X, label, cols, dtype)
        keep = f.copy()
        kw = dict(cfg)
        st = [x for x in iterated_ewma(f, **kw)]
        if low_rank and not all(np.isfinite(x.covariance.values).all() for x in st):
            return  # an asset without any nonzero standardised return has no correlations to truncate
        a = vec(f, low_rank=low_rank, **kw) if low_rank else vec(f, **kw)
        ctx.trace(2)
        ctx.step(len(f))
        pd.testing.assert_frame_equal(f, keep)
        mean = cfg.get("mean", False)
        cov = a.covariance if mean else a
        if list(cov) != [x.time for x in st]:
            bad("dates differ", vectorised=[str(t) for t in cov], streaming=[str(x.time) for x in st], cfg=cfg)
        if mean and list(a.mean) != list(cov):
            bad("dates of means and covariances differ")
        for k, x in enumerate(st):
            ctx.state("vec", key, str(cfg), low_rank, k)
            v = x.volatility.values
            C, D = cov[x.time].values / np.outer(v, v), x.covariance.values / np.outer(v, v)
            if list(cov[x.time].index) != list(f.columns) or list(cov[x.time].columns) != list(f.columns):
                bad("wrong labels")
            if low_rank and low_rank < len(v):
                s, R, lam, Q = spectrum(x.covariance.values)
                r = low_rank
                if lam[r - 1] - lam[r] < 1e-4:
                    continue
                lo = (Q[:, :r] * lam[:r]) @ Q[:, :r].T
                D = lo + np.diag(1 - np.diag(lo))
            # mean adjustment may make second moments of the standardised returns tiny: compare where defined
            ok = np.isfinite(D) & np.isfinite(C)
            if mean and k < 2 and cfg.get("min_periods_cov", 20) <= 2:
                ok = ok & False if not np.allclose(C[ok], D[ok], atol=1e-7) and tiny(f, cfg, x) else ok
            if (np.isfinite(D) != np.isfinite(C)).any() and not mean:
                bad("covariances differ", time=x.time, vectorised=C.tolist(), streaming=D.tolist())
            if not (np.abs(C - D)[ok] <= 1e-7).all():
                bad("covariances differ", time=x.time, vectorised=cov[x.time].values.tolist(), streaming=(D * np.outer(v, v)).tolist(), cfg=cfg)
            if mean:
                if list(a.mean[x.time].index) != list(f.columns):
                    bad("mean has the wrong labels")
                if not (np.abs(a.mean[x.time].values - x.mean.values) <= 1e-8 * (v + np.abs(x.mean.values))).all():
                    bad("means differ", time=x.time, vectorised=a.mean[x.time].values, streaming=x.mean.values)

    def tiny(f, cfg, x):
        S = [s for s in ref.iewma(f.values, **_refargs(cfg)) if f.index[s.row] == x.time][0]
        return (np.diag(S.second) < 1e-6).any()

    def _refargs(cfg):
        return dict(
            vh=cfg["vola_halflife"],
            ch=cfg["cov_halflife"],
            mpv=cfg.get("min_periods_vola", 20),
            mpc=cfg.get("min_periods_cov", 20),
            mean=cfg.get("mean", False),
            clip_at=cfg.get("clip_at"),
        )

    CF = [
        dict(vola_halflife=vh, cov_halflife=ch, min_periods_vola=a, min_periods_cov=b, clip_at=c)
        for (vh, ch), (a, b), c in itertools.product([(1, 3), (5, 2)], [(1, 1), (2, 1), (1, 3), (3, 2)], [None, 0.8, 1.6])
    ]
    MF = [
        dict(vola_halflife=vh, cov_halflife=ch, min_periods_vola=a, min_periods_cov=b, clip_at=c, mean=True)
        for (vh, ch), (a, b), c in itertools.product([(1, 3), (5, 2)], [(2, 2), (3, 4), (4, 3)], [None, 0.8, 1.6])
    ]
    TAB = dict(H.ROWS2)

    def gen_words():
        for m in range(1, 5):
            for w in H.words("abczhd", [m]):
                if w[0] in "abh":
                    for k in range(len(CF)):
                        if m < 4 or k % 6 == (ord(w[1]) + ord(w[2])) % 6 or deep:
                            yield [w, k]

    def run_words(ctx, sc):
        w, k = sc
        check(ctx, H.rows(w, TAB), CF[k], w)

    def gen_mean():
        for m in (3, 4, 5):
            for w in H.words("abzh" if m == 5 else "abczh", [m]):
                X = H.rows(w)
                if not (X[0] == X[1]).any():
                    for k in range(len(MF)):
                        if m < 5 or k % 3 == ord(w[2]) % 3 or deep:
                            yield [w, k]

    def run_mean(ctx, sc):
        w, k = sc
        check(ctx, H.rows(w), MF[k], w)

    def gen_shape():
        for n in (1, 2, 3, 5, 9):
            for label in H.LABELS + H.UNSORTED:
                for cols in ("str", "int", "rev", "named"):
                    for k in (1, 10, 20):
                        yield [n, label, cols, "c", k, None, None]
                    for k in (2, 9, 17):
                        yield [n, label, cols, "m", k, None, None]
            for r in range(1, n + 1):
                for k in range(0, len(CF), 2):
                    yield [n, "date", "str", "c", k, r, None]
                for k in range(0, len(MF), 2):
                    yield [n, "date", "str", "m", k, r, None]
            yield [n, "date", "str", "c", 5, None, "int64"]
            yield [n, "date", "str", "m", 5, None, "int64"]

    def run_shape(ctx, sc):
        n, label, cols, fam, k, r, dtype = sc
        X = H.generic(14, n, 0.01 if dtype is None else 100.0)
        if dtype:
            X = np.round(X)
        check(ctx, X, (CF if fam == "c" else MF)[k], str(sc), label, cols, r, dtype)

    def gen_long():
        for T in (1, 19, 20, 21, 38, 39, 40, 41, 60):
            for extra in [dict(), dict(mean=True), dict(clip_at=1.1), dict(mean=True, clip_at=0.9), dict(min_periods_vola=5), dict(min_periods_cov=5)]:
                for hl in [(10, 21), (21, 10)]:
                    yield [T, extra, list(hl)]
        for T in (600, 1100):
            for extra in [dict(), dict(mean=True, clip_at=2.5), dict(clip_at=1.1, min_periods_vola=260)]:
                for hl in [(400, 900), (63, 3000)]:
                    yield [T, extra, list(hl)]
        for w in H.words("abh", [1, 2, 3]):
            yield [w, dict(min_periods_vola=3, min_periods_cov=4), [5, 9]]
            yield [w, dict(clip_at=0.7, min_periods_vola=6, min_periods_cov=4), [5, 9]]

    def run_long(ctx, sc):
        T, extra, (vh, ch) = sc
        X = H.generic(T, 3) if isinstance(T, int) else H.periodic(T, 50)
        check(ctx, X, dict(vola_halflife=vh, cov_halflife=ch, **extra), str(sc))

    LG = [
        dict(vola_halflife=10, cov_halflife=21, clip_at=4.2),
        dict(vola_halflife=63, cov_halflife=125, min_periods_vola=63, min_periods_cov=63),
        dict(vola_halflife=10, cov_halflife=21, mean=True, clip_at=3.0),
        dict(vola_halflife=21, cov_halflife=63, min_periods_vola=40, min_periods_cov=5, mean=True),
    ]

    def gen_large():
        for T, n, r in [(400, 3, None), (150, 12, None), (150, 12, 5), (150, 12, 11), (140, 40, None), (140, 40, 10), (130, 100, None), (300, 2, 1)]:
            for kind in ("plain", "zeros", "spike", "calm"):
                for k in range(len(LG)):
                    yield [T, n, r, kind, k]

    def run_large(ctx, sc):
        T, n, r, kind, k = sc
        check(ctx, H.large(kind, T, n), LG[k], str(sc), ("date", "tick", "int7")[k % 3], low_rank=r)

    def gen_extreme():
        for hl in (0.4, 1, 6, 45, 333, 2600, 1e5):
            for ch in (0.9, 6, 45, 333, 1e5):
                for clip in (None, 0.5, 1.0, 3.0, 12.0, 80.0, 1e3, 1e6):
                    for mean in (0, 1):
                        for a, b in ((2, 3), (6, 9)):
                            yield [hl, ch, clip, mean, a, b]

    def run_extreme(ctx, sc):
        hl, ch, clip, mean, a, b = sc
        X = H.generic(24, 3)
        X[9, 0] *= 40
        X[14, 2] *= -900
        X[17, 1] *= 1e-3
        check(ctx, X, dict(vola_halflife=hl, cov_halflife=ch, min_periods_vola=a, min_periods_cov=b, clip_at=clip, mean=bool(mean)), str(sc))

    def gen_units():
        for e in range(-12, 10, 3):
            for k in (0, 5, 11):
                yield [e, "c", k]
                yield [e, "m", k]

    def run_units(ctx, sc):
        e, fam, k = sc
        check(ctx, H.generic(14, 3) * 10.0**e, (CF if fam == "c" else MF)[k], str(sc))

    return [
        Space("extreme parameters", "half lives 0.4..100000 x clips 0.5..1000000 x means, with outliers", gen_extreme, run_extreme),
        Space("units", "returns in units 1e-12..1e9", gen_units, run_units),
        Space("words", "all words of 6 letters up to length 3 x 24 configurations, length 4 x 4", gen_words, run_words),
        Space("words with means", "all words of 4-5 letters, length 3..5 x 18 configurations", gen_mean, run_mean),
        Space("shapes", "1..9 assets x labels x ranks x configurations", gen_shape, run_shape),
        Space("long", "lengths around the default warm-ups, periodic histories, up to 1100 rows with half lives up to 3000", gen_long, run_long),
        Space("large", "up to 400 rows, 100 assets x ranks x events x configurations", gen_large, run_large),
    ]


# ------------------------------------------------------------------ C26


def c26(deep):
    from experiments.utils.experiment_utils import (
        MSE,
        add_to_diagonal,
        ecdf,
        from_row_matrix_to_covariance,
        from_row_to_covariance,
        realized_ewma,
        realized_volas,
        turnover,
        yearly_SR,
    )

    # a day: intraday returns of two assets
    DAYS = {
        "a": [(1.0, 2.0), (-0.5, 1.0)],
        "b": [(-1.5, 0.5), (2.0, 1.0), (0.25, -0.75)],
        "z": [(0.0, 0.0), (0.0, 0.0)],
        "h": [(12.0, -8.0), (-12.0, 9.0)],
        "n": [(1.0, -1.0), (-1.0, 1.0), (1.0, -1.0), (-1.0, 1.0)],
        "s": [(2.0, -3.0)],
    }

    def intraday(word, label="date", cols="str"):
        idx = H.index(label, len(word))
        rows, at = [], []
        for t, c in zip(idx, word):
            for x in DAYS[c]:
                rows.append(x)
                at.append(t)
        index = pd.DatetimeIndex(at) if label == "date" else pd.Index(at)
        return idx, pd.DataFrame(np.array(rows) * 0.01, index=index, columns=H.columns(cols, 2))

    def gen_real():
        for m in range(1, 6):
            for w in H.words("abzhns" if m <= 3 or deep else "abhn", [m]):
                for hl, clip, mp in [(1, None, None), (3, 1.2, 1), (2.5, 0.5, 2)]:
                    yield [w, hl, clip, mp, "date"]
                if m <= 2 or (m == 5 and w[0] == w[1]):
                    for label in ("int", "str", "float", "tick", "desc", "shuffle"):
                        yield [w + w + w if m == 5 and label == "tick" else w, 2, None, None, label]

    def run_real(ctx, sc):
        w, hl, clip, mp, label = sc
        idx, f = intraday(w, label)
        keep = f.copy()
        out = list(realized_volas(f))
        ctx.trace()
        ctx.step(len(w))
        for t in range(len(w)):
            ctx.state("real", *map(str, sc), t)
        if [t for t, _ in out] != list(idx):
            bad("realised volatilities: wrong dates", got=[str(t) for t, _ in out])
        X = [np.array(DAYS[c]) * 0.01 for c in w]
        for (t, v), x in zip(out, X):
            if not isinstance(v, pd.Series) or list(v.index) != list(f.columns) or not np.allclose(v.values, np.sqrt((x**2).sum(axis=0)), rtol=1e-12, atol=0):
                bad("realised volatility is not the root of the sum of squares", date=t, got=v, want=np.sqrt((x**2).sum(axis=0)))
        Y = np.array([(x - x.mean(axis=0)).T @ (x - x.mean(axis=0)) for x in X])
        kw = {} if clip is None else dict(clip_at=clip, min_periods=mp)
        got = list(realized_ewma(f, hl, **kw))
        ctx.trace()
        want = ref.capped_wmean(Y, hl, mp or 0, clip)
        if [t for t, _ in got] != list(idx[1:]):
            bad("realised EWMA: wrong dates", got=[str(t) for t, _ in got])
        for k, (t, g) in enumerate(got, start=1):
            if list(g.index) != list(f.columns) or list(g.columns) != list(f.columns):
                bad("realised EWMA: wrong labels")
            if not (np.abs(g.values - want[k]) <= 1e-10 * np.abs(Y[: k + 1]).max() + 1e-300).all():
                bad("realised EWMA differs from the definition", date=t, got=g.values.tolist(), want=want[k].tolist(), halflife=hl, clip=clip, min_periods=mp)
        pd.testing.assert_frame_equal(f, keep)

    def gen_order():
        for m in range(1, 7 if not deep else 8):
            for w in H.words("123", [m]):
                if w[0] != "3" and w.find("2") <= (w + "3").find("3"):
                    for hl, clip, mp in [(1, None, None), (3, 1.2, 1)]:
                        yield [w, hl, clip, mp]

    def run_order(ctx, sc):
        """rows of a date that are not next to each other: all of them belong to the date"""
        w, hl, clip, mp = sc
        X = H.generic(len(w), 2)
        dates = list(dict.fromkeys(w))
        for index in (pd.Index([int(c) for c in w]), pd.DatetimeIndex([f"2020-01-0{c}" for c in w])):
            f = pd.DataFrame(X, index=index, columns=H.columns("rev", 2))
            names = list(dict.fromkeys(index))
            out = list(realized_volas(f))
            got = list(realized_ewma(f, hl, **({} if clip is None else dict(clip_at=clip, min_periods=mp))))
            ctx.trace(2)
            ctx.step(len(w))
            ctx.state("order", *map(str, sc))
            cut = [X[[i for i, c in enumerate(w) if c == d]] for d in dates]
            if [t for t, _ in out] != names or [t for t, _ in got] != names[1:]:
                bad("wrong dates", got=[str(t) for t, _ in out], want=names)
            for (t, v), x in zip(out, cut):
                if not np.allclose(v.values, np.sqrt((x**2).sum(axis=0)), rtol=1e-12, atol=0):
                    bad("realised volatility is not the root of the sum of squares of the date's rows", date=t, dates=w, got=v, want=np.sqrt((x**2).sum(axis=0)))
            Y = np.array([(x - x.mean(axis=0)).T @ (x - x.mean(axis=0)) for x in cut])
            want = ref.capped_wmean(Y, hl, mp or 0, clip)
            for k, (t, g) in enumerate(got, start=1):
                if not (np.abs(g.values - want[k]) <= 1e-10 * np.abs(Y[: k + 1]).max() + 1e-300).all():
                    bad("realised EWMA differs from the definition", date=t, dates=w, got=g.values.tolist(), want=want[k].tolist())

    def gen_rows():
        for n in (*range(1, 7), 9, 13, 20, 33, 60):
            for perm in range(4):
                for dt in ("float", "int"):
                    yield [n, perm, dt]

    def run_rows(ctx, sc):
        n, perm, dt = sc
        m = n * (n + 1) // 2
        row = np.roll(np.arange(1, m + 1), perm) * (1 if dt == "int" else 0.37)
        rows = np.array([row, row[::-1], 2 * row])
        a = [from_row_to_covariance(r, n) for r in rows]
        b = from_row_matrix_to_covariance(rows, n)
        ctx.trace(2)
        ctx.step(3)
        ctx.state("rows", *sc)
        if b.shape != (3, n, n):
            bad("row-matrix conversion has the wrong shape", got=b.shape)
        for r, x, y in zip(rows, a, b):
            k = 0
            for i in range(n):
                for j in range(i, n):
                    for M in (x, y):
                        if M[i, j] != r[k] or M[j, i] != r[k]:
                            bad("row conversion misplaces an entry", n=n, i=i, j=j, got=M.tolist(), row=r.tolist())
                    k += 1

    def gen_misc():
        for n in (1, 2, 3, 5):
            for lam in (0, 0.05, 1, 2.5, -0.3, -2, 1e-9, 1e6, -1e4):
                for T in (0, 1, 3):
                    yield ["diag", n, lam, T]
        for T in (2, 3):
            for w in itertools.product(((0.5, 0.5), (1.0, 0.0), (-0.5, 1.5), (2.0, -1.0)), repeat=T):
                yield ["turn", [list(x) for x in w]]
        for w in H.words("abcz", [2, 3, 4]):
            for mask in range(1, 2 ** (len(w) - 1)) if len(w) < 4 else (1, 5, 7):
                yield ["mse", w, mask, 2]
        for n in (1, 3, 7, 12, 30, 110):
            for T in (2, 3, 40):
                yield ["mse", "." * T, 2 ** (T - 1) - 1, n]
                yield ["mse", "." * T, 1, n]
        for m in (1, 2, 3, 4):
            for v in itertools.product((0.5, -1.0, 2.0), repeat=m):
                yield ["ecdf", list(v)]
        for m in (30, 999, 1000, 1001, 2500, 12000):
            yield ["ecdf", m]
        for T in (30, 253, 400, 600, 1500):
            for n in (1, 5, 40):
                yield ["turn", T, n]
        for years in ([2019], [2019, 2020], [2018, 2019, 2020], [2016, 2020]):
            for short in range(len(years) + 1):
                for k in range(3):
                    yield ["sr", years, short, k]
                    for odd in range(len(years)):
                        for how in (0.0, 1e-9, -1.0, 300.0):
                            yield ["sr", years, short, k, odd, how]

    def run_misc(ctx, sc):
        kind = sc[0]
        ctx.trace()
        ctx.step()
        ctx.state("misc", str(sc))
        if kind == "diag":
            _, n, lam, T = sc
            c = H.columns("rev", n)
            sig = {f"t{i}": pd.DataFrame(generic_cov(n, i), index=c, columns=c) for i in range(T)}
            want = {t: s.values + lam * np.diag(np.diag(s.values)) for t, s in sig.items()}
            got = add_to_diagonal(dict(sig), lam)
            if list(got) != list(want) or any(list(g.index) != list(c) or not np.allclose(g.values, want[t], rtol=1e-14) for t, g in got.items()):
                bad("add_to_diagonal does not scale exactly the variances", got=got, want=want)
        if kind == "turn":
            w = np.array(sc[1]) if len(sc) == 2 else np.cumsum(H.generic(sc[1], sc[2], 0.2), axis=0) + 1.0
            want = np.mean([np.abs(w[i + 1] - w[i]).sum() / np.abs(w[i]).sum() for i in range(len(w) - 1)]) * 252 * 100
            got = turnover(w)
            if not np.isclose(got, want, rtol=1e-12):
                bad("turnover differs from its formula", got=got, want=want, weights=sc[1])
        if kind == "mse":
            _, w, mask, n = sc
            f = H.frame(H.rows(w, unit=1.0) if n == 2 else H.generic(len(w), n, 1.0))
            times = [t for i, t in enumerate(f.index[:-1]) if mask >> i & 1][::-1]
            if mask % 3 == 1:
                times.insert(len(times) // 2, f.index[-1])  # no return follows: undefined
            cov = {t: pd.DataFrame(generic_cov(n, i), index=f.columns, columns=f.columns) for i, t in enumerate(times)}
            got = MSE(f, cov)
            want = []
            for t in times:
                i = list(f.index).index(t) + 1
                r = f.values[i] if i < len(f) else np.full(n, np.nan)
                want.append(((cov[t].values - np.outer(r, r)) ** 2).sum())
            if list(got.index) != times or not np.allclose(got.values, want, rtol=1e-12, equal_nan=True):
                bad("MSE does not compare each covariance with the next return", got=got, want=want)
        if kind == "ecdf":
            v = np.array(sc[1]) if isinstance(sc[1], list) else H.generic(sc[1], 1).flatten()
            keep = v.copy()
            x, y = ecdf(v)
            m = len(v)
            if list(x) != sorted(v) or not np.allclose(y, [(i + 1) / m for i in range(m)], rtol=1e-14) or not np.array_equal(v, keep):
                bad("ecdf differs from its definition", data=sc[1], x=x, y=y)
        if kind == "sr":
            _, years, short, k, *odd = sc
            idx = pd.DatetimeIndex([])
            for i, y in enumerate(years):
                idx = idx.append(pd.bdate_range(f"{y}-01-01", periods=[100, 101, 250][(i + k) % 3] if i < short else 252))
            x = H.generic(len(idx), 1, 0.01).flatten() + 0.002
            if odd:  # one year without any trading, in another unit, or losing
                x[idx.year == years[odd[0]]] *= odd[1]
            tr = types.SimpleNamespace(rets=x.reshape(-1, 1), returns=pd.DataFrame(x, index=idx))
            with np.errstate(all="ignore"):
                got = yearly_SR(tr, plot=False)
            want = {}
            for y in years:
                z = x[idx.year == y]
                if len(z) > 100:
                    with np.errstate(all="ignore"):
                        want[y] = z.mean() * 252 / (z.std(ddof=1) * np.sqrt(252))
            # years without data in between have no ratio, years without any movement an undefined one
            got = got[got.notna() | got.index.year.isin(list(want))]
            if list(got.index.year) != list(want) or not np.allclose(got.values, list(want.values()), rtol=1e-10, equal_nan=True):
                bad("yearly Sharpe ratios differ from the definition", got=got, want=want)

    def gen_large():
        for days, n, per in [(60, 3, 7), (25, 30, 5), (12, 10, 78), (300, 2, 2)]:
            for hl, clip, mp in [(5, None, None), (21, 3.0, 10), (63, 1.5, 1)]:
                yield [days, n, per, hl, clip, mp]

    def run_large(ctx, sc):
        days, n, per, hl, clip, mp = sc
        idx = H.index("date", days)
        sizes = [max(2, per - d % 3) for d in range(days)]
        X = H.generic(sum(sizes), n)
        f = pd.DataFrame(X, index=pd.DatetimeIndex(np.repeat(idx.values, sizes)), columns=H.columns("rev", n))
        cut = np.split(X, np.cumsum(sizes)[:-1])
        out = list(realized_volas(f))
        kw = {} if clip is None else dict(clip_at=clip, min_periods=mp)
        got = list(realized_ewma(f, hl, **kw))
        ctx.trace(2)
        ctx.step(days)
        ctx.state("large", str(sc))
        if [t for t, _ in out] != list(idx) or [t for t, _ in got] != list(idx[1:]):
            bad("wrong dates")
        for (t, v), x in zip(out, cut):
            if not np.allclose(v.values, np.sqrt((x**2).sum(axis=0)), rtol=1e-11, atol=0):
                bad("realised volatility is not the root of the sum of squares", date=t)
        Y = np.array([(x - x.mean(axis=0)).T @ (x - x.mean(axis=0)) for x in cut])
        want = ref.capped_wmean(Y, hl, mp or 0, clip)
        for k, (t, g) in enumerate(got, start=1):
            if not (np.abs(g.values - want[k]) <= 1e-10 * np.abs(Y[: k + 1]).max()).all():
                bad("realised EWMA differs from the definition", date=t)

    return [
        Space("realised", "all words of 6 intraday days up to length 3, 4 days up to length 5 x half life x clip x warm-up", gen_real, run_real),
        Space("row order", "up to 6 intraday rows, every assignment of 3 dates to rows", gen_order, run_order),
        Space("row format", "sizes 1..6 and up to 60", gen_rows, run_rows),
        Space("helpers", "add_to_diagonal, turnover, MSE, ecdf, yearly_SR over small alphabets", gen_misc, run_misc),
        Space("large", "up to 300 days, 30 assets, 78 intraday rows", gen_large, run_large),
    ]


# ------------------------------------------------------------------ C30


def c30(deep):
    from experiments.utils.return_combination import (
        ReturnCombinator,
        ReturnCombinatorOld,
        daily_predictors,
        ewma_predictors,
        ewma_return_combination,
        feature_engineer,
        tune_alpha,
    )

    def ridge(y, P, alpha, scale):
        """weights: newest row weight highest, decaying with half life 500, weights summing to the number of rows"""
        m = len(y)
        b = 0.5 ** (np.arange(m - 1, -1, -1) / 500)
        b = b / b.sum() * m
        A = np.einsum("t,ti,tj->ij", b, P, P) + alpha * np.diag(scale)
        return np.linalg.solve(A, np.einsum("t,ti,t->i", b, P, y))

    def past_square(P, t):
        """exponentially weighted mean square of the rows before t (centre of mass 250)"""
        w = (250 / 251) ** np.arange(t - 1, -1, -1)
        return (w[:, None] * P[:t] ** 2).sum(axis=0) / w.sum()

    def case(T, n, K, seed=0, unit=1.0):
        idx = H.index("date", T)
        ret = pd.DataFrame(H.generic(T + seed, n)[seed:], index=idx, columns=H.columns("str", n))
        preds = [pd.DataFrame(H.generic(T + 3 * i + 5, K, 0.004)[3 * i + 5 :][:, ::-1] * unit, index=idx, columns=[f"p{j}" for j in range(K)]) for i in range(n)]
        return ret, preds

    def expect(ret, preds, memory, alpha):
        T = len(preds[0])
        W, Hs = [], {}
        for i, p in enumerate(preds):
            P = p.values
            w = np.array(
                [
                    ridge(ret.loc[p.index].values[t - memory : t, i], P[t - memory : t], alpha, past_square(P, t))
                    for t in range(memory, T)
                ]
            ).reshape(-1, P.shape[1])
            W.append(w)
            Hs[i] = (P[memory:] * w).sum(axis=1)
        return W, np.array([Hs[i] for i in range(len(preds))]).T

    def gen_fit():
        for T, n, K in [(5, 1, 1), (6, 2, 1), (7, 1, 2), (8, 2, 3), (12, 3, 2)] + ([(30, 4, 5)] if deep else []):
            for memory in range(1, T + 1):
                for alpha in (0.5, 5.0, 1e-3):
                    for seed in (0, 2):
                        if memory >= K or alpha >= 0.5:
                            yield [T, n, K, memory, alpha, seed, 0]
                            if memory == K + 1:
                                yield [T, n, K, memory, alpha, seed, 2]
        for T, n, K, memory in [(140, 1, 2, 110), (260, 2, 3, 250), (520, 1, 4, 505), (60, 9, 6, 40), (30, 40, 1, 20)]:
            for alpha in (0.5, 5.0):
                yield [T, n, K, memory, alpha, 0, 0]

    def run_fit(ctx, sc):
        T, n, K, memory, alpha, seed, lead, *unit = sc
        ret, preds = case(T, n, K, seed, *unit[:1])
        ret = ret * (unit[1] if unit[1:] else 1)
        if lead:  # returns start earlier than the predictors
            preds = [p.iloc[lead:] for p in preds]
        keep = [ret.copy(), [p.copy() for p in preds]]
        hat, W = ReturnCombinator().fit(ret, preds, memory, alpha)
        ctx.trace()
        idx = preds[0].index[memory:]
        ctx.step(len(idx))
        for t in range(len(idx)):
            ctx.state("fit", *sc, t)
        w, h = expect(ret, preds, memory, alpha)
        if list(hat.index) != list(idx) or list(hat.columns) != list(ret.columns) or len(W) != n:
            bad("forecasts have the wrong labels", got=list(hat.index), want=list(idx))
        for i in range(n):
            if list(W[i].index) != list(idx) or list(W[i].columns) != list(preds[i].columns):
                bad("weights have the wrong labels")
            if len(idx) and not (np.abs(W[i].values - w[i]) <= 1e-7 * ((0 if unit else 1) + np.abs(w[i]).max())).all():
                bad("weights are not the decayed ridge regression on the earlier rows", asset=i, got=W[i].values.tolist(), want=w[i].tolist(), memory=memory, alpha=alpha)
        if len(idx) and not (np.abs(hat.values - h) <= 1e-8 * ((0 if unit[1:] else 1e-3) + np.abs(h).max())).all():
            bad("forecast is not the weighted sum of the forecasters", got=hat.values.tolist(), want=h.tolist())
        pd.testing.assert_frame_equal(ret, keep[0])
        for a, b in zip(preds, keep[1]):
            pd.testing.assert_frame_equal(a, b)

    def gen_units():
        for T, n, K, memory in [(7, 1, 2, 3), (9, 2, 1, 4), (12, 2, 3, 5)]:
            for unit in (1e-4, 1e-2, 1.0, 30.0, 1e3, 1e5):
                for alpha in (0.5, 5.0, 0.01):
                    yield [T, n, K, memory, alpha, 0, 0, unit]
                    for size in (1e-6, 100.0, 1e4):
                        yield [T, n, K, memory, alpha, 0, 0, unit, size]

    def gen_causal():
        for T, n, K in [(8, 2, 2), (9, 1, 3)]:
            for memory in (1, 3, 5):
                for cut in range(memory, T):
                    for fut in ("huge", "nan", "drop", "other"):
                        yield [T, n, K, memory, cut, fut]

    def run_causal(ctx, sc):
        """rows from `cut` on change (returns from cut on, predictors after cut): forecasts up to cut are the same"""
        T, n, K, memory, cut, fut = sc
        ret, preds = case(T, n, K)
        a, _ = ReturnCombinator().fit(ret, preds, memory, 0.7)
        r2, p2 = ret.copy(), [p.copy() for p in preds]
        if fut == "drop":
            r2, p2 = r2.iloc[: cut + 1], [p.iloc[: cut + 1] for p in p2]
            r2.iloc[cut:] = 0.0
        else:
            v = {"huge": 1e4, "nan": np.nan, "other": 0.013}[fut]
            r2.iloc[cut:] = v
            for p in p2:
                p.iloc[cut + 1 :] = v
        b, _ = ReturnCombinator().fit(r2, p2, memory, 0.7)
        ctx.trace(2)
        ctx.step(cut + 1)
        ctx.state("causal", *sc)
        x, y = a.iloc[: cut + 1 - memory].values, b.iloc[: cut + 1 - memory].values
        if x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=1e-15):
            bad("a forecast depends on later data", cut=cut, future=fut, first=x.tolist(), second=y.tolist())
        # rows that left the memory have no influence on the fit given the scale of the penalty
        t = cut
        if t - memory > 0:
            r3 = ret.copy()
            r3.iloc[: t - memory] = 77.0
            c, _ = ReturnCombinator().fit(r3, preds, memory, 0.7)
            ctx.trace()
            if not np.allclose(c.iloc[t - memory :].values, a.iloc[t - memory :].values, rtol=1e-9, atol=1e-15):
                bad("a forecast depends on returns older than `memory`", cut=cut)

    def gen_lasso():
        for T, K in [(5, 1), (6, 2), (7, 3)]:
            for memory in (1, 2, 4):
                for alpha in (0.0, 0.1, 1.0, 100.0):
                    if memory >= K or alpha > 0:
                        yield [T, K, memory, alpha]
                        for early in (1, 2, 3):
                            yield [T, K, memory, alpha, early]

    def run_lasso(ctx, sc):
        """the L1 variants: weights minimise squared error plus alpha times the absolute weights on the rows before"""
        T, K, memory, alpha = sc[:4]
        early = sc[4] if len(sc) > 4 else 0
        more = pd.Series(H.generic(T + early, 1, 1.0).flatten(), index=H.index("date", T + early))
        r = more.iloc[early:]
        P = pd.DataFrame(H.generic(T + 5, K, 1.0)[5:], index=r.index, columns=[f"p{j}" for j in range(K)])
        old = ReturnCombinatorOld()
        old.build(memory, K, alpha)
        with code.quiet():
            h1, w1 = old.fit(more, P)  # returns may start before the forecasts
            h2, w2 = ewma_return_combination(r, P, alpha, memory)
        ctx.trace(2)
        for h, w in ((h1, w1), (h2, w2)):
            if list(w.index) != list(r.index[memory:]) or list(h.index) != list(r.index[memory:]):
                bad("dates are wrong", got=list(w.index))
            for t in range(memory, T):
                ctx.step()
                ctx.state("lasso", *sc, t)
                A, y = P.values[t - memory : t], r.values[t - memory : t]
                x = w.values[t - memory].astype(float)
                g = 2 * A.T @ (A @ x - y)
                size = np.abs(A).sum() * (np.abs(y).max() + 1)
                for j in range(K):
                    ok = abs(g[j] + alpha * np.sign(x[j])) <= 2e-3 * size if abs(x[j]) > 1e-3 else abs(g[j]) <= alpha + 2e-3 * size
                    if not ok:
                        bad("weights do not minimise the penalised squared error of the last rows", date=r.index[t], weights=x, gradient=g, alpha=alpha)
                if not np.isclose(h.iloc[t - memory], P.values[t] @ x, rtol=1e-9, atol=1e-12):
                    bad("forecast is not the weighted sum of the forecasters", got=h.iloc[t - memory], want=P.values[t] @ x)

    def gen_pred():
        for m in (2, 3, 4, 5, 6):
            for w in H.words("abz" if m > 4 else "abzh", [m]):
                yield [w]

    def run_pred(ctx, sc):
        (w,) = sc
        r = pd.Series(H.rows(w, H.ROWS1).flatten(), index=H.index("date", len(w)))
        x = r.values
        lags = [1, 2, 3]
        d = daily_predictors(r, lags)
        e = ewma_predictors(r, [1, 2.5, 10])
        ctx.trace(3)
        ctx.step(len(w))
        ctx.state("pred", w)
        if list(d.columns) != lags or list(e.columns) != [1, 2.5, 10] or list(d.index) != list(r.index) or list(e.index) != list(r.index[1:]):
            bad("predictors have the wrong labels")
        for t in range(len(x)):
            for lag in lags:
                v = d[lag].iloc[t]
                if (t < lag) != bool(np.isnan(v)) or (t >= lag and v != x[t - lag]):
                    bad("lagged forecaster is not the return `lag` rows before", date=t, lag=lag, got=v)
            if t:
                for hl in [1, 2.5, 10]:
                    wt = ref.weights(t, hl)
                    if not np.isclose(e[hl].iloc[t - 1], wt @ x[:t], rtol=1e-10, atol=1e-16):
                        bad("EWMA forecaster is not the weighted mean of the earlier returns", date=t, halflife=hl, got=e[hl].iloc[t - 1], want=wt @ x[:t])
        f = e.copy()
        s = feature_engineer(f)
        K = f.shape[1]
        if s.shape != (len(f), 2 * K) or list(s.index) != list(f.index) or list(s.columns) != list(f.columns) * 2:
            bad("split forecasts have the wrong shape")
        pos, neg = s.values[:, :K], s.values[:, K:]
        if (pos < 0).any() or (neg > 0).any() or not np.array_equal(pos + neg, f.values) or ((pos != 0) & (neg != 0)).any():
            bad("splitting into positive and negative parts loses something", got=s.values.tolist(), forecasts=f.values.tolist())
        if not f.equals(e):
            bad("splitting modifies the forecasts")

    def gen_tune():
        for K in (1, 2):
            for memory in (2, 4):
                for al in ([0.5], [5.0, 0.1], [0.1, 1.0, 10.0], [0.0, 5.0], [2.0, 0.0], [0, 1], [0.0], [3, 1e-9, 1e6], [0.5, 0.5]):
                    if memory > K or min(al) > 0.01:
                        yield [K, memory, al]
            for unit in (1e-6, 1e-3, 10.0, 100.0, 1e5):
                for al in ([0.5], [5.0, 0.1]):
                    yield [K, 4, al, unit]

    def run_tune(ctx, sc):
        K, memory, al, *unit = sc
        ret, preds = case(9, 2, K)
        if unit:
            ret, preds = ret * unit[0], [p * unit[0] for p in preds]
        a, corr, rmse, ws = tune_alpha(ret, preds, al, memory=memory)
        ctx.trace()
        ctx.step(len(al))
        ctx.state("tune", str(sc))
        if list(a) != al or not (len(corr) == len(rmse) == len(ws) == len(al)):
            bad("tune_alpha reports the wrong penalties")
        for k, alpha in enumerate(al):
            w, h = expect(ret, preds, memory, alpha)
            y = ret.values[memory:]
            if not np.isclose(rmse[k], np.sqrt(((h - y) ** 2).mean()), rtol=1e-7) or not np.isclose(corr[k], np.corrcoef(h.flatten(), y.flatten())[0, 1], atol=1e-7):
                bad("tune_alpha scores the wrong forecasts", alpha=alpha, rmse=rmse[k], corr=corr[k])

    def gen_refuse():
        for T in (6, 9):
            for n in (2, 3):
                for i in range(1, n):
                    for kind in ("shifted", "reversed", "shorter", "longer", "one date", "reordered"):
                        yield [T, n, i, kind]
                for t in range(T):
                    yield [T, n, t, "returns"]

    def run_refuse(ctx, sc):
        """forecasts of different assets must be for the same dates, and the returns of these dates must be known"""
        T, n, i, kind = sc
        ret, preds = case(T + 2, n, 2)
        ret0 = ret
        preds = [p.iloc[:T] for p in preds]
        p = preds[i % n]
        if kind == "shifted":
            preds[i] = p.set_axis(ret.index[1 : T + 1])
        elif kind == "reversed":
            preds[i] = p.iloc[::-1]
        elif kind == "shorter":
            preds[i] = p.iloc[1:]
        elif kind == "longer":
            preds[i] = case(T + 2, n, 2)[1][i].iloc[: T + 1]
        elif kind == "one date":
            preds[i] = p.set_axis([*p.index[:-1], ret.index[T]])
        elif kind == "reordered":
            preds[i] = p.iloc[[1, 0, *range(2, T)]]
        else:
            ret = ret.drop(index=ret.index[i])
        ctx.trace()
        ctx.step()
        ctx.state("refuse", str(sc))
        try:
            with code.quiet():
                ReturnCombinator().fit(ret, preds, 3, 0.5)
        except Exception:
            pass
        else:
            bad(f"forecasts for other dates are accepted ({kind})", scenario=sc)
        if not ret0.equals(case(T + 2, n, 2)[0]):
            bad("refusing modifies the returns")

    def gen_default():
        for K in (1, 2):
            yield [K]

    def run_default(ctx, sc):
        """the memory of tune_alpha is 1000 rows unless told otherwise"""
        ret, preds = case(1004, 1, sc[0])
        with code.quiet():
            _, corr, rmse, ws = tune_alpha(ret, preds, [0.5])
        ctx.trace()
        ctx.step()
        ctx.state("default", str(sc))
        w, h = expect(ret, preds, 1000, 0.5)
        if ws[0][0].shape != (4, sc[0]) or not np.allclose(ws[0][0].values, w[0], rtol=1e-7, atol=1e-10):
            bad("tune_alpha's default memory is not 1000 rows", got=ws[0][0].shape)

    return [
        Space("refused", "forecasts whose dates differ from each other or have no returns", gen_refuse, run_refuse),
        Space("default memory", "tune_alpha with 1004 rows", gen_default, run_default),
        Space("ridge", "5 shapes x every memory x penalties", gen_fit, run_fit),
        Space("units", "forecasters of sizes 1e-6..1e2", gen_units, run_fit),
        Space("causality", "every cut point x futures", gen_causal, run_causal),
        Space("L1 variants", "shapes x memories x penalties: first-order optimality at every date", gen_lasso, run_lasso),
        Space("forecasters", "all words of 4 letters up to length 4, 3 up to length 6", gen_pred, run_pred),
        Space("tuning", "penalty lists", gen_tune, run_tune),
    ]


# ------------------------------------------------------------------ C31


def c31(deep):
    from experiments.utils.factor_model import (
        FactorModel,
        construct_cmiewma_factor_model,
        construct_factor_covariance,
        factor_log_likelihood,
        from_factor_to_full_covariance,
    )

    def model(n, k, t, seed):
        c = H.columns("str", n)
        names = [f"F{i}" for i in range(k)]
        E = pd.DataFrame(np.sin(np.arange(k * n).reshape(k, n) * 1.3 + seed + 0.2), index=names, columns=c)
        C = pd.DataFrame(generic_cov(k, seed), index=names, columns=names)
        d = pd.Series(0.3 + 0.2 * np.arange(n) + 0.1 * (seed % 3), index=c)
        return FactorModel(t, E, C, d)

    def full(m):
        return m.exposure.values.T @ m.factor_covariance.values @ m.exposure.values + np.diag(m.diagonal.values)

    def gen_full():
        for n in (1, 2, 3, 5):
            for k in range(1, n + 1):
                for T in (2, 4):
                    for mask in range(1, 2 ** (T - 1)):
                        for rev in (0, 1):
                            yield [n, k, T, mask, rev]
        for n, k, T in [(12, 4, 5), (40, 6, 4), (100, 10, 3), (4, 2, 14)]:
            yield [n, k, T, 2 ** (T - 1) - 1, 0]
            yield [n, k, T, 2 ** (T - 1) - 2, 1]
        for n, k in [(1, 1), (3, 1), (3, 2), (12, 4)]:
            for e in (-9, -6, -3, 3, 5):
                yield [n, k, 4, 7, 0, e]
                yield [n, k, 4, 5, 1, e, 1]

    def run_full(ctx, sc):
        n, k, T, mask, rev, *e = sc
        u = 10.0 ** e[0] if e else 1.0
        us = u ** (np.arange(n) % 2) if e[1:] else np.full(n, u)  # every second asset only
        f = H.frame(H.generic(T, n, 1.0) * us)
        ts = [t for i, t in enumerate(f.index[:-1]) if mask >> i & 1]
        ms = [model(n, k, t, i) for i, t in enumerate(ts)]
        ms = [FactorModel(m.time, m.exposure * us, m.factor_covariance, m.diagonal * us**2) for m in ms]
        if rev:
            ms = ms[::-1]
        cov = from_factor_to_full_covariance(ms)
        ll = factor_log_likelihood(f, ms)
        ctx.trace(2)
        if list(cov) != [m.time for m in ms] or list(ll.index) != [m.time for m in ms]:
            bad("wrong dates", got=[str(t) for t in cov])
        for m in ms:
            ctx.step()
            ctx.state("full", *sc, str(m.time))
            S = full(m)
            g = cov[m.time]
            if list(g.index) != list(f.columns) or list(g.columns) != list(f.columns) or not (np.abs(g.values - S) <= 1e-10 * np.sqrt(np.outer(np.diag(S), np.diag(S)))).all():
                bad("full covariance is not exposure^T C exposure + diagonal", got=g.values.tolist(), want=S.tolist())
            i = list(f.index).index(m.time)
            want = logpdf(f.values[i + 1], S, np.zeros(n))
            if not np.isclose(ll[m.time], want, rtol=1e-8, atol=1e-8):
                bad("factor log-likelihood is not the density of the next row's return", date=m.time, got=ll[m.time], want=want)

    PAIRS = [[(2, 5)], [(3, 6), (6, 3)], [(4, 4), (2, 8), (8, 16)], [(3, 5), (5, 9), (9, 15), (15, 30)], [(21, 63), (10, 21), (5, 10), (63, 125), (2, 3)]]

    def reference(f, pairs, start):
        k = f.shape[1]
        S = {}
        for a, b in pairs:
            S[f"{a}-{b}"] = {
                x.time: x.covariance.copy()
                for x in iterated_ewma(f, a, b, min_periods_vola=k, min_periods_cov=2 * k)
                if x.time >= start
            }
        first = S[f"{pairs[0][0]}-{pairs[0][1]}"]
        for t in first:
            first[t] = first[t] + 0.05 * np.diag(np.diag(first[t].values))
        return {r.time: r.covariance for r in from_sigmas(S, f).solve(window=10) if r is not None}

    def gen_factor():
        for k in (1, 2, 3):
            for p in range(len(PAIRS)):
                T = 3 * k + 20
                for s in range(0, T, 1 if deep else 3 if p < 3 else 6):
                    yield [k, p, T, s]
        for k, p, T in [(2, 1, 80), (1, 4, 130), (3, 3, 75)] + ([(2, 2, 300)] if deep else []):
            for s in (0, 3 * k - 2, 3 * k, T // 2, T - 14):
                yield [k, p, T, s]
        for k in (5, 6, 7, 9, 12):
            for p in (0, 1):
                for s in (0, 3 * k - 2, 3 * k + 3):
                    yield [k, p, 3 * k + 18, s]

    def run_factor(ctx, sc):
        k, p, T, s = sc
        f = H.frame(H.generic(T, k, 1.0), "date")
        start = f.index[s]
        with code.quiet():
            try:
                got = construct_factor_covariance(f, PAIRS[p], start)
            except KeyError:
                got = {}
            want = reference(f, PAIRS[p], start)
        ctx.trace()
        first = 3 * k - 2  # first prediction of the experts
        dates = list(f.index[max(s, first) + 10 :])
        if T - max(s, first) <= 10:
            # fewer than ten scored factor returns: the window shrinks, dates are not required
            if any(t < start for t in got):
                bad("a date before the start date is reported")
            return
        if list(got) != dates:
            bad("factor covariances reported for the wrong dates", got=[str(t) for t in got], want=[str(t) for t in dates])
        same(ctx, got, want, sc)

    def same(ctx, got, want, sc, tol=2e-3):
        for t in got:
            ctx.step()
            ctx.state("factor", *map(str, sc), str(t))
            a, b = got[t].values, want[t].values
            sd = np.sqrt(np.diag(b))
            if list(got[t].index) != list(want[t].index) or not (np.abs(a - b) <= tol * np.outer(sd, sd)).all():
                bad("factor covariance is not the combination of the named experts", date=t, got=a.tolist(), want=b.tolist())

    def gen_causal():
        for k in (1, 2):
            for p in (0, 1, 2):
                for cut in range(16, 22):
                    for fut in ("drop", "huge", "other"):
                        yield [k, p, cut, fut]

    def run_causal(ctx, sc):
        k, p, cut, fut = sc
        f = H.frame(H.generic(24, k, 1.0), "date")
        g = f.copy()
        if fut == "drop":
            g = g.iloc[:cut]
        else:
            g.iloc[cut:] = {"huge": 50.0, "other": 0.3}[fut]
        start = f.index[4]
        with code.quiet():
            a, b = construct_factor_covariance(f, PAIRS[p], start), construct_factor_covariance(g, PAIRS[p], start)
        ctx.trace(2)
        a = {t: x for t, x in a.items() if t < f.index[cut]}
        b = {t: x for t, x in b.items() if t < f.index[cut]}
        if list(a) != list(b):
            bad("dates up to the cut depend on later factor returns", first=len(a), second=len(b))
        same(ctx, b, a, sc)

    def gen_cm():
        for T, memory, freq in [(30, 20, 5), (33, 20, 4), (31, 24, 7), (32, 22, 20), (26, 20, 1)]:
            for k in (1, 2):
                for p in (0, 1):
                    yield [T, memory, freq, k, p]
        for T, memory, freq, k, n in [(110, 60, 20, 3, 12), (140, 100, 21, 2, 30), (60, 40, 60, 1, 6)]:
            yield [T, memory, freq, k, 2, n]
        for unit in (1e-2, 1e-5, 1e-7, 1e3, 1e6):
            yield [31, 24, 7, 2, 1, 4, unit]
            yield [60, 40, 21, 3, 0, 12, unit]
        for T, memory, freq in [(400, 380, 20), (390, 150, 120), (330, 30, 300)]:  # histories beyond any memory
            yield [T, memory, freq, 2, 1]

    def run_cm(ctx, sc):
        """the whole construction with a stand-in for the (absent) PCA package"""
        T, memory, freq, k, p = sc[:5]
        n = sc[5] if len(sc) > 5 else 4
        f = H.frame(H.generic(T, n, sc[6] if len(sc) > 6 else 1.0), "date")
        code.PcaStandIn.calls.clear()
        with code.quiet():
            got = list(construct_cmiewma_factor_model(f, k, PAIRS[p], update_frequency=freq, memory=memory))
        ctx.trace()
        calls = list(code.PcaStandIn.calls)
        want, j = [], 0
        for t in range(memory, T, freq):
            train = f.iloc[t - memory : t]
            if j >= len(calls) or not calls[j].equals(train):
                bad("the factor model is trained on the wrong rows", update=t, got=str(calls[j].index if j < len(calls) else None), want=str(train.index))
            j += 1
            E = code.PcaStandIn(train, k).exposure
            end = min(t + freq - 1, T - 1)
            test = f.iloc[: end + 1]
            fac = test @ E.T
            res = test.values - fac.values @ E.values
            with code.quiet():
                C = reference(fac, PAIRS[p], f.index[t - 10])
            for s in range(t, end + 1):
                w = 0.5 ** (np.arange(s, -1, -1) / 21)
                d = (w[:, None] * res[: s + 1] ** 2).sum(axis=0) / w.sum()
                want.append((f.index[s], E, C[f.index[s]], d))
        if [m.time for m in got] != [w[0] for w in want]:
            bad("factor models for the wrong dates", got=[str(m.time) for m in got], want=[str(w[0]) for w in want])
        for m, (t, E, C, d) in zip(got, want):
            ctx.step()
            ctx.state("cm", *sc, str(t))
            if not np.allclose(m.exposure.values, E.values, atol=1e-12):
                bad("exposure is not that of the training rows", date=t)
            sd = np.sqrt(np.diag(C.values))
            if not (np.abs(m.factor_covariance.values - C.values) <= 2e-3 * np.outer(sd, sd)).all():
                bad("factor covariance differs", date=t, got=m.factor_covariance.values.tolist(), want=C.values.tolist())
            if not np.allclose(m.diagonal.values, d, rtol=1e-9, atol=0):
                bad("idiosyncratic variances are not the EWMA of the squared unexplained returns", date=t, got=m.diagonal.values, want=d)

    return [
        Space("assembly", "factor models up to 5 assets x factors x every subset of dates in either order", gen_full, run_full),
        Space("factor covariance", "1..3 and up to 12 factors x lists of experts x start dates", gen_factor, run_factor),
        Space("causality", "cut points x futures", gen_causal, run_causal),
        Space("construction", "lengths x memories x update frequencies, whole pipeline", gen_cm, run_cm),
    ]
