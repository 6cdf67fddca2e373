"""C34: the code inside the notebooks of experiments/."""

from __future__ import annotations

import ast
import functools
import itertools
import json
import os
import tempfile
import types

import cvxpy as cp
import numpy as np
import pandas as pd

from . import histories as H
from .code import REPO, quiet
from .engine import Space
from .experts import bad

BOOKS = {
    "smoothing": "experiments/extensions/smoothing.ipynb",
    "large": "experiments/extensions/large_universes.ipynb",
    "generative": "experiments/extensions/generative_mode.ipynb",
    "means": "experiments/extensions/nonzero_means.ipynb",
    "realized": "experiments/extensions/realized_covariance.ipynb",
    "industry": "experiments/industry_portfolios.ipynb",
    "stock": "experiments/stock_portfolios.ipynb",
    "factor": "experiments/factor_portfolios.ipynb",
}


@functools.lru_cache(maxsize=None)
def parts(book):
    """the imports and function definitions of a notebook, compiled"""
    path = os.path.join(REPO, BOOKS[book])
    if not os.path.exists(path):
        return []
    out = []
    with open(path) as f:
        cells = json.load(f)["cells"]
    for c in cells:
        if c["cell_type"] != "code":
            continue
        src = "".join(c["source"])
        src = "\n".join("" if line.lstrip().startswith(("%", "!", "?")) else line for line in src.split("\n"))
        try:
            tree = ast.parse(src)
        except SyntaxError:
            continue
        for node in tree.body:
            if isinstance(node, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)):
                out.append((isinstance(node, (ast.Import, ast.ImportFrom)), compile(ast.Module([node], []), path, "exec")))
    return out


def namespace(book, **extra):
    """the imports and function definitions of a notebook, executed in a fresh namespace (nothing else runs)"""
    ns = {"__name__": "book", "np": np, "pd": pd, "cp": cp, "trange": range}
    for optional, code in parts(book):
        try:
            exec(code, ns)
        except ImportError:  # packages that are not installed
            if not optional:
                raise
    ns.update(extra)
    return ns


def the(book, name, **extra):
    """a function of a notebook; None if the notebook no longer has it"""
    with quiet():
        return namespace(book, **extra).get(name)


def spd(letter, n):
    M = {
        "a": np.eye(n) + 0.5 * np.ones((n, n)),
        "b": np.diag(np.arange(1.0, n + 1)) + 0.2 * np.outer(np.cos(np.arange(n)), np.cos(np.arange(n))),
        "c": 4.0 * np.eye(n) - 0.3 * (np.ones((n, n)) - np.eye(n)),
        "h": 30.0 * (np.eye(n) + 0.9 * (np.ones((n, n)) - np.eye(n))),
        "t": 1.001 * (np.eye(n) + 0.5 * np.ones((n, n))),
    }
    return M[letter]


def table(word, n, unit=1.0, label="date"):
    f = H.frame(np.zeros((len(word), n)), label)
    return f, {t: pd.DataFrame(unit * spd(c, n), index=f.columns, columns=f.columns) for t, c in zip(f.index, word)}


def same(d, e):
    return list(d) == list(e) and all(d[k].equals(e[k]) for k in d)


def c34(deep):
    # ---- smoothing
    def gen_ewma():
        for n in (1, 2, 3):
            for m in (1, 2, 3, 4) + ((5,) if deep else ()):
                for w in H.words("abch", [m]):
                    yield [n, w]
        for w in ("ab", "hca", "abchtth"):
            for T in (20, 60):
                yield [2, (w * T)[:T]]

    def run_ewma(ctx, sc):
        n, w = sc
        for hl in (1, 2.5, 21):
            f, S = table(w, n)
            smooth = the("smoothing", "ewma_smoothing", returns=f)
            if smooth is None:
                return
            before = {k: v.copy() for k, v in S.items()}
            got = smooth(S, hl)
            ctx.trace()
            if not same(S, before):
                bad("the covariances were modified")
            times = list(f.index)
            if list(got) != times[1:]:
                bad("the smoothed covariances are not one per time after the first", got=[str(t) for t in got])
            for k, t in enumerate(times[1:], start=1):
                ctx.step()
                ctx.state("ewma", n, w, hl, k)
                b = 0.5 ** (np.arange(k, -1, -1) / hl)
                want = sum(x * before[s].values for x, s in zip(b, times)) / b.sum()
                if not np.allclose(np.asarray(got[t]), want, rtol=1e-9, atol=0):
                    bad("not the exponentially weighted mean of the covariances so far", time=t, halflife=hl, got=np.asarray(got[t]).tolist(), want=want.tolist())

    def gen_l1():
        for n in (1, 2, 3):
            for lam in (0.05, 1.0, 6.0):
                for m in (1, 2, 3) if n < 3 or deep else (3,):
                    for w in H.words("abht", [m]):
                        yield [n, lam, w]
        for lam in (0.3, 2.0):
            yield [2, lam, "abchtabcahcbathb"]

    def run_l1(ctx, sc):
        n, lam, w = sc
        f, S = table(w, n)
        smooth = the("smoothing", "L1_smoothing", returns=f, n=n)
        if smooth is None:
            return
        before = {k: v.copy() for k, v in S.items()}
        # outside the property: a distance of lamda up to the accuracy of the solver, where the two cases meet
        P = None
        for x in before.values():
            D = np.inf if P is None else np.linalg.norm(x.values - P)
            if abs(D - lam) <= 1e-2 * (1 + lam):
                return
            P = x.values if P is None else P if D <= lam else x.values + lam / D * (P - x.values)
        with quiet():
            got, updates = smooth(S, lam)
        ctx.trace()
        if not same(S, before):
            bad("the covariances were modified")
        if list(got) != list(S) or len(updates) != max(len(S) - 1, 0):
            bad("not one smoothed covariance per time", got=len(got), updates=len(updates))
        prev = None
        for k, t in enumerate(S):
            ctx.step()
            ctx.state("l1", n, lam, w, k)
            G, X = np.asarray(got[t]), before[t].values
            if list(got[t].index) != list(f.columns) or list(got[t].columns) != list(f.columns):
                bad("labels", time=t)
            if k:
                D = np.linalg.norm(X - prev)
                if abs(D - lam) > 1e-6 * (1 + D) and bool(updates[k - 1]) != (D > lam):
                    bad("updates does not say whether the covariance was moved", time=t, distance=D, lamda=lam, got=updates[k - 1])
                # the minimiser of 1/2 |Y - X|^2 + lam |Y - P| on the line through P and X: lam away from X towards P
                want = prev if D <= lam else X + lam / D * (prev - X)
                if not (np.abs(G - want) <= 2e-3 * max(1.0, np.abs(want).max())).all():
                    bad("not the covariance lamda away from the unsmoothed one, towards the previous smoothed one", time=t, lamda=lam, got=G.tolist(), want=want.tolist())
            elif not np.allclose(G, X, rtol=1e-12, atol=0):
                bad("the first smoothed covariance is not the first covariance")
            prev = G

    def gen_diff():
        for n in (1, 2, 4):
            for m in (1, 2, 3):
                for w in H.words("abch", [m]):
                    yield [n, w]

    def run_diff(ctx, sc):
        n, w = sc
        f, S = table(w, n)
        diff = the("smoothing", "frob_difference", returns=f)
        if diff is None:
            return
        got = diff(S)
        ctx.trace()
        if list(got.index) != list(f.index[1:]):
            bad("not one difference per time after the first")
        M = [x.values for x in S.values()]
        for k in range(1, len(M)):
            ctx.step()
            ctx.state("diff", n, w, k)
            want = np.sqrt(((M[k] - M[k - 1]) ** 2).sum() / (M[k - 1] ** 2).sum())
            if abs(got.iloc[k - 1] - want) > 1e-10 * (1 + want):
                bad("not the Frobenius distance relative to the previous covariance", k=k, got=got.iloc[k - 1], want=want)
        tn = the("smoothing", "turnover", returns=f)
        if tn is not None and len(w) > 1:
            W = np.array([np.sin(np.arange(1, n + 1) * (1 + ord(c))) + 1.5 for c in w])
            want = 252 * 100 * np.mean([np.abs(W[k] - W[k - 1]).sum() / np.abs(W[k - 1]).sum() for k in range(1, len(W))])
            if abs(tn(W) - want) > 1e-9 * (1 + want):
                bad("turnover", got=tn(W), want=want)

    # ---- storage
    def gen_store():
        for n in range(1, 13 if not deep else 40):
            for w in ("a", "ba", "chb", "tabch"):
                for unit in (1.0, 1e-5):
                    yield [n, w, unit]
        for n in (20, 49, 100):
            yield [n, "ab", 1e-4]

    def run_store(ctx, sc):
        n, w, unit = sc
        ns = None
        with quiet():
            ns = namespace("large")
        save, load, full, chol = (ns.get(k) for k in ("save_cov_to_csv", "from_csv_to_cov", "from_upper_triangular_to_full", "get_choleskys"))
        f, S = table(w, n, unit)
        for k, t in enumerate(S):
            S[t] = S[t] + unit * 1e-3 * (k + 1) * np.outer(np.sqrt(np.arange(1, n + 1)), np.sqrt(np.arange(1, n + 1)))
        before = {k: v.copy() for k, v in S.items()}
        if full is not None:
            for t in S:
                ctx.step()
                got = full(S[t].values[np.triu_indices(n)])
                if not np.array_equal(got, S[t].values):
                    bad("the full covariance is not the one its upper triangle was taken from", n=n)
        if save is not None and load is not None:
            here = os.getcwd()
            with tempfile.TemporaryDirectory(prefix="mc-book-") as d:
                os.mkdir(os.path.join(d, "results"))
                os.chdir(d)
                try:
                    save(S, "x")
                    got = load("x", f.columns)
                finally:
                    os.chdir(here)
            ctx.trace()
            if not same(S, before):
                bad("the covariances were modified")
            if list(got) != list(S):
                bad("times changed on the way", got=[str(t) for t in got], want=[str(t) for t in S])
            for t in S:
                ctx.step()
                ctx.state("store", n, w, unit, str(t))
                if list(got[t].index) != list(f.columns) or list(got[t].columns) != list(f.columns):
                    bad("labels changed on the way")
                if not np.allclose(got[t].values, S[t].values, rtol=1e-12, atol=0):
                    bad("a covariance changed on the way through the file", n=n, time=t, got=got[t].values.tolist(), want=S[t].values.tolist())
        if chol is not None:
            F, d = chol(S)
            if list(F) != list(S) or list(d) != list(S):
                bad("not one factor per time")
            for t in S:
                if list(F[t].index) != list(f.columns) or list(d[t].index) != list(f.columns):
                    bad("labels of the factors")
                if not np.allclose(F[t].values @ F[t].values.T + np.diag(d[t].values), S[t].values, rtol=1e-9, atol=1e-12 * unit):
                    bad("the factor form is not the covariance", n=n, time=t)

    # ---- signals
    VAL = (-2.0, -0.5, 0.0, 0.25, 3.0)

    def quantile(x, q):
        x = np.sort(x[np.isfinite(x)])
        p = q * (len(x) - 1)
        i = int(np.floor(p))
        return x[i] + (p - i) * (x[min(i + 1, len(x) - 1)] - x[i])

    def gen_tune():
        for book in ("industry", "stock", "factor", "means", "realized"):
            for n in (1, 2, 3, 4) + ((5,) if deep else ()):
                for r in itertools.product(range(5), repeat=n):
                    yield [book, list(r)]

    def run_tune(ctx, sc):
        book, r = sc
        row = np.array([VAL[i] for i in r])
        X = 0.01 * np.array([row, row[::-1], 2 * row - 0.3, 0 * row])
        f = H.frame(X)
        cuts = [(0.4, 0.6, {})] + ([(0.2, 0.8, dict(lower=0.2, upper=0.8))] if book == "industry" else [])
        fn = the(book, "tune_returns")
        for lo, hi, kw in cuts if fn is not None else ():
            before = f.copy()
            got = fn(f, **kw)
            ctx.trace()
            if not f.equals(before):
                bad("the returns were modified")
            if list(got.index) != list(f.index) or list(got.columns) != list(f.columns):
                bad("labels")
            for t in range(len(X)):
                ctx.step()
                ctx.state("tune", book, str(r), lo, t)
                want = np.clip(X[t], quantile(X[t], lo), quantile(X[t], hi))
                if not np.allclose(got.values[t], want, rtol=1e-10, atol=1e-15):
                    bad("a row is not cut at its own percentiles", notebook=book, row=X[t], got=got.values[t], want=want)
        fn = the(book, "tune_returns2")
        if fn is not None:
            got = fn(f)
            for t in range(len(X)):
                hi, lo = quantile(X[t], 0.9), quantile(X[t], 0.1)
                if (np.abs(X[t] - hi) < 1e-12).any() or (np.abs(X[t] - lo) < 1e-12).any():
                    continue
                want = np.where(X[t] > hi, 1, np.where(X[t] < lo, -1, 0))
                if not np.array_equal(got.values[t], want):
                    bad("a row is not the signs of its extreme values", notebook=book, row=X[t], got=got.values[t], want=want)

    def gen_sign():
        for n in (20, 21, 30, 49):
            for neg in range(0, n + 1, 1 if deep else 3):
                for zero in (0, 2, 5):
                    if neg + zero <= n:
                        yield [n, neg, zero]

    def run_sign(ctx, sc):
        n, neg, zero = sc
        fn = the("industry", "get_sign_prediction")
        if fn is None:
            return
        size = 0.01 * (1 + (np.arange(n) * 11 % n))
        row = np.where(np.arange(n) < neg, -size, np.where(np.arange(n) < neg + zero, 0.0, size))
        perm = (np.arange(n) * 11 + 3) % n if np.gcd(11, n) == 1 else np.arange(n)[::-1]
        X = np.array([row, row[perm], -row])
        f = H.frame(X)
        before = f.copy()
        got = fn(f)
        ctx.trace()
        if not f.equals(before):
            bad("the predictions were modified")
        if list(got.index) != list(f.index) or list(got.columns) != list(f.columns):
            bad("labels")
        for t, x in enumerate(X):
            ctx.step()
            ctx.state("sign", n, neg, zero, t)
            up = {i for i in np.argsort(-x)[:10] if x[i] > 0}
            down = {i for i in np.argsort(x)[:10] if x[i] < 0}
            want = np.array([1.0 if i in up else -1.0 if i in down else 0.0 for i in range(n)])
            if not np.array_equal(got.values[t] + 0.0, want):
                bad("not the signs of the ten largest positive and the ten largest negative predictions", row=x, got=got.values[t], want=want)

    def gen_auto():
        for w in H.words("abch", [1, 2, 3, 4]):
            yield [w]

    def run_auto(ctx, sc):
        fn = the("industry", "get_moving_autocorrelations")
        if fn is None:
            return
        X = H.rows(sc[0])
        P = H.rows(sc[0][::-1]) + 0.003
        f, g = H.frame(X), H.frame(P)
        for hl in (1, 63, None):
            got = fn(f, g) if hl is None else fn(f, g, halflife=hl)
            ctx.trace()
            for t in range(len(X)):
                ctx.step()
                ctx.state("auto", sc[0], hl or 125, t)
                b = 0.5 ** (np.arange(t, -1, -1) / (hl or 125))[:, None]
                den = np.sqrt((b * X[: t + 1] ** 2).sum(axis=0) * (b * P[: t + 1] ** 2).sum(axis=0))
                num = (b * X[: t + 1] * P[: t + 1]).sum(axis=0)
                ok = den > 1e-9
                if not (np.abs(got.values[t][ok] - num[ok] / den[ok]) <= 1e-7).all():
                    bad("not the weighted correlation of the rows so far", time=t, halflife=hl, got=got.values[t], want=num / den)

    # ---- sampling
    def gen_sample():
        for n in (1, 2, 3):
            for m in (1, 2, 3):
                for w in H.words("abh", [m]):
                    for fut in ("", "a", "hb", "bah"):
                        yield [n, w, fut]
        yield [2, "abh" * 15, "habba"]

    def run_sample(ctx, sc):
        n, w, fut = sc
        tab = {c: v[:n] for c, v in H.ROWS3.items()}
        X, Y = H.rows(w, tab), H.rows(fut, tab) if fut else np.zeros((0, n))
        for hl, mp, given in itertools.product((1, 10), (0, 1, 2, 3), (True, False)):
            if mp > len(w):
                continue
            asked = []

            class Rnd:
                @staticmethod
                def multivariate_normal(mean, cov, *a, **k):
                    asked.append((np.array(mean), np.array(cov, dtype=float)))
                    return Y[len(asked) - 1].copy()

            fake = types.SimpleNamespace(**{k: getattr(np, k) for k in dir(np) if not k.startswith("__")})
            fake.random = Rnd
            fn = the("generative", "_ewma_cov", np=fake)
            if fn is None:
                return
            f = H.frame(X)
            G = pd.DataFrame(Y, columns=f.columns)
            kw = dict(genarative_data=G) if given else {}
            if mp:
                kw["min_periods"] = mp
            got = list(fn(f, hl, n_samples=len(fut), **kw))
            ctx.trace()
            first = max(mp, 1) - 1
            if [t for t, _ in got] != list(f.index[first:]) + list(range(len(fut))):
                bad("not one covariance per time with enough rows and then one sample per step", got=[str(t) for t, _ in got], min_periods=mp)
            Z = np.vstack([X, Y])

            def cov(k):
                b = 0.5 ** (np.arange(k, -1, -1) / hl)
                return np.einsum("t,ti,tj->ij", b, Z[: k + 1], Z[: k + 1]) / b.sum()

            for i, (t, c) in enumerate(got[: len(X) - first]):
                ctx.step()
                ctx.state("gen", n, w, hl, mp, i)
                if not np.allclose(c.values, cov(first + i), rtol=1e-9, atol=1e-15) or list(c.index) != list(f.columns):
                    bad("not the EWMA covariance", time=t, halflife=hl, got=c.values.tolist(), want=cov(first + i).tolist())
            if len(asked) != len(fut):
                bad("not one draw per step", got=len(asked), want=len(fut))
            for i, (m, c) in enumerate(asked):
                ctx.step()
                ctx.state("draw", n, w, fut, hl, given, i)
                if m.any() or not np.allclose(c, cov(len(X) - 1 + i), rtol=1e-9, atol=1e-15):
                    bad("a draw does not use the EWMA of the rows and the draws so far", step=i, halflife=hl, got=c.tolist(), want=cov(len(X) - 1 + i).tolist())
                if not np.array_equal(got[len(X) - first + i][1].values, Y[i]):
                    bad("the reported sample is not the one drawn", step=i)

    # ---- yearly Sharpe ratios
    def gen_year():
        for start in ("2019-11-20", "2020-01-01", "2020-12-30"):
            for T in (3, 45, 300, 800):
                for w in ("ab", "bha", "chab"):
                    yield [start, T, w]

    def run_year(ctx, sc):
        start, T, w = sc
        fn = the("factor", "yearly_SR")
        if fn is None:
            return
        r = H.periodic(w, T)[:, 0] + 0.001 * np.sin(np.arange(T))
        idx = pd.bdate_range(start, periods=T)
        got = fn(types.SimpleNamespace(rets=r.reshape(-1, 1), returns=pd.DataFrame(index=idx)))
        ctx.trace()
        years = sorted(set(idx.year))
        if [t.year for t in got.index] != years:
            bad("not one ratio per year", got=[str(t) for t in got.index])
        for k, y in enumerate(years):
            ctx.step()
            ctx.state("year", start, T, w, y)
            x = r[idx.year == y]
            if len(x) < 2 or x.std() < 1e-9:
                continue
            want = x.mean() / x.std(ddof=1) * np.sqrt(252)
            if abs(got.iloc[k] - want) > 1e-8 * (1 + abs(want)):
                bad("not the annualised mean over the annualised deviation of the year", year=y, got=got.iloc[k], want=want)

    return [
        Space("EWMA smoothing", "all words up to length 4 over 4 covariances, 1..3 assets x 3 half lives", gen_ewma, run_ewma),
        Space("L1 smoothing", "all words up to length 3 over 4 covariances x 3 penalties", gen_l1, run_l1),
        Space("differences", "all words up to length 3 over 4 covariances", gen_diff, run_diff),
        Space("storage", "1..12, 20, 49 and 100 assets x histories x units through a real file", gen_store, run_store),
        Space("tuning", "all rows over 5 values, 1..4 assets x 5 notebooks", gen_tune, run_tune),
        Space("signs", "20..49 assets x every third number of negative and zero predictions", gen_sign, run_sign),
        Space("autocorrelations", "all words up to length 4 x 3 half lives", gen_auto, run_auto),
        Space("sampling", "all words up to length 3 x drawn continuations x warm-ups, with a recording sampler", gen_sample, run_sample),
        Space("years", "starts x lengths x patterns", gen_year, run_year),
    ]
