"""C19-C21: factor-form regularisation and its EM refinement."""

from __future__ import annotations

import itertools
from collections import namedtuple

import numpy as np
import pandas as pd

from cvx.covariance.regularization import em_regularize_covariance, regularize_covariance

from . import histories as H
from .engine import Space
from .experts import bad

Model = namedtuple("Model", ["F", "d"])

# ------------------------------------------------------------------ matrices


def generic_cov(n, seed=0, rank=None):
    """irregular covariance matrices, well conditioned (or of the given rank plus nothing)"""
    m = rank or n + 2
    Y = np.sin(np.outer(np.arange(1, n + 1) + 0.3 * seed, np.arange(1, m + 1)) * 1.37 + 0.7 * seed)
    C = Y @ Y.T
    if rank is None:
        C += 0.4 * np.eye(n)
    d = np.exp(np.sin(2.1 * np.arange(n) + seed))
    return C * np.outer(d, d)


def matrix(spec):
    """covariance matrix from its JSON description"""
    kind = spec[0]
    if kind == "fac":  # integer factor F (rows), diagonal
        F = np.array(spec[1], float).reshape(len(spec[2]), -1)
        return F @ F.T + np.diag(np.array(spec[2], float))
    if kind == "mat":
        return np.array(spec[1], float)
    if kind == "gen":
        return generic_cov(spec[1], spec[2])
    if kind == "low":  # singular: rank spec[3]
        return generic_cov(spec[1], spec[2], spec[3])
    if kind == "eq":  # equicorrelation
        n, rho = spec[1], spec[2]
        return (1 - rho) * np.eye(n) + rho * np.ones((n, n))
    if kind == "blk":  # blocks of equal correlation: tied leading eigenvalues
        n, rho = spec[1], spec[2]
        b = (1 - rho) * np.eye(n) + rho * np.ones((n, n))
        z = np.zeros((n, n))
        return np.block([[b, z], [z, b]])
    if kind == "sgn":  # perfectly correlated, signs
        s = np.array(spec[1], float)
        return np.outer(s, s)
    raise KeyError(kind)


def small_factors(n, k, entries, diags):
    """all integer factor models; the first row is taken nonnegative (sign symmetry)"""
    for f in itertools.product(entries, repeat=n * k):
        for d in diags:
            S = matrix(["fac", list(f), list(d)])
            if (np.diag(S) > 0).all():
                yield ["fac", list(f), list(d)]


def frame(C, cols="str"):
    c = H.columns(cols, C.shape[0])
    return pd.DataFrame(np.array(C, float), index=c, columns=c)


TOL = 1e-9


def spectrum(C):
    s = np.sqrt(np.diag(C))
    R = C / np.outer(s, s)
    lam, Q = np.linalg.eigh(R)
    return s, R, lam[::-1], Q[:, ::-1]


def check_dense(C, r, got, cols, what=""):
    """the dense form: variances, leading part, validity, labels.  -> True if the eigenvalue gap decides the matrix"""
    n = C.shape[0]
    s, R, lam, Q = spectrum(C)
    if not isinstance(got, pd.DataFrame) or list(got.index) != list(cols) or list(got.columns) != list(cols):
        bad(f"{what}regularised covariance has the wrong labels", got=getattr(got, "index", type(got)))
    A = got.values / np.outer(s, s)
    if not np.isfinite(A).all():
        bad(f"{what}regularised covariance is not finite", matrix=C.tolist(), rank=r, got=got.values.tolist())
    if not (np.abs(np.diag(A) - 1) <= TOL).all():
        bad(f"{what}variances are not kept", matrix=C.tolist(), rank=r, got=np.diag(got.values), want=np.diag(C))
    if not (np.abs(A - A.T) <= TOL).all():
        bad(f"{what}regularised covariance is not symmetric", matrix=C.tolist(), rank=r)
    if np.linalg.eigvalsh((A + A.T) / 2)[0] < -1e-8:
        bad(f"{what}regularised covariance is not positive semidefinite", matrix=C.tolist(), rank=r, got=got.values.tolist())
    if r == n:
        if not (np.abs(A - R) <= TOL).all():
            bad(f"{what}full rank changes the covariance", matrix=C.tolist(), got=got.values.tolist())
        return True
    if lam[r - 1] - lam[r] > 1e-4:
        lo = (Q[:, :r] * lam[:r]) @ Q[:, :r].T
        want = lo + np.diag(1 - np.diag(lo))
        if not (np.abs(A - want) <= 1e-9 / min(1, lam[r - 1] - lam[r])).all():
            bad(f"{what}not the rank-r part of the correlation plus a diagonal", matrix=C.tolist(), rank=r, got=A.tolist(), want=want.tolist())
        return True
    return False


def check_factor(C, r, got, cols, what=""):
    """the factor form, also when eigenvalues tie: F spans an invariant subspace of the r largest eigenvalues"""
    n = C.shape[0]
    s, R, lam, Q = spectrum(C)
    F, d = got.F, got.d
    if list(F.index) != list(cols) or list(d.index) != list(cols) or F.shape != (n, r):
        bad(f"{what}factor form has the wrong labels or shape", shape=F.shape, want=(n, r), index=list(F.index))
    X, e = F.values / s[:, None], d.values / s**2
    if not np.isfinite(X).all() or not np.isfinite(e).all():
        bad(f"{what}factor form is not finite", matrix=C.tolist(), rank=r, F=F.values.tolist(), d=d.values)
    if (e < -TOL).any():
        bad(f"{what}negative diagonal", matrix=C.tolist(), rank=r, d=d.values)
    if not (np.abs((X**2).sum(axis=1) + e - 1) <= TOL).all():
        bad(f"{what}factor form does not keep the variances", matrix=C.tolist(), rank=r)
    P = X @ X.T
    mu = np.linalg.eigvalsh(P)[::-1]
    # rounding enters through the square root of tiny eigenvalues: compare at 1e-7
    if not (np.abs(mu[:r] - np.maximum(lam[:r], 0)) <= 1e-8).all() or not (np.abs(mu[r:]) <= 1e-8).all():
        bad(f"{what}the factors do not carry the r largest eigenvalues", matrix=C.tolist(), rank=r, got=mu, want=lam[:r])
    if not (np.abs(R @ P - P @ P) <= 1e-7).all():
        bad(f"{what}the factors are not eigenvectors of the correlation matrix", matrix=C.tolist(), rank=r)


def specs(deep):
    for n, k, e, ds in [
        (1, 1, (1, 2), [(1,), (0,)]),
        (2, 1, (-2, -1, 0, 1, 2), [(1, 1), (1, 3), (0, 1), (0, 0)]),
        (2, 2, (-1, 0, 1, 2), [(1, 1), (0, 0), (0, 2)]),
        (3, 1, (-1, 0, 1, 2), [(1, 1, 1), (1, 2, 3), (0, 1, 0)]),
        (3, 2, (-1, 0, 1) if not deep else (-1, 0, 1, 2), [(1, 1, 1), (1, 2, 3), (0, 0, 0)]),
        (4, 1, (-1, 0, 2), [(1, 1, 1, 1), (1, 2, 3, 4)]),
        (4, 2, (0, 1) if not deep else (-1, 0, 1), [(1, 1, 1, 1), (4, 1, 2, 1)]),
        (5, 1, (-1, 1, 2), [(1, 2, 1, 3, 1)]),
    ]:
        yield from small_factors(n, k, e, ds)


def special(deep):
    for n in range(1, 13 if not deep else 31):
        for seed in range(3 if not deep else 8):
            yield ["gen", n, seed]
        for rho in (0.0, 0.5, 0.99, 1.0, -0.999 / max(n - 1, 1)):
            yield ["eq", n, rho]
        for k in range(1, min(n, 4)):
            for seed in (0, 1):
                S = matrix(["low", n, seed, k])
                if (np.diag(S) > 1e-9).all():
                    yield ["low", n, seed, k]
    for n in (1, 2, 3, 4):
        for rho in (0.0, 0.3, 0.9):
            yield ["blk", n, rho]
    for n in (2, 3, 4, 5):
        for s in itertools.product((1, -1, 3), repeat=n):
            if n < 4 or deep or s[0] == 1:
                yield ["sgn", list(s)]


SCALES = [1e-8, 1e-4, 1.0, 1e4, 1e8]


def scaled(C, k):
    """units of the assets: k-th scaling"""
    if k == 0:
        return C
    n = C.shape[0]
    u = {1: np.full(n, 1e-4), 2: 10.0 ** (np.arange(n) % 5 - 2), 3: np.full(n, 300.0), 4: 10.0 ** (-(np.arange(n) % 4) * 2.0), 5: np.full(n, 1e-8), 6: np.full(n, 1e7), 7: 10.0 ** (-(np.arange(n) % 3) * 5.0)}[k]
    return C * np.outer(u, u)


def c19(deep):
    def gen_small():
        for sp in specs(deep):
            n = len(sp[2])
            for r in range(1, n + 1):
                yield [sp, r, 0]

    def run(ctx, sc):
        sp, r, k = sc
        C = scaled(matrix(sp), k)
        f = frame(C, ("str", "int", "rev", "named")[k % 4])
        out = list(regularize_covariance({"t": f}, r))
        ctx.trace()
        ctx.step()
        ctx.state("reg", str(sp), r, k)
        if len(out) != 1 or out[0][0] != "t":
            bad("not one result per time", got=[x[0] for x in out])
        if not check_dense(C, r, out[0][1], f.columns):
            # tied eigenvalues: the dense form must be that of some choice of leading eigenvectors.  With tied
            # eigenvalues lam_r = lam_{r+1} = c: A = lo + (part of c * projector of the tied space) + diagonal
            s, R, lam, Q = spectrum(C)
            c = lam[r - 1]
            above, tied = lam > c + 1e-3, np.abs(lam - c) <= 1e-3
            A = out[0][1].values / np.outer(s, s)
            ((_, fac),) = list(regularize_covariance({"t": f}, r, low_rank_format=True))
            check_factor(C, r, fac, f.columns)
            X = fac.F.values / s[:, None]
            if not (np.abs(X @ X.T + np.diag(fac.d.values / s**2) - A) <= 1e-8).all():
                bad("dense and factor form differ", matrix=C.tolist(), rank=r)

    def gen_special():
        for sp in special(deep):
            n = matrix(sp).shape[0]
            for r in range(1, n + 1):
                for k in (0, 2) if not deep else range(8):
                    if n <= 8 or r in (1, 2, n // 2, n - 1, n) or deep:
                        yield [sp, r, k]

    def gen_scaled():
        for sp in itertools.islice(specs(False), 0, None, 5):
            n = len(sp[2])
            for r in range(1, n + 1):
                for k in (1, 2, 3, 4, 5, 6, 7):
                    yield [sp, r, k]

    def gen_large():
        for n in (15, 20, 25, 30, 40, 60, 101) + ((150, 250) if deep else ()):
            for sp in (["gen", n, 0], ["gen", n, 2], ["low", n, 1, 3], ["eq", n, 0.4]):
                for r in (1, 2, 5, n // 2, n - 1, n):
                    yield [sp, r, (n + r) % 8]

    return [
        Space("integer factor matrices", "all F F^T + D with small integer F (n up to 5, up to 2 factors) x all ranks", gen_small, run),
        Space("special matrices", "generic, equicorrelated, block, singular, perfectly correlated matrices up to 12 assets x ranks x units", gen_special, run),
        Space("units", "integer factor matrices x units of the assets x labels x ranks", gen_scaled, run),
        Space("large", "up to 101 assets x ranks x units", gen_large, run),
    ]


# ------------------------------------------------------------------ C20

ALPHA = [
    ["mat", [[4, 1, 0.5], [1, 2, -0.3], [0.5, -0.3, 1]]],
    ["mat", [[1, 0.9, 0.8], [0.9, 1, 0.85], [0.8, 0.85, 1]]],
    ["eq", 3, 0.4],
    ["sgn", [1, -1, 2]],
    ["eq", 3, 0.0],
]


def c20(deep):
    def gen_seq():
        for m in (0, 1, 2, 3) if not deep else (0, 1, 2, 3, 4):
            for w in itertools.product(range(len(ALPHA)), repeat=m):
                for r in (1, 2, 3):
                    yield [list(w), r, "date" if (sum(w) + m) % 2 else "int7"]

    def run_seq(ctx, sc):
        w, r, label = sc
        mats = [matrix(ALPHA[k]) for k in w]
        times = list(H.index(label, len(w)))
        if len(times) > 2:
            times = times[1:] + times[:1]  # not sorted: input order counts
        sig = {t: frame(m, "rev") for t, m in zip(times, mats)}
        dense = list(regularize_covariance(sig, r))
        fac = list(regularize_covariance(sig, r, low_rank_format=True))
        ctx.trace(2)
        if [x[0] for x in dense] != times or [x[0] for x in fac] != times:
            bad("not one result per time in input order", got=[str(x[0]) for x in dense], factor=[str(x[0]) for x in fac], want=[str(t) for t in times])
        for (t, D), (_, f), C in zip(dense, fac, mats):
            ctx.step()
            ctx.state("seq", str(w), r, times.index(t))
            cols = sig[t].columns
            check_dense(C, r, D, cols)
            check_factor(C, r, f, cols)
            agree(C, r, D, f)
            ((_, alone),) = list(regularize_covariance({t: frame(C, "rev")}, r))
            if not np.array_equal(alone.values, D.values) and not np.allclose(alone.values, D.values, rtol=1e-10, atol=1e-12):
                bad("the result depends on other times", sequence=w, rank=r)

    def agree(C, r, D, f):
        s = np.sqrt(np.diag(C))
        G = (f.F.values @ f.F.values.T + np.diag(f.d.values)) / np.outer(s, s)
        if not (np.abs(G - D.values / np.outer(s, s)) <= 1e-8).all():
            bad("dense and factor form differ", matrix=C.tolist(), rank=r, dense=D.values.tolist(), factor=(f.F.values @ f.F.values.T + np.diag(f.d.values)).tolist())

    def gen_single():
        for sp in itertools.chain(specs(deep), special(deep)):
            n = matrix(sp).shape[0]
            for r in range(1, n + 1):
                if n <= 6 or r in (1, 2, n // 2, n - 1, n) or deep:
                    yield [sp, r]

    def run_single(ctx, sc):
        sp, r = sc
        k = (r + len(str(sp))) % 5
        C = scaled(matrix(sp), k)
        f = frame(C, ("str", "int", "rev", "named")[k % 4])
        ((_, D),) = list(regularize_covariance({0: f}, r, low_rank_format=False))
        ((_, g),) = list(regularize_covariance({0: f}, r=r, low_rank_format=True))
        ctx.trace(2)
        ctx.step()
        ctx.state("one", str(sp), r)
        check_factor(C, r, g, f.columns)
        agree(C, r, D, g)

    def gen_lazy():
        for m in (1, 2, 3, 4):
            for p in range(m):
                for r in (1, 2):
                    for fmt in (False, True):
                        for cut in range(m + 1):
                            yield [m, p, r, fmt, cut]

    def run_lazy(ctx, sc):
        """a matrix that cannot be decomposed (NaN) at position p: the results before it are delivered; and an iteration
        abandoned after `cut` results followed by a new one gives everything"""
        m, p, r, fmt, cut = sc
        mats = [matrix(ALPHA[k % len(ALPHA)]) for k in range(m)]
        good = {i: frame(c) for i, c in enumerate(mats)}
        want = list(regularize_covariance(good, r, fmt))
        poisoned = {i: (frame(c) if i != p else frame(c * np.nan)) for i, c in enumerate(mats)}
        got = []
        try:
            for x in regularize_covariance(poisoned, r, fmt):
                if x[0] == p:
                    break
                got.append(x)
        except Exception:
            pass
        it = regularize_covariance(good, r, fmt)
        part = [next(it) for _ in range(cut)]
        again = list(regularize_covariance(good, r, fmt))
        rest = list(it)
        ctx.trace(4)
        ctx.step(m)
        ctx.state("lazy", *sc)
        if [x[0] for x in got] != list(range(p)):
            bad("results before a matrix that cannot be decomposed are not delivered", got=[x[0] for x in got], position=p)
        for run_ in (part + rest, again, got):
            for (t, a), (s, b) in zip(run_, want):
                va, vb = (np.hstack([a.F.values, a.d.values[:, None]]), np.hstack([b.F.values, b.d.values[:, None]])) if fmt else (a.values, b.values)
                if t != s or not np.allclose(va, vb, rtol=1e-9, atol=1e-9):
                    bad("an interrupted, interleaved or failing iteration changes results", time=t)
        if len(part + rest) != m or len(again) != m:
            bad("an interleaved iteration loses results")

    def gen_drift():
        for n in (2, 3, 5):
            for e in range(-1, -9, -1):
                for r in range(1, n + 1):
                    for how in ("all", "variances", "one", "back"):
                        yield [n, e, r, how]

    def run_drift(ctx, sc):
        """consecutive matrices that hardly differ: each is regularised on its own"""
        n, e, r, how = sc
        A, B = generic_cov(n, 0), generic_cov(n, 5)
        mats = []
        for i in range(5):
            h = 10.0**e * (i if how != "back" else i % 2)
            if how == "variances":
                d = 1 + h * np.arange(n)
                mats.append(A * np.outer(d, d))
            elif how == "one":
                M = A.copy()
                M[0, 1] = M[1, 0] = A[0, 1] * (1 - h)
                mats.append(M)
            else:
                mats.append((1 - h) * A + h * B)
        sig = {f"t{5 - i}": frame(m, "rev") for i, m in enumerate(mats)}
        dense = list(regularize_covariance(sig, r))
        fac = list(regularize_covariance(sig, r, low_rank_format=True))
        ctx.trace(2)
        if [x[0] for x in dense] != list(sig) or [x[0] for x in fac] != list(sig):
            bad("not one result per time in input order")
        for (t, D), (_, f), C in zip(dense, fac, mats):
            ctx.step()
            ctx.state("drift", *sc, t)
            check_dense(C, r, D, sig[t].columns)
            check_factor(C, r, f, sig[t].columns)
            agree(C, r, D, f)

    def gen_large():
        for T, n in [(12, 4), (40, 3), (130, 2), (5, 30), (3, 60)]:
            for r in (1, 2, 5, n - 1, n):
                if r <= n:
                    yield [T, n, r]

    def run_large(ctx, sc):
        T, n, r = sc
        times = list(H.index("shuffle", T))
        mats = [scaled(matrix(["gen", n, i % 7]) if i % 5 else matrix(["eq", n, 0.3 + 0.01 * i % 0.6]), i % 5) for i in range(T)]
        sig = {t: frame(m, "rev") for t, m in zip(times, mats)}
        dense = list(regularize_covariance(sig, r))
        fac = list(regularize_covariance(sig, r, low_rank_format=True))
        ctx.trace(2)
        if [x[0] for x in dense] != times or [x[0] for x in fac] != times:
            bad("not one result per time in input order")
        for (t, D), (_, f), C in zip(dense, fac, mats):
            ctx.step()
            ctx.state("large", *sc, t)
            check_dense(C, r, D, sig[t].columns)
            check_factor(C, r, f, sig[t].columns)
            agree(C, r, D, f)

    return [
        Space("sequences", "all sequences up to length 3 over 5 matrices x ranks x labels, both formats", gen_seq, run_seq),
        Space("single matrices", "integer factor and special matrices x ranks: formats agree", gen_single, run_single),
        Space("consumption", "failing matrix at every position; every abandoned and interleaved iteration", gen_lazy, run_lazy),
        Space("drift", "five matrices that differ by 1e-1 to 1e-8, in four ways x ranks", gen_drift, run_drift),
        Space("large", "up to 130 times, 60 assets, both formats", gen_large, run_large),
    ]


# ------------------------------------------------------------------ C21


def em_step(S, F, d):
    """one exact EM update of x = F s + e, s ~ N(0, I), e ~ N(0, diag d), written with the model covariance"""
    M = F @ F.T + np.diag(d)
    B = np.linalg.solve(M, F).T  # E[s|x] = B x
    Sxs = S @ B.T
    Sss = np.eye(F.shape[1]) - B @ F + B @ S @ B.T
    F1 = np.linalg.solve(Sss.T, Sxs.T).T
    d1 = np.diag(S) - (F1 * Sxs).sum(axis=1)
    return F1, d1


def gauss(S, F, d):
    M = F @ F.T + np.diag(d)
    return -0.5 * (np.linalg.slogdet(M)[1] + np.trace(np.linalg.solve(M, S)))


def models(n, r, deep):
    ent = (-1, 0, 1) if n * r <= 4 else (0, 1)
    if deep:
        ent = (-1, 0, 1, 2) if n * r <= 4 else (-1, 0, 1)
    for f in itertools.product(ent, repeat=n * r):
        for d in [tuple([1.0] * n), tuple(0.5 + 0.75 * i for i in range(n))]:
            yield [list(f), list(d)]


def run_em(S, F, d, cols, times=("t",), fcols=None):
    c = H.columns(cols, len(d))
    sig = {t: pd.DataFrame(S, index=c, columns=c) for t in times}
    init = {t: Model(pd.DataFrame(F, index=c, columns=fcols), pd.Series(d, index=c)) for t in times}
    return c, list(em_regularize_covariance(sig, init))


def check_em(ctx, S, F, d, got, cols, what=""):
    F1, d1 = F, d
    for _ in range(5):
        F1, d1 = em_step(S, F1, d1)
    if list(got.F.index) != list(cols) or list(got.d.index) != list(cols) or got.F.shape != F.shape:
        bad(f"{what}refined model has the wrong labels or rank", shape=got.F.shape, want=F.shape)
    s = np.sqrt(np.diag(S))
    g, e = got.F.values / s[:, None], got.d.values / s**2
    if not (np.isfinite(g).all() and np.isfinite(e).all()):
        bad(f"{what}refined model is not finite", S=S.tolist(), F=F.tolist(), d=d)
    if not (np.abs(g - F1 / s[:, None]) <= 1e-7).all() or not (np.abs(e - d1 / s**2) <= 1e-7).all():
        bad(f"{what}not five EM updates of the initial model", S=S.tolist(), F=F.tolist(), d=d.tolist(), got_F=got.F.values.tolist(), want_F=F1.tolist(), got_d=got.d.values, want_d=d1)
    if (e <= 0).any():
        bad(f"{what}idiosyncratic variance is not positive", S=S.tolist(), F=F.tolist(), d=got.d.values)
    a, b = gauss(S, F, d), gauss(S, got.F.values, got.d.values)
    if b < a - 1e-7 * max(1, abs(a)):
        bad(f"{what}the likelihood decreased", S=S.tolist(), F=F.tolist(), d=d.tolist(), before=a, after=b)


TARGETS = {
    1: [["mat", [[2.0]]], ["mat", [[0.3]]]],
    2: [["mat", [[2, 0.5], [0.5, 1]]], ["mat", [[1, -0.9], [-0.9, 1]]], ["mat", [[1, 0], [0, 3]]]],
    3: [ALPHA[0], ALPHA[1], ALPHA[4], ["gen", 3, 1]],
    4: [["gen", 4, 0], ["blk", 2, 0.6]],
    5: [["gen", 5, 2]],
}


def c21(deep):
    def gen_small():
        for n in (1, 2, 3, 4):
            for r in range(1, min(n, 3) + 1):
                if n * r > 9:
                    continue
                for k in range(len(TARGETS[n])):
                    for F, d in models(n, r, deep):
                        if n == 4 and r == 2 and not deep and d[0] != 1.0:
                            continue
                        yield [n, r, k, F, d]

    def run_small(ctx, sc):
        n, r, k, F, d = sc
        S = matrix(TARGETS[n][k])
        F, d = np.array(F, float).reshape(n, r), np.array(d, float)
        c, out = run_em(S, F, d, ("str", "rev", "int")[k % 3])
        ctx.trace()
        ctx.step(5)
        ctx.state("em", *map(str, sc))
        if [t for t, _ in out] != ["t"]:
            bad("not one result per time")
        check_em(ctx, S, F, d, out[0][1], c)

    def gen_fixed():
        for n in (1, 2, 3, 4):
            for r in range(1, min(n, 2) + 1):
                for F, d in models(n, r, deep):
                    yield [n, r, F, d]

    def run_fixed(ctx, sc):
        """a model that equals the covariance is left unchanged"""
        n, r, F, d = sc
        F, d = np.array(F, float).reshape(n, r), np.array(d, float)
        S = F @ F.T + np.diag(d)
        c, out = run_em(S, F, d, "str")
        ctx.trace()
        ctx.step(5)
        ctx.state("fix", *map(str, sc))
        g = out[0][1]
        if not (np.abs(g.F.values - F) <= 1e-9 * 10).all() or not (np.abs(g.d.values - d) <= 1e-8).all():
            bad("a model equal to the covariance is changed", F=F.tolist(), d=d, got_F=g.F.values.tolist(), got_d=g.d.values)

    def gen_pipeline():
        for sp in special(deep):
            n = matrix(sp).shape[0]
            if sp[0] in ("sgn", "low") or (sp[0] == "eq" and (abs(sp[2]) > 0.9)):
                continue
            for r in range(1, n):
                if r <= 4 or r == n - 1:
                    for k in (0, 1, 2):
                        yield [sp, r, k]
        for n in (16, 20, 21, 24, 40, 60) + ((100, 150) if deep else ()):
            for sp in (["gen", n, 0], ["gen", n, 3], ["blk", n // 2, 0.6]):
                for r in (1, 2, 5, 10, n // 2 - 1):
                    yield [sp, r, (n + r) % 3]

    def run_pipeline(ctx, sc):
        """from the factor-form regularisation, as used by the package; several units"""
        sp, r, k = sc
        C = scaled(matrix(sp), k)
        f = frame(C, ("str", "int", "rev")[k % 3])
        low = dict(regularize_covariance({"a": f}, r, low_rank_format=True))
        F, d = low["a"].F.values.copy(), low["a"].d.values.copy()
        if (d <= 1e-6 * np.diag(C)).any():
            return
        out = list(em_regularize_covariance({"a": f}, low))
        ctx.trace()
        ctx.step(5)
        ctx.state("pipe", str(sp), r, k)
        check_em(ctx, C, F, d, out[0][1], f.columns)

    def gen_times():
        for m in (0, 1, 2, 3):
            for w in itertools.product(range(3), repeat=m):
                for p in itertools.permutations(range(m)):
                    for extra in (0, 1):
                        yield [list(w), list(p), extra]

    INIT = [
        (np.array([[1.0], [0.5], [-0.2]]), np.array([1.0, 1.0, 0.5])),
        (np.array([[0.3], [-1.0], [0.4]]), np.array([0.5, 2.0, 1.0])),
        (np.array([[2.0, 0.1], [0.0, 1.0], [0.7, 0.7]]), np.array([0.7, 0.6, 0.9])),
    ]

    def run_times(ctx, sc):
        """several times, initial models in any order, with extra entries: each time uses its own model"""
        w, p, extra = sc
        c = H.columns("str", 3)
        times = [f"t{9 - i}" for i in range(len(w))]
        sig = {t: frame(matrix(TARGETS[3][(i + w[i]) % 4])) for i, t in enumerate(times)}
        init = {}
        if extra:
            init["zz"] = Model(pd.DataFrame(INIT[0][0], index=c), pd.Series(INIT[0][1], index=c))
        for j in p:
            F, d = INIT[w[j]]
            init[times[j]] = Model(pd.DataFrame(F, index=c), pd.Series(d, index=c))
        out = list(em_regularize_covariance(sig, init))
        ctx.trace()
        if [t for t, _ in out] != times:
            bad("not one result per time in input order", got=[t for t, _ in out], want=times)
        for i, (t, g) in enumerate(out):
            ctx.step(5)
            ctx.state("times", str(sc), i)
            check_em(ctx, sig[t].values, *INIT[w[i]], g, c, what=f"{t}: ")

    def gen_uneven():
        for n, r in ((2, 1), (2, 2), (3, 2), (4, 2), (4, 3), (6, 3), (12, 4)):
            for k in (0, 1, 2):
                for col in itertools.product((1e-2, 1.0, 30.0), repeat=min(r, 3)):
                    for noise in (1e-3, 1.0) + ((1e-5, 1e2) if deep else ()):
                        for unit in (0, 1):
                            yield [n, r, k, list(col), noise, unit]

    def run_uneven(ctx, sc):
        """factors of very different strength, noise small or large, data with or without the strong factor"""
        n, r, k, col, noise, unit = sc
        i = np.arange(n)
        F0 = np.array([[np.cos((a + 1) * (b + 1) + b) for b in range(r)] for a in i])
        F = F0 * np.array((list(col) + [0.3] * r)[:r])
        d = noise * (0.5 + (i % 3) / 2)
        S = matrix(["gen", n, 1]) if k == 0 else F @ F.T + np.diag(d) * 1.5 if k == 1 else 400 * np.outer(F0[:, 0], F0[:, 0]) + matrix(["gen", n, 2])
        u = 10.0 ** -(i % 3) if unit else np.ones(n)
        S, F, d = S * np.outer(u, u), F * u[:, None], d * u**2
        A, B, a, b = F, F, d, d
        for _ in range(5):  # the two ways to write the step differ by rounding alone: that is how far a result can be trusted
            A, a = em_step(S, A, a)
            G = np.linalg.inv(np.eye(r) + (B.T / b) @ B)
            L = G @ B.T / b
            X = S @ L.T
            B = X @ np.linalg.inv(L @ X + G)
            b = np.diag(S) - (B * X).sum(axis=1)
        s = np.sqrt(np.diag(S))
        if not (np.abs(A - B) <= 1e-9 * s[:, None]).all() or not (np.abs(a - b) <= 1e-9 * s**2).all() or (a <= 1e-9 * s**2).any():
            return
        c, out = run_em(S, F, d, ("str", "rev", "int")[k])
        ctx.trace()
        ctx.step(5)
        ctx.state("uneven", *map(str, sc))
        check_em(ctx, S, F, d, out[0][1], c)

    def gen_missing():
        for m in (1, 2, 3):
            for have in range(2**m - 1):
                for extra in (0, 1):
                    yield [m, have, extra]

    def run_missing(ctx, sc):
        """a time without an initial model is refused, not served with another time's model"""
        m, have, extra = sc
        c = H.columns("str", 3)
        sig = {f"t{i}": frame(matrix(TARGETS[3][i])) for i in range(m)}
        init = {}
        if extra:
            init["zz"] = Model(pd.DataFrame(INIT[0][0], index=c), pd.Series(INIT[0][1], index=c))
        for i in range(m):
            if have >> i & 1:
                init[f"t{i}"] = Model(pd.DataFrame(INIT[i][0], index=c), pd.Series(INIT[i][1], index=c))
        ctx.trace()
        ctx.state("missing", *sc)
        got = []
        try:
            for t, g in em_regularize_covariance(sig, init):
                got.append((t, g))
        except Exception:
            got = [(t, g) for t, g in got if t not in init]
        else:
            got = [(t, g) for t, g in got if t not in init]
        if got:
            bad("a time without an initial model was refined with another model", time=got[0][0], given=list(init))

    return [
        Space("small models", "all integer initial models up to 4 assets and 3 factors x targets", gen_small, run_small),
        Space("fixed points", "all integer models: refining against the model's own covariance", gen_fixed, run_fixed),
        Space("from regularisation", "special matrices up to 12 assets x ranks x units", gen_pipeline, run_pipeline),
        Space("uneven factors", "factor strengths 0.01/1/30 in every combination x noise x data x units", gen_uneven, run_uneven),
        Space("times", "all sequences of up to 3 times x orders of the initial models", gen_times, run_times),
        Space("missing models", "every set of missing initial models, up to 3 times", gen_missing, run_missing),
    ]
