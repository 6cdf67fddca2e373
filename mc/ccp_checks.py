"""C32: convex-concave refinement of factor models (MOSEK, which is not installed, is replaced by CLARABEL)."""

from __future__ import annotations

import contextlib
import itertools
import os
import sys

import cvxpy as cp
import numpy as np

from .code import REPO, quiet
from .engine import Space
from .experts import bad
from .reg_checks import TARGETS, matrix, models

sys.path.insert(0, os.path.join(REPO, "experiments"))
from utils.ccp_regularize import _State, _State2  # noqa: E402


@contextlib.contextmanager
def clarabel():
    orig = cp.Problem.solve

    def solve(self, *args, **kw):
        if args and isinstance(args[0], str) or kw.get("solver") == "MOSEK":
            args, kw = (), {k: v for k, v in kw.items() if k != "solver"}
        return orig(self, *args, solver="CLARABEL", **kw)

    cp.Problem.solve = solve
    try:
        with quiet():
            yield
    finally:
        cp.Problem.solve = orig


def dense(F, d):
    return np.asarray(F, float) @ np.asarray(F, float).T + np.diag(np.asarray(d, float).ravel())


def objective(S, M):
    return np.linalg.slogdet(M)[1] + np.trace(np.linalg.solve(M, S))


def check_model(F, d, n, r, what):
    F, d = np.asarray(F), np.asarray(d)
    if F.shape != (n, r) or d.shape != (n,):
        bad(f"{what}: wrong shapes", F=F.shape, d=d.shape)
    if not np.isfinite(F).all() or not np.isfinite(d).all() or (d <= 0).any():
        bad(f"{what}: not a factor model with positive idiosyncratic variances", F=F.tolist(), d=d)


def represents(ctx, st, S, F, d, what):
    """the state is the model (F, d): build and objective"""
    n, r = F.shape
    with quiet():
        Fb, db = st.build()
        o = st.objective()
    check_model(Fb, db, n, r, what)
    M = dense(F, d)
    s = np.sqrt(np.diag(M))
    ctx.step()
    if (np.abs(dense(Fb, db) - M) > 1e-8 * np.outer(s, s)).any() or (np.abs(db - d) > 1e-8 * np.abs(d)).any():
        bad(f"{what}: the state does not represent the model it was given", want=M.tolist(), got=dense(Fb, db).tolist())
    want = objective(S, M)
    if not abs(o - want) <= 1e-8 * (1 + abs(want) + np.trace(np.linalg.solve(M, S))):
        bad(f"{what}: objective is not log det M + tr(M^-1 S)", got=o, want=want)


def exact_step(S, F0, d0, F1, d1, what):
    """stationarity of the convexified problem at the previous model, in terms of the dense models: diag M1 = diag S and
    M1 E1 M1 - M1 = S (E0 - M0^-1) S with E = diag(1/d)"""
    M0, M1 = dense(F0, d0), dense(F1, d1)
    s = np.sqrt(np.diag(S))
    if (np.abs(np.diag(M1) / s**2 - 1) > 2e-3).any():
        bad(f"{what}: the variances are not those of the covariance", got=np.diag(M1), want=np.diag(S))
    L = M1 @ np.diag(1 / d1) @ M1 - M1
    R = S @ (np.diag(1 / d0) - np.linalg.inv(M0)) @ S
    scale = np.abs(L / np.outer(s, s)).max() + np.abs(R / np.outer(s, s)).max() + 1e-3
    if (np.abs((L - R) / np.outer(s, s)) > 1e-2 * scale).any():
        bad(f"{what}: not the solution of the convexified problem at the previous model", S=S.tolist(), F0=np.asarray(F0).tolist(), d0=d0, F1=np.asarray(F1).tolist(), d1=d1)
    a, b = objective(S, M0), objective(S, M1)
    if b > a + 1e-5 * (1 + abs(a)):
        bad(f"{what}: the likelihood decreased", before=a, after=b)


SPECIAL = [["gen", 3, 0], ["gen", 6, 1], ["gen", 10, 2], ["eq", 4, 0.5], ["eq", 8, 0.2], ["blk", 3, 0.3], ["gen", 20, 3]]


def initial(S, r, kind):
    """an initial model for S: its leading eigenpairs, or something unrelated"""
    n = S.shape[0]
    if kind == "eig":
        w, V = np.linalg.eigh(S)
        F = V[:, -r:] * np.sqrt(0.7 * w[-r:])
        return F, np.diag(S) - (F**2).sum(axis=1)
    k = np.arange(n)[:, None] + 2.0 * np.arange(r)[None, :]
    if kind == "gen":
        return np.sin(1.3 * k + 0.4), 0.5 + np.cos(k[:, 0]) ** 2
    if kind == "weak":
        return 0.01 * np.cos(k), np.full(n, 2.0)
    raise KeyError(kind)


def c32(deep):
    def gen_repr():
        for n in (1, 2, 3, 4):
            for r in range(1, min(n, 3) + 1):
                if n * r > 9:
                    continue
                for k in range(len(TARGETS[n])):
                    for F, d in models(n, r, deep):
                        yield [n, r, k, F, d]

    def run_repr(ctx, sc):
        n, r, k, F, d = sc
        S = matrix(TARGETS[n][k])
        F, d = np.array(F, float).reshape(n, r), np.array(d, float)
        for cls in (_State, _State2):
            args = [x.copy() for x in (S, F, d)]
            st = cls(*args)
            ctx.trace()
            ctx.state(cls.__name__, *map(str, sc))
            represents(ctx, st, S, F, d, cls.__name__)
            if any((a != b).any() for a, b in zip(args, (S, F, d))):
                bad("the inputs were modified")

    def gen_units():
        for k in range(len(SPECIAL)):
            n = matrix(SPECIAL[k]).shape[0]
            for r in (1, 2, 3, 5, n - 1, n):
                if 0 < r <= n:
                    for kind in ("eig", "gen", "weak"):
                        for u in (1e-4, 1e-2, 1.0, 30.0):
                            yield [k, r, kind, u]

    def run_units(ctx, sc):
        k, r, kind, u = sc
        S = matrix(SPECIAL[k])
        F, d = initial(S, r, kind)
        if (d <= 1e-3).any():
            return
        S, F, d = S * u**2, F * u, d * u**2
        for cls in (_State, _State2):
            ctx.trace()
            ctx.state(cls.__name__, *sc)
            represents(ctx, cls(S.copy(), F.copy(), d.copy()), S, F, d, cls.__name__)

    def iterate(ctx, S, F, d, steps, key):
        n, r = F.shape
        st = _State(S.copy(), F.copy(), d.copy())
        with clarabel():
            st.construct_problem()
        ctx.trace()
        for i in range(steps):
            with clarabel():
                st.iterate()
                F1, d1 = st.build()
                o = st.objective()
            ctx.step()
            ctx.state("it", *key, i)
            check_model(F1, d1, n, r, f"step {i}")
            exact_step(S, F, d, F1, d1, f"step {i}")
            want = objective(S, dense(F1, d1))
            if not abs(o - want) <= 1e-6 * (1 + abs(want)):
                bad("objective is not that of the model after a step", got=o, want=want)
            F, d = np.asarray(F1), np.asarray(d1)
        return F, d

    def gen_step():
        for n in (1, 2, 3):
            for r in range(1, min(n, 2) + 1):
                for k in range(len(TARGETS[n])):
                    for i, (F, d) in enumerate(models(n, r, False)):
                        if deep or n * r < 3 or i % 5 == 0:
                            yield [n, r, k, F, d]

    def run_step(ctx, sc):
        n, r, k, F, d = sc
        F, d = np.array(F, float).reshape(n, r), np.array(d, float)
        iterate(ctx, matrix(TARGETS[n][k]), F, d, 2, map(str, sc))

    def gen_long():
        for k in range(len(SPECIAL)):
            n = matrix(SPECIAL[k]).shape[0]
            for r in (1, 2, 5):
                for kind in ("eig", "gen", "weak"):
                    if r < n and (n <= 10 or kind == "eig"):
                        yield [k, r, kind]

    def run_long(ctx, sc):
        k, r, kind = sc
        S = matrix(SPECIAL[k])
        F, d = initial(S, r, kind)
        if (d <= 1e-3).any():
            return
        iterate(ctx, S, F, d, 12 if deep else 4, sc)

    def gen_fixed():
        for n in (1, 2, 3, 4):
            for r in range(1, min(n, 2) + 1):
                for i, (F, d) in enumerate(models(n, r, False)):
                    if any(F) and (deep or n * r < 4 or i % 7 == 0):
                        yield [n, r, F, d]

    def run_fixed(ctx, sc):
        n, r, F, d = sc
        F, d = np.array(F, float).reshape(n, r), np.array(d, float)
        S = dense(F, d)
        F1, d1 = iterate(ctx, S, F, d, 1, map(str, sc))
        if (np.abs(dense(F1, d1) - S) > 1e-2 * np.sqrt(np.outer(np.diag(S), np.diag(S)))).any():
            bad("a model that equals the covariance changes", S=S.tolist(), got=dense(F1, d1).tolist())

    def gen_grad():
        for k in range(len(SPECIAL)):
            n = matrix(SPECIAL[k]).shape[0]
            for r in (1, 2, 3):
                for kind in ("eig", "gen", "weak"):
                    if r < n:
                        yield [k, r, kind]

    def run_grad(ctx, sc):
        """gradient variant, in small units, where unit steps converge: each iteration is 100 of them"""
        k, r, kind = sc
        S = matrix(SPECIAL[k])
        F, d = initial(S, r, kind)
        if (d <= 1e-3).any():
            return
        u = 0.1 / np.sqrt(max(np.linalg.eigvalsh(S)[-1], np.linalg.eigvalsh(dense(F, d))[-1]))
        S, F, d = S * u**2, F * u, d * u**2
        st = _State2(S.copy(), F.copy(), d.copy())
        ctx.trace()
        L = np.linalg.cholesky(np.linalg.inv(np.eye(r) + F.T @ (F / d[:, None])))
        e, G = 1 / d, (F / d[:, None]) @ L
        for i in range(3):
            Gk = G.copy()
            for _ in range(100):
                M = np.linalg.inv(np.diag(e) - G @ G.T)
                e, G = e + np.diag(M) - np.diag(S), G - 2 * (M @ G - S @ Gk)
            if (np.linalg.eigvalsh(np.diag(e) - G @ G.T) <= 0).any():
                return  # the unit steps leave the models: nothing is promised
            with quiet():
                st.iterate()
                F1, d1 = st.build()
            ctx.step()
            ctx.state("grad", *sc, i)
            check_model(F1, d1, *F.shape, f"step {i}")
            M = np.linalg.inv(np.diag(e) - G @ G.T)
            s = np.sqrt(np.diag(M))
            if (np.abs(dense(F1, d1) - M) > 1e-6 * np.outer(s, s)).any() or (np.abs(np.asarray(d1) * e - 1) > 1e-6).any():
                bad(f"step {i} of the gradient variant is not a hundred unit gradient steps on the convexified problem", want=M.tolist(), got=dense(F1, d1).tolist())

    def gen_exact():
        for n in (1, 2, 3):
            for e in itertools.product((-20, -9, -1, 0, 3, 12, 30), repeat=n):
                yield [list(e)]

    def run_exact(ctx, sc):
        """gradient variant: uncorrelated assets, represented exactly by a model without exposures (powers of two, so
        that there is no rounding): nothing changes, whatever the units are"""
        (e,) = sc
        d = 2.0 ** np.array(e)
        for r in range(1, len(e) + 1):
            st = _State2(np.diag(d), np.zeros((len(e), r)), d.copy())
            ctx.trace()
            ctx.state("exact", *e, r)
            for _ in range(2):
                with quiet():
                    st.iterate()
                    F1, d1 = st.build()
                ctx.step()
                check_model(F1, d1, len(e), r, "exact")
                if np.abs(dense(F1, d1) / np.sqrt(np.outer(d, d)) - np.eye(len(e))).max() > 1e-6:
                    bad("a diagonal model that equals the covariance changes", variances=d, F=np.asarray(F1).tolist(), d=d1)

    return [
        Space("exact models", "diagonal covariances with variances 2^-20..2^30 represented exactly: gradient variant", gen_exact, run_exact),
        Space("representation", "all integer models up to 4 assets and 3 factors x targets, both variants: build and objective", gen_repr, run_repr),
        Space("units", "matrices up to 20 assets x ranks x initial models x units 1e-4..30, both variants", gen_units, run_units),
        Space("steps", "integer models up to 3 assets: two steps, each an exact solution of its convexified problem", gen_step, run_step),
        Space("long runs", "matrices up to 20 assets x ranks x initial models: 4 (12) steps", gen_long, run_long),
        Space("fixed points", "integer models refined against their own covariance", gen_fixed, run_fixed),
        Space("gradient steps", "gradient variant in small units: three iterations", gen_grad, run_grad),
    ]
