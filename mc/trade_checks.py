"""C27-C29: portfolio backtests, accounting and optimised portfolios."""

from __future__ import annotations

import contextlib
import io
import itertools
import multiprocessing
import re

import cvxpy as cp
import numpy as np
import pandas as pd
from scipy.optimize import linprog, minimize, minimize_scalar

from . import code
from . import histories as H
from .experts import bad
from .reg_checks import generic_cov

# ------------------------------------------------------------------ stand-ins


class _Result:
    def __init__(self, pool, value=None):
        self.pool, self.value, self.error = pool, value, None

    def get(self, timeout=None):
        self.pool.flush()
        if self.error is not None:
            raise self.error
        return self.value

    def wait(self, timeout=None):
        self.pool.flush()

    def ready(self):
        self.pool.flush()
        return True

    def successful(self):
        return self.error is None


class InProcessPool:
    """multiprocessing.Pool without processes (CLARABEL problems cannot be pickled), under a controlled scheduler:
    `schedule` is the order (of the first jobs) in which jobs run and finish; results come in the order that the
    interface promises, which for imap_unordered and for callbacks is the order in which the jobs finish"""

    schedule = ()

    def __init__(self, *args, **kwargs):
        self.jobs = []

    @classmethod
    def order(cls, n):
        """the first jobs in the scheduled order, the others after them"""
        m = len(cls.schedule)
        return [i for i in cls.schedule if i < n] + list(range(m, n))

    def run(self, f, args):
        args = list(args)
        done = [(i, f(*args[i])) for i in self.order(len(args))]
        return done

    def starmap(self, f, it, chunksize=None):
        return [v for _, v in sorted(self.run(f, it), key=lambda x: x[0])]

    def map(self, f, it, chunksize=None):
        return self.starmap(f, [(a,) for a in it])

    def imap(self, f, it, chunksize=None):
        return iter(self.map(f, it))

    def imap_unordered(self, f, it, chunksize=None):
        return iter([v for _, v in self.run(f, [(a,) for a in it])])

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        r = _Result(self)
        self.jobs.append((r, lambda: f(*args, **kwds), callback, error_callback))
        return r

    def starmap_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        it = list(it)
        r = _Result(self)
        self.jobs.append((r, lambda: self.starmap(f, it), callback, error_callback))
        return r

    def map_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        return self.starmap_async(f, [(a,) for a in it], chunksize, callback, error_callback)

    def flush(self):
        jobs, self.jobs = self.jobs, []
        for i in self.order(len(jobs)):
            r, f, callback, error_callback = jobs[i]
            try:
                r.value = f()
            except Exception as x:
                r.error = x
                if error_callback:
                    error_callback(x)
            else:
                if callback:
                    callback(r.value)

    def close(self):
        pass

    terminate = close

    def join(self):
        self.flush()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.flush()
        return False


_solve = cp.Problem.solve


def _solve_installed(self, *args, **kw):
    if str(kw.get("solver", "")).upper() not in ("", "NONE", "CLARABEL", "SCIPY"):
        kw["solver"] = "CLARABEL"  # ECOS is not installed
    return _solve(self, *args, **kw)


@contextlib.contextmanager
def standins(schedule=()):
    pool = multiprocessing.Pool
    multiprocessing.Pool = InProcessPool
    InProcessPool.schedule = tuple(schedule)
    cp.Problem.solve = _solve_installed
    try:
        with code.quiet():
            yield
    finally:
        multiprocessing.Pool = pool
        InProcessPool.schedule = ()
        cp.Problem.solve = _solve


# ------------------------------------------------------------------ common


def cov_at(n, seed, scale=1e-4):
    return generic_cov(n, seed) * scale


def sigmas(index, cols, seed=0, n=None, family="generic", spread=1.0):
    n = len(cols)
    out = {}
    for k, t in enumerate(index):
        out[t] = pd.DataFrame(cov_of(family, n, seed + 3 * k) * spread, index=cols, columns=cols)
    return out


def cov_of(family, n, seed):
    if family == "generic":
        return cov_at(n, seed)
    if family == "diag":
        return np.diag(1e-4 * (1 + np.arange(n)) * np.exp(np.sin(seed)))
    if family == "eye":
        return 1e-4 * np.eye(n) * (1 + 0.1 * seed)
    if family == "equi":
        return 2e-4 * (0.6 * np.ones((n, n)) + 0.4 * np.eye(n)) * (1 + 0.05 * seed)
    if family == "hedge":  # strongly correlated, very different volatilities: short positions pay
        s = 0.01 * (1 + np.arange(n))
        return (0.85 * np.ones((n, n)) + 0.15 * np.eye(n)) * np.outer(s, s) * (1 + 0.02 * seed)
    if family == "perm":  # the same matrix at each time, for another order of the assets
        s = np.sqrt(1 + np.arange(n))
        p = np.roll(np.arange(n), seed // 3)
        return (cov_at(n, 1) * np.outer(s, s))[np.ix_(p, p)]
    if family == "wild":  # ill-scaled
        s = 10.0 ** (-1 - np.arange(n) % 3)
        C = cov_at(n, seed, 1.0)
        d = np.sqrt(np.diag(C))
        return C / np.outer(d, d) * np.outer(s, s)
    raise KeyError(family)


def frame(n, T, label="date", cols="str", unit=0.01):
    return H.frame(H.generic(T, n, unit), label, cols)


def close(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.isfinite(a).all() and (np.abs(a - b) <= tol).all()


# ------------------------------------------------------------------ reference portfolios and optimality


def vol(w, S):
    return float(np.sqrt(w @ S @ w))


class Polytope:
    """{v : sum v = 1, |v|_1 <= short_lim, v <= upper, v >= lower}, v = p - m"""

    def __init__(self, n, add, budget=True):
        self.n, self.add, self.budget = n, dict(add), budget

    def linear(self, c, cabs=None, box=None):
        """min c.v + cabs.|v| over the polytope (cabs >= 0)"""
        n = self.n
        cabs = np.zeros(n) if cabs is None else cabs
        I = np.eye(n)
        A, b = [], []
        if "short_lim" in self.add:
            A.append(np.ones((1, 2 * n)))
            b.append([self.add["short_lim"]])
        if "upper_bound" in self.add:
            A.append(np.hstack([I, -I]))
            b.append(np.full(n, self.add["upper_bound"]))
        if "lower_bound" in self.add:
            A.append(np.hstack([-I, I]))
            b.append(np.full(n, -self.add["lower_bound"]))
        Aeq = np.hstack([np.ones((1, n)), -np.ones((1, n))]) if self.budget else None
        r = linprog(
            np.concatenate([c + cabs, -c + cabs]),
            A_ub=np.vstack(A) if A else None,
            b_ub=np.concatenate(b) if b else None,
            A_eq=Aeq,
            b_eq=[1.0] if self.budget else None,
            bounds=[(0, box)] * (2 * n),
            method="highs",
        )
        if r.status == 3:
            return -np.inf
        if r.status != 0:
            raise RuntimeError(f"reference LP: {r.message}")
        return r.fun

    def check(self, w, who, tol=1e-5):
        if not np.isfinite(w).all():
            bad(f"{who}: weights are not finite", w=w)
        if self.budget and abs(w.sum() - 1) > tol:
            bad(f"{who}: weights do not sum to one", w=w, sum=w.sum())
        a = self.add
        if "short_lim" in a and np.abs(w).sum() > a["short_lim"] + tol * len(w):
            bad(f"{who}: leverage limit exceeded", w=w, leverage=np.abs(w).sum(), limit=a["short_lim"])
        if "upper_bound" in a and w.max() > a["upper_bound"] + tol:
            bad(f"{who}: upper bound exceeded", w=w, bound=a["upper_bound"])
        if "lower_bound" in a and w.min() < a["lower_bound"] - tol:
            bad(f"{who}: lower bound exceeded", w=w, bound=a["lower_bound"])


def search(value, w, add, budget=True, more=()):
    """smallest value found by a local search over the (convex) feasible set of v = p - m, started at w and beside it:
    called when the linear bound is too coarse to certify w, so that an alarm always has an actual better portfolio"""
    n = len(w)
    cons = []
    if budget:
        cons.append(dict(type="eq", fun=lambda x: (x[:n] - x[n:]).sum() - 1))
    if "short_lim" in add:
        cons.append(dict(type="ineq", fun=lambda x: add["short_lim"] - x.sum()))
    if "upper_bound" in add:
        cons.append(dict(type="ineq", fun=lambda x: add["upper_bound"] - (x[:n] - x[n:])))
    if "lower_bound" in add:
        cons.append(dict(type="ineq", fun=lambda x: (x[:n] - x[n:]) - add["lower_bound"]))
    cons += [dict(type="ineq", fun=lambda x, g=g: g(x[:n] - x[n:])) for g in more]
    best, arg = np.inf, None
    for u in (w, np.full(n, 1 / n), 0.9 * w + 0.1 / n):
        x0 = np.concatenate([np.maximum(u, 0), np.maximum(-u, 0)])
        r = minimize(lambda x: value(x[:n] - x[n:], x[:n] + x[n:]), x0, bounds=[(0, BOX)] * (2 * n), constraints=cons, method="SLSQP", options=dict(maxiter=400, ftol=1e-12))
        x = r.x
        ok = all(np.all(np.abs(c["fun"](x)) < 1e-7) if c["type"] == "eq" else np.all(np.asarray(c["fun"](x)) > -1e-7) for c in cons)
        if ok and r.fun < best:
            best, arg = r.fun, x[:n] - x[n:]
    return best, arg


BOX = 20  # the reference bounds look no further than this in unbounded directions
REL = 2e-4


def check_min_risk(w, S, add, obj=None, kappa=0.0, who="min_risk"):
    n = len(S)
    P = Polytope(n, add)
    P.check(w, who)
    s = np.sqrt(np.diag(S))
    risk = vol(w, S)
    g = S @ w / risk
    u = float(s @ np.abs(w))
    if not {"short_lim", "upper_bound", "lower_bound"} & set(add) and not kappa:
        x = np.linalg.solve(S, np.ones(n))
        best = vol(x / x.sum(), S)
    else:
        # convexity: every feasible v has objective >= here + g.(v - w) + 2 kappa u (s|v| - u)
        low = P.linear(g, 2 * kappa * u * s, BOX)
        best = risk + kappa * u * u + low - g @ w - 2 * kappa * u * u
    here = risk + kappa * u * u
    if here - best > REL * here:
        val, v = search(lambda v, a: (np.sqrt(max(v @ S @ v, 1e-300)) + kappa * (s @ a) ** 2) / here, w, add)
        if val < 1 - REL:
            bad(f"{who}: not optimal, a feasible portfolio is better", w=w, objective=here, better=v, value=val * here, constraints=add)
    if obj is not None and abs(obj - here) > 1e-4 * here:
        bad(f"{who}: reported objective is not the objective of the weights", got=obj, want=here)


def check_mean_variance(w, S, r, add, sigma, rho=None, obj=None):
    n = len(S)
    who = "mean_variance"
    if not np.isfinite(w).all() or abs(w.sum() - 1) > 1e-5:
        bad(f"{who}: weights and cash do not sum to one", w=w)
    v = w[:n]
    rho = np.zeros(n) if rho is None else rho
    P = Polytope(n, add, budget=False)
    P.check(v, who)
    lim = sigma / np.sqrt(252)
    risk = vol(v, S)
    if risk > lim * (1 + 1e-4):
        bad(f"{who}: risk limit exceeded", w=w, risk=risk * np.sqrt(252), limit=sigma)
    here = float(r @ v - rho @ np.abs(v))
    g = S @ v / max(risk, 1e-300)

    def gap(lam):
        return -P.linear(-(r - lam * g), rho, BOX) - here - lam * (g @ v) + lam * (lim - risk)

    # a multiplier of the risk limit certifies optimality; the gap is convex in it
    hi = 4 * (np.abs(r).max() + np.abs(rho).max() + 1e-12) * np.sqrt(n) / np.sqrt(np.linalg.eigvalsh(S)[0])
    grid = [0.0]
    x = minimize_scalar(gap, bounds=(0, hi), method="bounded", options=dict(xatol=1e-12 * hi, maxiter=200))
    # refine around the minimum: the exact multiplier when no other constraint is active
    grid.append(float(x.x))
    if risk > 0:
        h = g @ (r - rho * np.sign(v)) / (g @ g) if g @ g > 0 else 0.0
        grid.append(max(h, 0.0))
        s = np.sign(v) * (np.abs(v) > 1e-6)
        for q in ((r - rho * s), r):
            grid.append(float(np.sqrt(max(q @ np.linalg.solve(S, q), 0))))
    best = min(gap(t) for t in grid)
    scale = abs(here) + np.abs(r).max() * 1e-3
    if best > 1e-3 * scale:
        val, x = search(lambda v, a: -(r @ v - rho @ a) / scale, v, add, False, [lambda v: (lim - np.sqrt(max(v @ S @ v, 1e-300))) / lim])
        if -val > here / scale + 1e-3:
            bad(f"{who}: not optimal, a feasible portfolio is better", w=w, value=here, better=x, its=-val * scale, constraints=add, sigma=sigma, r=r, rho=rho)
    if obj is not None and abs(obj - here) > 1e-5 * scale + 1e-12:
        bad(f"{who}: reported objective is not the objective of the weights", got=obj, want=here)


def check_ratio(w, S, c, M, who):
    """long-only (with w <= M) maximiser of c.w / risk"""
    n = len(S)
    if not np.isfinite(w).all() or abs(w.sum() - 1) > 1e-5:
        bad(f"{who}: weights do not sum to one", w=w)
    if w.min() < -1e-5 or (M is not None and w.max() > M + 1e-5):
        bad(f"{who}: bounds violated", w=w, upper=M)
    cw = c @ w
    if not cw > 0:
        bad(f"{who}: not optimal (nonpositive numerator)", w=w)
    z = w / cw
    risk = vol(z, S)
    g = S @ z / risk
    A = b = None
    if M is not None:
        A, b = np.eye(n) - M * np.ones((n, n)), np.zeros(n)
    r = linprog(g, A_ub=A, b_ub=b, A_eq=c[None, :], b_eq=[1.0], bounds=[(0, 50 * max(1.0, np.abs(z).max()))] * n, method="highs")
    if r.status != 0:
        raise RuntimeError(f"reference LP: {r.message}")
    if g @ z - r.fun > REL * risk:
        add = {"lower_bound": 0.0} if M is None else {"lower_bound": 0.0, "upper_bound": M}
        val, v = search(lambda v, a: -(c @ v) / np.sqrt(max(v @ S @ v, 1e-300)) * risk, w, add)
        if -val > 1 + REL:
            bad(f"{who}: not optimal, a feasible portfolio is better", w=w, ratio=1 / risk, better=v, its=-val / risk)


def check_parity(w, S):
    if not np.isfinite(w).all() or abs(w.sum() - 1) > 1e-5 or w.min() <= 0:
        bad("risk_parity: weights are not positive with sum one", w=w)
    c = w * (S @ w)
    if np.abs(c - c.mean()).max() > 2e-3 * c.mean():
        bad("risk_parity: risk contributions are not equal", w=w, contributions=c)


def check_vol_cont(w, S, add, sigma, adjust=1.0):
    n = len(S)
    if w.shape != (n + 1,) or not np.isfinite(w).all() or abs(w.sum() - 1) > 1e-5:
        bad("vol_cont: weights and cash do not sum to one", w=w)
    v = w[:n]
    risk = vol(v, S) * np.sqrt(252)
    want = sigma * np.sqrt(adjust)
    if abs(risk - want) > 1e-3 * want:
        bad("vol_cont: predicted volatility is not the target", got=risk, want=want)
    check_min_risk(v / v.sum(), S, add, who="vol_cont (risky part)")
    if not v.sum() > 0:
        bad("vol_cont: the risky part is short the minimum risk portfolio", w=w)


# ------------------------------------------------------------------ C27


def c27(deep):
    with standins():
        import experiments.utils.portfolio_backtests as pb
        from experiments.utils.trading_model import metrics as Metrics

    ADD = {"short_lim": 3.0, "upper_bound": 2.0, "lower_bound": -2.0}

    def reference(f, idx, keys, start, end):
        """-> list of (t, next row) traded, or None if the request must be rejected"""
        if not set(keys) <= set(idx):
            return None
        if (start is not None and start not in keys) or (end is not None and end not in keys):
            return None
        s = start if start is not None else keys[0]
        e = end if end is not None else keys[-1]
        pos = {t: i for i, t in enumerate(idx)}
        out = []
        for i in range(pos[s], pos[e]):
            if np.isfinite(f.values[i + 1]).all():
                if idx[i] not in keys:
                    return None
                out.append((idx[i], i + 1))
        return out

    def compare(ctx, tr, f, cov, ref, mu=None, who=""):
        if [t for t, _ in ref] != list(tr.returns.index):
            bad(f"{who}: traded dates differ", got=[str(t) for t in tr.returns.index], want=[str(t) for t, _ in ref])
        if list(tr.returns.columns) != list(f.columns):
            bad(f"{who}: assets differ", got=list(tr.returns.columns))
        if tr.ws.shape[0] != len(ref):
            bad(f"{who}: not one portfolio per traded date", got=tr.ws.shape)
        for k, (t, j) in enumerate(ref):
            ctx.step()
            if not np.array_equal(tr.returns.values[k], f.values[j]):
                bad(f"{who}: the portfolio of {t} does not earn the return of the next row", got=tr.returns.values[k], want=f.values[j])
            if not np.array_equal(np.asarray(tr.Sigma_hats[t]), cov[t].values):
                bad(f"{who}: the covariance of {t} is not the prediction of {t}", got=np.asarray(tr.Sigma_hats[t]).tolist(), want=cov[t].values.tolist())
            if mu is not None and not np.array_equal(tr.r_hats.loc[t].values.astype(float), mu.loc[t].values):
                bad(f"{who}: the mean of {t} is not the prediction of {t}", got=tr.r_hats.loc[t].values, want=mu.loc[t].values)

    def earned(tr, f, cov, ref, weights, who):
        """the portfolio return itself"""
        m = tr.get_metrics()
        got = np.array(tr.rets, float).flatten()
        want = np.array([float(w @ f.values[j]) for w, (_, j) in zip(weights, ref)])
        if not close(got, want, 2e-5 * np.nanmax(np.abs(f.values))):
            bad(f"{who}: portfolio returns differ", got=got, want=want)
        if not np.isclose(m.mean_return, want.mean() * 252, rtol=1e-2, atol=1e-2 * np.abs(want).max() * 252):
            bad(f"{who}: mean return differs", got=m.mean_return, want=want.mean() * 252)

    # --- alignment: every availability pattern, every range (no optimisation)
    T0 = 6 if not deep else 7

    def gen_align():
        for T in range(3, T0 + 1):
            for mask in range(3, 2**T):
                if bin(mask).count("1") < 2:
                    continue
                keys = [i for i in range(T) if mask >> i & 1]
                opts = [None] + list(range(T))
                for s in opts:
                    for e in opts:
                        a = s if s is not None else keys[0]
                        b = e if e is not None else keys[-1]
                        if b - a < 1:
                            continue
                        yield [T, mask, s, e, []]
                if mask == 2**T - 1:
                    for miss in range(T):
                        for s, e in [(None, None), (1, None), (None, T - 2), (0, T - 1)]:
                            yield [T, mask, s, e, [miss]]

    def run_align(ctx, sc):
        T, mask, s, e, miss, *rows = sc
        label = ("date", "str", "int7", "float", "tz", "gaps", "month", "neg")[(mask + (s or 0)) % 8]
        X = H.generic(T, 2)
        for i in miss:
            X[i, i % 2] = np.nan
        for i, c in enumerate(rows[0] if rows else ""):
            X[i] = {".": X[i], "z": 0.0, "s": X[max(i - 1, 0)], "h": 1e4 * X[i], "t": 1e-9 * X[i], "l": -1.0}[c]
        f = H.frame(X, label)
        idx = list(f.index)
        keys = [idx[i] for i in range(T) if mask >> i & 1]
        start, end = (None if q is None else idx[q] for q in (s, e))
        cov = sigmas(keys, f.columns)
        ref = reference(f, idx, keys, start, end)
        ctx.trace()
        ctx.state("align", *map(str, sc))
        try:
            with standins():
                out = pb.EqWeighted(f, [cov], ["one"], start_date=start, end_date=end).backtest()
        except Exception as x:
            if ref is not None and len(ref):
                bad("a valid backtest was rejected", error=repr(x), start=str(start), end=str(end), dates=[str(k) for k in keys])
            return
        if ref is None:
            bad("a backtest with missing predictions was not rejected", start=str(start), end=str(end), dates=[str(k) for k in keys])
        ctx.hit("align", T, mask, s, e)
        if list(out) != ["one"]:
            bad("wrong names", got=list(out))
        compare(ctx, out["one"], f, cov, ref, who="eq_weighted")
        if not np.allclose(out["one"].ws, 0.5, rtol=0, atol=1e-15):
            bad("eq_weighted: weights are not equal", got=out["one"].ws)
        with standins():
            earned(out["one"], f, cov, ref, [np.array([0.5, 0.5])] * len(ref), "eq_weighted")

    def gen_rows():
        for T in (3, 4, 5):
            for w in H.words(".zshtl" if T < 5 else ".zs", [T]):
                yield [T, 2**T - 1, None, None, [], w]
                if "z" in w and T > 3:
                    yield [T, 2**T - 1, 1, T - 1, [], w]

    # --- predictors dated outside the returns
    def gen_reject():
        for pos in (-1, 2, 9):
            for which in (0, 1, 2):
                yield ["outside", pos, which]
        for kind in ("start", "end"):
            for where in ("before", "after", "between"):
                yield [kind, where, 0]

    def run_reject(ctx, sc):
        kind, what, which = sc
        f = frame(2, 6)
        covs = [sigmas(f.index, f.columns, seed=i) for i in range(3)]
        kw = {}
        day = pd.Timestamp("2020-01-01")
        if kind == "outside":
            t = day + pd.Timedelta(days=what) + pd.Timedelta(hours=6)
            items = list(covs[which].items())
            items.insert(max(what, 0), (t, list(covs[which].values())[0]))
            covs[which] = dict(sorted(items))
        else:
            t = {"before": day - pd.Timedelta(days=3), "after": day + pd.Timedelta(days=30), "between": day + pd.Timedelta(hours=60)}[what]
            kw = {f"{kind}_date": t}
        ctx.trace()
        ctx.state("reject", *map(str, sc))
        try:
            with standins():
                pb.EqWeighted(f, covs, ["a", "b", "c"], **kw).backtest()
        except Exception:
            return
        bad("a predictor dated outside the returns (or a start or end date without prediction) was not rejected", kind=kind, what=what)

    # --- every class, several predictors
    KINDS = ["eq", "min", "div", "par", "mv", "mvr"]

    def gen_classes():
        for kind in KINDS:
            for n in (2, 3):
                for s, e in itertools.product((None, 1, 2), (None, 3, 4)):
                    for np_ in (1, 2, 3):
                        for miss in (0, 1):
                            yield [kind, n, s, e, np_, miss]

    def run_classes(ctx, sc):
        kind, n, s, e, npred, miss = sc
        T = 6
        X = H.generic(T, n)
        if miss:
            X[3, 0] = np.nan
        f = H.frame(X, "date", ("str", "int", "rev")[npred - 1])
        idx = list(f.index)
        start, end = (None if q is None else idx[q] for q in (s, e))
        names = ["two", "one", "PRESCIENT"][:npred]
        # predictors start on different dates; the last covers what is asked for
        ranges = [idx, idx, idx]
        covs = [sigmas(ranges[i], f.columns, seed=7 * i) for i in range(npred)]
        mus = [H.frame(H.generic(T, n, 0.001)[:, ::-1] * (1 + i) + 0.0004 * i, "date", ("str", "int", "rev")[npred - 1]) for i in range(npred)]
        rhos = H.frame(np.abs(H.generic(T, n, 0.0002)), "date", ("str", "int", "rev")[npred - 1])
        keep = [f.copy(), [c.copy() for c in mus], dict(ADD)]
        kw = dict(start_date=start, end_date=end)
        if not reference(f, idx, idx, start, end):
            return
        ctx.trace(npred)
        ctx.state("classes", *map(str, sc))
        with standins():
            if kind == "eq":
                out = pb.EqWeighted(f, covs, names, **kw).backtest()
            elif kind == "min":
                out = pb.MinRisk(f, covs, names, **kw).backtest(ADD)
            elif kind == "div":
                out = pb.MaxDiverse(f, covs, names, **kw).backtest({"upper_bound": 0.8})
            elif kind == "par":
                out = pb.RiskParity(f, covs, names, **kw).backtest()
            else:
                out = pb.MeanVariance(f, covs, names, mus, **kw).backtest(ADD, 0.1, **({"rhos": rhos} if kind == "mvr" else {}))
        pd.testing.assert_frame_equal(f, keep[0])
        for a, b in zip(mus, keep[1]):
            pd.testing.assert_frame_equal(a, b)
        if list(out) != names:
            bad("wrong names", got=list(out), want=names)
        for i, name in enumerate(names):
            tr = out[name]
            ref = reference(f, idx, idx, start, end)
            compare(ctx, tr, f, covs[i], ref, mus[i] if kind[:2] == "mv" else None, f"{kind} {name}")
            for k, (t, j) in enumerate(ref):
                w, S = np.asarray(tr.ws[k], float), covs[i][t].values
                if kind == "eq":
                    if not close(w, np.full(n, 1 / n), 1e-12):
                        bad("eq: weights are not equal", got=w)
                elif kind == "min":
                    check_min_risk(w, S, ADD)
                elif kind == "div":
                    check_ratio(w, S, np.sqrt(np.diag(S)), 0.8, "max_diverse")
                elif kind == "par":
                    check_parity(w, S)
                else:
                    check_mean_variance(w, S, mus[i].loc[t].values, ADD, 0.1, rhos.loc[t].values if kind == "mvr" else None)
            with standins():
                earned(tr, f, covs[i], ref, [np.asarray(w)[:n] for w in tr.ws], kind)

    def gen_many():
        for kind in KINDS:
            for npred in (4, 5, 7):
                for s, e in ((None, None), (1, 3)):
                    yield [kind, npred, s, e]
        yield ["eq", 30, None, None]

    def run_many(ctx, sc):
        """every predictor is reported under its own name, however many there are"""
        kind, npred, s, e = sc
        f = frame(2, 5)
        idx = list(f.index)
        covs = [sigmas(idx, f.columns, seed=7 * i) for i in range(npred)]
        mus = [H.frame(H.generic(5, 2, 0.001)[:, ::-1] * (1 + i) + 0.0004 * i) for i in range(npred)]
        rhos = f * 0 + 0.0002
        names = [f"n{(11 * i) % npred}" for i in range(npred)]
        start, end = (None if q is None else idx[q] for q in (s, e))
        kw = dict(start_date=start, end_date=end)
        cls = {"eq": pb.EqWeighted, "min": pb.MinRisk, "div": pb.MaxDiverse, "par": pb.RiskParity, "mv": pb.MeanVariance, "mvr": pb.MeanVariance}[kind]
        ctx.trace(npred)
        ctx.state("many", *map(str, sc))
        with standins():
            obj = cls(f, covs, names, *([mus] if kind[:2] == "mv" else []), **kw)
            args = {"eq": (), "par": (), "min": (ADD,), "div": ({"upper_bound": 0.8},), "mv": (ADD, 0.1), "mvr": (ADD, 0.1)}[kind]
            out = obj.backtest(*args, **({"rhos": rhos} if kind == "mvr" else {}))
        if list(out) != names:
            bad("wrong names", got=list(out), want=names)
        ref = reference(f, idx, idx, start, end)
        for i, name in enumerate(names):
            compare(ctx, out[name], f, covs[i], ref, mus[i] if kind[:2] == "mv" else None, f"{kind} {name}")
            for k, (t, j) in enumerate(ref):
                w, S = np.asarray(out[name].ws[k], float), covs[i][t].values
                if kind == "min":
                    check_min_risk(w, S, ADD)
                elif kind == "div":
                    check_ratio(w, S, np.sqrt(np.diag(S)), 0.8, "max_diverse")
                elif kind == "par":
                    check_parity(w, S)
                elif kind != "eq":
                    check_mean_variance(w, S, mus[i].loc[t].values, ADD, 0.1, np.full(2, 0.0002) if kind == "mvr" else None)

    # --- one predictor object used under several names
    def gen_shared():
        part = [p for p in itertools.product(range(3), repeat=3) if all(p[i] <= max((-1, *p[:i])) + 1 for i in range(3))]
        for cp in part:
            for mp in part:
                for kind in ("eq", "min", "mv", "mvr") if cp != (0, 1, 2) or mp != (0, 1, 2) else ():
                    if kind[0] == "m" and kind != "min" or mp == (0, 0, 0):
                        yield [kind, list(cp), list(mp)]

    def run_shared(ctx, sc):
        kind, cp, mp = sc
        f = frame(2, 5)
        idx = list(f.index)
        S = [sigmas(idx, f.columns, seed=7 * i) for i in range(3)]
        M = [H.frame(H.generic(5, 2, 0.001)[:, ::-1] * (1 + i) + 0.0004 * i) for i in range(3)]
        covs, mus = [S[i] for i in cp], [M[i] for i in mp]
        names = ["c", "a", "b"]
        ctx.trace(3)
        ctx.state("shared", *map(str, sc))
        with standins():
            if kind == "eq":
                out = pb.EqWeighted(f, covs, names).backtest()
            elif kind == "min":
                out = pb.MinRisk(f, covs, names).backtest(ADD)
            else:
                rhos = {"rhos": f * 0 + 0.0002} if kind == "mvr" else {}
                out = pb.MeanVariance(f, covs, names, mus).backtest(ADD, 0.1, **rhos)
        ref = reference(f, idx, idx, None, None)
        for i, name in enumerate(names):
            compare(ctx, out[name], f, covs[i], ref, mus[i] if kind[:2] == "mv" else None, f"{kind} {name}")
            for k, (t, j) in enumerate(ref):
                w, C = np.asarray(out[name].ws[k], float), covs[i][t].values
                if kind == "min":
                    check_min_risk(w, C, ADD)
                elif kind != "eq":
                    check_mean_variance(w, C, mus[i].loc[t].values, ADD, 0.1, np.full(2, 0.0002) if kind == "mvr" else None)

    # --- the same backtest object run again
    def gen_again():
        for kind in KINDS:
            for npred in (1, 2, 3):
                for s in (None, 1):
                    yield [kind, npred, s]

    def run_again(ctx, sc):
        kind, npred, s = sc
        f = frame(2, 5)
        idx = list(f.index)
        covs = [sigmas(idx, f.columns, seed=7 * i) for i in range(npred)]
        mus = [H.frame(H.generic(5, 2, 0.001)[:, ::-1] * (1 + i) + 0.0004 * i) for i in range(npred)]
        rhos = f * 0 + 0.0002
        names = ["c", "a", "b"][:npred]
        kw = dict(start_date=None if s is None else idx[s])
        cls = {"eq": pb.EqWeighted, "min": pb.MinRisk, "div": pb.MaxDiverse, "par": pb.RiskParity, "mv": pb.MeanVariance, "mvr": pb.MeanVariance}[kind]
        args = (f, covs, names, mus) if kind[:2] == "mv" else (f, covs, names)
        ADD2 = {"short_lim": 1.5, "upper_bound": 0.9, "lower_bound": -0.3}

        def go(obj, i):
            """the i-th use: other constraints and risk targets in between"""
            if kind in ("eq", "par"):
                return obj.backtest()
            if kind == "min":
                return obj.backtest((ADD, ADD2)[i % 2])
            if kind == "div":
                return obj.backtest({"upper_bound": (0.8, 0.6)[i % 2]})
            return obj.backtest((ADD, ADD2)[i % 2], (0.1, 0.05)[i % 2], **({"rhos": rhos} if kind == "mvr" else {}))

        keep = list(covs), list(mus), list(names)
        ref = reference(f, idx, idx, kw["start_date"], None)
        with standins():
            obj = cls(*args, **kw)
            for i in range(4):
                got, fresh = go(obj, i), go(cls(*args, **kw), i)
                ctx.trace(2)
                ctx.step()
                ctx.state("again", *map(str, sc), i)
                if list(got) != names:
                    bad("wrong names on a repeated backtest", got=list(got), want=names)
                for j, k in enumerate(names):
                    compare(ctx, got[k], f, covs[j], ref, mus[j] if kind[:2] == "mv" else None, f"{kind} {k}, run {i}")
                    if not close(np.array(got[k].ws, float), np.array(fresh[k].ws, float), 1e-6):
                        bad("a repeated backtest differs from that of a new object", kind=kind, name=k, run=i)
        for a, b in zip((covs, mus, names), keep):
            if len(a) != len(b) or any(x is not y for x, y in zip(a, b)):
                bad("the caller's lists were modified")

    # --- results table
    def gen_table():
        names = ["RW", "EWMA", "MGARCH"]
        for m in (4, 5, 6, 9):
            for at in (None, 0, 2, m):
                order = [f"{'zqa'[i % 3]}{i}" for i in range(m)]
                if at is not None:
                    order.insert(at, "PRESCIENT")
                for cfg in range(4):
                    yield [order, at is not None, cfg]
        for m in range(0, 4):
            for perm in itertools.permutations(names[:m]):
                for at in [None] + list(range(m + 1)):
                    order = list(perm)
                    if at is not None:
                        order.insert(at, "PRESCIENT")
                    if order:
                        for cfg in range(4):
                            yield [order, at is not None, cfg]

    def run_table(ctx, sc):
        names, prescient, cfg = sc
        calls = {}
        vals = {}

        class T:
            def __init__(self, k):
                self.k = k

            def get_metrics(self, diluted_with_cash=False, sigma_des=0.1, rf=None, excess=False):
                calls[self.k] = (diluted_with_cash, sigma_des, rf, excess)
                return vals[self.k]

        for i, k in enumerate(names):
            vals[k] = Metrics(0.011 + 0.1 * ((3 * i) % 7), 0.12 + 0.01 * ((5 * i) % 9), 0.3 + (4 * i) % 11, 0.21 + 0.03 * ((2 * i) % 5))
        sigma, excess = [(None, False), (0.1, False), (0.2, True), (None, True)][cfg]
        rf = None if not excess else pd.Series([0.0])
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            pb.create_table({k: T(k) for k in names}, sigma, rf, excess, prescient)
        ctx.trace()
        ctx.state("table", str(sc))
        rows = []
        for line in buf.getvalue().splitlines():
            m = re.match(r"\s*(\S+) & (-?[\d.]+)\\% & (-?[\d.]+)\\% & (-?[\d.]+) & (-?[\d.]+)\\%", line)
            if m:
                rows.append((m[1], *(float(x) for x in m.groups()[1:])))
        order = [k for k in names if k != "PRESCIENT"] + (["PRESCIENT"] if prescient else [])
        want = [(k, round(vals[k][0] * 100, 1), round(vals[k][1] * 100, 1), round(vals[k][2], 1), float(f"{vals[k][3] * 100:.0f}")) for k in order]
        if [r[0] for r in rows] != order:
            bad("results table: wrong rows", got=[r[0] for r in rows], want=order)
        for g, w in zip(rows, want):
            if any(abs(a - b) > 0.051 for a, b in zip(g[1:4], w[1:4])) or abs(g[4] - w[4]) > 0.51:
                bad("results table: wrong metrics", got=g, want=w)
        for k in names:
            d, s, r, e = calls[k]
            if bool(d) != bool(sigma) or (sigma and s != sigma) or r is not rf or bool(e) != excess:
                bad("results table: metrics were not computed with the given arguments", name=k, got=str(calls[k]))

    def gen_tables():
        ARGS = [(None, False), (0.1, False), (0.3, False), (0.1, True), (None, True), (0.02, False)]
        for a in range(len(ARGS)):
            for b in range(len(ARGS)):
                for c in range(len(ARGS)) if deep else ((a + b) % len(ARGS),):
                    for kind in ("eq", "min"):
                        yield [[list(ARGS[i]) for i in (a, b, c)], kind]

    def run_tables(ctx, sc):
        """successive tables of the same traders, against the metrics of fresh ones"""
        args, kind = sc
        f = frame(2, 6)

        def traders():
            with standins():
                p = (pb.EqWeighted if kind == "eq" else pb.MinRisk)(f, [sigmas(f.index, f.columns, seed=i) for i in range(2)], ["a", "b"])
                return p.backtest() if kind == "eq" else p.backtest(ADD)

        ts = traders()
        rf = pd.Series(np.abs(H.generic(5, 1, 1e-4))[:, 0], index=ts["a"].returns.index)
        for sigma, excess in args:
            buf, fresh = io.StringIO(), io.StringIO()
            with standins():
                with contextlib.redirect_stdout(buf):
                    pb.create_table(ts, sigma, rf, excess, False)
                with contextlib.redirect_stdout(fresh):
                    pb.create_table(traders(), sigma, rf, excess, False)
            ctx.trace(2)
            ctx.step()
            ctx.state("tables", str(sc), sigma, excess)
            if buf.getvalue() != fresh.getvalue():
                bad("a table depends on the tables made before", sequence=args, at=(sigma, excess), got=buf.getvalue(), want=fresh.getvalue())

    # --- predictors that cover different dates
    def gen_cover():
        T = 5
        for m1 in range(1, 2**T):
            for m2 in range(1, 2**T):
                if deep or (m1 * 7 + m2) % 3 == 0 or m1 == 2**T - 1 or m2 == 2**T - 1:
                    for s, e in [(0, 4), (1, 3), (1, 4)]:
                        yield [m1, m2, s, e]

    def run_cover(ctx, sc):
        m1, m2, s, e = sc
        f = frame(2, 5)
        idx = list(f.index)
        keys = [[idx[i] for i in range(5) if m >> i & 1] for m in (m1, m2)]
        covs = [sigmas(k, f.columns, seed=i) for i, k in enumerate(keys)]
        refs = [reference(f, idx, k + [idx[e]] * (idx[e] not in k), idx[s], idx[e]) for k in keys]
        good = all(r is not None for r in refs) and idx[s] in keys[1] and idx[e] in keys[1]
        ctx.trace()
        ctx.state("cover", *sc)
        try:
            with standins():
                out = pb.EqWeighted(f, covs, ["a", "b"], start_date=idx[s], end_date=idx[e]).backtest()
        except Exception as x:
            if good:
                bad("a valid backtest was rejected", error=repr(x), dates=[[str(t) for t in k] for k in keys])
            return
        if any(r is None for r in refs):
            bad("a predictor with missing predictions within the range was not rejected", dates=[[str(t) for t in k] for k in keys])
        ctx.hit("cover", *sc)
        for i, k in enumerate("ab"):
            compare(ctx, out[k], f, covs[i], refs[i], who=k)

    # --- long histories, many assets
    def gen_large():
        for T, n, kind in [(120, 3, "eq"), (300, 2, "eq"), (30, 60, "eq"), (25, 12, "min"), (60, 3, "min"), (20, 10, "mv"), (45, 3, "mv"), (20, 12, "par")]:
            for s, e in ((None, None), (T // 3, None), (None, T - 4), (T // 4, T // 2)):
                for holes in (0, 1):
                    yield [T, n, kind, s, e, holes]

    def run_large(ctx, sc):
        T, n, kind, s, e, holes = sc
        X = H.generic(T, n)
        if holes:
            for i in range(2, T, 9):
                X[i, i % n] = np.nan
        f = H.frame(X, ("date", "gaps")[n % 2] if n < 60 else "int7")
        idx = list(f.index)
        start, end = (None if q is None else idx[q] for q in (s, e))
        names = ["b", "a"]
        covs = [sigmas(idx, f.columns, seed=7 * i) for i in range(2)]
        mus = [pd.DataFrame(H.generic(T, n, 0.001)[:, ::-1] * (1 + i) + 0.0004 * i, index=f.index, columns=f.columns) for i in range(2)]
        kw = dict(start_date=start, end_date=end)
        ctx.trace(2)
        ctx.state("large", *map(str, sc))
        with standins():
            if kind == "eq":
                out = pb.EqWeighted(f, covs, names, **kw).backtest()
            elif kind == "min":
                out = pb.MinRisk(f, covs, names, **kw).backtest(ADD)
            elif kind == "par":
                out = pb.RiskParity(f, covs, names, **kw).backtest()
            else:
                out = pb.MeanVariance(f, covs, names, mus, **kw).backtest(ADD, 0.1)
        if list(out) != names:
            bad("wrong names", got=list(out), want=names)
        ref = reference(f, idx, idx, start, end)
        for i, name in enumerate(names):
            tr = out[name]
            compare(ctx, tr, f, covs[i], ref, mus[i] if kind == "mv" else None, f"{kind} {name}")
            for k, (t, j) in enumerate(ref):
                w, S = np.asarray(tr.ws[k], float), covs[i][t].values
                if kind == "eq":
                    if not close(w, np.full(n, 1 / n), 1e-12):
                        bad("eq: weights are not equal", got=w)
                elif k % 5 == 0 or k == len(ref) - 1:
                    if kind == "min":
                        check_min_risk(w, S, ADD)
                    elif kind == "par":
                        check_parity(w, S)
                    else:
                        check_mean_variance(w, S, mus[i].loc[t].values, ADD, 0.1)
            with standins():
                earned(tr, f, covs[i], ref, [np.asarray(w)[:n] for w in tr.ws], kind)

    return [
        Space_("alignment", f"3..{T0} dates: every set of predicted dates x every start and end; one incomplete row anywhere", gen_align, run_align),
        Space_("rows", "all words of 6 kinds of rows (zero, repeated, huge, tiny, total loss) up to length 4, 3 kinds at length 5", gen_rows, run_align),
        Space_("coverage", "two predictors over 5 dates: every pair of date sets (a third of them in the quick tier)", gen_cover, run_cover),
        Space_("rejection", "predictors, start and end dates outside the returns", gen_reject, run_reject),
        Space_("classes", "six backtests x 2-3 assets x ranges x 1-3 predictors x incomplete row", gen_classes, run_classes),
        Space_("sharing", "every way in which three names share covariance and mean predictor objects", gen_shared, run_shared),
        Space_("many predictors", "4, 5, 7 (and 30) predictors x classes", gen_many, run_many),
        Space_("again", "the same backtest object four times with changing arguments x classes x predictors", gen_again, run_again),
        Space_("table", "every order of up to four traders x arguments", gen_table, run_table),
        Space_("several tables", "all pairs of six table arguments (a third table in addition) on the same traders", gen_tables, run_tables),
        Space_("large", "up to 300 dates, 60 assets, two predictors, incomplete rows, ranges", gen_large, run_large),
    ]


def Space_(*a):
    from .engine import Space

    return Space(*a)


# ------------------------------------------------------------------ C28


def account(R, W, rf=None, cash=False):
    out = []
    for t in range(len(R)):
        x = float(W[t][: R.shape[1]] @ R[t])
        if cash and rf is not None:
            x += W[t][-1] * rf[t]
        out.append(x)
    return np.array(out)


def growth(r):
    return np.cumprod(1 + r)


def drawdown(V):
    return max(0.0, max((max(V[: j + 1]) - V[j]) / max(V[: j + 1]) for j in range(len(V))))


def c28(deep):
    with standins():
        from experiments.utils.trading_model import Trader

    BT = {
        "E": dict(portfolio_type="eq_weighted"),
        "N": dict(portfolio_type="min_risk", additonal_cons={"short_lim": 2.0}),
        "V": dict(portfolio_type="vol_cont", sigma_des=0.1, additonal_cons={"short_lim": 2.0}),
        "X": dict(portfolio_type="mean_variance", sigma_des=0.2, additonal_cons={"short_lim": 2.0}),
        "P": dict(portfolio_type="risk_parity"),
        "F": dict(portfolio_type="eq_weighted", adjust_factor=100),
    }
    # metrics calls: (diluted, sigma, rf?, excess)
    ME = {
        "m": (False, None, None, False),
        "r": (False, None, 0, False),
        "x": (False, None, 1, True),
        "1": (True, 0.1, None, False),
        "2": (True, 0.2, 0, False),
        "3": (True, 0.3, 1, True),
        "4": (True, 0.1, 1, False),
    }
    DI = {"d": 0.1, "D": 0.3, "e": None}
    GR = {"g": 0.1, "G": 0.25}

    def setup(hist, n, label="date", unit=1.0):
        T = len(hist)
        TAB = {"a": (1.0, 2.0, -0.5), "b": (-1.5, 0.5, 0.75), "h": (12.0, -30.0, 3.0), "z": (0.0, 0.0, 0.0), "c": (-40.0, -35.0, -50.0)}
        X = np.array([TAB[c][:n] for c in hist]) * 0.01
        f = H.frame(X, label)
        cov = {t: unit**2 * S for t, S in sigmas(f.index, f.columns, seed=1).items()}
        mu = H.frame(H.generic(T, n, 0.001), label)
        rfs = [pd.Series(0.0001 * (1 + np.arange(T)), index=f.index), pd.Series(0.002 * np.cos(1.0 + np.arange(T)), index=f.index)]
        return f, cov, mu, rfs

    def metrics_of(tr, op, rfs):
        dil, sig, k, exc = ME[op]
        kw = {}
        if dil:
            kw["diluted_with_cash"] = True
            kw["sigma_des"] = sig
        if k is not None:
            kw["rf"] = rfs[k]
        if exc:
            kw["excess"] = True
        return tr.get_metrics(**kw)

    def run_seq(ctx, sc):
        hist, n, ops, *unit = sc
        f, cov, mu, rfs = setup(hist, n, "date", *unit)
        keep = f.copy(), [r.copy() for r in rfs]
        T = len(f)
        R = f.values
        Ss = [cov[t].values for t in f.index]
        with standins():
            tr = Trader(f, cov, r_hats=mu)
            base, cash, adj, rets = None, False, 1, None
            for i, op in enumerate(ops):
                ctx.step()
                ctx.state("seq", hist, n, ops[: i + 1], *unit)
                if op in BT:
                    tr.backtest(**BT[op])
                    base = np.array(tr.ws, float).copy()
                    cash = BT[op]["portfolio_type"] in ("vol_cont", "mean_variance")
                    adj = BT[op].get("adjust_factor", 1)
                    if base.shape != (T, n + cash):
                        bad("one weight per asset (and cash) and date", got=base.shape, want=(T, n + cash))
                    if np.abs(base.sum(axis=1) - 1).max() > 1e-5:
                        bad("weights do not sum to one", got=base.sum(axis=1))
                    if op in "EF" and not close(base, np.full((T, n), 1 / n), 1e-12):
                        bad("equal weights are not equal", got=base)
                    continue
                dil = None
                if op in ME:
                    _d, sig, k, exc = ME[op]
                    dil = sig if _d else None
                elif op in DI:
                    dil = DI[op] if DI[op] is not None else 0.1
                if dil is not None:
                    D = []
                    for t in range(T):
                        th = dil / np.sqrt(252) / vol(base[t], Ss[t])
                        D.append(np.append(th * base[t], 1 - th))
                    D = np.array(D)
                if op in DI:
                    if DI[op] is None:
                        tr.dilute_with_cash()
                    else:
                        tr.dilute_with_cash(DI[op])
                    ctx.trace()
                    if op != "e" and not close(tr.ws_diluted, D, 1e-9 * np.abs(D).max()):
                        bad("diluted weights do not have the requested volatility", got=tr.ws_diluted, want=D, sigma=dil)
                    if np.abs(tr.ws_diluted.sum(axis=1) - 1).max() > 1e-5:
                        bad("diluted weights and cash do not sum to one", got=tr.ws_diluted)
                elif op in ME:
                    m = metrics_of(tr, op, rfs)
                    ctx.trace()
                    rf = None if k is None else rfs[k].values
                    rets = account(R, D if _d else base, rf, cash or _d)
                    V = growth(rets / adj)
                    mean = (rets / adj - (rf if exc else 0)).mean() * 252
                    sd = (rets / adj).std() * np.sqrt(252)
                    want = (mean, sd, mean / sd if sd > 0 else np.nan, drawdown(V))
                    if not close(np.array(tr.rets, float).flatten(), rets, 1e-9 * (np.abs(rets).max() + 1e-12)):
                        bad("portfolio returns differ", got=np.array(tr.rets).flatten(), want=rets, ops=ops[: i + 1])
                    if not close(np.array(tr.Vs, float).flatten(), V, 1e-9 * np.abs(V).max()):
                        bad("growth differs", got=np.array(tr.Vs).flatten(), want=V)
                    for nm, a, b in zip(("mean_return", "risk", "sharpe", "drawdown"), m, want):
                        a = float(np.asarray(a).item())
                        if sd > 1e-12 and not abs(a - b) <= 1e-8 * (abs(b) + 1e-6):
                            bad(f"metric {nm} differs", got=a, want=b, ops=ops[: i + 1])
                    ctx.hit("metrics", hist, n, ops[: i + 1])
                elif op in GR:
                    if rets is None or rets.std() < 1e-12:
                        continue
                    # the returns last computed
                    tr.get_risk_adj_portfolio_growth(GR[op])
                    ctx.trace()
                    a = rets * GR[op] / (np.sqrt(252) * rets.std())
                    if not close(np.array(tr.rets_adjusted, float).flatten(), a, 1e-9 * np.abs(a).max()):
                        bad("risk-adjusted returns do not have the requested risk", got=tr.rets_adjusted, want=a)
                    if not close(np.array(tr.Vs_adjusted, float).flatten(), growth(a / adj), 1e-9 * np.abs(growth(a / adj)).max()):
                        bad("risk-adjusted growth differs", got=tr.Vs_adjusted, want=growth(a / adj))
                if base is not None and not np.array_equal(np.array(tr.ws, float), base):
                    bad("metrics or dilution changed the weights of the backtest", ops=ops[: i + 1])
        pd.testing.assert_frame_equal(f, keep[0])
        for a, b in zip(rfs, keep[1]):
            pd.testing.assert_series_equal(a, b)

    def gen_seq():
        """every sequence of calls: a portfolio without cash first; V and X never before a dilution"""
        OPS = "EVmrx123dDeg"
        depth = 4 if not deep else 5
        for m in range(1, depth + 1):
            for w in itertools.product(OPS, repeat=m):
                w = "".join(w)
                if ok(w, "E"):
                    yield ["abhzca", 2, "E" + w]

    def ok(w, last):
        for c in w:
            if c in BT:
                last = c
            elif (c in "1234dDe") and last in "VX":
                return False
        return True

    def gen_types():
        for hist, n in [("abh", 2), ("abhca", 3)]:
            for b in BT:
                for w in itertools.product("mrx14dDgG", repeat=2):
                    w = "".join(w)
                    if ok(w, b):
                        yield [hist, n, b + w]
            for b1, b2 in itertools.product("ENVXP", repeat=2):
                for o1 in "m1d":
                    for o2 in "mr2D":
                        w = o1 + b2 + o2 + "m"
                        if ok(w, b1):
                            yield [hist, n, b1 + w]

    def gen_hist():
        for m in range(2, 6):
            for w in H.words("abhzc" if m < 5 or deep else "ahz", [m]):
                for n in (1, 2, 3):
                    yield [w, n, "Emr1x2Gg3"]
        for w in H.words("abhzc", [2, 3, 4]):
            yield [w, 2, "Fmrgx"]

    def gen_large():
        for hist, n in [("abz" * 90, 2), ("abzzab" * 30 + "h" + "ba" * 20, 3), ("ba" * 300, 1), ("ac" + "z" * 1300 + "ab" * 10, 2), ("abh" + "z" * 80 + "ab" * 10, 2)]:
            for ops in ("Emr1x2Gg3", "Ed12DmgG", "Exg3D1m", "Fmrg", "E4dmErx"):
                yield [hist, n, ops]

    def gen_units():
        for e in range(-6, 7):
            for n in (1, 2, 3):
                for ops in ("Ed", "ED", "Ee", "E1mg", "E2D3G", "E4xd", "P3d", "P1"):
                    if n > 1 or ops[0] == "E":
                        yield ["abhzca", n, ops, 10.0**e]

    return [
        Space_("units", "predicted volatilities 1e-6 to 1e6 times those of the returns x calls", gen_units, run_seq),
        Space_("sequences", f"every sequence of up to {4 if not deep else 5} further calls from 12 (backtests, metrics, dilutions, growth)", gen_seq, run_seq),
        Space_("portfolio types", "six backtests, pairs of backtests x metrics calls", gen_types, run_seq),
        Space_("histories", "all words of 5 return rows up to length 4 (3 rows at length 5), 1..3 assets", gen_hist, run_seq),
        Space_("large", "histories of 100..1300 dates", gen_large, run_seq),
    ]


# ------------------------------------------------------------------ C29


def c29(deep):
    with standins():
        from experiments.utils.trading_model import Trader

    ADDS = [
        {},
        {"short_lim": 1.6},
        {"upper_bound": 0.6},
        {"lower_bound": -0.1},
        {"short_lim": 1.3, "upper_bound": 0.8},
        {"short_lim": 1.2, "lower_bound": -0.3},
        {"upper_bound": 0.7, "lower_bound": 0.0},
        {"short_lim": 1.6, "upper_bound": 0.55, "lower_bound": -0.2},
        {"short_lim": 15.0},
        {"upper_bound": 12.0, "lower_bound": -12.0},
    ]
    FAM = ["generic", "diag", "eye", "equi", "hedge", "perm"]

    def inputs(n, fam, T, seed=0):
        f = frame(n, T)
        cov = sigmas(f.index, f.columns, seed, family=fam)
        mu = H.frame(H.generic(T + 1, n, 0.001)[1:] + 0.0005)
        rho = H.frame(np.abs(H.generic(T + 2, n, 0.0004)[2:]))
        return f, cov, mu, rho

    def op(k):
        """named backtests -> keyword arguments"""
        kind, a = k[0], k[1]
        add = dict(ADDS[a])
        kw = dict(portfolio_type=kind, additonal_cons=add)
        if kind in ("vol_cont", "mean_variance"):
            kw["sigma_des"] = k[2]
        if kind == "robust_min_risk":
            kw["kappa"] = k[2]
        if kind in ("max_diverse", "max_sharpe"):
            kw["additonal_cons"] = {"upper_bound": k[2]}
        return kw

    def verify(tr, kw, f, cov, mu, rho=None):
        n = f.shape[1]
        ws = np.array(tr.ws, float)
        kind = kw["portfolio_type"]
        add = kw.get("additonal_cons", {})
        if ws.shape != (len(f), n + (kind in ("vol_cont", "mean_variance"))):
            bad(f"{kind}: wrong number of weights", got=ws.shape)
        for i, t in enumerate(f.index):
            S, w = cov[t].values, ws[i]
            try:
                if kind == "eq_weighted":
                    if not close(w, np.full(n, 1 / n), 1e-12):
                        bad("eq_weighted: weights are not equal", w=w)
                elif kind == "min_risk":
                    check_min_risk(w, S, add, float(np.ravel(tr.obj)[i]))
                elif kind == "robust_min_risk":
                    check_min_risk(w, S, add, float(np.ravel(tr.obj)[i]), kw["kappa"], kind)
                elif kind == "vol_cont":
                    check_vol_cont(w, S, add, kw["sigma_des"], kw.get("adjust_factor", 1))
                elif kind == "risk_parity":
                    check_parity(w, S)
                elif kind == "max_diverse":
                    check_ratio(w, S, np.sqrt(np.diag(S)), add["upper_bound"], kind)
                elif kind == "max_sharpe":
                    check_ratio(w, S, mu.values[i], None, kind)
                elif kind == "mean_variance":
                    check_mean_variance(w, S, mu.values[i], add, kw["sigma_des"] * kw.get("adjust_factor", 1), None if rho is None else rho.values[i], float(np.ravel(tr.obj)[i]))
            except RuntimeError as x:
                bad(f"oracle failure at {t}: {x}")

    def gen_single():
        for n in (2, 3, 4):
            for fam in FAM:
                for a in range(8):
                    for k in [("min_risk", a), ("vol_cont", a, 0.1), ("vol_cont", a, 0.02), ("robust_min_risk", a, 0.5), ("robust_min_risk", a, 30.0)]:
                        yield [n, fam, list(k)]
                    for s in (0.05, 0.3):
                        if ADDS[a]:
                            yield [n, fam, ["mean_variance", a, s]]
                            yield [n, fam, ["mean_variance", a, s], "rho"]
                yield [n, fam, ["risk_parity", 0]]
                for M in (0.5, 0.7, 1.0):
                    yield [n, fam, ["max_diverse", 0, M]]
                yield [n, fam, ["max_sharpe", 0, 0.15]]
                yield [n, fam, ["max_sharpe", 0, 1.0]]
                yield [n, fam, ["eq_weighted", 0]]
        for fam in FAM + ["wild"]:  # targets far below and above the volatilities, bounds to match
            for s in (1e-4, 1.0, 1.5, 8.0):
                yield [3, fam, ["vol_cont", 0, s]]
                yield [3, fam, ["mean_variance", 8, s]]
                yield [3, fam, ["mean_variance", 8, s], "rho"]
                yield [2, fam, ["mean_variance", 9, s]]
        for n in (1, 8):
            for fam in FAM:
                for k in [["min_risk", 0], ["risk_parity", 0], ["max_diverse", 0, 1.0], ["max_sharpe", 0, 1.0], ["vol_cont", 0, 0.1], ["mean_variance", 1, 0.1]]:
                    yield [n, fam, k]

    def run_single(ctx, sc):
        n, fam, k = sc[:3]
        f, cov, mu, rho = inputs(n, fam, sc[4] if len(sc) > 4 else 3 if not deep else 6)
        kw = op(k)
        if k[0] == "max_sharpe":
            mu.iloc[:, 0] = np.abs(mu.iloc[:, 0]) + 0.0002  # some expected return is positive
        r = None
        if len(sc) > 3 and sc[3]:
            kw["rhos"] = r = rho
        keep = f.copy(), mu.copy(), rho.copy(), {t: c.copy() for t, c in cov.items()}, dict(kw["additonal_cons"])
        with standins():
            tr = Trader(f, cov, r_hats=mu)
            tr.backtest(**kw)
        ctx.trace(len(f))
        ctx.step(len(f))
        ctx.state("single", str(sc))
        verify(tr, kw, f, cov, mu, r)
        ctx.hit("single", n, fam, str(k))
        for a, b in zip((f, mu, rho), keep):
            pd.testing.assert_frame_equal(a, b)
        for t in cov:
            pd.testing.assert_frame_equal(cov[t], keep[3][t])
        if kw["additonal_cons"] != keep[4]:
            bad("the dictionary of additional constraints was modified", got=kw["additonal_cons"])

    # default constraints need at least seven assets
    def gen_default():
        for kind in ("min_risk", "vol_cont", "mean_variance", "max_diverse", "robust_min_risk"):
            for n in (8, 10):
                for fam in FAM:
                    yield [kind, n, fam]

    DEF = {"short_lim": 1.6, "upper_bound": 0.15, "lower_bound": -0.1}

    def run_default(ctx, sc):
        kind, n, fam = sc
        f, cov, mu, _ = inputs(n, fam, 2)
        kw = dict(portfolio_type=kind)
        if kind in ("vol_cont", "mean_variance"):
            kw["sigma_des"] = 0.1
        if kind == "robust_min_risk":
            kw["kappa"] = 1.0
        with standins():
            tr = Trader(f, cov, r_hats=mu)
            tr.backtest(**kw)
        ctx.trace(2)
        ctx.step(2)
        ctx.state("default", *sc)
        verify(tr, dict(kw, additonal_cons=DEF), f, cov, mu)

    SEQ = [
        ["min_risk", 3],
        ["min_risk", 6],
        ["vol_cont", 1, 0.1],
        ["robust_min_risk", 4, 2.0],
        ["mean_variance", 4, 0.2],
        ["mean_variance", 7, 0.1, "rho"],
        ["max_diverse", 0, 0.6],
        ["risk_parity", 0],
        ["max_sharpe", 0, 1.0],
        ["eq_weighted", 0],
    ]

    def gen_seq():
        for m in (1, 2, 3):
            for s in itertools.product(range(len(SEQ)), repeat=m):
                if m < 3 or deep or (s[0] < 6 and s[1] % 2 == 0):
                    for mode in ("same", "shared") if m < 3 else ("shared",):
                        yield [list(s), mode]

    FRESH = {}

    def go(tr, k, cons, rho, dicts):
        kw = op(k)
        key = k[0] in ("max_diverse", "max_sharpe"), str(kw["additonal_cons"])
        kw["additonal_cons"] = dicts.setdefault(key, kw["additonal_cons"])
        if "rho" in k:
            kw["rhos"] = rho
        if cons is not None:
            kw["cons"] = cons
        tr.backtest(**kw)
        obj = np.array(tr.obj, float).ravel() if k[0] in ("min_risk", "vol_cont", "robust_min_risk", "mean_variance") else None
        return np.array(tr.ws, float).copy(), obj

    def run_seq(ctx, sc):
        s, mode = sc
        n, T = 3, 2
        f, cov, mu, rho = inputs(n, "hedge", T)
        mu = mu.abs() + 0.0001
        cons = [] if mode == "shared" else None
        dicts = {}
        with standins():
            for k in set(s):
                if k not in FRESH:
                    FRESH[k] = go(Trader(f, cov, r_hats=mu), SEQ[k], None, rho, {})
            one = Trader(f, cov, r_hats=mu)
            for i, k in enumerate(s):
                # "shared": a new trader each time, everything else shared
                tr = one if mode == "same" or (len(s) == 3 and i % 2) else Trader(f, cov, r_hats=mu)
                ctx.step()
                ctx.trace()
                ctx.state("seq", mode, tuple(s[: i + 1]))
                ws, obj = go(tr, SEQ[k], cons, rho, dicts)
                if not close(ws, FRESH[k][0], 1e-6):
                    bad("the weights of a backtest depend on backtests run before it", sequence=[SEQ[j] for j in s[: i + 1]], got=ws, want=FRESH[k][0])
                if obj is not None and not close(obj, FRESH[k][1], 1e-6 * np.abs(FRESH[k][1]).max()):
                    bad("the objective of a backtest depends on backtests run before it", got=obj, want=FRESH[k][1])
                if cons:
                    bad("the caller's list of constraints was modified", got=len(cons))
                for (_, text), d in dicts.items():
                    if str(d) != text:
                        bad("the caller's dictionary of constraints was modified", got=d, want=text)

    # adjust_factor and the caller's own constraints
    def gen_extra():
        for af in (1, 100):
            for k in (["min_risk", 3], ["vol_cont", 1, 0.1], ["risk_parity", 0], ["robust_min_risk", 4, 2.0]):
                yield [af, k, 0]
        for af in (0.25, 2, 100):
            for k in (["mean_variance", 8, 0.02], ["mean_variance", 9, 0.002], ["mean_variance", 4, 0.01]):
                yield [af, k, 0]
        for k in (["min_risk", 3], ["vol_cont", 1, 0.1], ["mean_variance", 4, 0.2]):
            for m in (1, 2, 3):
                yield [1, k, m]

    def run_extra(ctx, sc):
        af, k, m = sc
        f, cov, mu, _ = inputs(3, "generic", 3)
        y = cp.Variable()
        own = [y >= 0, y <= 1, y == 0.5][:m]
        keep = list(own)
        kw = dict(op(k), adjust_factor=af)
        with standins():
            tr = Trader(f, cov, r_hats=mu)
            if m:
                kw["cons"] = own
            tr.backtest(**kw)
        ctx.trace()
        ctx.step(3)
        ctx.state("extra", str(sc))
        if len(own) != len(keep) or any(a is not b for a, b in zip(own, keep)):
            bad("the caller's list of constraints was modified")
        verify(tr, kw, f, cov, mu)

    def gen_units():
        for u in (0.1, 10.0, 100.0, 1000.0):
            for fam in ("generic", "equi", "hedge"):
                for sd in (0.05, 0.3):
                    yield ["mean_variance", u, fam, 4, sd]
                    yield ["mean_variance", u, fam, 8, sd]
        for u in (1.0, 100.0):
            for ratio in (10, 100):
                for n in (2, 3, 5):
                    yield ["risk_parity", u, ratio, n]

    def run_units(ctx, sc):
        """returns, volatilities, means and uncertainties in percent or basis points; assets of very different risk"""
        kind, u = sc[:2]
        if kind == "mean_variance":
            f, cov, mu, rho = inputs(3, sc[2], 3)
            kw = dict(op(["mean_variance", sc[3], sc[4] * u]), rhos=rho * u)
        else:
            f, cov, mu, rho = inputs(sc[3], "generic", 3)
            s = np.geomspace(1.0, 1.0 / sc[2], sc[3])[::-1]
            cov = {t: c * np.outer(s, s) for t, c in cov.items()}
            kw = dict(op(["risk_parity", 0]))
        f, mu, rho, cov = f * u, mu * u, rho * u, {t: c * u**2 for t, c in cov.items()}
        with standins():
            tr = Trader(f, cov, r_hats=mu)
            tr.backtest(**kw)
        ctx.trace()
        ctx.step(3)
        ctx.state("units", str(sc))
        verify(tr, kw, f, cov, mu, rho if kind == "mean_variance" else None)

    def gen_large():
        for n in (12, 20, 30):
            for fam in ("generic", "equi", "hedge"):
                for k in [["min_risk", 0], ["min_risk", 1], ["min_risk", 3], ["risk_parity", 0], ["max_diverse", 0, 0.2], ["max_sharpe", 0, 1.0], ["vol_cont", 1, 0.1], ["mean_variance", 1, 0.1], ["mean_variance", 3, 0.2, "rho"], ["robust_min_risk", 1, 2.0], ["eq_weighted", 0]]:
                    yield [n, fam, k[:3]] + (["rho"] if "rho" in k else [])

    def gen_dates():
        for T, n in [(60, 2), (25, 5)]:
            for k in [["min_risk", 1], ["risk_parity", 0], ["max_diverse", 0, 0.7], ["max_sharpe", 0, 1.0], ["vol_cont", 1, 0.1], ["mean_variance", 1, 0.1, "rho"], ["robust_min_risk", 1, 2.0], ["eq_weighted", 0]]:
                yield [n, "generic", k[:3]] + (["rho"] if "rho" in k else [None]) + [T]

    # the order in which the worker processes finish
    def gen_orders():
        for T in (2, 3, 4) if not deep else (2, 3, 4, 5):
            for k in [["min_risk", 3], ["risk_parity", 0], ["max_diverse", 0, 0.7], ["max_sharpe", 0, 1.0], ["vol_cont", 1, 0.1], ["mean_variance", 4, 0.2], ["mean_variance", 4, 0.2, "rho"], ["robust_min_risk", 4, 2.0], ["eq_weighted", 0]]:
                for o in itertools.permutations(range(T)):
                    if T < 4 or deep or o[0] != 0 and o[-1] != T - 1:
                        yield [T, k, list(o)]

    def run_orders(ctx, sc):
        T, k, o = sc
        f, cov, mu, rho = inputs(3, "generic", T, seed=2)
        mu = mu.abs() + 0.0001
        kw = op(k)
        r = None
        if "rho" in k:
            kw["rhos"] = r = rho
        with standins(o):
            tr = Trader(f, cov, r_hats=mu)
            tr.backtest(**kw)
        ctx.trace()
        ctx.step(T)
        ctx.state("orders", str(sc))
        verify(tr, kw, f, cov, mu, r)
        ctx.hit("orders", T, *o)

    return [
        Space_("completion orders", "2 to 4 (5) dates: all orders in which the worker processes run and finish x portfolio types", gen_orders, run_orders),
        Space_("single", "1-8 assets x 6 covariance families x 8 constraint sets x all portfolio types and targets", gen_single, run_single),
        Space_("defaults", "default constraints, 8 and 10 assets", gen_default, run_default),
        Space_("sequences", "all sequences of up to 2 backtests from 10 (a third of those of length 3), same or new trader, shared lists and dictionaries", gen_seq, run_seq),
        Space_("extras", "adjust_factor and the caller's own constraints", gen_extra, run_extra),
        Space_("units", "returns in other units with uncertainties, assets of very different risk", gen_units, run_units),
        Space_("large", "12-30 assets x families x portfolio types", gen_large, run_single),
        Space_("many dates", "25 and 60 dates x portfolio types", gen_dates, run_single),
    ]
