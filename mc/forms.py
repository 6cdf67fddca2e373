"""Equivalent forms of the arguments of a call.

A case names a call, its object arguments (frames, series, arrays, dictionaries of them) and its plain arguments
(numbers, flags, lists) in the order of the signature.  Every plain argument is replaced by every equivalent value
(numpy scalars, 0/1 for flags, integral floats for half lives, tuples/arrays/indexes for lists), every object argument
by one with other memory behind it (column-major, strided, one block per column, read-only), one or two at a time; the
call is also made with positional arguments and with arguments at their documented defaults left out.  The result has
to be the one of the plain call.
"""

from __future__ import annotations

import itertools
from dataclasses import dataclass, field

import numpy as np
import pandas as pd

from . import code
from . import histories as H
from .engine import Space, Violation
from .reuse import flat, same

WHOLE = {"min_periods", "min_periods_vola", "min_periods_cov", "window", "rank", "r", "low_rank", "memory", "k", "update_frequency", "n", "lags"}


@dataclass
class Case:
    make: object  # () -> {name: object}
    call: object  # (**arguments) -> result
    plain: dict = field(default_factory=dict)  # {name: value}
    order: list = None  # names in the order of the signature, if the function may be called with positional arguments
    fn: object = None  # the function itself, for positional calls: result(fn(*args))
    result: object = None
    defaults: dict = field(default_factory=dict)  # documented defaults
    lists: dict = field(default_factory=dict)  # {name: forms of a list argument}


def forms_of(name, v, case):
    if name in case.lists:
        return case.lists[name]
    if isinstance(v, bool):
        return [("number", lambda: int(v)), ("numpy flag", lambda: np.bool_(v))]
    if isinstance(v, int):
        out = [("int64", lambda: np.int64(v)), ("int32", lambda: np.int32(v))]
        return out if name in WHOLE else out + [("float", lambda: float(v)), ("float64", lambda: np.float64(v))]
    if isinstance(v, float):
        out = [("float64", lambda: np.float64(v))]
        if v == int(v):
            out += [("int", lambda: int(v)), ("int64", lambda: np.int64(v))]
        return out
    return []


def memory(x, kind):
    if isinstance(x, dict):
        return {k: memory(v, kind) for k, v in x.items()}
    if hasattr(x, "_fields"):
        return type(x)(*[memory(v, kind) for v in x])
    if isinstance(x, list):
        return [memory(v, kind) for v in x]
    if isinstance(x, pd.DataFrame):
        if kind == "blocks":
            cols = [x.iloc[:, i].copy() for i in range(x.shape[1])]
            y = pd.concat(cols, axis=1) if cols else x.copy()
            y.columns = x.columns
            return y
        return pd.DataFrame(memory(x.values, kind), index=x.index, columns=x.columns, copy=False)
    if isinstance(x, np.ndarray):
        if kind == "fortran":
            return np.asfortranarray(x)
        if kind == "strided":
            big = np.full([2 * s for s in x.shape], 7.0)
            y = big[tuple(slice(None, None, -2) for _ in x.shape)]
            y[...] = x
            return y
        if kind == "read-only":
            y = x.copy()
            y.flags.writeable = False
            return y
    return x


MEMORY = ("fortran", "strided", "blocks", "read-only")


def run_quiet(f):
    with code.quiet():
        r = f()
        return list(r) if hasattr(r, "__next__") else r


def space(cases, tol=1e-9, around=None):
    def options(case):
        out = []
        for a, v in case.plain.items():
            for label, _ in forms_of(a, v, case):
                out.append([a, label])
        for a in case.make():
            for kind in MEMORY:
                out.append([a, kind])
        return out

    def gen():
        for name, case in cases.items():
            opts = options(case)
            for o in opts:
                yield [name, [o]]
            for a, b in itertools.combinations(opts, 2):
                if a[0] != b[0]:
                    yield [name, [a, b]]
            if case.order:
                for k in range(1, len(case.order) + 1):
                    yield [name, ["positional", k]]
            for k in range(len(case.defaults)):
                yield [name, ["default", list(case.defaults)[k]]]
            if len(case.defaults) > 1:
                yield [name, ["default", "*"]]

    base = {}

    def run(ctx, sc):
        name, what = sc
        case = cases[name]

        def do(f):
            if around:
                with around():
                    return run_quiet(f)
            return run_quiet(f)

        def full(over=()):
            return {**case.make(), **case.plain, **dict(over)}

        if what[0] == "default":
            d = case.defaults if what[1] == "*" else {what[1]: case.defaults[what[1]]}
            keep = {k: v for k, v in case.plain.items() if k not in d}
            want = do(lambda: case.call(**{**case.make(), **keep, **d}))
            got = do(lambda: case.call(**{**case.make(), **keep}))
        else:
            if name not in base:
                base[name] = do(lambda: case.call(**full()))
            want = base[name]
            if what[0] == "positional":
                args = full(case.defaults)
                args = {**args, **{k: v for k, v in case.plain.items()}}
                k = what[1]
                got = do(lambda: case.result(case.fn(*[args[a] for a in case.order[:k]], **{a: v for a, v in args.items() if a not in case.order[:k]})))
                want = do(lambda: case.call(**args))
            else:
                over = {}
                for a, label in what:
                    if label in MEMORY and a not in case.plain:
                        over[a] = memory(case.make()[a], label)
                    else:
                        over[a] = dict(forms_of(a, case.plain[a], case))[label]()
                got = do(lambda: case.call(**full(over)))
        ctx.trace(2)
        ctx.step()
        ctx.state("forms", name, str(what))
        ctx.hit("forms", name, str(what))
        if not same(got, want, tol):
            raise Violation(f"{name}: with {what} the call gives something else than in its plain form\n  got = {flat(got)[:6]}\n  want = {flat(want)[:6]}")

    return Space(
        "forms of arguments",
        "every argument in every equivalent form (numpy scalars, 0/1 flags, int/float, kinds of lists, memory layouts), one and two at a time; positional calls; documented defaults left out: " + ", ".join(cases),
        gen,
        run,
    )


def ident(x):
    return x


def frame(T=9, n=3, unit=0.01):
    return lambda: {"returns": H.frame(H.generic(T, n, unit))}


def direct(fn, make, plain, order, defaults=None, result=None, lists=None):
    result = result or ident
    return Case(make, lambda **kw: result(fn(**kw)), plain, order, fn, result, defaults or {}, lists or {})


def ewma(pid):
    from cvx.covariance.ewma import center, iterated_ewma, volatility

    if pid == "C01":
        order = ["returns", "halflife", "min_periods", "clip_at"]
        return {
            "volatility": direct(volatility, frame(), dict(halflife=3, min_periods=2, clip_at=1.5), order, dict(min_periods=0, clip_at=None)),
            "volatility, one row half life": direct(volatility, frame(6, 1), dict(halflife=1.0), ["returns", "halflife"], dict(min_periods=0, clip_at=None)),
        }
    order = ["returns", "vola_halflife", "cov_halflife", "min_periods_vola", "min_periods_cov", "mean", "mu_halflife1", "mu_halflife2", "clip_at", "nan_to_num"]
    off = dict(min_periods_vola=20, min_periods_cov=20, mean=False, mu_halflife1=None, mu_halflife2=None, clip_at=None, nan_to_num=True)
    if pid == "C02":
        return {
            "iterated_ewma": direct(iterated_ewma, frame(10, 2), dict(vola_halflife=2, cov_halflife=3.0, min_periods_vola=2, min_periods_cov=2, mean=False, clip_at=1.5, nan_to_num=True), order, dict(mu_halflife1=None, mu_halflife2=None), list),
            "iterated_ewma with defaults": direct(iterated_ewma, frame(44, 2), dict(vola_halflife=2, cov_halflife=3.0), ["returns"], off, list),
        }
    return {
        "center": direct(center, frame(), dict(halflife=3, min_periods=2, mean_adj=True), ["returns", "halflife", "min_periods", "mean_adj"], dict(min_periods=0)),
        "center switched off": direct(center, frame(), dict(halflife=3, mean_adj=False), ["returns", "halflife"], dict(min_periods=0, mean_adj=False)),
        "iterated_ewma with means": direct(
            iterated_ewma, frame(10, 2), dict(vola_halflife=2, cov_halflife=3.0, min_periods_vola=2, min_periods_cov=2, mean=True, mu_halflife1=4, mu_halflife2=2.0, clip_at=1.5, nan_to_num=True), order, {}, list
        ),
        "iterated_ewma with means and defaults": direct(iterated_ewma, frame(44, 2), dict(vola_halflife=2, cov_halflife=3.0, mean=True), ["returns"], {k: v for k, v in off.items() if k != "mean"}, list),
    }


def results(rs):
    return [None if r is None else [r.time, list(map(str, r.weights.index)), r.weights.values, r.covariance, r.mean] for r in rs]


def combination(pid):
    from cvx.covariance.combination import from_ewmas, from_sigmas

    from .experts import generic_case

    if pid == "C15":
        pairs = [(2, 3), (3, 5)]
        lists = {"pairs": [("tuples", lambda: ((2, 3), (3, 5))), ("numpy integers", lambda: [(np.int64(2), np.int64(3)), (np.int32(3), np.int32(5))])]}
        order = ["returns", "pairs", "min_periods_vola", "min_periods_cov", "clip_at", "mean"]
        plain = dict(pairs=pairs, min_periods_vola=2, min_periods_cov=4, clip_at=1.5, mean=True)
        long = {k: v for k, v in plain.items() if k == "pairs"}
        out = lambda c: results(c.solve(window=3))
        return {
            "from_ewmas": direct(from_ewmas, frame(11, 2), plain, order, {}, out, lists),
            "from_ewmas with defaults": direct(from_ewmas, frame(45, 2), long, ["returns", "pairs"], dict(min_periods_vola=20, min_periods_cov=20, clip_at=None, mean=False), out, lists),
        }

    def make(means):
        def f():
            s, r, m = generic_case(6, 2, 2, 1.0, means).args()
            return {"sigmas": s, "returns": r, **({"means": m} if means else {})}

        return f

    if pid == "C11":
        ts = list(make(False)()["returns"].index)[4:]

        def solve(sigmas, returns, **kw):
            return results(from_sigmas(sigmas, returns).solve(**kw))

        lists = {
            "times": [
                ("tuple", lambda: tuple(ts)),
                ("index", lambda: pd.Index(ts)),
                ("array", lambda: np.array(ts, dtype=object)),
                ("series", lambda: pd.Series(ts, index=range(5, 5 + len(ts)))),
            ]
        }
        return {"solve": Case(make(False), solve, dict(window=2, times=ts), defaults=dict(times=None), lists=lists)}
    if pid == "C17":
        return {"from_sigmas with means": direct(from_sigmas, make(True), {}, ["sigmas", "returns", "means"], {}, lambda c: results(c.solve(window=3)))}

    def solve(sigmas, returns, **kw):
        return results(from_sigmas(sigmas, returns).solve(**kw))

    return {"from_sigmas": Case(make(False), solve, dict(window=3), defaults=dict(window=None, times=None))}


def regularisation(pid):
    from cvx.covariance.regularization import em_regularize_covariance, regularize_covariance

    from .io_checks import dicts
    from .reuse_cases import product

    if pid == "C21":

        def make():
            s, i = dicts(4, 2)
            return {"sigmas": s, "initial_sigmas": i}

        return {"em_regularize_covariance": direct(em_regularize_covariance, make, {}, ["sigmas", "initial_sigmas"], {}, lambda g: [[t, product(m)] for t, m in g])}
    out = lambda g: [[t, product(m)] for t, m in g]
    mk = lambda: {"sigmas": dicts(4, 2)[0]}
    order = ["sigmas", "r", "low_rank_format"]
    cases = {"regularize_covariance": direct(regularize_covariance, mk, dict(r=2, low_rank_format=False), order, dict(low_rank_format=False), out)}
    if pid == "C20":
        cases["regularize_covariance in factor form"] = direct(regularize_covariance, mk, dict(r=2, low_rank_format=True), order, {}, out)
    return cases


def likelihoods():
    from experiments.utils import experiment_utils as u

    from .reuse_cases import likelihoods as base

    b = base()
    dated, plain, low = b["log_likelihood_regularized"][0], b["log_likelihood"][0], b["log_likelihood_low_rank"][0]

    def named(make, *names):
        return lambda: dict(zip(names, make().values()))

    full = named(plain, "returns", "Sigmas", "means")
    return {
        "log_likelihood": direct(u.log_likelihood, full, dict(scale=2), ["returns", "Sigmas", "means", "scale"], dict(scale=1)),
        "log_likelihood_sequential": direct(u.log_likelihood_sequential, full, dict(scale=2), ["returns", "Sigmas", "means", "scale"], dict(scale=1)),
        "log_likelihood_regularized": direct(u.log_likelihood_regularized, named(dated, "returns", "Sigmas", "means"), dict(r=1), ["returns", "Sigmas", "means", "r"], dict(r=None)),
        "log_likelihood_low_rank": direct(u.log_likelihood_low_rank, named(low, "returns", "Sigmas"), {}, ["returns", "Sigmas"], dict(means=None)),
        "em_low_rank_log_likelihood": direct(u.em_low_rank_log_likelihood, lambda: dict(zip(("returns", "Sigmas"), dated().values())), dict(rank=1), ["returns", "Sigmas", "rank"]),
    }


def helpers():
    from experiments.utils import experiment_utils as u

    from .reuse_cases import helpers as base

    b = base()
    intraday, mse = b["realized_ewma"][0], b["MSE"][0]
    pairs = lambda g: [[t, v] for t, v in g]
    return {
        "realized_volas": direct(u.realized_volas, intraday, {}, ["returns"], {}, pairs),
        "realized_ewma": direct(u.realized_ewma, intraday, dict(halflife=2, clip_at=2.0, min_periods=1), ["returns", "halflife", "clip_at", "min_periods"], {}, pairs),
        "realized_ewma with defaults": direct(u.realized_ewma, intraday, dict(halflife=2), ["returns", "halflife"], dict(clip_at=None, min_periods=None), pairs),
        "MSE": direct(u.MSE, lambda: dict(zip(("returns", "covariances"), mse().values())), {}, ["returns", "covariances"]),
        "add_to_diagonal": direct(lambda Sigmas, lamda: u.add_to_diagonal(dict(Sigmas), lamda), lambda: {"Sigmas": mse()["sigmas"]}, dict(lamda=2), ["Sigmas", "lamda"]),
        "turnover": direct(u.turnover, lambda: {"weights": H.generic(5, 2, 1.0)}, {}, ["weights"]),
        "from_row_matrix_to_covariance": direct(u.from_row_matrix_to_covariance, lambda: {"M": H.generic(3, 6, 1.0)}, dict(n=3), ["M", "n"]),
        "ecdf": direct(u.ecdf, lambda: {"data": H.generic(7, 1, 1.0).flatten()}, {}, ["data"]),
    }


def experiments(pid):
    from .reuse_cases import experiments as base
    from .reuse_cases import product

    if pid == "C22":
        from experiments.utils.low_rank_ewma import low_rank_iterated_ewma

        out = lambda g: [[x.time, x.mean, product(x.covariance)[0].values + np.diag(x.covariance.d.values), x.volatility] for x in g]
        order = ["returns", "vola_halflife", "cov_halflife", "rank", "min_periods_vola", "min_periods_cov", "mean", "mu_halflife1", "mu_halflife2", "clip_at"]
        return {
            "low_rank_iterated_ewma": direct(low_rank_iterated_ewma, frame(8, 4), dict(vola_halflife=2, cov_halflife=3.0, rank=2, min_periods_vola=1, min_periods_cov=2, mean=True, mu_halflife1=4, mu_halflife2=2.0, clip_at=1.5), order, {}, out),
            "low_rank_iterated_ewma with defaults": direct(
                low_rank_iterated_ewma, frame(42, 3), dict(vola_halflife=2, cov_halflife=3.0, rank=1), ["returns"], dict(min_periods_vola=20, min_periods_cov=20, mean=False, mu_halflife1=None, mu_halflife2=None, clip_at=None), out
            ),
        }
    if pid == "C24":
        from experiments.utils.experiment_utils import rolling_window

        return {"rolling_window": direct(rolling_window, frame(), dict(memory=4, min_periods=2), ["returns", "memory", "min_periods"]), "rolling_window with defaults": direct(rolling_window, frame(24, 2), dict(memory=4), ["returns", "memory"], dict(min_periods=20))}
    if pid == "C25":
        from experiments.utils.iterated_ewma_vec import iterated_ewma

        order = ["returns", "vola_halflife", "cov_halflife", "min_periods_vola", "min_periods_cov", "mean", "low_rank", "clip_at"]
        return {
            "iterated_ewma": direct(iterated_ewma, frame(12, 3), dict(vola_halflife=3, cov_halflife=4.0, min_periods_vola=2, min_periods_cov=2, mean=True, low_rank=2, clip_at=1.5), order, {}, list),
            "iterated_ewma with defaults": direct(iterated_ewma, frame(44, 2), dict(vola_halflife=3, cov_halflife=4.0), ["returns"], dict(min_periods_vola=20, min_periods_cov=20, mean=False, low_rank=None, clip_at=None)),
        }
    if pid == "C31":
        b = base("C31")
        from experiments.utils.factor_model import construct_factor_covariance, factor_log_likelihood

        pairs = [(3, 6), (6, 3)]
        lists = {"cm_iewma_pairs": [("tuples", lambda: tuple(pairs))]}
        mk = b["construct_factor_covariance"][0]
        start = mk()["returns"].index[4]
        return {
            "construct_factor_covariance": direct(construct_factor_covariance, lambda: {"factors": mk()["returns"]}, dict(cm_iewma_pairs=pairs, start_date=start), ["factors", "cm_iewma_pairs", "start_date"], {}, None, lists),
            "factor_log_likelihood": direct(factor_log_likelihood, lambda: dict(zip(("returns", "factor_model"), b["factor_log_likelihood"][0]().values())), {}, ["returns", "factor_model"]),
        }
    from .rho_checks import construct_rho

    return {"construct_rho": direct(construct_rho, frame(), dict(n_devs=3), ["returns", "n_devs"], dict(n_devs=2))}


def forecasts():
    from experiments.utils.return_combination import ReturnCombinator, daily_predictors, ewma_predictors, tune_alpha

    from .reuse_cases import forecasts as base

    b = base()
    mk = lambda: dict(zip(("returns", "returns_predictions"), b["ReturnCombinator.fit"][0]().values()))
    fit = lambda **kw: ReturnCombinator().fit(**kw)
    pos = lambda *a, **kw: ReturnCombinator().fit(*a, **kw)
    lags = {"lags": [("tuple", lambda: (1, 2)), ("array", lambda: np.array([1, 2])), ("range", lambda: range(1, 3))]}
    halves = {"halflives": [("tuple", lambda: (1, 3)), ("array", lambda: np.array([1, 3])), ("floats", lambda: [1.0, 3.0])]}
    alphas = {"alphas": [("tuple", lambda: (0.5, 2.0)), ("array", lambda: np.array([0.5, 2.0]))]}
    series = b["daily_predictors"][0]
    values = lambda f: [f.index.tolist() and [str(t) for t in f.index], f.values]
    return {
        "ReturnCombinator.fit": Case(mk, fit, dict(memory=4, alpha=2), ["returns", "returns_predictions", "memory", "alpha"], pos, ident),
        "tune_alpha": direct(lambda **kw: tune_alpha(**kw)[1:], lambda: dict(zip(("returns", "return_predictors"), b["ReturnCombinator.fit"][0]().values())), dict(alphas=[0.5, 2.0], memory=4), None, {}, None, alphas),
        "daily_predictors": direct(daily_predictors, series, dict(lags=[1, 2]), ["returns", "lags"], {}, values, lags),
        "ewma_predictors": direct(ewma_predictors, series, dict(halflives=[1, 3]), ["returns", "halflives"], {}, values, halves),
    }


def trading(pid):
    from .trade_checks import sigmas, standins

    with standins():
        import experiments.utils.portfolio_backtests as pb
        from experiments.utils.trading_model import Trader

    def make():
        f = H.frame(H.generic(4, 2))
        return {"returns": f, "sigmas": sigmas(f.index, f.columns)}

    def more():
        return {**make(), "means": H.frame(H.generic(4, 2, 0.001))}

    add = {"short_lim": 3.0, "upper_bound": 2.0, "lower_bound": -2.0}
    if pid == "C28":
        rf = pd.Series(0.0001 * np.arange(1.0, 5), index=H.index("date", 4))

        def book(returns, sigmas, diluted_with_cash, sigma_des, excess, adjust_factor=1):
            tr = Trader(returns, sigmas)
            tr.backtest("eq_weighted", adjust_factor=adjust_factor)
            m = tr.get_metrics(diluted_with_cash=diluted_with_cash, sigma_des=sigma_des, rf=rf, excess=excess)
            return [list(m), np.array(tr.rets, float), np.array(tr.Vs, float)]

        def risk(returns, sigmas, **kw):
            tr = Trader(returns, sigmas)
            tr.backtest("eq_weighted")
            tr.get_total_returns()
            tr.get_risk_adj_portfolio_growth(**kw)
            tr.dilute_with_cash(**kw)
            return [np.array(tr.Vs_adjusted, float), tr.ws_diluted]

        return {
            "metrics with cash": Case(make, book, dict(diluted_with_cash=True, sigma_des=0.5, excess=True, adjust_factor=2)),
            "metrics": Case(make, book, dict(diluted_with_cash=False, sigma_des=0.5, excess=False)),
            "risk-adjusted growth": Case(make, risk, dict(sigma_des=0.5), defaults=dict(sigma_des=0.1)),
        }
    if pid == "C27":
        rows = lambda out: {k: [t.ws, t.returns] for k, t in out.items()}
        return {
            "EqWeighted": Case(make, lambda returns, sigmas, **kw: rows(pb.EqWeighted(returns, [sigmas], ["a"], **kw).backtest()), defaults=dict(start_date=None, end_date=None)),
            "MeanVariance": Case(more, lambda returns, sigmas, means, sigma_tar, **kw: rows(pb.MeanVariance(returns, [sigmas], ["a"], [means], **kw).backtest(add, sigma_tar)), dict(sigma_tar=0.5), defaults=dict(start_date=None, end_date=None)),
        }

    def portfolio(kind, **fixed):
        def call(returns, sigmas, means=None, **kw):
            tr = Trader(returns, sigmas, r_hats=means)
            tr.backtest(portfolio_type=kind, **fixed, **kw)
            return tr.ws

        return call

    return {
        "vol_cont": Case(make, portfolio("vol_cont", additonal_cons=add), dict(sigma_des=0.5, adjust_factor=4)),
        "robust_min_risk": Case(make, portfolio("robust_min_risk", additonal_cons=add), dict(kappa=2)),
        "mean_variance": Case(more, portfolio("mean_variance", additonal_cons=add), dict(sigma_des=0.5, adjust_factor=4), defaults=dict(cons=[], rhos=None)),
    }


def ccp():
    from .ccp_checks import _State, _State2
    from .reuse_cases import ccp as base

    b = base()
    return {k: Case(mk, call) for k, (mk, call) in b.items()}


def spaces(pid):
    if pid in ("C01", "C02", "C03"):
        return [space(ewma(pid))]
    if pid in ("C08", "C11", "C15", "C17"):
        return [space(combination(pid), tol=1e-4)]
    if pid in ("C19", "C20", "C21"):
        return [space(regularisation(pid), tol=1e-7)]
    if pid in ("C22", "C24", "C25", "C31", "C33"):
        return [space(experiments(pid), tol=1e-4 if pid == "C31" else 1e-7)]
    if pid == "C23":
        return [space(likelihoods())]
    if pid == "C26":
        return [space(helpers())]
    if pid == "C30":
        return [space(forecasts(), tol=1e-7)]
    if pid in ("C27", "C28", "C29"):
        from .trade_checks import standins

        return [space(trading(pid), tol=1e-4, around=standins)]
    if pid == "C32":
        return [space(ccp(), tol=1e-7)]
    return []
