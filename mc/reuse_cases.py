"""The calls of each property, for the histories of in-place changes in reuse.py."""

from __future__ import annotations

import numpy as np
import pandas as pd

from . import code
from . import histories as H
from .reuse import space


def returns(T=9, n=3, unit=0.01):
    return lambda: {"returns": H.frame(H.generic(T, n, unit))}


def ewma(pid):
    from cvx.covariance.ewma import center, iterated_ewma, volatility

    if pid == "C01":
        return {f"volatility{k}": (returns(), lambda returns, c=c: volatility(returns, 3, **c)) for k, c in enumerate([{}, dict(min_periods=2, clip_at=0.8)])}
    if pid == "C02":
        cfgs = [dict(vola_halflife=2, cov_halflife=3, min_periods_vola=1, min_periods_cov=1), dict(vola_halflife=3, cov_halflife=2, min_periods_vola=2, min_periods_cov=2, clip_at=0.9)]
        return {f"iterated_ewma{k}": (returns(), lambda returns, c=c: list(iterated_ewma(returns, **c))) for k, c in enumerate(cfgs)}
    cfg = dict(vola_halflife=2, cov_halflife=4, min_periods_vola=2, min_periods_cov=2, mean=True)
    return {
        "center": (returns(), lambda returns: center(returns, 3, min_periods=1, mean_adj=True)),
        "iterated_ewma with means": (returns(), lambda returns: list(iterated_ewma(returns, **cfg))),
    }


def combination(pid):
    from cvx.covariance.combination import from_sigmas

    from .experts import generic_case

    def solve(comb, **kw):
        with code.quiet():
            return [None if r is None else [r.time, r.weights, r.covariance, r.mean] for r in comb.solve(**kw)]

    def make(means):
        def f():
            s, r, m = generic_case(6, 2, 2, 1.0, means).args()
            return {"sigmas": s, "returns": r, **({"means": m} if means else {})}

        return f

    if pid in ("C08", "C09", "C14"):
        return {"from_sigmas": (make(False), lambda sigmas, returns: solve(from_sigmas(sigmas, returns), window=3))}
    return {"from_sigmas with means": (make(True), lambda sigmas, returns, means: solve(from_sigmas(sigmas, returns, means=means), window=3))}


def ewmas():
    from cvx.covariance.combination import from_ewmas

    def call(returns):
        with code.quiet():
            return [[r.time, r.weights, r.covariance, r.mean] for r in from_ewmas(returns, [(2, 3), (3, 5)], 2, 4).solve(window=3) if r is not None]

    return {"from_ewmas": (returns(11, 2), call)}


def product(m):
    return [pd.DataFrame(m.F.values @ m.F.values.T, index=m.F.index, columns=m.F.index), m.d] if hasattr(m, "F") else m


def regularisation(pid):
    from cvx.covariance.regularization import em_regularize_covariance, regularize_covariance

    from .io_checks import dicts

    if pid in ("C19", "C20"):
        return {
            f"regularize_covariance{r}{'f' if low else ''}": (
                lambda: {"sigmas": dicts(4, 2)[0]},
                lambda sigmas, r=r, low=low: [[t, product(m)] for t, m in regularize_covariance(sigmas, r, low_rank_format=low)],
            )
            for r in (1, 2)
            for low in ((False,) if pid == "C19" else (False, True))
        }

    def make():
        s, i = dicts(4, 2)
        return {"sigmas": s, "initial": i}

    return {"em_regularize_covariance": (make, lambda sigmas, initial: [[t, product(m)] for t, m in em_regularize_covariance(sigmas, initial)])}


def likelihoods():
    from cvx.covariance.regularization import regularize_covariance
    from experiments.utils import experiment_utils as u

    from .reg_checks import generic_cov

    def dated():
        f = H.frame(H.generic(4, 3, 1.0))
        return {
            "returns": f,
            "sigmas": {t: pd.DataFrame(generic_cov(3, i), index=f.columns, columns=f.columns) for i, t in enumerate(f.index)},
            "means": pd.DataFrame(0.4 * H.generic(4, 3, 1.0)[::-1], index=f.index, columns=f.columns),
        }

    def low():
        a = dated()
        return {"returns": a["returns"], "models": {t: m._replace(F=m.F.copy(), d=m.d.copy()) for t, m in regularize_covariance(a["sigmas"], 1, low_rank_format=True)}}

    def plain():
        return {"returns": H.generic(3, 2, 1.0), "sigmas": np.array([generic_cov(2, t) for t in range(3)]), "means": 0.3 * H.generic(3, 2, 1.0)[::-1].copy()}

    return {
        "log_likelihood": (plain, lambda returns, sigmas, means: u.log_likelihood(returns, sigmas, means)),
        "log_likelihood_sequential": (plain, lambda returns, sigmas, means: u.log_likelihood_sequential(returns, sigmas, means)),
        "log_likelihood_regularized": (dated, lambda returns, sigmas, means: u.log_likelihood_regularized(returns, sigmas, means, 1)),
        "log_likelihood_low_rank": (low, lambda returns, models: u.log_likelihood_low_rank(returns, models)),
    }


def helpers():
    from experiments.utils import experiment_utils as u

    from .reg_checks import generic_cov

    def intraday():
        return {"returns": pd.DataFrame(H.generic(9, 2), index=np.repeat(H.index("date", 3), 3), columns=["A", "B"])}

    def mse():
        f = H.frame(H.generic(4, 2, 1.0))
        return {"returns": f, "sigmas": {t: pd.DataFrame(generic_cov(2, i), index=f.columns, columns=f.columns) for i, t in enumerate(f.index[:-1])}}

    return {
        "realized_volas": (intraday, lambda returns: [[t, v] for t, v in u.realized_volas(returns)]),
        "realized_ewma": (intraday, lambda returns: [[t, v] for t, v in u.realized_ewma(returns, 2)]),
        "MSE": (mse, lambda returns, sigmas: u.MSE(returns, sigmas)),
        "add_to_diagonal": (lambda: {"sigmas": mse()["sigmas"]}, lambda sigmas: u.add_to_diagonal({t: s.copy() for t, s in sigmas.items()}, 0.1)),
        "turnover": (lambda: {"weights": H.generic(5, 2, 1.0)}, lambda weights: u.turnover(weights)),
        "from_row_matrix_to_covariance": (lambda: {"rows": H.generic(3, 6, 1.0)}, lambda rows: u.from_row_matrix_to_covariance(rows, 3)),
    }


def experiments(pid):
    if pid == "C22":
        from experiments.utils.low_rank_ewma import low_rank_iterated_ewma

        cfg = dict(vola_halflife=2, cov_halflife=3, min_periods_vola=1, min_periods_cov=2)
        return {"low_rank_iterated_ewma": (returns(), lambda returns: [[x.time, x.mean, product(x.covariance)[0].values + np.diag(x.covariance.d.values), x.volatility] for x in low_rank_iterated_ewma(returns, rank=2, **cfg)])}
    if pid == "C24":
        from experiments.utils.experiment_utils import rolling_window

        return {"rolling_window": (returns(), lambda returns: rolling_window(returns, 4, min_periods=2))}
    if pid == "C25":
        from experiments.utils.iterated_ewma_vec import iterated_ewma

        return {
            f"iterated_ewma{k}": (returns(12, 2), lambda returns, c=c: list(iterated_ewma(returns, 3, 4, min_periods_vola=2, min_periods_cov=2, **c)))
            for k, c in enumerate([{}, dict(mean=True), dict(clip_at=1.0)])
        }
    if pid == "C31":
        from experiments.utils.factor_model import FactorModel, construct_factor_covariance, factor_log_likelihood, from_factor_to_full_covariance

        from .reg_checks import generic_cov

        def models():
            f = H.frame(H.generic(3, 3, 1.0))
            names = ["F0", "F1"]
            return {
                "returns": f,
                "models": [
                    FactorModel(t, pd.DataFrame(np.sin(np.arange(6.0).reshape(2, 3) + i), index=names, columns=f.columns), pd.DataFrame(generic_cov(2, i), index=names, columns=names), pd.Series([0.3, 0.5, 0.4], index=f.columns))
                    for i, t in enumerate(f.index[:2])
                ],
            }

        def factors(returns):
            with code.quiet():
                return construct_factor_covariance(returns, [(3, 6), (6, 3)], returns.index[4])

        return {
            "construct_factor_covariance": (returns(18, 1, 1.0), factors),
            "factor_log_likelihood": (models, lambda returns, models: factor_log_likelihood(returns, models)),
            "from_factor_to_full_covariance": (lambda: {"models": models()["models"]}, lambda models: from_factor_to_full_covariance(models)),
        }
    if pid == "C33":
        from .rho_checks import construct_rho

        return {"construct_rho": (returns(), lambda returns: construct_rho(returns, 2))}
    raise KeyError(pid)


def forecasts():
    from experiments.utils.return_combination import ReturnCombinator, daily_predictors, ewma_predictors, feature_engineer, tune_alpha

    def make():
        r = H.frame(H.generic(9, 2))
        return {"returns": r, "forecasts": [pd.DataFrame(H.generic(9 + 3 * i, 2, 0.004)[3 * i :], index=r.index, columns=["p", "q"]) for i in (1, 2)]}

    def fit(returns, forecasts):
        with code.quiet():
            return ReturnCombinator().fit(returns, forecasts, 4, 0.5)

    def tune(returns, forecasts):
        with code.quiet():
            return tune_alpha(returns, forecasts, [0.5, 2.0], memory=4)

    def series():
        return {"returns": pd.Series(H.generic(8, 1).flatten(), index=H.index("date", 8))}

    return {
        "ReturnCombinator.fit": (make, fit),
        "tune_alpha": (make, tune),
        "daily_predictors": (series, lambda returns: daily_predictors(returns, [1, 2])),
        "ewma_predictors": (series, lambda returns: ewma_predictors(returns, [1, 3])),
        "feature_engineer": (lambda: {"forecasts": H.frame(H.generic(5, 2))}, lambda forecasts: feature_engineer(forecasts).values),
    }


def trading(pid):
    from .trade_checks import sigmas, standins

    with standins():
        import experiments.utils.portfolio_backtests as pb
        from experiments.utils.trading_model import Trader

    def make():
        f = H.frame(H.generic(4, 2))
        return {"returns": f, "sigmas": sigmas(f.index, f.columns)}

    def more():
        a = make()
        return {**a, "means": H.frame(H.generic(4, 2, 0.001))}

    add = {"short_lim": 3.0, "upper_bound": 2.0, "lower_bound": -2.0}
    if pid == "C27":

        def weights(out):
            return {k: [t.ws, t.returns] for k, t in out.items()}

        return {
            "EqWeighted": (make, lambda returns, sigmas: weights(pb.EqWeighted(returns, [sigmas], ["a"]).backtest())),
            "MinRisk": (make, lambda returns, sigmas: weights(pb.MinRisk(returns, [sigmas], ["a"]).backtest(add))),
            "MeanVariance": (more, lambda returns, sigmas, means: weights(pb.MeanVariance(returns, [sigmas], ["a"], [means]).backtest(add, 0.1))),
        }
    if pid == "C28":

        def book(returns, sigmas, rf):
            tr = Trader(returns, sigmas)
            tr.backtest("eq_weighted")
            a = tr.get_metrics(rf=rf, excess=True)
            b = tr.get_metrics(diluted_with_cash=True, sigma_des=0.1, rf=rf)
            return [list(a), list(b), tr.ws_diluted, np.array(tr.rets, float), np.array(tr.Vs, float)]

        return {"metrics": (lambda: {**make(), "rf": pd.Series(0.0001 * np.arange(1.0, 5), index=H.index("date", 4))}, book)}

    def portfolio(kind, **kw):
        def call(returns, sigmas, means=None):
            tr = Trader(returns, sigmas, r_hats=means)
            tr.backtest(portfolio_type=kind, **kw)
            return tr.ws

        return call

    return {
        "min_risk": (make, portfolio("min_risk", additonal_cons=add)),
        "risk_parity": (make, portfolio("risk_parity")),
        "max_diverse": (make, portfolio("max_diverse", additonal_cons={"upper_bound": 0.8})),
        "mean_variance": (more, portfolio("mean_variance", additonal_cons=add, sigma_des=0.1)),
    }


def ccp():
    from .ccp_checks import _State, _State2

    def call(cls):
        def f(sigma, F, d):
            st = cls(sigma.copy(), F.copy(), d.copy())
            A, b = st.build()
            return [A @ A.T, b, st.objective()]

        return f

    def make():
        return {"sigma": np.array([[2, 0.5, 0.3], [0.5, 1, 0.2], [0.3, 0.2, 1.5]]), "F": np.array([[1.0], [0.5], [-0.3]]), "d": np.array([0.5, 0.7, 0.9])}

    return {"_State": (make, call(_State)), "_State2": (make, call(_State2))}


def spaces(pid):
    if pid in ("C01", "C02", "C03"):
        return [space(ewma(pid))]
    if pid in ("C08", "C09", "C14", "C17"):
        return [space(combination(pid), tol=1e-4)]
    if pid == "C15":
        return [space(ewmas(), tol=1e-4)]
    if pid in ("C19", "C20", "C21"):
        return [space(regularisation(pid))]
    if pid in ("C22", "C24", "C25", "C31", "C33"):
        return [space(experiments(pid), tol=1e-4 if pid == "C31" else 1e-7)]
    if pid == "C23":
        return [space(likelihoods())]
    if pid == "C26":
        return [space(helpers())]
    if pid == "C30":
        return [space(forecasts())]
    if pid in ("C27", "C28", "C29"):
        from .trade_checks import standins

        return [space(trading(pid), depth=1 if pid != "C28" else 2, tol=1e-4, around=standins)]
    if pid == "C32":
        return [space(ccp())]
    return []
