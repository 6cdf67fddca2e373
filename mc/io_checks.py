"""C18: inputs are never modified, results handed out never change."""

from __future__ import annotations

import copy
import itertools

import cvxpy as cp
import numpy as np
import pandas as pd

from cvx.covariance.combination import from_ewmas, from_sigmas
from cvx.covariance.ewma import center, clip, iterated_ewma, volatility
from cvx.covariance.regularization import em_regularize_covariance, regularize_covariance
from experiments.utils.low_rank_ewma import low_rank_iterated_ewma

from . import code
from . import histories as H
from .engine import Space, Violation
from .experts import REAL_SOLVE, bad, generic_case, solver
from .reg_checks import Model, generic_cov

# ------------------------------------------------------------------ deep snapshots


def snap(x):
    """everything a caller can see of an argument or a result"""
    if isinstance(x, pd.DataFrame):
        return ("frame", snap(x.index), snap(x.columns), [str(t) for t in x.dtypes], [snap(x.iloc[:, j].to_numpy()) for j in range(x.shape[1])])
    if isinstance(x, pd.Series):
        return ("series", snap(x.index), str(x.dtype), snap(x.to_numpy()), str(x.name))
    if isinstance(x, pd.Index):
        return ("index", [repr(v) for v in x], str(x.dtype), str(x.name))
    if isinstance(x, np.ndarray):
        return ("array", x.shape, str(x.dtype), x.tobytes() if x.dtype != object else [repr(v) for v in x.ravel()])
    if isinstance(x, dict):
        return ("dict", [(repr(k), snap(v)) for k, v in x.items()])
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return ("tuple", [snap(v) for v in x])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    return repr(x)


def identities(x):
    """the objects a container holds"""
    if isinstance(x, dict):
        return [(repr(k), id(v), identities(v)) for k, v in x.items()]
    if isinstance(x, list):
        return [(id(v), identities(v)) for v in x]
    return None


def arrays(x, product=False):
    """the numpy memory behind a result"""
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return [x]
    if isinstance(x, np.ndarray):
        return [x]
    if product and hasattr(x, "_fields") and "F" in x._fields:  # factors have no unique sign
        return [x.F.values @ x.F.values.T, x.d]
    if isinstance(x, (tuple, list)):
        return [a for v in x for a in arrays(v, product)]
    return []


def overwrite(x, value):
    for a in arrays(x):
        if isinstance(a, np.ndarray):
            if a.flags.writeable and a.dtype.kind == "f":
                a[...] = value
        else:
            v = a.values
            if v.dtype.kind == "f" and v.flags.writeable:
                v[...] = value
            try:
                if a.ndim == 2:
                    a.iloc[:, :] = value
                else:
                    a.iloc[:] = value
            except ValueError:  # read-only memory
                pass


# ------------------------------------------------------------------ the calls

KINDS = ["float", "nan", "int", "float32", "readonly", "view", "int labels", "F"]


def make_returns(kind, T=8, n=3):
    X = H.generic(T, n, 1.0)
    if kind == "nan":
        X[1, 0] = X[4, n - 1] = np.nan
        X[5] = np.nan
    if kind == "int":
        return H.frame(np.round(X * 10), dtype="int64"), None
    if kind == "float32":
        return H.frame(X, dtype="float32"), None
    if kind == "int labels":
        return H.frame(X, "int7", "rev"), None
    if kind == "F":
        return pd.DataFrame(np.asfortranarray(X), index=H.index("date", T), columns=H.columns("str", n), copy=False), None
    if kind == "readonly":
        X = X.copy()
        X.setflags(write=False)
        return pd.DataFrame(X, index=H.index("date", T), columns=H.columns("str", n), copy=False), X
    if kind == "view":
        base = H.frame(H.generic(T + 3, n + 2, 1.0))
        return base.iloc[2 : 2 + T, 1 : 1 + n], base
    return H.frame(X), None


def make_sigmas(K=2, T=8, n=3, means=False):
    """... matrices that differ from their transposes by rounding, as computed covariances do"""
    args = generic_case(T, n, K, 1.0, means).args()
    if n > 1:
        for d in args[0].values():
            for m in d.values():
                m.iloc[0, n - 1] = np.nextafter(m.iloc[0, n - 1], np.inf)
    return args


def dicts(n=3, T=3, rank=2, kind="float"):
    """covariances and initial models; unless `kind` is "F" the matrices differ from their transposes by rounding, as
    computed covariances do"""
    sig = {f"t{i}": pd.DataFrame(generic_cov(n, i), index=H.columns("str", n), columns=H.columns("str", n)) for i in range(T)}
    init = {t: Model(pd.DataFrame(np.sin(np.arange(1.0 * rank * n) + i).reshape(n, rank), index=s.columns), pd.Series(0.5 + np.arange(n) / 3, index=s.columns)) for i, (t, s) in enumerate(sig.items())}
    if kind not in ("F", "int"):
        for s in sig.values():
            s.iloc[0, n - 1] = np.nextafter(s.iloc[0, n - 1], np.inf)
    return sig, init


IEWMA = [
    dict(vola_halflife=2, cov_halflife=3, min_periods_vola=1, min_periods_cov=1),
    dict(vola_halflife=3, cov_halflife=2, min_periods_vola=2, min_periods_cov=2, clip_at=0.9),
    dict(vola_halflife=2, cov_halflife=4, min_periods_vola=2, min_periods_cov=2, mean=True),
    dict(vola_halflife=2, cov_halflife=4, min_periods_vola=0, min_periods_cov=3, mean=True, clip_at=1.1, mu_halflife1=1, mu_halflife2=5),
    dict(vola_halflife=2, cov_halflife=4, min_periods_vola=1, min_periods_cov=2, nan_to_num=False),
]

CALLS = {}


def call(name):
    def deco(f):
        CALLS[name] = f
        return f

    return deco


# every call: kind of input -> (arguments to watch, thunk giving an iterator over results)
for _i, _c in enumerate(IEWMA):
    CALLS[f"iterated_ewma{_i}"] = lambda k, _c=_c: (lambda rb: ([rb], lambda: iterated_ewma(rb[0], **_c)))(make_returns(k))
for _i, _a in enumerate([dict(), dict(min_periods=2, clip_at=1.2)]):
    CALLS[f"volatility{_i}"] = lambda k, _a=_a: (lambda rb: ([rb], lambda: iter([volatility(rb[0], 3, **_a)])))(make_returns(k))
for _i, _a in enumerate([dict(mean_adj=True), dict(mean_adj=False), dict(min_periods=2, mean_adj=True)]):
    CALLS[f"center{_i}"] = lambda k, _a=_a: (lambda rb: ([rb], lambda: iter([center(rb[0], 3, **_a)])))(make_returns(k))
for _i, _a in enumerate([dict(clip_at=0.5), dict()]):
    CALLS[f"clip{_i}"] = lambda k, _a=_a: (lambda rb: ([rb], lambda: iter([clip(rb[0], **_a)])))(make_returns(k))
for _i, _c in enumerate([IEWMA[0], IEWMA[1], IEWMA[2]]):
    CALLS[f"low_rank_iterated_ewma{_i}"] = lambda k, _c=_c: (
        lambda rb: ([rb], lambda: low_rank_iterated_ewma(rb[0].fillna(0.0) if k == "nan" else rb[0], rank=2, **_c))
    )(make_returns(k))


@call("from_ewmas")
def _(k):
    rb = make_returns(k, 11)
    pairs = [(2, 3), (3, 5)]

    def go():
        comb = from_ewmas(rb[0], pairs, 2, 4)
        return comb.solve(window=2)

    return [rb, pairs], go


@call("from_ewmas mean")
def _(k):
    rb = make_returns(k, 11)
    pairs = [[2, 3], [3, 5]]
    times = list(rb[0].index[-3:])

    def go():
        comb = from_ewmas(returns=rb[0], pairs=pairs, min_periods_vola=2, min_periods_cov=5, clip_at=1.5, mean=True)
        return comb.solve(window=3, times=times)

    return [rb, pairs, times], go


for _i in range(4):

    def _f(k, _i=_i):
        sig, ret, mu = make_sigmas(means=_i % 2 == 1)
        if k in ("int", "float32"):
            ret = np.round(ret * 10).astype("int64" if k == "int" else "float32")
        if k == "readonly":
            ret.values.setflags(write=False)
            for s in sig.values():
                for m in s.values():
                    m.values.setflags(write=False)
        if k == "nan":  # experts and returns on different times
            sig["e0"].pop(ret.index[0])
            if mu is not None:
                mu["e0"].pop(ret.index[0])
        times = None if _i < 2 else list(ret.index[3:6])

        def go():
            comb = from_sigmas(sig, ret, means=mu) if mu is not None else from_sigmas(sig, ret)
            return comb.solve(window=2, times=times) if times else comb.solve()

        return [sig, ret, mu, times], go

    CALLS[f"from_sigmas{_i}"] = _f

for _i in range(4):

    def _f(k, _i=_i):
        """one expert; one asset"""
        sig, ret, mu = make_sigmas(1, 6, 1 if _i >= 2 else 3, means=_i % 2 == 1)
        if k == "readonly":
            for s in sig.values():
                for m in s.values():
                    m.values.setflags(write=False)
        return [sig, ret, mu], lambda: (from_sigmas(sig, ret, means=mu) if mu is not None else from_sigmas(sig, ret)).solve(window=2)

    CALLS[f"from_sigmas single{_i}"] = _f


@call("from_ewmas single")
def _(k):
    rb = make_returns(k, 11, 2)
    pairs = [(2, 3)]
    return [rb, pairs], lambda: from_ewmas(rb[0], pairs, 2, 4, mean=True).solve(window=2)


@call("iterated_ewma one asset")
def _(k):
    rb = make_returns(k, 8, 1) if k != "nan" else make_returns("float", 8, 1)
    return [rb], lambda: iterated_ewma(rb[0], **IEWMA[0])


for _i in range(6):

    def _f(k, _i=_i):
        sig, _ = dicts(kind=k)
        if k in ("int",):
            sig = {t: (s * 100).round().astype("int64") for t, s in sig.items()}
        if k == "readonly":
            for s in sig.values():
                s.values.setflags(write=False)
        return [sig], lambda: regularize_covariance(sig, 1 + _i // 2, low_rank_format=bool(_i % 2))

    CALLS[f"regularize{_i}"] = _f


for _i in (1, 2, 3):

    def _f(k, _i=_i):
        sig, init = dicts(n=3 + (_i == 3), rank=_i, kind=k)
        if k == "readonly":
            for s in sig.values():
                s.values.setflags(write=False)
            for m in init.values():
                m.F.values.setflags(write=False)
                m.d.values.setflags(write=False)
        return [sig, init], lambda: em_regularize_covariance(sig, init)

    CALLS[f"em{_i}"] = _f

for _i in range(5):

    def _f(k, _i=_i):
        """initial models and covariances at the edge: vanishing variances, vanishing or huge factors"""
        sig, init = dicts(kind=k)
        for m in init.values():
            if _i == 0:
                m.d.iloc[1] = 1e-13
            elif _i == 1:
                m.d.iloc[:] = 1e-10
            elif _i == 2:
                m.F.iloc[:, :] = 0.0
            elif _i == 3:
                m.F.iloc[:, :] *= 1e6
                m.d.iloc[0] = 1e8
            else:
                m.d.iloc[2] *= 1e-9
        return [sig, init], lambda: em_regularize_covariance(sig, init)

    CALLS[f"em edge{_i}"] = _f

for _i in range(8):

    def _f(k, _i=_i):
        """covariances at the edge: exactly low rank, negative eigenvalues, tiny or vanishing variances"""
        sig, _ = dicts(kind=k)
        for s in sig.values():
            if _i // 2 == 0:
                s.iloc[:, :] = np.outer([1.0, 2, -1], [1.0, 2, -1])
            elif _i // 2 == 1:
                s.iloc[:, :] = np.array([[1, 0.9, -0.9], [0.9, 1, 0.9], [-0.9, 0.9, 1.0]])
            elif _i // 2 == 2:
                s.iloc[0, 0] = 1e-12
            else:
                s.iloc[:, 0] = s.iloc[0, :] = 1e-4
                s.iloc[0, 0] = 1e9
        return [sig], lambda: regularize_covariance(sig, 2, low_rank_format=bool(_i % 2))

    CALLS[f"regularize edge{_i}"] = _f


def consume(it, limit=None):
    out = []
    with code.quiet():
        for x in it:
            out.append(x)
            if limit is not None and len(out) >= limit:
                if hasattr(it, "close"):
                    it.close()
                break
    return out


def watch(args):
    return snap(args), identities(args)


def unchanged(before, args, what):
    if snap(args) != before[0]:
        bad(f"{what}: an argument was modified")
    if identities(args) != before[1]:
        bad(f"{what}: an object inside an argument was replaced")


def c18(deep):
    def gen_inputs():
        for name in CALLS:
            for k in KINDS:
                for cut in [None, 1, 2, 3] if not deep else [None, 1, 2, 3, 4, 5, 6]:
                    yield [name, k, cut]

    def run_inputs(ctx, sc):
        name, k, cut = sc
        args, go = CALLS[name](k)
        before = watch(args)
        out = consume(go(), cut)
        ctx.trace()
        ctx.step(len(out))
        ctx.state("in", *sc)
        unchanged(before, args, f"{name} ({k})")
        # a second call on the same arguments gives the same
        again = consume(go(), cut)
        ctx.trace()
        unchanged(before, args, f"{name} ({k}), second call")
        if len(out) != len(again):
            bad(f"{name}: a second call on the same arguments gives another number of results", first=len(out), second=len(again))
        for a, b in zip(out, again):
            if snap(a) != snap(b):
                if not near(a, b):
                    bad(f"{name}: a second call on the same arguments gives other results", first=a, second=b)

    def near(a, b):
        xs, ys = arrays(a, True), arrays(b, True)
        return len(xs) == len(ys) and all(
            np.shape(x) == np.shape(y) and np.allclose(np.asarray(x, float), np.asarray(y, float), rtol=1e-6, atol=1e-9, equal_nan=True) for x, y in zip(xs, ys)
        )

    ITER = [n for n in CALLS if not n.startswith(("volatility", "center", "clip"))]

    def gen_consumer():
        for name in ITER:
            for m in (5,) if not deep else (7,):
                for mask in range(1, 2**m):
                    yield [name, mask]

    cache = {}

    def run_consumer(ctx, sc):
        """the consumer overwrites the results at the steps of `mask`; every other result equals the undisturbed one,
        at once and at the end"""
        name, mask = sc
        if name not in cache:
            cache.clear()
            _, go = CALLS[name]("float")
            cache[name] = [copy.deepcopy(x) for x in consume(go())]
        want = cache[name]
        args, go = CALLS[name]("float")
        before = watch(args)
        it = go()
        kept = []
        with code.quiet():
            for i, x in enumerate(it):
                ctx.step()
                if i >= len(want) or not same(x, want[i]):
                    bad(f"{name}: overwriting earlier results changes result {i}", mask=bin(mask), got=x, want=want[i] if i < len(want) else None)
                if mask >> i & 1:
                    overwrite(x, [1e9, np.nan, -7.0][(i + mask) % 3])
                else:
                    kept.append((i, x))
        for i, x in kept:
            if not same(x, want[i]):
                bad(f"{name}: result {i} changed after it was handed out", mask=bin(mask), got=x, want=want[i])
        ctx.trace()
        ctx.state("consumer", *sc)
        unchanged(before, args, f"{name}: overwriting results")

    def same(a, b):
        return snap(a) == snap(b) or near(a, b)

    def gen_comb():
        for first in range(1, 5):
            for mode in ("weights", "covariance", "mean", "all"):
                for means in (0, 1):
                    for w in (1, 2, None):
                        for n, K in ((2, 3), (2, 1), (1, 1), (1, 2)):
                            yield [first, mode, means, w, n, K]

    def run_comb(ctx, sc):
        """overwriting the results of one solve does not change a later solve on the same object"""
        first, mode, means, w, n, K = sc
        c = generic_case(7, n, K, 1.0, bool(means))
        want = consume(c.build().solve(window=w))
        comb = c.build()
        before = watch([comb.sigmas, comb.means, comb.returns])
        for x in consume(comb.solve(window=w), first):
            overwrite(x if mode == "all" else getattr(x, mode), 1e6)
        unchanged(before, [comb.sigmas, comb.means, comb.returns], "overwriting results: the combinator's data")
        got = consume(comb.solve(window=w))
        ctx.trace(3)
        ctx.step(len(got))
        ctx.state("comb", *sc)
        if len(got) != len(want) or not all(same(a, b) for a, b in zip(got, want)):
            bad("overwriting the results of one solve changes a later solve")

    def gen_fail():
        for name in ["from_sigmas0", "from_sigmas1", "from_sigmas2", "from_sigmas3", "from_ewmas", "from_ewmas mean"]:
            for mask in range(1, 16):
                for kind in ("raise", "crash"):
                    yield ["solver", name, mask, kind]
        for kind in ("means", "times gap", "times unknown", "times order", "singular", "label", "em missing"):
            yield [kind]

    def run_fail(ctx, sc):
        """calls that fail leave their arguments alone"""
        ctx.trace()
        ctx.step()
        ctx.state("fail", *sc)
        if sc[0] == "solver":
            _, name, mask, kind = sc
            args, go = CALLS[name]("float")
            before = watch(args)
            n = [0]

            def fake(problem, *a, **k):
                n[0] += 1
                if mask >> (n[0] - 1) & 1:
                    if kind == "crash":
                        raise RuntimeError("injected")
                    raise cp.SolverError("injected")
                return REAL_SOLVE(problem, *a, **k)

            with solver(fake):
                try:
                    consume(go())
                except RuntimeError:
                    pass
            unchanged(before, args, f"{name}, solver failure")
            return
        kind = sc[0]
        sig, ret, mu = make_sigmas(means=True)
        times = list(ret.index[3:6])
        if kind == "means":
            mu["e1"].pop(ret.index[4])
        if kind == "times gap":
            times.pop(1)
        if kind == "times unknown":
            times.append("nowhere")
        if kind == "times order":
            times.reverse()
        if kind == "singular":
            sig["e1"][ret.index[3]].iloc[:, :] = 0.0
        if kind == "label":
            ret = ret.iloc[:4]
        if kind == "em missing":
            s, init = dicts()
            init.pop("t1")
            before = watch([s, init])
            try:
                consume(em_regularize_covariance(s, init))
                bad("a missing initial model is accepted")
            except KeyError:
                pass
            unchanged(before, [s, init], kind)
            return
        args = [sig, ret, mu, times]
        before = watch(args)
        try:
            consume(from_sigmas(sig, ret, means=mu).solve(window=2, times=times))
            bad(f"{kind}: accepted")
        except (AssertionError, KeyError, np.linalg.LinAlgError, TypeError):
            pass
        unchanged(before, args, kind)

    SPOIL = ["nan", "one nan", "inf", "zero", "minus", "asymmetric", "tiny", "none", "array", "smaller", "other labels", "gone"]

    def leaves(x, path=()):
        """the frames and series in the arguments, with the container that holds them"""
        if isinstance(x, dict):
            for k, v in x.items():
                if isinstance(v, (pd.DataFrame, pd.Series, np.ndarray)):
                    yield x, k, v
                elif hasattr(v, "_fields"):
                    yield x, k, v.F
                else:
                    yield from leaves(v)
        elif isinstance(x, tuple):
            for v in x[:1]:
                if isinstance(v, pd.DataFrame):
                    yield None, None, v
        elif isinstance(x, list):
            for v in x:
                if isinstance(v, pd.DataFrame):
                    yield None, None, v
                else:
                    yield from leaves(v)

    def gen_spoiled():
        for name in CALLS:
            for how in SPOIL:
                for which in ("first", "middle", "last", "pair"):
                    yield [name, how, which]

    def spoil(x, how):
        v = x.values if isinstance(x, (pd.DataFrame, pd.Series)) else x
        v = v.copy()
        if how == "nan":
            v[...] = np.nan
        elif how == "one nan":
            v.flat[v.size // 2] = np.nan
        elif how == "inf":
            v.flat[0] = np.inf
        elif how == "zero":
            v[...] = 0
        elif how == "minus":
            v = -v
        elif how == "tiny":
            v = v * 1e-30
        elif how == "asymmetric":
            v.flat[-2 if v.size > 1 else 0] += 0.7
        if isinstance(x, pd.DataFrame):
            x.iloc[:, :] = v
        elif isinstance(x, pd.Series):
            x.iloc[:] = v
        else:
            x[...] = v

    def run_spoiled(ctx, sc):
        """inputs that cannot be used, wholly or at one time: whatever becomes of the call, they stay as they are"""
        name, how, which = sc
        args, go = CALLS[name]("float")
        all_ = list(leaves(args))
        pick = {"first": all_[:1], "middle": [all_[len(all_) // 2]], "last": all_[-1:], "pair": [all_[0], all_[len(all_) // 3]]}[which]
        for box, k, x in pick:
            if how not in ("none", "array", "smaller", "other labels", "gone"):
                spoil(x, how)
            elif box is not None and k in box:
                if how == "gone":
                    box.pop(k)
                else:
                    box[k] = {"none": None, "array": np.array(x), "smaller": x[:-1], "other labels": x.set_axis([f"Q{i}" for i in range(len(x))]) if hasattr(x, "set_axis") else x}[how]
        before = watch(args)
        done = []
        try:
            it = go()
            for x in it:
                done.append(x)
                unchanged(before, args, f"{name}, {how}, after {len(done)} results")
        except Violation:
            raise
        except Exception:
            ctx.hit("refused", name, how)
        ctx.trace()
        ctx.step(len(done))
        ctx.state("spoiled", *sc)
        unchanged(before, args, f"{name}, {how}")

    return [
        Space("unusable arguments", f"{len(CALLS)} calls x {len(SPOIL)} ways to spoil one or two of the frames: NaN, infinite, zero, negative, missing, of other shape", gen_spoiled, run_spoiled),
        Space("arguments", f"{len(CALLS)} calls x 8 kinds of input x complete or abandoned consumption, each twice", gen_inputs, run_inputs),
        Space("adversarial consumer", "every subset of the first steps at which the consumer overwrites what it received", gen_consumer, run_consumer),
        Space("later solves", "overwriting results of one solve, then solving again", gen_comb, run_comb),
        Space("failing calls", "solver failures at every subset of steps; rejected arguments", gen_fail, run_fail),
    ]
