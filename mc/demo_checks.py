"""C35: the interactive demo (book/marimo/demo.py) and the examples of README.md."""

from __future__ import annotations

import contextlib
import functools
import importlib.util
import inspect
import itertools
import os
import re
import sys
import tempfile
import types

import numpy as np
import pandas as pd
from pandas.plotting import _core

from . import histories as H
from . import ref
from .code import REPO, quiet
from .engine import Space
from .experts import Case, bad, check_blend, check_weights

DEMO = os.path.join(REPO, "book", "marimo", "demo.py")
README = os.path.join(REPO, "README.md")
STOCKS = ["GOOG", "AAPL", "FB"]
PAIRS = [(10, 10), (21, 21), (21, 63)]
KEYS = [f"{a}-{b}" for a, b in PAIRS]
WINDOW, CLIP, WARM = 10, 4.2, 20


class App:
    """stands in for marimo: collects the cells"""

    def __init__(self, *a, **k):
        self.cells = []

    def cell(self, *a, **k):
        if a and callable(a[0]):
            self.cells.append(a[0])
            return a[0]
        return lambda f: self.cell(f)

    def function(self, f=None, **k):
        return f if f is not None else lambda g: g

    def run(self, *a, **k):
        raise AssertionError("the demo runs itself when it is imported")


class Anything:
    """stands in for the page: every attribute and call is another one"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()

    def __call__(self, *a, **k):
        return Anything()


def marimo():
    m = types.ModuleType("marimo")
    m.App = App
    m.__getattr__ = lambda name: Anything()
    return m


def defs(f):
    """the names a cell hands on: those in its return statement"""
    import ast
    import textwrap

    tree = ast.parse(textwrap.dedent(inspect.getsource(f)))
    out = ()
    for node in ast.walk(tree):
        if isinstance(node, ast.Return) and node.value is not None:
            v = node.value
            out = tuple(e.id for e in (v.elts if isinstance(v, ast.Tuple) else [v]) if isinstance(e, ast.Name))
    return out


@functools.lru_cache(maxsize=1)
def notebook():
    """-> list of (function, names it uses, names it defines)"""
    if not os.path.exists(DEMO):
        return None
    old = sys.modules.get("marimo")
    sys.modules["marimo"] = marimo()
    try:
        spec = importlib.util.spec_from_file_location("mc_demo", DEMO)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
    finally:
        if old is None:
            del sys.modules["marimo"]
        else:
            sys.modules["marimo"] = old
    app = next((v for v in vars(mod).values() if isinstance(v, App)), None)
    if app is None or not app.cells:
        return None
    return [(f, tuple(inspect.signature(f).parameters), defs(f)) for f in app.cells]


def graph():
    """-> for each cell the cells it depends on"""
    cells = notebook()
    owner = {}
    for i, (_, _, d) in enumerate(cells):
        for name in d:
            if name in owner:
                bad("two cells define the same name: the notebook does not run", name=name)
            owner[name] = i
    needs = []
    for i, (_, uses, _) in enumerate(cells):
        for name in uses:
            if name not in owner and not (name.startswith("__") and name.endswith("__")):
                bad("a cell uses a name that no cell defines", name=name)
        needs.append({owner[u] for u in uses if u in owner})
    return needs


def extensions(needs):
    """all orders of the cells in which each comes after those it depends on"""
    n = len(needs)

    def go(done):
        if len(done) == n:
            yield tuple(done)
            return
        for i in range(n):
            if i not in done and needs[i] <= set(done):
                yield from go(done + [i])

    return list(go([]))


def after(needs, start):
    """start and every cell that depends on it, directly or not"""
    out = {start}
    while True:
        more = {i for i, d in enumerate(needs) if d & out} - out
        if not more:
            return out
        out |= more


@contextlib.contextmanager
def charts(into):
    """record the frames that are drawn, with any plotting backend"""
    rec = types.ModuleType("recorder")
    rec.plot = lambda data, kind=None, **k: into.append((data, kind))
    old_backends, old = dict(_core._backends), pd.get_option("plotting.backend")
    for name in ("plotly", "matplotlib"):
        _core._backends[name] = rec
    modules = sys.modules.get("marimo")
    sys.modules["marimo"] = marimo()
    try:
        yield
    finally:
        _core._backends.clear()
        _core._backends.update(old_backends)
        pd.set_option("plotting.backend", old) if old in old_backends else pd.reset_option("plotting.backend")
        if modules is None:
            del sys.modules["marimo"]
        else:
            sys.modules["marimo"] = modules


class Session:
    """the notebook open on a price file, as marimo runs it"""

    def __init__(self, where):
        self.where, self.names = where, {"__file__": os.path.join(where, "demo.py"), "__name__": "demo"}
        self.cells, self.needs = notebook(), graph()
        self.shown = []

    def run(self, i):
        f, uses, d = self.cells[i]
        with quiet(), charts(self.shown):
            out = f(*[self.names[u] for u in uses])
        if not d:
            return
        out = out if isinstance(out, tuple) else (out,)
        self.names.update(zip(d, out))

    def rerun(self, i):
        """marimo runs a cell and then everything that depends on it"""
        todo = after(self.needs, i)
        for j in next(o for o in extensions(self.needs)):
            if j in todo:
                self.run(j)

    def weights(self):
        """the table of weights the demo shows: the last frame drawn, or else the frame in the notebook with the keys"""
        for data, _ in reversed(self.shown):
            return data
        for v in self.names.values():
            if isinstance(v, pd.DataFrame) and sorted(map(str, v.columns)) == sorted(KEYS):
                return v
        return None


def prices(kind, T, n_other=2, order="first"):
    """price table with the named stocks (and others)"""
    t = np.arange(T)
    P = {}
    for k, s in enumerate(STOCKS):
        r = 0.01 * (k + 1) * np.sin(1.3 * t * (k + 1) + 0.7 * k + t * t * 0.11)
        if kind == "jump":
            r = np.where(t == T - 5 - k, r + (-1) ** k * 0.5, r)
        elif kind == "calm":
            r = np.where(t > T - 8, 1e-4 * r, r)
        elif kind == "trend":
            r = r + 0.01 * (k - 1)
        elif kind == "pause":
            r = np.where(t == T - 4, 0.0, r)
        P[s] = (50 + 400 * k) * np.cumprod(1 + r)
    f = pd.DataFrame(P)
    if kind == "gap":
        f.iloc[T - 6, 1] = np.nan
    for j in range(n_other):
        f[f"X{j}"] = 10 * np.cumprod(1 + 0.02 * np.cos(1.7 * t + j))
    if kind == "listed" and n_other:
        f.iloc[: T // 2, -1] = np.nan  # another stock that is listed later
    if order == "last":
        f = f[list(f.columns)[::-1]]
    elif order == "mixed":
        f = f[[*list(f.columns)[1:], f.columns[0]]]
    f.index = pd.bdate_range("2017-01-03", periods=T, name="date")
    return f


def write(where, f):
    os.makedirs(os.path.join(where, "data"), exist_ok=True)
    f.to_csv(os.path.join(where, "data", "stock_prices.csv"))


@functools.lru_cache(maxsize=64)
def expected(kind, T):
    """the combination of the stocks' simple returns, from the definitions.  -> Case"""
    f = prices(kind, T)[STOCKS].values.copy()
    for t in range(1, T):
        f[t] = np.where(np.isnan(f[t]), f[t - 1], f[t])  # a missing price is the last one: no return
    R = f[1:] / f[:-1] - 1
    sig, mu = [], []
    for a, b in PAIRS:
        steps = ref.iewma(R, a, b, WARM, WARM, mean=True, clip_at=CLIP)
        sig.append({s.row: s.cov for s in steps})
        mu.append({s.row: s.mean for s in steps})
    c = Case(sig, R, mu, keys=KEYS)
    c.idx = prices(kind, T).index[1:]
    c.pos = {t: i for i, t in enumerate(c.idx)}
    return c


class Row:
    def __init__(self, time, weights):
        self.time, self.weights = time, weights


def judge(ctx, w, kind, T, key):
    c = expected(kind, T)
    want = [c.idx[t] for t in c.model.times(WINDOW)]
    if w is None:
        bad("the demo shows no weights")
    if list(w.index) != want:
        bad("the demo does not show one row of weights per time with a full window", got=[str(t) for t in w.index], want=[str(t) for t in want], prices=kind)
    for t in w.index:
        ctx.step()
        ctx.state("demo", kind, T, str(t))
        row = w.loc[t].astype(float)
        if sorted(row.index) != sorted(KEYS):
            bad("the columns are not the half-life pairs", got=list(row.index))
        check_weights(c, Row(t, row[KEYS]), WINDOW, what=f"demo ({key}): ", slack=(5e-3, 1e-5, 1e-6))


def c35(deep):
    T0 = 2 * WARM + WINDOW + 2

    def gen_orders():
        if notebook() is None:
            return
        for i, o in enumerate(extensions(graph())):
            yield [list(o), ("plain", "jump", "trend")[i % 3], T0]

    def run_orders(ctx, sc):
        order, kind, T = sc
        with tempfile.TemporaryDirectory(prefix="mc-demo-") as d:
            write(d, prices(kind, T))
            s = Session(d)
            for i in order:
                s.run(i)
            ctx.trace()
            judge(ctx, s.weights(), kind, T, f"cells in the order {order}")

    KINDS = ["plain", "jump", "calm", "trend", "pause", "gap", "listed"]

    def gen_tables():
        if notebook() is None:
            return
        for kind in KINDS:
            for T in range(T0 - 3, T0 + (12 if deep else 4)):
                for other in (0, 1, 3):
                    for order in ("first", "last", "mixed") if other else ("first", "last"):
                        yield [kind, T, other, order]
        yield ["plain", 130, 3, "mixed"]

    def run_tables(ctx, sc):
        kind, T, other, order = sc
        with tempfile.TemporaryDirectory(prefix="mc-demo-") as d:
            write(d, prices(kind, T, other, order))
            s = Session(d)
            for i in extensions(s.needs)[0]:
                s.run(i)
            ctx.trace()
            if not expected(kind, T).model.times(WINDOW):
                return  # too short for a single window: nothing to show
            judge(ctx, s.weights(), kind, T, str(sc))

    def gen_reruns():
        if notebook() is None:
            return
        n = len(notebook())
        for depth in (1, 2) + ((3,) if deep else ()):
            for seq in itertools.product(range(n), repeat=depth):
                for new in ("same", "new"):
                    yield [list(seq), new]

    def run_reruns(ctx, sc):
        seq, new = sc
        kind = "plain"
        with tempfile.TemporaryDirectory(prefix="mc-demo-") as d:
            write(d, prices(kind, T0))
            s = Session(d)
            for i in extensions(s.needs)[0]:
                s.run(i)
            if new == "new":
                kind = "jump"
                write(d, prices(kind, T0))
            before = s.weights().copy()
            for i in seq:
                s.rerun(i)
                ctx.trace()
                now = s.weights()
                if new == "new" and now.shape == before.shape and np.abs(now.astype(float).values - before.astype(float).values).max() < 1e-9:
                    continue  # the cell that reads the prices did not run again
                judge(ctx, now, kind, T0, f"rerunning cells {seq}, {new} prices")
            for i in extensions(s.needs)[0]:
                s.run(i)
            judge(ctx, s.weights(), kind, T0, f"rerunning cells {seq}, {new} prices, then all")

    def gen_causal():
        if notebook() is None:
            return
        for kind in KINDS:
            for T in range(T0 + 1, T0 + (16 if deep else 8)):
                yield [kind, T]

    def run_causal(ctx, sc):
        kind, T = sc
        out = []
        with tempfile.TemporaryDirectory(prefix="mc-demo-") as d:
            full = prices(kind, T)
            for f in (full, full.iloc[:-1], pd.concat([full.iloc[:-1], full.iloc[-1:] * 7.0])):
                write(d, f)
                s = Session(d)
                for i in extensions(s.needs)[0]:
                    s.run(i)
                out.append(s.weights())
                ctx.trace()
        for w in out[1:]:
            for t in out[0].index[:-1]:
                ctx.step()
                if t not in w.index or np.abs(w.loc[t].astype(float) - out[0].loc[t].astype(float)).max() > 1e-7:
                    bad("the weights of a day depend on later prices", time=t, prices=kind)

    # ---- the examples of README.md

    def blocks():
        if not os.path.exists(README):
            return []
        with open(README) as f:
            return [b for b in re.findall(r"```python\n(.*?)```", f.read(), re.S) if "solve(" in b]

    def ew_cov(R, halflife, first):
        out = {}
        for t in range(first - 1, len(R)):
            w = ref.weights(t + 1, halflife)
            X = R[: t + 1] - w @ R[: t + 1]
            out[t] = (X.T * w) @ X / (1 - (w**2).sum())
        return out

    def gen_readme():
        for b in range(len(blocks())):
            for n in (1, 2, 3) if not deep else (1, 2, 3, 5):
                for kind in ("plain", "shock", "tiny", "quiet"):
                    for extra in (0, 1, 6):
                        yield [b, n, kind, extra]

    def run_readme(ctx, sc):
        b, n, kind, extra = sc
        src = blocks()[b]
        T = 5 * n + 12 + extra
        R = 0.01 * H.generic(T, n)
        if kind == "shock":
            R[-4] *= 30
        elif kind == "tiny":
            R = R * 0.1
        elif kind == "quiet":
            R[-3:] *= 1e-2
        idx = pd.bdate_range("2000-01-03", periods=T, name="date")
        cols = [f"A{n - j}" for j in range(n)]
        if "from_ewmas" in src:
            keys = ["10-21", "21-63", "63-125"]
            sig = [{s.row: s.cov for s in ref.iewma(R, a, c, n, 3 * n)} for a, c in ((10, 21), (21, 63), (63, 125))]
        elif "from_sigmas" in src:
            keys = [1, 2]
            sig = [ew_cov(R, h, 5 * n) for h in (21, 63)]
        else:
            return
        case = Case(sig, R, None, keys=keys)
        case.idx, case.cols = idx, pd.Index(cols)
        case.pos = {t: i for i, t in enumerate(idx)}
        here = os.getcwd()
        with tempfile.TemporaryDirectory(prefix="mc-readme-") as d:
            os.mkdir(os.path.join(d, "data"))
            pd.DataFrame(R, index=idx, columns=cols).to_csv(os.path.join(d, "data", "ff5_no_rf.csv"))
            os.chdir(d)
            ns = {"__name__": "readme"}
            try:
                with quiet():
                    exec(compile(src, README, "exec"), ns)
            finally:
                os.chdir(here)
        ctx.trace()
        got, last = ns.get("covariance_predictors"), ns.get("predictor")
        if got is None or last is None:
            return
        want = [idx[t] for t in case.model.times(WINDOW)]
        if list(got) != want:
            bad("the documented example does not predict at every time with a full window", got=[str(t) for t in got], want=[str(t) for t in want])
        check_weights(case, last, WINDOW, what="documented example: ")
        check_blend(case, last, what="documented example: ")
        for t in want:
            ctx.step()
            ctx.state("readme", b, n, kind, extra, str(t))
            if list(got[t].index) != cols or list(got[t].columns) != cols:
                bad("labels of the predicted covariance", got=list(got[t].index))
            # between the most and the least of the experts: a blend of their precision factors
            v = np.diag(got[t].values)
            hi = np.max([np.diag(s[case.row(t)]) for s in sig], axis=0)
            if not ((v > 0).all() and (v <= hi * (1 + 1e-6)).all()):
                bad("a predicted variance exceeds that of every expert", time=t, got=v, highest=hi)
        if (last.mean != 0).any():
            bad("the documented mean is zero", got=last.mean)

    return [
        Space("cell orders", "every order of the demo's cells that respects their dependencies x price tables", gen_orders, run_orders),
        Space("price tables", "kinds of price histories (jumps, calms, trends, missing prices) x lengths x other stocks x column orders", gen_tables, run_tables),
        Space("reruns", "every sequence of up to 2 reruns of a cell and its dependants, with the price file unchanged or replaced", gen_reruns, run_reruns),
        Space("causal", "price tables x lengths, without and with another last row", gen_causal, run_causal),
        Space("documented examples", "both examples of README.md x assets x return histories x lengths", gen_readme, run_readme),
    ]
