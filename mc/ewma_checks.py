"""C01-C07: EWMA volatility, iterated EWMA, centring."""

from __future__ import annotations

import itertools

import numpy as np
import pandas as pd

from cvx.covariance.ewma import center, iterated_ewma, volatility

from . import histories as H
from . import ref
from .engine import Space, Violation

TOL = 1e-8


def bad(msg, **kw):
    raise Violation(msg + "".join(f"\n  {k} = {v}" for k, v in kw.items()))


def same_labels(got, want, what):
    if list(got) != list(want):
        bad(f"{what}: wrong labels", got=list(got), want=list(want))


def close(a, b, scale, tol=TOL):
    """entrywise equality up to tol*scale; NaN equals NaN"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return False
    with np.errstate(invalid="ignore"):
        d = np.abs(a - b) <= tol * (np.broadcast_to(scale, a.shape) + np.abs(b)) 
    return bool((d | na | (a == b)).all())


# ------------------------------------------------------------------ C01


def check_volatility(ctx, X, hl, mp, clip, label="date", cols="str", dtype=None, key=None, defaults=False):
    f = H.frame(X, label, cols, dtype)
    kw = {}
    if not (defaults and mp == 0):
        kw["min_periods"] = mp
    if not (defaults and clip is None):
        kw["clip_at"] = clip
    got = volatility(f, hl, **kw)
    s, want = ref.volatility(f.values.astype(float), hl, mp, clip)
    ctx.trace()
    ctx.step(len(f))
    for t in range(len(f)):
        ctx.state("vol", key, hl, mp, clip, t)
    if len(want) == 0:
        if len(got) != 0:
            bad("volatility reports although the history is shorter than the warm-up", got=got)
        return
    same_labels(got.index, f.index[s:], "volatility times")
    same_labels(got.columns, f.columns, "volatility assets")
    if not close(got.values, want, np.abs(want), TOL):
        t, i = np.argwhere(~(np.abs(got.values - want) <= TOL * np.abs(want) * 2))[0]
        bad(
            "volatility differs from the definition",
            time=got.index[t],
            row=s + t,
            asset=i,
            got=got.values[t, i],
            want=want[t, i],
            halflife=hl,
            min_periods=mp,
            clip_at=clip,
        )


def c01(deep):
    L2 = "abczh"
    CFG = list(itertools.product([1, 2.5, 0.5] if not deep else [1, 2.5, 0.5, 7], [0, 1, 2, 3, 4], [None, 0.8, 1.5, 3]))

    def gen_words():
        for m in range(0, 6 if not deep else 7):
            for w in H.words(L2 if m < 5 or deep else "abzh", [m]):
                for c in CFG:
                    if m <= 2 or deep or (m == 5 and c[0] == 2.5) or (m in (3, 4) and c[1] <= 3):
                        yield [w, *c]

    def run_words(ctx, sc):
        w, hl, mp, clip = sc
        if not w:  # an empty history reports nothing
            f = H.frame(np.zeros((0, 2)))
            if len(volatility(f, hl, min_periods=mp, clip_at=clip)) != 0:
                bad("volatility reports for an empty history")
            ctx.trace()
            return
        check_volatility(ctx, H.rows(w), hl, mp, clip, key=w)

    def gen_one():
        for m in range(1, 7 if not deep else 8):
            for w in H.words("abzh", [m]):
                for hl, mp, clip in [(1, 0, None), (3, 2, 1.2), (0.7, 1, 4.2), (11, 3, 0.9), (2, 1, 0.3), (5, 0, 0.05)]:
                    yield [w, hl, mp, clip]

    def run_one(ctx, sc):
        w, hl, mp, clip = sc
        check_volatility(ctx, H.rows(w, H.ROWS1), hl, mp, clip, key=w)

    def gen_long():
        for m in (1, 2, 3):
            for w in H.words("abzh", [m]):
                for T, hl, mp, clip in [
                    (40, 10, 0, None),
                    (45, 10, 20, 4.2),
                    (130, 21, 20, 1.1),
                    (70, 63, 5, None),
                    (60, 125, 63, 3),
                    (260, 3, 0, 2),
                ] + ([(800, 250, 100, 2), (1500, 10, 20, 4.2)] if deep else []):
                    yield [w, T, hl, mp, clip]

    def run_long(ctx, sc):
        w, T, hl, mp, clip = sc
        check_volatility(ctx, H.periodic(w, T), hl, mp, clip, key=("per", w), defaults=True)

    VALS = [0.0, 1.0, -1.0, 1e3, 1e-6]

    def gen_dev():
        T, n = 14, 3
        for t in range(T):
            for i in range(n):
                for v in VALS:
                    for c in [(2, 0, None), (5, 3, 1.5), (1, 6, 2.5), (4, 1, 1.0)]:
                        yield [[[t, i, v]], *c]
        ts = range(T) if deep else range(2, 9)
        for t1, t2 in itertools.combinations(ts, 2):
            for i1, i2 in itertools.product(range(n), repeat=2):
                for v1, v2 in itertools.product([0.0, 1e3] if not deep else VALS, repeat=2):
                    for c in [(3, 2, 1.5)]:
                        yield [[[t1, i1, v1], [t2, i2, v2]], *c]

    def run_dev(ctx, sc):
        devs, hl, mp, clip = sc
        X = H.generic(14, 3)
        for t, i, v in devs:
            X[t, i] = v * 0.01
        check_volatility(ctx, X, hl, mp, clip, key=str(devs))

    def gen_shape():
        for n in (1, 2, 3, 5, 9, 26):
            for label in H.LABELS + H.UNSORTED:
                for cols in H.COLUMNS:
                    yield ["lab", n, label, cols, 1.0, None]
            for e in range(-9, 10):
                yield ["lab", n, "date", "str", 10.0**e, None]
            yield ["int", n, "date", "str", 1.0, "int64"]
            yield ["int", n, "int", "int", 1.0, "int32"]

    def run_shape(ctx, sc):
        kind, n, label, cols, scale, dtype = sc
        X = H.generic(12, n, 1.0)
        X = np.round(X * 100) if kind == "int" else X * scale
        for hl, mp, clip in [(4, 0, None), (2, 3, 1.3)]:
            check_volatility(ctx, X, hl, mp, clip, label, cols, dtype, key=str(sc))

    def gen_types():
        for n in (1, 2, 3):
            for w in H.types(n, "ilfd"):
                for hl, mp, clip in [(4, 0, None), (2, 3, 1.3)]:
                    yield [w, hl, mp, clip]

    def run_types(ctx, sc):
        w, hl, mp, clip = sc
        f, X = H.typed(15, len(w), w)
        single = not set(w) - set("f")  # computed in single precision
        got = volatility(f, hl, min_periods=mp, clip_at=clip)
        s, want = ref.volatility(X, hl, mp, clip)
        ctx.trace()
        ctx.step(15)
        ctx.state("types", *sc)
        same_labels(got.index, f.index[s:], "volatility times")
        if not close(got.values.astype(float), want, np.abs(want), 1e-5 if single else TOL):
            bad("volatility differs from the definition", types=w, got=got.values.tolist(), want=want.tolist())

    def gen_uneven():
        for n in (2, 3):
            for e in itertools.product(H.EXPS, repeat=n):
                for hl, mp, clip in [(4, 0, None), (2, 3, 1.3), (3, 1, 0.3)]:
                    yield [list(e), hl, mp, clip]

    def run_uneven(ctx, sc):
        e, hl, mp, clip = sc
        check_volatility(ctx, H.uneven(14, e), hl, mp, clip, cols="odd", key=str(sc))

    def gen_very():
        for T, n in [(4300, 2), (8500, 1)] if not deep else [(4300, 2), (8500, 1), (20000, 1)]:
            for hl, mp, clip in [(900, 0, None), (2500, 20, 3.0), (700, 300, 1.1), (0.4, 20, 2.0)]:
                yield [T, n, hl, mp, clip]

    def run_very(ctx, sc):
        T, n, hl, mp, clip = sc
        check_volatility(ctx, H.large("plain", T, n), hl, mp, clip, "int7", key=str(sc))

    def gen_missing():
        for T in (6,):
            for m in range(1, 2**T):
                for hl, mp, clip in [(2, 0, None), (3, 2, None), (2, 1, 1.2), (5, 3, 0.7)]:
                    yield [T, m, 3, hl, mp, clip]
        for m in (1, 1 << 20, 1 << 39, 7 << 10):
            for n in (2, 12):
                for hl, mp, clip in [(10, 0, None), (10, 20, 3.0)]:
                    yield [40, m, n, hl, mp, clip]

    def run_missing(ctx, sc):
        """missing values in one asset: the others keep their volatilities, and rows are reported as before"""
        T, m, n, hl, mp, clip = sc
        X = H.generic(T, n)
        for i in range(n):
            Y = X.copy()
            Y[[t for t in range(T) if m >> t & 1], i] = np.nan
            f = H.frame(Y)
            got = volatility(f, hl, min_periods=mp, clip_at=clip)
            s, want = ref.volatility(X, hl, mp, clip)
            ctx.trace()
            ctx.step(T)
            ctx.state("missing", *sc, i)
            same_labels(got.index, f.index[s:], "volatility times")
            same_labels(got.columns, f.columns, "volatility assets")
            k = [j for j in range(n) if j != i]
            if not close(got.values[:, k], want[:, k], np.abs(want[:, k]), TOL):
                bad("missing returns of one asset change another one", missing=i, got=got.values.tolist(), want=want.tolist())

    def gen_extreme():
        for hl in EXTREME_HL:
            for clip in EXTREME_CLIP:
                for mp in (0, 1, 13, 29, 30, 31, 1000) if deep or clip in (None, 12.0) else (0, 13):
                    for e in (0, -7, 4):
                        yield [hl, mp, clip, e]

    def run_extreme(ctx, sc):
        hl, mp, clip, e = sc
        check_volatility(ctx, outliers(30, 2) * 10.0**e, hl, mp, clip, key=str(sc))

    LG = [(21, 20, 4.2), (250, 0, 2.0), (3, 100, 1.2), (63, 63, None)]

    def run_large(ctx, sc):
        T, n, kind, k = sc
        label = ("date", "tick", "int7", "shuffle")[k]
        check_volatility(ctx, H.large(kind, T, n), *LG[k], label=label, key=str(sc))

    return [
        Space("short histories", "all words of 5 row letters up to length 5 x half life x warm-up x clip", gen_words, run_words),
        Space("one asset", "all words of 4 letters up to length 6, one asset", gen_one, run_one),
        Space("periodic long histories", "all periods up to length 3, up to 260 rows", gen_long, run_long),
        Space("deviations", "14x3 generic history, all single and (part of) all double deviations", gen_dev, run_dev),
        Space("shapes", "assets 1..26 x label kinds x scales 1e-9..1e9 x integer dtypes", gen_shape, run_shape),
        Space("column types", "all assignments of 4 number types to up to 3 columns", gen_types, run_types),
        Space("large", LARGE_TEXT, lambda: large_gen(len(LG), deep), run_large),
        Space("uneven assets", "two and three assets whose returns differ by factors up to 1e17: all assignments of 5 sizes", gen_uneven, run_uneven),
        Space("missing values", "every set of missing rows of one of three assets, 6 rows; 40 rows: the other assets", gen_missing, run_missing),
        Space("very long", "4300 and 8500 rows (thorough: 20000), half lives up to 2500", gen_very, run_very),
        Space("extreme parameters", EXTREME_TEXT, gen_extreme, run_extreme),
    ]


def large_gen(cfgs, deep, kinds=tuple(H.EVENTS)):
    for T, n in H.LARGE_DEEP if deep else H.LARGE:
        for kind in kinds:
            for k in range(cfgs):
                yield [T, n, kind, k]


EXTREME_HL = [0.05, 0.4, 1, 6, 45, 333, 2600, 1e5]
EXTREME_CLIP = [None, 0.05, 0.5, 1.0, 3.0, 6.0, 12.0, 80.0, 1e3, 1e6]
EXTREME_TEXT = "30 rows with outliers: half lives from 0.05 to 100000 x clips from 0.05 to 1000000 x warm-ups up to 1000 x units"


def outliers(T, n):
    """a history with returns 40 and 5000 times larger than usual, and a very small one"""
    X = H.generic(T, n)
    X[T // 2, 0] *= 40
    X[2 * T // 3, n - 1] *= -5000
    X[T // 2 + 3, 0] *= 1e-3
    return X


LARGE_TEXT = "up to 700 rows and 100 assets (thorough: 2600 rows) x 5 kinds of events x configurations"


# ------------------------------------------------------------------ C02 / C03


def kwargs_of(cfg):
    """cfg: dict of iterated_ewma arguments"""
    return dict(cfg)


def ref_of(X, cfg):
    c = dict(cfg)
    return ref.iewma(
        X,
        c["vola_halflife"],
        c["cov_halflife"],
        c.get("min_periods_vola", 20),
        c.get("min_periods_cov", 20),
        c.get("mean", False),
        c.get("mu_halflife1"),
        c.get("mu_halflife2"),
        c.get("clip_at"),
    )


def defined(st, mean):
    """-> (assets whose volatility is numerically meaningful, assets whose correlations are too)"""
    if not mean:
        v = np.ones(len(st.vola), bool)
        return v, np.ones(len(st.vola), bool)
    v = st.vola > 1e-4 * st.level
    d = v & (np.diag(st.second) > 1e-6)
    return v, d


def compare_iewma(ctx, f, got, want, mean, key):
    tol = 1e-6 if mean else TOL
    ctx.trace()
    ctx.step(len(f))
    for st in want:
        ctx.state("iewma", key, st.row)
    if [g.time for g in got] != [f.index[st.row] for st in want]:
        bad(
            "reported times differ from the definition",
            got=[str(g.time) for g in got],
            want=[str(f.index[st.row]) for st in want],
        )
    for g, st in zip(got, want):
        same_labels(g.covariance.index, f.columns, "covariance rows")
        same_labels(g.covariance.columns, f.columns, "covariance columns")
        same_labels(g.volatility.index, f.columns, "volatility")
        same_labels(g.mean.index, f.columns, "mean")
        okv, okc = defined(st, mean)
        gv, gc, gm = g.volatility.values, g.covariance.values, g.mean.values
        if not close(gv[okv], st.vola[okv], 0, tol):
            bad("volatility differs", time=g.time, row=st.row, got=gv, want=st.vola)
        if not (np.abs(gv[~okv]) <= 2e-4 * st.level[~okv]).all():
            bad("volatility differs (degenerate)", time=g.time, row=st.row, got=gv, want=st.vola)
        ix = np.ix_(okc, okc)
        scale = np.outer(st.vola, st.vola)[ix]
        if not close(gc[ix], st.cov[ix], scale, tol):
            bad("covariance differs", time=g.time, row=st.row, got=gc.tolist(), want=st.cov.tolist())
        if not mean:
            if not (gm == 0).all():
                bad("mean is not zero", time=g.time, got=gm)
        else:
            # rounding of a degenerate asset's standardised returns does not matter after multiplication with its volatility
            if not close(gm, st.mean, 10 * np.where(okv, st.level, 1e3 * st.level), tol):
                bad("mean differs", time=g.time, row=st.row, got=gm, want=st.mean)


def check_iewma(ctx, X, cfg, label="date", cols="str", dtype=None, key=None):
    f = H.frame(X, label, cols, dtype)
    got = list(iterated_ewma(f, **cfg))
    want = ref_of(f.values.astype(float), cfg)
    compare_iewma(ctx, f, got, want, cfg.get("mean", False), (key, str(sorted(cfg.items()))))


def cfg(vh, ch, mpv=None, mpc=None, clip=None, **kw):
    c = dict(vola_halflife=vh, cov_halflife=ch)
    if mpv is not None:
        c["min_periods_vola"] = mpv
    if mpc is not None:
        c["min_periods_cov"] = mpc
    if clip is not None:
        c["clip_at"] = clip
    c.update(kw)
    return c


def c02(deep):
    GRID = [cfg(vh, ch, a, b, c) for (vh, ch), a, b, c in itertools.product([(1, 3), (5, 2)], [0, 1, 2, 3], [0, 1, 2, 3], [None, 1.1])]
    SMALL = [cfg(2, 3, 1, 1), cfg(3, 1.5, 2, 2, 0.9), cfg(1, 4, 0, 2, 2.0), cfg(4, 2, 3, 1)]

    def gen_words():
        for m in range(0, 4):
            for w in H.words("abczhd", [m]):
                for k in range(len(GRID)):
                    yield [w, 0, k]
        for w in H.words("abczhd" if deep else "abczd", [5]):
            for k in range(len(SMALL)):
                yield [w, 1, k]
        if deep:
            for w in H.words("abcz", [6]):
                for k in range(len(GRID)):
                    yield [w, 0, k]
            for w in H.words("abcz", [7]):
                for k in range(len(SMALL)):
                    yield [w, 1, k]

    def run_words(ctx, sc):
        w, g, k = sc
        c = (GRID, SMALL)[g][k]
        check_iewma(ctx, H.rows(w) if w else np.zeros((0, 2)), c, key=w)

    def gen_three():
        for m in (2, 3, 4) if not deep else (2, 3, 4, 5):
            for w in H.words("abczd", [m]):
                for k in range(len(SMALL)):
                    yield [w, k]

    def run_three(ctx, sc):
        check_iewma(ctx, H.rows(sc[0], H.ROWS3), SMALL[sc[1]], key=("3", sc[0]))

    LONG = [
        (45, cfg(10, 21)),
        (60, cfg(21, 63, None, None, 4.2)),
        (70, cfg(63, 10, 30, 20, 1.2)),
        (30, cfg(3, 5, 5, 10)),
        (30, cfg(5, 3, 0, 0, 1.5)),
        (41, cfg(10, 21, 1)),
        (41, cfg(10, 21, None, 7)),
    ] + ([(300, cfg(10, 21)), (300, cfg(250, 125, 63, 125, 4.2))] if deep else [])

    def gen_long():
        for m in (1, 2, 3):
            for w in H.words("abczh", [m]):
                for k in range(len(LONG)):
                    yield [w, k]
        for T in (0, 1, 19, 20, 21, 37, 38, 39, 40, 41):
            yield [f"T{T}", 0]

    def run_long(ctx, sc):
        w, k = sc
        if w[0] == "T":
            check_iewma(ctx, H.generic(int(w[1:]), 3), LONG[k][1], key=w)
        else:
            T, c = LONG[k]
            check_iewma(ctx, H.periodic(w, T), c, key=("per", w, T))

    DEV = [cfg(2, 4, 1, 1), cfg(5, 3, 3, 2, 1.5), cfg(1, 2, 6, 4, 1.0)]

    def gen_dev():
        for t in range(12):
            for i in range(3):
                for v in [0.0, 5.0, -1.0, 1e3, 1e-6]:
                    for k in range(len(DEV)):
                        yield [[[t, i, v]], k]
        # leading and interior runs of zeros per asset
        for spans in itertools.product(range(0, 5), repeat=3):
            for start in (0, 4):
                for k in range(len(DEV)):
                    yield [[[t, i, 0.0] for i, s in enumerate(spans) for t in range(start, start + s)], k]
        if deep:
            for (t1, i1), (t2, i2) in itertools.combinations(list(itertools.product(range(12), range(3))), 2):
                for v1, v2 in itertools.product([0.0, 1e3], repeat=2):
                    for k in range(len(DEV)):
                        yield [[[t1, i1, v1], [t2, i2, v2]], k]

    def run_dev(ctx, sc):
        X = H.generic(12, 3)
        for t, i, v in sc[0]:
            X[t, i] = v * 0.01
        check_iewma(ctx, X, DEV[sc[1]], key=str(sc[0]))

    def gen_shape():
        for n in (1, 2, 3, 4, 7, 12, 26):
            for label in H.LABELS + H.UNSORTED:
                for cols in H.COLUMNS:
                    yield [n, label, cols, 1.0, None]
            for e in range(-9, 10, 1 if deep else 3):
                yield [n, "date", "str", 10.0**e, None]
            yield [n, "date", "str", 100.0, "int64"]

    def run_shape(ctx, sc):
        n, label, cols, scale, dtype = sc
        X = H.generic(10, n, 1.0) * scale
        if dtype:
            X = np.round(X)
        for c in (cfg(4, 2, 0, 2), cfg(2, 5, 3, 1, 1.3)):
            check_iewma(ctx, X, c, label, cols, dtype, key=str(sc))

    QUIET = [cfg(10, 1, 1, 1), cfg(1, 1, 0, 1), cfg(3, 0.5, 1, 2), cfg(1.5, 2, 2, 1, 1.3), cfg(20, 1)]

    def gen_quiet():
        """per asset: active for a rows, quiet for q rows, active again for the rest"""
        spells = [(a, q) for a in (1, 2, 5) for q in (0, 1, 9, 25, 44)] + [(60, 0)]
        for k in range(len(QUIET)):
            for i, j in itertools.product(range(len(spells)), repeat=2):
                if deep or i == len(spells) - 1 or j == len(spells) - 1 or (i + 2 * j + k) % 4 == 0:
                    yield [list(spells[i]), list(spells[j]), k]

    def run_quiet(ctx, sc):
        k = sc[2]
        off = 20 if k == len(QUIET) - 1 else 0  # default warm-ups
        X = H.generic(52 + 2 * off, 2)
        for i in range(2):
            a, q = sc[i]
            X[off + a : off + a + q, i] = 0
        check_iewma(ctx, X, QUIET[k], key=str(sc))

    def gen_types():
        for n in (1, 2, 3):
            for w in H.types(n, "ild"):
                for k in range(len(SMALL)):
                    yield [w, k]

    def run_types(ctx, sc):
        w, k = sc
        f, X = H.typed(15, len(w), w)
        compare_iewma(ctx, f, list(iterated_ewma(f, **SMALL[k])), ref_of(X, SMALL[k]), False, ("types", w, k))

    UN = [cfg(4, 3, 1, 2), cfg(2, 5, 2, 1, 1.3), cfg(3, 2, 1, 2, 0.3)]

    def gen_uneven():
        for n in (2, 3):
            for e in itertools.product(H.EXPS, repeat=n):
                for k in range(len(UN)):
                    yield [list(e), k]

    def run_uneven(ctx, sc):
        e, k = sc
        check_iewma(ctx, H.uneven(14, e), UN[k], cols="odd", key=str(sc))

    def gen_modes():
        for m in (1, 2, 3, 4):
            for w in H.words("abczd", [m]):
                for k in range(len(SMALL)):
                    yield [w, k]

    def run_modes(ctx, sc):
        """options that must not matter on complete histories"""
        w, k = sc
        check_iewma(ctx, H.rows(w), dict(SMALL[k], nan_to_num=False), key=("modes", w))
        check_iewma(ctx, H.rows(w), dict(SMALL[k], mean=False, mu_halflife1=2, mu_halflife2=0.5), key=("modes", w))

    VL = [cfg(900, 1500), cfg(2500, 700, 300, 20, 3.0)]

    def gen_very():
        for k in range(len(VL)):
            for n in (2,) if not deep else (1, 2, 3):
                yield [4300 if n > 1 else 8500, n, k]

    def run_very(ctx, sc):
        T, n, k = sc
        check_iewma(ctx, H.large("plain", T, n), VL[k], "int7", key=str(sc))

    def gen_extreme():
        for vh, ch in itertools.product(EXTREME_HL, repeat=2):
            for clip in EXTREME_CLIP if deep else EXTREME_CLIP[::3] + [12.0]:
                for mpv, mpc in [(1, 1), (3, 17)] + ([(14, 0), (29, 2), (2, 29), (500, 1)] if clip in (None, 12.0) else []):
                    if (vh > 0.1 or mpv == 1) and (ch > 0.1 or mpc == 1):
                        yield [vh, ch, mpv, mpc, clip]

    def run_extreme(ctx, sc):
        check_iewma(ctx, outliers(30, 2), cfg(*sc), key=str(sc))

    LG = [cfg(10, 21, None, None, 4.2), cfg(63, 125, 63, 20), cfg(21, 250, 5, 63, 1.5)]

    def run_large(ctx, sc):
        T, n, kind, k = sc
        check_iewma(ctx, H.large(kind, T, n), LG[k], ("date", "tick", "int7")[k], key=str(sc))

    return [
        Space("short histories", "all words of 6 row letters up to length 3, 5 letters at length 5, x 64 (4) configurations", gen_words, run_words),
        Space("quiet spells", "two assets, 52/92 rows: pairs of (active a rows, quiet q rows, active again), q up to 44, short half lives", gen_quiet, run_quiet),
        Space("three assets", "all words of 5 row letters, length 2..4, three assets", gen_three, run_three),
        Space("periodic long histories", "all periods up to length 3, up to 70 rows, with default warm-ups; lengths around the warm-up", gen_long, run_long),
        Space("deviations", "12x3 generic history: all single deviations, all runs of zeros", gen_dev, run_dev),
        Space("shapes", "assets 1..26 x label kinds x scales 1e-9..1e9 x integer dtype", gen_shape, run_shape),
        Space("column types", "all assignments of 3 number types to up to 3 columns", gen_types, run_types),
        Space("large", LARGE_TEXT, lambda: large_gen(len(LG), deep), run_large),
        Space("uneven assets", "two and three assets whose returns differ by factors up to 1e17: all assignments of 5 sizes", gen_uneven, run_uneven),
        Space("options without effect", "all words of 5 row letters up to length 4 with nan_to_num off, and with half lives of means that are not used", gen_modes, run_modes),
        Space("very long", "4300 rows, half lives up to 2500", gen_very, run_very),
        Space("extreme parameters", EXTREME_TEXT, gen_extreme, run_extreme),
    ]


def c03(deep):
    QUADS = [
        dict(vola_halflife=v, cov_halflife=c, mu_halflife1=a, mu_halflife2=b)
        for v, c in [(1, 3), (4, 2)]
        for a in (None, 0.7, 6)
        for b in (None, 1.3, 9)
    ]

    def build(q, mpv, mpc, clip):
        return dict({k: v for k, v in q.items() if v is not None}, min_periods_vola=mpv, min_periods_cov=mpc, clip_at=clip, mean=True)

    GRID = [build(q, *r) for q in QUADS for r in [(0, 0, None), (2, 2, 1.0), (1, 3, 0.6), (3, 1, None)]]
    SMALL = [build(QUADS[k], *r) for k, r in [(0, (1, 1, None)), (4, (2, 2, 0.9)), (8, (3, 2, None)), (11, (0, 1, 1.4))]]

    def gen_words():
        for m in range(0, 4):
            for w in H.words("abczd" if not deep else "abczdh", [m]):
                for k in range(len(GRID)):
                    yield [w, 0, k]
        for w in H.words("abcz" if not deep else "abczd", [5]):
            for k in range(len(SMALL)):
                yield [w, 1, k]
        if deep:
            for w in H.words("abcz", [6]):
                for k in range(len(SMALL)):
                    yield [w, 1, k]

    def run_words(ctx, sc):
        w, g, k = sc
        check_iewma(ctx, H.rows(w) if w else np.zeros((0, 2)), (GRID, SMALL)[g][k], key=w)

    def gen_center():
        for m in range(1, 6):
            for w in H.words("abzh", [m]):
                for hl in (1, 4):
                    for mp in (0, 1, 2, 3, 5):
                        for adj in (True, False):
                            if m < 5 or adj:
                                yield [w, hl, mp, adj]

    def run_center(ctx, sc):
        w, hl, mp, adj = sc
        f = H.frame(H.rows(w))
        kw = {} if (mp == 0 and hl == 1) else {"min_periods": mp}
        if adj:
            kw["mean_adj"] = True
        got, mean = center(f, hl, **kw)
        ctx.trace()
        ctx.step(len(f))
        for t in range(len(w)):
            ctx.state("center", w[: t + 1], hl, mp, adj)
        if not adj:
            same_labels(got.index, f.index, "centred times")
            same_labels(got.columns, f.columns, "centred assets")
            same_labels(mean.index, f.index, "mean times")
            if not (got.values == f.values).all() or not (mean.values == 0).all():
                bad("center without adjustment changes the data or reports a mean")
            return
        s = max(mp - 1, 0)
        want = ref.wmean(f.values, hl)[s:]
        if s >= len(f):
            if len(got) or len(mean):
                bad("center reports before min_periods", got=got)
            return
        same_labels(mean.index, f.index[s:], "mean times")
        same_labels(got.index, f.index[s:], "centred times")
        same_labels(mean.columns, f.columns, "mean assets")
        same_labels(got.columns, f.columns, "centred assets")
        if not close(mean.values, want, 0.02, TOL):
            bad("EWMA mean differs", got=mean.values.tolist(), want=want.tolist())
        if not close(got.values, f.values[s:] - want, 0.02, TOL):
            bad("centred returns differ", got=got.values.tolist(), want=(f.values[s:] - want).tolist())

    LONG = [
        (45, cfg(10, 21, mean=True)),
        (60, cfg(21, 63, None, None, 4.2, mean=True)),
        (50, cfg(63, 10, 10, 20, 1.2, mean=True, mu_halflife1=5)),
        (30, cfg(3, 5, 5, 10, mean=True, mu_halflife2=40)),
        (41, cfg(10, 21, mean=True, mu_halflife1=2, mu_halflife2=3)),
    ] + ([(300, cfg(250, 125, 63, 125, 4.2, mean=True))] if deep else [])

    def gen_long():
        for k in range(len(LONG)):
            yield ["generic", k]
        for m in (2, 3):
            for w in H.words("abczh", [m]):
                if len(set(w)) > 1:
                    for k in range(len(LONG)):
                        yield [w, k]

    def run_long(ctx, sc):
        w, k = sc
        T, c = LONG[k]
        check_iewma(ctx, H.generic(T, 3) if w == "generic" else H.periodic(w, T), c, key=("per", w, T))

    DEV = [cfg(2, 4, 1, 1, mean=True), cfg(5, 3, 3, 2, 1.5, mean=True, mu_halflife1=2, mu_halflife2=7)]

    def gen_dev():
        for t in range(12):
            for i in range(3):
                for v in [0.0, 5.0, -1.0, 100.0]:
                    for k in range(len(DEV)):
                        yield [[[t, i, v]], k]
        if deep:
            for (t1, i1), (t2, i2) in itertools.combinations(list(itertools.product(range(12), range(3))), 2):
                for v1, v2 in itertools.product([0.0, 100.0], repeat=2):
                    for k in range(len(DEV)):
                        yield [[[t1, i1, v1], [t2, i2, v2]], k]

    def run_dev(ctx, sc):
        X = H.generic(12, 3)
        for t, i, v in sc[0]:
            X[t, i] = v * 0.01
        check_iewma(ctx, X, DEV[sc[1]], key=str(sc[0]))

    def gen_shape():
        for n in (1, 2, 3, 5, 12):
            for label in H.LABELS + H.UNSORTED:
                for cols in H.COLUMNS:
                    yield [n, label, cols, 1.0, None]
            for e in range(-9, 10, 3):
                yield [n, "date", "str", 10.0**e, None]
            yield [n, "date", "str", 100.0, "int64"]

    def run_shape(ctx, sc):
        n, label, cols, scale, dtype = sc
        X = H.generic(10, n, 1.0) * scale
        if dtype:
            X = np.round(X)
        for c in (cfg(4, 2, 0, 2, mean=True, mu_halflife1=3), cfg(2, 5, 3, 1, 1.3, mean=True, mu_halflife2=1)):
            check_iewma(ctx, X, c, label, cols, dtype, key=str(sc))

    UN = [cfg(4, 3, 1, 2, mean=True), cfg(2, 5, 2, 1, 1.3, mean=True, mu_halflife1=3, mu_halflife2=1)]

    def gen_uneven():
        for n in (2, 3):
            for e in itertools.product(H.EXPS, repeat=n):
                for k in range(len(UN)):
                    yield [list(e), k]

    def run_uneven(ctx, sc):
        e, k = sc
        check_iewma(ctx, H.uneven(14, e), UN[k], cols="odd", key=str(sc))

    def run_very(ctx, sc):
        check_iewma(ctx, H.large("plain", 4300, 2), cfg(900, 1500, mean=True, mu_halflife1=700, mu_halflife2=2000), "int7", key="very long")

    XM = [None, 0.4, 6, 80, 1500, 1e5]

    def gen_extreme():
        for (vh, ch), m1, m2 in itertools.product([(0.4, 6), (3, 0.4), (6, 45), (45, 333), (333, 6), (2600, 1e5)], XM, XM):
            for clip in (None, 0.5, 3.0, 12.0, 1e3) if deep else (None, 3.0, 12.0):
                for mpv, mpc in [(3, 5), (1, 14)]:
                    yield [vh, ch, m1, m2, mpv, mpc, clip]

    def run_extreme(ctx, sc):
        vh, ch, m1, m2, mpv, mpc, clip = sc
        kw = {k: v for k, v in dict(mu_halflife1=m1, mu_halflife2=m2).items() if v is not None}
        check_iewma(ctx, outliers(30, 2), cfg(vh, ch, mpv, mpc, clip, mean=True, **kw), key=str(sc))

    LG = [cfg(10, 21, None, None, 4.2, mean=True), cfg(63, 125, 63, 20, mean=True, mu_halflife1=250, mu_halflife2=125), cfg(21, 63, 5, 63, 1.5, mean=True, mu_halflife2=10)]

    def run_large(ctx, sc):
        T, n, kind, k = sc
        check_iewma(ctx, H.large(kind, T, n), LG[k], ("date", "tick", "int7")[k], key=str(sc))

    return [
        Space("centring", "center on all words of 4 letters up to length 5 x half life x min_periods x on/off", gen_center, run_center),
        Space("short histories", "all words of 5 letters up to length 3 x 72 half-life quadruples/warm-ups/clips; 4 letters at length 5 x 4", gen_words, run_words),
        Space("long histories", "generic and periodic histories up to 60 rows with default warm-ups", gen_long, run_long),
        Space("deviations", "12x3 generic history, all single deviations", gen_dev, run_dev),
        Space("shapes", "assets 1..12 x label kinds x scales x integer dtype", gen_shape, run_shape),
        Space("large", LARGE_TEXT, lambda: large_gen(len(LG), deep, ("plain", "zeros", "spike")), run_large),
        Space("uneven assets", "two and three assets whose returns differ by factors up to 1e17: all assignments of 5 sizes", gen_uneven, run_uneven),
        Space("very long", "4300 rows, half lives up to 2000", lambda: iter([[0]]), run_very),
        Space("extreme parameters", EXTREME_TEXT, gen_extreme, run_extreme),
    ]


# ------------------------------------------------------------------ C04


def reports(f, what, c):
    """-> list of (row label, dict of arrays)"""
    if what == "iewma":
        return [(g.time, {"mean": g.mean.values, "cov": g.covariance.values, "vol": g.volatility.values}) for g in iterated_ewma(f, **c)]
    if what == "vol":
        v = volatility(f, **c)
        return [(t, {"vol": v.loc[t].values}) for t in v.index]
    x, m = center(f, **c)
    return [(t, {"centred": x.loc[t].values}) for t in x.index] + [(("mean", t), {"mean": m.loc[t].values}) for t in m.index]


CF4 = [
    ("iewma", cfg(2, 3, 1, 1)),
    ("iewma", cfg(1, 2, 2, 1, 1.1)),
    ("iewma", cfg(3, 1, 0, 2, 0.9, mean=True)),
    ("iewma", cfg(2, 2, 2, 2, mean=True, mu_halflife1=1)),
    ("vol", dict(halflife=2, min_periods=2, clip_at=1.1)),
    ("vol", dict(halflife=1)),
    ("center", dict(halflife=2, mean_adj=True)),
    ("center", dict(halflife=3, mean_adj=True, min_periods=2)),
]


def same_reports(a, b, level, what):
    """a: the reports of the shorter history; b: those of the longer one that are dated within the shorter one"""
    if [t for t, _ in a] != [t for t, _ in b]:
        bad(f"{what}: later rows make reports appear or disappear", short=[str(t) for t, _ in a], long=[str(t) for t, _ in b])
    for (t, x), (_, y) in zip(a, b):
        for k in x:
            s = level if k != "cov" else level**2
            u, v = x[k], y[k]
            nu, nv = np.isnan(u), np.isnan(v)
            if (nu != nv).any() or not (np.abs(u - v)[~nu] <= 1e-9 * np.abs(u)[~nu] + 1e-11 * s).all():
                bad(f"{what}: the report dated {t} depends on later rows", short=x[k].tolist(), long=y[k].tolist())


def c04(deep):
    LET = "abzNX" if not deep else "abczNMX"
    DEPTH = 4 if not deep else 5

    def gen_tree():
        for k in range(len(CF4)):
            for w in H.words(LET, [2]):
                yield [k, w]

    def run_tree(ctx, sc):
        k, w0 = sc
        what, c = CF4[k]
        idx = H.index("date", DEPTH + 2)

        def rep(w):
            f = pd.DataFrame(H.rows(w), index=idx[: len(w)], columns=["x", "y"])
            ctx.trace()
            ctx.state(k, w)
            return reports(f, what, c)

        def known_rows(w):
            X = np.nan_to_num(H.rows(w))
            return np.abs(X).max() if X.size else 0.0

        def dfs(w, r):
            if len(w) == DEPTH + 1:
                return
            # volatility and center do not handle missing values: no claim once one has been seen
            times = set(idx[: len(w)])
            for ch in LET:
                child = w + ch
                q = rep(child)
                ctx.step()
                inside = [(t, x) for t, x in q if (t[1] if isinstance(t, tuple) else t) in times]
                same_reports(r, inside, known_rows(w), f"{what} {c} on {child}")
                dfs(child, q)

        r0 = rep(w0[:1])
        r1 = rep(w0)
        same_reports(r0, [(t, x) for t, x in r1 if (t[1] if isinstance(t, tuple) else t) == idx[0]], known_rows(w0[:1]), what)
        dfs(w0, r1)

    LONGC = [
        ("iewma", cfg(5, 10, 5, 5)),
        ("iewma", cfg(5, 10, 5, 5, 1.5)),
        ("iewma", cfg(10, 5, 4, 6, 2.0, mean=True)),
        ("iewma", cfg(5, 10)),
        ("vol", dict(halflife=5, min_periods=5, clip_at=2)),
        ("center", dict(halflife=5, mean_adj=True)),
        ("iewma", cfg(400, 1000, 5, 5, 2.0, mean=True)),
        ("vol", dict(halflife=1000, min_periods=5, clip_at=2)),
        ("center", dict(halflife=700, mean_adj=True)),
    ]
    FUT = ["cut", "nan", "nan0", "huge", "zero", "neg", "const"]

    def gen_cut():
        for k in range(len(LONGC)):
            T = 30 if k != 3 else 45
            for cut in range(1, T):
                yield [k, T, cut]
        for k in range(len(LONGC)):
            yield [k, 46, 45]

    def run_cut(ctx, sc):
        k, T, cut = sc
        what, c = LONGC[k]
        X = H.generic(T, 3)
        base = reports(H.frame(X), what, c)
        idx = H.index("date", T)
        times = set(idx[:cut])
        inside = [(t, x) for t, x in base if (t[1] if isinstance(t, tuple) else t) in times]
        for fut in FUT:
            Y = X.copy()
            if fut == "cut":
                Y = Y[:cut]
            elif fut == "nan":
                Y[cut:] = np.nan
            elif fut == "nan0":
                Y[cut:, 0] = np.nan
            elif fut == "huge":
                Y[cut:] = 1e5
            elif fut == "zero":
                Y[cut:] = 0
            elif fut == "neg":
                Y[cut:] = -3 * Y[cut:]
            elif fut == "const":
                Y[cut:] = Y[0]
            got = reports(H.frame(Y), what, c)
            ctx.trace()
            ctx.step(T)
            ctx.state(k, T, cut, fut)
            ours = [(t, x) for t, x in got if (t[1] if isinstance(t, tuple) else t) in times]
            same_reports(inside, ours, np.abs(X).max(), f"{what} {c}, rows after {cut} replaced by {fut}")

    def gen_tail():
        for k in range(len(CF4)):
            for w in H.words("abz", [3]):
                yield [k, w]

    def run_tail(ctx, sc):
        """every short tail of ordinary, missing, partly missing, zero and infinite-looking rows"""
        k, w = sc
        what, c = CF4[k]
        idx = H.index("date", 8)

        def rep(v):
            ctx.trace()
            ctx.state("tail", k, v)
            return reports(pd.DataFrame(H.rows(v), index=idx[: len(v)], columns=["x", "y"]), what, c)

        base = rep(w)
        times = set(idx[: len(w)])
        for tail in H.words("MNzXa" if not deep else "MNzXabc", [1, 2] if not deep else [1, 2, 3]):
            ctx.step()
            inside = [(t, x) for t, x in rep(w + tail) if (t[1] if isinstance(t, tuple) else t) in times]
            same_reports(base, inside, np.abs(H.rows(w)).max(), f"{what} {c} on {w}+{tail}")
            if what == "iewma":  # a tail of missing rows: every prefix of the tail, too
                for m in range(1, len(tail)):
                    t2 = set(idx[: len(w) + m])
                    a2 = rep(w + tail[:m])
                    b2 = [(t, x) for t, x in rep(w + tail) if t in t2]
                    same_reports(a2, b2, np.abs(np.nan_to_num(H.rows(w + tail[:m]))).max(), f"{what} {c} on {w + tail[:m]}|{tail[m:]}")

    def gen_append():
        for T in (1, 2, 5, 9):
            for k in range(len(CF4)):
                for n in (1, 3):
                    yield [k, T, n]

    def run_append(ctx, sc):
        k, T, n = sc
        what, c = CF4[k]
        X = H.generic(T + 40, n)
        f = H.frame(X)
        a = reports(f.iloc[:T], what, c)
        times = set(f.index[:T])
        for extra in (1, 2, 40):
            b = reports(f.iloc[: T + extra], what, c)
            ctx.trace()
            ctx.step(T + extra)
            ctx.state(k, T, n, extra)
            ours = [(t, x) for t, x in b if (t[1] if isinstance(t, tuple) else t) in times]
            same_reports(a, ours, np.abs(X).max(), f"{what} {c} with {extra} more rows")

    def gen_rare():
        """one missing return in a long history"""
        for k in range(len(LONGC)):
            if LONGC[k][0] == "iewma":
                for T in (30, 60, 120) if not deep else (30, 60, 120, 400):
                    for gap in (0, 1, T // 4, T // 2):
                        for i in range(2):
                            for cut in {gap + 1, T // 2 + 2, T - 8, T - 1}:
                                yield [k, T, gap, i, cut]

    def run_rare(ctx, sc):
        k, T, gap, i, cut = sc
        what, c = LONGC[k]
        X = H.generic(T, 2)
        X[gap, i] = np.nan
        base = reports(H.frame(X), what, c)
        times = set(H.index("date", T)[:cut])
        a = [(t, x) for t, x in base if t in times]
        for fut in ("cut", "huge", "nan0"):
            Y = X[:cut].copy() if fut == "cut" else X.copy()
            if fut == "huge":
                Y[cut:] += 50.0
            elif fut == "nan0":
                Y[cut:, 0] = np.nan
            b = [(t, x) for t, x in reports(H.frame(Y), what, c) if t in times]
            ctx.trace()
            ctx.step(T)
            ctx.state("rare", *sc, fut)
            same_reports(a, b, np.nanmax(np.abs(X)), f"{what} {c}, missing return at row {gap}, rows from {cut} replaced by {fut}")

    LG = [("iewma", cfg(10, 21, None, None, 4.2)), ("iewma", cfg(63, 125, 63, 20, 2.0, mean=True)), ("vol", dict(halflife=21, min_periods=20, clip_at=4.2)), ("center", dict(halflife=63, mean_adj=True, min_periods=20))]

    def run_large(ctx, sc):
        T, n, kind, k = sc
        what, c = LG[k]
        X = H.large(kind, T, n)
        base = reports(H.frame(X), what, c)
        for cut in (T // 4, T // 2 + 1, T - 3, T - 1):
            times = set(H.index("date", T)[:cut])
            a = [(t, x) for t, x in base if (t[1] if isinstance(t, tuple) else t) in times]
            for fut in ("cut", "nan", "huge"):
                Y = X[:cut].copy() if fut == "cut" else X.copy()
                Y[cut:] = np.nan if fut == "nan" else 1e3
                b = [(t, x) for t, x in reports(H.frame(Y), what, c) if (t[1] if isinstance(t, tuple) else t) in times]
                ctx.trace()
                ctx.step(cut)
                ctx.state("large", *sc, cut, fut)
                same_reports(a, b, np.abs(X).max(), f"{what} {c}, rows from {cut} replaced by {fut}")

    return [
        Space("prefix tree", f"all histories over {len(LET)} row letters (incl. missing and huge rows) to depth {DEPTH + 1}: each node against its parent", gen_tree, run_tree),
        Space("cut points", "30/45-row histories: every cut point x 7 kinds of future", gen_cut, run_cut),
        Space("tails", "all 3-row histories of 3 letters x all tails of 5 letters (incl. entirely missing rows) up to length 2, every prefix", gen_tail, run_tail),
        Space("appended rows", "appending 1, 2, 40 rows", gen_append, run_append),
        Space("rare gaps", "30..120 rows with a single missing return x cut points x futures", gen_rare, run_rare),
        Space("large", "up to 700 rows, 100 assets: four cut points x three futures", lambda: large_gen(len(LG), deep, ("plain", "late")), run_large),
    ]


# ------------------------------------------------------------------ C05


def same_iewma(a, b, what, perm=None, tol=1e-9, level=0.0):
    if [x.time for x in a] != [x.time for x in b]:
        bad(f"{what}: reported times differ", first=[str(x.time) for x in a], second=[str(x.time) for x in b])
    for x, y in zip(a, b):
        sv = np.abs(y.volatility.values)
        if not close(x.volatility.values, y.volatility.values, level, tol):
            bad(f"{what}: volatility differs at {x.time}", first=x.volatility.values, second=y.volatility.values)
        if not close(x.covariance.values, y.covariance.values, np.outer(sv, sv) + level**2, tol):
            bad(f"{what}: covariance differs at {x.time}", first=x.covariance.values.tolist(), second=y.covariance.values.tolist())
        if not close(x.mean.values, y.mean.values, sv + level, tol):
            bad(f"{what}: mean differs at {x.time}", first=x.mean.values, second=y.mean.values)


def c05(deep):
    CF = [
        cfg(2, 3, 1, 1),
        cfg(3, 2, 2, 2, 1.1),
        cfg(1, 2, 0, 1, mean=True),
        cfg(2, 4, 2, 1, 0.9, mean=True, mu_halflife2=1),
    ]

    def others(ctx, f, full, c, what):
        """missing values of one asset do not influence the others (no mean adjustment)"""
        if c.get("mean"):
            return
        n = f.shape[1]
        for j in range(n):
            if not f.iloc[:, j].isna().any() or n == 1:
                continue
            keep = [i for i in range(n) if i != j]
            alone = {g.time: g for g in iterated_ewma(f.iloc[:, keep], **c)}
            ctx.trace()
            for g in full:
                if g.time in alone:
                    a = alone[g.time]
                    v, cc = g.volatility.values[keep], g.covariance.values[np.ix_(keep, keep)]
                    if not close(v, a.volatility.values, 0, 1e-9) or not close(
                        cc, a.covariance.values, np.outer(v, v), 1e-9
                    ):
                        bad(
                            f"{what}: missing values of asset {j} influence the others at {g.time}",
                            with_it=cc.tolist(),
                            without=a.covariance.values.tolist(),
                        )

    def nevers(f, full, c, what):
        if c.get("mean"):
            return
        Z = f.fillna(0.0)
        for g in full:
            for i in range(f.shape[1]):
                if (Z.loc[: g.time].iloc[:, i] == 0).all():
                    if not (np.isnan(g.covariance.values[i]).all() and np.isnan(g.covariance.values[:, i]).all()):
                        bad(f"{what}: asset {i} never had a nonzero return but has covariances", time=g.time)

    def one(ctx, X, c, key, explicit=False):
        f = H.frame(X)
        g = f.fillna(0.0)
        kw = dict(c, nan_to_num=True) if explicit else c
        a = list(iterated_ewma(f, **kw))
        b = list(iterated_ewma(g, **c))
        ctx.trace(2)
        ctx.step(len(f))
        ctx.state(key)
        same_iewma(a, b, f"NaN vs 0, {c}", level=1e-9)
        others(ctx, f, a, c, str(c))
        nevers(f, a, c, str(c))

    T, n = (4, 2) if not deep else (5, 2)
    BASE = ["generic", "zeros"]

    def base(kind, T, n):
        X = H.generic(T, n)
        if kind == "zeros":
            X[0, 0] = 0
            X[-1, :] = 0
            X[1, n - 1] = 0
        return X

    def gen_masks():
        for kind in BASE:
            for m in range(2 ** (T * n)):
                for k in range(len(CF)):
                    yield [kind, T, n, m, k]
        for m in range(2**9):
            yield ["generic", 3, 3, m, m % 4]

    def mask(T, n, m):
        return np.array([(m >> b) & 1 for b in range(T * n)], bool).reshape(T, n)

    def run_masks(ctx, sc):
        kind, T, n, m, k = sc
        X = base(kind, T, n)
        X[mask(T, n, m)] = np.nan
        one(ctx, X, CF[k], (kind, T, n, m, k), explicit=bool(m % 2))

    LONGC = [cfg(10, 21), cfg(5, 10, 5, 5, 1.5), cfg(5, 10, 5, 5, 1.5, mean=True)]

    def gen_gaps():
        T, n = 44, 3
        for k in range(len(LONGC)):
            for i in range(n):
                for start in range(0, T, 1 if deep else 3):
                    for length in (1, 2, 7, T):
                        yield [k, [[start, length, i]]]
            for i, j in itertools.product(range(n), repeat=2):
                for s1, s2 in itertools.product([0, 15, 38], repeat=2):
                    for l1, l2 in [(3, 5), (1, 44)]:
                        yield [k, [[s1, l1, i], [s2, l2, j]]]
            for start in (0, 1, 10, 43):
                for length in (1, 4, 44):
                    yield [k, [[start, length, -1]]]

    def run_gaps(ctx, sc):
        k, gaps = sc
        X = H.generic(44, 3)
        for s, l, i in gaps:
            if i < 0:
                X[s : s + l] = np.nan
            else:
                X[s : s + l, i] = np.nan
        one(ctx, X, LONGC[k], (k, str(gaps)))

    from cvx.covariance.combination import from_ewmas

    PAIRS = [[(1, 2), (3, 5)], [(2, 4), (1, 1), (5, 3)]]

    def gen_comb():
        T, n = 6, 2
        for m in range(2 ** (4 * n)):
            yield [m, 0, m % 3]
        if deep:
            for m in range(2 ** (5 * n)):
                yield [m, 1, m % 3]

    def run_comb(ctx, sc):
        m, p, opt = sc
        n = 2
        rows = 4 if p == 0 else 5
        T = 4 + rows + 1
        X = H.generic(T, n)
        M = np.zeros((T, n), bool)
        M[4 : 4 + rows] = mask(rows, n, m)  # the first four rows make the experts nonsingular
        X[M] = np.nan
        f = H.frame(X)
        kw = [dict(), dict(clip_at=1.2), dict(mean=True)][opt]
        kw = dict(kw, min_periods_vola=1, min_periods_cov=3)
        res = []
        for g in (f, f.fillna(0.0)):
            res.append(list(from_ewmas(g, PAIRS[p], **kw).solve(window=2)))
            ctx.trace()
        a, b = res
        ctx.step(len(a))
        ctx.state("comb", m, p, opt)
        if [x and x.time for x in a] != [x and x.time for x in b]:
            bad("combined predictor: times differ between NaN and 0", first=len(a), second=len(b))
        if not a:
            bad("combined predictor reports nothing")
        for x, y in zip(a, b):
            if x is None:
                continue
            if not np.allclose(x.weights.values, y.weights.values, atol=1e-6):
                bad("combined predictor: weights differ between NaN and 0", first=x.weights.values, second=y.weights.values)
            if not np.allclose(x.covariance.values, y.covariance.values, rtol=1e-6, atol=1e-12):
                bad("combined predictor: covariances differ between NaN and 0", time=x.time)
            if not np.allclose(x.mean.values, y.mean.values, rtol=1e-6, atol=1e-10):
                bad("combined predictor: means differ between NaN and 0", time=x.time)

    LG = [cfg(10, 21, None, None, 4.2), cfg(21, 63, 63, 20), cfg(10, 21, 10, 10, 2.0, mean=True)]

    def run_large(ctx, sc):
        """delisted, late and intermittently missing assets, missing holidays"""
        T, n, kind, k = sc
        X = H.large("plain", T, n)
        X[H.large(kind, T, n) == 0] = np.nan
        if kind == "spike":
            X[T // 2 :, : n // 2] = np.nan
        f = H.frame(X)
        a, b = list(iterated_ewma(f, **LG[k])), list(iterated_ewma(f.fillna(0.0), **LG[k]))
        ctx.trace(2)
        ctx.step(len(a))
        ctx.state("large", *sc)
        same_iewma(a, b, f"NaN vs 0, {LG[k]}", level=1e-9)
        nevers(f, a[:: max(1, len(a) // 8)], LG[k], str(LG[k]))

    return [
        Space("all masks", f"all 2^{T * n} NaN masks of {T}x{n} histories (and all 2^9 of 3x3) x configurations", gen_masks, run_masks),
        Space("gaps", "44x3 history, default and other warm-ups: single gaps at every third row, double gaps, whole rows/columns", gen_gaps, run_gaps),
        Space("combined predictor", "all masks of four rows of a 9x2 history x options", gen_comb, run_comb),
        Space("large", "up to 700 rows, 100 assets: delisted, late, intermittently missing assets, missing rows", lambda: large_gen(len(LG), deep, ("zeros", "late", "spike")), run_large),
    ]


# ------------------------------------------------------------------ C06


def c06(deep):
    CF = [
        cfg(2, 3, 1, 1),
        cfg(3, 2, 2, 3, 1.1),
        cfg(2, 5, 0, 1, mean=True),
        cfg(4, 1, 3, 2, 0.9, mean=True, mu_halflife1=2, mu_halflife2=6),
    ]
    HIST = {
        "g3": H.generic(9, 3),
        "g4": H.generic(7, 4),
        "z3": None,
        "g2": H.generic(8, 2),
    }
    Z = H.generic(9, 3)
    Z[4, 1] = 0
    Z[6] = 0
    Z[3, 0] *= 40
    HIST["z3"] = Z

    def gen_scale():
        alpha = [1e-9, -1.0, 1e4, 1e9] if not deep else [1e-9, 1e-5, -1.0, -1e-4, 1e4, 1e9]
        for k in range(len(CF)):
            for h in ("g3", "z3"):
                for s in itertools.product(alpha, repeat=3):
                    yield [h, k, list(s)]
            for s in [1e-12, 1e-6, 0.5, -2.0, 100.0, 1e12]:
                yield ["g4", k, [s] * 4]

    def run_scale(ctx, sc):
        h, k, s = sc
        X, c = HIST[h], CF[k]
        s = np.array(s)
        a = list(iterated_ewma(H.frame(X), **c))
        b = list(iterated_ewma(H.frame(X * s), **c))
        ctx.trace(2)
        ctx.step(len(a))
        ctx.state("scale", h, k, tuple(s))
        if not a:
            bad("no report")
        if [x.time for x in a] != [x.time for x in b]:
            bad("rescaling returns changes the reported times")
        for x, y in zip(a, b):
            v = x.volatility.values
            if not close(y.volatility.values / np.abs(s), v, np.abs(v).max() * 1e-3, 1e-8):
                bad("rescaling: volatility", time=x.time, scales=s, got=y.volatility.values, base=v)
            got = y.covariance.values / np.outer(s, s)
            if not close(got, x.covariance.values, np.outer(v, v), 1e-7):
                bad("rescaling: covariance", time=x.time, scales=s, got=got.tolist(), base=x.covariance.values.tolist())
            if not close(y.mean.values / s, x.mean.values, v, 1e-7):
                bad("rescaling: mean", time=x.time, scales=s, got=y.mean.values, base=x.mean.values)
        va = volatility(H.frame(X), 3, 2, 1.2).values
        vb = volatility(H.frame(X * s), 3, 2, 1.2).values
        if not close(vb / np.abs(s), va, 0, 1e-8):
            bad("rescaling: volatility()", scales=s)

    def gen_perm():
        for k in range(len(CF)):
            for h in ("g2", "g3", "z3", "g4"):
                n = HIST[h].shape[1]
                for p in itertools.permutations(range(n)):
                    yield [h, k, list(p)]

    def run_perm(ctx, sc):
        h, k, p = sc
        f, c = H.frame(HIST[h]), CF[k]
        a = list(iterated_ewma(f, **c))
        b = list(iterated_ewma(f.iloc[:, p], **c))
        ctx.trace(2)
        ctx.step(len(a))
        ctx.state("perm", h, k, tuple(p))
        for y in b:
            same_labels(y.covariance.index, f.columns[p], "permuted covariance rows")
            same_labels(y.covariance.columns, f.columns[p], "permuted covariance columns")
        b = [
            y._replace(
                mean=y.mean.loc[f.columns],
                volatility=y.volatility.loc[f.columns],
                covariance=y.covariance.loc[f.columns, f.columns],
            )
            for y in b
        ]
        same_iewma(a, b, f"asset order {p}", tol=1e-8)

    def gen_subset():
        for k in range(len(CF)):
            for h in ("g2", "g3", "z3", "g4"):
                n = HIST[h].shape[1]
                for r in range(1, n):
                    for sub in itertools.combinations(range(n), r):
                        yield [h, k, list(sub)]

    def run_subset(ctx, sc):
        h, k, sub = sc
        f, c = H.frame(HIST[h]), CF[k]
        cols = f.columns[sub]
        a = list(iterated_ewma(f, **c))
        b = list(iterated_ewma(f[cols], **c))
        ctx.trace(2)
        ctx.step(len(a))
        ctx.state("subset", h, k, tuple(sub))
        a = [
            x._replace(mean=x.mean.loc[cols], volatility=x.volatility.loc[cols], covariance=x.covariance.loc[cols, cols])
            for x in a
        ]
        same_iewma(a, b, f"assets {sub} only", tol=1e-8)

    def gen_repeat():
        for k in range(len(CF)):
            for h in ("g2", "g3", "z3"):
                n = HIST[h].shape[1]
                for m in (2, 3, 4) if not deep else (2, 3, 4, 5):
                    for w in itertools.product(range(n), repeat=m):
                        yield [h, k, list(w)]

    def run_repeat(ctx, sc):
        """the same returns under several names"""
        h, k, w = sc
        X, c = HIST[h], CF[k]
        use = sorted(set(w))
        a = list(iterated_ewma(H.frame(X[:, use]), **c))
        f = H.frame(X[:, w])
        b = list(iterated_ewma(f, **c))
        ctx.trace(2)
        ctx.step(len(a))
        ctx.state("repeat", h, k, tuple(w))
        for y in b:
            same_labels(y.covariance.index, f.columns, "covariance rows")
            same_labels(y.covariance.columns, f.columns, "covariance columns")
            same_labels(y.volatility.index, f.columns, "volatility")
        at = [use.index(i) for i in w]
        a = [x._replace(mean=x.mean.iloc[at], volatility=x.volatility.iloc[at], covariance=x.covariance.iloc[at, at]) for x in a]
        same_iewma(a, b, f"assets {w}, some more than once", tol=1e-8)
        v = volatility(f, 3, 2, 1.2)
        if v.shape[1] != len(w) or not close(v.values, volatility(H.frame(X[:, use]), 3, 2, 1.2).values[:, at], 0, 1e-9):
            bad("volatility of repeated assets", assets=w)

    def gen_label():
        for k in range(len(CF)):
            for h in ("g3", "z3"):
                for label in H.LABELS + ["neg", "bday"] + H.UNSORTED:
                    for cols in H.COLUMNS:
                        for order in ("C", "F", "strided"):
                            if order == "C" or (label == "date" and cols == "str"):
                                yield [h, k, label, cols, order]

    def run_label(ctx, sc):
        h, k, label, cols, order = sc
        X, c = HIST[h], CF[k]
        a = list(iterated_ewma(H.frame(X), **c))
        if order == "F":
            Y = np.asfortranarray(X)
        elif order == "strided":
            big = np.zeros((2 * X.shape[0], X.shape[1]))
            big[::2] = X
            Y = big[::2]
        else:
            Y = X
        f = pd.DataFrame(Y, index=H.index(label, X.shape[0]), columns=H.columns(cols, X.shape[1]))
        b = list(iterated_ewma(f, **c))
        ctx.trace(2)
        ctx.step(len(a))
        ctx.state("label", h, k, label, cols, order)
        pos = {t: i for i, t in enumerate(f.index)}
        base = {t: i for i, t in enumerate(H.index("date", X.shape[0]))}
        if [pos.get(y.time) for y in b] != [base[x.time] for x in a]:
            bad(f"labels {label}: reported times differ", got=[str(y.time) for y in b])
        for y in b:
            same_labels(y.covariance.columns, f.columns, "relabelled covariance")
            same_labels(y.covariance.index, f.columns, "relabelled covariance")
            same_labels(y.volatility.index, f.columns, "relabelled volatility")
        b = [y._replace(time=x.time) for x, y in zip(a, b)]
        same_iewma(a, b, f"labels {label}/{cols}/{order}", tol=1e-10)
        v, w = volatility(H.frame(X), 2, 1), volatility(f, 2, 1)
        if not close(w.values, v.values, 0, 1e-10) or list(w.index) != list(f.index) or list(w.columns) != list(f.columns):
            bad(f"labels {label}/{cols}: volatility() differs")

    def gen_dtype():
        for k in range(len(CF)):
            for w in H.words("pqrs", [4] if not deep else [4, 5]):
                yield [k, w]

    INT = {"p": (1, 2, -3), "q": (-4, 1, 5), "r": (0, 7, 2), "s": (11, -1, 1)}

    def run_dtype(ctx, sc):
        k, w = sc
        c = CF[k]
        X = np.array([INT[ch] for ch in w])
        a = list(iterated_ewma(H.frame(X.astype(float)), **c))
        for dt in ("int64", "int32", "mixed", "object"):
            f = H.frame(X.astype(float))
            if dt == "mixed":
                f.isetitem(0, X[:, 0])
            elif dt == "object":
                continue
            else:
                f = f.astype(dt)
            b = list(iterated_ewma(f, **c))
            ctx.trace()
            ctx.step(len(a))
            ctx.state("dtype", k, w, dt)
            same_iewma(a, b, f"dtype {dt}", tol=1e-10)
            if not close(volatility(f, 2, 0, 1.1).values, volatility(H.frame(X.astype(float)), 2, 0, 1.1).values, 0, 1e-10):
                bad(f"dtype {dt}: volatility() differs")

    def gen_types():
        for n in (2, 3):
            for w in H.types(n, "ild"):
                for k in range(len(CF)):
                    yield [w, k]

    def run_types(ctx, sc):
        """the type of a column's numbers does not matter, here or to other assets"""
        w, k = sc
        c = CF[k]
        f, X = H.typed(12, len(w), w)
        a = list(iterated_ewma(H.frame(X), **c))
        b = list(iterated_ewma(f, **c))
        ctx.trace(2)
        ctx.step(len(a))
        ctx.state("types", w, k)
        same_iewma(a, b, f"column types {w}", tol=1e-9)
        if not close(volatility(f, 2, 0, 1.1).values.astype(float), volatility(H.frame(X), 2, 0, 1.1).values, 0, 1e-9):
            bad(f"column types {w}: volatility() differs")
        p = list(range(1, len(w))) + [0]
        back = [list(f.columns[p]).index(x) for x in f.columns]
        d = list(iterated_ewma(f.iloc[:, p], **c))
        for x, y in zip(a, d):
            if not close(y.covariance.values[np.ix_(back, back)], x.covariance.values, np.outer(x.volatility.values, x.volatility.values), 1e-8):
                bad(f"column types {w}, order {p}: covariance differs", time=x.time)

    LG = [cfg(10, 21, None, None, 4.2), cfg(63, 21, 20, 63), cfg(10, 21, 10, 10, 2.0, mean=True)]

    def run_large(ctx, sc):
        """permuted, rescaled, relabelled and restricted universes"""
        T, n, kind, k = sc
        X, c = H.large(kind, T, n), LG[k]
        a = list(iterated_ewma(H.frame(X), **c))
        if not a:
            bad("no report")
        p = [(7 * i + 3) % n if n % 7 else n - 1 - i for i in range(n)]
        s = 10.0 ** (np.arange(n) % 5 - 2) * np.where(np.arange(n) % 3, 1, -1)
        f = H.frame((X * s)[:, p], "int7", "rev")
        b = list(iterated_ewma(f, **c))
        keep = list(range(0, n, 2))
        d = list(iterated_ewma(H.frame(X).iloc[:, keep], **c))
        ctx.trace(3)
        ctx.step(3 * len(a))
        ctx.state("large", *sc)
        idx = H.index("date", T)
        back = dict(zip(H.index("int7", T), idx))
        if [back[y.time] for y in b] != [x.time for x in a] or [y.time for y in d] != [x.time for x in a]:
            bad("reported times depend on labels, order, units or other assets")
        for x, y, z in zip(a, b, d):
            v = x.volatility.values
            o = np.outer(v, v)
            if not close(y.volatility.values / np.abs(s[p]), v[p], v[p] * 1e-3, 1e-8) or not close(
                y.covariance.values / np.outer(s[p], s[p]), x.covariance.values[np.ix_(p, p)], o[np.ix_(p, p)], 1e-7
            ):
                bad("permuted and rescaled universe", time=x.time)
            if not close(y.mean.values / s[p], x.mean.values[p], v[p], 1e-7):
                bad("permuted and rescaled universe: mean", time=x.time)
            if not close(z.volatility.values, v[keep], 0, 1e-8) or not close(
                z.covariance.values, x.covariance.values[np.ix_(keep, keep)], o[np.ix_(keep, keep)], 1e-8
            ) or not close(z.mean.values, x.mean.values[keep], v[keep], 1e-8):
                bad("restricted universe", time=x.time)

    return [
        Space("scalings", "all scale vectors over {1e-9,-1,1e4,1e9}^3 x histories x configurations", gen_scale, run_scale),
        Space("permutations", "all asset orders, 2..4 assets", gen_perm, run_perm),
        Space("subsets", "all proper asset subsets, 2..4 assets", gen_subset, run_subset),
        Space("repeated assets", "all maps of 2..4 names to the assets of 2- and 3-asset histories", gen_repeat, run_repeat),
        Space("labels", "row label kinds x column label kinds x memory layouts", gen_label, run_label),
        Space("dtypes", "all words of 4 integer rows, length 4, as int64, int32, mixed columns", gen_dtype, run_dtype),
        Space("column types", "all assignments of 3 number types to 2 or 3 columns", gen_types, run_types),
        Space("large", "up to 700 rows, 100 assets, permuted, rescaled, relabelled and restricted", lambda: large_gen(len(LG), deep, ("plain", "zeros", "calm")), run_large),
    ]


# ------------------------------------------------------------------ C07


def valid(ctx, X, c, key):
    f = H.frame(X)
    mean = c.get("mean", False)
    want = {f.index[s.row]: s for s in ref_of(X, c)}
    ctx.trace()
    for g in iterated_ewma(f, **c):
        ctx.step()
        ctx.state("valid", key, g.time)
        C, v = g.covariance.values, g.volatility.values
        same_labels(g.covariance.index, f.columns, "covariance rows")
        same_labels(g.covariance.columns, f.columns, "covariance columns")
        if not (v >= 0).all() or not np.isfinite(v).all():
            bad("volatility negative or not finite", time=g.time, vola=v)
        st = want.get(g.time)
        if st is None:
            bad("report at a time without one", time=g.time)
        okv, okc = defined(st, mean)
        if ((v == 0) != (st.vola == 0))[okv].any():
            bad("volatility is zero although the variance is not (or conversely)", time=g.time, got=v, want=st.vola)
        d = okc & (v > 0) & (np.diag(st.second) > 0)
        fin = np.isfinite(C)
        if not fin[np.ix_(d, d)].all():
            bad("covariance not finite for assets with standardised returns", time=g.time, cov=C.tolist(), vola=v)
        k = np.isfinite(np.diag(C)) & okv
        sub = C[np.ix_(k, k)]
        if not np.isfinite(sub).all():
            bad("covariance partly undefined", time=g.time, cov=C.tolist())
        o = np.outer(v[k], v[k])
        if not (np.abs(sub - sub.T) <= 1e-10 * o).all():
            bad("covariance not symmetric", time=g.time, cov=C.tolist())
        if not (np.abs(np.diag(sub) - v[k] ** 2) <= 1e-9 * v[k] ** 2).all():
            bad("diagonal is not the squared volatility", time=g.time, diag=np.diag(C), vola2=v**2)
        if not (np.abs(sub) <= o * (1 + 1e-9)).all():
            bad("correlation outside [-1, 1]", time=g.time, cov=C.tolist())
        p = v[k] > 0
        if p.any():
            R = sub[np.ix_(p, p)] / o[np.ix_(p, p)]
            lam = np.linalg.eigvalsh((R + R.T) / 2)[0]
            if lam < -1e-9 * len(R):
                bad("covariance not positive semidefinite", time=g.time, smallest_eigenvalue_of_correlation=lam)


def c07(deep):
    CF = [
        cfg(2, 3, 1, 1),
        cfg(1, 4, 0, 2, 1.0),
        cfg(5, 1, 2, 1, 0.5),
        cfg(2, 2, 1, 2, mean=True),
        cfg(3, 1, 2, 2, 0.8, mean=True, mu_halflife1=1),
    ]

    def gen_words():
        for m in range(1, 5 if not deep else 6):
            for w in H.words("abczedh", [m]):
                for k in range(len(CF)):
                    if m < 4 or k in (0, 2, 4) or deep:
                        yield [w, k]

    def run_words(ctx, sc):
        valid(ctx, H.rows(sc[0]), CF[sc[1]], tuple(sc))

    def gen_three():
        for m in (2, 3, 4):
            for w in H.words("abczd", [m]):
                for k in range(len(CF)):
                    if m < 4 or k % 2 == 0 or deep:
                        yield [w, k]

    def run_three(ctx, sc):
        valid(ctx, H.rows(sc[0], H.ROWS3), CF[sc[1]], ("3", *sc))

    KIND = ["generic", "proportional", "opposite", "constant", "onefactor", "twin", "spike", "dead", "late", "tiny", "mixedscale", "alternating"]

    def hist(kind, T, n):
        X = H.generic(T, n)
        if kind == "proportional":
            X = X[:, :1] * np.arange(1, n + 1)
        elif kind == "opposite":
            X = X[:, :1] * np.where(np.arange(n) % 2, -1.0, 1.0)
        elif kind == "constant":
            X = np.full((T, n), 0.01) * np.arange(1, n + 1)
        elif kind == "onefactor":
            X = X[:, :1] * np.arange(1, n + 1) + 1e-7 * X
        elif kind == "twin":
            X[:, -1] = X[:, 0]
        elif kind == "spike":
            X[T // 2] *= 1e4
            X[T // 2 + 2, 0] *= 1e6
        elif kind == "dead":
            X[T // 3 :, 0] = 0
        elif kind == "late":
            X[: T // 2, -1] = 0
        elif kind == "tiny":
            X = X * 1e-9
        elif kind == "mixedscale":
            X = X * 10.0 ** np.linspace(-8, 8, n)
        elif kind == "alternating":
            X = X * np.where(np.arange(T) % 2, 1.0, 50.0)[:, None]
        return X

    LC = [cfg(5, 10, 5, 5), cfg(5, 10, 5, 5, 1.2), cfg(10, 3, 3, 1, 0.7), cfg(10, 21), cfg(5, 10, 5, 5, mean=True), cfg(10, 5, 5, 5, 1.5, mean=True)]

    def gen_long():
        for kind in KIND:
            for n in (1, 2, 4, 8) if not deep else (1, 2, 3, 4, 8, 16, 26):
                for T in (30, 60) if not deep else (30, 60, 250):
                    for k in range(len(LC)):
                        yield [kind, n, T, k]

    def run_long(ctx, sc):
        kind, n, T, k = sc
        valid(ctx, hist(kind, T, n), LC[k], tuple(sc))

    def gen_per():
        for m in (1, 2, 3) if deep else (1, 2):
            for w in H.words("abczedh", [m]):
                for k in range(len(LC)):
                    yield [w, k]

    def run_per(ctx, sc):
        valid(ctx, H.periodic(sc[0], 50), LC[sc[1]], ("per", *sc))

    LG = [cfg(10, 21, None, None, 4.2), cfg(63, 125, 63, 20), cfg(10, 3, 20, 5, 1.0)]

    def run_large(ctx, sc):
        T, n, kind, k = sc
        valid(ctx, H.large(kind, T, n), LG[k], ("large", *sc))

    return [
        Space("short histories", "all words of 7 row letters up to length 4 x configurations", gen_words, run_words),
        Space("three assets", "all words of 5 row letters, length 2..4", gen_three, run_three),
        Space("structured histories", "12 kinds of (degenerate) history x assets x length x configurations", gen_long, run_long),
        Space("periodic histories", "all periods up to length 2, 50 rows", gen_per, run_per),
        Space("large", LARGE_TEXT, lambda: large_gen(len(LG), deep), run_large),
    ]
