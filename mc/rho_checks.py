"""C33: causal uncertainties of expected returns."""

from __future__ import annotations

import os
import sys

import numpy as np
import pandas as pd

from . import histories as H
from .code import REPO, quiet
from .engine import Space
from .experts import bad

sys.path.insert(0, os.path.join(REPO, "experiments"))
from utils.trading_model import construct_rho  # noqa: E402

HALFLIFE = 125


def ref(X, k):
    """k times the unbiased exponentially weighted standard deviation of the rows strictly before each row, 0 if undefined"""
    T, n = X.shape
    out = np.zeros((T, n))
    for t in range(1, T):
        w = 0.5 ** ((t - 1 - np.arange(t)) / HALFLIFE)
        for j in range(n):
            ok = np.isfinite(X[:t, j])
            if ok.sum() < 2:
                continue
            v, x = w[ok], X[:t, j][ok]
            m = v @ x / v.sum()
            var = v @ (x - m) ** 2 / v.sum() * v.sum() ** 2 / (v.sum() ** 2 - v @ v)
            out[t, j] = k * np.sqrt(max(var, 0.0))
    return out


def compare(ctx, f, k, call, key):
    before = f.copy()
    with quiet():
        got = call(f)
    ctx.trace()
    if not f.equals(before):
        bad("the returns were modified")
    if list(got.index) != list(f.index) or list(got.columns) != list(f.columns):
        bad("not one row per date with the asset labels")
    want = ref(f.values.astype(float), k)
    scale = np.nanmax(np.abs(np.nan_to_num(f.values.astype(float))), initial=0) * abs(k)
    for t in range(len(f)):
        ctx.step()
        ctx.state(*key, t)
        # a variance that is zero up to cancellation has no meaningful root
        if not (np.abs(got.values[t] - want[t]) <= 1e-6 * np.abs(want[t]) + 1e-6 * scale).all():
            bad("not the deviations of the rows strictly before", row=t, got=got.values[t], want=want[t])
        if (got.values[t] < 0).any() if k >= 0 else False:
            bad("negative uncertainty", row=t)
    return got


def c33(deep):
    def gen_words():
        for w in H.words("abczhN", range(1, 5 if not deep else 6)):
            yield [w, 2]
        for w in H.words("abM", range(5, 7)):
            yield [w, 0.5]

    def run_words(ctx, sc):
        w, k = sc
        compare(ctx, H.frame(H.rows(w)), k, lambda f: construct_rho(f, k) if k != 2 else construct_rho(f), ["w", w, k])

    def gen_shapes():
        for T in (1, 2, 3, 30, 260):
            for n in (1, 3, 12):
                for lab in ("date", "int", "str", "desc"):
                    for k in (0, 1, 2, 3.5):
                        yield [T, n, lab, k, "plain"]
        for T, n in [(400, 5), (150, 40), (90, 100)]:
            for ev in H.EVENTS:
                yield [T, n, "date", 2, ev]

    def run_shapes(ctx, sc):
        T, n, lab, k, ev = sc
        X = H.large(ev, T, n) if ev != "plain" else H.generic(T, n)
        compare(ctx, H.frame(X, lab), k, lambda f: construct_rho(f, n_devs=k), sc)

    def gen_prefix():
        for T, n in [(12, 2), (40, 3)]:
            for cut in range(1, T):
                for fut in ("gone", "nan", "huge", "negated"):
                    yield [T, n, cut, fut]

    def run_prefix(ctx, sc):
        T, n, cut, fut = sc
        X = H.generic(T, n)
        Y = X.copy()
        if fut == "gone":
            Y = Y[:cut]
        else:
            Y[cut:] = {"nan": np.nan, "huge": 1e6, "negated": -X[cut:]}[fut]
        a, b = construct_rho(H.frame(X)), construct_rho(H.frame(Y))
        ctx.trace(2)
        m = min(cut + 1, len(b))
        for t in range(m):
            ctx.step()
            ctx.state("prefix", *sc, t)
            if not np.allclose(a.values[t], b.values[t], rtol=1e-9, atol=1e-14):
                bad("the uncertainty of a date depends on that date's or later returns", row=t)

    def gen_quiet():
        for T in (150, 1200, 3000, 4800):
            for tail in ("zero", "small", "tiny"):
                for jump in (1.0, 1e-3, 1e4):
                    yield [T, tail, jump]

    def run_quiet(ctx, sc):
        """one jump and a very long quiet time: every deviation to relative accuracy"""
        T, tail, jump = sc
        x = H.generic(T, 1, {"zero": 0.0, "small": 1e-3, "tiny": 1e-6}[tail] * jump).flatten()
        x[0] = jump
        with quiet():
            got = construct_rho(H.frame(x.reshape(-1, 1))).values[:, 0]
        ctx.trace()
        s1 = s2 = 0.0
        b = 0.5 ** (1 / HALFLIFE)
        # unbiased weighted variance of the rows before t, with sums that are updated around the current mean
        m = v = 0.0
        for t in range(T):
            want = 0.0
            if t >= 2:
                want = 2 * np.sqrt(v / s1 * s1**2 / (s1**2 - s2))
            ctx.step()
            ctx.state("quiet", *sc, t // 50)
            if not abs(got[t] - want) <= 1e-5 * want:
                bad("not the deviation of the rows strictly before", row=t, got=got[t], want=want)
            s1, s2 = b * s1 + 1, b * b * s2 + 1
            d = x[t] - m
            m += d / s1
            v = b * v + d * (x[t] - m)

    return [
        Space("quiet", "a jump followed by up to 4800 quiet rows: relative accuracy", gen_quiet, run_quiet),
        Space("words", "all words of 6 row letters (incl. missing values) up to length 4, 3 letters up to length 6", gen_words, run_words),
        Space("shapes", "lengths, assets up to 100, labels, numbers of deviations, events", gen_shapes, run_shapes),
        Space("causality", "every cut point x futures", gen_prefix, run_prefix),
    ]
