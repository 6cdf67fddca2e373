"""C08-C17: the combined predictor."""

from __future__ import annotations

import itertools
import threading

import cvxpy as cp
import numpy as np
import pandas as pd

from cvx.covariance.combination import from_ewmas, from_sigmas
from cvx.covariance.ewma import iterated_ewma

from . import code
from . import histories as H
from .engine import Space
from .experts import (
    GAP,
    REAL_SOLVE,
    SUM,
    Case,
    bad,
    check_blend,
    check_schedule,
    check_weights,
    curvature,
    generic_case,
    run,
    same_entry,
    same_run,
    set_answer,
    solver,
    word_case,
)

UNITS = [list(u) for u in itertools.product([1.0, 1e-3, 1e2], repeat=2)] + [list(u) for u in itertools.product([1.0, 1e-3, 1e-5], repeat=3)] + [[1e-2, 1.0, 1e-4, 30.0, 1e-3, 1e3]]
ALIKE = ["signs", "order", "diagonal"]


def kind_of_labels(sc):
    """the kind of row labels of a scenario: all kinds in turn"""
    kinds = ["date", *H.UNSORTED, "int7", "date", "gaps"]
    return kinds[sum(map(ord, str(sc))) % len(kinds)]


# ------------------------------------------------------------------ C08


def solve_and_certify(ctx, case, window, key, slack=(GAP, 1e-5, SUM), **kw):
    got = run(case.build(), window=window, **kw)
    ctx.trace()
    n = 0
    for g in got:
        ctx.step()
        if g is None:
            continue
        n += 1
        ctx.state("cert", key, window, case.row(g.time))
        check_weights(case, g, window, slack=slack)
    return got


def c08(deep):
    LET = "abcdeg" if deep else "abcd"

    def gen_words():
        for m in (2, 3, 4) if not deep else (2, 3, 4, 5):
            for w in H.words(LET, [m]):
                for window in [1, 2, 3, None]:
                    if window is None or window < m:
                        yield [w, window, (len(w) + ord(w[0]) + ord(w[-1])) % 2]
        # every pair of successive experts/returns, with means too
        for w in H.words("abcdefg", [3]):
            yield [w, 2, 1]

    def run_words(ctx, sc):
        w, window, mu = sc
        c = word_case(w, mu, label=kind_of_labels(sc))
        got = solve_and_certify(ctx, c, window, (w, mu))
        check_schedule(c, got, window)

    def gen_shapes():
        for T, n, K in [(6, 1, 2), (6, 1, 3), (8, 2, 3), (7, 3, 1), (9, 3, 2), (12, 5, 4), (12, 8, 5), (16, 2, 6), (24, 12, 3)]:
            for s in [1e-4, 1e-2, 1.0, 100.0]:
                for sr in [0.01, 1.0, 8.0]:
                    for means in (0, 1):
                        for window in [1, 2, 5, 10, None]:
                            if deep or (window in (1, 5, None) if means else window in (2, 10)):
                                yield [T, n, K, s, sr, means, window]

    def run_shapes(ctx, sc):
        T, n, K, s, sr, means, window = sc
        c = generic_case(T, n, K, s, bool(means), scales_r=sr)
        got = solve_and_certify(ctx, c, window, str(sc))
        check_schedule(c, got, window)
        if any(g is None for g in got):
            bad("a step without failure reports None")

    def gen_degenerate():
        for n in (1, 2, 3):
            for K in (1, 2, 3, 5):
                for kind in ("zeros", "somezero", "same", "short", "onezero"):
                    for window in (1, 2, 4, None):
                        for means in (0, 1):
                            yield [n, K, kind, window, means]

    def run_degenerate(ctx, sc):
        n, K, kind, window, means = sc
        T = 7
        zr = {"zeros": range(T), "somezero": range(3, 6), "onezero": (4,)}.get(kind, ())
        c = generic_case(T if kind != "short" else 3, n, K, 0.5, bool(means), zero_rows=zr, same=(kind == "same"), label=kind_of_labels(sc))
        got = solve_and_certify(ctx, c, window, str(sc))
        check_schedule(c, got, window)
        if any(g is None for g in got):
            bad("a well-posed step reports None", scenario=sc)

    def gen_limit():
        for it in range(1, 16 if not deep else 40):
            for n, K in [(2, 3), (3, 2), (6, 5)]:
                for window in (2, 5):
                    for s in (1e-2, 1.0):
                        yield [it, n, K, window, s]

    def run_limit(ctx, sc):
        it, n, K, window, s = sc
        c = generic_case(9, n, K, s)
        # a solver stopped by its limit may claim reduced accuracy only (5e-5 relative by default)
        got = solve_and_certify(ctx, c, window, str(sc), slack=(0.05, 1e-3, 1e-4), max_iter=it)
        want = c.model.times(window)
        if len(got) != len(want):
            bad("an iteration limit changes the number of entries", got=len(got), want=len(want))
        for g, t in zip(got, want):
            if g is not None and g.time != c.idx[t]:
                bad("an iteration limit shifts the reported times", got=g.time, want=c.idx[t])

    KEYS = [["b", "a", "c"], [3, 1, 2], [10, 9, 1.5], ["10-20", "9-5", "x"], [("v", 2), ("u", 1), ("a", 0)]]

    def gen_keys():
        for ks in range(len(KEYS)):
            for p in itertools.permutations(range(3)):
                for m in itertools.permutations(range(3)):
                    if ks < 2 or m in ((0, 1, 2), (2, 0, 1)):
                        yield [ks, list(p), list(m)]

    def run_keys(ctx, sc):
        """every order of the expert keys, every order of the experts in the means"""
        ks, p, m = sc
        keys = [KEYS[ks][i] for i in p]
        c = generic_case(6, 2, 3, 1.0, True, keys=keys, mean_order=m)
        got = solve_and_certify(ctx, c, 3, str(sc))
        check_schedule(c, got, 3)

    LARGE = [(40, 3, 4, 30), (110, 3, 3, 100), (28, 40, 5, 20), (18, 60, 3, 10), (26, 10, 10, 20), (160, 2, 2, 150), (20, 6, 15, 12), (10, 100, 2, 5), (60, 25, 4, 52), (406, 1, 2, 400), (1030, 1, 2, 1024), (270, 2, 3, 260)]

    def gen_large():
        for T, n, K, window in LARGE + ([(300, 30, 6, 250), (70, 100, 8, 63), (90, 50, 20, 60)] if deep else []):
            for means in (0, 1):
                for s in (1.0, 0.01):
                    yield [T, n, K, s, means, window]

    def run_large(ctx, sc):
        T, n, K, s, means, window = sc
        c = generic_case(T, n, K, s, bool(means), means_as="array" if n % 2 else "series")
        got = solve_and_certify(ctx, c, window, str(sc))
        check_schedule(c, got, window)
        for g in got:
            check_blend(c, g)

    def gen_uneven():
        for u in UNITS:
            for K in (2, 3):
                for window in (1, 3, None):
                    for means in (0, 1):
                        yield [u, None, K, window, means]
        for alike in ALIKE:
            for n in (2, 3, 4):
                for K in (2, 3, 4):
                    for window in (1, 3, None):
                        for means in (0, 1):
                            yield [[1.0] * n, alike, K, window, means]

    def run_uneven(ctx, sc):
        u, alike, K, window, means = sc
        c = generic_case(8, len(u), K, 0.01, bool(means), units=u, alike=alike)
        got = solve_and_certify(ctx, c, window, str(sc), slack=(GAP if alike else 0.02, 1e-5, SUM))  # the solver is less accurate on such data
        check_schedule(c, got, window)
        if any(g is None for g in got):
            bad("a well-posed step reports None", scenario=sc)

    STAT = ["infeasible", "unbounded", "infeasible_inaccurate", "unbounded_inaccurate", "user_limit", "infeasible_or_unbounded", "solver_error"]

    def gen_status():
        for st in STAT:
            for val in ("none", "uniform", "bad"):
                for how in ("set", "raise"):
                    for window in (1, 3, None):
                        yield [st, val, how, window]

    def run_status(ctx, sc):
        st, val, how, window = sc
        c = generic_case(6, 2, 3)
        value = {"none": None, "uniform": [1 / 3] * 3, "bad": [0.5, 0.4, -0.2]}[val]

        def fake(problem, *a, **k):
            if not set_answer(problem, value, st):
                return REAL_SOLVE(problem, *a, **k)
            if how == "raise":
                raise cp.SolverError("injected")
            return problem._value

        with solver(fake):
            got = run(c.build(), window=window)
        ctx.trace()
        for g, t in zip(got, c.model.times(window)):
            ctx.step()
            ctx.state("status", *sc, t)
            if g is not None:
                bad(f"weights are reported although the solver stopped with status {st}", weights=dict(g.weights))
        if len(got) != len(c.model.times(window)):
            bad("number of entries", got=len(got))

    return [
        Space("words", f"all words of {len(LET)} joint letters (expert matrices, return) up to length {5 if deep else 4} x windows; all 3-words of 7 letters with means", gen_words, run_words),
        Space("shapes", "assets 1..12 x experts 1..6 x scales x return sizes x windows x means", gen_shapes, run_shapes),
        Space("keys", "all orders of expert keys x all orders of the means x key types", gen_keys, run_keys),
        Space("large", "up to 100 assets, 15 experts, windows of 150 times, 160 times", gen_large, run_large),
        Space("degenerate", "all-zero windows, identical experts, short histories", gen_degenerate, run_degenerate),
        Space("uneven assets", "assets whose units differ by factors up to 1e5; experts that share diagonals, traces or determinants", gen_uneven, run_uneven),
        Space("iteration limits", "every solver iteration limit from 1 on: reported weights must still be optimal", gen_limit, run_limit),
        Space("solver status", "every non-optimal solver status x value left behind x window", gen_status, run_status),
    ]


# ------------------------------------------------------------------ C09


def grid(K, m):
    """all weights with denominator m"""
    for c in itertools.combinations(range(m + K - 1), K - 1):
        cuts = [-1, *c, m + K - 1]
        yield [(b - a - 1) / m for a, b in zip(cuts, cuts[1:])]


def c09(deep):
    def answered(value):
        used = []

        def fake(problem, *a, **k):
            if set_answer(problem, value):
                used.append(1)
                return 0.0
            return REAL_SOLVE(problem, *a, **k)

        return fake, used

    def with_answer(ctx, c, value, window, key, times=None):
        fake, used = answered(value)
        with solver(fake):
            got = run(c.build(), window=window) if times is None else run(c.build(), window=window, times=times)
        ctx.trace()
        for g in got:
            ctx.step()
            if g is None:
                bad("None although the solver answered")
            ctx.state("blend", key, tuple(value), c.row(g.time))
            if used and not np.allclose(g.weights.values, value, atol=1e-12):
                bad("reported weights are not the solver's", got=dict(g.weights), solver=value)
            check_blend(c, g)
        return got

    def gen_grid():
        for T, n, K in [(5, 1, 2), (5, 2, 2), (4, 2, 3), (5, 3, 2), (4, 4, 3), (4, 6, 4), (3, 12, 2)]:
            for m in (1, 2, 4) if not deep else (1, 2, 3, 4, 6, 8):
                for v in grid(K, m):
                    for s in (1e-2, 1.0):
                        for means in (0, 1):
                            yield [T, n, K, s, means, v]

    def run_grid(ctx, sc):
        T, n, K, s, means, v = sc
        for window in (1, 2, None):
            c = generic_case(T, n, K, s, bool(means), means_as="array" if K == 2 else "series")
            with_answer(ctx, c, v, window, (T, n, K, s, means, window))

    def gen_words():
        for w in H.words("abcdefg", [3] if not deep else [3, 4]):
            for v in grid(2, 4):
                yield [w, v]

    def run_words(ctx, sc):
        w, v = sc
        with_answer(ctx, word_case(w, True), v, 1, w)
        with_answer(ctx, word_case(w, False), v, 2, w)

    def gen_real():
        for w in H.words("abcde", [3, 4]):
            for window in (1, 3, None):
                yield [w, window]

    def run_real(ctx, sc):
        w, window = sc
        c = word_case(w, len(w) % 2)
        got = run(c.build(), window=window)
        ctx.trace()
        check_schedule(c, got, window)
        for g in got:
            ctx.step()
            if g is not None:
                ctx.state("real", w, window, c.row(g.time))
                check_blend(c, g)

    def gen_labels():
        for label in H.LABELS + ["neg"] + H.UNSORTED:
            for cols in H.COLUMNS if label == "date" else ("str", "int", "rev", "named"):
                for keys in (["b", "a", "c"], ["10-20", "9-5", "x"], [3, 1, 2], [("u", 1), ("v", 2), ("a", 0)]):
                    yield [label, cols, keys]

    def run_labels(ctx, sc):
        label, cols, keys = sc
        keys = [tuple(k) if isinstance(k, list) else k for k in keys]
        c = generic_case(5, 3, 3, 0.1, True, label=label, cols=cols, keys=keys)
        got = with_answer(ctx, c, [0.5, 0.2, 0.3], 2, str(sc))
        check_schedule(c, got, 2)
        for g in got:
            if list(g.weights.index) != keys:
                bad("weights carry the wrong expert keys", got=list(g.weights.index), want=keys)
        got = run(c.build(), window=3)
        check_schedule(c, got, 3)
        for g in got:
            check_weights(c, g, 3)
            check_blend(c, g)

    def gen_order():
        for K in (2, 3):
            for p in itertools.permutations(range(K)):
                for keys in (["b", "a", "c"], [3, 1, 2]):
                    for v in grid(K, 2):
                        yield [keys[:K], list(p), v]

    def run_order(ctx, sc):
        """the experts' means in any order of the dictionary"""
        keys, p, v = sc
        c = generic_case(5, 3, len(keys), 0.1, True, keys=keys, mean_order=p)
        check_schedule(c, with_answer(ctx, c, v, 2, str(sc)), 2)

    def gen_avail():
        P = [[0, 1, 2, 3, 4, 5], [1, 2, 3, 4], [0, 2, 3, 5], [0, 1, 3, 4, 5], [2, 3, 4, 5]]
        for a, b in itertools.product(range(len(P)), repeat=2):
            for means in (0, 1):
                yield [P[a], P[b], means]

    def run_avail(ctx, sc):
        a, b, means = sc
        c = generic_case(6, 2, 2, 1.0, bool(means), avail=[a, b], label=kind_of_labels(sc))
        got = with_answer(ctx, c, [0.25, 0.75], 2, str(sc))
        check_schedule(c, got, 2)

    def gen_uneven():
        for u in UNITS:
            for K in (2, 3):
                for v in grid(K, 2):
                    for means in (0, 1):
                        yield [u, None, K, v, means]
        for alike in ALIKE:
            for n in (2, 3, 4):
                for K in (2, 3):
                    for v in grid(K, 4):
                        for means in (0, 1):
                            yield [[1.0] * n, alike, K, v, means]

    def run_uneven(ctx, sc):
        u, alike, K, v, means = sc
        c = generic_case(5, len(u), K, 0.01, bool(means), units=u, alike=alike)
        check_schedule(c, with_answer(ctx, c, v, 2, str(sc)), 2)

    def gen_large():
        for T, n, K in [(4, 40, 3), (4, 100, 2), (5, 5, 12), (30, 20, 6)] + ([(4, 200, 4), (60, 50, 10)] if deep else []):
            for means in (0, 1):
                for s in (0.01, 1.0):
                    for answer in ("ramp", "vertex", "uniform", "real"):
                        yield [T, n, K, means, s, answer]

    def run_large(ctx, sc):
        T, n, K, means, s, answer = sc
        c = generic_case(T, n, K, s, bool(means), means_as="array" if K % 2 else "series", cols="rev", mean_order=list(range(K))[::-1])
        window = min(10, T - 1)
        if answer == "real":
            got = run(c.build(), window=window)
            ctx.trace()
            for g in got:
                check_blend(c, g)
        else:
            v = {"ramp": np.arange(1, K + 1) / (K * (K + 1) / 2), "vertex": np.eye(K)[K - 1], "uniform": np.full(K, 1 / K)}[answer]
            got = with_answer(ctx, c, list(v), window, str(sc))
        check_schedule(c, got, window)

    return [
        Space("solver answers", "every point of simplex grids as the solver's answer x shapes x scales x means x windows", gen_grid, run_grid),
        Space("words", "all 3-words of 7 joint letters x 5 solver answers, with and without means", gen_words, run_words),
        Space("real solver", "all words of 5 joint letters of length 3 and 4, real solver", gen_real, run_real),
        Space("labels", "row labels x column labels x expert keys", gen_labels, run_labels),
        Space("order of means", "all orders of the means dictionary, 2-3 experts x solver answers", gen_order, run_order),
        Space("availability", "25 availability patterns x means", gen_avail, run_avail),
        Space("uneven assets", "assets whose units differ by factors up to 1e5; experts that share diagonals, traces or determinants x solver answers", gen_uneven, run_uneven),
        Space("large", "up to 100 assets, 12 experts x means x units x solver answers and the real solver", gen_large, run_large),
    ]


# ------------------------------------------------------------------ C10


def uniform(problem, *a, **k):
    vs = problem.variables()
    if len(vs) == 1 and set_answer(problem, [1 / vs[0].size] * vs[0].size):
        return 0.0
    return REAL_SOLVE(problem, *a, **k)


def c10(deep):
    def subsets(T):
        for m in range(2**T):
            yield [t for t in range(T) if m >> t & 1]

    WIN = [1, 2, 3, None, 99]

    def case(avail, T, n=2, means=0, label="date"):
        return generic_case(T, n, len(avail), 1.0, bool(means), avail=avail, label=label)

    def gen_two():
        T = 5
        for a in subsets(T):
            for b in subsets(T):
                yield [T, [a, b]]

    def run_pat(ctx, sc):
        T, avail = sc
        for i, window in enumerate(WIN):
            if any(len(a) == 0 for a in avail) and window != 1:
                continue
            c = case(avail, T, means=(i + len(avail[0])) % 2, label=kind_of_labels([sc, i]))
            with solver(uniform):
                got = run(c.build(), window=window)
            ctx.trace()
            ctx.step(max(1, len(got)))
            ctx.state("sched", str(sc), window)
            check_schedule(c, got, window)

    def gen_three():
        T = 4
        S = list(subsets(T))
        for a, b, c in itertools.product(S, repeat=3):
            if deep or (len(a) >= 2 and len(b) >= 2 and len(c) >= 2):
                yield [T, [a, b, c]]

    def gen_long():
        for T in (2, 3, 4, 8, 13):
            for window in [*range(1, T + 2), None]:
                for label in ("date", "int", "neg", "str", "float", "gaps", *H.UNSORTED):
                    for K in (1, 2, 3):
                        yield [T, window, label, K]

    def run_long(ctx, sc):
        T, window, label, K = sc
        c = generic_case(T, 2, K, label=label)
        with solver(uniform):
            got = run(c.build(), window=window) if window is not None else run(c.build())
        ctx.trace()
        ctx.step(max(1, len(got)))
        ctx.state("long", *sc)
        check_schedule(c, got, window)

    def gen_real():
        T = 6
        P = [[0, 1, 2, 3, 4, 5], [1, 2, 3, 4, 5], [0, 1, 2, 3, 4], [0, 1, 3, 4, 5], [0, 2, 3, 5], [2, 3, 4], [0, 3, 5]]
        for a, b in itertools.product(P, repeat=2):
            for window in (1, 2, None):
                for means in (0, 1):
                    yield [T, a, b, window, means]

    def run_real(ctx, sc):
        T, a, b, window, means = sc
        c = case([a, b], T, means=means, label=kind_of_labels(sc))
        got = run(c.build(), window=window)
        ctx.trace()
        check_schedule(c, got, window)
        for g in got:
            ctx.step()
            if g is None:
                bad("None without a solver failure")
            ctx.state("real", str(sc), c.row(g.time))
            check_weights(c, g, window)
            check_blend(c, g)

    def gen_large():
        for T, n, K in [(120, 1, 2), (260, 2, 3), (40, 30, 4)]:
            for window in (1, 10, 30, T // 2, T - 2, None):
                for kind in ("full", "late", "holes", "early end"):
                    yield [T, n, K, window, kind, "int7" if window != 30 and window != T - 2 else "shuffle"]

    def run_large(ctx, sc):
        T, n, K, window, kind, label = sc
        avail = None
        if kind == "late":
            avail = [[t for t in range(T) if t >= 7 * k] for k in range(K)]
        if kind == "holes":
            avail = [[t for t in range(T) if t % (11 + k) != 5] for k in range(K)]
        if kind == "early end":
            avail = [[t for t in range(T) if t < T - 3 * k] for k in range(K)]
        c = generic_case(T, n, K, 1.0, avail=avail, label=label)
        with solver(uniform):
            got = run(c.build(), window=window)
        ctx.trace()
        ctx.step(max(1, len(got)))
        ctx.state("large", *sc)
        check_schedule(c, got, window)

    def gen_stale():
        T = 5 if not deep else 6
        for a in range(2**T):
            for b in range(2**T):
                yield [T, a, b]
        for T in (40, 90):
            for every in (2, 7, 21, T):
                yield [T, -every, -every]
                yield [T, -every, -1]

    def run_stale(ctx, sc):
        """experts that repeat a prediction, without or with the returns repeating too"""
        T, a, b = sc
        c = generic_case(T, 2, 2, 1.0, bool(a % 2))
        for k, m in enumerate((a, b)):
            for t in range(1, T):
                if m >> t & 1 if m >= 0 else t % -m:
                    c.sig[k][t] = c.sig[k][t - 1]
                    if c.mu is not None:
                        c.mu[k][t] = c.mu[k][t - 1]
        if (a >> 1) % 2:
            for t in range(1, T):
                if a >> t & 1 and b >> t & 1:
                    c.R[t] = c.R[t - 1]
        c = Case(c.sig, c.R, c.mu, label=kind_of_labels(sc))
        for window in (1, 3, None):
            with solver(uniform):
                got = run(c.build(), window=window)
            ctx.trace()
            ctx.step(max(1, len(got)))
            ctx.state("stale", str(sc), window)
            check_schedule(c, got, window)

    return [
        Space("stale", "two experts that repeat predictions at every subset of 5 times; long runs of repetitions", gen_stale, run_stale),
        Space("two experts", "all 32x32 availability patterns over 5 times x 5 windows", gen_two, run_pat),
        Space("three experts", "all availability patterns over 4 times (with at least 2 times each) x 5 windows", gen_three, run_pat),
        Space("lengths", "all windows for histories of 2..13 times, 1..3 experts, label kinds", gen_long, run_long),
        Space("real solver", "49 pattern pairs x windows x means: optimality certificate on the common times", gen_real, run_real),
        Space("large", "up to 260 times and 30 assets: experts that start late, end early, have holes x windows", gen_large, run_large),
    ]


# ------------------------------------------------------------------ C11


def c11(deep):
    N = 6 if not deep else 8

    def gen_runs():
        for kind in ("generic", "means", "zeros", "avail", *H.UNSORTED):
            for window in [1, 2, 3, 5, N, None, 99]:
                yield [kind, window]

    def case(kind):
        T = N + 1
        if kind == "avail":
            return generic_case(T + 2, 2, 2, avail=[[t for t in range(T + 2) if t != 3], [t for t in range(T + 2) if t != 5]])
        label = kind if kind in H.UNSORTED else "date"
        return generic_case(T, 2, 3, 1.0, kind in ("means", "tick"), zero_rows=(2, 3) if kind == "zeros" else (), label=label)

    def run_runs(ctx, sc):
        kind, window = sc
        c = case(kind)
        comb = c.build()
        full = run(comb, window=window)
        check_schedule(c, full, window)
        avail = c.model.scored
        for a in range(len(avail)):
            for b in range(a + 1, len(avail) + 1):
                req = [c.idx[t] for t in avail[a:b]]
                for form in ("list", "index", "tuple", "iter"):
                    if form != "list" and (a + b) % 3:
                        continue
                    times = {"list": req, "index": pd.Index(req), "tuple": tuple(req), "iter": iter(req)}[form]
                    got = run(comb, window=window, times=times)
                    ctx.trace()
                    ctx.step(len(got) or 1)
                    ctx.state("run", kind, window, a, b)
                    want = [g for g in full if g.time in set(req)]
                    if [g.time for g in got] != [g.time for g in want]:
                        bad(
                            "selected times: wrong entries",
                            requested=[str(t) for t in req],
                            got=[str(g.time) for g in got],
                            want=[str(g.time) for g in want],
                            window=window,
                        )
                    same_run(got, want, f"times={[str(t) for t in req]}, window={window}", wtol=2e-4, rtol=2e-4)

    def gen_bad():
        for window in (1, 2, 4, None):
            for first in range(-1, 5):
                for label in ("int7", "desc", "shuffle"):
                    yield [window, first, label]

    def run_bad(ctx, sc):
        """all requests of length up to 3 over 5 available times, the unscored first time and an unknown time"""
        window, first, label = sc
        T = 6
        c = generic_case(T, 2, 2, label=label)
        comb = c.build()
        avail = [c.idx[t] for t in c.model.scored]
        unknown = 3
        alphabet = [*avail, c.idx[0], unknown]
        head = alphabet[first] if first >= 0 else unknown
        for m in (1, 2, 3):
            for rest in itertools.product(alphabet, repeat=m - 1):
                req = [head, *rest]
                ok = all(r in avail for r in req) and [avail.index(r) for r in req] == list(
                    range(avail.index(req[0]), avail.index(req[0]) + len(req))
                )
                if ok:
                    continue
                ctx.trace()
                ctx.step()
                ctx.state("bad", window, label, tuple(float(r) for r in req))
                gen = comb.solve(window=window, times=req)
                with solver(uniform), code.quiet():
                    try:
                        g = next(gen)
                    except StopIteration:
                        bad("a request that is not a run of available times is silently ignored", request=req, available=avail)
                    except Exception:
                        continue
                bad("a request that is not a run of available times is answered", request=req, available=avail, first=g.time if g else None)

    def gen_long():
        for a in range(0, 24, 1 if deep else 5):
            for ln in (1, 2, 10):
                for window in (10, 3):
                    yield [a, ln, window]

    def run_long(ctx, sc):
        a, ln, window = sc
        c = generic_case(26, 3, 3, 0.01)
        comb = c.build()
        req = [c.idx[t] for t in c.model.scored[a : a + ln]]
        full = [g for g in run(comb, window=window) if g.time in set(req)]
        got = run(comb, window=window, times=req)
        ctx.trace(2)
        ctx.step(len(got) or 1)
        ctx.state("long", *sc)
        if [g.time for g in got] != [g.time for g in full]:
            bad("selected times: wrong entries", got=[str(g.time) for g in got], want=[str(g.time) for g in full])
        for g in got:
            check_weights(c, g, window)
            check_blend(c, g)
        same_run(got, full, "selected times", wtol=2e-3, rtol=2e-3)

    def gen_large():
        for T, n, K, window in [(140, 2, 3, 10), (140, 2, 3, 100), (60, 12, 6, 20), (40, 40, 3, 10)]:
            for a, ln in [(window - 1, 3), (T - 4, 3), (T // 2, T // 2 - 1), (window + 2, 1), (0, 4), (window - 3, 12)]:
                for means in (0, 1):
                    yield [T, n, K, window, a, ln, means]

    def gen_many():
        for T, window in [(300, 3), (1100, 10)]:
            for a, ln in [(window, 250), (window - 1, 253), (0, T - 1), (5, 256), (T - 270, 269), (20, T - 60)][:: 1 if T < 500 or deep else 2]:
                yield [T, window, a, ln]

    def run_many(ctx, sc):
        """hundreds of requested times; the weights do not matter here"""
        T, window, a, ln = sc
        c = generic_case(T, 1, 2, 0.01, True, label="desc" if (a + ln) % 2 and T < 900 else "date")
        req = [c.idx[t] for t in c.model.scored[a:][:ln]]
        comb = c.build()
        with solver(uniform):
            got = run(comb, window=window, times=req)
            more = run(comb, window=window, times=req[-3:])
        want = [t for t in req if t in set(c.idx[s] for s in c.model.times(window))]
        ctx.trace(2)
        ctx.step(len(got))
        ctx.state("many", *sc)
        if [g and g.time for g in got] != want or [g and g.time for g in more] != req[-3:]:
            bad("selected times: wrong entries", requested=len(req), got=len(got), want=len(want), last=str(got[-1].time if got else None))
        for g in got + more:
            check_blend(c, g)

    large_full = {}

    def run_large(ctx, sc):
        T, n, K, window, a, ln, means = sc
        c = generic_case(T, n, K, 0.01, bool(means))
        comb = c.build()
        key = (T, n, K, window, means)
        if key not in large_full:
            large_full.clear()
            large_full[key] = run(c.build(), window=window)
        req = [c.idx[t] for t in c.model.scored[max(a, 0) :][:ln]]
        want = [g for g in large_full[key] if g.time in set(req)]
        got = run(comb, window=window, times=req)
        ctx.trace()
        ctx.step(len(got) or 1)
        ctx.state("large", *sc)
        if [g.time for g in got] != [g.time for g in want]:
            bad("selected times: wrong entries", got=[str(g.time) for g in got], want=[str(g.time) for g in want], window=window)
        for g in got[:: max(1, len(got) // 6)]:
            check_weights(c, g, window)
        same_run(got, want, f"selected times, {sc}", wtol=5e-3, rtol=5e-3)

    return [
        Space("runs", f"all runs of {N} available times x 7 windows x 4 kinds of experts", gen_runs, run_runs),
        Space("invalid requests", "all requests of length up to 3 over 7 times that are not runs x windows", gen_bad, run_bad),
        Space("long", "26 times, windows 3 and 10", gen_long, run_long),
        Space("large", "up to 140 times, 40 assets, 6 experts, windows up to 100", gen_large, run_large),
        Space("many times", "requests of up to 1099 times", gen_many, run_many),
    ]


# ------------------------------------------------------------------ C12


def c12(deep):
    T = 8

    def base(kind):
        means = kind in ("means", "array")
        label = {"means": "desc", "array": "shuffle", "zeros": "tick"}.get(kind, "date")
        return generic_case(
            T, 2, 2 + means, 1.0, means, zero_rows=(3,) if kind == "zeros" else (), means_as="array" if kind == "array" else "series", label=label
        )

    def entry(c, window, t):
        for g in run(c.build(), window=window):
            if g is not None and g.time == c.idx[t]:
                return g
        return None

    def rebuild(c, sig=None, R=None, mu=None):
        return Case(sig or c.sig, c.R if R is None else R, mu if mu is not None else c.mu, means_as=c.means_as, label=c.label)

    def changed(c, cut, fut, what):
        """alter rows > cut (returns) and/or expert predictions > cut"""
        R = c.R.copy()
        sig = [dict(s) for s in c.sig]
        mu = None if c.mu is None else [dict(m) for m in c.mu]
        if what in ("returns", "both"):
            R[cut + 1 :] = {"zero": 0.0, "huge": 30.0, "neg": -2 * R[cut + 1 :]}[fut]
        if what in ("experts", "both"):
            for k in range(c.K):
                for t in range(cut + 1, T):
                    sig[k][t] = {"zero": np.eye(2), "huge": 50 * sig[k][t], "neg": np.diag(np.diag(sig[k][t]))}[fut]
                    if mu is not None:
                        mu[k][t] = {"zero": 0 * mu[k][t], "huge": 50 + mu[k][t], "neg": -mu[k][t]}[fut]
        return rebuild(c, sig, R, mu)

    def extreme(m, fut):
        """later predictions in other units, or of almost riskless assets"""
        return {"riskless": np.diag([1.0, 1e-22]), "riskless0": np.diag([1e-20, 1e-4]), "tiny": m * 1e-16, "giant": m * 1e16}[fut]

    def gen_units():
        for kind in ("generic", "means", "array"):
            for window in (1, 3):
                for cut in range(window, T - 1):
                    for fut in ("riskless", "riskless0", "tiny", "giant"):
                        for one in (0, 1):
                            yield [kind, window, cut, fut, one]

    def run_units(ctx, sc):
        """what later predictions look like does not matter, even if their units are completely different: all later
        predictions of all experts change, or those of one expert at one time"""
        kind, window, cut, fut, one = sc
        c = base(kind)
        want = entry(c, window, cut)
        sig = [dict(s) for s in c.sig]
        for k in range(1 if one else c.K):
            for t in range(cut + 1, cut + 2 if one else T):
                sig[k][t] = extreme(sig[k][t], fut)
        idx = c.idx[: cut + 1]
        got = None
        with code.quiet():
            for g in rebuild(c, sig).build().solve(window=window, times=[idx[-1]]):
                got = g
        ctx.trace()
        ctx.step()
        ctx.state("units", *sc)
        if got is None or want is None:
            bad(f"entry disappears when later predictions become {fut}", time=cut)
        same_entry(want, got, f"window {window}: later predictions replaced ({fut})")

    def gen_future():
        for kind in ("generic", "means", "zeros", "array"):
            for window in (1, 2, 3, 4):
                for cut in range(window, T):
                    yield [kind, window, cut]

    def run_future(ctx, sc):
        kind, window, cut = sc
        c = base(kind)
        want = entry(c, window, cut)
        if want is None:
            bad("no entry", time=cut, window=window)
        for fut in ("zero", "huge", "neg"):
            for what in ("returns", "experts", "both"):
                got = entry(changed(c, cut, fut, what), window, cut)
                ctx.trace()
                ctx.step()
                ctx.state("future", *sc, fut, what)
                if got is None:
                    bad(f"entry disappears when later {what} become {fut}", time=cut)
                same_entry(want, got, f"window {window}: later {what} replaced ({fut})")
        # removal and appending: only up to the cut
        for drop in ("experts", "both"):
            sig = [{t: m for t, m in s.items() if t <= cut} for s in c.sig]
            mu = None if c.mu is None else [{t: m for t, m in s.items() if t <= cut} for s in c.mu]
            got = entry(rebuild(c, sig, c.R if drop == "experts" else c.R[: cut + 1], mu), window, cut)
            ctx.trace()
            ctx.step()
            ctx.state("future", *sc, "drop", drop)
            if got is None:
                bad(f"entry disappears when later {drop} are removed", time=cut)
            same_entry(want, got, f"window {window}: later {drop} removed")

    def gen_now():
        for kind in ("generic", "means", "zeros", "array"):
            for window in (1, 2, 3, None):
                w = window or T - 1
                for t in range(w, T):
                    yield [kind, window, t]

    def run_now(ctx, sc):
        """the experts' predictions made at t do not influence the weights at t"""
        kind, window, t = sc
        c = base(kind)
        want = entry(c, window, t)
        for fut in ("zero", "huge", "neg"):
            sig = [dict(s) for s in c.sig]
            mu = None if c.mu is None else [dict(m) for m in c.mu]
            for k in range(c.K):
                sig[k][t] = {"zero": np.eye(2), "huge": 50 * sig[k][t], "neg": np.diag(np.diag(sig[k][t]))}[fut]
                if mu is not None:
                    mu[k][t] = mu[k][t] + {"zero": -mu[k][t], "huge": 50, "neg": 1}[fut]
            c2 = rebuild(c, sig, None, mu)
            got = entry(c2, window, t)
            ctx.trace()
            ctx.step()
            ctx.state("now", *sc, fut)
            if got is None or not np.allclose(got.weights.values, want.weights.values, atol=1e-5):
                bad("weights depend on the predictions made at the same time", time=t, first=dict(want.weights), second=got and dict(got.weights))
            check_blend(c2, got)

    def gen_past():
        for kind in ("generic", "means", "array"):
            for window in (1, 2, 3):
                for t in range(window + 1, T):
                    yield [kind, window, t]

    def run_past(ctx, sc):
        kind, window, t = sc
        c = base(kind)
        want = entry(c, window, t)
        for fut in ("zero", "huge"):
            R = c.R.copy()
            R[: t - window + 1] = 0.0 if fut == "zero" else 25.0
            sig = [dict(s) for s in c.sig]
            for k in range(c.K):
                for s in range(0, t - window):
                    sig[k][s] = sig[k][s] * (3.0 + k)
            for c2, what in ((rebuild(c, None, R), "returns"), (rebuild(c, sig, R), "returns and predictions")):
                got = entry(c2, window, t)
                ctx.trace()
                ctx.step()
                ctx.state("past", *sc, fut, what)
                if got is None:
                    bad(f"entry disappears when {what} older than the window change", time=t)
                same_entry(want, got, f"window {window}: {what} older than the window replaced")

    def gen_ewmas():
        for mean in (False, True):
            for cut in range(9, 15):
                yield [mean, cut]

    def run_ewmas(ctx, sc):
        mean, cut = sc
        X = H.generic(16, 2)
        kw = dict(pairs=[(2, 4), (5, 8)], min_periods_vola=2, min_periods_cov=4, mean=mean)

        def at(Y):
            with code.quiet():
                for g in from_ewmas(H.frame(Y), **kw).solve(window=3):
                    if g.time == H.index("date", 16)[cut]:
                        return g

        want = at(X)
        if want is None:
            bad("no entry", cut=cut)
        for fut in ("cut", "zero", "huge", "nan"):
            Y = X.copy()
            if fut == "cut":
                Y = Y[: cut + 1]
            else:
                Y[cut + 1 :] = {"zero": 0.0, "huge": 3.0, "nan": np.nan}[fut]
                if fut == "huge":
                    Y[cut + 1 :] *= np.array([1, -2.0])
            got = at(Y)
            ctx.trace()
            ctx.step()
            ctx.state("ewmas", *sc, fut)
            if got is None:
                bad(f"entry disappears when the future is replaced ({fut})", cut=cut)
            same_entry(want, got, f"from_ewmas, future replaced ({fut})")

    def gen_large():
        for T, n, K, window in [(120, 3, 3, 100), (40, 30, 4, 20), (60, 5, 8, 10)]:
            for means in (0, 1):
                for cut in (T - 2, T - 5, window + 1):
                    yield [T, n, K, window, means, cut]

    def run_large(ctx, sc):
        T, n, K, window, means, cut = sc
        c = generic_case(T, n, K, 0.01, bool(means), means_as="array" if n % 2 else "series")
        want = entry(c, window, cut)
        if want is None:
            bad("no entry", time=cut)
        R = c.R.copy()
        R[cut + 1 :] = 0.7
        R[: cut - window + 1] *= -5
        sig = [{t: (m if t <= cut and t >= cut - window else 9 * m) for t, m in s.items()} for s in c.sig]
        mu = None if c.mu is None else [{t: (m if t <= cut and t >= cut - window else m + 3) for t, m in s.items()} for s in c.mu]
        d = Case(sig, R, mu, means_as=c.means_as)
        got = entry(d, window, cut)
        cutoff = Case([{t: m for t, m in s.items() if t <= cut} for s in c.sig], c.R[: cut + 1], None if c.mu is None else [{t: m for t, m in s.items() if t <= cut} for s in c.mu], means_as=c.means_as)
        got2 = entry(cutoff, window, cut)
        ctx.trace(3)
        ctx.step(3)
        ctx.state("large", *sc)
        for g, what in ((got, "rows after the time and before the window replaced"), (got2, "later rows removed")):
            if g is None:
                bad(f"entry disappears: {what}")
            same_entry(want, g, f"window {window}, {what}")
            check_blend(c, g)

    return [
        Space("units of the future", "later predictions of one or all experts become almost singular, tiny or giant x windows x cuts", gen_units, run_units),
        Space("future", "every time x window x replaced/removed later returns and/or predictions", gen_future, run_future),
        Space("same time", "every time x window x replaced predictions at that time", gen_now, run_now),
        Space("past", "every time x window x replaced data older than the window", gen_past, run_past),
        Space("from_ewmas", "cut points x futures through the whole pipeline", gen_ewmas, run_ewmas),
        Space("large", "windows up to 100, 30 assets, 8 experts: everything outside the window replaced or removed", gen_large, run_large),
    ]


# ------------------------------------------------------------------ C13

FAULTS = ["error", "infeasible", "user_limit", "unbounded"]


def faulty(pattern, log=None):
    """the i-th call of the solver fails as told by pattern[i] (None: works)"""
    n = [0]

    def fake(problem, *a, **k):
        i = n[0]
        n[0] += 1
        f = pattern[i] if i < len(pattern) else None
        if f is None:
            return REAL_SOLVE(problem, *a, **k)
        if log is not None:
            log.append(i)
        if f == "error":
            raise cp.SolverError("injected")
        K = problem.variables()[0].size
        if f == "late":  # solves, then reports failure
            REAL_SOLVE(problem, *a, **k)
            raise cp.SolverError("injected after solving")
        value = {"infeasible": None, "unbounded": None, "user_limit": np.linspace(0.1, 0.7, K), "garbage": np.full(K, np.nan)}[f]
        set_answer(problem, value, f if f != "garbage" else "user_limit")
        return np.nan

    return fake, n


def c13(deep):
    def case(means=False):
        return generic_case(8, 2, 3, 1.0, means)

    cache = {}

    def clean(window, means, times):
        k = (window, means, times)
        if k not in cache:
            c = case(means)
            kw = {} if times is None else {"times": [c.idx[t] for t in range(*times)]}
            cache[k] = run(c.build(), window=window, **kw)
        return cache[k]

    def check(ctx, sc, pattern, window, means, times):
        c = case(means)
        comb = c.build()
        kw = {} if times is None else {"times": [c.idx[t] for t in range(*times)]}
        base = clean(window, means, tuple(times) if times else None)
        if not base or any(b is None for b in base):
            bad("the fault-free run reports None or nothing")
        log = []
        fake, calls = faulty(pattern, log)
        with solver(fake):
            got = run(comb, window=window, **kw)
        ctx.trace()
        ctx.step(len(got))
        if len(got) != len(base):
            bad("failures change the number of entries", pattern=pattern, got=len(got), want=len(base))
        if calls[0] != len(base):
            # the code solves more or less often than once per step: the pattern cannot be attributed to steps
            if any(f is not None for f in pattern):
                bad("a failed step is not simply skipped", solver_calls=calls[0], steps=len(base), pattern=pattern)
        for i, (g, b) in enumerate(zip(got, base)):
            f = pattern[i] if i < len(pattern) else None
            if f is not None and g is not None:
                bad(f"step {i} failed ({f}) but an entry is reported", weights=dict(g.weights), pattern=pattern)
            if f is None:
                if g is None:
                    bad(f"step {i} did not fail but None is reported", pattern=pattern)
                same_entry(g, b, f"pattern {pattern}, step {i}", wtol=1e-4, rtol=1e-4)
        ctx.hit(str(sc))
        ctx.state(str(sc))
        # the same object afterwards, without failures
        again = run(comb, window=window, **kw)
        ctx.trace()
        same_run(again, base, f"solve after a run with failures {pattern}", wtol=1e-4, rtol=1e-4)

    def gen_subsets():
        m = 5
        for kind in FAULTS + ["late", "garbage"]:
            for bits in range(2**m):
                yield [[kind if bits >> i & 1 else None for i in range(m)], 3, bits % 2, None]

    def gen_kinds():
        for p in itertools.product([None, *FAULTS, "late", "garbage"], repeat=3):
            yield [list(p), 5, 0, None]
        if deep:
            for p in itertools.product([None, *FAULTS], repeat=5):
                yield [list(p), 3, 1, None]

    def gen_windows():
        for window, m in ((1, 7), (2, 6), (7, 1), (None, 1)):
            pats = range(2**m) if deep or m < 6 else [b for b in range(2**m) if bin(b).count("1") in (1, m - 1, m) or b % 11 == 0]
            for bits in pats:
                yield [["error" if bits >> i & 1 else None for i in range(m)], window, 0, None]
        for a, b in ((3, 6), (2, 8), (5, 8), (7, 8)):
            m = b - max(a, 3)
            for bits in range(2**m):
                for kind in ("error", "user_limit"):
                    yield [[kind if bits >> i & 1 else None for i in range(m)], 3, 1, [a, b]]

    def run_any(ctx, sc):
        pattern, window, means, times = sc
        check(ctx, sc, pattern, window, bool(means), times)

    def gen_inter():
        for bits in range(2**4):
            for kind in ("error", "infeasible"):
                yield [bits, kind]

    def run_inter(ctx, sc):
        """failures in one iteration while another one on the same object is under way"""
        bits, kind = sc
        c = case()
        comb = c.build()
        base = clean(4, False, None)
        A, B = comb.solve(window=4), comb.solve(window=4)
        fails = [kind if bits >> i & 1 else None for i in range(4)]
        got_a, got_b = [], []
        with code.quiet():
            for i in range(4):
                with solver(faulty([fails[i]])[0]):
                    got_a.append(next(A))
                got_b.append(next(B))
        ctx.trace(2)
        ctx.step(8)
        ctx.hit("inter", str(sc))
        for i in range(4):
            if (got_a[i] is None) != (fails[i] is not None):
                bad("failure not reported at its step", step=i, fails=fails)
            if got_a[i] is not None:
                same_entry(got_a[i], base[i], "iteration with failures", wtol=1e-4, rtol=1e-4)
            same_entry(got_b[i], base[i], "other iteration", wtol=1e-4, rtol=1e-4)
        if next(A, "end") != "end" or next(B, "end") != "end":
            bad("extra entries")

    def gen_runs():
        """long runs of failures, failures far apart"""
        for m, window in ((30, 10), (45, 3), (70, 65), (20, 130)):
            pats = [range(0, m), range(0, m - 1), range(1, m), range(5, 17), range(0, 12), range(m - 12, m), range(0, m, 2), range(1, m, 2), [0, m - 1], [m // 2], range(0, m, 7), range(10, 13)]
            if window > 60:
                pats = [range(1, m), range(5, 9), [m // 2], range(0, m, 2)]
            for p in pats:
                for kind in ("error", "infeasible", "user_limit", "late"):
                    yield [m, window, list(p), kind]

    long_base = {}

    def run_runs(ctx, sc):
        m, window, p, kind = sc
        c = generic_case(m + window, 2, 3, 0.01, m == 45)
        if m not in long_base:
            long_base[m] = run(c.build(), window=window)
        base = long_base[m]
        if len(base) != m:
            bad("number of entries", got=len(base), want=m)
        pattern = [kind if i in set(p) else None for i in range(m)]
        comb = c.build()
        with solver(faulty(pattern)[0]):
            got = run(comb, window=window)
        again = run(comb, window=window)
        ctx.trace(2)
        ctx.step(2 * m)
        ctx.hit("runs", str(sc))
        if [g is None for g in got] != [f is not None for f in pattern]:
            bad("None does not mark exactly the failed steps", got=[g is None for g in got], pattern=pattern)
        for g, b in zip(got, base):
            if g is not None:
                same_entry(g, b, f"failures at {p}", wtol=1e-4, rtol=1e-4)
        same_run(again, base, "solve after a run with failures", wtol=1e-4, rtol=1e-4)

    def gen_limits():
        """the caller's solver options, too tight for some steps or all of them"""
        for how in ("max_iter", "time_limit", "mixed"):
            for window in (1, 3, None):
                for means in (0, 1):
                    for k in range(0, 14) if how == "max_iter" else (0, 1) if how == "time_limit" else range(2**4):
                        yield [how, k, window, means]

    def run_limits(ctx, sc):
        """each step ends as it does when it is the only one requested, whatever became of the others"""
        how, k, window, means = sc
        m = 4
        # steps of very different difficulty
        c = generic_case(8, 3, 3, 1.0, bool(means))
        if how == "mixed":  # data that no iteration limit of 7 can do with, at the steps of k
            for t in range(8):
                if k >> (t % m) & 1:
                    c.R[t] *= 1e5
            c = Case(c.sig, c.R, c.mu)
        kw = {"max_iter": {"max_iter": k, "solver": "CLARABEL"}, "time_limit": {"time_limit": [1e-12, 1e3][k % 2], "solver": "CLARABEL"}, "mixed": {"max_iter": 11, "solver": "CLARABEL"}}[how]
        T0 = window or 7
        got = run(c.build(), window=window, **kw)
        ctx.trace()
        ctx.step(len(got))
        if len(got) != 8 - T0:
            bad("failures change the number of entries", got=len(got), want=8 - T0)
        for i, g in enumerate(got):
            alone = run(c.build(), window=window, times=[c.idx[T0 + i]], **kw)
            ctx.trace()
            if len(alone) != 1:
                bad("one requested time does not give one entry", got=len(alone))
            if (g is None) != (alone[0] is None):
                bad("a step ends otherwise than when it is the only one", step=i, in_the_run=g is not None, alone=alone[0] is not None, options=kw)
            if g is None:
                ctx.hit("limit", str(sc), i)
            else:
                same_entry(g, alone[0], f"{how}, step {i}", wtol=1e-6, rtol=1e-6)

    return [
        Space("tight options", "iteration and time limits of the caller x windows: each step as if it were the only one", gen_limits, run_limits),
        Space("all subsets", "5 steps: every subset of failing steps x 6 failure kinds", gen_subsets, run_any),
        Space("all kinds", "3 steps: every assignment of 7 outcomes to steps", gen_kinds, run_any),
        Space("windows and times", "failing subsets for windows 1, 2, 7, None and for requested times", gen_windows, run_any),
        Space("interleaved", "failing subsets of one of two interleaved iterations", gen_inter, run_inter),
        Space("long runs", "20 to 70 steps, windows up to 130: long, alternating and distant failures x 4 failure kinds", gen_runs, run_runs),
    ]


# ------------------------------------------------------------------ C14


def c14(deep):
    ARGS = {
        "w1": dict(window=1),
        "w2": dict(window=2),
        "w3": dict(window=3),
        "none": dict(window=None),
        "t3": dict(window=2, times=(3, 6)),
        "t4": dict(window=3, times=(4, 6)),
        "m2": dict(window=2, times=(2, 4)),
        "m1": dict(window=1, times=(1, 2)),
        "o2": dict(window=2, max_iter=3),
        "o3": dict(window=3, solver="CLARABEL", tol_gap_abs=1e-1, tol_gap_rel=1e-1),
        "time": dict(window=2, time_limit=1e-12, solver="CLARABEL"),
    }

    def case(means=False):
        return generic_case(6, 2, 2, 1.0, means)

    def args(c, name):
        a = dict(ARGS[name])
        if "times" in a:
            a["times"] = [c.idx[t] for t in range(*a["times"])]
        return a

    cache = {}

    def alone(name, means=False):
        if (name, means) not in cache:
            c = case(means)
            cache[name, means] = run(c.build(), **args(c, name))
        return cache[name, means]

    def interleavings(ms):
        """all sequences in which process i appears ms[i] times"""
        if not any(ms):
            yield []
            return
        for i, m in enumerate(ms):
            if m:
                rest = list(ms)
                rest[i] -= 1
                for s in interleavings(rest):
                    yield [i, *s]

    def gen_two():
        for names in [("w2", "w2"), ("w2", "w3"), ("w3", "t3"), ("t3", "t4"), ("w3", "none"), ("w2", "t4"), ("m2", "w2"), ("m2", "t3"), ("m1", "w3")]:
            ms = [len(alone(n)) + 1 for n in names]
            for s in interleavings(ms):
                yield [names, s]

    def gen_three():
        for names in [("w3", "t4", "none"), ("none", "t4", "none"), ("m1", "t4", "m2")] + ([("w3", "t3", "t4")] if deep else []):
            ms = [len(alone(n)) + 1 for n in names]
            for s in interleavings(ms):
                yield [names, s]

    def run_inter(ctx, sc):
        names, s = sc
        c = case()
        comb = c.build()
        its = [comb.solve(**args(c, n)) for n in names]
        out = [[] for _ in names]
        for i in s:
            with code.quiet():
                try:
                    out[i].append(next(its[i]))
                except StopIteration:
                    out[i].append("end")
            ctx.step()
            ctx.state("inter", tuple(names), tuple(len(o) for o in out), i)
        ctx.trace()
        for n, o in zip(names, out):
            if o[-1:] != ["end"] or "end" in o[:-1]:
                bad(f"iteration {n} ends early or late when interleaved", schedule=s)
            same_run(o[:-1], alone(n), f"iteration {n} under schedule {s}", wtol=1e-4, rtol=1e-4)

    def gen_hist():
        ops = ["w2", "w3!1", "t3", "none", "w2!0", "t4!x", "m2"] if not deep else ["m1", "m2", "m2!1", "w1", "w2", "w3", "w3!1", "t3", "none", "w2!0", "t4!x"]
        for m in (1, 2, 3):
            for h in itertools.product(ops, repeat=m):
                yield [list(h)]
        for m in (1, 2, 3):  # options of the solver belong to one call
            for h in itertools.product(["o2", "o3", "time", "w3", "o3!1"], repeat=m):
                yield [list(h)]

    def run_hist(ctx, sc):
        """a history of complete ("w2"), abandoned after j steps ("w3!1") and closed ("t4!x") solves, then full solves"""
        c = case(True)
        comb = c.build()
        keep = []
        before = (comb.K, list(comb.assets), {k: list(v) for k, v in comb.sigmas.items()})
        for op in sc[0]:
            name, _, stop = op.partition("!")
            it = comb.solve(**args(c, name))
            with code.quiet():
                if not stop:
                    same_run(list(it), alone(name, True), f"{name} in history {sc[0]}", wtol=1e-4, rtol=1e-4)
                elif stop == "x":
                    next(it)
                    it.close()
                else:
                    for _ in range(int(stop)):
                        next(it)
                    keep.append(it)
            ctx.step()
        got = run(comb, **args(c, "w2"))
        ctx.trace()
        ctx.state("hist", str(sc))
        same_run(got, alone("w2", True), f"solve after history {sc[0]}", wtol=1e-4, rtol=1e-4)
        if before != (comb.K, list(comb.assets), {k: list(v) for k, v in comb.sigmas.items()}):
            bad("the combinator's properties changed")
        s, r, m = c.args()
        for k in s:
            for t in s[k]:
                if not comb.sigmas[k][t].equals(s[k][t]) or not np.array_equal(np.asarray(comb.means[k][t]), np.asarray(m[k][t])):
                    bad("the combinator's sigmas or means changed", key=k, time=t)
        if not comb.returns.equals(r):
            bad("the combinator's returns changed")

    def gen_pair():
        for order in interleavings([3, 3]):
            for kinds in (("generic", "means"), ("generic", "wide"), ("generic", "more")):
                yield [order, kinds]

    def build(kind):
        return {
            "generic": lambda: generic_case(6, 2, 2),
            "means": lambda: generic_case(6, 2, 2, 1.0, True),
            "wide": lambda: generic_case(6, 3, 2),
            "more": lambda: generic_case(6, 2, 3),
        }[kind]()

    pair_cache = {}

    def run_pair(ctx, sc):
        """two combinators: construction, first step and the remaining steps in all orders"""
        order, kinds = sc
        cs = [build(k) for k in kinds]
        for k, c in zip(kinds, cs):
            if k not in pair_cache:
                pair_cache[k] = run(build(k).build(), window=2)
        comb, it, out, stage = [None, None], [None, None], [[], []], [0, 0]
        with code.quiet():
            for i in order:
                if stage[i] == 0:
                    comb[i] = cs[i].build()
                elif stage[i] == 1:
                    it[i] = comb[i].solve(window=2)
                    out[i].append(next(it[i]))
                else:
                    out[i] += list(it[i])
                stage[i] += 1
                ctx.step()
                ctx.state("pair", tuple(kinds), tuple(stage), i)
        ctx.trace()
        for i, k in enumerate(kinds):
            same_run(out[i], pair_cache[k], f"combinator {k} next to another, order {order}", wtol=1e-4, rtol=1e-4)

    # two threads; a switch may happen at entry and exit of each optimisation
    def gen_threads():
        for names, m in [(("w3", "w3"), 7), (("w3", "t4"), 7), (("t4", "t4"), 5), (("none", "w3"), None), (("m2", "w3"), None)]:
            a, b = (2 * len(alone(n)) + 1 for n in names)
            scheds = list(interleavings([a, b]))
            if not deep:
                # preemption bound 4
                scheds = [s for s in scheds if sum(x != y for x, y in zip(s, s[1:])) <= 4]
            for s in scheds:
                yield [names, s]

    def run_threads(ctx, sc):
        names, sched = sc
        c = case()
        comb = c.build()
        turn = threading.Condition()
        state = {"pos": 0, "done": [False, False]}
        me = threading.local()
        results, errors = [None, None], [None, None]

        def advance():
            # the schedule picks who runs the next segment; finished threads are skipped
            while state["pos"] < len(sched) and state["done"][sched[state["pos"]]]:
                state["pos"] += 1

        def current():
            advance()
            if state["pos"] < len(sched):
                return sched[state["pos"]]
            left = [i for i in (0, 1) if not state["done"][i]]
            return left[0] if left else None

        def wait_turn():
            with turn:
                while current() != me.i:
                    turn.wait(30)

        def end_segment():
            with turn:
                state["pos"] += 1
                turn.notify_all()

        def switch():
            end_segment()
            wait_turn()

        def fake(problem, *a, **k):
            if getattr(me, "i", None) is None:
                return REAL_SOLVE(problem, *a, **k)
            switch()
            try:
                return REAL_SOLVE(problem, *a, **k)
            finally:
                switch()

        def body(i):
            me.i = i
            wait_turn()
            try:
                results[i] = list(comb.solve(**args(c, names[i])))
            except BaseException as e:  # noqa: BLE001
                errors[i] = e
            with turn:
                state["done"][i] = True
                turn.notify_all()

        with solver(fake), code.quiet():
            ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in (0, 1)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(60)
        if any(t.is_alive() for t in ts):
            bad("threads do not finish", schedule=sched)
        ctx.trace()
        ctx.step(len(sched))
        ctx.state("threads", tuple(names), tuple(sched))
        for i in (0, 1):
            if errors[i] is not None:
                bad(f"thread {i} ({names[i]}) failed: {errors[i]!r}", schedule=sched)
            same_run(results[i], alone(names[i]), f"thread {i} ({names[i]}) under schedule {sched}", wtol=1e-4, rtol=1e-4)

    def gen_many():
        for ops in (["w2"] * 12, ["w3", "none"] * 6, ["t3", "w2", "t4"] * 4, ["w1", "w2", "w3"] * 4, ["m2", "w2", "t3", "m1"] * 3):
            for means in (0, 1):
                yield [ops, means]

    def run_many(ctx, sc):
        """many solves on one object, and as many combinators alive at the same time"""
        ops, means = sc
        c = case(bool(means))
        comb = c.build()
        others = [case(bool(means)).build() for _ in ops]
        for i, op in enumerate(ops):
            same_run(run(comb, **args(c, op)), alone(op, bool(means)), f"solve number {i + 1} ({op})", wtol=1e-4, rtol=1e-4)
            same_run(run(others[i], **args(c, op)), alone(op, bool(means)), f"combinator number {i + 1} ({op})", wtol=1e-4, rtol=1e-4)
            ctx.step(2)
            ctx.state("many", str(sc), i)
        ctx.trace(2 * len(ops))

    return [
        Space("two iterations", "all interleavings of the steps of two iterations, 6 argument pairs", gen_two, run_inter),
        Space("three iterations", "all interleavings of the steps of three iterations", gen_three, run_inter),
        Space("histories", "all histories of up to 3 complete, abandoned or closed solves, then a solve", gen_hist, run_hist),
        Space("two combinators", "all interleavings of construction and iteration of two combinators", gen_pair, run_pair),
        Space("two threads", "schedules of two threads switching at entry/exit of each optimisation" + ("" if deep else ", at most 4 preemptions"), gen_threads, run_threads),
        Space("many solves", "12 solves on one object next to 12 other objects", gen_many, run_many),
    ]


# ------------------------------------------------------------------ C15


def c15(deep):
    PAIRS = [
        [(2, 5)],
        [(2, 5), (5, 2)],
        [(1, 3), (4, 8), (2, 2)],
        [(3.5, 7), (7, 3.5)],
        [(10, 21), (21, 63), (63, 125)],
        [(5, 5), (2, 9)],
    ]

    def gen_grid():
        for p in range(len(PAIRS)):
            for mpv, mpc in [(1, 5), (4, 7), (3, 6), (6, 4), (2, 4), (None, None), (5, None), (None, 5)]:
                for clip in (None, 1.1, 4.2):
                    for mean in (None, False, True):
                        for window in (3, None) if deep else (3,):
                            yield [p, mpv, mpc, clip, mean, window]

    def run_grid(ctx, sc):
        p, mpv, mpc, clip, mean, window = sc
        pairs = PAIRS[p]
        T = 16 + (24 if mpv is None else 0) + (20 if mpc is None else 0) - (8 if (mpv is None and mpc is None) else 0)
        if mpv is None and mpc is None:
            T = 46
        f = H.frame(H.generic(T, 2))
        kw = {k: v for k, v in dict(min_periods_vola=mpv, min_periods_cov=mpc, clip_at=clip, mean=mean).items() if v is not None}
        comb = from_ewmas(f, pairs, **kw)
        exp = {}
        for v, c in pairs:
            exp[f"{v}-{c}"] = list(
                iterated_ewma(
                    f,
                    v,
                    c,
                    min_periods_vola=20 if mpv is None else mpv,
                    min_periods_cov=20 if mpc is None else mpc,
                    clip_at=clip,
                    mean=bool(mean),
                )
            )
        sig = {k: {r.time: r.covariance for r in rs} for k, rs in exp.items()}
        mus = {k: {r.time: r.mean for r in rs} for k, rs in exp.items()}
        ctx.trace()
        ctx.state("grid", str(sc))
        if comb.K != len(exp) or list(comb.assets) != list(f.columns):
            bad("number of experts or assets", K=comb.K, assets=list(comb.assets))
        if list(comb.sigmas) != list(sig):
            bad("expert keys", got=list(comb.sigmas), want=list(sig))
        for k in sig:
            if list(comb.sigmas[k]) != list(sig[k]) or list(comb.means[k]) != list(mus[k]):
                bad(f"expert {k}: times differ", got=len(comb.sigmas[k]), want=len(sig[k]))
            for t in sig[k]:
                ctx.step()
                if not np.allclose(comb.sigmas[k][t].values, sig[k][t].values, rtol=1e-10, atol=0):
                    bad(f"expert {k}: covariance differs at {t}", got=comb.sigmas[k][t].values.tolist(), want=sig[k][t].values.tolist())
                if not np.allclose(np.asarray(comb.means[k][t]), np.asarray(mus[k][t]), rtol=1e-10, atol=1e-15):
                    bad(f"expert {k}: mean differs at {t}")
        times = list(next(iter(sig.values())))[1:][-4:]
        ref = from_sigmas(sig, f, means=mus)
        a = run(comb, window=window, times=times)
        b = run(ref, window=window, times=times)
        ctx.trace()
        if not b:
            bad("no entries")
        same_run(a, b, f"from_ewmas vs composition {kw}", wtol=2e-4, rtol=2e-4)
        if not mean and any((g.mean.values != 0).any() for g in a):
            bad("means are not zero")

    def gen_short():
        for p in range(len(PAIRS)):
            for mpv, mpc in [(1, 5), (4, 7), (7, 4), (3, 1), (20, 20)]:
                for extra in range(-2, 4):
                    for mean in (False, True):
                        for clip in (None, 4.2):
                            yield [p, mpv, mpc, extra, mean, clip]

    def run_short(ctx, sc):
        """histories that end just before, with and just after the first reports"""
        p, mpv, mpc, extra, mean, clip = sc
        pairs = PAIRS[p]
        T = mpv + mpc - 1 + extra
        if T < 1:
            return
        f = H.frame(H.generic(T, 2))
        kw = dict(min_periods_vola=mpv, min_periods_cov=mpc, clip_at=clip, mean=mean)
        exp = {f"{v}-{c}": list(iterated_ewma(f, v, c, **kw)) for v, c in pairs}
        sig = {k: {r.time: r.covariance for r in rs} for k, rs in exp.items()}
        mus = {k: {r.time: r.mean for r in rs} for k, rs in exp.items()}
        ctx.trace(2)
        ctx.state("short", str(sc))

        def attempt(make):
            try:
                return make(), None
            except Exception as x:
                return None, type(x).__name__

        comb, e1 = attempt(lambda: from_ewmas(f, pairs, **kw))
        ref, e2 = attempt(lambda: from_sigmas(sig, f, means=mus))
        if (e1 is None) != (e2 is None):
            bad("from_ewmas and the composition differ in whether they work", got=e1, want=e2, rows=T)
        if e1:
            return
        for k in sig:
            if list(comb.sigmas[k]) != list(sig[k]) or list(comb.means[k]) != list(mus[k]):
                bad(f"expert {k}: times differ", got=len(comb.sigmas[k]), want=len(sig[k]), rows=T)
            for t in sig[k]:
                ctx.step()
                if not np.allclose(comb.sigmas[k][t].values, sig[k][t].values, rtol=1e-10, atol=0, equal_nan=True):
                    bad(f"expert {k}: covariance differs at {t}", got=comb.sigmas[k][t].values.tolist(), want=sig[k][t].values.tolist())
                if not np.allclose(np.asarray(comb.means[k][t]), np.asarray(mus[k][t]), rtol=1e-10, atol=1e-15, equal_nan=True):
                    bad(f"expert {k}: mean differs at {t}")
        if p == 1 and min(len(x) for x in sig.values()) and not any(c.isna().any().any() for x in sig.values() for c in x.values()):
            same_run(run(comb, window=2), run(ref, window=2), "from_ewmas vs composition, short history", wtol=2e-4, rtol=2e-4)

    def gen_pos():
        for p in range(len(PAIRS) - 1):
            yield [p]

    def run_pos(ctx, sc):
        """positional arguments in the documented order; other label kinds; lists and tuples as pairs; repeated pairs"""
        pairs = PAIRS[sc[0]]
        f = H.frame(H.generic(14, 3), ["int7", "desc", "tick"][sc[0] % 3], "rev")
        a = from_ewmas(f, pairs, 2, 5, 1.3, True)
        b = from_ewmas(returns=f, pairs=[list(p) for p in pairs], min_periods_vola=2, min_periods_cov=5, clip_at=1.3, mean=True)
        d = from_ewmas(f, tuple(pairs + pairs[:1]), 2, 5, 1.3, True)
        ra, rb, rd = run(a, window=2), run(b, window=2), run(d, window=2)
        ctx.trace(3)
        ctx.step(len(ra))
        ctx.state("pos", sc[0])
        if not ra:
            bad("no entries")
        same_run(ra, rb, "positional and keyword arguments", wtol=1e-4)
        same_run(ra, rd, "repeated pair", wtol=1e-4)
        first = {x.time for x in iterated_ewma(f, 2, 2, 2, 5, clip_at=1.3, mean=True)}
        if {x.time for x in ra} - first:
            bad("times without expert predictions")

    def gen_large():
        many = [(v, c) for v in (2, 5, 10) for c in (3, 8, 21) if v <= c]
        for T, n, p, kw in [
            (60, 12, many, dict(min_periods_vola=5, min_periods_cov=20)),
            (90, 30, [(10, 21), (21, 63)], dict(min_periods_vola=20, min_periods_cov=40, clip_at=4.2)),
            (140, 3, [(21, 63), (63, 125), (125, 250)], dict(min_periods_vola=63, min_periods_cov=63)),
            (200, 2, [(10, 21)], dict()),
        ]:
            for mean in (0, 1):
                for gaps in (0, 1):
                    yield [T, n, [list(x) for x in p], kw, mean, gaps]

    def run_large(ctx, sc):
        T, n, p, kw, mean, gaps = sc
        X = H.large("zeros" if gaps else "plain", T, n)
        if gaps:
            X[X == 0] = np.nan
        f = H.frame(X, "shuffle" if mean else "int7", "rev")
        comb = from_ewmas(f, [tuple(x) for x in p], mean=bool(mean), **kw)
        ctx.trace()
        ctx.state("large", str(sc))
        if list(comb.sigmas) != [f"{v}-{c}" for v, c in p]:
            bad("expert keys", got=list(comb.sigmas))
        sig, mus = {}, {}
        for v, c in p:
            k = f"{v}-{c}"
            rs = list(iterated_ewma(f, v, c, mean=bool(mean), **kw))
            sig[k], mus[k] = {r.time: r.covariance for r in rs}, {r.time: r.mean for r in rs}
            if list(comb.sigmas[k]) != list(sig[k]):
                bad(f"expert {k}: times differ", got=len(comb.sigmas[k]), want=len(sig[k]))
            for t in sig[k]:
                ctx.step()
                if not np.allclose(comb.sigmas[k][t].values, sig[k][t].values, rtol=1e-9, atol=1e-18) or not np.allclose(np.asarray(comb.means[k][t]), mus[k][t].values, rtol=1e-9, atol=1e-15):
                    bad(f"expert {k}: prediction differs at {t}")
        times = list(next(iter(sig.values())))[-3:]
        window = min(10, len(next(iter(sig.values()))) - 4)
        a = run(comb, window=window, times=times)
        b = run(from_sigmas(sig, f.fillna(0.0), means=mus), window=window, times=times)
        if len(a) != 3:
            bad("number of entries", got=len(a))
        same_run(a, b, "from_ewmas vs composition", wtol=2e-3, rtol=2e-3)

    def gen_levels():
        for clip in (0.05, 0.3, 1.0, 3.0, 6.0, 12.0, 50.0, 1e3, 1e5):
            for p in ([(2, 5), (5, 2)], [(0.5, 2), (200, 3), (3, 4000)]):
                for mean in (False, True):
                    for e in (0, -7, 3):
                        yield [clip, [list(x) for x in p], mean, e]

    def run_levels(ctx, sc):
        """every clip level, half lives from 0.5 to 4000, and a history in which all the levels differ"""
        clip, p, mean, e = sc
        X = H.generic(24, 2)
        X[11, 0] *= 25
        X[15, 1] *= -4000
        f = H.frame(X * 10.0**e)
        kw = dict(min_periods_vola=2, min_periods_cov=9, clip_at=clip, mean=mean)
        comb = from_ewmas(f, [tuple(x) for x in p], **kw)
        ctx.trace()
        ctx.state("levels", str(sc))
        for v, c in p:
            for r in iterated_ewma(f, v, c, **kw):
                ctx.step()
                k = f"{v}-{c}"
                if r.time not in comb.sigmas[k] or not np.allclose(comb.sigmas[k][r.time].values, r.covariance.values, rtol=1e-9, atol=0):
                    bad(f"expert {k}: covariance differs at {r.time}", clip_at=clip)
                if not np.allclose(np.asarray(comb.means[k][r.time]), r.mean.values, rtol=1e-9, atol=1e-15 * 10.0**e):
                    bad(f"expert {k}: mean differs at {r.time}", clip_at=clip)

    return [
        Space("clip levels", "clips from 0.05 to 100000 x half lives from 0.5 to 4000 x units, with outliers", gen_levels, run_levels),
        Space("argument grid", "6 lists of pairs x 8 warm-ups (incl. defaults) x clips x mean", gen_grid, run_grid),
        Space("call forms", "positional, keyword, lists, repeated pairs, labels", gen_pos, run_pos),
        Space("first reports", "histories of two rows less to three rows more than the warm-ups x pairs x warm-ups x mean x clip", gen_short, run_short),
        Space("large", "up to 200 rows, 30 assets, 8 pairs, missing values", gen_large, run_large),
    ]


# ------------------------------------------------------------------ C16


def c16(deep):
    def tol(c, t, window):
        """how far two solver answers within the certified gap can be apart"""
        lam = curvature(c, t, window)
        return 2 * np.sqrt(2 * 1e-3 / lam) if lam > 1e-6 else None

    def entries(c, window):
        return run(c.build(), window=window)

    def gen_perm():
        for K in (2, 3, 4):
            for p in itertools.permutations(range(K)):
                for n in (1, 2, 4):
                    for means in (0, 1):
                        for window in (2, 6, None):
                            if K < 4 or window == 6:
                                yield [K, list(p), n, means, window]

    def run_perm(ctx, sc):
        K, p, n, means, window = sc
        c = generic_case(11, n, K, 1.0, bool(means))
        d = Case([c.sig[k] for k in p], c.R, None if c.mu is None else [c.mu[k] for k in p], keys=[c.keys[k] for k in p])
        a, b = entries(c, window), entries(d, window)
        ctx.trace(2)
        ctx.step(len(a))
        ctx.state("perm", str(sc))
        check_schedule(d, b, window)
        for x, y in zip(a, b):
            check_weights(d, y, window, "permuted experts: ")
            check_blend(d, y, "permuted experts: ")
            t = c.row(x.time)
            eps = tol(c, t, window)
            if list(y.weights.index) != d.keys:
                bad("weights do not carry the permuted keys")
            w, v = x.weights.values, y.weights.loc[c.keys].values
            f1, f2 = c.model.objective(t, window, np.maximum(w, 0)), c.model.objective(t, window, np.maximum(v, 0))
            if abs(f1 - f2) > 5e-3 * (1 + abs(f1) * 1e-3):
                bad("permuting experts changes the achieved likelihood", first=f1, second=f2)
            if eps is not None and eps < 0.2 and np.abs(w - v).max() > eps:
                bad("permuting experts changes their weights", first=w, second=v, tolerance=eps)

    def gen_name():
        for keys in (["z", "a", "m"], [3, 2, 1], ["b", "b2", "b1"], [0.5, 0.25, 9.0], ["20-10", "10-20", "5-5"]):
            for window in (1, 4, None):
                for means in (0, 1):
                    for label in ("int", *H.UNSORTED):
                        yield [keys, window, means, label]

    def run_name(ctx, sc):
        keys, window, means, label = sc
        c = generic_case(8, 2, 3, 0.3, bool(means))
        d = Case(c.sig, c.R, c.mu, keys=keys, label=label, cols="rev")
        a, b = entries(c, window), entries(d, window)
        ctx.trace(2)
        ctx.step(len(a))
        ctx.state("name", str(sc))
        check_schedule(d, b, window)
        for x, y in zip(a, b):
            if list(y.weights.index) != keys:
                bad("weights do not carry the new keys", got=list(y.weights.index))
            if not np.allclose(x.weights.values, y.weights.values, atol=1e-4):
                bad("renaming changes weights", first=x.weights.values, second=y.weights.values)
            if not np.allclose(x.covariance.values, y.covariance.values, rtol=1e-3):
                bad("renaming changes covariances")

    def gen_scale():
        for s in [1e-4, 1e-3, 1e-2, 0.1, 10.0, 100.0, 1000.0]:
            for n, K in [(1, 2), (2, 3), (4, 2)]:
                for means in (0, 1):
                    for window in (2, 6, None):
                        yield [s, n, K, means, window]
            for n, K, window in [(7, 6, 4), (20, 8, 6), (40, 3, 10)]:
                yield [s, n, K, int(s > 1), window]

    def run_scale(ctx, sc):
        s, n, K, means, window = sc
        c = generic_case(11, n, K, 1.0, bool(means))
        d = generic_case(11, n, K, s, bool(means))
        a, b = entries(c, window), entries(d, window)
        ctx.trace(2)
        ctx.step(len(a))
        ctx.state("scale", str(sc))
        check_schedule(d, b, window)
        for x, y in zip(a, b):
            if y is None:
                bad("rescaling makes a step fail", scale=s)
            check_weights(d, y, window, f"units {s}: ")
            t = c.row(x.time)
            eps = tol(c, t, window)
            if eps is not None and eps < 0.2:
                if np.abs(x.weights.values - y.weights.values).max() > eps:
                    bad("units change weights", first=x.weights.values, second=y.weights.values, tolerance=eps)
            sd = np.sqrt(np.diag(c.model.blend(t, y.weights.values)[1]))
            C = c.model.blend(t, y.weights.values)[1] * s**2
            if not (np.abs(y.covariance.values - C) <= 1e-6 * np.outer(sd, sd) * s**2).all():
                bad("units: covariance does not scale", got=y.covariance.values.tolist(), want=C.tolist())

    def gen_single():
        for n in (1, 2, 3, 6):
            for means in (0, 1):
                for s in (1e-3, 1.0, 50.0):
                    for K in (1, 2, 3):
                        for window in (1, 3, None):
                            for perm in (0, 1):
                                yield [n, means, s, K, window, perm]

    def run_single(ctx, sc):
        n, means, s, K, window, perm = sc
        c = generic_case(7, n, K, s, bool(means), same=True)
        if perm:
            p = list(range(n))[::-1]
            c = Case(
                [{t: m[np.ix_(p, p)] for t, m in x.items()} for x in c.sig],
                c.R[:, p],
                None if c.mu is None else [{t: m[p] for t, m in x.items()} for x in c.mu],
            )
        got = entries(c, window)
        ctx.trace()
        ctx.state("single", str(sc))
        check_schedule(c, got, window)
        for g in got:
            ctx.step()
            if g is None:
                bad("None for identical experts")
            t = c.row(g.time)
            C = c.sig[0][t]
            sd = np.sqrt(np.diag(C))
            if K == 1 and abs(g.weights.values[0] - 1) > 1e-6:
                bad("weight of a single expert", got=g.weights.values)
            if not (np.abs(g.covariance.values - C) <= 1e-5 * np.outer(sd, sd)).all():
                bad("identical experts: covariance is not theirs", got=g.covariance.values.tolist(), want=C.tolist())
            m = c.mu[0][t] if means else np.zeros(n)
            if not (np.abs(g.mean.values - m) <= 1e-5 * np.abs(m).max() + 1e-300).all():
                bad("identical experts: mean is not theirs", got=g.mean.values, want=m)

    def gen_agree():
        T = 7
        sets = [[0], [T - 1], [0, 1, 2], [3], [0, T - 1], [1, 2, 3, 4, 5, 6], [0, 1, 2, 3, 4, 5], [0, 2, 4, 6], [4, 5, 6], list(range(T))]
        for K in (2, 3, 4):
            groups = [list(g) for g in itertools.combinations(range(K), 2)] + [list(range(1, K)), list(range(K))]
            for g in groups:
                for s in sets:
                    for means in (0, 1, 2):
                        for window in (2, None):
                            if K == 3 or (window == 2 and means == 0):
                                yield [K, g, s, means, window]

    def run_agree(ctx, sc):
        """experts that agree at some times (means 1: also in their means; 2: in covariances, not in means)"""
        K, group, ts, means, window = sc
        c = generic_case(7, 2, K, 1.0, bool(means))
        for k in group[1:]:
            for t in ts:
                c.sig[k][t] = c.sig[group[0]][t].copy()
                if means == 1:
                    c.mu[k][t] = c.mu[group[0]][t].copy()
        c = Case(c.sig, c.R, c.mu)
        got = entries(c, window)
        ctx.trace()
        ctx.step(len(got))
        ctx.state("agree", str(sc))
        check_schedule(c, got, window)
        for g in got:
            check_weights(c, g, window, "agreeing experts: ")
            check_blend(c, g, "agreeing experts: ")

    def gen_many():
        for K, n, window in [(6, 5, 12), (8, 20, 8), (10, 3, 20), (3, 40, 10)]:
            for p in ("reverse", "rotate", "swap"):
                for means in (0, 1):
                    yield [K, n, window, p, means]

    def run_many(ctx, sc):
        """many experts and assets: any order gives the same likelihood, and the covariance of the same portfolio"""
        K, n, window, p, means = sc
        T = window + 5
        c = generic_case(T, n, K, 0.01, bool(means))
        p = {"reverse": list(range(K))[::-1], "rotate": [*range(1, K), 0], "swap": [1, 0, *range(2, K)]}[p]
        d = Case([c.sig[k] for k in p], c.R, None if c.mu is None else [c.mu[k] for k in p], keys=[c.keys[k] for k in p], cols="rev")
        a, b = entries(c, window), entries(d, window)
        ctx.trace(2)
        ctx.step(len(a))
        ctx.state("many", str(sc))
        check_schedule(c, a, window)
        check_schedule(d, b, window)
        for x, y in zip(a, b):
            check_weights(c, x, window)
            check_weights(d, y, window, "permuted experts: ")
            check_blend(d, y, "permuted experts: ")

    return [
        Space("agreement", "3 and 4 experts: every pair or all but one agree at some times, in one row, never again", gen_agree, run_agree),
        Space("expert order", "all permutations of 2..4 experts x assets x means x windows", gen_perm, run_perm),
        Space("names", "expert keys, row and asset labels", gen_name, run_name),
        Space("units", "scales 1e-4..1e3 x shapes x means x windows", gen_scale, run_scale),
        Space("identical experts", "one to three identical experts x assets x scales x means x windows x asset order", gen_single, run_single),
        Space("many experts", "up to 10 experts, 40 assets x orders: each order optimal and consistent", gen_many, run_many),
    ]


# ------------------------------------------------------------------ C17


def c17(deep):
    def gen_zero():
        for n in (1, 2, 5):
            for K in (1, 2, 3):
                for form in ("series", "array"):
                    for window in (1, 3, None):
                        yield [n, K, form, window]
        for n, K in [(8, 2), (12, 4), (31, 3), (64, 2), (4, 9)]:
            for form in ("series", "array"):
                yield [n, K, form, 3]

    def run_zero(ctx, sc):
        n, K, form, window = sc
        c = generic_case(7, n, K)
        z = Case(c.sig, c.R, [{t: np.zeros(n) for t in s} for s in c.sig], means_as=form)
        a, b = run(c.build(), window=window), run(z.build(), window=window)
        s, r, _ = c.args()
        d = list(from_sigmas(sigmas=s, returns=r, means=None).solve(window))
        ctx.trace(3)
        ctx.step(len(a))
        ctx.state("zero", str(sc))
        same_run(a, b, "no means vs zero means", wtol=1e-5)
        same_run(a, d, "means omitted vs None", wtol=1e-5)
        for g in a:
            if (g.mean.values != 0).any() or list(g.mean.index) != list(c.cols):
                bad("the mean is not zero", got=dict(g.mean))

    def gen_sizes():
        for e in range(-12, 3):
            for unit in (1.0, 0.01, 1e-5):
                for n, K in [(1, 1), (1, 2), (2, 2), (3, 3)]:
                    for window in (2, None):
                        yield [e, unit, n, K, window, ("series", "array")[(e + n) % 2]]

    def run_sizes(ctx, sc):
        e, unit, n, K, window, form = sc
        c = generic_case(7, n, K, unit, True)
        c = Case(c.sig, c.R, [{t: m * 10.0**e for t, m in x.items()} for x in c.mu], means_as=form)
        got = run(c.build(), window=window)
        ctx.trace()
        ctx.step(len(got))
        ctx.state("sizes", str(sc))
        check_schedule(c, got, window)
        for g in got:
            if g is None:
                bad("None with small or large means", scenario=sc)
            check_weights(c, g, window)
            check_blend(c, g)

    def gen_shift():
        vecs = [-2.0, 0.0, 1.0]
        for n, K in [(1, 2), (2, 2), (2, 3), (3, 2)]:
            for v in itertools.product(vecs, repeat=n):
                for window in (1, 2, 4, None):
                    for form in ("series", "array"):
                        if form == "series" or window == 2:
                            yield [n, K, list(v), window, form]

    def run_shift(ctx, sc):
        n, K, v, window, form = sc
        v = np.array(v)
        c = generic_case(8, n, K, 1.0, True)
        d = Case(c.sig, c.R + v, [{t: m + v for t, m in x.items()} for x in c.mu], means_as=form)
        a, b = run(c.build(), window=window), run(d.build(), window=window)
        ctx.trace(2)
        ctx.step(len(a))
        ctx.state("shift", str(sc))
        check_schedule(d, b, window)
        for x, y in zip(a, b):
            check_weights(d, y, window)
            check_blend(d, y)
            y = y._replace(mean=y.mean - v)
            same_entry(x, y, f"returns and means shifted by {v}", wtol=1e-4, rtol=1e-4)

    def gen_words():
        for w in H.words("abcd", [3, 4] if not deep else [3, 4, 5]):
            yield [w, 2]

    def run_words(ctx, sc):
        w, window = sc
        c = word_case(w, True)
        got = run(c.build(), window=window)
        ctx.trace()
        check_schedule(c, got, window)
        for g in got:
            ctx.step()
            ctx.state("words", w, c.row(g.time))
            check_weights(c, g, window)
            check_blend(c, g)

    def gen_mismatch():
        T = 4
        for K in (1, 2, 3, 4, 5):
            for k in range(K):
                if K > 2:
                    for i in range(T):
                        yield [K, k, i, "replaced"]
                        yield [K, k, 15 - (1 << i), "less"]
                        yield [K, k, 15 - (1 << i), "sigmas"]
                    for extra in ("more", "shifted", "no times", "one expert less"):
                        yield [K, k, 0, extra]
                    continue
                if K == 2:
                    for first in (0, 1):
                        for other in ("other", "next", "of the first"):
                            yield [K, k, first, "own time: " + other]
                for m in range(2**T):
                    if m != 2**T - 1:
                        yield [K, k, m, "less"]
                for i in range(T):
                    yield [K, k, i, "replaced"]
                    yield [K, k, i, "renamed"]
                for extra in ("more", "shifted", "key", "no times", "no experts", "one expert less"):
                    yield [K, k, 0, extra]
                for m in range(1, 2**T - 1):
                    yield [K, k, m, "sigmas"]

    def run_mismatch(ctx, sc):
        K, k, m, what = sc
        c = generic_case(5, 2, K, 1.0, True, avail=[range(4)] * K)
        s, r, mu = c.args()
        key = c.keys[k]
        if what.startswith("own time"):
            # this expert has predictions at a time the other one lacks; its means are as many, but not for that time
            rival = c.keys[1 - k]
            t = c.idx[0 if m else 3]
            del s[rival][t], mu[rival][t]
            other = {"other": "other", "next": c.idx[4], "of the first": "zzz"}[what[10:]]
            mu[key] = {(other if u == t else u): v for u, v in mu[key].items()}
        elif what == "less":
            mu[key] = {t: v for i, (t, v) in enumerate(mu[key].items()) if m >> i & 1}
        elif what == "more":
            mu[key][c.idx[4]] = mu[key][c.idx[0]]
        elif what in ("replaced", "renamed"):  # as many times as the covariances, one of them another one
            other = c.idx[4] if what == "replaced" else "other"
            mu[key] = {(other if i == m else t): v for i, (t, v) in enumerate(mu[key].items())}
        elif what == "shifted":
            mu[key] = {c.idx[i + 1]: v for i, v in enumerate(mu[key].values())}
        elif what == "key":
            mu["other"] = mu.pop(key)
        elif what == "no times":
            mu[key] = {}
        elif what == "no experts":
            mu = {}
        elif what == "one expert less":
            mu.pop(key)
        else:
            s[key] = {t: v for i, (t, v) in enumerate(s[key].items()) if m >> i & 1}
        ctx.trace()
        ctx.step()
        ctx.state("mismatch", str(sc))
        try:
            from_sigmas(s, r, means=mu)
        except Exception:
            return
        bad("means that do not match the covariances' times are accepted", scenario=sc)

    def gen_orders():
        for m in itertools.permutations(range(4)):
            for form in ("series", "array"):
                for who in ("means", "one mean"):
                    yield [list(m), form, who, 2]
        for step in (7, 11, 29):
            yield [[step * i % 30 for i in range(30)], "series", "means", 10]

    def run_orders(ctx, sc):
        """means listed in another order of time than the covariances"""
        m, form, who, window = sc
        T = len(m)
        c = generic_case(T, 2, 2, 1.0, True, means_as=form)
        s, r, mu = c.args()
        for j, k in enumerate(c.keys):
            if who != "one mean" or j == 1:
                mu[k] = {c.idx[i]: mu[k][c.idx[i]] for i in m}
        got = run(from_sigmas(s, r, means=mu), window=window)
        ctx.trace()
        ctx.step(len(got))
        ctx.state("orders", str(sc))
        check_schedule(c, got, window)
        for g in got:
            check_weights(c, g, window)
            check_blend(c, g)

    return [
        Space("order of times", "all orders of time in the dictionaries of means, 4 times; 30 times", gen_orders, run_orders),
        Space("zero means", "no means, None, explicit zeros (arrays, Series) x shapes x windows", gen_zero, run_zero),
        Space("sizes", "means from 1e-12 to 1e6 times the volatilities x shapes x windows x forms", gen_sizes, run_sizes),
        Space("shifts", "all shift vectors over {-2,0,1}^n x shapes x windows", gen_shift, run_shift),
        Space("words", "all words of 4 joint letters, length 3 and 4, with means: certificate and blend", gen_words, run_words),
        Space("mismatches", "all subsets of mean (or covariance) times, extra and shifted times, for each expert", gen_mismatch, run_mismatch),
    ]
