"""Histories of calls between which the caller changes the values of its own objects in place.

A case names the arguments of a call (frames, series, arrays and dictionaries of them).  Every sequence of in-place
changes up to a depth is applied to the same objects, with a call before, between and after them; each call has to
give what it gives for fresh copies of the arguments.  (Identity of an object says nothing about its contents.)
"""

from __future__ import annotations

import copy
import itertools

import numpy as np
import pandas as pd

from .engine import Space, Violation

KINDS = ("scale", "buffer", "element")


def leaves(x):
    if isinstance(x, (pd.DataFrame, pd.Series, np.ndarray)):
        yield x
    elif isinstance(x, dict):
        for v in x.values():
            yield from leaves(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from leaves(v)


def change(leaf, kind):
    """in place; covariances stay covariances"""
    v = leaf if isinstance(leaf, np.ndarray) else leaf.values
    square = v.ndim >= 2 and v.shape[-1] == v.shape[-2] and np.allclose(v, np.swapaxes(v, -1, -2), equal_nan=True)
    new = v.copy()
    if kind == "scale":
        new *= 2.0
    elif kind == "buffer":
        new *= 1.5
    elif square:
        new[..., 0, :] *= 1.25
        new[..., :, 0] *= 1.25
    else:
        k = (len(new) // 2,) + (0,) * (new.ndim - 1)
        new[k] = new[k] * 1.75 + 0.25 * np.nanmean(np.abs(new))
    if isinstance(leaf, np.ndarray):
        leaf[...] = new
    elif kind == "buffer" and v.flags.writeable and np.shares_memory(v, leaf.values):
        v[...] = new
    elif leaf.ndim == 2:
        leaf.iloc[:, :] = new
    else:
        leaf.iloc[:] = new


def flat(x):
    """labels and numbers of a result, in order"""
    if isinstance(x, pd.DataFrame):
        return [("frame", tuple(map(str, x.index)), tuple(map(str, x.columns))), x.values.astype(float)]
    if isinstance(x, pd.Series):
        return [("series", tuple(map(str, x.index))), x.values.astype(float)]
    if isinstance(x, np.ndarray):
        return [x.astype(float)]
    if isinstance(x, dict):
        return [("keys", tuple(map(str, x)))] + [y for v in x.values() for y in flat(v)]
    if isinstance(x, (list, tuple)) or hasattr(x, "__next__"):
        x = list(x)
        return [("items", len(x))] + [y for v in x for y in flat(v)]
    if x is None or isinstance(x, (str, pd.Timestamp)):
        return [(str(x),)]
    return [np.array(float(x))]


def same(a, b, tol):
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, tuple) or isinstance(y, tuple):
            if not (isinstance(x, tuple) and isinstance(y, tuple)) or x != y:
                return False
        elif x.shape != y.shape or not np.allclose(x, y, rtol=tol, atol=tol * np.nanmax(np.abs(y), initial=0.0), equal_nan=True):
            return False
    return True


def space(cases, depth=2, tol=1e-7, around=None):
    """cases: {name: (make() -> {argument: object}, call(**arguments) -> result)}"""

    def gen():
        for name, (make, _) in cases.items():
            args = [a for a, v in make().items() if any(True for _ in leaves(v))]
            moves = list(itertools.product(args, KINDS))
            for d in range(1, depth + 1):
                for w in itertools.product(moves, repeat=d):
                    yield [name, [list(m) for m in w]]

    def run(ctx, sc):
        name, moves = sc
        make, call = cases[name]

        def do(args):
            if around:
                with around():
                    r = call(**args)
                    return list(r) if hasattr(r, "__next__") else r
            r = call(**args)
            return list(r) if hasattr(r, "__next__") else r

        args = make()
        do(args)
        for k, (arg, kind) in enumerate(moves):
            for leaf in leaves(args[arg]):
                change(leaf, kind)
            want_args = copy.deepcopy(args)
            got = do(args)
            want = do(want_args)
            ctx.trace(2)
            ctx.step()
            ctx.state("reuse", name, str(moves[: k + 1]))
            if not same(got, want, tol):
                raise Violation(f"{name}: after in-place changes {moves[: k + 1]} the call gives something else than with fresh copies of its arguments\n  got = {flat(got)[:6]}\n  want = {flat(want)[:6]}")
        ctx.hit("reuse", name, str(moves))

    return Space("changed arguments", "every sequence of up to two in-place changes of the arguments (object, buffer, single element) between calls: " + ", ".join(cases), gen, run)
