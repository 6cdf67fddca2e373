"""Finite alphabets of return histories."""

from __future__ import annotations

import itertools
import math

import numpy as np
import pandas as pd

# row letters for two assets (times 0.01): generic, opposite, one asset zero, all zero, large, ...
ROWS2 = {
    "a": (1.0, 2.0),
    "b": (-1.5, 0.5),
    "c": (0.0, 3.0),
    "z": (0.0, 0.0),
    "h": (12.0, -0.25),
    "d": (2.0, 0.0),
    "e": (2.0, 4.0),
    "N": (math.nan, 1.0),
    "M": (math.nan, math.nan),
    "X": (1e6, -1e6),
}
ROWS3 = {
    "a": (1.0, 2.0, -0.5),
    "b": (-1.5, 0.5, 0.75),
    "c": (0.0, 3.0, 1.0),
    "z": (0.0, 0.0, 0.0),
    "h": (12.0, -0.25, 3.0),
    "d": (2.0, 0.0, 0.0),
}
ROWS1 = {"a": (1.0,), "b": (-1.5,), "z": (0.0,), "h": (12.0,), "s": (0.01,), "X": (1e6,)}


def words(letters, lengths):
    for m in lengths:
        for w in itertools.product(letters, repeat=m):
            yield "".join(w)


def rows(word, table=ROWS2, unit=0.01):
    n = len(next(iter(table.values())))
    return np.array([table[c] for c in word], dtype=float).reshape(len(word), n) * unit


def periodic(word, T, table=ROWS2, unit=0.01):
    return rows((word * (T // len(word) + 1))[:T], table, unit)


def generic(T, n, unit=0.01):
    """a fixed irregular history: no zeros, no repetitions"""
    t = np.arange(1, T + 1)[:, None]
    i = np.arange(1, n + 1)[None, :]
    x = np.sin(1.7 * t * np.sqrt(i + 1.3) + i) + 0.35 * np.cos(0.9 * t + 2.0) + 0.2 * np.sin(t * t * 0.37 + 3 * i)
    return unit * x * (1 + 0.5 * np.sin(0.11 * t))


LABELS = ["date", "int", "int7", "float", "str", "tz", "gaps"]
UNSORTED = ["tick", "desc", "shuffle"]  # in order of time, but not in the order of the labels


def index(kind, T):
    if kind == "date":
        return pd.date_range("2020-01-01", periods=T, freq="D")
    if kind == "gaps":  # minutes, days, months and years between the rows
        steps = [1, 1440, 1440 * 31, 3, 1440 * 400, 1440 * 11]
        return pd.DatetimeIndex(np.datetime64("1999-12-29T15:59") + np.cumsum([steps[i % 6] for i in range(T)]).astype("timedelta64[m]"))
    if kind == "month":
        return pd.date_range("1990-01-31", periods=T, freq="ME")
    if kind == "bday":
        return pd.bdate_range("2019-12-30", periods=T)
    if kind == "int":
        return pd.RangeIndex(T)
    if kind == "int7":
        return pd.Index([100 + 7 * i for i in range(T)])
    if kind == "neg":
        return pd.Index([i - T // 2 for i in range(T)])
    if kind == "float":
        return pd.Index([0.5 * i + 0.25 for i in range(T)])
    if kind == "str":
        return pd.Index([f"t{i:04d}" for i in range(T)])
    if kind == "tick":
        return pd.Index([f"t{i + 5}" for i in range(T)])
    if kind == "desc":
        return pd.Index([1000 - i for i in range(T)])
    if kind == "shuffle":
        return pd.Index([(377 * i + 3) % 1009 + 0.5 for i in range(T)]) if T < 100 else pd.Index([(577 * i) % 10007 for i in range(T)])
    if kind == "tz":
        return pd.date_range("2020-03-27", periods=T, freq="12h", tz="Europe/Zurich")
    raise KeyError(kind)


COLUMNS = ["str", "int", "rev", "named", "tuple", "odd", "blank", "mix", "dates", "floats", "cat", "multi"]


def columns(kind, n):
    if kind == "int":
        return pd.RangeIndex(n)
    if kind == "rev":
        return pd.Index([10 * (n - i) for i in range(n)])
    if kind == "tuple":
        return pd.Index([("g%d" % (i % 2), "x%d" % i) for i in range(n)], tupleize_cols=False)
    if kind == "odd":  # blanks, case, emptiness: names that any tidying would change
        names = [" Z ", "z", "", "Z", "\tq\n", "ZZ.B", "z ", "None", "nan", "01", "1", "1.0", "É", "e\u0301"]
        return pd.Index(names[:n] + [f" x{i}" for i in range(n - len(names))], dtype=object)
    if kind == "blank":  # the same, and still all different when tidied
        return pd.Index([f" {'Zy'[i % 2]}{n - i}  " for i in range(n)], dtype=object)
    if kind == "mix":  # labels of several types
        names = ["A", 7, 2.5, pd.Timestamp("2020-01-01"), ("u", 1), "7", -1]
        return pd.Index(names[:n] + list(range(100, 100 + n - len(names))), dtype=object, tupleize_cols=False)
    if kind == "dates":
        return pd.date_range("2030-06-01", periods=n, freq="7D")[::-1]
    if kind == "floats":
        return pd.Index([1.5 - i * 0.1 for i in range(n)])
    if kind == "cat":
        return pd.CategoricalIndex([f"c{(i * 3) % (n + 1) if n % 3 != 2 else i}" for i in range(n)])
    if kind == "multi":
        return pd.MultiIndex.from_tuples([("g%d" % (i % 2), n - i) for i in range(n)], names=["group", None])
    if kind == "named":
        return pd.Index([f"A{i}" for i in range(n)], name="assets")
    return pd.Index([f"{chr(90 - i % 26)}{i}" for i in range(n)])


def frame(X, label="date", cols="str", dtype=None):
    X = np.array(X)
    f = pd.DataFrame(X, index=index(label, X.shape[0]), columns=columns(cols, X.shape[1]))
    return f.astype(dtype) if dtype else f


def typed(T, n, types, label="date", cols="str"):
    """a frame whose columns have the given types ("i": whole numbers, "l": int32, "f": float32, "d": float64), and the
    same values as floats"""
    X = np.round(generic(T, n, 1.0) * 800) / 16
    f = pd.DataFrame(X, index=index(label, T), columns=columns(cols, n))
    for i, c in enumerate(types):
        if c in "il":
            X[:, i] = np.round(X[:, i])
        f.isetitem(i, X[:, i].astype({"i": "int64", "l": "int32", "f": "float32", "d": "float64"}[c]))
    return f, X


def types(n, letters="id"):
    return ["".join(w) for w in itertools.product(letters, repeat=n)]


def large(kind, T, n, unit=0.01):
    """long or wide histories with the events that long histories have"""
    X = generic(T, n, 1.0)
    t = np.arange(T)
    if kind == "zeros":  # holidays, one asset not trading for a third of the time, sparse zeros
        X[t % 17 == 5] = 0
        X[T // 3 : 2 * T // 3, 0] = 0
        X[t % 7 == 3, n - 1] = 0
    elif kind == "late":  # assets listed one after the other, the last one after two thirds of the history
        for i in range(n):
            X[: (2 * T * i) // (3 * n), i] = 0
    elif kind == "spike":
        X[T // 2] *= 300
        X[T - 4, 0] *= 1e4
    elif kind == "calm":  # much smaller in the second half
        X[T // 2 :] *= 1e-4
    return X * unit


def uneven(T, exps, events=True):
    """assets whose returns differ by powers of ten"""
    X = generic(T, len(exps), 1.0) * 10.0 ** np.array(exps, float)
    if events and T > 8:
        X[T // 2, 0] = 0
        X[T // 2 + 1, -1] *= 30
    return X


EXPS = [0, -3, -8, -12, 5]


LARGE = [(400, 5), (150, 40), (700, 2), (320, 12), (90, 100)]
LARGE_DEEP = LARGE + [(2600, 3), (600, 60), (1300, 20)]
EVENTS = ["plain", "zeros", "late", "spike", "calm"]
