"""Tiny programs the rules of the checks must accept or reject (analysed, never run)."""
import random
import warnings

import numpy as np
import pandas as pd

CACHE = {}


def product(a, b, v):
    return a @ b @ v


def product_split(a, b, v):
    inner = b @ v
    out = a.dot(inner)
    return out


def product_swapped(a, b, v):
    return b @ a @ v


def product_transposed(a, b, v):
    return (v.T @ b.T @ a.T).T


def power_loop(a, v, steps):
    for _ in range(steps):
        v = a @ v
    return v


def power_loop_short(a, v, steps):
    for _ in range(1, steps):
        v = a @ v
    return v


def scale_inplace(v, c):
    v *= c
    return v


def scale_copy(v, c):
    v = v.copy()
    v *= c
    return v


def append_alias(items, x):
    out = items
    out.append(x)
    return out


def append_copy(items, x):
    out = list(items)
    out.append(x)
    return out


def remember(key, value):
    CACHE[key] = value
    return value


def default_list(x, seen=[]):
    seen.append(x)
    return seen


def shuffled(items):
    order = list(items)
    random.shuffle(order)
    return order


def shuffled_own(items, seed):
    order = list(items)
    random.Random(seed).shuffle(order)
    return order


def reseed(seed):
    np.random.seed(seed)


def quiet():
    warnings.filterwarnings("ignore")


def choose(name, a, b):
    if name == "first":
        return a
    if name == "second":
        return b
    raise ValueError(name)


def choose_substring(name, a, b):
    if name == "first":
        return a
    if name in "second":
        return b
    raise ValueError(name)


def choose_else(name, a, b):
    if name == "first":
        return a
    return b


def threshold(values, eps):
    return np.where(np.abs(values) > eps)[0]


def threshold_closed(values, eps):
    return np.where(np.abs(values) >= eps)[0]


def threshold_loop(values, eps):
    out = []
    for i in range(len(values)):
        if abs(values[i]) > eps:
            out.append(i)
    return np.array(out)


def column(path):
    return pd.read_csv(path)["Flow"].to_numpy()


def column_other(path):
    return pd.read_csv(path)["flow"].to_numpy()


class Counter:
    def __init__(self, items):
        self.items = items
        self.seen = {}

    def total(self):
        return sum(self.items)

    def total_cached(self):
        self.seen["total"] = sum(self.items)
        return self.seen["total"]

    def clear(self):
        self.items.clear()
