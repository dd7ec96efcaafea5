import numpy as np
from skada.base import BaseAdapter

_TABLE = {"one": np.mean, "two": np.sum}
_NAMES = ("mean", "sum", "none")


def bad_else(X, how="mean"):
    if how == "mean":
        return np.mean(X)
    elif how == "max":
        return np.max(X)
    else:
        return np.min(X)


def bad_silent(X, how="mean"):
    if how == "mean":
        X = X - 1
    if how == "max":
        X = X + 1
    return X


def bad_unassigned(X, how="mean"):
    if how == "mean":
        r = np.mean(X)
    elif how == "max":
        r = np.max(X)
    return r


def bad_table(X, how="one"):
    return _TABLE.get(how, np.mean)(X)


def bad_conditional(X, how="mean", verbose=False):
    if verbose and how not in _NAMES:
        raise ValueError(how)
    return np.mean(X) if how == "mean" else np.sum(X)


def bad_misspelled(X, how="mean"):
    if how not in ("mean", "summ"):
        raise ValueError(how)
    if how == "sum":
        return np.sum(X)
    return np.mean(X)


def bad_forgotten(X, y=None, scale=False):
    if scale:
        w = np.ones(3)
    return X * w


class BadAdapter(BaseAdapter):
    def __init__(self, mode="a"):
        super().__init__()
        self.mode = mode

    def fit(self, X, y=None, *, sample_domain=None):
        self._prepare(X)
        return self

    def _prepare(self, X):
        if self.mode == "a":
            self.v_ = np.mean(X)
        elif self.mode == "b":
            self.v_ = np.max(X)
        else:
            self.v_ = 0

    def transform(self, X, y=None, *, sample_domain=None, allow_source=False):
        return X


class GoodAdapter(BaseAdapter):
    def __init__(self, mode="a"):
        super().__init__()
        self.mode = mode

    def fit(self, X, y=None, *, sample_domain=None):
        self._check()
        if self.mode == "a":
            self.v_ = np.mean(X)
        else:
            self.v_ = np.max(X)
        return self

    def _check(self):
        if self.mode not in ("a", "b"):
            raise ValueError(f"unknown mode {self.mode}")

    def transform(self, X, y=None, *, sample_domain=None, allow_source=False):
        return X


def good_chain(X, how="mean"):
    if how == "mean":
        r = np.mean(X)
    elif how == "max":
        r = np.max(X)
    else:
        raise ValueError(how)
    return r


def good_names(X, how="mean"):
    assert how in _NAMES
    return np.mean(X) if how == "mean" else np.sum(X)


def good_table(X, how="one"):
    f = _TABLE.get(how)
    if f is None:
        raise ValueError(how)
    return f(X)


def good_index(X, how="one"):
    return _TABLE[how](X)


def good_external(X, metric="cosine"):
    from scipy.spatial.distance import cdist

    if metric == "cosine":
        X = X / np.linalg.norm(X)
    return cdist(X, X, metric=metric)


def good_auto(X, reg="auto"):
    if reg == "auto":
        reg = 1.0 / len(X)
    return X * reg


def good_related(X, scale=False):
    if scale:
        w = np.ones(3)
    r = X
    if scale:
        r = X * w
    return r


def bad_same(x, reduction="mean"):
    if reduction == "mean":
        return np.mean(x)
    elif reduction == "sum":
        return np.mean(x)
    raise ValueError(reduction)


def bad_left_out(x, kind="both"):
    if kind not in ("both", "one", "two"):
        raise ValueError(kind)
    if kind in ("both", "two"):
        a = np.sum(x)
    if kind in ("both", "two"):
        b = np.sum(x**2)
    if kind == "both":
        return a + b
    if kind == "one":
        return a
    return b
