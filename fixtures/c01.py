import numpy as np
import torch
from skada.base import BaseAdapter
from skada.utils import check_X_domain, check_X_y_domain, source_target_merge, source_target_split


class BadConcatOrder(BaseAdapter):
    """returns source then target samples instead of the caller's order"""

    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        X_source, X_target = source_target_split(X, sample_domain=sample_domain)
        return np.concatenate((X_source * 2, X_target))


class BadFitPair(BaseAdapter):
    def __init__(self, est=None):
        self.est = est

    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        X, y, sample_domain = check_X_y_domain(X, y, sample_domain)
        X_source, X_target, y_source, y_target = source_target_split(X, y, sample_domain=sample_domain)
        self.est_ = self.est.fit(X_target, y_source)
        return X


class BadMask(BaseAdapter):
    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        idx = sample_domain >= 0
        w = np.zeros(X.shape[0])
        w[idx] = self._w(X[~idx])
        return X, dict(sample_weight=w)

    def _w(self, Z):
        return np.exp(-np.sum(Z**2, axis=1))


class GoodMerge(BaseAdapter):
    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        X_source, X_target = source_target_split(X, sample_domain=sample_domain)
        out, _ = source_target_merge(X_source * 2, X_target, sample_domain=sample_domain)
        return out


class GoodHelper(BaseAdapter):
    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        out = np.empty(X.shape)
        for mask in (sample_domain >= 0, sample_domain < 0):
            self._fill(out, mask, X)
        return out

    def _fill(self, out, mask, X):
        out[mask] = X[mask] + 1


def good_probabilities(output):
    return torch.nn.functional.log_softmax(output, dim=1).exp()


def bad_probabilities(output):
    return torch.softmax(output, 0)


def good_pairs(rows, labels, table):
    keep = table.ravel() > 0
    return np.repeat(rows, table.shape[1], axis=0)[keep], np.tile(labels, len(table))[keep], table.ravel()[keep]


def bad_pairs(rows, labels, table):
    return np.tile(rows, (table.shape[1], 1)), np.repeat(labels, table.shape[0]), table.T.ravel(), table.ravel()


def bad_pairs_cut(rows, table):
    keep = table.ravel() > 0
    return np.repeat(rows, table.shape[1], axis=0)[keep], table.ravel()[: keep.sum()]


class BadOpposite(BaseAdapter):
    def __init__(self, est=None):
        self.est = est

    def fit(self, X, y=None, *, sample_domain=None, **params):
        X, y, sample_domain = check_X_y_domain(X, y, sample_domain)
        same = X[:, 0] > 0
        self.est.fit(X[same], y[~same])
        return self


class GoodTaken(BaseAdapter):
    def transform(self, X, y=None, *, sample_domain=None, allow_source=False, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        idx = np.flatnonzero(sample_domain >= 0)
        out = X * 1
        out[idx] = X[idx] + 1
        return out


class BadTaken(BaseAdapter):
    def transform(self, X, y=None, *, sample_domain=None, allow_source=False, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        idx = np.flatnonzero(sample_domain >= 0)
        out = X * 1
        out[~idx] = X[~idx] + 1
        return out


class GoodFirst(BaseAdapter):
    """sources first because they were put first"""

    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        X, y, sample_domain = check_X_y_domain(X, y, sample_domain)
        X_source, X_target, y_source, y_target = source_target_split(X, y, sample_domain=sample_domain)
        both = np.concatenate((X_source, X_target))
        self.mean_ = both[: len(X_source)].mean(axis=0)
        return X


class BadFirst(BaseAdapter):
    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        X, y, sample_domain = check_X_y_domain(X, y, sample_domain)
        source = sample_domain >= 0
        self.labels_ = np.unique(y[: source.sum()])
        return X
