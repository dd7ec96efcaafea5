import numpy as np
from sklearn.decomposition import PCA

from skada.base import BaseAdapter
from skada.utils import check_X_domain, source_target_merge, source_target_split


class GoodShift(BaseAdapter):
    def fit(self, X, y=None, *, sample_domain=None):
        X, sample_domain = check_X_domain(X, sample_domain)
        X_source, X_target = source_target_split(X, sample_domain=sample_domain)
        self.mean_source_ = X_source.mean(axis=0)
        self.mean_target_ = X_target.mean(axis=0)
        return self

    def transform(self, X, y=None, *, sample_domain=None, allow_source=False, **params):
        X, sample_domain = check_X_domain(X, sample_domain, allow_source=allow_source)
        X_source, X_target = source_target_split(X, sample_domain=sample_domain)
        X_source = X_source - self.mean_source_ + self.mean_target_
        out, _ = source_target_merge(X_source, X_target, sample_domain=sample_domain)
        return out


class GoodCommon(BaseAdapter):
    def fit(self, X, y=None, *, sample_domain=None):
        X, sample_domain = check_X_domain(X, sample_domain)
        self.pca_ = PCA(2).fit(X)
        return self

    def transform(self, X, y=None, *, sample_domain=None, allow_source=False, **params):
        return self.pca_.transform(X)


class GoodWeights(BaseAdapter):
    def fit(self, X, y=None, *, sample_domain=None):
        return self

    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        src = sample_domain >= 0
        w = np.zeros(X.shape[0])
        w[src] = np.exp(-((X[src] - X[~src].mean(axis=0)) ** 2).sum(axis=1))
        return X, dict(sample_weight=w)

    def transform(self, X, y=None, *, sample_domain=None, allow_source=False, **params):
        return X


class BadNamed(GoodShift):
    def fit(self, X, y=None, *, sample_domain=None):
        X, sample_domain = check_X_domain(X, sample_domain)
        X_source, X_target = source_target_split(X, sample_domain=sample_domain)
        self.mean_source_ = X_target.mean(axis=0)
        self.mean_target_ = X_target.mean(axis=0)
        self.scale_ = X_source.std(axis=0)
        return self


class BadAlone(GoodShift):
    def fit(self, X, y=None, *, sample_domain=None):
        X, sample_domain = check_X_domain(X, sample_domain)
        X_source, X_target = source_target_split(X, sample_domain=sample_domain)
        self.pca_ = PCA(2).fit(X_source)
        return self

    def transform(self, X, y=None, *, sample_domain=None, allow_source=False, **params):
        return self.pca_.transform(X)


class BadApplied(GoodShift):
    def transform(self, X, y=None, *, sample_domain=None, allow_source=False, **params):
        X, sample_domain = check_X_domain(X, sample_domain, allow_source=allow_source)
        X_source, X_target = source_target_split(X, sample_domain=sample_domain)
        X_source = X_source - self.mean_source_
        X_target = X_target - self.mean_source_
        out, _ = source_target_merge(X_source, X_target, sample_domain=sample_domain)
        return out


class BadWeights(GoodWeights):
    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        src = sample_domain >= 0
        w = np.zeros(X.shape[0])
        w[src] = np.exp(-((X[src] - X[src].mean(axis=0)) ** 2).sum(axis=1))
        return X, dict(sample_weight=w)


def good_gap(X_source, X_target, scale=1.0):
    sides = [part.mean(axis=0) for part in (X_source, X_target)]
    return scale * (sides[0] - sides[1])


def bad_gap(X_source, X_target, scale=1.0):
    mean = X_target.mean(axis=0)
    return scale * (mean - X_target.mean(axis=0))
