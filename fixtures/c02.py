import numpy as np
from skada.base import BaseAdapter
from skada.utils import check_X_domain, source_target_split


class BadSign(BaseAdapter):
    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        mask = sample_domain > 0
        self.mean_ = X[mask].mean(axis=0)
        return X


class BadKeySign(BaseAdapter):
    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        self.sources_ = [d for d in np.unique(sample_domain) if d > 0]
        return X


class BadRole(BaseAdapter):
    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        a, b = source_target_split(X, sample_domain=sample_domain)
        self._fit(X_source=b, X_target=a)
        return X

    def _fit(self, X_source, X_target):
        self.m_ = X_source.mean(axis=0) - X_target.mean(axis=0)


class GoodRole(BaseAdapter):
    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        src = ~(sample_domain < 0)
        self._fit(X[src], X[np.logical_not(src)])
        for d in np.unique(sample_domain):
            if d > -1:
                self.n_ = d
        return X

    def _fit(self, X_source, X_target):
        self.m_ = X_source.mean(axis=0) - X_target.mean(axis=0)
