import numpy as np
from sklearn.metrics.pairwise import pairwise_kernels
from sklearn.preprocessing import StandardScaler, scale
from sklearn.utils.validation import check_is_fitted

from skada.base import BaseAdapter, DAEstimator
from skada.utils import check_X_domain, source_target_split


class BadMean(BaseAdapter):
    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        self.fit(X, y, sample_domain=sample_domain)
        return X

    def fit(self, X, y=None, *, sample_domain=None):
        X, sample_domain = check_X_domain(X, sample_domain)
        self.mean_ = X.mean(axis=0)
        return self

    def transform(self, X, y=None, *, sample_domain=None, allow_source=False, **params):
        return X - X.mean(axis=0) + self.mean_


class BadRefit(BaseAdapter):
    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        self.fit(X, y, sample_domain=sample_domain)
        return X

    def fit(self, X, y=None, *, sample_domain=None):
        X, sample_domain = check_X_domain(X, sample_domain)
        self.A_ = np.linalg.inv(np.cov(X.T))
        return self

    def transform(self, X, y=None, *, sample_domain=None, allow_source=False, **params):
        sc = StandardScaler()
        sc.fit(X)
        return sc.transform(X) @ self.A_


class BadGram(BaseAdapter):
    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        self.fit(X, y, sample_domain=sample_domain)
        return X

    def fit(self, X, y=None, *, sample_domain=None):
        X, sample_domain = check_X_domain(X, sample_domain)
        self.A_ = np.linalg.inv(np.cov(X.T))
        return self

    def transform(self, X, y=None, *, sample_domain=None, allow_source=False, **params):
        C = X.T @ X
        return X @ np.linalg.inv(C) @ self.A_


class BadScale(DAEstimator):
    def fit(self, X, y=None, sample_domain=None):
        X, sample_domain = check_X_domain(X, sample_domain)
        self.w_ = X.mean(axis=0)
        return self

    def predict(self, X, sample_domain=None, **params):
        return (scale(X) @ self.w_ > 0).astype(int)


class BadThreshold(DAEstimator):
    def fit(self, X, y=None, sample_domain=None):
        X, sample_domain = check_X_domain(X, sample_domain)
        self.w_ = X.mean(axis=0)
        return self

    def predict(self, X, sample_domain=None, **params):
        s = X @ self.w_
        return (s > np.median(s)).astype(int)


class GoodMean(BaseAdapter):
    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        self.fit(X, y, sample_domain=sample_domain)
        return X

    def fit(self, X, y=None, *, sample_domain=None):
        X, sample_domain = check_X_domain(X, sample_domain)
        self.X_ = X
        self.mean_ = X.mean(axis=0)
        self.A_ = np.linalg.inv(np.cov(X.T))
        self.K_ = np.linalg.inv(pairwise_kernels(X, X))
        self.scaler_ = StandardScaler().fit(X)
        return self

    def transform(self, X, y=None, *, sample_domain=None, allow_source=False, **params):
        check_is_fitted(self)
        if np.isnan(X.sum()):
            raise ValueError("NaN")
        Z = self.scaler_.transform(X - self.mean_)
        Z = Z / np.linalg.norm(Z, axis=1, keepdims=True)
        Z = (self.A_ @ Z.T).T
        K = pairwise_kernels(Z, self.X_)
        return K @ self.K_ + X.mean(axis=1, keepdims=True)


class GoodSplit(DAEstimator):
    def fit(self, X, y=None, sample_domain=None):
        X, sample_domain = check_X_domain(X, sample_domain)
        Xs, Xt = source_target_split(X, sample_domain=sample_domain)
        self.ms_, self.mt_ = Xs.mean(0), Xt.mean(0)
        return self

    def predict(self, X, sample_domain=None, **params):
        ds = ((X - self.ms_) ** 2).sum(axis=1)
        dt = ((X - self.mt_) ** 2).sum(1)
        p = np.stack([ds, dt], axis=1)
        return p.argmin(axis=1)


class DomainAwareNet:
    pass


class GoodNet(DomainAwareNet):
    def predict_features(self, X):
        out = []
        for batch in self.get_iterator(self.get_dataset(X), training=False):
            out.append(self.step(batch))
        return np.concatenate(out)

    def step(self, batch):
        self.module_.eval()
        return self.module_(batch)


class BadNetMode(DomainAwareNet):
    def predict_features(self, X):
        out = []
        for batch in self.get_iterator(self.get_dataset(X), training=False):
            out.append(self.module_(batch))
        return np.concatenate(out)


class BadNetTrain(DomainAwareNet):
    def predict_features(self, X):
        out = []
        for batch in self.get_iterator(self.get_dataset(X), training=False):
            self._set_training(True)
            out.append(self.module_(batch))
        return np.concatenate(out)


class BadNetOrder(DomainAwareNet):
    def predict_features(self, X):
        self.module_.eval()
        out = []
        for batch in self.get_iterator(self.get_dataset(X), training=True):
            out.append(self.module_(batch))
        return np.concatenate(out)
