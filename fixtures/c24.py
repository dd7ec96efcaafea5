import numpy as np
from sklearn.base import BaseEstimator, clone


class Good(BaseEstimator):
    def __init__(self, base_estimator=None, bias=0.0):
        self.base_estimator = base_estimator
        self.bias = bias

    def fit(self, X, y=None):
        self.w_ = np.zeros(X.shape[1])
        self.n_ = len(X)
        self.base_estimator_ = clone(self.base_estimator).fit(X, y)
        return self

    def predict(self, X):
        w = self.w_.copy()
        w += self.bias
        n = self.n_
        n += 1
        out = X @ w / n
        out[out > 1] = 1
        return out + self.base_estimator_.predict(X)

    def transform(self, X):
        w = self.w_ * 2
        w[0] = 1
        return X * w


class BadCache(BaseEstimator):
    def fit(self, X, y=None):
        self.w_ = np.zeros(X.shape[1])
        return self

    def predict(self, X):
        self._last(X)
        return X @ self.w_

    def _last(self, X):
        self.X_last_ = X


class BadStore(BaseEstimator):
    def fit(self, X, y=None):
        self.w_ = np.zeros(X.shape[1])
        return self

    def transform(self, X):
        w = self.w_
        w[0] = X.mean()
        return X * w


class BadNormalise(BaseEstimator):
    def __init__(self, prior=None):
        self.prior = prior

    def fit(self, X, y=None):
        self.w_ = np.zeros(X.shape[1])
        return self

    def predict_proba(self, X):
        p = np.asarray(self.prior)
        np.divide(p, p.sum(), out=p)
        return X @ self.w_ * p


class BadRefit(BaseEstimator):
    def fit(self, X, y=None):
        self.scaler_ = clone(self.scaler).fit(X)
        return self

    def transform(self, X):
        return self.scaler_.fit_transform(X)


class BadSub(BaseEstimator):
    def fit(self, X, y=None):
        self.scaler_ = clone(self.scaler).fit(X)
        return self

    def transform(self, X):
        self.scaler_.mean_ = X.mean(axis=0)
        return self.scaler_.transform(X)


class BadDict(BaseEstimator):
    def fit(self, X, y=None):
        self.domains_ = {}
        return self

    def predict(self, X):
        if "last" not in self.domains_:
            self.domains_["last"] = X.mean()
        return X - self.domains_["last"]


class BadDel(BaseEstimator):
    def fit(self, X, y=None):
        self.tmp_ = X
        return self

    def score(self, X, y):
        r = np.abs(X - self.tmp_).sum()
        del self.tmp_
        return r


class BadMode(BaseEstimator):
    def fit(self, X, y=None):
        self.module_ = X.module
        return self

    def predict(self, X):
        self.module_.train()
        return self.module_(X)
