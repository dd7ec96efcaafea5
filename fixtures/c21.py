import numpy as np
from sklearn.base import BaseEstimator, clone


class Good(BaseEstimator):
    def __init__(self, base_estimator=None, keep=False, n_iter=3):
        self.base_estimator = base_estimator
        self.keep = keep
        self.n_iter = n_iter

    def fit(self, X, y=None):
        self.models_ = {}
        if self.keep:
            self.log_ = []
        for i in range(self.n_iter):
            self.models_[i] = clone(self.base_estimator).fit(X, y)
            if self.keep:
                self.log_.append(i)
        if y is None:
            self.classes_ = None
        else:
            self.classes_ = np.unique(y)
        self._finish()
        return self

    def _finish(self):
        self.n_models_ = len(self.models_)

    def predict(self, X):
        out = self.models_[0].predict(X)
        return out if self.classes_ is None else self.classes_[out]


class GoodThenTransform(BaseEstimator):
    def fit(self, X, y=None):
        self.mean_ = X.mean(axis=0)
        return self

    def fit_transform(self, X, y=None):
        return self.fit(X, y).transform(X)

    def transform(self, X):
        return X - self.mean_


class BadWarm(BaseEstimator):
    def fit(self, X, y=None):
        if not hasattr(self, "mean_"):
            self.mean_ = X.mean(axis=0)
        return self


class BadRead(BaseEstimator):
    def fit(self, X, y=None):
        self.mean_ = 0.9 * self.mean_ + 0.1 * X.mean(axis=0)
        return self


class BadHelperRead(BaseEstimator):
    def fit(self, X, y=None):
        self._center(X)
        self.offset_ = X.mean(axis=0)
        return self

    def _center(self, X):
        self.X_ = X - self.offset_


class BadGrow(BaseEstimator):
    def __init__(self):
        self.history = []

    def fit(self, X, y=None):
        self.history.append(X.mean())
        self.m_ = np.mean(self.history)
        return self


class BadDict(BaseEstimator):
    def __init__(self, base_estimator=None):
        self.base_estimator = base_estimator
        self._models = {}

    def fit(self, X, y=None, domain=0):
        self._models[domain] = clone(self.base_estimator).fit(X, y)
        return self


class BadClass(BaseEstimator):
    memory = {}

    def fit(self, X, y=None):
        self.memory[X.shape[1]] = X.mean()
        self.m_ = sum(self.memory.values())
        return self


class BadStale(BaseEstimator):
    def fit(self, X, y=None, sample_weight=None):
        self.m_ = X.mean(axis=0)
        if sample_weight is not None:
            self.scale_ = sample_weight.sum()
        return self

    def predict(self, X):
        return (X - self.m_) * self.scale_


class BadGetattr(BaseEstimator):
    def fit(self, X, y=None):
        start = getattr(self, "coef_", None)
        self.coef_ = np.zeros(X.shape[1]) if start is None else start * 0.5
        return self
