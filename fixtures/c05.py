import numpy as np
from sklearn.base import BaseEstimator, clone


class GoodDefault(BaseEstimator):
    def __init__(self, gamma=None, weights=None, base=None):
        self.gamma = gamma
        self.weights = weights
        self.base = base

    def fit(self, X, y=None):
        self.gamma_ = 1.0 / X.shape[1] if self.gamma is None else self.gamma
        w = np.array(self.weights)
        w /= w.sum()
        self.weights_ = w
        self.base_ = clone(self.base).fit(X, y)
        return self


class BadResolve(BaseEstimator):
    def __init__(self, gamma=None):
        self.gamma = gamma

    def fit(self, X, y=None):
        if self.gamma is None:
            self.gamma = 1.0 / X.shape[1]
        return self


class BadHelper(BaseEstimator):
    def __init__(self, n_jobs=None, threshold=1):
        self.threshold = threshold
        self.n_jobs = n_jobs

    def fit(self, X, y=None):
        return self

    def predict(self, X):
        self._decay()
        return X[:, 0] > self.threshold

    def _decay(self):
        self.threshold *= 0.9


class BadContents(BaseEstimator):
    def __init__(self, options=None):
        self.options = options

    def fit(self, X, y=None):
        opts = self.options
        opts["n"] = len(X)
        return self


class BadWeights(BaseEstimator):
    def __init__(self, weights=None):
        self.weights = weights

    def fit(self, X, y=None):
        w = np.asarray(self.weights)
        w /= w.sum()
        return self


class BadSetattr(BaseEstimator):
    def __init__(self, alpha=1):
        self.alpha = alpha

    def fit(self, X, y=None):
        setattr(self, "alpha", float(self.alpha))
        return self


class BadPop(BaseEstimator):
    def __init__(self, kernel="rbf", kernel_params=None):
        self.kernel = kernel
        self.kernel_params = kernel_params

    def score(self, X, y=None):
        g = self.kernel_params.pop("gamma", 1)
        return g
