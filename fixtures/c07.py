import numpy as np
from sklearn.base import BaseEstimator
from sklearn.exceptions import NotFittedError
from sklearn.utils.validation import check_is_fitted


class Good(BaseEstimator):
    def __init__(self, a=1):
        self.a = a
        self._cache = None

    def fit(self, X, y=None):
        self.m_ = X.mean(axis=0)
        return self

    def predict(self, X):
        check_is_fitted(self)
        return X - self.m_ if self.a else X

    def transform(self, X):
        X = np.asarray(X)
        return self._apply(X)

    def _apply(self, X):
        check_is_fitted(self, "m_")
        return X - self.m_


class GoodOwnTest(BaseEstimator):
    def fit(self, X, y=None):
        self.m_ = X.mean(axis=0)
        if y is None:
            return self
        self.n_ = len(y)
        return self

    def transform(self, X):
        if not hasattr(self, "m_"):
            raise NotFittedError("fit first")
        return X - self.m_


class GoodSuper(Good):
    def fit(self, X, y=None):
        out = super().fit(X, y)
        out.b_ = 2
        return out


class BadNoCheck(BaseEstimator):
    def fit(self, X, y=None):
        self.m_ = X.mean(axis=0)
        return self

    def predict(self, X):
        return X - self.m_


class BadLate(BaseEstimator):
    def fit(self, X, y=None):
        self.m_ = X.mean(axis=0)
        return self

    def predict(self, X):
        Z = X - self.m_
        check_is_fitted(self)
        return Z


class BadBranch(BaseEstimator):
    def __init__(self, strict=True):
        self.strict = strict

    def fit(self, X, y=None):
        self.m_ = X.mean(axis=0)
        return self

    def score(self, X, y):
        if self.strict:
            check_is_fitted(self)
        return (X - self.m_).sum()


class BadHelper(BaseEstimator):
    def fit(self, X, y=None):
        self.m_ = X.mean(axis=0)
        return self

    def transform(self, X):
        return self._apply(X)

    def _apply(self, X):
        return X - self.m_


class BadMark(BaseEstimator):
    def __init__(self, a=1):
        self.a = a
        self.m_ = None

    def fit(self, X, y=None):
        self.m_ = X.mean(axis=0)
        return self

    def predict(self, X):
        check_is_fitted(self)
        return X - self.m_


class BadReturn(BaseEstimator):
    def fit(self, X, y=None):
        self.m_ = X.mean(axis=0)


class BadPath(BaseEstimator):
    def fit(self, X, y=None):
        self.m_ = X.mean(axis=0)
        if y is None:
            return
        self.n_ = len(y)
        return self


class BadOther(BaseEstimator):
    def fit(self, X, y=None):
        self.m_ = X.mean(axis=0)
        return self.m_, y
