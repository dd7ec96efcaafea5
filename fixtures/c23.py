import numpy as np
from sklearn.base import clone
from sklearn.preprocessing import LabelEncoder

from skada.base import BaseAdapter, DAEstimator
from skada.metrics import _BaseDomainAwareScorer
from skada.utils import source_target_split


class BadPropagate(BaseAdapter):
    def fit_transform(self, X, y, sample_domain=None):
        Xs, Xt, ys, yt = source_target_split(X, y, sample_domain=sample_domain)
        classes = np.unique(ys)
        Y = np.zeros((len(ys), len(classes)))
        for i, c in enumerate(classes):
            Y[:, i] = ys == c
        yh = np.argmax(Y.T @ Y, axis=1)
        yout = -np.ones_like(y)
        yout[sample_domain < 0] = yh
        return X, yout, {}


class GoodPropagate(BaseAdapter):
    def fit_transform(self, X, y, sample_domain=None):
        Xs, Xt, ys, yt = source_target_split(X, y, sample_domain=sample_domain)
        classes, idx = np.unique(ys, return_inverse=True)
        Y = np.eye(len(classes))[idx]
        yh = classes[(Y.T @ Y).argmax(axis=1)]
        yout = -np.ones_like(y)
        yout[sample_domain < 0] = yh
        return X, yout, {}


class BadCompare(BaseAdapter):
    def fit(self, X, y=None, *, sample_domain=None):
        classes = np.unique(y)
        R = np.zeros((len(y), len(classes)))
        for i in range(len(classes)):
            R[:, i] = y == i
        self.R_ = R
        return self


class BadEnumerate(BaseAdapter):
    def fit(self, X, y=None, *, sample_domain=None):
        classes = np.unique(y)
        self.R_ = np.stack([y == i for i, c in enumerate(classes)])
        return self


class GoodCompare(BaseAdapter):
    def fit(self, X, y=None, *, sample_domain=None):
        classes = np.unique(y)
        R = np.zeros((len(y), len(classes)))
        for i in range(len(classes)):
            R[:, i] = y == classes[i]
        self.R_ = R
        return self


class BadIndex(BaseAdapter):
    def fit(self, X, y=None, *, sample_domain=None):
        classes, counts = np.unique(y, return_counts=True)
        self.w_ = (1 / counts)[y]
        return self


class GoodIndex(BaseAdapter):
    def fit(self, X, y=None, *, sample_domain=None):
        classes, counts = np.unique(y, return_counts=True)
        self.w_ = (1 / counts)[np.searchsorted(classes, y)]
        return self


class BadPredict(DAEstimator):
    def __init__(self, base_estimator=None):
        self.base_estimator = base_estimator

    def fit(self, X, y=None, sample_domain=None, *, sample_weight=None):
        self.classes_ = np.unique(y)
        self.est_ = clone(self.base_estimator).fit(X, y)
        return self

    def predict(self, X, sample_domain=None, *, sample_weight=None, allow_source=False):
        return self.est_.predict_proba(X).argmax(axis=1)


class GoodPredict(DAEstimator):
    def __init__(self, base_estimator=None):
        self.base_estimator = base_estimator

    def fit(self, X, y=None, sample_domain=None, *, sample_weight=None):
        self.classes_ = np.unique(y)
        self.est_ = clone(self.base_estimator).fit(X, y)
        return self

    def predict(self, X, sample_domain=None, *, sample_weight=None, allow_source=False):
        return self.classes_[self.est_.predict_proba(X).argmax(axis=1)]


class BadCircular(_BaseDomainAwareScorer):
    def _score(self, _, estimator, X, y=None, sample_domain=None):
        le = LabelEncoder()
        enc = le.fit(y).transform(y)
        le2 = LabelEncoder()
        le2.fit(y)
        back = clone(estimator)
        back.fit(X, le2.transform(y))
        return self.scorer(y, back.predict(X))


class GoodCircular(_BaseDomainAwareScorer):
    def _score(self, _, estimator, X, y=None, sample_domain=None):
        le = LabelEncoder()
        le.fit(y)
        back = clone(estimator)
        back.fit(X, le.transform(y))
        return self.scorer(y, le.inverse_transform(back.predict(X)))


class GoodInverse(BaseAdapter):
    def fit_transform(self, X, y, sample_domain=None):
        Xs, Xt, ys, yt = source_target_split(X, y, sample_domain=sample_domain)
        idx = np.unique(ys, return_inverse=True)[1]
        Y = np.eye(idx.max() + 1)[idx]
        yh = np.unique(ys)[(Y.T @ Y).argmax(axis=1)]
        yout = -np.ones_like(y)
        yout[sample_domain < 0] = yh
        return X, yout, {}
