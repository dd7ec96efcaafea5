import numpy as np
from scipy.stats import multivariate_normal
from sklearn.base import clone
from sklearn.linear_model import LogisticRegression
from sklearn.neighbors import KernelDensity

from skada._reweight import BaseReweightAdapter
from skada.metrics import ImportanceWeightedScorer
from skada.utils import check_X_domain, extract_source_indices, source_target_split


class _Kde(BaseReweightAdapter):
    def __init__(self, density=None):
        self.density = density

    def fit(self, X, y=None, *, sample_domain=None):
        X, sample_domain = check_X_domain(X, sample_domain)
        Xs, Xt = source_target_split(X, sample_domain=sample_domain)
        self.ds_ = KernelDensity().fit(Xs)
        self.dt_ = KernelDensity().fit(Xt)
        return self


class BadInverted(_Kde):
    def compute_weights(self, X, y=None, *, sample_domain=None, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        source = sample_domain >= 0
        w = np.zeros(len(X))
        w[source] = np.exp(self.ds_.score_samples(X[source]) - self.dt_.score_samples(X[source]))
        return w


class BadSourceOnly(_Kde):
    def compute_weights(self, X, y=None, *, sample_domain=None, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        source = sample_domain >= 0
        w = np.zeros(len(X))
        w[source] = np.exp(-self.ds_.score_samples(X[source]))
        return w


class BadTargetOnes(_Kde):
    def compute_weights(self, X, y=None, *, sample_domain=None, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        source = sample_domain >= 0
        w = np.ones(len(X))
        w[source] = np.exp(self.dt_.score_samples(X[source]) - self.ds_.score_samples(X[source]))
        return w


class BadPositions(_Kde):
    def compute_weights(self, X, y=None, *, sample_domain=None, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        source = sample_domain >= 0
        w = np.zeros(len(X))
        w[~source] = np.exp(self.dt_.score_samples(X[~source]) - self.ds_.score_samples(X[~source]))
        return w


class BadRowsTaken(_Kde):
    def compute_weights(self, X, y=None, *, sample_domain=None, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        source = np.flatnonzero(sample_domain >= 0)
        target = np.flatnonzero(sample_domain < 0)
        w = np.zeros(len(X))
        w[source] = np.exp(self.dt_.score_samples(X[target]) - self.ds_.score_samples(X[target]))
        return w


class BadKey(_Kde):
    def compute_weights(self, X, y=None, *, sample_domain=None, **params):
        return np.zeros(len(X))

    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        self.fit(X, y=y, sample_domain=sample_domain)
        return X, dict(weights=self.compute_weights(X, y, sample_domain=sample_domain))


class BadMoments(BaseReweightAdapter):
    def fit(self, X, y=None, *, sample_domain=None):
        X, sample_domain = check_X_domain(X, sample_domain)
        Xs, Xt = source_target_split(X, sample_domain=sample_domain)
        self.ms_, self.cs_ = Xs.mean(axis=0), np.cov(Xs, rowvar=False)
        self.mt_, self.ct_ = Xt.mean(axis=0), np.cov(Xs, rowvar=False)
        return self

    def compute_weights(self, X, y=None, *, sample_domain=None, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        source = sample_domain >= 0
        w = np.zeros(len(X))
        ps = multivariate_normal.pdf(X[source], self.ms_, self.cs_)
        pt = multivariate_normal.pdf(X[source], self.mt_, self.ct_)
        w[source] = pt / ps
        return w


class BadColumn(BaseReweightAdapter):
    def fit(self, X, y=None, *, sample_domain=None):
        X, sample_domain = check_X_domain(X, sample_domain)
        self.clf_ = LogisticRegression().fit(X, (sample_domain >= 0).astype(int))
        return self

    def compute_weights(self, X, y=None, *, sample_domain=None, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        source = extract_source_indices(sample_domain)
        p = self.clf_.predict_proba(X[source])
        w = np.zeros(len(X))
        w[source] = p[:, 1] / p[:, 0]
        return w


class GoodColumn(BadColumn):
    def compute_weights(self, X, y=None, *, sample_domain=None, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        source = extract_source_indices(sample_domain)
        p = self.clf_.predict_proba(X[source])
        w = np.zeros(len(X))
        w[source] = p[:, 0] / (p[:, 1] + 1e-12)
        return w


class GoodLoop(_Kde):
    def compute_weights(self, X, y=None, *, sample_domain=None, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        where = np.where(extract_source_indices(sample_domain))
        new = np.zeros_like(sample_domain, dtype=float)
        new[where] = self._of(X[where])
        return new

    def _of(self, Z):
        s, t = (clone(d).fit(Z).score_samples(Z) if d is None else d.score_samples(Z) for d in (self.ds_, self.dt_))
        r = 1 / np.exp(s - t)
        return r / r.mean()


class GoodWhere(_Kde):
    def compute_weights(self, X, y=None, *, sample_domain=None, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        log = self.dt_.score_samples(X)
        log = log - self.ds_.score_samples(X)
        return np.where(sample_domain >= 0, np.exp(log), 0.0)


class _Scorer(ImportanceWeightedScorer):
    pass


class BadScorer(ImportanceWeightedScorer):
    def _score(self, _, estimator, X, y, sample_domain=None, **params):
        source = extract_source_indices(sample_domain)
        ds = KernelDensity().fit(X[source])
        dt = KernelDensity().fit(X[~source])
        w = np.exp(ds.score_samples(X[source]) - dt.score_samples(X[source]))
        w /= w.sum()
        return self._sign * np.dot(w, self._err(estimator, X[source], y[source], sample_domain[source]))

    def _err(self, estimator, X, y, d):
        return (estimator.predict(X, sample_domain=d, allow_source=True) == y).astype(float)
