from copy import deepcopy

import numpy as np
from sklearn.metrics import check_scoring

from skada.metrics import ImportanceWeightedScorer, PredictionEntropyScorer, SupervisedScorer, _BaseDomainAwareScorer
from skada.utils import check_X_y_domain, extract_source_indices


class GoodEntropy(PredictionEntropyScorer):
    def _score(self, _, estimator, X, y, sample_domain=None, **params):
        X, y, sample_domain = check_X_y_domain(X, y, sample_domain, allow_nd=True)
        target = sample_domain < 0
        p = self._proba(estimator, X[target], sample_domain[target], **params)
        value = -np.sum(p * np.log(p))
        if self.reduction == "mean":
            value = value / p.shape[0]
        return value * self._sign

    def _proba(self, estimator, X, domains, **params):
        return estimator.predict_proba(X, sample_domain=domains, **params)


class GoodOpaque(PredictionEntropyScorer):
    def _score(self, _, estimator, X, y, sample_domain=None, **params):
        keep = np.setdiff1d(np.arange(len(X)), np.flatnonzero(extract_source_indices(sample_domain)))
        p = estimator.predict_proba(X[keep], sample_domain=sample_domain[keep])
        return self._sign * np.mean(p.max(axis=1))


class GoodReverse(_BaseDomainAwareScorer):
    def __init__(self, greater_is_better=True):
        super().__init__(score_func=None, sign=-1 if not greater_is_better else 1, kwargs=None)

    def _score(self, _, estimator, X, y, sample_domain=None, **params):
        source = extract_source_indices(sample_domain)
        back = deepcopy(estimator)
        labels = np.full(len(y), -1)
        labels[~source] = estimator.predict(X[~source], sample_domain=sample_domain[~source])
        back.fit(X, labels, sample_domain=-sample_domain - 1)
        return self._sign * np.mean(back.predict(X[source]) == y[source])


class BadNoSign(PredictionEntropyScorer):
    def _score(self, _, estimator, X, y, sample_domain=None, **params):
        source = extract_source_indices(sample_domain)
        p = estimator.predict_proba(X[~source])
        if self.reduction == "sum":
            return np.sum(p)
        return self._sign * np.mean(p)


class BadTwiceSign(PredictionEntropyScorer):
    def _score(self, _, estimator, X, y, sample_domain=None, **params):
        source = extract_source_indices(sample_domain)
        p = self._sign * estimator.predict_proba(X[~source])
        return self._sign * np.mean(p)


class BadDirection(_BaseDomainAwareScorer):
    def __init__(self, greater_is_better=True):
        super().__init__(score_func=None, sign=-1 if greater_is_better else 1, kwargs=None)

    def _score(self, _, estimator, X, y, sample_domain=None, **params):
        return self._sign * np.mean(estimator.predict(X))


class BadDomain(PredictionEntropyScorer):
    def _score(self, _, estimator, X, y, sample_domain=None, **params):
        source = extract_source_indices(sample_domain)
        return self._sign * np.mean(estimator.predict_proba(X[source], allow_source=True))


class BadAllSamples(PredictionEntropyScorer):
    def _score(self, _, estimator, X, y, sample_domain=None, **params):
        p = estimator.predict_proba(X, sample_domain=sample_domain, allow_source=True)
        return self._sign * np.mean(p)


class BadWeighted(ImportanceWeightedScorer):
    def _score(self, _, estimator, X, y, sample_domain=None, **params):
        scorer = check_scoring(estimator, self.scoring)
        source = extract_source_indices(sample_domain)
        return self._sign * scorer(estimator, X[~source], y[source])


class BadLabels(_BaseDomainAwareScorer):
    def _score(self, _, estimator, X, y, sample_domain=None, **params):
        source = extract_source_indices(sample_domain)
        return self._sign * np.mean(estimator.predict(X[~source]) == y[~source])


class BadLabelsFit(_BaseDomainAwareScorer):
    def _score(self, _, estimator, X, y, sample_domain=None, **params):
        source = extract_source_indices(sample_domain)
        other = deepcopy(estimator)
        other.fit(X, y, sample_domain=-sample_domain)
        return self._sign * np.mean(other.predict(X[source]) == estimator.predict(X[source]))


class BadSupervised(SupervisedScorer):
    def _score(self, _, estimator, X, y=None, sample_domain=None, target_labels=None, **params):
        source = extract_source_indices(sample_domain)
        return self._sign * self._score_func(estimator, X[~source], y[~source])


class BadTogether(_BaseDomainAwareScorer):
    def _score(self, _, estimator, X, y, sample_domain=None, **params):
        source = extract_source_indices(sample_domain)
        return self._sign * np.mean(estimator.predict(X[~source], sample_domain=sample_domain[source]))


class BadRefit(_BaseDomainAwareScorer):
    def _score(self, _, estimator, X, y, sample_domain=None, **params):
        source = extract_source_indices(sample_domain)
        before = estimator.predict(X[source])
        estimator.fit(X[source], before)
        return self._sign * np.mean(estimator.predict(X[source]) == before)


class BadStamp(PredictionEntropyScorer):
    def _score(self, _, estimator, X, y, sample_domain=None, **params):
        target = sample_domain < 0
        p = estimator.predict_proba(X[target], sample_domain=np.ones(target.sum()))
        return self._sign * np.mean(p.max(axis=1))


class BadForbidden(_BaseDomainAwareScorer):
    def _score(self, _, estimator, X, y, sample_domain=None, **params):
        source = extract_source_indices(sample_domain)
        p = estimator.predict(X[source], sample_domain=sample_domain[source])
        return self._sign * np.mean(p == y[source])


class BadHalfTurned(_BaseDomainAwareScorer):
    def _score(self, _, estimator, X, y, sample_domain=None, **params):
        source = extract_source_indices(sample_domain)
        back = deepcopy(estimator)
        labels = np.zeros_like(y)
        labels[~source] = estimator.predict(X[~source], sample_domain=sample_domain[~source])
        labels[source] = -1
        back.fit(X, labels, sample_domain=sample_domain)
        return self._sign * np.mean(back.predict(X[source], sample_domain=-sample_domain[source] - 1) == y[source])


class BadUnused(PredictionEntropyScorer):
    def _score(self, _, estimator, X, y, sample_domain=None, **params):
        target = sample_domain < 0
        p = estimator.predict_proba(X[target], sample_domain=sample_domain[target])
        q = estimator.predict_log_proba(X[target], sample_domain=sample_domain[target])
        return self._sign * np.mean(p * np.log(p))
