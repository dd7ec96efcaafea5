import copy

from sklearn.base import BaseEstimator, clone
from sklearn.linear_model import LogisticRegression
from sklearn.model_selection import GridSearchCV
from sklearn.pipeline import Pipeline, make_pipeline
from sklearn.preprocessing import StandardScaler

from skada._pipeline import make_da_pipeline


class GoodClone(BaseEstimator):
    def __init__(self, base_estimator=None):
        self.base_estimator = base_estimator

    def fit(self, X, y=None):
        est = self.base_estimator
        if est is None:
            est = LogisticRegression()
        self.base_estimator_ = clone(est)
        self.base_estimator_.fit(X, y)
        return self

    def predict(self, X):
        return self.base_estimator_.predict(X)


class GoodDeep(BaseEstimator):
    def __init__(self, base_estimator=None):
        self.base_estimator = base_estimator

    def fit(self, X, y=None):
        self.models_ = []
        for _ in range(3):
            m = copy.deepcopy(self.base_estimator)
            m.set_params(C=2.0)
            self.models_.append(m.fit(X, y))
        return self


class GoodSearch(BaseEstimator):
    def __init__(self, base_estimator=None):
        self.base_estimator = base_estimator

    def fit(self, X, y=None):
        self.search_ = GridSearchCV(self.base_estimator, {"C": [1, 2]})
        self.search_.fit(X, y)
        return self


class GoodPipe(BaseEstimator):
    def __init__(self, base_estimator=None):
        self.base_estimator = base_estimator

    def fit(self, X, y=None):
        self.pipe_ = make_pipeline(StandardScaler(), clone(self.base_estimator))
        self.pipe_.fit(X, y)
        return self


class BadFit(BaseEstimator):
    def __init__(self, base_estimator=None):
        self.base_estimator = base_estimator

    def fit(self, X, y=None):
        self.base_estimator_ = LogisticRegression() if self.base_estimator is None else self.base_estimator
        self.base_estimator_.fit(X, y)
        return self


class BadHelper(BaseEstimator):
    def __init__(self, base_estimator=None):
        self.base_estimator = base_estimator

    def fit(self, X, y=None):
        return self._run(X, y, self.base_estimator)

    def _run(self, X, y, est):
        getattr(est, "partial_fit")(X, y)
        return self


class BadPipe(BaseEstimator):
    def __init__(self, base_estimator=None):
        self.base_estimator = base_estimator

    def fit(self, X, y=None):
        self.pipe_ = Pipeline([("scale", StandardScaler()), ("est", self.base_estimator)])
        self.pipe_.fit(X, y)
        return self


class BadList(BaseEstimator):
    def __init__(self, estimators=None):
        self.estimators = estimators

    def fit(self, X, y=None):
        self.fitted_ = [e.fit(X, y) for e in self.estimators]
        return self


class BadParams(BaseEstimator):
    def __init__(self, base_estimator=None):
        self.base_estimator = base_estimator

    def fit(self, X, y=None):
        self.base_estimator.set_params(probability=True)
        self.est_ = clone(self.base_estimator).fit(X, y)
        return self


class BadAttr(BaseEstimator):
    def __init__(self, base_estimator=None):
        self.base_estimator = base_estimator

    def fit(self, X, y=None):
        self.base_estimator.probability = True
        self.est_ = clone(self.base_estimator).fit(X, y)
        return self


def bad_default(base_estimator=LogisticRegression()):
    return make_da_pipeline(StandardScaler(), base_estimator)


def good_default(base_estimator=None):
    base_estimator = base_estimator or LogisticRegression()
    return make_da_pipeline(StandardScaler(), base_estimator)


def bad_refit(estimator, X, y):
    return estimator.fit(X, y).predict(X)


def good_refit(estimator, X, y):
    return clone(estimator).fit(X, y).predict(X)
