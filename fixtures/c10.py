import numpy as np
from skorch import NeuralNet

from skada.base import BaseAdapter
from skada.utils import check_X_domain, extract_source_indices, source_target_merge, source_target_split


class GoodAdapter(BaseAdapter):
    def fit(self, X, y=None, *, sample_domain=None):
        X, sample_domain = check_X_domain(X, sample_domain)
        self.mean_ = X.mean(axis=0)
        return self

    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        self.fit(X, y, sample_domain=sample_domain)
        params["allow_source"] = True
        return self.transform(X, y, sample_domain=sample_domain, **params)

    def transform(self, X, y=None, *, sample_domain=None, allow_source=False, **params):
        X, sample_domain = check_X_domain(X, sample_domain, allow_source=allow_source)
        return X - self.mean_


class GoodHelper(GoodAdapter):
    def transform(self, X, y=None, *, sample_domain=None, allow_source=False, **params):
        X, sample_domain = self._checked(X, sample_domain, allow_source)
        Xs, Xt = source_target_split(X, sample_domain=sample_domain)
        out, _ = source_target_merge(Xs - self.mean_, Xt, sample_domain=sample_domain)
        return out

    def _checked(self, X, sample_domain, permitted):
        options = dict(allow_source=permitted, allow_multi_source=True)
        return check_X_domain(X, sample_domain, **options)


class GoodOwnCheck(GoodAdapter):
    def transform(self, X, y=None, *, sample_domain=None, allow_source=False, **params):
        X, sample_domain = check_X_domain(X, sample_domain, allow_source=True)
        if not allow_source:
            if np.any(extract_source_indices(sample_domain)):
                raise ValueError("sources")
        return X - self.mean_


class GoodIdentity(GoodAdapter):
    def transform(self, X, y=None, *, sample_domain=None, allow_source=False, **params):
        return X


class BadAlways(GoodAdapter):
    def transform(self, X, y=None, *, sample_domain=None, allow_source=False, **params):
        X, sample_domain = check_X_domain(X, sample_domain, allow_source=True)
        return X - self.mean_


class BadNoCheck(GoodAdapter):
    def transform(self, X, y=None, *, sample_domain=None, allow_source=False, **params):
        return X - self.mean_


class BadDefault(GoodAdapter):
    def transform(self, X, y=None, *, sample_domain=None, allow_source=True, **params):
        X, sample_domain = check_X_domain(X, sample_domain, allow_source=allow_source)
        return X - self.mean_


class BadInverted(GoodAdapter):
    def transform(self, X, y=None, *, sample_domain=None, allow_source=False, **params):
        X, sample_domain = check_X_domain(X, sample_domain, allow_source=not allow_source)
        return X - self.mean_


class BadOmitted(GoodAdapter):
    def transform(self, X, y=None, *, sample_domain=None, allow_source=False, **params):
        X, sample_domain = check_X_domain(X, sample_domain, allow_multi_source=allow_source)
        return X - self.mean_


class BadOnlyMixed(GoodAdapter):
    def transform(self, X, y=None, *, sample_domain=None, allow_source=False, **params):
        X, sample_domain = check_X_domain(X, sample_domain)
        source = extract_source_indices(sample_domain)
        if not allow_source and np.any(source) and np.any(~source):
            raise ValueError("sources")
        return X - self.mean_


class BadFitTransform(GoodAdapter):
    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        self.fit(X, y, sample_domain=sample_domain)
        return self.transform(X, y, sample_domain=sample_domain, allow_source=False)


class GoodNet(NeuralNet):
    def predict(self, X, sample_domain=None, allow_source=False, **params):
        X, _ = self._prepare_input(X, sample_domain)
        if not allow_source:
            X = X.select_target()
        return super().predict(X)


class BadNet(NeuralNet):
    def predict(self, X, sample_domain=None, allow_source=False, **params):
        X, _ = self._prepare_input(X, sample_domain)
        return super().predict(X)


class BadNetInverted(NeuralNet):
    def predict(self, X, sample_domain=None, allow_source=False, **params):
        X, _ = self._prepare_input(X, sample_domain)
        if allow_source:
            X = X.select_target()
        return super().predict(X)
