import numpy as np
from sklearn.base import clone

from skada._utils import Y_Type, _find_y_type
from skada.metrics import _BaseDomainAwareScorer
from skada.base import BaseAdapter, Shared
from skada.utils import extract_source_indices, source_target_split


class GoodShared(Shared):
    def _auto_mask_target_labels(self, y, routed_params):
        y = np.array(y)
        y[~extract_source_indices(routed_params["sample_domain"])] = -1
        return y


class BadShared(Shared):
    def _auto_mask_target_labels(self, y, routed_params):
        y = np.array(y)
        y[extract_source_indices(routed_params["sample_domain"])] = -1
        return y


class BadForgetful(Shared):
    def _auto_mask_target_labels(self, y, routed_params):
        return np.array(y)


class BadKeeping(Shared):
    def _remove_masked(self, X, y, routed_params):
        return X, y, routed_params


class BadRemoval(Shared):
    def _remove_masked(self, X, y, routed_params):
        if y is not None and "sample_domain" in routed_params:
            keep = y != -1
            X, y = X[keep], y[keep]
        return X, y, routed_params


class GoodRemoval(Shared):
    def _remove_masked(self, X, y, routed_params):
        if y is None or hasattr(self, "transform") or "sample_domain" in routed_params:
            return X, y, routed_params
        keep = np.flatnonzero(~(y == -1))
        return X[keep], y[keep], routed_params


class GoodAdapter(BaseAdapter):
    def fit(self, X, y=None, sample_domain=None):
        Xs, Xt, ys, yt = source_target_split(X, y, sample_domain=sample_domain)
        self.model_ = clone(self.base).fit(Xs, ys)
        self.classes_ = np.unique(ys)
        return self


class BadAdapter(BaseAdapter):
    def fit(self, X, y=None, sample_domain=None):
        Xs, Xt, ys, yt = source_target_split(X, y, sample_domain=sample_domain)
        self.model_ = clone(self.base).fit(np.vstack([Xs, Xt]), np.concatenate([ys, yt]))
        return self


class BadStatistics(BaseAdapter):
    def fit(self, X, y=None, sample_domain=None):
        self.means_ = np.array([X[y == c].mean(axis=0) for c in np.unique(y)])
        return self


class BadMarkerKind(_BaseDomainAwareScorer):
    def _score(self, _, estimator, X, y, sample_domain=None, **params):
        source = sample_domain >= 0
        kind = _find_y_type(y[source])
        z = np.zeros_like(y)
        z[~source] = estimator.predict(X[~source])
        if kind == Y_Type.DISCRETE:
            z[source] = np.nan
        else:
            z[source] = -1
        return self._sign * clone(estimator).fit(X, z).score(X, z)
