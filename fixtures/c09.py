import numpy as np
from sklearn.base import clone
from sklearn.utils.metadata_routing import MetadataRouter, MethodMapping, get_routing_for_object
from sklearn.utils.metaestimators import available_if
from sklearn.utils.validation import check_is_fitted

from skada.base import BaseAdapter, BaseSelector, DAEstimator, Shared
from skada.metrics import _BaseDomainAwareScorer

DOMAINS = {"sample_domain": True}


class BadSignature(BaseAdapter):
    def fit(self, X, y=None, *, sample_domain=None):
        return self

    def transform(self, X, y=None, *, sample_domain=None):
        return X


class BadInherited(DAEstimator):
    def fit(self, X, y=None, sample_domain=None, *, sample_weight=None):
        return self

    def predict(self, X, sample_domain=None, *, sample_weight=None, allow_source=False):
        return X

    def score(self, X, y, sample_domain=None):
        return 0.0


class BadWeightRequest(BaseAdapter):
    __metadata_request__fit = {"sample_weight": True}

    def fit(self, X, y=None, *, sample_domain=None):
        return self

    def fit_transform(self, X, y=None, *, sample_domain=None, sample_weight=None):
        return X

    def transform(self, X, y=None, *, sample_domain=None, allow_source=False):
        return X


class BadFitTransform(BaseAdapter):
    def fit(self, X, y=None, *, sample_domain=None):
        return self

    def fit_transform(self, X, y=None):
        return X

    def transform(self, X, y=None, *, sample_domain=None, allow_source=False):
        return X


class BadUndeclared:
    __metadata_request__fit = dict(DOMAINS)

    def fit(self, X, y=None, sample_domain=None):
        return self

    def predict(self, X, sample_domain=None):
        return X


class BadMethodName(BaseAdapter):
    __metadata_request__fit_predict_all = {"sample_domain": True}

    def fit(self, X, y=None, *, sample_domain=None):
        return self

    def transform(self, X, y=None, **params):
        return X


class BadScorer(_BaseDomainAwareScorer):
    def __init__(self):
        super().__init__()
        self.set_score_request(target_labels=True)

    def _score(self, _, estimator, X, y=None, sample_domain=None):
        return 0.0


class GoodScorer(_BaseDomainAwareScorer):
    def __init__(self):
        super().__init__()
        self.set_score_request(target_labels=True)

    def _score(self, _, estimator, X, y=None, sample_domain=None, target_labels=None):
        return 0.0


class GoodAdapter(BaseAdapter):
    __metadata_request__fit = {**DOMAINS, "sample_weight": True}

    def fit(self, X, y=None, *, sample_domain=None, sample_weight=None):
        return self

    def fit_transform(self, X, y=None, **params):
        return X

    def transform(self, X, y=None, *, sample_domain=None, allow_source=False):
        return X


class BadRouter(Shared):
    def get_metadata_routing(self):
        return MetadataRouter(owner="x").add_self_request(self).add(
            estimator=self.base_estimator,
            method_mapping=MethodMapping()
            .add(callee="fit", caller="fit").add(callee="partial_fit", caller="partial_fit")
            .add(callee="transform", caller="transform").add(callee="predict", caller="predict_proba")
            .add(callee="predict", caller="predict").add(callee="predict_log_proba", caller="predict_log_proba")
            .add(callee="decision_function", caller="decision_function").add(callee="score", caller="score"),
        )


class BadUnmapped(Shared):
    def get_metadata_routing(self):
        return MetadataRouter(owner="x").add_self_request(self).add(
            estimator=self.base_estimator,
            method_mapping=MethodMapping()
            .add(callee="fit", caller="fit")
            .add(callee="transform", caller="transform")
            .add(callee="predict", caller="predict").add(callee="predict_log_proba", caller="predict_log_proba")
            .add(callee="decision_function", caller="decision_function").add(callee="score", caller="score"),
        )


class GoodRouter(Shared):
    def get_metadata_routing(self):
        mapping = MethodMapping()
        for m in ("fit", "partial_fit", "transform", "predict", "predict_proba", "predict_log_proba", "decision_function", "score"):
            mapping.add(caller=m, callee=m)
        return MetadataRouter(owner="x").add_self_request(self).add(estimator=self.base_estimator, method_mapping=mapping)


def _has(attr, base="base_estimator"):
    def check(est):
        return hasattr(est, base) and hasattr(getattr(est, base), attr)

    return check


class BadAvailable(Shared):
    @available_if(_has("predict"))
    def predict_proba(self, X, **params):
        return self._route_to_estimator("predict_proba", X, **params)


class BadOwner(BaseSelector):
    def __init__(self, first, second):
        self.first = first
        self.second = second

    @available_if(_has("predict_proba", base="first"))
    def predict_proba(self, X, **params):
        return X


class GoodAvailable(Shared):
    @available_if(_has("predict_proba"))
    def predict_proba(self, X, **params):
        return self._route_to_estimator("predict_proba", X, **params)


class BadRoute(Shared):
    def predict_log_proba(self, X, **params):
        return np.log(self._route_to_estimator("predict_proba", X, **params))


class BadRequest(Shared):
    def _route_to_estimator(self, method_name, X, y=None, **params):
        check_is_fitted(self)
        routed_params = self._prepare_routing(self.routing_.predict, {}, params)
        method = getattr(self.base_estimator_, method_name)
        return method(X, **routed_params) if y is None else method(X, y, **routed_params)


class BadFitRequest(Shared):
    def _fit(self, routing_method, X_container, y=None, **params):
        X, y, params = X_container.merge_out(y, **params)
        routing = get_routing_for_object(self.base_estimator)
        routed_params = self._prepare_routing(routing.score, X_container, params)
        est = clone(self.base_estimator)
        output = getattr(est, routing_method)(X, y, **routed_params)
        self.base_estimator_ = est
        self.routing_ = routing
        return output


class GoodRoute(Shared):
    def _route_to_estimator(self, method_name, X, y=None, **params):
        check_is_fitted(self)
        est = self.base_estimator_
        request = getattr(get_routing_for_object(est), method_name)
        routed = self._prepare_routing(request, {}, params)
        if y is not None:
            return getattr(est, method_name)(X, y, **routed)
        return getattr(est, method_name)(X, **routed)


class BadOwnCheck(Shared):
    def _check(self):
        return hasattr(self.base_estimator, "predict_log_proba")

    @available_if(_check)
    def predict_proba(self, X, **params):
        return self._route_to_estimator("predict_proba", X, **params)


class GoodOwnCheck(Shared):
    @available_if(lambda est: hasattr(est.base_estimator, "predict_proba"))
    def predict_proba(self, X, **params):
        return self._route_to_estimator("predict_proba", X, **params)
