import numpy as np
import torch
from sklearn.base import BaseEstimator
from sklearn.svm import SVC
from ot import da

from skada._pipeline import make_da_pipeline
from skada.base import BaseAdapter
from skada.deep.base import BaseDALoss, DomainAwareCriterion, DomainAwareModule, DomainAwareNet, DomainBalancedDataLoader


class GoodAdapter(BaseAdapter):
    def __init__(self, reg=1.0, metric="a", max_iter=10, tol=None):
        self.reg = reg
        self.metric = metric
        self.max_iter = max_iter
        self.tol = tol

    def fit(self, X, y=None, sample_domain=None):
        opts = {"metric": self.metric}
        self.plan_ = da.SinkhornTransport(reg_e=self.reg, **opts)
        self.plan_.fit(X)
        for _ in range(self.max_iter):
            if self._enough(self.tol):
                break
        return self

    def _enough(self, tol):
        return tol is not None and np.any(self.plan_.coupling_ < tol)


def GoodFactory(base_estimator=None, reg=1.0, metric="a", max_iter=10, tol=None):
    if base_estimator is None:
        base_estimator = SVC()
    steps = [GoodAdapter(reg, metric=metric, max_iter=max_iter, tol=tol), base_estimator]
    return make_da_pipeline(*steps)


def GoodFactoryHelper(base_estimator=None, **kwargs):
    return make_da_pipeline(_adapter(kwargs), base_estimator or SVC())


def _adapter(options):
    return GoodAdapter(**options)


def BadDropped(base_estimator=None, reg=1.0, metric="a", max_iter=10, tol=None):
    return make_da_pipeline(GoodAdapter(reg=reg, metric=metric, tol=tol), base_estimator)


def BadCrossed(base_estimator=None, reg=1.0, metric="a", max_iter=10, tol=None):
    return make_da_pipeline(GoodAdapter(reg=reg, metric=metric, max_iter=tol, tol=max_iter), base_estimator)


def BadDefault(base_estimator=None, reg=2.0, metric="a", max_iter=10, tol=None):
    return make_da_pipeline(GoodAdapter(reg=reg, metric=metric, max_iter=max_iter, tol=tol), base_estimator)


def BadOverwritten(base_estimator=None, reg=1.0):
    base_estimator = SVC()
    return make_da_pipeline(GoodAdapter(reg=reg), base_estimator)


def BadKwargs(base_estimator=None, reg=1.0, **kwargs):
    return make_da_pipeline(GoodAdapter(reg=reg), base_estimator)


class BadUnread(BaseEstimator):
    def __init__(self, reg=1.0, max_iter=10):
        self.reg = reg
        self.max_iter = max_iter

    def fit(self, X, y=None):
        self.x_ = X * self.reg
        return self


class BadCrossedCall(BaseEstimator):
    def __init__(self, reg=1.0, eps=10):
        self.reg = reg
        self.eps = eps

    def fit(self, X, y=None):
        self.x_ = da.SinkhornTransport(reg=self.eps, eps=self.reg).fit(X)
        return self


class BadConstant(BaseEstimator):
    def __init__(self, reg=1.0, norm=None):
        self.reg = reg
        self.norm = norm

    def fit(self, X, y=None):
        self.x_ = da.SinkhornTransport(reg=self.reg, norm="max").fit(X / np.max(X, axis=self.norm))
        return self


class GoodLoss(BaseDALoss):
    def __init__(self, gamma=1.0, criterion=None):
        super().__init__()
        self.gamma = gamma
        self.crit_ = torch.nn.BCELoss() if criterion is None else criterion

    def forward(self, features_s, features_t, **kwargs):
        return self.gamma * self.crit_(features_s, features_t)


def GoodNet(module, layer_name, reg=1, gamma=1.0, base_criterion=None, **kwargs):
    if base_criterion is None:
        base_criterion = torch.nn.CrossEntropyLoss()
    return DomainAwareNet(
        module=DomainAwareModule,
        module__base_module=module,
        module__layer_name=layer_name,
        iterator_train=DomainBalancedDataLoader,
        criterion=DomainAwareCriterion(base_criterion, GoodLoss(gamma=gamma), reg=reg),
        **kwargs,
    )


def GoodNetPrefix(module, layer_name, reg=1, gamma=1.0, base_criterion=None, **kwargs):
    options = dict(criterion__base_criterion=base_criterion or torch.nn.CrossEntropyLoss(), criterion__reg=reg)
    return DomainAwareNet(
        module=DomainAwareModule,
        module__base_module=module,
        module__layer_name=layer_name,
        iterator_train=DomainBalancedDataLoader,
        criterion=DomainAwareCriterion,
        criterion__adapt_criterion=GoodLoss(gamma=gamma),
        **options,
        **kwargs,
    )


def BadNetReg(module, layer_name, reg=1, gamma=1.0, base_criterion=None, **kwargs):
    if base_criterion is None:
        base_criterion = torch.nn.CrossEntropyLoss()
    return DomainAwareNet(
        module=DomainAwareModule,
        module__base_module=module,
        module__layer_name=layer_name,
        criterion=DomainAwareCriterion(base_criterion, GoodLoss(gamma=gamma)),
        **kwargs,
    )


def BadNetCrossed(module, layer_name, reg=1, gamma=1.0, base_criterion=None, **kwargs):
    return DomainAwareNet(
        module=DomainAwareModule,
        module__base_module=module,
        module__layer_name=layer_name,
        criterion=DomainAwareCriterion,
        criterion__base_criterion=base_criterion,
        criterion__adapt_criterion=GoodLoss(gamma=reg),
        criterion__reg=gamma,
        **kwargs,
    )


def BadNetUnknown(module, layer_name, reg=1, **kwargs):
    return DomainAwareNet(
        module=DomainAwareModule,
        module__base_module=module,
        module__layer_name=layer_name,
        module__regularisation=reg,
        **kwargs,
    )


class GoodLikeCalls(BaseAdapter):
    def __init__(self, rate=0.5, shift=0.0):
        super().__init__()
        self.rate = rate
        self.shift = shift

    def fit(self, X, y=None, *, sample_domain=None):
        self.low_ = np.quantile(X, self.rate, axis=0) + self.shift
        self.high_ = np.quantile(X, 1 - self.rate, axis=0)
        return self


class BadLikeCalls(BaseAdapter):
    def __init__(self, rate=0.5):
        super().__init__()
        self.rate = rate

    def fit(self, X, y=None, *, sample_domain=None):
        self.low_ = np.quantile(X[:10], self.rate, axis=0)
        self.high_ = np.quantile(X[10:], 0.5, axis=0)
        return self


class GoodSwitch(BaseAdapter):
    def __init__(self, centred=True):
        super().__init__()
        self.centred = centred

    def fit(self, X, y=None, *, sample_domain=None):
        self.mean_ = X.mean(axis=0) if self.centred else None
        return self


class BadSwitch(BaseAdapter):
    def __init__(self, centred=True):
        super().__init__()
        self.centred = centred

    def fit(self, X, y=None, *, sample_domain=None):
        self.mean_ = X.mean(axis=0) if self.centred is not None else None
        return self
