import torch
from skorch.callbacks import Callback
from skada.deep.utils import SphericalKMeans
from skorch import NeuralNetClassifier
from torch.utils.data import Sampler

from skada.deep.base import BaseDALoss, DomainAwareCriterion, DomainAwareModule, DomainAwareNet, DomainBalancedSampler, DomainOnlySampler
from skada.deep.losses import deepjdot_loss


class GoodCriterion(DomainAwareCriterion):
    """forward written in another way"""

    def _halves(self, value, where):
        if value is None:
            return None, None
        return value[where], value[~where]

    def forward(self, outputs, labels):
        y_pred, domain_pred, features, sample_domain, sample_idx = outputs
        is_source = ~(sample_domain < 0)
        parts = {}
        for name, value in (("y_pred", y_pred), ("domain_pred", domain_pred), ("features", features), ("sample_idx", sample_idx)):
            s, t = self._halves(value, is_source)
            parts[name + "_s"] = s
            parts[name + "_t"] = t
        chosen = ~is_source if self.train_on_target else is_source
        loss = self.base_criterion(y_pred[chosen], labels[chosen])
        penalty = self.adapt_criterion(y_s=labels[is_source], **parts)
        loss = loss + penalty * self.reg
        return loss


class BadBase(DomainAwareCriterion):
    def forward(self, y_pred, y_true):
        y_pred, domain_pred, features, sample_domain, sample_idx = y_pred
        s = sample_domain >= 0
        base = self.base_criterion(y_pred, y_true)
        return base + self.reg * self.adapt_criterion(y_s=y_true[s], y_pred_s=y_pred[s], y_pred_t=y_pred[~s])


class _Base(DomainAwareCriterion):
    def forward(self, y_pred, y_true):
        y_pred, domain_pred, features, sample_domain, sample_idx = y_pred
        s = sample_domain >= 0
        base = self.base_criterion(y_pred[s], y_true[s])
        if self.train_on_target:
            base = self.base_criterion(y_pred[~s], y_true[~s])
        return self.combine(base, y_pred, y_true, features, s)


class BadUnweighted(_Base):
    def combine(self, base, y_pred, y_true, features, s):
        return base + self.adapt_criterion(y_s=y_true[s], y_pred_s=y_pred[s], y_pred_t=y_pred[~s])


class BadSquared(_Base):
    def combine(self, base, y_pred, y_true, features, s):
        return base + self.reg * self.reg * self.adapt_criterion(y_s=y_true[s], y_pred_s=y_pred[s], y_pred_t=y_pred[~s])


class BadScaled(_Base):
    def combine(self, base, y_pred, y_true, features, s):
        return (1 - self.reg) * base + self.reg * self.adapt_criterion(y_s=y_true[s], y_pred_s=y_pred[s], y_pred_t=y_pred[~s])


class BadBoth(_Base):
    def combine(self, base, y_pred, y_true, features, s):
        return self.reg * (base + self.adapt_criterion(y_s=y_true[s], y_pred_s=y_pred[s], y_pred_t=y_pred[~s]))


class BadSlot(_Base):
    def combine(self, base, y_pred, y_true, features, s):
        return base + self.reg * self.adapt_criterion(y_s=y_true[s], y_pred_s=y_pred[s], y_pred_t=y_pred[s])


class BadSlotOther(_Base):
    def combine(self, base, y_pred, y_true, features, s):
        return base + self.reg * self.adapt_criterion(y_s=y_true[s], y_pred_s=y_pred[s], y_pred_t=y_pred[~s], features_s=y_pred[s])


class BadSign(DomainAwareCriterion):
    def forward(self, y_pred, y_true):
        y_pred, domain_pred, features, sample_domain, sample_idx = y_pred
        s = sample_domain > 0
        base = self.base_criterion(y_pred[s], y_true[s])
        return base + self.reg * self.adapt_criterion(y_s=y_true[s], y_pred_s=y_pred[s], y_pred_t=y_pred[~s])


class GoodModule(DomainAwareModule):
    def _features(self):
        return self.intermediate_layers[self.layer_name] if self.layer_name is not None else None

    def forward(self, X, sample_domain=None, sample_weight=None, is_fit=False, return_features=False, sample_idx=None):
        kw = {} if sample_weight is None else {"sample_weight": sample_weight}
        y_pred = self.base_module_(X, **kw)
        if not is_fit:
            return (y_pred, self._features()) if return_features else y_pred
        features = self._features()
        domain_pred = None
        if self.domain_classifier_ is not None:
            domain_pred = self.domain_classifier_(features)
        out = [y_pred, domain_pred, features, sample_domain, sample_idx]
        return tuple(out)


class BadModuleOrder(DomainAwareModule):
    def forward(self, X, sample_domain=None, sample_weight=None, is_fit=False, return_features=False, sample_idx=None):
        y_pred = self.base_module_(X, sample_weight=sample_weight)
        features = self.intermediate_layers[self.layer_name]
        if is_fit:
            return y_pred, features, self.domain_classifier_(features), sample_domain, sample_idx
        return (y_pred, features) if return_features else y_pred


class BadModuleEval(DomainAwareModule):
    def forward(self, X, sample_domain=None, sample_weight=None, is_fit=False, return_features=False, sample_idx=None):
        y_pred = self.base_module_(X, sample_weight=sample_weight)
        features = self.intermediate_layers[self.layer_name]
        if is_fit or sample_domain is not None:
            return y_pred, self.domain_classifier_(features), features, sample_domain, sample_idx
        return (y_pred, features) if return_features else y_pred


class BadModuleInput(DomainAwareModule):
    def forward(self, X, sample_domain=None, sample_weight=None, is_fit=False, return_features=False, sample_idx=None):
        y_pred = self.base_module_(X, sample_weight=sample_weight)
        features = self.intermediate_layers[self.layer_name]
        if is_fit:
            return y_pred, self.domain_classifier_(X), features, sample_domain, sample_idx
        return (y_pred, features) if return_features else y_pred


class BadModuleWeights(DomainAwareModule):
    def forward(self, X, sample_domain=None, sample_weight=None, is_fit=False, return_features=False, sample_idx=None):
        y_pred = self.base_module_(X)
        features = self.intermediate_layers[self.layer_name]
        if is_fit:
            return y_pred, self.domain_classifier_(features), features, sample_domain, sample_idx
        return (y_pred, features) if return_features else y_pred


class GoodLoss(BaseDALoss):
    def __init__(self, criterion):
        super().__init__()
        self.criterion_ = criterion

    def _one(self, pred, label):
        return self.criterion_(pred, torch.full((len(pred),), float(label)))

    def forward(self, y_s, domain_pred_s, domain_pred_t, features_s, features_t, y_pred_t, **kwargs):
        adv = self._one(domain_pred_s, 0) + self._one(domain_pred_t, 1)
        return adv + deepjdot_loss(y_s, y_pred_t, features_s=features_s, features_t=features_t, reg_dist=1, reg_cl=1)


class BadLossCrossed(BaseDALoss):
    def forward(self, y_s, y_pred_t, features_s, features_t, **kwargs):
        return deepjdot_loss(y_s, y_pred_t, features_t, features_s, 1, 1)


class BadLossLabels(BaseDALoss):
    def __init__(self):
        super().__init__()
        self.criterion_ = torch.nn.BCELoss()

    def forward(self, domain_pred_s, domain_pred_t, **kwargs):
        return self.criterion_(domain_pred_s, torch.ones(len(domain_pred_s))) + self.criterion_(domain_pred_t, torch.ones(len(domain_pred_t)))


class BadLossPairs(BaseDALoss):
    def __init__(self):
        super().__init__()
        self.criterion_ = torch.nn.CrossEntropyLoss()

    def forward(self, y_s, y_pred_t, domain_pred_t, **kwargs):
        return self.criterion_(domain_pred_t, y_s)


class BadLossSize(BaseDALoss):
    def __init__(self):
        super().__init__()
        self.criterion_ = torch.nn.BCELoss()

    def forward(self, domain_pred_s, domain_pred_t, **kwargs):
        zero, one = torch.zeros(domain_pred_s.size()[0]), torch.ones(domain_pred_s.size()[0])
        return self.criterion_(domain_pred_s, zero) + self.criterion_(domain_pred_t, one)


class GoodBalanced(DomainBalancedSampler):
    def __init__(self, dataset, batch_size, max_samples="max"):
        sources, targets = [], []
        for i, (x, _) in enumerate(dataset):
            if x["sample_domain"] < 0:
                targets.append(i)
            else:
                sources.append(i)
        self.a, self.b = sources, targets
        self.num_samples = len(targets) if max_samples == "target" else len(sources)

    def __iter__(self):
        a, b = (iter(torch.utils.data.RandomSampler(x)) for x in (self.a, self.b))
        for _ in range(self.num_samples):
            yield self.a[next(a)]
            yield self.b[next(b)]


class BadBalancedCount(DomainBalancedSampler):
    def __iter__(self):
        a = iter(torch.utils.data.RandomSampler(self.positive_indices))
        b = iter(torch.utils.data.RandomSampler(self.negative_indices))
        for _ in range(self.num_samples):
            yield self.positive_indices[next(a)]
            yield self.positive_indices[next(a)]
            yield self.negative_indices[next(b)]


class BadBalancedMixed(DomainBalancedSampler):
    def __iter__(self):
        a = iter(torch.utils.data.RandomSampler(self.positive_indices))
        b = iter(torch.utils.data.RandomSampler(self.negative_indices))
        for _ in range(self.num_samples):
            yield self.positive_indices[next(a)]
            yield self.negative_indices[next(a)]


class BadBalancedFilter(DomainBalancedSampler):
    def __init__(self, dataset, batch_size, max_samples="max"):
        super().__init__(dataset, batch_size, max_samples)
        self.positive_indices = [i for i, s in enumerate(dataset) if s[0]["sample_domain"] > 0]


class BadBalancedSize(DomainBalancedSampler):
    def __init__(self, dataset, batch_size, max_samples="max"):
        super().__init__(dataset, batch_size, max_samples)
        if max_samples == "target":
            self.num_samples = len(self.positive_indices)


class BadOnly(DomainOnlySampler):
    def __init__(self, dataset, batch_size, domain_used="source"):
        self.indices = [i for i, s in enumerate(dataset) if s[0]["sample_domain"] < 0]
        self.num_samples = len(self.indices)


class BadFlag(DomainAwareNet):
    def predict_proba(self, X, sample_domain=None, sample_weight=None, allow_source=False, **params):
        return super().predict_proba(X, sample_domain, sample_weight, allow_source, is_fit=True, **params)


class BadWeights(DomainAwareNet):
    def get_loss(self, y_pred, y_true, X, *args, **kwargs):
        loss = super(DomainAwareNet, self).get_loss(y_pred, y_true, X, *args, **kwargs)
        w = X["sample_weight"][X["sample_domain"] < 0]
        return (w * loss).mean()


class BadWeightsAll(DomainAwareNet):
    def get_loss(self, y_pred, y_true, X, *args, **kwargs):
        loss = super(DomainAwareNet, self).get_loss(y_pred, y_true, X, *args, **kwargs)
        return (X["sample_weight"] * loss).mean()


class GoodLossTables(BaseDALoss):
    def forward(self, y_s, y_pred_s, y_pred_t, features_s, features_t, **kwargs):
        same = (y_s[:, None] == torch.argmax(y_pred_t, dim=1)[None, :]).float()
        cost = torch.cdist(features_t, features_s).t() * same
        near = cost.min(dim=1)[0] < 1
        return torch.einsum("st,tk->sk", cost, y_pred_t).sub(y_pred_s)[near].abs().mean()


class BadLossTables(BaseDALoss):
    def forward(self, y_s, y_pred_s, y_pred_t, features_s, features_t, **kwargs):
        same = (y_s[:, None] == torch.argmax(y_pred_t, dim=1)[None, :]).float()
        return (torch.cdist(features_t, features_s) * same).mean()


class BadLossMask(BaseDALoss):
    def forward(self, y_s, y_pred_s, y_pred_t, features_s, features_t, **kwargs):
        near = torch.cdist(features_s, features_t).min(dim=1)[0] < 1
        return features_t[near].mean() - features_s.mean()


def good_mean(loss, weights):
    return torch.sum(loss * weights) / (torch.sum(weights) + 1e-7)


def bad_mean(loss, weights):
    return torch.sum(weights / loss) / (torch.sum(weights) + 1e-7)


class BadWeightsMean(DomainAwareNet):
    def get_loss(self, y_pred, y_true, X, *args, **kwargs):
        loss = NeuralNetClassifier.get_loss(self, y_pred, y_true, X)
        weight = X["sample_weight"][X["sample_domain"] >= 0]
        return (weight.mean() * loss).mean()


class GoodWeightsNormalised(DomainAwareNet):
    def get_loss(self, y_pred, y_true, X, *args, **kwargs):
        loss = NeuralNetClassifier.get_loss(self, y_pred, y_true, X)
        weight = X["sample_weight"][X["sample_domain"] >= 0]
        return (weight * loss).sum() / weight.sum()


class GoodBank(Callback):
    def on_batch_end(self, net, batch, **kwargs):
        X, _ = batch
        target = X["sample_domain"] < 0
        ids = X["sample_idx"][target]
        learned = net.module_(X["X"][target])
        kept = net.criterion__adapt_criterion.bank
        kept[ids] = 0.5 * kept[ids] + 0.5 * learned


class BadBankPositions(Callback):
    def on_batch_end(self, net, batch, **kwargs):
        X, _ = batch
        target = X["sample_domain"] < 0
        learned = net.module_(X["X"][target])
        net.criterion__adapt_criterion.bank[: len(learned)] = learned


class BadBankMixed(Callback):
    def on_batch_end(self, net, batch, **kwargs):
        X, _ = batch
        target = X["sample_domain"] < 0
        ids = X["sample_idx"][target]
        learned = net.module_(X["X"][target])
        kept = net.criterion__adapt_criterion.bank[: len(ids)]
        net.criterion__adapt_criterion.bank[ids] = 0.5 * kept + 0.5 * learned


class BadClusters(Callback):
    def on_epoch_begin(self, net, dataset_train=None, **kwargs):
        X = net._prepare_input(dataset_train)
        features = torch.tensor(net.predict_features(X.select_source().X), device=net.device)
        target_clusters = SphericalKMeans(n_clusters=3)
        target_clusters.fit(features)
        net.criterion__adapt_criterion.target_kmeans = target_clusters
