import torch
from skorch.callbacks import Callback
from torch.autograd import Function

from skada.deep.base import BaseDALoss, DomainAwareCriterion, DomainAwareModule


class GoodMeans(BaseDALoss):
    def forward(self, features_s, features_t, **kwargs):
        diff = features_s.mean(0) - features_t.mean(0)
        with torch.no_grad():
            scale = features_s.std() + 1
        return (diff**2).sum() / scale


class GoodOwnMean(BaseDALoss):
    """pseudo-labels may be constants"""

    def forward(self, y_pred_s, y_pred_t, domain_pred_t, domain_pred_s, **kwargs):
        lab = torch.argmax(y_pred_t.detach(), dim=1)
        return torch.nn.functional.cross_entropy(domain_pred_t, lab) - domain_pred_s.mean()


class BadDetached(BaseDALoss):
    def forward(self, features_s, features_t, **kwargs):
        centre = features_t.detach().mean(0)
        return ((features_s.mean(0) - centre) ** 2).sum()


class BadNoGrad(BaseDALoss):
    @torch.no_grad()
    def _dist(self, a, b):
        return torch.cdist(a, b)

    def forward(self, features_s, features_t, **kwargs):
        return self._dist(features_s, features_t).mean()


class BadItem(BaseDALoss):
    def forward(self, features_s, features_t, **kwargs):
        d = torch.cdist(features_s, features_t).mean()
        return torch.tensor(d.item())


class BadLabels(BaseDALoss):
    def forward(self, y_pred_t, **kwargs):
        return torch.bincount(y_pred_t.argmax(1)).float().mean()


class GoodCriterion(DomainAwareCriterion):
    def forward(self, y_pred, y_true):
        y_pred, domain_pred, features, sample_domain, sample_idx = y_pred
        s = sample_domain >= 0
        b = self.base_criterion(y_pred[s], y_true[s])
        a = self.adapt_criterion(y_s=y_true[s], y_pred_s=y_pred[s], y_pred_t=y_pred[~s], domain_pred_s=domain_pred[s], domain_pred_t=domain_pred[~s], features_s=features[s], features_t=features[~s])
        return torch.add(b, a, alpha=self.reg)


class BadCriterion(DomainAwareCriterion):
    def forward(self, y_pred, y_true):
        y_pred, domain_pred, features, sample_domain, sample_idx = y_pred
        s = sample_domain >= 0
        b = self.base_criterion(y_pred[s], y_true[s])
        ft = features[~s].data
        a = self.adapt_criterion(y_s=y_true[s], y_pred_s=y_pred[s], y_pred_t=y_pred[~s], domain_pred_s=domain_pred[s], domain_pred_t=domain_pred[~s], features_s=features[s], features_t=ft)
        return b + self.reg * a


class BadCriterionTotal(DomainAwareCriterion):
    def forward(self, y_pred, y_true):
        y_pred, domain_pred, features, sample_domain, sample_idx = y_pred
        s = sample_domain >= 0
        b = self.base_criterion(y_pred[s], y_true[s])
        a = self.adapt_criterion(y_s=y_true[s], features_s=features[s], features_t=features[~s])
        return b + self.reg * float(a)


class GoodModule(DomainAwareModule):
    def forward(self, X, sample_domain=None, sample_weight=None, is_fit=False, return_features=False, sample_idx=None):
        if not is_fit:
            with torch.no_grad():
                return self.base_module_(X)
        y_pred = self.base_module_(X)
        f = self.intermediate_layers[self.layer_name]
        return y_pred, self.domain_classifier_(f), f, sample_domain, sample_idx


class BadModule(DomainAwareModule):
    def forward(self, X, sample_domain=None, sample_weight=None, is_fit=False, return_features=False, sample_idx=None):
        y_pred = self.base_module_(X)
        f = self.intermediate_layers[self.layer_name]
        d = self.domain_classifier_(f.detach())
        if is_fit:
            return y_pred, d, f, sample_domain, sample_idx
        return y_pred


class GoodReversal(Function):
    @staticmethod
    def forward(ctx, x, alpha):
        ctx.alpha = alpha
        return x.clone()

    @staticmethod
    def backward(ctx, g):
        return -ctx.alpha * g, None


class BadReversal(Function):
    @staticmethod
    def forward(ctx, x, alpha):
        ctx.alpha = alpha
        return x.view_as(x)

    @staticmethod
    def backward(ctx, g):
        return -(-g * ctx.alpha), None


class BadReversalScale(Function):
    @staticmethod
    def forward(ctx, x, alpha):
        ctx.alpha = alpha
        return x.view_as(x)

    @staticmethod
    def backward(ctx, g):
        return g.neg(), None


class GoodDomainHead(torch.nn.Module):
    def __init__(self, head, alpha=1):
        super().__init__()
        self.head = head
        self.alpha = alpha

    def forward(self, x):
        return self.head(GoodReversal.apply(x, self.alpha))


class BadDomainHead(torch.nn.Module):
    def __init__(self, head, alpha=1):
        super().__init__()
        self.head = head
        self.alpha = alpha

    def forward(self, x):
        return self.head(x)


class GoodBank(Callback):
    def on_batch_end(self, net, batch, **kwargs):
        net.last = net.infer(batch[0]).detach()


class BadBank(Callback):
    def on_batch_end(self, net, batch, **kwargs):
        net.last = net.infer(batch[0])


class GoodHook:
    def __init__(self, store):
        self.store = store

    def __call__(self, module, input, output):
        self.store["f"] = output


class BadHook:
    def __init__(self, store):
        self.store = store

    def __call__(self, module, input, output):
        self.store["f"] = output.detach()
