import numpy as np
import torch
from skorch.utils import to_tensor
from torch import nn
from torch.utils.data import Dataset

from skada.deep.base import BaseDALoss


def bad_center_loss(features, features_target):
    d = torch.eye(features.shape[0])
    return torch.mean((d @ features - features_target) ** 2)


def bad_numpy_loss(features, features_target):
    m = np.mean(features)
    return torch.mean(features_target) - m


def bad_array_loss(features, features_target):
    C = features.T @ features_target
    return np.trace(C.detach().numpy())


def good_center_loss(features, features_target):
    d = torch.eye(features.shape[0], device=features.device)
    w = torch.full((len(features),), 1.0 / len(features)).to(features)
    z = torch.zeros_like(features_target)
    k = features_target.new_zeros(features_target.shape) + z
    return torch.mean((d @ features - k) ** 2) * w.sum()


def good_array_loss(features, features_target):
    C = features.T @ features_target
    return np.trace(C.detach().cpu().numpy())


def good_scalar_loss(features, features_target):
    scale = torch.tensor(2.0)
    return scale * torch.mean((features - features_target) ** 2)


class BadDomainLoss(BaseDALoss):
    def __init__(self):
        super().__init__()
        self.loss = nn.BCELoss()

    def forward(self, y_s, y_pred_s, y_pred_t, domain_pred_s, domain_pred_t, features_s, features_t):
        label = torch.ones(domain_pred_s.shape)
        return self.loss(domain_pred_s, label)


class GoodDomainLoss(BaseDALoss):
    def __init__(self):
        super().__init__()
        self.loss = nn.BCELoss()

    def forward(self, y_s, y_pred_s, y_pred_t, domain_pred_s, domain_pred_t, features_s, features_t):
        label = torch.ones(domain_pred_s.shape).to(domain_pred_s.device)
        return self.loss(domain_pred_s, label)


class BadDataset(Dataset):
    def __init__(self, X, y=None, device="cpu"):
        self.device = device
        self.X = to_tensor(X, device=device)
        if y is None:
            y = torch.zeros(len(X))
        else:
            y = to_tensor(y, device=device)
        self.y = y


class GoodDataset(Dataset):
    def __init__(self, X, y=None, device="cpu"):
        self.device = device
        self.X = to_tensor(X, device=device)
        if y is None:
            y = torch.zeros(len(X)).to(self.device)
        else:
            y = to_tensor(y, device=device)
        self.y = y
