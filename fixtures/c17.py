import torch
from sklearn.utils.validation import check_array
from skorch.utils import to_tensor

from skada.deep.base import DeepDADataset


class GoodRewritten(DeepDADataset):
    """the operations written in another way"""

    def merge(self, dataset, keep_weights=False, out=True):
        names = ["X", "y", "sample_domain"]
        both = {n: torch.cat([getattr(self, n), getattr(dataset, n)], dim=0) for n in names}
        weight = torch.cat([self.sample_weight, dataset.sample_weight]) if keep_weights else torch.Tensor()
        if not out:
            self.has_y = torch.cat([self.has_y, dataset.has_y])
            for n in names:
                setattr(self, n, both[n])
            self.sample_weight = weight
            self.has_weights = len(weight) > 0
            self._sample_idx = self._infer_sample_idx()
            return None
        return DeepDADataset(both, sample_weight=weight, device=self.device)

    def _select_from_mask(self, mask, return_weights=True):
        mask = to_tensor(check_array(mask, ensure_2d=False, dtype=bool), device=self.device)
        picked = []
        for part in self.as_arrays(return_weights=return_weights):
            picked.append(part[mask])
        return DeepDADataset(*picked, device=self.device)

    def select_source(self, return_weights=True):
        return self._select_from_mask(torch.logical_not(self.sample_domain < 0), return_weights)

    def per_domain_split(self, return_weights=True):
        return {d: self._select_from_mask(self.sample_domain == d, return_weights) for d in self.domains()}

    def __getitem__(self, index):
        out = self.as_dict()
        y = out.pop("y")[index]
        return {name: value[index] for name, value in out.items()}, y

    def as_dict(self, sample_indices=True):
        d = {}
        d["y"] = self.y
        d["sample_domain"] = self.sample_domain
        d["X"] = self.X
        if sample_indices:
            d["sample_idx"] = self._sample_idx
        if self.has_weights:
            d["sample_weight"] = self.sample_weight
        return d


class BadMergeOrder(DeepDADataset):
    def merge(self, dataset, keep_weights=False, out=True):
        X = torch.cat((self.X, dataset.X))
        y = torch.cat((dataset.y, self.y))
        sample_domain = torch.cat((self.sample_domain, dataset.sample_domain))
        sample_weight = torch.cat((self.sample_weight, dataset.sample_weight))
        return DeepDADataset(X, y, sample_domain, sample_weight, self.device)


class BadMergeStaleIds(DeepDADataset):
    def merge(self, dataset, keep_weights=False, out=True):
        if out:
            return super().merge(dataset, keep_weights, out)
        self.X = torch.cat((self.X, dataset.X))
        self.y = torch.cat((self.y, dataset.y))
        self.sample_domain = torch.cat((self.sample_domain, dataset.sample_domain))
        self.has_y = torch.cat((self.has_y, dataset.has_y))
        self.sample_weight = torch.cat((self.sample_weight, dataset.sample_weight))


class BadMergeInPlace(DeepDADataset):
    def merge(self, dataset, keep_weights=False, out=True):
        self.sample_weight = torch.cat((self.sample_weight, dataset.sample_weight))
        return super().merge(dataset, keep_weights, out)


class BadSelectLabels(DeepDADataset):
    def _select_from_mask(self, mask, return_weights=True):
        if return_weights:
            return DeepDADataset(self.X[mask], self.y, self.sample_domain[mask], self.sample_weight[mask])
        return DeepDADataset(self.X[mask], self.y, self.sample_domain[mask])


class BadSelectLost(DeepDADataset):
    def _select_from_mask(self, mask, return_weights=True):
        return DeepDADataset(self.X[mask], self.y[mask], self.sample_domain[mask])


class BadSelectSwapped(DeepDADataset):
    def _select_from_mask(self, mask, return_weights=True):
        X, y, d = self.X[mask], self.y[mask], self.sample_domain[mask]
        return DeepDADataset(X, d, y, self.sample_weight[mask])


class BadSource(DeepDADataset):
    def select_source(self, return_weights=True):
        return self._select_from_mask(self.sample_domain <= 0, return_weights)


class BadTarget(DeepDADataset):
    def select_target(self, return_weights=True):
        return self._select_from_mask(self.sample_domain >= 0, return_weights)


class BadDomain(DeepDADataset):
    def select_domain(self, domain_id, return_weights=True):
        return self._select_from_mask(self.sample_domain != domain_id, return_weights)


class BadDomainOther(DeepDADataset):
    def select_domain(self, domain_id, return_weights=True):
        return self._select_from_mask(self.sample_domain == self.sample_domain[0], return_weights)


class BadLabelled(DeepDADataset):
    def select_with_labels(self, return_weights=True):
        return self._select_from_mask(~self.has_y, return_weights)


class BadSelectOn(DeepDADataset):
    def select(self, condition, on, return_weights=True):
        if on == "X":
            mask = condition(self.X)
        elif on == "y":
            mask = self.has_y & condition(self.sample_domain)
        elif on == "sample_domain":
            mask = condition(self.sample_domain)
        elif on == "sample_weight":
            mask = condition(self.sample_weight)
        return self._select_from_mask(mask, return_weights=return_weights)


class BadSplitKey(DeepDADataset):
    def per_domain_split(self, return_weights=True):
        parts = {}
        last = None
        for d in self.domains():
            parts[d] = self.select_domain(last, return_weights)
            last = d
        return parts


class BadItem(DeepDADataset):
    def __getitem__(self, index):
        X, y = super().__getitem__(index)
        X["sample_weight"] = self.sample_domain[index]
        return X, y


class BadItemIds(DeepDADataset):
    def __getitem__(self, index):
        X = {"X": self.X[index], "sample_domain": self.sample_domain[index], "sample_weight": self.sample_weight[index], "sample_idx": self._sample_idx}
        return X, self.y[index]


class BadArrays(DeepDADataset):
    def as_arrays(self, return_weights=True):
        if self.has_weights:
            return self.X, self.y, self.sample_domain, self.sample_weight
        return self.X, self.y, self.sample_domain


class BadDict(DeepDADataset):
    def as_dict(self, sample_indices=True):
        dataset = {"X": self.X, "y": self.y, "sample_domain": self.sample_domain}
        if sample_indices:
            dataset["sample_idx"] = self._sample_idx
        return dataset


class BadInit(DeepDADataset):
    def _initialize(self, X, y, sample_domain, sample_weight):
        super()._initialize(X, y, sample_domain, sample_weight)
        if sample_weight is not None and len(sample_weight):
            self.sample_weight = to_tensor(sample_domain, self.device)


class BadAddWeights(DeepDADataset):
    def add_weights(self, sample_weight):
        self.y = to_tensor(sample_weight, device=self.device)
        return self


class BadRemoveWeights(DeepDADataset):
    def remove_weights(self):
        self.sample_weight = torch.Tensor()
        return self


class BadInPlace(DeepDADataset):
    def select_source(self, return_weights=True):
        self.y[self.sample_domain < 0] = -1
        return self._select_from_mask(self.sample_domain >= 0, return_weights)


class BadIds(DeepDADataset):
    def _infer_sample_idx(self):
        result = torch.zeros_like(self.sample_domain, dtype=torch.int64)
        for d in self.domains():
            mask = self.sample_domain == d
            result[mask] = torch.arange(len(mask))[mask]
        return result


class BadHasY(DeepDADataset):
    def merge(self, dataset, keep_weights=False, out=True):
        if out:
            return super().merge(dataset, keep_weights, out)
        self.X = torch.cat((self.X, dataset.X))
        self.y = torch.cat((self.y, dataset.y))
        self.sample_domain = torch.cat((self.sample_domain, dataset.sample_domain))
        self.has_y = torch.cat((dataset.has_y, self.has_y))
        self.sample_weight = torch.cat((self.sample_weight, dataset.sample_weight))
        self._sample_idx = self._infer_sample_idx()


class BadSplitWeights(DeepDADataset):
    def per_domain_split(self, return_weights=True):
        return {d: self.select_domain(d) for d in self.domains()}


class BadCondition(DeepDADataset):
    def select(self, condition, on, return_weights=True):
        return self._select_from_mask(self.has_y, return_weights)


class BadSelectDomain(DeepDADataset):
    def select_domain(self, domain_id, return_weights=True):
        return self._select_from_mask(self.sample_domain >= domain_id, return_weights)


class GoodSelectDomain(DeepDADataset):
    def select_domain(self, domain_id, return_weights=True):
        at_least = self.sample_domain >= domain_id
        return self._select_from_mask(at_least & (self.sample_domain <= domain_id), return_weights)


class BadSelectLabels(DeepDADataset):
    def select_with_labels(self, return_weights=True):
        return self._select_from_mask(self.y > 0, return_weights)


class GoodSelectOnLabels(DeepDADataset):
    def select(self, condition, on, return_weights=True):
        if on == "y":
            return self._select_from_mask(torch.logical_and(condition(self.y), self.y != -1), return_weights)
        return super().select(condition, on, return_weights)


class BadSelectOnLabels(DeepDADataset):
    def select(self, condition, on, return_weights=True):
        if on == "y":
            return self._select_from_mask(condition(self.y), return_weights)
        return super().select(condition, on, return_weights)


class BadSelectOnLabelsOr(DeepDADataset):
    def select(self, condition, on, return_weights=True):
        if on == "y":
            return self._select_from_mask(condition(self.y) | self.has_y, return_weights)
        return super().select(condition, on, return_weights)


class BadDefaultDomain(DeepDADataset):
    def _initialize(self, X, y, sample_domain, sample_weight):
        if sample_domain is None:
            sample_domain = torch.full((len(X),), -1, device=self.device)
        super()._initialize(X, y, sample_domain, sample_weight)


class GoodDefaultDomain(DeepDADataset):
    def _initialize(self, X, y, sample_domain, sample_weight):
        if sample_domain is None:
            sample_domain = torch.ones(len(X), dtype=torch.int64, device=self.device)
        super()._initialize(X, y, sample_domain, sample_weight)


class BadHasYOrder(DeepDADataset):
    def _initialize(self, X, y, sample_domain, sample_weight):
        super()._initialize(X, y, sample_domain, sample_weight)
        if y is not None:
            self.has_y = self.y >= 0
