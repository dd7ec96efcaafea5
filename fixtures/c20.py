import numpy as np
from sklearn.utils import Bunch

from skada.datasets import DomainAwareDataset


class _Plain(DomainAwareDataset):
    """pack and the other operations written in another way"""

    def _parts(self, names, sign):
        for name in names:
            got = self.get_domain(name)
            y = got[1] if len(got) > 1 else np.full(len(got[0]), -1)
            yield got[0], y, np.full(len(got[0]), sign * self.domain_names_[name]), name

    def pack(self, as_sources, as_targets, mask_target_labels, return_X_y=None, return_type="auto", train=None, mask=None):
        parts = [*self._parts(as_sources, 1), *self._parts(as_targets, -1)]
        return self._out(parts, return_type, as_sources, as_targets)

    def _out(self, parts, return_type, as_sources, as_targets):
        X, y, d = [], [], []
        for a, b, c, _ in parts:
            X.append(a)
            y.append(b)
            d.append(c)
        if return_type == "Bunch":
            names = {n: self.domain_names_[n] for n in as_sources}
            names.update({n: -self.domain_names_[n] for n in as_targets})
            return Bunch(X=np.concatenate(X), y=np.concatenate(y), sample_domain=np.concatenate(d), domain_names=names)
        return np.concatenate(X), np.concatenate(y), np.concatenate(d)


class GoodRewritten(_Plain):
    pass


class GoodAdd(DomainAwareDataset):
    def add_domain(self, X, y=None, domain_name=None):
        self.domains_.append((X,) if y is None else (X, y))
        if domain_name is None:
            n = len(self.domains_)
            while "_" + str(n) in self.domain_names_:
                n += 1
            domain_name = "_" + str(n)
        self.domain_names_[domain_name] = len(self.domains_)
        return self


class BadZeroBased(DomainAwareDataset):
    """the first domain gets the identifier 0: source and target are told apart no more"""

    def add_domain(self, X, y=None, domain_name=None):
        self.domain_names_[domain_name] = len(self.domains_)
        self.domains_.append((X, y) if y is not None else (X,))
        return self

    def get_domain(self, domain_name):
        return self.domains_[self.domain_names_[domain_name]]


class BadLookup(DomainAwareDataset):
    def get_domain(self, domain_name):
        return self.domains_[self.domain_names_[domain_name] - 2]


class BadEnumerate(DomainAwareDataset):
    """identifiers by the position in the call, not those of the dataset"""

    def pack(self, as_sources, as_targets, mask_target_labels, return_X_y=None, return_type="auto", train=None, mask=None):
        X, y, d = [], [], []
        for i, name in enumerate(as_sources):
            a = self.get_domain(name)
            X.append(a[0])
            y.append(a[1] if len(a) > 1 else -np.ones(len(a[0])))
            d.append(np.ones(len(a[0])) * (i + 1))
        for i, name in enumerate(as_targets):
            a = self.get_domain(name)
            X.append(a[0])
            y.append(a[1] if len(a) > 1 else -np.ones(len(a[0])))
            d.append(-np.ones(len(a[0])) * (len(as_sources) + i + 1))
        return np.concatenate(X), np.concatenate(y), np.concatenate(d)


class BadSide(_Plain):
    def pack(self, as_sources, as_targets, mask_target_labels, return_X_y=None, return_type="auto", train=None, mask=None):
        parts = [*self._parts(as_sources, 1), *self._parts(as_targets, 1)]
        return self._out(parts, return_type, as_sources, as_targets)


class BadNames(_Plain):
    def _out(self, parts, return_type, as_sources, as_targets):
        X, y, d = [p[0] for p in parts], [p[1] for p in parts], [p[2] for p in parts]
        names = {n: self.domain_names_[n] for n in [*as_sources, *as_targets]}
        return Bunch(X=np.concatenate(X), y=np.concatenate(y), sample_domain=np.concatenate(d), domain_names=names)


class BadPairing(_Plain):
    def _out(self, parts, return_type, as_sources, as_targets):
        X, y, d = [], [], []
        for a, b, c, _ in parts:
            X.append(a)
            y.insert(0, b)
            d.append(c)
        return np.concatenate(X), np.concatenate(y[::-1][::-1]), np.concatenate(d)


class BadExtra(_Plain):
    """packs every domain, whatever is asked for"""

    def pack(self, as_sources, as_targets, mask_target_labels, return_X_y=None, return_type="auto", train=None, mask=None):
        parts = [*self._parts(list(self.domain_names_), 1), *self._parts(as_targets, -1)]
        return self._out(parts, return_type, as_sources, as_targets)


class BadUnnamed(DomainAwareDataset):
    def add_domain(self, X, y=None, domain_name=None):
        if domain_name is None:
            domain_name = f"_{len(self.domain_names_) + 1}"
        self.domains_.append((X,) if y is None else (X, y))
        self.domain_names_[domain_name] = len(self.domains_)
        return self


class BadSelect(DomainAwareDataset):
    def select_domain(self, sample_domain, domains):
        if isinstance(domains, str):
            domains = [domains]
        order = list(self.domain_names_)
        out = np.zeros(len(sample_domain), dtype=bool)
        for domain in domains:
            out |= sample_domain == -self.domain_names_[domain]
        return out


class GoodSelect(DomainAwareDataset):
    def select_domain(self, sample_domain, domains):
        names = [domains] if isinstance(domains, str) else domains
        return np.isin(sample_domain, [self.domain_names_[d] for d in names])


class BadMerge(DomainAwareDataset):
    """identifiers are taken over from the other dataset"""

    def merge(self, dataset, names_mapping=None):
        for name, number in dataset.domain_names_.items():
            if names_mapping is not None:
                name = names_mapping.get(name, name)
            self.domain_names_[name] = number
        self.domains_.extend(dataset.domains_)
        return self
