from functools import reduce

import numpy as np
from sklearn.model_selection import StratifiedShuffleSplit
from sklearn.model_selection._split import _num_samples, _validate_shuffle_split
from sklearn.utils import check_random_state

from skada.model_selection import SplitSampleDomainRequesterMixin
from skada.base import BaseAdapter
from skada.utils import check_X_y_domain, extract_domains_indices, extract_source_indices


class _Base(SplitSampleDomainRequesterMixin):
    def __init__(self, n_splits=10, test_size=None, train_size=None, random_state=None):
        self.n_splits = n_splits
        self.test_size = test_size
        self.train_size = train_size
        self.random_state = random_state

    def sizes(self, idx):
        return _validate_shuffle_split(_num_samples(idx), self.test_size, self.train_size, default_test_size=0.1)


class GoodSplit(_Base):
    def split(self, X, y, sample_domain):
        source = extract_source_indices(sample_domain)
        rng = check_random_state(self.random_state)
        for _ in range(self.n_splits):
            train, test = [], []
            for idx in (np.flatnonzero(source), np.flatnonzero(~source)):
                n_train, n_test = self.sizes(idx)
                perm = rng.permutation(idx)
                test.append(perm[:n_test])
                train.append(perm[n_test : n_test + n_train])
            yield np.concatenate(train), np.concatenate(test)


class GoodTrainFirst(_Base):
    def split(self, X, y, sample_domain):
        src = np.flatnonzero(extract_source_indices(sample_domain))
        rng = check_random_state(self.random_state)
        for _ in range(self.n_splits):
            n_train, n_test = self.sizes(src)
            order = rng.permutation(len(src))
            chosen = src[order]
            yield chosen[:n_train], chosen[n_train : n_train + n_test]


class BadOverlap(_Base):
    def split(self, X, y, sample_domain):
        src = np.flatnonzero(extract_source_indices(sample_domain))
        rng = check_random_state(self.random_state)
        for _ in range(self.n_splits):
            n_train, n_test = self.sizes(src)
            perm = rng.permutation(src)
            yield perm[:n_train], perm[:n_test]


class BadSwapped(_Base):
    def split(self, X, y, sample_domain):
        src = np.flatnonzero(extract_source_indices(sample_domain))
        rng = check_random_state(self.random_state)
        for _ in range(self.n_splits):
            n_test, n_train = self.sizes(src)
            perm = rng.permutation(src)
            yield perm[:n_train], perm[n_train : n_train + n_test]


class BadTwoPermutations(_Base):
    def split(self, X, y, sample_domain):
        src = np.flatnonzero(extract_source_indices(sample_domain))
        rng = check_random_state(self.random_state)
        for _ in range(self.n_splits):
            n_train, n_test = self.sizes(src)
            train = rng.permutation(src)[n_test : n_test + n_train]
            test = rng.permutation(src)[:n_test]
            yield train, test


class BadReplacement(_Base):
    def split(self, X, y, sample_domain):
        src = np.flatnonzero(extract_source_indices(sample_domain))
        rng = check_random_state(self.random_state)
        for _ in range(self.n_splits):
            n_train, n_test = self.sizes(src)
            perm = rng.choice(src, len(src))
            yield perm[n_test : n_test + n_train], perm[:n_test]


class BadPositions(_Base):
    def split(self, X, y, sample_domain):
        X_source = X[extract_source_indices(sample_domain)]
        rng = check_random_state(self.random_state)
        for _ in range(self.n_splits):
            n_train, n_test = self.sizes(X_source)
            perm = rng.permutation(len(X_source))
            yield perm[n_test : n_test + n_train], perm[:n_test]


class BadIgnoresDomains(_Base):
    def split(self, X, y, sample_domain):
        rng = check_random_state(self.random_state)
        for _ in range(self.n_splits):
            n_train, n_test = self.sizes(X)
            perm = rng.permutation(_num_samples(X))
            yield perm[n_test : n_test + n_train], perm[:n_test]


class GoodLeaveOut(_Base):
    def split(self, X, y, sample_domain):
        domains = np.unique(np.abs(sample_domain))
        rng = check_random_state(self.random_state)
        for left_out in domains:
            keep = reduce(np.logical_or, (sample_domain == (d if d != left_out else -d) for d in domains))
            (keep,) = np.where(keep)
            n_train, n_test = self.sizes(keep)
            perm = keep[rng.permutation(len(keep))]
            yield perm[n_test : n_test + n_train], perm[:n_test]


class BadLeaveOut(_Base):
    def split(self, X, y, sample_domain):
        domains = np.unique(np.abs(sample_domain))
        rng = check_random_state(self.random_state)
        for left_out in domains:
            keep = reduce(np.logical_or, (sample_domain == (d if d == left_out else -d) for d in domains))
            (keep,) = np.where(keep)
            n_train, n_test = self.sizes(keep)
            perm = keep[rng.permutation(len(keep))]
            yield perm[n_test : n_test + n_train], perm[:n_test]


class GoodFromEnd(_Base):
    def split(self, X, y, sample_domain):
        src = np.flatnonzero(extract_source_indices(sample_domain))
        tgt = np.flatnonzero(~extract_source_indices(sample_domain))
        rng = check_random_state(self.random_state)
        for _ in range(self.n_splits):
            n_train, n_test = self.sizes(src)
            m_train, m_test = self.sizes(tgt)
            perm, order = rng.permutation(src), tgt[rng.permutation(len(tgt))]
            yield np.concatenate([perm[:n_train], order[:m_train]]), np.concatenate([perm[-n_test:], order[m_train : m_train + m_test]])

    def get_n_splits(self, X=None, y=None, sample_domain=None):
        return self.n_splits


class BadFromEnd(_Base):
    def split(self, X, y, sample_domain):
        src = np.flatnonzero(extract_source_indices(sample_domain))
        tgt = np.flatnonzero(~extract_source_indices(sample_domain))
        rng = check_random_state(self.random_state)
        for _ in range(self.n_splits):
            n_train, n_test = self.sizes(src)
            m_train, m_test = self.sizes(tgt)
            perm, order = rng.permutation(src), tgt[rng.permutation(len(tgt))]
            yield np.concatenate([perm[-n_train:], order[:m_train]]), np.concatenate([perm[:n_train], order[m_train : m_train + m_test]])


class BadOthersNumber(_Base):
    def split(self, X, y, sample_domain):
        src = np.flatnonzero(extract_source_indices(sample_domain))
        tgt = np.flatnonzero(~extract_source_indices(sample_domain))
        rng = check_random_state(self.random_state)
        for _ in range(self.n_splits):
            n_train, n_test = self.sizes(src)
            m_train, m_test = self.sizes(tgt)
            perm, order = rng.permutation(src), tgt[rng.permutation(len(src))]
            yield np.concatenate([perm[:n_train], order[:m_train]]), np.concatenate([perm[n_train : n_train + n_test], order[m_train : m_train + m_test]])


class BadTwice(_Base):
    def split(self, X, y, sample_domain):
        src = np.flatnonzero(extract_source_indices(sample_domain))
        tgt = np.flatnonzero(~extract_source_indices(sample_domain))
        rng = check_random_state(self.random_state)
        for _ in range(self.n_splits):
            n_train, n_test = self.sizes(src)
            m_train, m_test = self.sizes(tgt)
            perm, order = rng.permutation(src), rng.permutation(tgt)
            train = perm[:n_train]
            yield np.concatenate([train, train]), np.concatenate([perm[n_train : n_train + n_test], order[m_train : m_train + m_test]])


class BadNumber(_Base):
    def split(self, X, y, sample_domain):
        src = np.flatnonzero(extract_source_indices(sample_domain))
        rng = check_random_state(self.random_state)
        for _ in range(1, self.n_splits):
            n_train, n_test = self.sizes(src)
            perm = rng.permutation(src)
            yield perm[:n_train], perm[n_train : n_train + n_test]

    def get_n_splits(self, X=None, y=None, sample_domain=None):
        return self.n_splits


class BadTargetDomainsOut(_Base):
    def split(self, X, y, sample_domain):
        domains = np.unique(-sample_domain[~extract_source_indices(sample_domain)])
        rng = check_random_state(self.random_state)
        for left_out in domains:
            keep = reduce(np.logical_or, (sample_domain == (d if d != left_out else -d) for d in domains))
            (keep,) = np.where(keep)
            n_train, n_test = self.sizes(keep)
            perm = keep[rng.permutation(len(keep))]
            yield perm[n_test : n_test + n_train], perm[:n_test]


class GoodDomainSubsampler(BaseAdapter):
    def __init__(self, train_size, random_state=None):
        self.train_size = train_size
        self.random_state = random_state

    def cut(self, X, by):
        s = StratifiedShuffleSplit(n_splits=1, test_size=self.train_size, random_state=self.random_state)
        for _, kept in s.split(X, by):
            return kept

    def fit_transform(self, X, y=None, *, sample_domain=None):
        X, y, sample_domain = check_X_y_domain(X, y, sample_domain)
        kept = self.cut(X, sample_domain)
        return X[kept], y[kept], {"sample_domain": sample_domain[kept]}


class BadDomainSubsampler(GoodDomainSubsampler):
    def fit_transform(self, X, y=None, *, sample_domain=None):
        X, y, sample_domain = check_X_y_domain(X, y, sample_domain)
        kept = self.cut(X, y)
        return X[kept], y[kept], {"sample_domain": sample_domain[kept]}


class BadSizeSubsampler(GoodDomainSubsampler):
    def fit_transform(self, X, y=None, *, sample_domain=None):
        s = StratifiedShuffleSplit(n_splits=1, test_size=self.train_size, random_state=self.random_state)
        kept = next(s.split(X, y))[0]
        return X[kept], y[kept], {"sample_domain": sample_domain[kept]}


class GoodBlocks(_Base):
    def split(self, X, y, sample_domain):
        source, target = extract_domains_indices(sample_domain, split_source_target=True)
        rng = check_random_state(self.random_state)
        for _ in range(self.n_splits):
            idx = np.concatenate([rng.choice(v, len(v), replace=False) for v in source.values()])
            rng.shuffle(idx)
            n_train, n_test = self.sizes(idx)
            yield idx[n_test : n_test + n_train], idx[:n_test]


class BadBlocks(_Base):
    def split(self, X, y, sample_domain):
        source, target = extract_domains_indices(sample_domain, split_source_target=True)
        rng = check_random_state(self.random_state)
        for _ in range(self.n_splits):
            idx = np.concatenate([rng.choice(v, len(v), replace=False) for v in source.values()])
            n_train, n_test = self.sizes(idx)
            yield idx[n_test : n_test + n_train], idx[:n_test]


def good_folds(cv, model, X, y):
    return [model.fit(X[train], y[train]).score(X[test], y[test]) for train, test in cv.split(X)]


def bad_folds(cv, model, X, y):
    scores = []
    for train, test in cv.split(X, y):
        scores.append(model.fit(X[train], y[train]).score(X[train], y[train]))
    return scores


def bad_folds_all(cv, model, X, y):
    return np.mean([model.fit(X, y).score(X[test], y[test]) for train, test in cv.split(X)])
