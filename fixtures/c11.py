import random

import numpy as np
import torch
from sklearn.base import BaseEstimator
from sklearn.decomposition import PCA
from sklearn.model_selection import ShuffleSplit, train_test_split
from sklearn.utils import check_random_state


def good_draw(X, random_state=None):
    rng = check_random_state(random_state)
    index = np.arange(len(X))
    rng.shuffle(index)
    return X[index]


def good_helper(X, random_state=None):
    return _helper(X, rng=np.random.RandomState(random_state))


def _helper(X, rng):
    return X[rng.permutation(len(X))], train_test_split(X, random_state=rng)


def good_per_domain(domains, random_state=None):
    rng = check_random_state(random_state)
    out = []
    for X in domains:
        seed = rng.randint(np.iinfo(np.int32).max)
        out.append(good_draw(X, random_state=seed))
    return out


class GoodSampler(BaseEstimator):
    def __init__(self, train_size=0.5, random_state=None):
        self.train_size = train_size
        self.random_state = random_state

    def fit(self, X, y=None):
        self.rng_ = check_random_state(self.random_state)
        split = ShuffleSplit(n_splits=1, train_size=self.train_size, random_state=self.rng_)
        self.keep_, _ = next(split.split(X))
        self.pca_ = PCA(random_state=self.rng_).fit(X)
        return self


class GoodTorch(BaseEstimator):
    def __init__(self, random_state=None):
        self.random_state = random_state

    def fit(self, X, y=None):
        gen = torch.Generator().manual_seed(self.random_state)
        self.start_ = torch.randn(size=(3,), generator=gen)
        return self


def bad_global(X, random_state=None):
    rng = check_random_state(random_state)
    return X[np.random.permutation(len(X))] + rng.rand()


def bad_seeding(X, random_state=None):
    np.random.seed(random_state)
    return X


def bad_python(X, random_state=None):
    return random.choice(X)


def bad_forgotten(X, random_state=None):
    a = good_draw(X, random_state=random_state)
    return a, good_draw(X)


def bad_fixed(X, random_state=None):
    a = good_draw(X, random_state=random_state)
    return a, train_test_split(X, random_state=0)


class BadComponent(BaseEstimator):
    def __init__(self, train_size=0.5, random_state=None):
        self.train_size = train_size
        self.random_state = random_state

    def fit(self, X, y=None):
        self.rng_ = check_random_state(self.random_state)
        split = ShuffleSplit(n_splits=1, train_size=self.train_size)
        self.keep_, _ = next(split.split(X))
        return self


class BadPCA(GoodSampler):
    def fit(self, X, y=None):
        self.rng_ = check_random_state(self.random_state)
        self.pca_ = PCA(self.train_size).fit(X)
        return self


class BadTorch(BaseEstimator):
    def __init__(self, random_state=None):
        self.random_state = random_state

    def fit(self, X, y=None):
        torch.manual_seed(self.random_state)
        self.start_ = torch.randn(size=(3,))
        return self


class BadSeed(GoodSampler):
    def fit(self, X, y=None):
        self.rng_ = np.random.default_rng()
        self.keep_ = self.rng_.permutation(len(X))[: self.train_size]
        return self
