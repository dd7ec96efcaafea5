import numpy as np
from sklearn.utils import check_array

from skada.utils import check_X_y_domain, extract_source_indices


def good_copy(X, y, sample_domain):
    X = np.array(X)
    X[0] = 1
    X -= X.mean(axis=0)
    z = y[sample_domain >= 0]
    z[:] = 2
    z.sort()
    w = check_array(X, copy=True)
    w *= 2
    return X, z, w


def bad_centre(X):
    X -= X.mean(axis=0)
    return X


def bad_checked(X, y=None):
    Z = check_array(X)
    Z[:, 0] = 0
    return Z


def bad_view(X):
    Z = X.reshape(len(X), -1)
    for row in Z:
        row /= row.sum()
    return Z


def bad_helper(y, sample_domain):
    def mask(v, idx):
        v[idx] = -1
        return v

    return mask(y, extract_source_indices(sample_domain))


def bad_out(X):
    return np.sqrt(X, out=X)


def bad_sort(sample_domain):
    sample_domain.sort()
    return sample_domain


def bad_dict(metadata):
    return metadata.pop("sample_domain")


def good_dict(metadata, **params):
    m = dict(metadata)
    m["a"] = 1
    params["b"] = 2
    params.pop("c", None)
    return m


def bad_on_one_path(X, y, scale=True):
    Z = X
    if scale:
        Z = X / 2
    Z[0] = 0
    return Z


def good_switch(X, copy=True):
    if copy:
        X = X.copy()
    X[0] = 0
    return X


class GoodModel:
    def fit(self, X, y):
        self.X_ = X
        self.out_ = np.zeros(len(X))
        self.out_[y == 1] = 1
        return self

    def predict(self, X):
        p = self.est.predict_proba(X)
        p = p / p.sum()
        p += 1
        return p


class BadModel:
    def predict(self, X):
        p = self.est.predict_proba(X)
        p[p < 1e-9] = 1e-9
        return p


class BadKeep:
    def fit(self, X, y):
        self.y_ = y
        self._relabel()
        return self

    def _relabel(self):
        self.y_[self.y_ < 0] = 0
