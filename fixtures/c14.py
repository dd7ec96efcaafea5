from sklearn.base import BaseEstimator
from skada.base import BaseAdapter


class BadRename(BaseAdapter):
    def __init__(self, reg=1.0, k=3):
        super().__init__()
        self.reg_ = reg
        self.k = k

    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        return X * self.reg_


class BadCopy(BaseAdapter):
    def __init__(self, regs=None):
        self.regs = list(regs)

    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        return X * self.regs[0]


class BadSwap(BaseAdapter):
    def __init__(self, reg_a=1.0, reg_b=2.0):
        self._store(reg_b, reg_a)

    def _store(self, reg_a, reg_b):
        self.reg_a, self.reg_b = reg_a, reg_b

    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        return X * self.reg_a + self.reg_b


class BadDerived(BaseAdapter):
    def __init__(self, reg=1.0):
        self.reg = reg
        self._scale = 2 * reg

    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        return X * self._scale


class BadFree(BaseEstimator):
    def __init__(self, reg=1.0, **options):
        self.reg = reg
        self.options = options


class BadClamp(BaseAdapter):
    def __init__(self, reg=1.0):
        if reg < 0:
            reg = 0.0
        self.reg = reg

    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        return X * self.reg


class GoodStore(BaseAdapter):
    def __init__(self, reg=1.0, base=None, *, tol=1e-3):
        super().__init__()
        if reg < 0:
            raise ValueError("reg")
        self.tol = tol
        self._keep(reg)
        self.base = base if base is not None else BadFree()
        self._ready = False

    def _keep(self, reg):
        r = reg
        self.reg = r

    def fit_transform(self, X, y=None, *, sample_domain=None, **params):
        return X * self.reg
