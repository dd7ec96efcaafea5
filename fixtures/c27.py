import numpy as np

try:
    import torch
except ImportError:
    torch = None

try:
    import torchvision

    HAVE = True
except ImportError:
    HAVE = False


def good_guarded(x):
    if torch is None:
        raise ImportError("torch is needed")
    return torch.sum(x)


def good_flag(x):
    if HAVE and isinstance(x, torchvision.Image):
        return x.data
    return np.asarray(x)


def good_inside(x):
    try:
        import skorch
    except ImportError:
        raise ImportError("skorch is needed")
    return skorch.f(x)


def _need():
    if not HAVE:
        raise ImportError("needs torchvision")


def good_helper(x):
    _need()
    return torchvision.f(x)


def bad_flag(x):
    if isinstance(x, torchvision.Image):
        return x.data
    return np.asarray(x)


def bad_wrong_way(x):
    if not HAVE:
        return torchvision.f(x)
    return x


def bad_placeholder(x):
    return torch.sum(x)
