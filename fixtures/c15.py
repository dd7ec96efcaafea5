import numpy as np
from sklearn.utils import check_array, check_consistent_length

from skada.utils import extract_domains_indices, extract_source_indices


def good_check(X, sample_domain, *, allow_source=True, allow_multi_source=True, allow_target=True, allow_multi_target=True):
    X = check_array(X)
    check_consistent_length(X, sample_domain)
    src = extract_source_indices(sample_domain)
    n_src = len(np.unique(sample_domain[src]))
    n_tgt = np.unique(sample_domain[~src]).size
    if n_src >= 1 and not allow_source:
        raise ValueError("source")
    if not allow_multi_source:
        if n_src > 1:
            raise ValueError("sources")
    if not (allow_target or n_tgt == 0):
        raise ValueError("target")
    _limit(n_tgt, allow_multi_target)
    return X


def _limit(n, allowed):
    if 1 < n and not allowed:
        raise ValueError("targets")


def bad_threshold(X, sample_domain, *, allow_source=True, allow_multi_source=True):
    check_consistent_length(X, sample_domain)
    src = extract_source_indices(sample_domain)
    n_src = len(np.unique(sample_domain[src]))
    if not allow_source and n_src > 1:
        raise ValueError("source")
    if not allow_multi_source and n_src > 1:
        raise ValueError("sources")


def bad_role(X, sample_domain, *, allow_multi_source=True, allow_multi_target=True):
    check_consistent_length(X, sample_domain)
    src = extract_source_indices(sample_domain)
    n_src = len(np.unique(sample_domain[src]))
    if not allow_multi_source and n_src > 1:
        raise ValueError("sources")
    if not allow_multi_target and n_src > 1:
        raise ValueError("targets")


def bad_polarity(X, sample_domain, *, allow_target=True):
    check_consistent_length(X, sample_domain)
    n = len(np.unique(sample_domain[sample_domain < 0]))
    if allow_target and n > 0:
        raise ValueError("target")


def bad_ignored(X, sample_domain, *, allow_source=True, allow_target=True):
    check_consistent_length(X, sample_domain)
    n = len(np.unique(sample_domain[sample_domain < 0]))
    if not allow_target and n > 0:
        raise ValueError("target")


def bad_unasked(X, sample_domain, *, allow_source=True):
    check_consistent_length(X, sample_domain)
    if not allow_source and np.any(sample_domain >= 0):
        raise ValueError("source")
    if len(np.unique(sample_domain[sample_domain < 0])) > 1:
        raise ValueError("targets")


def bad_lengths(X, sample_domain, *, allow_source=True):
    if not allow_source and np.any(sample_domain >= 0):
        raise ValueError("source")


def bad_spread(*arrays, sample_domain):
    check_consistent_length(arrays)
    return [[a[i] for a in arrays] for i in extract_domains_indices(sample_domain).values()]


def good_spread(*arrays, sample_domain):
    check_consistent_length(sample_domain, *arrays)
    return [[a[i] for a in arrays] for i in extract_domains_indices(sample_domain).values()]


def bad_common(X, sample_domain, *, allow_source=True, allow_common_domain_idx=True):
    check_consistent_length(X, sample_domain)
    if not allow_source and np.any(sample_domain >= 0):
        raise ValueError("source")
    if not allow_common_domain_idx:
        u = np.unique(sample_domain)
        if len(u) == len(np.unique(np.abs(u))):
            raise ValueError("common")


def bad_wildcard(X, sample_domain, *, allow_domains=None, allow_source=True):
    check_consistent_length(X, sample_domain)
    if not allow_source and np.any(sample_domain >= 0):
        raise ValueError("source")
    if allow_domains is not None:
        for d in np.unique(sample_domain):
            wildcard = -np.inf if d >= 0 else np.inf
            if d not in allow_domains and wildcard not in allow_domains:
                raise ValueError("unknown")


def good_wildcard(X, sample_domain, *, allow_domains=None, allow_source=True):
    check_consistent_length(X, sample_domain)
    if not allow_source and np.any(sample_domain >= 0):
        raise ValueError("source")
    if allow_domains is not None:
        for d in np.unique(sample_domain):
            wildcard = -np.inf if d < 0 else np.inf
            if not (d in allow_domains or wildcard in allow_domains):
                raise ValueError("unknown")
