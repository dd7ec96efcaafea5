import warnings

import numpy as np
import torch
from scipy.optimize import minimize


def good_else(x, tol=1e-6, max_iter=100):
    for _ in range(max_iter):
        old = x
        x = x / 2
        if np.abs(x - old) < tol:
            break
    else:
        warnings.warn("not converged")
    return x


def good_last(x, tol=1e-6, max_iter=100):
    losses = []
    for i in range(max_iter):
        x = x / 2
        losses.append(x)
        if i > 0 and abs(losses[-1] - losses[-2]) < tol:
            break
        if i == max_iter - 1:
            warnings.warn("not converged")
    return x


def good_flag(x, tol=1e-6, max_iter=100, verbose=False):
    converged = False
    for _ in range(max_iter):
        old, x = x, x / 2
        change = np.linalg.norm(x - old)
        if verbose:
            print(change)
        if change <= tol:
            converged = True
            break
    if not converged:
        warnings.warn("not converged")
    return x


def good_assigned(x, tol=1e-6, max_iter=100):
    converged = False
    for _ in range(max_iter):
        old, x = x, x / 2
        converged = np.linalg.norm(x - old) < tol
        if converged:
            break
    if not converged:
        warnings.warn("not converged")
    return x


def good_while(x, tol=1e-6, max_iter=100):
    change, it = np.inf, 0
    while change > tol and it < max_iter:
        old, x = x, x / 2
        change = abs(x - old)
        it += 1
    if change > tol:
        warnings.warn("not converged")
    return x


def good_returned(x, tol=1e-6, max_iter=100):
    converged = False
    for _ in range(max_iter):
        old, x = x, x / 2
        if abs(x - old) < tol:
            converged = True
            break
    return x, converged


def _close(a, b, tol):
    return np.abs(a - b) < tol


def _tell(done):
    if not done:
        warnings.warn("not converged")


def good_helpers(x, tol=1e-6, max_iter=100):
    done = False
    for _ in range(max_iter):
        old, x = x, x / 2
        if _close(x, old, tol):
            done = True
            break
    _tell(done)
    return x


def good_no_break(x, tol=1e-6, max_iter=100):
    done = False
    i = 0
    while not done and i < max_iter:
        old, x = x, x / 2
        done = abs(x - old) < tol
        i += 1
    if not done:
        warnings.warn("not converged")
    return x


def bad_silent(x, tol=1e-6, max_iter=100):
    for _ in range(max_iter):
        old, x = x, x / 2
        if abs(x - old) < tol:
            break
    return x


def bad_always(x, tol=1e-6, max_iter=100):
    for _ in range(max_iter):
        old, x = x, x / 2
        if abs(x - old) < tol:
            break
    warnings.warn("not converged")
    return x


def bad_inverted(x, tol=1e-6, max_iter=100):
    converged = False
    for _ in range(max_iter):
        old, x = x, x / 2
        if abs(x - old) < tol:
            converged = True
            break
    if converged:
        warnings.warn("not converged")
    return x


def bad_last_turn(x, tol=1e-6, max_iter=100):
    for i in range(max_iter):
        old, x = x, x / 2
        if abs(x - old) < tol:
            break
    if i == max_iter - 1:
        warnings.warn("not converged")
    return x


def bad_off_by_one(x, tol=1e-6, max_iter=100):
    for i in range(max_iter):
        old, x = x, x / 2
        if abs(x - old) < tol:
            break
        if i == max_iter:
            warnings.warn("not converged")
    return x


def bad_before(x, tol=1e-6, max_iter=100):
    for i in range(max_iter):
        old, x = x, x / 2
        if i == max_iter - 1:
            warnings.warn("not converged")
        if abs(x - old) < tol:
            break
    return x


def bad_signed(x, tol=1e-6, max_iter=100):
    for _ in range(max_iter):
        old, x = x, x / 2
        if x - old < tol:
            break
    else:
        warnings.warn("not converged")
    return x


def bad_start(x, tol=1e-6, max_iter=100):
    last = -2 * tol
    for _ in range(max_iter):
        x = x / 2
        if last == 0 or abs(last - x) / last < tol:
            break
        last = x
    else:
        warnings.warn("not converged")
    return x


def bad_count(x, tol=1e-6, max_iter=100):
    change, it = np.inf, 0
    while change > tol and it < max_iter:
        old, x = x, x / 2
        change = abs(x - old)
        it += 1
    if it == max_iter:
        warnings.warn("not converged")
    return x


def good_scipy(f, x0):
    r = minimize(f, x0)
    if not r.success:
        warnings.warn(r.message)
    return r.x


def bad_scipy(f, x0):
    r = minimize(f, x0)
    return r.x


def bad_scipy_inverted(f, x0):
    r = minimize(f, x0)
    if r.success:
        warnings.warn(r.message)
    return r.x


def good_torch(loss, x, tol=1e-6):
    o = torch.optim.LBFGS([x], tolerance_grad=tol)
    o.step(loss)
    g = x.grad.abs().max()
    if g > tol:
        warnings.warn("not converged")
    return x


def bad_torch(loss, x, tol=1e-6):
    o = torch.optim.LBFGS([x], tolerance_grad=tol)
    o.step(loss)
    g = x.grad.abs().max()
    if g < tol:
        warnings.warn("not converged")
    return x


def _optimum(f, x0):
    return minimize(f, x0)


def good_caller(f, x0):
    r = _optimum(f, x0)
    if not r.success:
        warnings.warn(r.message)
    return r.x
