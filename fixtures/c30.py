from sklearn.pipeline import Pipeline

from skada.base import BaseSelector, PerDomain, Shared


class Nested(Pipeline):
    """A pipeline made before, for the scenes of the rule."""

    def __init__(self, steps):
        self.steps = steps

    def __getitem__(self, i):
        return self.steps[i][1]


def good_factory(*steps, memory=None, verbose=False, default_selector="shared", mask_target_labels=True):
    flat = []
    for s in steps:
        own, est = (None, s) if not isinstance(s, tuple) else s
        if isinstance(est, Pipeline):
            for k, v in est.steps:
                v._unmark_as_final()
                flat += [(k if own is None else own + "__" + k, v)]
            continue
        flat += [(own, est)]
    out = []
    for i, (own, est) in enumerate(flat):
        if getattr(est, "predicts_target_labels", False):
            mask_target_labels = False
        if not isinstance(est, BaseSelector):
            if callable(default_selector):
                est = default_selector(est, mask_target_labels=mask_target_labels)
            else:
                kind = {"shared": Shared, "per_domain": PerDomain}[default_selector]
                est = kind(est, mask_target_labels=mask_target_labels)
        out.append((own or f"{type(est.base_estimator).__name__.lower()}-{i}", est))
    out[-1][1]._mark_as_final()
    return Pipeline(out, memory=memory, verbose=verbose)


def bad_order(*steps, memory=None, verbose=False):
    out = [(f"step-{i}", Shared(s[1] if isinstance(s, tuple) else s)) for i, s in enumerate(reversed(steps))]
    out[-1][1]._mark_as_final()
    return Pipeline(out, memory=memory, verbose=verbose)


def bad_unwrapped(*steps, memory=None, verbose=False):
    out = [(f"step-{i}", s if i == 0 else Shared(s)) for i, s in enumerate(steps) if not isinstance(s, tuple)]
    return Pipeline(out, memory=memory, verbose=verbose)


def bad_final(*steps, memory=None, verbose=False):
    out = []
    for i, s in enumerate(steps):
        out.append((f"step-{i}", Shared(s)._mark_as_final()))
    return Pipeline(out, memory=memory, verbose=verbose)


def bad_names(*steps, memory=None, verbose=False):
    out = [(type(s).__name__.lower(), Shared(s)) for s in steps if not isinstance(s, tuple)]
    return Pipeline(out, memory=memory, verbose=verbose)


def bad_masks(*steps, memory=None, verbose=False, mask_target_labels=True):
    out = []
    for i, s in enumerate(steps):
        name, s = s if isinstance(s, tuple) else (None, s)
        out.append((name or f"{type(s).__name__.lower()}-{i}", Shared(s, mask_target_labels=mask_target_labels)))
        if getattr(s, "predicts_target_labels", False):
            mask_target_labels = False
    return Pipeline(out, memory=memory, verbose=verbose)
