from os.path import join
from skada.base import Shared as PerDomain


def good_one():
    return 1


def bad_deleted():
    return 2


del bad_deleted

__all__ = ["good_one", "join", "bad_deleted"]
__all__ += ["PerDomain", "absent_name"]
__all__.append("good_two")
good_two = good_one
