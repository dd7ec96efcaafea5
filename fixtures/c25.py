import os
import shutil
import tarfile
import tempfile
import warnings
import zipfile
from contextlib import contextmanager, suppress
from pathlib import Path

from scipy.io import loadmat
from sklearn.datasets._base import RemoteFileMetadata, _fetch_remote

from skada.datasets._base import get_data_home

_REMOTE = RemoteFileMetadata(filename="a.zip", url="http://a", checksum="abc")
_UNCHECKED = RemoteFileMetadata(filename="a.zip", url="http://a", checksum=None)


@contextmanager
def _stage(home):
    d = tempfile.mkdtemp(dir=home)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _get(remote, where, to):
    path = _fetch_remote(remote, dirname=where)
    with zipfile.ZipFile(path) as z:
        z.extractall(to)
    os.remove(path)


def good_fetch(data_home=None, download_if_missing=True):
    home = get_data_home(data_home)
    final = os.path.join(home, "a")
    if not os.path.exists(final):
        if not download_if_missing:
            raise OSError
        with _stage(home) as d:
            new = os.path.join(d, "a")
            os.makedirs(new)
            _get(_REMOTE, d, new)
            os.rename(new, final)
    return loadmat(os.path.join(final, "x.mat"))


def good_pathlib(data_home=None, download_if_missing=True):
    home = Path(get_data_home(data_home))
    final = home / "a"
    if final.exists():
        return loadmat(final / "x.mat")
    if not download_if_missing:
        raise OSError
    with tempfile.TemporaryDirectory(dir=home) as d:
        new = Path(d) / "a"
        new.mkdir()
        archive = _fetch_remote(_REMOTE, dirname=d)
        with tarfile.open(archive) as t:
            t.extractall(new)
        new.rename(final)
    return loadmat(final / "x.mat")


def good_part(data_home=None, download_if_missing=True):
    home = get_data_home(data_home)
    final = os.path.join(home, "a")
    if not os.path.exists(final) and download_if_missing:
        part = final + ".part"
        shutil.rmtree(part, ignore_errors=True)
        os.makedirs(part)
        try:
            _get(_REMOTE, part, part)
        except OSError:
            shutil.rmtree(part)
            raise
        os.replace(part, final)
    return loadmat(os.path.join(final, "x.mat"))


def good_else(data_home=None, download_if_missing=True):
    home = get_data_home(data_home)
    final = os.path.join(home, "a")
    if not os.path.exists(final) and download_if_missing:
        with _stage(home) as d:
            try:
                _get(_REMOTE, d, d + "/a")
            except OSError as e:
                warnings.warn(str(e))
            else:
                os.rename(d + "/a", final)
    return loadmat(os.path.join(final, "x.mat"))


def bad_direct(data_home=None, download_if_missing=True):
    home = get_data_home(data_home)
    final = os.path.join(home, "a")
    if not os.path.exists(final):
        if not download_if_missing:
            raise OSError
        os.makedirs(final)
        _get(_REMOTE, home, final)
    return loadmat(os.path.join(final, "x.mat"))


def bad_early(data_home=None, download_if_missing=True):
    home = get_data_home(data_home)
    final = os.path.join(home, "a")
    if not os.path.exists(final):
        if not download_if_missing:
            raise OSError
        with _stage(home) as d:
            new = os.path.join(d, "a")
            os.makedirs(new)
            path = _fetch_remote(_REMOTE, dirname=d)
            os.rename(new, final)
            with zipfile.ZipFile(path) as z:
                z.extractall(final)
    return loadmat(os.path.join(final, "x.mat"))


def bad_swallow(data_home=None, download_if_missing=True):
    home = get_data_home(data_home)
    final = os.path.join(home, "a")
    if not os.path.exists(final):
        if not download_if_missing:
            raise OSError
        with _stage(home) as d:
            new = os.path.join(d, "a")
            os.makedirs(new)
            try:
                _get(_REMOTE, d, new)
            except OSError as e:
                warnings.warn(str(e))
            os.rename(new, final)
    return loadmat(os.path.join(final, "x.mat"))


def bad_suppress(data_home=None, download_if_missing=True):
    home = get_data_home(data_home)
    final = os.path.join(home, "a")
    if not os.path.exists(final):
        if not download_if_missing:
            raise OSError
        with _stage(home) as d:
            new = os.path.join(d, "a")
            os.makedirs(new)
            with suppress(OSError):
                _get(_REMOTE, d, new)
            os.rename(new, final)
    return loadmat(os.path.join(final, "x.mat"))


@contextmanager
def _publishing(home, final):
    d = tempfile.mkdtemp(dir=home)
    try:
        yield d
    except OSError:
        warnings.warn("incomplete")


def bad_manager(data_home=None, download_if_missing=True):
    home = get_data_home(data_home)
    final = os.path.join(home, "a")
    if not os.path.exists(final):
        if not download_if_missing:
            raise OSError
        with _publishing(home, final) as d:
            _get(_REMOTE, d, os.path.join(d, "a"))
        os.rename(os.path.join(d, "a"), final)
    return loadmat(os.path.join(final, "x.mat"))


def bad_finally(data_home=None, download_if_missing=True):
    home = get_data_home(data_home)
    final = os.path.join(home, "a")
    if not os.path.exists(final):
        if not download_if_missing:
            raise OSError
        d = tempfile.mkdtemp(dir=home)
        try:
            _get(_REMOTE, d, d)
        finally:
            os.rename(d, final)
    return loadmat(os.path.join(final, "x.mat"))


def bad_elsewhere(data_home=None, download_if_missing=True):
    home = get_data_home(data_home)
    final = os.path.join(home, "a")
    if not os.path.exists(final):
        if not download_if_missing:
            raise OSError
        with tempfile.TemporaryDirectory() as d:
            _get(_REMOTE, d, os.path.join(d, "a"))
            shutil.move(os.path.join(d, "a"), final)
    return loadmat(os.path.join(final, "x.mat"))


def bad_over(data_home=None, download_if_missing=True):
    home = get_data_home(data_home)
    final = os.path.join(home, "a")
    if not os.path.exists(final):
        if not download_if_missing:
            raise OSError
        with _stage(home) as d:
            _get(_REMOTE, d, home)
    return loadmat(os.path.join(final, "x.mat"))


def bad_always(data_home=None, download_if_missing=True):
    home = get_data_home(data_home)
    final = os.path.join(home, "a")
    if not os.path.exists(final):
        with _stage(home) as d:
            new = os.path.join(d, "a")
            _get(_REMOTE, d, new)
            os.rename(new, final)
    return loadmat(os.path.join(final, "x.mat"))


def bad_unchecked(data_home=None, download_if_missing=True):
    home = get_data_home(data_home)
    final = os.path.join(home, "a")
    if not os.path.exists(final):
        if not download_if_missing:
            raise OSError
        with _stage(home) as d:
            new = os.path.join(d, "a")
            _get(_UNCHECKED, d, new)
            os.rename(new, final)
    return loadmat(os.path.join(final, "x.mat"))


def bad_content(data_home=None, download_if_missing=True):
    home = get_data_home(data_home)
    final = os.path.join(home, "a")
    if not os.path.exists(final):
        if not download_if_missing:
            raise OSError
        with _stage(home) as d:
            new = os.path.join(d, "a")
            os.makedirs(new)
            _get(_REMOTE, d, os.path.join(d, "tmp"))
            os.rename(new, final)
    return loadmat(os.path.join(final, "x.mat"))


def bad_home(data_home=None, download_if_missing=True):
    home = get_data_home(None)
    final = os.path.join(home, "a")
    if not os.path.exists(final):
        if not download_if_missing:
            raise OSError
        with _stage(home) as d:
            new = os.path.join(d, "a")
            _get(_REMOTE, d, new)
            os.rename(new, final)
    return loadmat(os.path.join(final, "x.mat"))


def bad_away(data_home=None, download_if_missing=True):
    home = get_data_home(data_home)
    final = os.path.join(home, "a")
    if not os.path.exists(final):
        if not download_if_missing:
            raise OSError
        with _stage(home) as d:
            new = os.path.join(d, "a")
            os.makedirs(new)
            _get(_REMOTE, d, new)
            os.rename(final, new)
    return loadmat(os.path.join(final, "x.mat"))
