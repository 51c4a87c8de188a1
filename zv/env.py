"""Process environment of a check: import path, scratch space, Dask client.

Everything here is set up before zcollection is imported.  The code under test
is always the working tree designated by ZV_REPO (default /repo).
"""
from __future__ import annotations

import atexit
import contextlib
import itertools
import logging
import os
import pathlib
import shutil
import sys
import tempfile
import types
import warnings

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = os.environ.get('ZV_REPO', '/repo')

_cache: dict = {}
_clients: list = []
BASE = (1, 1, 'inproc')
_scratch = None
_counter = itertools.count()


def setup() -> None:
    """Prepare sys.path and import the code under test."""
    for item in (str(VERIF / 'vendor'), REPO):
        if item in sys.path:
            sys.path.remove(item)
        sys.path.insert(0, item)
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    # version.py is generated by the build and ignored by git.
    if not os.path.exists(os.path.join(REPO, 'zcollection', 'version.py')):
        stub = types.ModuleType('zcollection.version')
        stub.release = lambda full=True: '0.0.0'
        stub.date = lambda: '1 January 2000'
        stub.__version__ = stub.version = '0.0.0'
        sys.modules['zcollection.version'] = stub
    warnings.simplefilter('ignore')
    logging.getLogger('distributed').setLevel(logging.CRITICAL + 1)
    logging.getLogger('asyncio').setLevel(logging.CRITICAL + 1)
    import dask
    dask.config.set({
        'distributed.admin.tick.interval': '1h',
        'distributed.worker.profile.enabled': False,
        'distributed.worker.memory.target': False,
        'distributed.worker.memory.spill': False,
        'distributed.worker.memory.pause': False,
        'distributed.worker.memory.terminate': False,
        'distributed.admin.log-length': 0,
        'distributed.comm.timeouts.connect': '120s',
        'distributed.scheduler.worker-ttl': None,
    })
    import zcollection
    got = os.path.realpath(os.path.dirname(zcollection.__file__))
    want = os.path.realpath(os.path.join(REPO, 'zcollection'))
    if got != want:
        raise RuntimeError(f'zcollection imported from {got}, not {want}')


def _make(workers: int, threads: int, protocol: str):
    import dask.distributed
    options = {} if protocol == 'inproc' else {'protocol': 'tcp'}
    return dask.distributed.Client(processes=False,
                                   n_workers=workers,
                                   threads_per_worker=threads,
                                   dashboard_address=None,
                                   **options)


def client():
    """In-process Dask cluster: one worker with one thread, unless another
    one is in use (see cluster)."""
    return _clients[-1] if _clients else cluster_of(*BASE)


def cluster_of(workers: int, threads: int, protocol: str):
    key = (workers, threads, protocol)
    if key not in _cache:
        _cache[key] = _make(*key)
    return _cache[key]


@contextlib.contextmanager
def cluster(workers: int, threads: int, protocol: str = 'inproc'):
    """Use a cluster of this shape; the clusters are kept."""
    from distributed.client import _set_global_client
    before = client()
    this = cluster_of(workers, threads, protocol)
    _clients.append(this)
    # The threads of the workers use the global client.
    _set_global_client(this)
    try:
        with this.as_current():
            yield this
    finally:
        _clients.pop()
        _set_global_client(before)


def close_client() -> None:
    for item in _cache.values():
        try:
            other = item.cluster
            item.close()
            other.close()
        except Exception:  # noqa: BLE001 - shutting down
            pass
    _cache.clear()
    _clients.clear()


def scratch() -> str:
    """Private scratch directory of this process, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='zv_')
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


class Place:
    """A fresh location on one of the file systems; removed by close()."""

    def __init__(self, kind: str = 'memory'):
        import fsspec
        self.kind = kind
        name = f'zv{os.getpid()}n{next(_counter)}'
        if kind == 'memory':
            self.fs = fsspec.filesystem('memory')
            self.root = f'/{name}'
        else:
            self.fs = fsspec.filesystem('file')
            self.root = os.path.join(scratch(), name)
        self.fs.makedirs(self.root, exist_ok=True)

    def path(self, *parts: str) -> str:
        return '/'.join((self.root, ) + parts)

    def snapshot(self, path: str | None = None) -> dict[str, bytes]:
        """Content of every file below path."""
        base = path or self.root
        return {
            name[len(base):] if name.startswith(base) else name:
            self.fs.cat_file(name)
            for name in self.fs.find(base)
        }

    def restore(self, snapshot: dict[str, bytes], path: str) -> None:
        """Put back the files of a snapshot of path, and only these."""
        if self.fs.exists(path):
            self.fs.rm(path, recursive=True)
        self.fs.makedirs(path, exist_ok=True)
        for name, data in snapshot.items():
            parent = (path + name).rsplit('/', 1)[0]
            self.fs.makedirs(parent, exist_ok=True)
            self.fs.pipe_file(path + name, data)

    def dirs(self, path: str | None = None) -> set[str]:
        base = path or self.root
        found = set()
        for info in self.fs.ls(base, detail=True):
            if info['type'] == 'directory':
                found.add(info['name'].rstrip('/').rsplit('/', 1)[-1])
        return found

    def close(self) -> None:
        try:
            self.fs.rm(self.root, recursive=True)
        except FileNotFoundError:
            pass
        if self.kind == 'memory':
            prefix = self.root
            store, pseudo = self.fs.store, self.fs.pseudo_dirs
            for key in [k for k in store if k.startswith(prefix + '/')]:
                del store[key]
            pseudo[:] = [k for k in pseudo
                         if k != prefix and not k.startswith(prefix + '/')]
        else:
            shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()
