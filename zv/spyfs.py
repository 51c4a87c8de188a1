"""File systems reporting each of their modifications to a hook.

The hook is called before a modification with (operation, path); it may record
it, or raise: the modification then has no effect.  Classes and state live at
module level, because the tasks executed by the Dask workers are pickled.
"""
from __future__ import annotations

import contextlib
import os
import shutil
import threading

from fsspec.implementations.local import LocalFileSystem
from fsspec.implementations.memory import MemoryFileSystem

from . import env

_hook = None
_guard = threading.Lock()
_real_move = shutil.move
_real_rmtree = shutil.rmtree


def _tell(op: str, path) -> None:
    if _hook is not None:
        with _guard:
            hook = _hook
            if hook is not None:
                hook(op, path)


class SpyMemory(MemoryFileSystem):
    protocol = 'memory'
    cachable = True

    def pipe_file(self, path, value, **kwargs):
        # open() tells it
        return super().pipe_file(path, value, **kwargs)

    def _open(self, path, mode='rb', *args, **kwargs):
        if mode != 'rb':
            _tell('write', self._strip_protocol(path))
        return super()._open(path, mode, *args, **kwargs)

    def cp_file(self, path1, path2, **kwargs):
        _tell('copy', self._strip_protocol(path2))
        return super().cp_file(path1, path2, **kwargs)

    def _rm(self, path):
        _tell('remove', self._strip_protocol(path))
        return super()._rm(path)

    def rmdir(self, path):
        _tell('rmdir', self._strip_protocol(path))
        return super().rmdir(path)

    def mkdir(self, path, create_parents=True, **kwargs):
        path = self._strip_protocol(path)
        if not self.exists(path):
            _tell('mkdir', path)
        return super().mkdir(path, create_parents, **kwargs)


class SpyLocal(LocalFileSystem):
    protocol = ('file', 'local')
    cachable = True

    def _open(self, path, mode='rb', *args, **kwargs):
        if mode not in ('r', 'rb'):
            _tell('write', self._strip_protocol(path))
        return super()._open(path, mode, *args, **kwargs)

    def cp_file(self, path1, path2, **kwargs):
        _tell('copy', self._strip_protocol(path2))
        return super().cp_file(path1, path2, **kwargs)

    def rm_file(self, path):
        _tell('remove', self._strip_protocol(path))
        return super().rm_file(path)

    def rm(self, path, recursive=False, maxdepth=None):
        for item in path if isinstance(path, list) else [path]:
            _tell('remove', self._strip_protocol(item))
        return super().rm(path, recursive=recursive, maxdepth=maxdepth)

    def rmdir(self, path):
        _tell('rmdir', self._strip_protocol(path))
        return super().rmdir(path)

    def mkdir(self, path, create_parents=True, **kwargs):
        return super().mkdir(path, create_parents, **kwargs)

    def makedirs(self, path, exist_ok=False):
        path = self._strip_protocol(path)
        if not os.path.exists(path):
            _tell('mkdir', path)
        return super().makedirs(path, exist_ok=exist_ok)

    def mv_file(self, path1, path2, **kwargs):
        _tell('move', self._strip_protocol(path2))
        return super().mv_file(path1, path2, **kwargs)


def _move(src, dst, *args, **kwargs):
    _tell('move', os.fspath(dst))
    return _real_move(src, dst, *args, **kwargs)


class SpyPlace(env.Place):
    """Place whose file system reports its modifications."""

    def __init__(self, kind='memory'):
        super().__init__(kind)
        self.fs = SpyMemory() if kind == 'memory' else SpyLocal()


@contextlib.contextmanager
def watching(hook):
    """Call hook(operation, path) before each modification."""
    global _hook
    shutil.move = _move
    _hook = hook
    try:
        yield
    finally:
        _hook = None
        shutil.move = _real_move
