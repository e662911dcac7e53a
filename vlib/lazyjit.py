"""Compile graphix's eagerly-typed numba kernels on first use instead of at import.

``graphix`` decorates its kernels with ``@numba.njit("<signature>", ...)``, which
compiles every kernel at import (about 25 s here).  This shim keeps the very same
signature and options and only *defers* the compilation to the first call, so a
check that never touches a kernel does not pay for it.  It changes no behaviour:
once compiled, the call goes to the real numba dispatcher.
"""

from __future__ import annotations

import functools
import threading

import numba

_REAL_NJIT = numba.njit
_LOCK = threading.RLock()
ALL: list["LazyKernel"] = []


class LazyKernel:
    def __init__(self, fn, args, kwargs):
        self._fn = fn
        self._args = args
        self._kwargs = kwargs
        self._real = None
        functools.update_wrapper(self, fn)
        ALL.append(self)

    def resolve(self):
        if self._real is None:
            with _LOCK:
                if self._real is None:
                    g = self._fn.__globals__
                    for name in self._fn.__code__.co_names:
                        dep = g.get(name)
                        if isinstance(dep, LazyKernel):
                            g[name] = dep.resolve()
                    self._real = _REAL_NJIT(*self._args, **self._kwargs)(self._fn)
        return self._real

    def __call__(self, *a, **k):
        return self.resolve()(*a, **k)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.resolve(), name)


def _njit(*args, **kwargs):
    # Only the "explicit string signature" form is deferred; any other use is passed through.
    if len(args) == 1 and isinstance(args[0], str):
        return lambda fn: LazyKernel(fn, args, kwargs)
    return _REAL_NJIT(*args, **kwargs)


def install():
    numba.njit = _njit


def warm(*names):
    """Compile the named kernels now (in the parent, before forking)."""
    for k in ALL:
        if not names or k.__name__ in names:
            k.resolve()
