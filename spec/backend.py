"""Required behaviour of the choice of backend (analysed, never run)."""
from sympl import DataArray, StateBackend, get_backend, set_backend
from sympl._core import backend as be


def got_backend_choice(backend: 'any'):
    """C23 | at=sympl.set_backend inline=sympl.get_backend glob=_core.backend._current_backend"""
    set_backend(backend)
    return get_backend()


def want_backend_choice(backend: 'any'):
    if not isinstance(backend, StateBackend):
        raise TypeError()
    be._current_backend = backend
    return backend


def got_backend_last(first: 'any', second: 'any'):
    """C23 | at=sympl.set_backend inline=sympl.get_backend glob=_core.backend._current_backend"""
    set_backend(first)
    before = get_backend()
    set_backend(second)
    return before, get_backend()


def want_backend_last(first: 'any', second: 'any'):
    if not isinstance(first, StateBackend):
        raise TypeError()
    be._current_backend = first
    if not isinstance(second, StateBackend):
        raise TypeError()
    be._current_backend = second
    return first, second


def got_backend_get():
    """C23 | at=sympl.get_backend inline=sympl.get_backend glob=_core.backend._current_backend"""
    return get_backend()


def want_backend_get():
    return be._current_backend
