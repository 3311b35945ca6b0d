"""A new process starts with fresh module level state.

All simulated processes live in one interpreter.  What the code keeps in modules, classes,
default arguments and function caches would survive a simulated restart, or leak from one
run into the next; a real process loses it.  `remember()` notes that state once, right
after everything is imported, `reset()` puts it back."""
import importlib
import pkgutil
import sys
import types

_PLAIN = (bool, int, float, str, bytes, tuple, frozenset, type(None))
_STATE = []
_CACHES = []
_NAMES = []
_done = False


def _copy(x):
    if type(x) is dict:
        return {k: _copy(v) for k, v in x.items()}
    if type(x) is list:
        return [_copy(v) for v in x]
    if type(x) is set:
        return set(x)
    return x


def _restore(x, saved):
    """Give the container `x` back its content, keeping its identity and that of its parts."""
    if type(x) is dict:
        parts = dict(x)
        x.clear()
        for k, v in saved.items():
            x[k] = _part(parts.get(k), v)
    elif type(x) is list:
        parts = list(x) + [None] * len(saved)
        x[:] = [_part(parts[i], v) for i, v in enumerate(saved)]
    else:
        x.clear()
        x.update(saved)


def _part(old, saved):
    if type(saved) not in (dict, list, set):
        return saved
    if type(old) is type(saved):
        _restore(old, saved)
        return old
    return _copy(saved)


def _own(mod):
    return isinstance(mod, str) and (mod == "oidcop" or mod.startswith("oidcop."))


def _holder(obj, seen):
    """A module or class: its attributes and what they contain."""
    if id(obj) in seen:
        return
    seen.add(id(obj))
    _NAMES.append((obj, frozenset(vars(obj))))
    for name, val in list(vars(obj).items()):
        if name.startswith("__") and name.endswith("__"):
            continue
        if type(val) in (dict, list, set):
            _STATE.append((obj, name, val, _copy(val)))
        elif isinstance(val, _PLAIN):
            _STATE.append((obj, name, val, None))
        elif isinstance(val, type):
            if _own(getattr(val, "__module__", "")):
                _holder(val, seen)
        else:
            fn = val
            if isinstance(fn, (staticmethod, classmethod)):
                fn = fn.__func__
            elif isinstance(fn, property):
                fn = fn.fget
            while fn is not None and id(fn) not in seen:
                seen.add(id(fn))
                if hasattr(fn, "cache_clear") and _own(getattr(fn, "__module__", "")):
                    _CACHES.append(fn)
                if isinstance(fn, types.FunctionType) and _own(fn.__module__):
                    for d in list(fn.__defaults__ or ()) + list(
                            (fn.__kwdefaults__ or {}).values()):
                        if type(d) in (dict, list, set):
                            _STATE.append((None, None, d, _copy(d)))
                    if vars(fn):
                        _holder(fn, seen)
                fn = getattr(fn, "__wrapped__", None)
            if not callable(val) and _own(getattr(type(val), "__module__", "")) and \
                    hasattr(val, "__dict__"):
                _holder(val, seen)


def remember():
    global _done
    if _done:
        return
    _done = True
    import oidcop
    for m in pkgutil.walk_packages(oidcop.__path__, "oidcop."):
        if ".scripts" in m.name or m.name.endswith("__main__"):
            continue
        try:
            importlib.import_module(m.name)
        except Exception:       # needs something that is not installed
            pass
    seen = set()
    for name, mod in sorted(sys.modules.items()):
        if _own(name) and isinstance(mod, types.ModuleType):
            _holder(mod, seen)


def _extra(holder, names):
    if len(vars(holder)) <= len(names):
        return {}
    return {n: v for n, v in vars(holder).items() if n not in names and (
        isinstance(v, _PLAIN) or type(v) in (dict, list, set))}


def capture():
    """What the running process has in its modules now."""
    return ([(vars(h).get(n) if h is not None else v, v, _copy(v) if s is not None else None)
             for h, n, v, s in _STATE],
            [(h, _extra(h, names)) for h, names in _NAMES if len(vars(h)) > len(names)])


def install(cap):
    for holder, names in _NAMES:
        for name in _extra(holder, names):
            delattr(holder, name)
    for (holder, name, _, _), (now, val, saved) in zip(_STATE, cap[0]):
        if holder is not None and vars(holder).get(name) is not now:
            setattr(holder, name, now)
        if saved is not None:
            _restore(val, saved)
    for holder, extra in cap[1]:
        for name, val in extra.items():
            setattr(holder, name, val)


FRESH = []


def reset():
    """A process that has just started."""
    remember()
    if not FRESH:
        FRESH.append(([(v, v, s) for h, n, v, s in _STATE], []))
    install(FRESH[0])
    for c in _CACHES:
        c.cache_clear()


class Process:
    """The modules of one of two processes that live at the same time."""

    def __init__(self):
        self.mine = None

    def __enter__(self):
        self.other = capture()
        if self.mine is None:
            reset()
        else:
            install(self.mine)

    def __exit__(self, *exc):
        self.mine = capture()
        install(self.other)
