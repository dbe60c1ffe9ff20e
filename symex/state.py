"""What a new process would find: module and class level state of the framework.

`fresh()` puts the data held by the framework's modules, classes and default
arguments back to what it was after import, and empties its caches.  Every path
starts so, and harnesses use it where one history is compared with another in
a process of its own.
"""
import collections
import sys
import types

import numpy as np

PACKAGE = "wfa_planning_evaluation_framework"
PLAIN = (type(None), bool, int, float, str, tuple)
_kept = None


def _containers(v, out, seen):
    """Containers reachable through containers, each with a shallow copy."""
    if id(v) in seen:
        return
    if isinstance(v, dict):
        seen.add(id(v))
        out.append((v, dict(v)))
        for x in list(v.values()):
            _containers(x, out, seen)
    elif isinstance(v, (list, collections.deque)):
        seen.add(id(v))
        out.append((v, list(v)))
        for x in v:
            _containers(x, out, seen)
    elif isinstance(v, set):
        seen.add(id(v))
        out.append((v, set(v)))
    elif isinstance(v, tuple):
        seen.add(id(v))
        for x in v:
            _containers(x, out, seen)
    elif type(v) is np.ndarray and v.dtype != object:
        seen.add(id(v))
        out.append((v, v.copy()))
    elif isinstance(v, np.random.Generator):
        seen.add(id(v))
        out.append((v, v.bit_generator.state))


def _functions(v):
    if isinstance(v, (staticmethod, classmethod)):
        v = v.__func__
    if isinstance(v, property):
        return [f for f in (v.fget, v.fset) if f is not None]
    return [v]


def _take():
    out, names, caches, seen = [], [], [], set()
    todo = [m for n, m in list(sys.modules.items()) if m is not None and (n == PACKAGE or n.startswith(PACKAGE + "."))]
    done = set()
    while todo:
        o = todo.pop()
        if id(o) in done:
            continue
        done.add(id(o))
        d = dict(vars(o))
        data = {}
        for n, v in d.items():
            if n.startswith("__") and n.endswith("__") and n != "__new__":
                continue
            if isinstance(v, type):
                if getattr(v, "__module__", "").startswith(PACKAGE):
                    todo.append(v)
                continue
            if isinstance(v, types.ModuleType):
                continue
            if isinstance(v, PLAIN) or isinstance(v, (dict, list, set, collections.deque)):
                data[n] = v
            _containers(v, out, seen)
            for f in _functions(v):
                if hasattr(f, "cache_clear"):
                    caches.append(f)
                    f = getattr(f, "__wrapped__", f)
                if isinstance(f, types.FunctionType):
                    _containers(f.__defaults__ or (), out, seen)
                    _containers(f.__kwdefaults__ or {}, out, seen)
                    for c in f.__closure__ or ():
                        try:
                            _containers(c.cell_contents, out, seen)
                        except ValueError:
                            pass
                    a = {k: x for k, x in vars(f).items() if k != "__wrapped__"}
                    if a:
                        _containers(vars(f), out, seen)
        names.append((o, data, set(d)))
    return out, names, caches


def fresh():
    global _kept
    if _kept is None:
        _kept = _take()
    out, names, caches = _kept
    for o, data, all_names in names:
        d = vars(o)
        for n, v in data.items():
            if d.get(n, o) is not v:
                setattr(o, n, v)
        if len(d) != len(all_names):
            for n in [n for n, v in list(d.items()) if n not in all_names and (isinstance(v, PLAIN) or isinstance(v, (dict, list, set, collections.deque)))]:
                if not (n.startswith("__") and n.endswith("__")) and not n.startswith("_abc_"):
                    delattr(o, n)
    for v, c in out:
        if isinstance(v, np.random.Generator):
            v.bit_generator.state = c
        elif isinstance(v, np.ndarray):
            v[...] = c
        elif isinstance(v, dict):
            if v.keys() != c.keys() or any(v[k] is not c[k] for k in c):
                v.clear()
                v.update(c)
        elif isinstance(v, set):
            if v != c:
                v.clear()
                v.update(c)
        elif len(v) != len(c) or any(x is not y for x, y in zip(v, c)):
            v.clear()
            v.extend(c)
    for f in caches:
        f.cache_clear()
