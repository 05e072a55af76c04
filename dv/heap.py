"""Heap snapshots for loop frames and for operand-purity contracts."""
from __future__ import annotations

import numpy as np

from .core import Ctx, SymBool, SymNum, Sym, UNDEF, Unsupported

MAXNODES = 20000


def _is_obj(x):
    """instances of classes defined in shadow modules"""
    return getattr(type(x), "__module__", "").startswith("dataprofiler") and hasattr(x, "__dict__")


class Snap:
    def __init__(self):
        self.nodes = {}    # id -> (obj, path, content)
        self.paths = {}    # slot path -> (container, accessor)

    def get(self, p):
        return _read(*self.paths[p])


def _read(cont, acc):
    k, key = acc
    if k == "attr":
        return cont.__dict__.get(key, UNDEF)
    if k == "item":
        try:
            return dict.__getitem__(cont, key) if isinstance(cont, dict) else cont[key]
        except (KeyError, IndexError):
            return UNDEF
    if k == "self":
        return cont
    raise AssertionError(k)


def read(snap, p):
    return _read(*snap.paths[p])


def content(x):
    """shallow fingerprint by identity"""
    if hasattr(x, "_dv_content"):
        return x._dv_content()
    if _is_obj(x):
        return tuple((k, _key(v)) for k, v in x.__dict__.items())
    if isinstance(x, dict):
        return tuple((_key(k), _key(v)) for k, v in dict.items(x))
    if isinstance(x, (list, tuple)):
        return tuple(_key(v) for v in list.__iter__(x)) if isinstance(x, list) else tuple(_key(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return frozenset(_key(v) for v in x)
    if isinstance(x, np.ndarray):
        return (x.shape, str(x.dtype), x.tobytes() if x.dtype != object else tuple(_key(v) for v in x.ravel()))
    return None


def _key(v):
    if isinstance(v, (int, float, str, bool, type(None), np.generic, bytes)):
        return ("v", type(v).__name__, repr(v))
    if isinstance(v, (SymNum, SymBool)):
        return ("s", v.e.get_id(), type(v).__name__)
    return ("i", id(v))


def _children(x):
    if hasattr(x, "_dv_content"):
        ch = getattr(x, "_dv_children", None)
        return ch() if ch else []
    if _is_obj(x):
        return [(("attr", k), v) for k, v in x.__dict__.items()]
    if isinstance(x, dict):
        return [(("item", k), v) for k, v in dict.items(x)]
    if isinstance(x, (list, tuple)):
        return [(("item", i), v) for i, v in enumerate(list.__iter__(x) if isinstance(x, list) else x)]
    return []


def snapshot(roots):
    s = Snap()
    work = []
    for n, v in roots.items():
        if n.startswith("__dv"):
            continue
        work.append((n, v))
    for g in Ctx.cur.run.__dict__.get("ghosts", {}).items():
        work.append((f"ghost:{g[0]}", g[1]))
    while work:
        path, x = work.pop()
        if isinstance(x, (Sym, int, float, str, bytes, type(None), type)) and not hasattr(x, "_dv_content"):
            continue
        c = content(x)
        if c is None:
            continue
        if id(x) in s.nodes:
            continue
        s.nodes[id(x)] = (x, path, c)
        if len(s.nodes) > MAXNODES:
            Ctx.cur.stop(Unsupported("heap too large to frame"))
        if hasattr(x, "_dv_content"):
            s.paths[path] = (x, ("self", None))
        for acc, v in _children(x):
            p = f"{path}.{acc[1]}" if acc[0] == "attr" else f"{path}[{acc[1]!r}]"
            s.paths.setdefault(p, (x, acc))
            work.append((p, v))
    return s


def resnapshot(s):
    t = Snap()
    t.paths = s.paths
    for i, (x, path, c) in s.nodes.items():
        t.nodes[i] = (x, path, content(x))
    return t


def changed(s):
    """slot paths whose value differs from the snapshot"""
    out = []
    for i, (x, path, c) in s.nodes.items():
        now = content(x)
        if now == c:
            continue
        if hasattr(x, "_dv_content"):
            out.append(path)
            continue
        if _is_obj(x) or isinstance(x, dict):
            a, b = dict(c), dict(now)
            if set(a) != set(b):
                if isinstance(x, dict) or True:
                    Ctx.cur.stop(Unsupported(f"{path}: keys change inside a symbolic loop ({type(x).__name__})"))
            for k in b:
                if a[k] != b[k]:
                    key = k if _is_obj(x) else next(kk for kk in dict.keys(x) if _key(kk) == k)
                    p = f"{path}.{key}" if _is_obj(x) else f"{path}[{key!r}]"
                    out.append(p)
        else:
            Ctx.cur.stop(Unsupported(f"{path}: {type(x).__name__} mutated inside a symbolic loop"))
    return out


def havoc_slot(loop, p, v):
    cont, acc = loop.heap0.paths[p]
    if acc[0] == "self":
        cont._dv_havoc(loop, p)
        return cont
    f = loop.fresh_like(v, p)
    if acc[0] == "attr":
        cont.__dict__[acc[1]] = f
    else:
        if isinstance(cont, dict):
            dict.__setitem__(cont, acc[1], f)
        else:
            list.__setitem__(cont, acc[1], f)
    return f


def same_opaque(a, b):
    if a is b:
        return True
    try:
        if type(a) is type(b) and isinstance(a, (str, bytes, int, float, bool)):
            return a == b
    except Exception:
        return False
    return False
