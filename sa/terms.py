"""Value numbering: interned terms for the values the dataflow analysis tracks."""

from __future__ import annotations

import typing as t


class T:
    """An interned term, two terms are the same value if they are the same object."""

    __slots__ = ("k", "a", "n")

    def __init__(self, k: str, a: tuple, n: int) -> None:
        self.k = k
        self.a = a
        self.n = n

    def __repr__(self) -> str:
        return f"<{show(self)}>"


_TABLE: dict[tuple, T] = {}
_UID = 0


def mk(k: str, *a: t.Any) -> T:
    key = (k, tuple((type(x).__name__, x) if isinstance(x, (bool, int, float, str, bytes)) else x for x in a))
    res = _TABLE.get(key)
    if res is None:
        res = _TABLE[key] = T(k, a, len(_TABLE))
    return res


def fresh() -> int:
    global _UID
    _UID += 1
    return _UID


def const(v: t.Any) -> T:
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def glob(q: str) -> T:
    return mk("glob", q)


def is_const(x: T) -> bool:
    return x.k == "const"


def show(x: t.Any, depth: int = 0) -> str:
    """A readable, version free form of a term."""
    if depth > 12:
        return "..."
    if isinstance(x, tuple):
        return "(" + ", ".join(show(i, depth + 1) for i in x) + ")"
    if not isinstance(x, T):
        return str(x)

    def sh(i: t.Any) -> str:
        return show(i, depth + 1)

    k, a = x.k, x.a
    if k == "const":
        return repr(a[0])
    if k == "glob":
        return a[0].rsplit(".", 2)[-1] if a[0].count(".") < 2 else ".".join(a[0].rsplit(".", 2)[-2:])
    if k in ("param", "hav"):
        return a[0] if k == "param" else f"{a[0]}~"
    if k == "attr":
        return f"{sh(a[0])}.{a[1]}"
    if k == "item":
        return f"{sh(a[0])}[{sh(a[1])}]"
    if k == "slice":
        return f"{sh(a[0])}[{'' if a[1] is NONE else sh(a[1])}:{'' if a[2] is NONE else sh(a[2])}]"
    if k == "call":
        callee, recv, args, kwargs = a[:4]
        name = callee.rsplit(".", 1)[-1]
        inner = [sh(i) for i in args] + [f"{n}={sh(v)}" for n, v in kwargs]
        return f"{sh(recv) + '.' if recv is not None else ''}{name}({', '.join(inner)})"
    if k == "new":
        return f"{a[0].rsplit('.', 1)[-1]}#{a[1]}"
    if k == "single":
        return a[0].rsplit(".", 1)[-1]
    if k == "elem":
        return f"each({sh(a[0])})"
    if k == "op":
        if len(a) == 3:
            return f"({sh(a[1])} {a[0]} {sh(a[2])})"
        return f"{a[0]}({', '.join(sh(i) for i in a[1:])})"
    if k == "cat":
        return "cat(" + ", ".join(sh(i) for i in a) + ")"
    if k in ("bound", "func"):
        return a[0].rsplit(".", 1)[-1]
    if k == "lit":
        return f"{a[0]}#{a[1]}"
    return f"{k}({', '.join(sh(i) for i in a)})"


def walk_term(x: t.Any) -> t.Iterator[T]:
    """All sub terms of a term."""
    seen = set()
    todo = [x]
    while todo:
        c = todo.pop()
        if isinstance(c, (tuple, list)):
            todo.extend(c)
        elif isinstance(c, T):
            if c in seen:
                continue
            seen.add(c)
            yield c
            todo.extend(c.a)


def mentions(x: t.Any, sub: T) -> bool:
    return any(i is sub for i in walk_term(x))
