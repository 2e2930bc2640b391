"""The abstract state of the dataflow analysis: values, facts, locks and the event trail."""

from __future__ import annotations

import typing as t

from .terms import NONE, T, const, glob, is_const, mk, show


class Ev:
    """Something the analysed code does, in the order it does it."""

    __slots__ = (
        "kind", "callee", "recv", "args", "kwargs", "res", "node", "func", "locks", "stack", "pc", "sargs", "skw",
        "raised", "loops", "rtype", "kept", "again",
    )

    def __init__(self, kind: str, callee: str, recv: T | None, args: tuple, kwargs: tuple, res: T | None, node, func, locks, stack, pc) -> None:
        self.kind = kind
        self.callee = callee
        self.recv = recv
        self.args = args
        self.kwargs = dict(kwargs)
        self.res = res
        self.node = node
        self.func = func
        self.locks = locks
        self.stack = stack
        self.pc = pc
        self.sargs: tuple = ()
        self.skw: dict = {}
        self.raised = False
        self.loops: tuple = ()
        self.rtype = None
        self.kept = True
        self.again: frozenset | None = None

    @property
    def name(self) -> str:
        return self.callee.rsplit(".", 1)[-1]

    @property
    def loc(self) -> str:
        line = getattr(self.node, "lineno", 0)
        return f"{self.func.module.rel}:{line} ({self.func.qual})" if self.func else f"line {line}"

    def arg(self, idx: int | None, name: str | None = None) -> T | None:
        if name is not None and name in self.kwargs:
            return self.kwargs[name]
        if idx is not None and idx < len(self.args):
            return self.args[idx]
        return None

    def sarg(self, idx: int | None, name: str | None = None) -> t.Any:
        if name is not None and name in self.skw:
            return self.skw[name]
        if idx is not None and idx < len(self.sargs):
            return self.sargs[idx]
        return None

    def __repr__(self) -> str:
        r = f"{show(self.recv)}" if self.recv is not None else ""
        kw = "".join(f", {k}={show(v)}" for k, v in self.kwargs.items())
        return f"{self.kind}:{self.callee}[{r}]({', '.join(show(a) for a in self.args)}{kw}){' !raises' if self.raised else ''}"


class Obj:
    """A snapshot of the content of an object or literal container when it was used."""

    __slots__ = ("kind", "term", "qual", "fields", "open")

    def __init__(self, kind: str, term: T, qual: str, fields: t.Any, open: bool = False) -> None:
        self.kind = kind  # obj, list, dict
        self.term = term
        self.qual = qual
        self.fields = fields
        self.open = open

    def get(self, name: str, default: t.Any = None) -> t.Any:
        if self.kind == "dict":
            for k, v in self.fields:
                if isinstance(k, T) and k.k == "const" and k.a[0] == name:
                    return v
            return default
        return self.fields.get(name, default)

    def __repr__(self) -> str:
        if self.kind == "obj":
            return f"{self.qual.rsplit('.', 1)[-1]}({', '.join(f'{k}={v}' for k, v in self.fields.items())})"
        if self.kind == "dict":
            return "{" + ", ".join(f"{k}: {v}" for k, v in self.fields) + ("..." if self.open else "") + "}"
        return "[" + ", ".join(str(f) for f in self.fields) + ("..." if self.open else "") + "]"


# --- atoms -----------------------------------------------------------------
def a_truthy(x: T) -> T:
    return mk("op", "truthy", x)


def a_none(x: T) -> T:
    return mk("op", "isnone", x)


def a_eq(x: T, y: T) -> T:
    if y.n < x.n:
        x, y = y, x
    return mk("op", "eq", x, y)


def a_lt(x: T, y: T) -> T:
    return mk("op", "lt", x, y)


def a_in(x: T, y: T) -> T:
    return mk("op", "in", x, y)


def a_isa(x: T, q: str) -> T:
    return mk("op", "isa", x, glob(q))


def neg(x: T) -> T:
    if x.k == "const":
        return const(not x.a[0])
    if x.k == "op" and x.a[0] == "not":
        return x.a[1]
    return mk("op", "not", x)


BOOL_OPS = ("not", "and", "or", "truthy", "isnone", "eq", "lt", "in", "isa", "cond", "any", "all", "bool")
NON_NULL = ("new", "lit", "single", "func", "bound", "closure", "glob", "cat", "tuple", "comp", "gen", "elem_idx", "partial")


def bump(v: t.Any) -> t.Any:
    return v + 1 if isinstance(v, int) else (*v[:2], v[2] + 1)


class State:
    __slots__ = ("env", "heap", "items", "cont", "pc", "isa", "trail", "locks", "flow", "epoch", "aver", "cver", "loops", "kver")

    def __init__(self) -> None:
        self.env: dict = {}
        self.heap: dict = {}
        self.items: dict = {}
        self.cont: dict = {}
        self.pc: dict[T, bool] = {}
        self.isa: dict = {}
        self.trail: tuple | None = None
        self.locks: tuple = ()
        self.flow: tuple | None = None
        self.epoch = 0
        self.aver: dict = {}
        self.cver: dict = {}
        self.kver: dict = {}
        self.loops: tuple = ()

    def copy(self) -> State:
        n = State.__new__(State)
        n.env = dict(self.env)
        n.heap = dict(self.heap)
        n.items = dict(self.items)
        n.cont = dict(self.cont)
        n.pc = self.pc
        n.isa = self.isa
        n.trail = self.trail
        n.locks = self.locks
        n.flow = self.flow
        n.epoch = self.epoch
        n.aver = dict(self.aver)
        n.cver = dict(self.cver)
        n.kver = self.kver
        n.loops = self.loops
        return n

    def same_but_pc(self, o: State) -> bool:
        return (
            self.trail is o.trail
            and self.flow == o.flow
            and self.locks == o.locks
            and self.epoch == o.epoch
            and self.env == o.env
            and self.heap == o.heap
            and self.items == o.items
            and self.cont == o.cont
            and self.aver == o.aver
            and self.cver == o.cver
            and self.loops == o.loops
        )

    def events(self) -> list[Ev]:
        res = []
        cur = self.trail
        while cur is not None:
            cur, ev = cur
            res.append(ev)
        res.reverse()
        return res
