"""What threads share, and what each of them does to it (C39)."""

from __future__ import annotations

import ast
import dataclasses
import typing as t

from ..program import AnalysisError, FuncInfo
from ..report import Check
from ..state import Ev
from ..terms import T, show, walk_term
from ..walk import Path
from ._util import ADAPTER, CALLBACK, DEBUGGEE, MUTATORS, SOCK, STRAT, attr_path, base_of, is_op, plain, same, slim, tail, unver
from .concurrency import SLOW, Locks, Threads, attr_type, handlers
from .debuggee import DBG

WRAPS = ("list", "tuple", "sorted", "set", "frozenset", "copy", "dict", "str", "len", "sum", "min", "max", "join")
GROW = ("append", "extend", "insert", "add", "setdefault", "update", "appendleft", "__setitem__")
SHRINK = ("pop", "popitem", "remove", "clear", "discard", "popleft", "__delitem__", "difference_update", "intersection_update")
INNER = ("get", "setdefault", "item")


@dataclasses.dataclass
class Use:
    """Something a thread does to an attribute."""

    side: str
    what: str  # loop, read, getitem, grow, shrink, other, replace
    locks: frozenset
    ev: Ev
    path: Path
    owner: T
    inner: bool = False  # to something it contains
    value: T | None = None


@dataclasses.dataclass
class Attr:
    """An attribute that threads may share: what it is from the start."""

    cls: str
    name: str
    kind: str  # map, list, value

    def __str__(self) -> str:
        return f"{tail(self.cls)}.{self.name}"


def attributes(chk: Check, modules: t.Iterable[str]) -> list[Attr]:
    res: dict[tuple[str, str], Attr] = {}
    for c in chk.program.classes.values():
        init = c.methods.get("__init__") if c.module.name in modules else None
        for n in ast.walk(init.node) if init is not None else ():
            tg, v = (n.targets[0], n.value) if isinstance(n, ast.Assign) else (n.target, n.value) if isinstance(n, ast.AnnAssign) else (None, None)
            if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name):
                k = kind_of(v)
                if k is not None:
                    res.setdefault((c.qual, tg.attr), Attr(c.qual, tg.attr, k))
    return list(res.values())


def kind_of(v: ast.AST | None) -> str | None:
    """What an attribute holds that is given this value."""
    if isinstance(v, ast.Call):
        n = v.func.attr if isinstance(v.func, ast.Attribute) else getattr(v.func, "id", "")
        return {"dict": "map", "OrderedDict": "map", "defaultdict": "map", "set": "map", "list": "list", "deque": "map", "bytearray": "value", "bytes": "value"}.get(n)
    if isinstance(v, (ast.Dict, ast.Set, ast.DictComp, ast.SetComp)):
        return "map"
    if isinstance(v, (ast.List, ast.ListComp)):
        return "list"
    if isinstance(v, ast.Constant) and isinstance(v.value, (bool, int, bytes, str)):
        return "value"
    if isinstance(v, ast.Attribute) and v.attr.isupper():
        return "value"
    return None


def threads_of(chk: Check) -> list[tuple[tuple[str, ...], bool, dict[str, list[FuncInfo]]]]:
    """The functions that run at the same time, by thread: (modules, whether a thread can be there twice, functions)."""
    prog = chk.program
    th = Threads(chk)
    play: list[FuncInfo] = []
    for m in (STRAT, CALLBACK):
        for c in prog.classes.values():
            if c.module.name == m and tail(c.qual) in ("StrategyModule", "CallbackModule"):
                play += [f for f in c.methods.values() if f.name != "__init__"]
    called = {n.attr if isinstance(n, ast.Attribute) else n.id for f in play for n in ast.walk(f.node) if isinstance(n, (ast.Attribute, ast.Name))}
    called.add("register_path_breakpoint")
    parts = [
        f
        for c in prog.classes.values()
        if c.module.name in (DEBUGGEE, STRAT) and tail(c.qual) not in ("StrategyModule", "DebugState")
        for f in c.methods.values()
        if f.name in called and not f.name.startswith("__")
    ]
    play += [f for f in parts if f not in play]
    recv, out = [], []
    ent = th.entries()
    for name, fs in ent.items():
        if name.startswith(f"{DEBUGGEE}.") and name.endswith(" Recv"):
            for f in fs:
                recv += handlers(chk, f)
        elif name.startswith(f"{ADAPTER}.") and name.endswith(" Recv"):
            out += fs
    send = [f for q, fs in ent.items() if q.startswith(f"{DEBUGGEE}.") and not q.endswith(" Recv") for f in fs]
    srv = prog.cls(f"{ADAPTER}.DAServer")
    stdin = [g for n in ("start", "__exit__") for g in handlers(chk, srv.methods[n])]
    token = prog.cls(f"{SOCK}.SocketCancellationToken")
    tok = {f.name: [f] for f in token.methods.values() if not f.name.startswith("_")}
    chk.parts = [f.qual for f in parts]
    chk.floor(len(play), 8, "functions of the thread of the playbook")
    chk.floor(len(recv), 14, "functions of the thread of the requests")
    chk.floor(len(stdin), 4, "functions of the thread of the client")
    return [
        ((DEBUGGEE, STRAT), False, {"the playbook": play, "a request": recv, "the send thread": send}),
        ((ADAPTER, "ansibug.dap._adapter"), False, {"the client": stdin, "the debuggee": out}),
        ((SOCK,), True, tok),
    ]


def inner_of(x: T) -> tuple[T, bool]:
    """The attribute something is in, or is."""
    deep = False
    x = unver(x)
    while True:
        if x.k == "item" or is_op(x, "get", "setdefault"):
            x, deep = unver(x.a[0] if x.k == "item" else x.a[1]), True
        else:
            return x, deep


def uses(chk: Check, locks: Locks, side: str, f: FuncInfo, at: Attr) -> t.Iterator[list[Use]]:
    """What each path of a function does to an attribute, in order."""
    given: set[T] = set()

    def owner(x: T | None) -> tuple[T, bool] | None:
        if x is None:
            return None
        x, deep = inner_of(x)
        if x in given:
            return x, deep
        return (x, deep) if x.k == "attr" and x.a[1] == at.name else None

    def wanted(e: Ev) -> bool:
        if e.kind in ("acquire", "release"):
            return True
        if e.kind == "setattr":
            if e.callee == at.name:
                given.add(unver(e.args[0]))
                return True
            return False
        if e.kind in ("getattr", "getitem"):
            return e.callee == at.name
        if e.kind == "loop":
            return owner(base_of(e.recv)) is not None
        if e.kind in ("setitem", "delitem") or e.kind == "call" and e.name in MUTATORS:
            return owner(e.recv) is not None
        return False

    parts = [q for q in chk.parts if q != f.qual]
    for p in slim(chk, f, attrs=(), kinds=(), pred=wanted, reads=(at.name,), opaque=[*SLOW, *parts]):
        res: list[Use] = []
        own: dict[T, T] = {}
        for e in p.events:
            if e.kind in ("acquire", "release"):
                continue
            deep, value = False, None
            if e.kind in ("setattr", "getattr"):
                base, what = e.recv, "replace" if e.kind == "setattr" else "read"
                if e.kind == "setattr":
                    value = e.args[0]
                    own[unver(value)] = base
            else:
                x = owner(base_of(e.recv) if e.kind == "loop" else e.recv)
                if x is None:
                    continue
                x, deep = x
                base = x.a[0] if x.k == "attr" else own.get(x)
                what = e.kind if e.kind in ("loop", "getitem") else "grow" if e.kind == "setitem" or e.name in GROW else "shrink" if e.name in SHRINK or e.kind == "delitem" else "other"
                if what == "loop" and snapshot(e.recv):
                    continue  # The copy was made where it was read.
            if base is None or unver(base).k == "new":
                continue
            cls = attr_type(p, base)
            if cls is not None and at.cls not in chk.program.mro(cls) and at.cls not in chk.program.subclasses(cls):
                continue
            res.append(Use(side, what, frozenset(locks.name(p, y) for y in e.locks), e, p, plain(base), deep, value))
        if res:
            yield res


def snapshot(x: T) -> bool:
    """A loop that is not disturbed by changes of what it is over."""
    x = unver(x)
    while is_op(x, "enumerate", "reversed", "values", "items", "keys", "iter") or x.k == "ver":
        x = x.a[0] if x.k == "ver" else x.a[1]
    return is_op(x, *WRAPS) or x.k in ("comp", "lit", "cat", "slice")


def changed(u: Use) -> bool:
    return u.what in ("grow", "shrink", "other", "replace")


def blind(u: Use) -> bool:
    """Everything is dropped."""
    return u.what == "replace" and u.value is not None and unver(u.value).k in ("lit", "const")


class Names:
    """The attributes a function may use, whatever it calls by the name."""

    def __init__(self, chk: Check) -> None:
        self.at: dict[str, set[str]] = {}
        funcs = [*chk.program.functions.values(), *(f for c in chk.program.classes.values() for f in c.all_funcs)]
        for f in funcs:
            own = names_of(f)
            for n in {f.name, tail(f.qual), f.cls.name if f.cls is not None and f.name == "__init__" else f.name}:
                self.at[n] = self.at.get(n, set()) | own
        self.done: dict[int, set[str]] = {}

    def of(self, f: FuncInfo) -> set[str]:
        if id(f) not in self.done:
            seen: set[str] = set()
            todo = [*names_of(f), "__enter__", "__exit__"]
            while todo:
                n = todo.pop()
                if n not in seen:
                    seen.add(n)
                    todo += self.at.get(n, ())
            self.done[id(f)] = seen
        return self.done[id(f)]


def names_of(f: FuncInfo) -> set[str]:
    return {n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(f.node) if isinstance(n, (ast.Attribute, ast.Name))}


def c39(chk: Check) -> None:
    """What threads share is only changed safely.

    A single operation on a built-in container is atomic; a request for what the playbook just removed is refused.
    """
    locks = Locks(chk)
    names = Names(chk)
    n = {"shared": 0, "loops": 0, "updates": 0, "lookups": 0}
    for modules, twice, group in threads_of(chk):
        for at in attributes(chk, modules):
            stories = [us for side, fs in group.items() for f in fs if at.name in names.of(f) for us in uses(chk, locks, side, f, at)]
            every = {(u.side, u.what, u.inner, u.locks, u.ev.loc): u for us in stories for u in us}
            if not any(changed(u) for u in every.values()):
                continue
            n["shared"] += 1

            def others(u: Use) -> list[Use]:
                return [o for o in every.values() if o.side != u.side or twice]

            for us in stories:
                for i, u in enumerate(us):
                    if u.what == "loop":
                        n["loops"] += 1
                        undisturbed(chk, at, u, others(u))
                    elif u.what == "getitem":
                        n["lookups"] += 1
                        found(chk, at, u, others(u))
                    elif changed(u):
                        n["updates"] += 1
                        not_lost(chk, at, us[:i], u, others(u))
                        at_once(chk, locks, at, us[i + 1 :], u, others(u))
    chk.floor(n["shared"], 12, "attributes that are changed by threads")
    chk.floor(n["updates"], 20, "changes of what threads share")
    chk.floor(n["loops"], 3, "loops over what threads share")
    registered_first(chk)


def undisturbed(chk: Check, at: Attr, u: Use, others: list[Use]) -> None:
    """What is looped over is not changed in the meantime."""
    for o in others:
        if o.what in ("grow", "shrink", "other") and not o.inner and (at.kind == "map" or o.what != "grow" or o.ev.name == "insert"):
            chk.must(bool(u.locks & o.locks), "safe-iteration", u.ev, f"{at} is changed by {o.side} while {u.side} goes through it", u.path)
    chk.must(True, "safe-iteration", u.ev, "", u.path)


def found(chk: Check, at: Attr, u: Use, others: list[Use]) -> None:
    """What was listed is still there when it is looked up."""
    key = u.ev.args[0]
    if at.kind != "map" or not any(isinstance(x, T) and x.k in ("elem", "each") for x in walk_term(key)):
        return
    for o in others:
        if o.what in ("shrink", "other") and not o.inner:
            chk.must(bool(u.locks & o.locks), "found", u.ev, f"an entry of {at} is removed by {o.side} before {u.side} looks it up", u.path)


def not_lost(chk: Check, at: Attr, had: list[Use], u: Use, others: list[Use]) -> None:
    """A change that depends on what was there is not made on top of another one."""
    if at.kind == "value":
        used = [r for r in had if r.what in ("read", "getitem", "loop") and same(r.owner, u.owner)]
        if u.what != "replace" and not used:
            used = [u]
    else:
        if u.what != "replace" or u.value is None or not any(isinstance(x, T) and x.k == "attr" and x.a[1] == at.name for x in walk_term(plain(u.value))):
            return
        used = [r for r in had if r.what in ("read", "loop")]
    if not used:
        return
    kept = frozenset.intersection(u.locks, *[r.locks for r in used[-1:]])
    for o in others:
        if changed(o) and not (at.kind != "value" and blind(o)):
            chk.must(bool(kept & o.locks), "no-lost-update", u.ev, f"a change of {at} by {o.side} is lost or read twice", u.path)


def at_once(chk: Check, locks: Locks, at: Attr, later: list[Use], u: Use, others: list[Use]) -> None:
    """What is changed in steps is not seen in between."""
    if at.kind == "value":
        return
    if u.inner:
        nxt = [x for x in later if x.inner and changed(x) and x.ev.recv is not None and u.ev.recv is not None and same(x.ev.recv, u.ev.recv)]
    elif u.side == "a request" and u.what in ("shrink", "replace"):
        nxt = [x for x in later if x.what in ("grow", "other") and not x.inner]
    else:
        return
    for x in nxt[:1]:
        a, b = u.path.index(u.ev), u.path.index(x.ev)
        let_go = {locks.name(u.path, e.recv) for e in u.path.events[a:b] if e.kind == "release"}
        kept = (u.locks & x.locks) - let_go
        for o in others:
            if not (changed(o) and not o.inner and blind(o)):
                chk.must(bool(kept & o.locks), "no-half-update", u.ev, f"{at} is used by {o.side} ({tail(o.ev.func.qual)}) while {u.side} has only changed a part of it", u.path)


def registered_first(chk: Check) -> None:
    """What another thread removes for each entry of a list is there before it is on the list."""
    strat = [f for c in chk.program.classes.values() if c.module.name == STRAT for f in c.methods.values()]
    pairs: set[tuple[str, str]] = set()

    def removal(e: Ev) -> bool:
        if e.kind != "call" and e.kind != "delitem" or e.name not in ("pop", "__delitem__") or e.recv is None or len(e.args) > 1:
            return False
        k = e.arg(0)
        return k is not None and any(isinstance(x, T) and x.k in ("elem", "each") for x in walk_term(k))

    for f in strat:
        if not any(isinstance(n, ast.Delete) or isinstance(n, ast.Attribute) and n.attr == "pop" for n in ast.walk(f.node)):
            continue
        for p in slim(chk, f, kinds=(), pred=removal, opaque=SLOW):
            for e in p.events:
                m, k = attr_path(e.recv)[1], e.arg(0)
                of = next((attr_path(base_of(x.a[0]))[1] for x in walk_term(plain(k)) if isinstance(x, T) and x.k in ("elem", "each")), [])
                if m and of and m[-1:] != ["threads"]:
                    pairs.add((m[-1], of[-1]))
    n = 0
    for m, li in pairs:
        for f in strat:
            if not any(isinstance(x, ast.Attribute) and x.attr in ("append", "insert") and isinstance(x.value, ast.Attribute) and x.value.attr == li for x in ast.walk(f.node)):
                continue
            for p in slim(chk, f, attrs=(m, li), kinds=(), opaque=SLOW):
                for e in p.events:
                    if e.kind == "call" and e.name in ("append", "insert") and attr_path(e.recv)[1][-1:] == [li]:
                        n += 1
                        k = e.args[-1]
                        had = [x for x in p.events if p.index(x) < p.index(e) and x.kind == "setitem" and attr_path(x.recv)[1][-1:] == [m] and same(x.args[0], k)]
                        chk.must(bool(had), "registered-first", e, f"something is on {li} that is not in {m} yet", p)
    chk.floor(n, 1, "entries that another thread removes")
