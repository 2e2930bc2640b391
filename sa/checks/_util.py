"""Helpers the rules share: queries over paths and value terms."""

from __future__ import annotations

import ast
import typing as t

from ..program import AnalysisError, FuncInfo
from ..state import Ev, Obj, a_eq, a_in, a_isa, a_lt, a_none, a_truthy
from ..terms import FALSE, NONE, TRUE, T, const, glob, mentions, mk, show, walk_term
from ..walk import Path, Walker

PKG = "ansibug"
DAP = "ansibug.dap"
STRAT = "ansible_collections.ansibug.dap.plugins.strategy.debug"
CALLBACK = "ansible_collections.ansibug.dap.plugins.callback.debug"
PU = "ansible_collections.ansibug.dap.plugins.plugin_utils"
ADAPTER = "ansibug._debug_adapter"
DEBUGGEE = "ansibug._debuggee"
MPQ = "ansibug._mp_queue"
SOCK = "ansibug._socket_helper"


def unver(x: t.Any) -> t.Any:
    while isinstance(x, T) and x.k == "ver":
        x = x.a[0]
    return x


_STRIP: dict[T, T] = {}


def plain(x: t.Any) -> t.Any:
    """The term without the versions of what is in it."""
    if isinstance(x, tuple):
        return tuple(plain(i) for i in x)
    if not isinstance(x, T):
        return x
    r = _STRIP.get(x)
    if r is None:
        if x.k == "ver":
            r = plain(x.a[0])
        elif x.k in ("attr", "item", "slice"):
            r = mk(x.k, *[plain(i) for i in x.a[: {"attr": 2, "item": 2, "slice": 3}[x.k]]])
        elif x.k in ("const", "glob", "param", "new", "lit", "single"):
            r = x
        else:
            r = mk(x.k, *[plain(i) for i in x.a])
        _STRIP[x] = r
    return r


def same(a: t.Any, b: t.Any) -> bool:
    return a is b or plain(a) is plain(b)


def is_op(x: t.Any, *names: str) -> bool:
    return isinstance(x, T) and x.k == "op" and x.a[0] in names


def attr_path(x: t.Any) -> tuple[T, list[str]]:
    """The root of an attribute chain and the names leading from it."""
    names: list[str] = []
    x = unver(x)
    while isinstance(x, T) and x.k == "attr":
        names.insert(0, x.a[1])
        x = unver(x.a[0])
    return x, names


def root(x: t.Any) -> t.Any:
    return attr_path(x)[0]


def lin(x: T) -> tuple[int, dict[T, int]]:
    x = unver(x)
    if x.k == "const" and isinstance(x.a[0], int) and not isinstance(x.a[0], bool):
        return x.a[0], {}
    if is_op(x, "sum"):
        d: dict[T, int] = {}
        for k, c in zip(x.a[2::2], x.a[3::2]):
            d[plain(k)] = d.get(plain(k), 0) + c.a[0]
        return x.a[1].a[0], {k: v for k, v in d.items() if v}
    if is_op(x, "neg"):
        c, d = lin(x.a[1])
        return -c, {k: -v for k, v in d.items()}
    return 0, {plain(x): 1}


def lsub(a: tuple, b: tuple) -> tuple[int, dict[T, int]]:
    d = dict(a[1])
    for k, v in b[1].items():
        d[k] = d.get(k, 0) - v
    return a[0] - b[0], {k: v for k, v in d.items() if v}


def ladd(a: tuple, b: tuple) -> tuple[int, dict[T, int]]:
    d = dict(a[1])
    for k, v in b[1].items():
        d[k] = d.get(k, 0) + v
    return a[0] + b[0], {k: v for k, v in d.items() if v}


def facts_ge0(pc: dict[T, bool]) -> list[tuple[int, dict[T, int]]]:
    """The linear forms the path condition says are not negative (over the integers)."""
    res = []
    for k, v in pc.items():
        if is_op(k, "lt"):
            d = lsub(lin(k.a[2]), lin(k.a[1]))
            if v:
                res.append((d[0] - 1, d[1]))
            else:
                res.append((-d[0], {x: -c for x, c in d[1].items()}))
        elif is_op(k, "eq") and v:
            d = lsub(lin(k.a[2]), lin(k.a[1]))
            res.append(d)
            res.append((-d[0], {x: -c for x, c in d[1].items()}))
        elif is_op(k, "truthy") and not v:
            d = lin(k.a[1])
            res.append(d)
            res.append((-d[0], {x: -c for x, c in d[1].items()}))
    return res


def implies_ge0(pc: dict[T, bool], form: tuple[int, dict[T, int]]) -> bool:
    if not form[1]:
        return form[0] >= 0
    return any(f[1] == form[1] and f[0] <= form[0] for f in facts_ge0(pc))


def known_eq(pc: dict[T, bool], x: T, y: T) -> bool | None:
    for k, v in pc.items():
        if is_op(k, "eq") and {plain(k.a[1]), plain(k.a[2])} == {plain(x), plain(y)}:
            return v
    return None


def truth_of(pc: dict[T, bool], x: T) -> bool | None:
    """What the path condition says about a value being true, under its usual spellings."""
    x = plain(x)
    for k, v in pc.items():
        p = plain(k)
        if p is x:
            return v
        if is_op(p, "truthy") and p.a[1] is x:
            return v
        if is_op(p, "isnone") and p.a[1] is x and v:
            return False
        if is_op(p, "eq") and x in p.a[1:]:
            o = p.a[2] if p.a[1] is x else p.a[1]
            if o.k == "const" and isinstance(o.a[0], bool):
                return o.a[0] == v
    return None


def none_of(pc: dict[T, bool], x: T) -> bool | None:
    x = plain(x)
    for k, v in pc.items():
        p = plain(k)
        if is_op(p, "isnone") and p.a[1] is x:
            return v
        if is_op(p, "truthy") and p.a[1] is x and v:
            return False
        if is_op(p, "isa") and p.a[1] is x and v:
            return False
    return None


def has_fact(path: Path | dict, pred: t.Callable[[T, bool], bool]) -> bool:
    pc = path if isinstance(path, dict) else path.pc
    return any(pred(k, v) for k, v in pc.items())


def calls(events: t.Iterable[Ev], *names: str, raised: bool | None = None) -> list[Ev]:
    """Calls of library or program functions by qualified name or last component (suffix match)."""
    res = []
    for e in events:
        if e.kind not in ("call", "new"):
            continue
        if raised is not None and e.raised != raised:
            continue
        if match(e.callee, names):
            res.append(e)
    return res


def match(q: str, names: t.Iterable[str]) -> bool:
    return any(q == n or q.endswith("." + n) for n in names)


def enters(events: t.Iterable[Ev], *names: str) -> list[Ev]:
    return [e for e in events if e.kind == "enter" and match(e.callee, names)]


def did(events: t.Iterable[Ev], *names: str) -> list[Ev]:
    """Calls, inlined or not."""
    return [e for e in events if e.kind in ("call", "new", "enter") and match(e.callee, names)]


def after(path: Path, ev: Ev) -> list[Ev]:
    return path.events[path.index(ev) + 1 :]


def before(path: Path, ev: Ev) -> list[Ev]:
    return path.events[: path.index(ev)]


def sets(events: t.Iterable[Ev], attr: str | None = None, base: T | None = None) -> list[Ev]:
    return [e for e in events if e.kind == "setattr" and (attr is None or e.callee == attr) and (base is None or same(e.recv, base))]


def held(e: Ev) -> list[T]:
    return [plain(x) for x in e.locks]


def returns(paths: list[Path]) -> list[Path]:
    return [p for p in paths if p.flow == "ret"]


def tail(name: str) -> str:
    return name.rsplit(".", 1)[-1]


def thread_targets(paths: list[Path]) -> dict[str, Ev]:
    """The functions that are run as threads, with the event that creates the thread."""
    res: dict[str, Ev] = {}
    for p in paths:
        for e in calls(p.events, "threading.Thread"):
            tg = e.arg(1, "target")
            if tg is not None and tg.k in ("bound", "func"):
                res.setdefault(tg.a[0], e)
            elif tg is not None and tg.k == "glob":
                res.setdefault(tg.a[0], e)
    return res


def message_events(events: t.Iterable[Ev], cls: str) -> list[Ev]:
    return [e for e in events if e.kind == "new" and tail(e.callee) == cls]


def kwargs_of(e: Ev, fields: list[str]) -> dict[str, T]:
    res = dict(zip(fields, e.args))
    res.update(e.kwargs)
    return res


MUTATORS = ("append", "extend", "insert", "pop", "popitem", "remove", "clear", "update", "setdefault", "add", "discard", "sort", "reverse", "__setitem__", "__delitem__", "appendleft", "popleft", "difference_update", "intersection_update")


def functions_of(program, modules: t.Iterable[str]) -> list[FuncInfo]:
    """Every function and method of the modules, dispatch implementations included."""
    res = []
    for f in program.functions.values():
        if f.module.name in modules:
            res.append(f)
    for c in program.classes.values():
        if c.module.name in modules:
            res.extend(f for f in c.all_funcs if f not in res)
    return res


def sites(program, modules: t.Iterable[str], pred: t.Callable[[ast.AST], bool]) -> list[tuple[FuncInfo, ast.AST]]:
    """The nodes of the functions of the modules that the predicate selects, with the outermost function they are in."""
    res = []
    seen: set[int] = set()
    for f in functions_of(program, modules):
        for n in ast.walk(f.node):
            if id(n) not in seen and pred(n):
                seen.add(id(n))
                res.append((f, n))
    return res


def is_call_of(*names: str) -> t.Callable[[ast.AST], bool]:
    def pred(n: ast.AST) -> bool:
        if not isinstance(n, ast.Call):
            return False
        f = n.func
        return (isinstance(f, ast.Attribute) and f.attr in names) or (isinstance(f, ast.Name) and f.id in names)

    return pred


def mutates(attr: str) -> t.Callable[[ast.AST], bool]:
    """Selects the nodes that change an attribute or what it contains."""

    def on(x: ast.AST) -> bool:
        return isinstance(x, ast.Attribute) and x.attr == attr

    def pred(n: ast.AST) -> bool:
        if on(n) and isinstance(n.ctx, (ast.Store, ast.Del)):
            return True
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and on(n.value):
            return True
        return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and on(n.func.value)

    return pred


def visited(paths: t.Iterable[Path]) -> set[tuple[str, int]]:
    """(file, line) of everything that happens on the paths."""
    res = set()
    for p in paths:
        for e in p.events:
            if e.func is not None and hasattr(e.node, "lineno"):
                res.add((e.func.module.rel, e.node.lineno))
    return res


def truthy_or_given(pc: dict, x: T) -> bool | None:
    """Whether an optional object is known to be there."""
    r = truth_of(pc, x)
    if r is not None:
        return r
    n = none_of(pc, x)
    return None if n is None else not n


def isa_of(pc: dict, x: T, cls: str) -> bool | None:
    x = plain(x)
    for k, v in pc.items():
        p = plain(k)
        if is_op(p, "isa") and p.a[1] is x and tail(p.a[2].a[0]) == cls:
            return v
    return None


def obj(e: Ev, idx: int | None, name: str | None = None) -> t.Any:
    """The snapshot of an argument."""
    return e.sarg(idx, name)


def obj_is(x: t.Any, cls: str) -> bool:
    return isinstance(x, Obj) and x.kind == "obj" and tail(x.qual) == cls


LOCK_EVENTS = ("acquire", "release")
LOOP_EVENTS = ("loop", "loopend", "loopbreak", "loopzero")


def slim(chk, func, *, names: t.Iterable[str] = (), attrs: t.Iterable[str] = (), kinds: t.Iterable[str] = LOCK_EVENTS + ("raise",), mode: str = "none", opaque: t.Iterable[str] = (), pred=None, reads: t.Iterable[str] = (), **kw: t.Any) -> list[Path]:
    """The paths of a function as far as the named calls and attributes go; what else they do only counts as conditions."""
    nm, at, kd = frozenset(names), frozenset(attrs), frozenset(kinds)

    def keep(e: Ev) -> bool:
        if e.kind in kd:
            return True
        if e.kind in ("setattr", "delattr", "getattr") and e.callee in at:
            return True
        if e.kind in ("call", "new", "enter"):
            if e.name in nm:
                return True
            if e.recv is not None and e.name in MUTATORS and attr_path(e.recv)[1][-1:] and attr_path(e.recv)[1][-1] in at:
                return True
        if e.kind in ("setitem", "delitem") and e.recv is not None:
            n = attr_path(e.recv)[1]
            if n and n[-1] in at:
                return True
        return pred is not None and pred(e)

    key = (func if isinstance(func, str) else func.qual, id(func) if not isinstance(func, str) else 0, nm, at, kd, mode, tuple(opaque), id(pred) if pred else 0, tuple(reads), str(sorted(kw.items(), key=str)))
    cache = chk._cache
    if pred is None and not kw.get("init") and key in cache:
        return cache[key]
    res = chk.walk(func, raise_mode=mode, opaque=opaque, keep=keep, lossy=True, reads=reads, **kw)
    cache[key] = res
    return res


def enum_member(x: t.Any) -> str | None:
    """The name of an enum member used as a value."""
    x = unver(x)
    if isinstance(x, T) and x.k == "glob":
        return tail(x.a[0])
    return None


def empty_value(x: t.Any) -> bool:
    """A snapshot of an empty container."""
    return isinstance(x, Obj) and x.kind in ("dict", "list") and not x.fields and not x.open


def elem_of(x: t.Any, base: T) -> bool:
    """An element of the container, whichever way it is iterated."""
    x, base = plain(x), plain(base)
    if x.k == "item" and x.a[0] is base:
        return isinstance(x.a[1], T) and x.a[1].k == "elem" and plain(x.a[1].a[0]) is base
    return x.k == "elem" and plain(x.a[0]) is base


def fact_eq(pc: dict, pred_a, pred_b) -> bool | None:
    """What was last learned about the equality of two values that are described by predicates."""
    res = None
    for k, v in pc.items():
        if is_op(k, "eq"):
            a, b = k.a[1], k.a[2]
            if (pred_a(a) and pred_b(b)) or (pred_a(b) and pred_b(a)):
                res = v
    return res


def changes(events: t.Iterable[Ev], attr: str) -> list[tuple[str, T | None, T | None, Ev]]:
    """What happens to a container attribute: (add | remove | replace | other, key, value, event)."""
    res: list[tuple[str, T | None, T | None, Ev]] = []
    given: list[T] = []
    for e in events:
        if e.kind == "setattr" and e.callee == attr:
            res.append(("replace", None, e.args[0], e))
            given.append(unver(e.args[0]))
            continue
        if e.recv is None or attr_path(e.recv)[1][-1:] != [attr] and unver(e.recv) not in given:
            continue
        if e.kind == "setitem":
            res.append(("add", e.args[0], e.args[1], e))
        elif e.kind == "call" and e.name in ("__delitem__", "pop", "remove", "discard", "popleft", "popitem"):
            res.append(("remove", e.arg(0), None, e))
        elif e.kind == "call" and e.name in ("append", "appendleft", "add"):
            res.append(("add", None, e.arg(0), e))
        elif e.kind == "call" and e.name == "insert":
            res.append(("add", e.arg(0), e.arg(1), e))
        elif e.kind == "call" and e.name == "setdefault":
            res.append(("add", e.arg(0), e.arg(1), e))
        elif e.kind == "call" and e.name == "clear":
            res.append(("replace", None, None, e))
        elif e.kind == "call" and e.name in MUTATORS:
            res.append(("other", None, None, e))
    return res


def lines_of(changed: t.Iterable[Ev]) -> set[tuple[str, int]]:
    return {(e.func.module.rel, e.node.lineno) for e in changed if e.func is not None and hasattr(e.node, "lineno")}


def names_in(x: t.Any) -> set[str]:
    """The attribute names a value is computed from."""
    return {y.a[1] for y in walk_term(x) if isinstance(y, T) and y.k == "attr"} if isinstance(x, T) else set()


ITERATED = ("list", "iter", "tuple", "copy", "enumerate", "values", "items", "keys", "sorted", "reversed")


def base_of(x: t.Any) -> t.Any:
    """The container that is iterated, whichever way."""
    while isinstance(x, T) and (x.k == "ver" or is_op(x, *ITERATED)):
        x = x.a[0] if x.k == "ver" else x.a[1]
    return plain(x) if isinstance(x, T) else x


def listing(p: Path, v: T) -> tuple[list[T], list[T], list[Ev]] | None:
    """What a list that is made from the elements of containers is made of: (containers, values, loops or appends)."""
    v = unver(v)
    while is_op(v, "list", "tuple"):
        v = unver(v.a[1])
    if v.k == "comp":
        return None if v.a[3] else ([base_of(x) for x in v.a[2]], [v.a[1]], [])
    adds = [e for e in p.events if e.kind == "call" and e.name in ("append", "add") and e.recv is not None and unver(e.recv) is v]
    if not adds:
        zero = [e for e in p.events if e.kind == "loopzero"]
        return ([base_of(e.recv) for e in zero][:1], [], zero) if zero else None
    if len(adds) != 1:
        return None
    lp = [x for x in p.events if x.kind == "loop" and x.loops == adds[0].loops and x.callee != "comprehension"]
    if not lp or broken(p, lp[-1]):
        return None
    return [base_of(lp[-1].recv)], [adds[0].arg(0)], adds


def broken(p: Path, loop: Ev) -> bool:
    """The loop is left before its end."""
    return any(x.kind == "loopbreak" and x.node is loop.node and p.index(x) > p.index(loop) for x in p.events)


def alternatives(pc: dict, limit: int = 64) -> list[dict]:
    """The facts with the compound ones taken apart."""
    res: list[dict] = [{}]
    for k, v in pc.items():
        ways = _ways(k, v)
        if len(ways) == 1 and k in ways[0] or len(res) * len(ways) > limit:
            ways = [{k: v}]
        res = [{**r, **w} for r in res for w in ways if all(r.get(x, y) is y for x, y in w.items())]
    return res


def _ways(k: T, v: bool) -> list[dict]:
    if is_op(k, "not"):
        return _ways(k.a[1], not v)
    if is_op(k, "and", "or"):
        parts = [_ways(x if isinstance(x, T) and x.k == "op" else mk("op", "truthy", x), v) for x in k.a[1:]]
        if v is is_op(k, "and"):
            res: list[dict] = [{}]
            for p in parts:
                res = [{**a, **b} for a in res for b in p]
            return res[:64]
        return [w for p in parts for w in p]
    if is_op(k, "any") and not v and isinstance(k.a[1], T) and k.a[1].k == "comp" and len(k.a[1].a[3]) == 1:
        return _ways(k.a[1].a[3][0], False)
    return [{k: v}]
