"""Threads: what they wait for while they hold a lock or are waited for (C08), and what they share (C39)."""

from __future__ import annotations

import ast
import typing as t

from ..calls import LOCKS
from ..program import AnalysisError, FuncInfo
from ..report import Check
from ..state import Ev
from ..terms import FALSE, NONE, T, const, show, walk_term
from ..walk import Path
from ._util import (
    ADAPTER,
    CALLBACK,
    DEBUGGEE,
    MPQ,
    SOCK,
    STRAT,
    attr_path,
    functions_of,
    is_call_of,
    is_op,
    plain,
    same,
    sites,
    slim,
    tail,
    unver,
)
from .debuggee import DBG, PID_PATH, QUEUE_INIT, STATE, blocked_requests, config_event, joined, timed_wait

MODULES = (DEBUGGEE, ADAPTER, MPQ, SOCK, STRAT, CALLBACK)
REGISTER = "ansible_collections.ansibug.dap.plugins.plugin_utils._breakpoints.register_block_breakpoints"
SLOW = [REGISTER, PID_PATH, *QUEUE_INIT]

SOCKET_OPS = ("recv", "recv_into", "recvfrom", "recvmsg", "accept", "connect", "connect_ex", "sendall", "sendfile", "sendmsg", "do_handshake", "unwrap")
PROCESS_OPS = ("run", "call", "check_call", "check_output", "wait", "communicate")


def attr_type(p: Path, x: T) -> str | None:
    ty = p.w.typeof(p.state, x)
    return ty[1] if ty is not None and ty[0] == "cls" else None


def declared(chk: Check, cls: str, attr: str) -> str:
    """The class that has the attribute."""
    res = cls
    for q in [*chk.program.mro(cls), *sorted(chk.program.subclasses(cls))]:
        c = chk.program.classes.get(q)
        if c is not None and any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) for f in c.all_funcs for n in ast.walk(f.node)):
            res = q
            if q not in chk.program.mro(cls):
                break
    return res


class Locks:
    """The locks of the program: an attribute of a class is one, however many objects there are."""

    def __init__(self, chk: Check) -> None:
        self.chk = chk
        self.kinds: dict[str, str] = {}
        self.alias: dict[str, str] = {}
        for c in list(chk.program.classes.values()):
            init = c.methods.get("__init__")
            if c.module.name not in MODULES or init is None or not any(is_call_of("Lock", "RLock", "Condition", "Semaphore", "BoundedSemaphore")(n) for n in ast.walk(init.node)):
                continue
            for p in slim(chk, init, kinds=("setattr",), pred=is_lock_made, opaque=SLOW):
                made = {e.res: e for e in p.events if e.kind != "setattr" and e.res is not None}
                at: dict[T, str] = {}
                for e in p.events:
                    v = unver(e.args[0]) if e.kind == "setattr" and e.args else None
                    if v in made:
                        own = e.rtype[1] if e.rtype and e.rtype[0] == "cls" else c.qual
                        name = f"{declared(chk, own, e.callee)}.{e.callee}"
                        at[v] = name
                        self.kinds[name] = tail(made[v].callee)
                        inner = made[v].arg(0, "lock")
                        if self.kinds[name] == "Condition" and inner is not None and inner is not NONE:
                            inner = unver(inner)
                            if inner in at:
                                self.alias[name] = at[inner]
                            elif inner in made:
                                self.kinds[name] = tail(made[inner].callee)
                            else:
                                n = attr_path(inner)[1]
                                if n:
                                    self.alias[name] = f"{declared(chk, own, n[-1])}.{n[-1]}"
        if not self.kinds:
            raise AnalysisError("anchor vanished: the locks")

    def name(self, p: Path, x: T) -> str:
        x = plain(x)
        if x.k == "attr":
            cls = attr_type(p, x.a[0])
            res = f"{declared(self.chk, cls, x.a[1])}.{x.a[1]}" if cls is not None else self.by_attr(x.a[1])
        elif x.k == "glob":
            res = str(x.a[0])
        else:
            res = next((f"{self.by_attr(k[1])}" for k, v in p.state.heap.items() if v is x), show(x))
        return self.alias.get(res, res)

    def by_attr(self, attr: str) -> str:
        got = [k for k in self.kinds if k.endswith(f".{attr}")]
        return got[0] if len(got) == 1 else attr

    def reentrant(self, name: str) -> bool:
        return self.kinds.get(name) in ("RLock", "Condition")


def is_lock_made(e: Ev) -> bool:
    return e.kind in ("call", "new") and e.callee in LOCKS + ("threading.BoundedSemaphore",)


def blocking(e: Ev) -> str | None:
    """What a call may wait for."""
    q, n = e.callee, e.name
    mod = q.split(".")[0]
    if n == "acquire" or e.kind != "call":
        return None
    if mod in ("queue", "multiprocessing") and n in ("get", "join") and e.arg(0, "block") is not FALSE:
        return "a queue"
    if mod in ("threading", "multiprocessing", "concurrent", "subprocess", "asyncio") and n in ("join", "wait", "wait_for", "result", "communicate", "shutdown"):
        return "a thread" if n in ("join", "result") else "a process" if mod == "subprocess" else "an event"
    if mod == "subprocess" and n in PROCESS_OPS:
        return "a process"
    if mod == "select" or n in ("select",) and mod in ("?", "selectors"):
        return "a socket"
    if mod in ("socket", "ssl", "?") and n in SOCKET_OPS or mod in ("socket", "ssl") and n in ("send", "getaddrinfo", "create_connection", "read", "write"):
        return "a socket"
    if q in ("time.sleep", "builtins.input") or q.startswith("sys.stdin"):
        return "its input" if "sleep" not in q else "time to pass"
    if mod == "?" and n == "join" and e.recv is not None and len(e.args) + len(e.kwargs) <= 1 and "thread" in show(e.recv):
        return "a thread"
    if mod == "?" and n == "get" and not e.args and e.recv is not None and "queue" in show(e.recv):
        return "a queue"
    return None


def virtual(chk: Check, e: Ev, pred: t.Callable[[Ev], bool]) -> list[tuple[Path, Ev]]:
    """What a method may do of which there is more than one."""
    owner, _, name = e.callee.rpartition(".")
    if e.kind != "call" or owner not in chk.program.classes or chk.program.find_method(owner, name) is None:
        return []
    key = ("virtual", e.callee, pred)
    if key not in chk._cache:
        chk._cache[key] = res = []
        fs = {f.qual: f for q in sorted(chk.program.subclasses(owner) | {owner}) if (f := chk.program.find_method(q, name)) is not None}
        for f in fs.values():
            for p in slim(chk, f, pred=pred, opaque=SLOW):
                res += [(p, x) for x in p.events]
    return chk._cache[key]


def of_project(e: Ev) -> bool:
    return e.kind == "call" and e.callee.rpartition(".")[0].startswith(MPQ) and bool(e.callee.rpartition(".")[2])


def interesting(e: Ev) -> bool:
    if of_project(e) and e.locks:
        return True
    return blocking(e) is not None or e.kind == "call" and bool(e.locks) and e.callee in ("?", REGISTER) or is_lock_made(e)


def takes_lock(f: FuncInfo, names: set[str]) -> bool:
    """The function may take a lock itself."""
    for n in ast.walk(f.node):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                x = i.context_expr
                if not isinstance(x, ast.Call) or isinstance(x.func, ast.Attribute) and x.func.attr in names or isinstance(x.func, ast.Name) and x.func.id in names:
                    return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("acquire", "enter_context", "__enter__"):
            return True
    own = {getattr(d, "id", getattr(d, "attr", None)) for d in f.node.decorator_list}
    return bool(own & names)


def lock_roots(chk: Check) -> list[FuncInfo]:
    """The functions that take a lock, and the ones that call one which may keep it."""
    funcs = [f for f in functions_of(chk.program, MODULES)]
    names = {f.name for f in funcs if f.cls is not None or f.name}
    res = [f for f in funcs if takes_lock(f, names)]
    keeps = {f.name for f in res if any(is_call_of("acquire")(n) for n in ast.walk(f.node))}
    for f in funcs:
        if f not in res and any(is_call_of(*keeps)(n) for n in ast.walk(f.node) if keeps):
            res.append(f)
    return res


# --- C08 --------------------------------------------------------------------
def c08(chk: Check) -> None:
    """No two threads can wait for each other forever.

    Writing to the standard output is not taken for a wait, nor is what Ansible does to evaluate a template.
    That a blocking socket operation ends once it is cancelled is decided by C07, that the host is resumed by C13 and C16.
    """
    locks = Locks(chk)
    order: dict[tuple[str, str], tuple[Ev, Path]] = {}
    taken = 0
    for f in lock_roots(chk):
        for p in slim(chk, f, pred=interesting, opaque=SLOW):
            for e in p.events:
                if e.kind == "acquire":
                    taken += 1
                    lock_taken(chk, locks, order, p, e)
                elif e.locks and e.kind == "call":
                    under_lock(chk, locks, order, p, e)
    chk.floor(taken, 20, "locks that are taken")
    in_order(chk, order)
    threads(chk)
    blocked_requests(chk, config_event(chk))
    joined(chk, f"{DBG}.shutdown")


def lock_taken(chk: Check, locks: Locks, order: dict, p: Path, e: Ev) -> None:
    """A lock that is taken while others are held."""
    new = locks.name(p, e.recv)
    if e.arg(0, "blocking") is FALSE:
        return
    had = [(locks.name(p, x), x) for x in e.locks]
    again = [x for n, x in had if n == new]
    if again:
        mine = all(same(x, e.recv) or locks.name(p, x) in locks.alias.values() for x in again)
        chk.must(mine and locks.reentrant(new), "not-taken-twice", e, f"{tail(new)} is taken by the thread that holds it", p)
        return
    for n, _ in had:
        order.setdefault((n, new), (e, p))
    chk.must(True, "not-taken-twice", e, "", p)


def under_lock(chk: Check, locks: Locks, order: dict, p: Path, e: Ev) -> None:
    """Something that is done while locks are held."""
    names = {locks.name(p, x) for x in e.locks}
    what = blocking(e)
    if what is not None:
        if tail(e.callee) in ("wait", "wait_for") and e.callee.startswith("threading.Condition"):
            other = names - {locks.name(p, e.recv)}
            chk.must(not other, "no-wait-with-lock", e, f"{', '.join(sorted(map(tail, other)))} is held during the wait for a condition", p)
            return
        chk.must(False, "no-wait-with-lock", e, f"{', '.join(sorted(map(tail, names)))} is held while {what} is waited for", p)
    elif e.callee == REGISTER:
        for q in slim(chk, f"{DBG}.register_path_breakpoint", pred=interesting, opaque=SLOW):
            for x in q.events:
                if x.kind == "acquire":
                    for n in names:
                        new = locks.name(q, x.recv)
                        chk.must(n != new or locks.reentrant(new), "not-taken-twice", e, f"{tail(new)} is taken by the thread that holds it", p)
                        if n != new:
                            order.setdefault((n, new), (e, p))
    elif of_project(e):
        for g, x in virtual(chk, e, interesting):
            what = blocking(x)
            chk.must(what is None, "no-wait-with-lock", e, f"{', '.join(sorted(map(tail, names)))} is held while {what} is waited for", p)
            if x.kind == "acquire":
                new = locks.name(g, x.recv)
                chk.must(new not in names or locks.reentrant(new), "not-taken-twice", e, f"{tail(new)} is taken by the thread that holds it", p)
                for n in names - {new}:
                    order.setdefault((n, new), (e, p))
    elif e.callee == "?":
        for g, c in stored_functions(chk, p, e):
            for x in run(g, c):
                if x.kind == "acquire":
                    new = locks.name(g, x.recv)
                    chk.must(new not in names or locks.reentrant(new), "not-taken-twice", x, f"{tail(new)} is taken by the thread that holds it", g)
                    for n in names - {new}:
                        order.setdefault((n, new), (x, g))
                what = blocking(x)
                chk.must(what is None, "no-wait-with-lock", x, f"{', '.join(sorted(map(tail, names)))} is held while {what} is waited for", g)
    else:
        chk.must(True, "no-wait-with-lock", e, "", p)


def stored_functions(chk: Check, p: Path, e: Ev) -> list[tuple[Path, T]]:
    """The functions that are kept in the attribute a function that is called comes from."""
    x = e.recv
    while isinstance(x, T) and x.k in ("item", "elem", "ver") or is_op(x, "values", "items", "list", "copy", "tuple"):
        x = x.a[1] if x.k == "op" else x.a[0]
    attrs = {x.a[1]} if isinstance(x, T) and x.k == "attr" else set()
    res = []
    for c in chk.program.classes.values():
        if c.module.name not in MODULES:
            continue
        for g in c.all_funcs:
            stores = [n for n in ast.walk(g.node) if isinstance(n, ast.Attribute) and n.attr in attrs]
            params = {a.arg for a in [*g.node.args.posonlyargs, *g.node.args.args, *g.node.args.kwonlyargs]}
            given = {n.id for n in ast.walk(g.node) if isinstance(n, ast.Name) and n.id in params} - {"self"}
            if not stores or not given:
                continue
            for f, _ in sites(chk.program, MODULES, is_call_of(g.name)):
                for q in slim(chk, f, names=(g.name,), kinds=(), opaque=SLOW):
                    for x in q.events:
                        if x.kind in ("call", "enter") and x.name == g.name:
                            res += [(q, v) for v in [*x.args, *x.kwargs.values()] if isinstance(v, T) and v.k in ("closure", "bound", "func")]
    return res


def run(p: Path, func: T) -> list[Ev]:
    """What a function does that was made on a path."""
    s = p.state.copy()
    s.flow, s.trail, s.locks = None, None, ()
    w = p.w
    keep, w.keep = w.keep, None
    try:
        node, fr = w.closures[func] if func in w.closures else (None, None)
        if fr is None:
            from ..exprs import Frame

            fr = Frame(0, None, next(iter(w.program.modules.values())), None, None)
        return [e for s1, _ in w.call_value(s, func, [], {}, node, fr) for e in s1.events()]
    finally:
        w.keep = keep


def in_order(chk: Check, order: dict[tuple[str, str], tuple[Ev, Path]]) -> None:
    """There is one order in which all locks are taken."""
    after: dict[str, set[str]] = {}
    for a, b in order:
        after.setdefault(a, set()).add(b)
    for (a, b), (e, p) in order.items():
        seen: set[str] = set()
        todo = [b]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += after.get(x, ())
        chk.must(a not in seen, "one-order", e, f"{tail(b)} is taken while {tail(a)} is held, and the other way round elsewhere", p)


class Threads:
    """The threads that are made: by the function they run and, for one that receives, who it receives for."""

    def __init__(self, chk: Check) -> None:
        self.chk = chk
        self.at: dict[str, str] = {}  # attribute -> function
        self.targets: set[str] = set()
        for f, _ in sites(chk.program, MODULES, is_call_of("Thread")):
            for p in slim(chk, f, names=("Thread",), kinds=("setattr",), opaque=SLOW):
                made = {}
                for e in p.events:
                    if e.kind != "setattr" and e.callee == "threading.Thread":
                        tg = e.arg(1, "target")
                        if tg is not None and tg.k in ("bound", "func"):
                            made[e.res] = str(tg.a[0])
                            self.targets.add(str(tg.a[0]))
                    elif e.kind == "setattr" and unver(e.args[0]) in made:
                        self.at[e.callee] = made[unver(e.args[0])]
        self.receives = {q for q in self.targets if q.startswith(f"{MPQ}.")}
        base = f"{MPQ}.MPProtocol"
        self.protocols = sorted(q for q in chk.program.subclasses(base))
        self.made: dict[str, dict[str, set[str]]] = {}  # module -> attribute -> protocols
        queues = [tail(q) for q in chk.program.subclasses(f"{MPQ}.MPQueue")]
        for f, _ in sites(chk.program, [m for m in MODULES if m != MPQ], is_call_of(*queues)):
            self.queues_of(f, queues)

    def queues_of(self, f: FuncInfo, queues: list[str]) -> None:
        for p in slim(self.chk, f, names=queues, kinds=("setattr",), opaque=SLOW):
            made: dict[T, str] = {}
            for e in p.events:
                if e.kind in ("new", "call") and e.name in queues and e.res is not None:
                    made[e.res] = self.protocol(p, e.arg(1, "proto")) or ""
                    self.made.setdefault(f.module.name, {}).setdefault("", set()).add(made[e.res])
                elif e.kind == "setattr" and unver(e.args[0]) in made:
                    self.made.setdefault(f.module.name, {}).setdefault(e.callee, set()).add(made[unver(e.args[0])])

    def protocol(self, p: Path, x: T | None) -> str | None:
        if x is None:
            return None
        x = unver(x)
        if x.k in ("glob", "cls", "func"):
            return str(x.a[0]) if str(x.a[0]) in self.protocols else None
        s = p.state.copy()
        s.flow, s.trail = None, None
        if x.k not in ("closure", "bound"):
            return None
        node, fr = p.w.closures.get(x, (None, None))
        for s1, v in p.w.call_value(s, x, [], {}, node, fr):
            ty = p.w.typeof(s1, v)
            if ty is not None and ty[0] == "cls" and ty[1] in self.protocols:
                return str(ty[1])
        return None

    def entries(self) -> dict[str, list[FuncInfo]]:
        """What each thread runs."""
        prog = self.chk.program
        res: dict[str, list[FuncInfo]] = {}
        for q in sorted(self.targets - self.receives):
            res[q] = [prog.func(q)]
        for c in self.protocols:
            fs = [prog.find_method(c, n) for n in ("on_msg_received", "connection_closed")]
            res[f"{c} Recv"] = [f for f in fs if f is not None]
        return res

    def waited_for(self, p: Path, e: Ev, root: FuncInfo) -> set[str]:
        """The threads a join can be for."""
        x = plain(e.recv)
        if not joins(e):
            res = set()
            for q, j in virtual(self.chk, e, joins):
                if joins(j) and not timed_wait(j) and not other_thread(q, j):
                    y = plain(j.recv)
                    if y.k == "attr" and y.a[1] in self.at:
                        res |= self.of(self.at[y.a[1]], x, root)
            return res
        if x.k != "attr":
            return set()
        q = self.at.get(x.a[1])
        if q is None:
            return set()
        return self.of(q, plain(x.a[0]), root)

    def of(self, q: str, of: T, root: FuncInfo) -> set[str]:
        """The threads that run a function for an object."""
        if q not in self.receives:
            return {q}
        here = self.made.get(root.module.name, {})
        protos = here.get(of.a[1]) if of.k == "attr" else None
        if protos is None and of.k == "attr":
            protos = next((m[of.a[1]] for m in self.made.values() if of.a[1] in m), None)
        if protos is None:
            protos = here.get("", set())
        return {f"{c} Recv" for c in (protos if protos and "" not in protos else self.protocols)}


def joins(e: Ev) -> bool:
    return e.kind == "call" and e.name == "join" and (e.callee.startswith("threading.") or blocking(e) == "a thread")


def may_join(e: Ev) -> bool:
    return joins(e) or of_project(e)


def handlers(chk: Check, f: FuncInfo) -> list[FuncInfo]:
    """A function and what it dispatches messages to, itself or in a helper of its own."""
    res = [f]
    todo = [f]
    seen: set[str] = set()
    while todo:
        g = todo.pop()
        if g.qual in seen:
            continue
        seen.add(g.qual)
        named = {n.func.attr for n in ast.walk(g.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}
        for c in chk.program.classes.values():
            if g.cls is not None and c.qual == g.cls.qual:
                todo += [m for m in c.methods.values() if m.name in named and not m.is_singledispatch]
        for c in chk.program.classes.values():
            if c.module.name not in MODULES:
                continue
            for m in c.methods.values():
                if m.is_singledispatch and (c.module is g.module or g.module.name == MPQ) and any(is_call_of(m.name)(n) for n in ast.walk(g.node)):
                    for h in c.dispatch_table(m.name).values():
                        if h not in res:
                            res.append(h)
                            todo.append(h)
    return res


def threads(chk: Check) -> None:
    """No thread is waited for by itself or by one it waits for."""
    th = Threads(chk)
    waits: dict[tuple[str, str], tuple[Ev, Path]] = {}
    n = 0
    for name, fs in th.entries().items():
        for f in fs:
            for g in handlers(chk, f):
                for p in slim(chk, g, pred=may_join, kinds=(), opaque=SLOW):
                    for e in p.events:
                        if not may_join(e) or joins(e) and timed_wait(e) or other_thread(p, e):
                            continue
                        got = th.waited_for(p, e, g)
                        n += bool(got)
                        for x in got:
                            waits.setdefault((name, x), (e, p))
    chk.floor(len(th.targets), 2, "functions that are run as threads")
    chk.floor(n, 1, "threads that wait for another")
    after: dict[str, set[str]] = {}
    for a, b in waits:
        after.setdefault(a, set()).add(b)
    for (a, b), (e, p) in waits.items():
        seen: set[str] = set()
        todo = [b]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += after.get(x, ())
        chk.must(a not in seen, "no-self-join", e, f"the thread {tail(a)} waits for {'itself' if a == b else 'one that waits for it'}", p)


def other_thread(p: Path, e: Ev) -> bool:
    """The thread that waits is known to be another one."""
    return any(is_op(k, "eq") and not v and "current_thread" in show(k) and tail(show(plain(e.recv))) in show(k) for k, v in e.pc.items())
