"""The walker: all paths of a function, its callees included, over the abstract state."""

from __future__ import annotations

import typing as t

from .calls import CLS, Calls
from .exprs import Exprs, Frame
from .facts import Facts
from .flow import Flow
from .lib import Lib
from .program import AnalysisError, FuncInfo, Program, Type
from .state import Ev, Obj, State
from .stmts import Stmts
from .terms import NONE, T, const, fresh, glob, mk, show, walk_term


class Path:
    """One path class through a function and everything it calls."""

    def __init__(self, w: Walker, s: State, value: T) -> None:
        self.w = w
        self.state = s
        self.events: list[Ev] = s.events()
        self.pc = s.pc
        self.flow = s.flow[0] if s.flow else "ret"
        self.exc = s.flow[1] if s.flow and s.flow[0] == "raise" else None
        self.value = value

    def known(self, atom: T) -> bool | None:
        return self.w.known(self.state, atom)

    def calls(self, *names: str) -> list[Ev]:
        return [e for e in self.events if e.kind in ("call", "new") and (e.callee in names or e.name in names)]

    def index(self, ev: Ev) -> int:
        return next(i for i, e in enumerate(self.events) if e is ev)

    def conditions(self) -> str:
        return conditions(self.pc)

    def __repr__(self) -> str:
        return f"<path {self.flow} {show(self.value)} if {self.conditions()}>"


def conditions(pc: dict, limit: int = 8) -> str:
    res = [("" if v else "not ") + show(k) for k, v in pc.items()]
    return " and ".join(res[:limit]) + (" ..." if len(res) > limit else "")


class Walker(Facts, Exprs, Calls, Lib, Stmts, Flow):
    def __init__(
        self,
        program: Program,
        *,
        opaque: t.Iterable[str] = (),
        raise_mode: str = "try",
        inline_dispatch: bool = False,
        fork: t.Iterable[str] = (),
        noraise: t.Iterable[str] = (),
        pure: t.Iterable[str] = (),
        cap: int = 6000,
        keep: t.Callable[[Ev], bool] | None = None,
        lossy: bool = False,
        reads: t.Iterable[str] = (),
        pins: t.Iterable[str] = (),
        apart: bool = False,
    ) -> None:
        self.apart = apart  # no paths are joined
        self.program = program
        self.types: dict[T, Type] = {}
        self.was: dict[T, T] = {}  # what a name was at the start of a loop that changes it
        self.gens: dict = {}
        self.initial: dict[T, tuple] = {}  # what container displays are made of
        self.closures: dict = {}
        self.captured: set[int] = set()
        self.escaped: set[T] = set()  # objects that were put where others find them
        self.exact: set[T] = set()
        self.stack: list[str] = []
        self.handling: list = []
        self.caught: dict = {}
        self.diverged: list[State] = []
        self.opaque_quals = {program.canon(q) for q in opaque}
        self.pure_quals = {program.canon(q) for q in pure}
        self.noraise = {program.canon(q) for q in noraise}
        self.raise_mode = raise_mode
        self.try_depth = 0
        self.inline_dispatch = inline_dispatch
        self.forks = {program.canon(q) for q in fork}
        self.cap = cap
        self.keep = keep
        self.lossy = lossy
        self.reads = frozenset(reads)
        self.pins = frozenset(pins)
        self._pinned: dict[T, bool] = {}
        self._qcache: dict = {}
        self._notype: set = set()
        self.functions_seen: set[str] = set()
        self.n_events = 0
        self.blocked: list = []

    def fork_virtual(self, decl: FuncInfo) -> bool:
        return decl.qual in self.forks

    def check_cap(self, n: int) -> None:
        if n > self.cap:
            raise AnalysisError(f"too many paths in {self.stack[-1] if self.stack else '?'}")

    # --- events ------------------------------------------------------------
    def event(self, s: State, kind: str, callee: str, recv: T | None, args, kwargs, res: T | None, node, fr: Frame) -> Ev:
        ev = Ev(kind, callee, recv, tuple(args), tuple(kwargs), res, node, fr.func if fr is not None else None, s.locks, tuple(self.stack), s.pc)
        ev.loops = s.loops
        if kind == "enter":
            self.functions_seen.add(callee)
        self.n_events += 1
        ev.kept = self.keep is None or self.keep(ev)
        if not ev.kept:
            return ev
        ev.sargs = tuple(self.snap(s, a) for a in ev.args)
        ev.skw = {k: self.snap(s, v) for k, v in ev.kwargs.items()}
        s.trail = (s.trail, ev)
        return ev

    def snap(self, s: State, v: T, depth: int = 4) -> t.Any:
        if depth <= 0 or not isinstance(v, T):
            return v
        if v.k == "new":
            return Obj("obj", v, v.a[0], {k[1]: self.snap(s, x, depth - 1) for k, x in s.heap.items() if k[0] is v})
        if v.k == "lit" and v in s.cont:
            kind, its, opened = s.cont[v]
            if kind == "dict":
                return Obj("dict", v, "dict", [(k, self.snap(s, x, depth - 1)) for k, x in its], opened)
            return Obj("list", v, kind, [self.snap(s, x, depth - 1) for x in its], opened)
        if v.k == "tuple":
            return Obj("list", v, "tuple", [self.snap(s, x, depth - 1) for x in v.a])
        return v

    # --- stores ------------------------------------------------------------
    def set_attr(self, s: State, base: T, name: str, value: T, node, fr: Frame) -> None:
        ev = self.event(s, "setattr", name, base, (value,), (), None, node, fr)
        ev.rtype = self.typeof(s, base)
        if value.k == "new" and base.k not in ("new", "lit"):
            self.escaped.add(value)
        others = [k for k in s.heap if k[1] == name and k[0] is not base and not self.distinct(k[0], base)]
        for k in others:
            del s.heap[k]
        if not self.program.is_stable_attr(name):
            s.aver[name] = fresh()
        s.heap[(base, name)] = value

    # --- merging -----------------------------------------------------------
    def merge(self, results: list[tuple[State, T]]) -> list[tuple[State, T]]:
        """Joins the paths that only differ in the outcome of one test that had no other effect."""
        if len(results) < 2 or self.apart:
            return results
        groups: dict[tuple, list[tuple[State, T]]] = {}
        for s, v in results:
            groups.setdefault((id(s.trail), v, s.flow, s.locks, s.epoch if not self.lossy else 0, s.loops), []).append((s, v))
        out: list[tuple[State, T]] = []
        for g in groups.values():
            changed = len(g) > 1
            while changed:
                changed = False
                for i in range(len(g)):
                    for j in range(i + 1, len(g)):
                        m = self.join(g[i][0], g[j][0])
                        if m is not None:
                            g[i] = (m, g[i][1])
                            del g[j]
                            changed = True
                            break
                    if changed:
                        break
            out.extend(g)
        return out

    def join(self, a: State, b: State) -> State | None:
        if self.lossy:
            return self.join_lossy(a, b)
        if not a.same_but_pc(b):
            return None
        if a.pc is not b.pc:
            if a.pc == b.pc:
                pass
            elif len(a.pc) == len(b.pc):
                diff = [k for k in a.pc if k not in b.pc or b.pc[k] != a.pc[k]]
                if len(diff) != 1 or diff[0] not in b.pc:
                    return None
                a.pc = {k: v for k, v in a.pc.items() if k is not diff[0]}
            else:
                # One has only additional facts: the weaker one covers both.
                small, big = (a, b) if len(a.pc) < len(b.pc) else (b, a)
                if any(big.pc.get(k) is not v for k, v in small.pc.items()):
                    return None
                a.pc = small.pc
        if a.isa is not b.isa:
            a.isa = {k: tuple(q for q in v if q in b.isa[k]) for k, v in a.isa.items() if k in b.isa}
            a.isa = {k: v for k, v in a.isa.items() if v}
        return a

    def pinned(self, k: T) -> bool:
        """A condition on one of the attributes that paths are kept apart for."""
        r = self._pinned.get(k)
        if r is None:
            r = self._pinned[k] = any(isinstance(x, T) and (x.k == "attr" and x.a[1] in self.pins or x.k == "op" and x.a[0] in self.pins or x.k == "call" and str(x.a[0]).rsplit(".", 1)[-1] in self.pins) for x in walk_term(k))
        return r

    def join_lossy(self, a: State, b: State) -> State | None:
        """Keeps what holds on both paths only."""
        if a.env != b.env or a.cont != b.cont:
            return None
        if self.pins and a.pc is not b.pc and {k: v for k, v in a.pc.items() if self.pinned(k)} != {k: v for k, v in b.pc.items() if self.pinned(k)}:
            return None
        if a.pc is not b.pc and a.pc != b.pc:
            a.pc = {k: v for k, v in a.pc.items() if b.pc.get(k) is v}
        if a.isa is not b.isa:
            a.isa = {k: tuple(q for q in v if q in b.isa[k]) for k, v in a.isa.items() if k in b.isa}
            a.isa = {k: v for k, v in a.isa.items() if v}
        if a.epoch != b.epoch:
            a.epoch = fresh()
        for k in {*a.aver, *b.aver}:
            if a.aver.get(k, 0) != b.aver.get(k, 0):
                a.aver[k] = fresh()
        for k in {*a.cver, *b.cver}:
            if a.cver.get(k, 0) != b.cver.get(k, 0):
                a.cver[k] = fresh()
        for k in {*a.heap, *b.heap}:
            if a.heap.get(k) is not b.heap.get(k):
                a.heap.pop(k, None)
                a.aver[k[1]] = fresh()
        for k in {*a.items, *b.items}:
            if a.items.get(k) is not b.items.get(k):
                a.items.pop(k, None)
                a.cver[k[0]] = fresh()
        return a

    # --- entry -------------------------------------------------------------
    def param(self, name: str, ty: Type = None) -> T:
        x = mk("param", name)
        if ty is not None:
            self.types[x] = ty
        return x

    def walk(
        self,
        func: str | FuncInfo,
        *,
        self_type: str | None = None,
        args: dict[str, T] | None = None,
        init: t.Callable[[State], None] | None = None,
        raw: bool = False,
    ) -> list[Path]:
        f = func if isinstance(func, FuncInfo) else self.program.func(func)
        s = State()
        given = dict(args or {})
        a = f.node.args
        recv = None
        params = [*a.posonlyargs, *a.args]
        if f.cls is not None and not f.is_static:
            recv = given.pop(params[0].arg, None)
            if recv is None:
                if f.is_classmethod:
                    recv = glob(self_type or f.cls.qual)
                else:
                    recv = self.param("self", CLS(self_type or f.cls.qual))
            params = params[1:]
        pos: list[T] = []
        kw: dict[str, T] = {}
        for p in params:
            v = given.pop(p.arg, None)
            pos.append(v if v is not None else self.param(p.arg, self.program.annot_type(f.module, p.annotation)))
        for p in a.kwonlyargs:
            v = given.pop(p.arg, None)
            kw[p.arg] = v if v is not None else self.param(p.arg, self.program.annot_type(f.module, p.annotation))
        if a.vararg:
            pos.append(mk("star", self.param(a.vararg.arg, ("list", None))))
        if a.kwarg:
            kw["**"] = self.param(a.kwarg.arg, ("dict", None, None))
        if given:
            raise AnalysisError(f"anchor vanished: parameters {sorted(given)} of {f.qual}")
        if init is not None:
            init(s)
        self.stack = []
        self.try_depth = 0
        self.handling = []
        self.diverged = []
        fr = Frame(fresh(), None, f.module, f.cls, None)
        out = []
        for s1, v in self.call_func(s, f, recv, pos, kw, f.node, fr, selfcls=self_type, raw=raw):
            if v.k == "gen" and s1.flow is None:
                out.extend((s2, NONE) for s2 in self.run_gen(s1, v, self._root_yield, f.node, fr))
            else:
                out.append((s1, v))
        # Iterations of loops that only end by what happens in a later one.
        for x in self.diverged:
            x.flow = ("loop",)
            out.append((x, NONE))
        return [Path(self, s1, s1.flow[1] if s1.flow and s1.flow[0] == "ret" else v) for s1, v in self.merge(out)]

    def _root_yield(self, s: State, v: T):
        fr = Frame(fresh(), None, next(iter(self.program.modules.values())), None, None)
        self.event(s, "yield", "yield", None, (v,), (), None, None, fr)
        self.havoc(s)
        out = []
        if self.raise_mode != "none":
            y = s.copy()
            y.flow = ("raise", "Exception", (), mk("exc", "yield", fresh()))
            out.append((y, NONE))
        out.append((s, mk("hav", "yield", fresh())))
        return out
