"""Loops, exceptions, context managers and generators."""

from __future__ import annotations

import ast
import typing as t

from .calls import LOCKS
from .exprs import Frame
from .program import AnalysisError, Type
from .state import State, a_truthy
from .terms import FALSE, NONE, TRUE, T, const, fresh, glob, mentions, mk, show

UNROLL = 12
STRIP = ("list", "iter", "copy", "sorted", "set", "tuple", "reversed", "values", "keys", "items", "enumerate", "frozenset")
ROUNDS = 12


class Flow:
    # --- loops -------------------------------------------------------------
    def st_For(self, s, st, fr):
        out = []
        for x, it in self.ev(s, st.iter, fr):
            if x.flow is not None:
                out.append(x)
            else:
                out.extend(self.for_loop(x, st, it, fr))
        return out

    st_AsyncFor = st_For

    def for_loop(self, s: State, st: ast.For, it: T, fr: Frame) -> list[State]:
        if it.k == "gen":
            return self.for_gen(s, st, it, fr)
        c = self.content(s, it)
        if c is not None and len(c) <= UNROLL:
            return self.unrolled(s, st, c, fr)
        it = self.copied(s, it)
        uid = fresh()
        inner = self.iter_source(it)

        def head(h: State) -> list[State]:
            return [h] if self.nonempty(h, inner, True) else []

        def step(h: State) -> tuple[list[State], list[State]]:
            res = []
            for x, el in self.elem_of(h, it, uid):
                for y in self.assign_to(x, st.target, el, fr):
                    res.extend(self.exec_block(y, st.body, fr) if y.flow is None else [y])
            return res, []

        zero = s.copy()
        out: list[State] = []
        if self.nonempty(zero, inner, False):
            self.event(zero, "loopzero", "for", it, (), (), const(uid), st, fr)
            out.extend(self.exec_block(zero, st.orelse, fr))
        starts = head(s)
        for h0 in starts:
            for x in self.fixpoint(h0, uid, it, "for", step, st, fr):
                kind, y = x
                if kind == "back":
                    out.extend(self.exec_block(y, st.orelse, fr))
                else:
                    out.append(y)
        return [x for x, _ in self.merge([(x, NONE) for x in out])]

    def iter_source(self, it: T) -> T:
        while it.k == "op" and it.a[0] in STRIP:
            it = it.a[1]
        return it

    def nonempty(self, s: State, inner: T, val: bool) -> bool:
        x = inner.a[0] if inner.k == "ver" else inner
        if x.k in ("gen", "comp", "const") or (x.k == "op" and x.a[0] in ("range", "zip", "map", "filter")):
            return True
        if x.k == "lit":
            c = s.cont.get(x)
            if c is not None and any(not (isinstance(i, T) and i.k in ("rest", "star")) and not (isinstance(i, tuple) and i[0].k == "rest") for i in c[1]):
                return val
            return True
        ty = self.typeof(s, x)
        if inner.k != "ver" and not (ty and ty[0] in ("list", "dict")):
            return True
        return self.assume(s, a_truthy(inner if inner.k == "ver" else self.versioned(s, x)), val)

    def unrolled(self, s: State, st: ast.For, elems: list[T], fr: Frame) -> list[State]:
        cur, out = [s], []
        for el in elems:
            nxt = []
            for x in cur:
                for y in self.assign_to(x, st.target, el, fr):
                    for z in self.exec_block(y, st.body, fr) if y.flow is None else [y]:
                        if z.flow is None or z.flow[0] == "cont":
                            z.flow = None
                            nxt.append(z)
                        elif z.flow[0] == "brk":
                            z.flow = None
                            out.append(z)
                        else:
                            out.append(z)
            cur = [x for x, _ in self.merge([(x, NONE) for x in nxt])]
            self.check_cap(len(cur) + len(out))
        for x in cur:
            out.extend(self.exec_block(x, st.orelse, fr))
        return out

    def st_While(self, s, st, fr):
        uid = fresh()
        out: list[State] = []
        starts = []
        for x, b in self.branch(s.copy(), st.test, fr):
            if b is None:
                out.append(x)
            elif b:
                starts.append(x)
            else:
                self.event(x, "loopzero", "while", None, (), (), const(uid), st, fr)
                out.extend(self.exec_block(x, st.orelse, fr))
        # The head of the loop is reached from before and from the back edges.
        if not starts:
            return out

        def step(h: State) -> tuple[list[State], list[State]]:
            res, leave = [], []
            for x, b in self.branch(h, st.test, fr):
                if b is None:
                    leave.append(x)
                elif b:
                    res.extend(self.exec_block(x, st.body, fr))
            return res, leave

        for kind, y in self.fixpoint(s, uid, None, "while", step, st, fr):
            if kind != "back":
                out.append(y)
                continue
            end = y.trail[1] if y.trail is not None else None
            keep = y.copy()
            outcomes = set()
            for x, b in self.branch(y, st.test, fr):
                outcomes.add(b)
                if b is None:
                    out.append(x)
                elif not b:
                    out.extend(self.exec_block(x, st.orelse, fr))
            if end is not None and end.kind == "loopend":
                end.again = frozenset(outcomes) | (end.again or frozenset())
            if outcomes == {True}:
                # Goes on with the next iteration only, the path ends here.
                self.diverged.append(keep)
        return [x for x, _ in self.merge([(x, NONE) for x in out])]

    def fixpoint(self, s0: State, uid: int, it: T | None, name: str, step, node, fr: Frame) -> list[tuple[str, State]]:
        """One generic iteration: everything an iteration changes is unknown at the head."""
        havoc: set[tuple] = set()
        seen = len(self.diverged)
        for _ in range(ROUNDS):
            mark = fresh()
            del self.diverged[seen:]
            h = s0.copy()
            self.apply_havoc(h, havoc, s0, uid)
            h.loops = s0.loops + (uid,)
            self.event(h, "loop", name, it, (), (), const(uid), node, fr)
            ref = h.copy()
            res, leave = step(h)
            new: set[tuple] = set()
            for x in res:
                if x.flow is None or x.flow[0] == "cont":
                    self.diff(ref, x, new, mark, uid)
            if new <= havoc:
                break
            havoc |= new
        else:
            raise AnalysisError(f"no fixpoint for the loop at {fr.module.rel}:{node.lineno}")
        flags = self.flags(s0, ref, res, havoc, uid)
        if flags:
            del self.diverged[seen:]
            res, leave = [], []
            for more, facts in flags:
                h = s0.copy()
                self.apply_havoc(h, havoc, s0, uid)
                h.env.update(more)
                if not all(self.assume(h, k, v) for k, v in facts):
                    continue
                h.loops = s0.loops + (uid,)
                self.event(h, "loop", name, it, (), (), const(uid), node, fr)
                r, l = step(h)
                res.extend(r)
                leave.extend(l)
        out: list[tuple[str, State]] = []
        for x in res + leave:
            x.loops = s0.loops
            if x.flow is None or x.flow[0] == "cont":
                x.flow = None
                self.event(x, "loopend", name, it, (), (), const(uid), node, fr)
                out.append(("back", x))
            elif x.flow[0] == "brk":
                x.flow = None
                self.event(x, "loopbreak", name, it, (), (), const(uid), node, fr)
                out.append(("brk", x))
            else:
                out.append(("leave", x))
        backs = self.merge([(x, NONE) for k, x in out if k == "back"])
        brks = self.merge([(x, NONE) for k, x in out if k == "brk"])
        return [("back", x) for x, _ in backs] + [("brk", x) for x, _ in brks] + [(k, x) for k, x in out if k == "leave"]

    def flags(self, s0: State, ref: State, res: list[State], havoc: set[tuple], uid: int) -> list[tuple[dict, list]]:
        """A local flag that the loop only ever switches the other way: each iteration sees it as it was before the loop,
        or switched by an earlier iteration, in which what led there was known."""
        keys = []
        for kind, k in sorted(havoc, key=str):
            if kind != "env" or k not in s0.env or s0.env[k] not in (TRUE, FALSE):
                continue
            vals = {x.env.get(k) for x in res if x.flow is None or x.flow[0] == "cont"}
            other = FALSE if s0.env[k] is TRUE else TRUE
            if other in vals and vals <= {ref.env[k], other}:
                keys.append((k, other))
        if len(keys) != 1:
            return []
        k, other = keys[0]
        out: list[tuple[dict, list]] = [({k: s0.env[k]}, [])]
        seen = set()
        for x in res:
            if x.env.get(k) is other and (x.flow is None or x.flow[0] == "cont"):
                new = fresh()
                facts = [(rename_loop(f, uid, new), v) for f, v in x.pc.items() if f not in ref.pc and not mentions(f, ref.env[k])]
                key = frozenset((show(f), v) for f, v in facts)
                if key not in seen:
                    seen.add(key)
                    out.append(({k: other}, facts))
        return out if len(out) <= 4 else []

    def diff(self, h: State, x: State, new: set[tuple], mark: int, uid: int) -> None:
        def local(base: T) -> bool:
            return is_local(base, mark, uid)

        for k, v in h.env.items():
            if x.env.get(k) is not v and k in x.env:
                new.add(("env", k))
        for k, v in x.heap.items():
            if h.heap.get(k) is not v and not local(k[0]):
                new.add(("heap", k))
        for k in h.heap:
            if k not in x.heap and not local(k[0]):
                new.add(("heap", k))
        for k, v in x.items.items():
            if h.items.get(k) is not v and not local(k[0]):
                new.add(("items", k[0]))
        for k, v in h.cont.items():
            if x.cont.get(k) != v:
                new.add(("cont", k))
                if k not in x.cont or (set(v[1]) - set(x.cont[k][1]) if v[0] == "dict" else x.cont[k][1][: len(v[1])] != v[1]):
                    new.add(("gone", k))
        for k, v in x.cver.items():
            if h.cver.get(k, 0) != v and not local(k):
                new.add(("cver", k))
        for k, v in x.aver.items():
            if h.aver.get(k, 0) != v:
                new.add(("aver", k))
        if h.epoch != x.epoch:
            new.add(("epoch", None))

    def apply_havoc(self, h: State, havoc: set[tuple], s0: State, uid: int) -> None:
        for kind, k in sorted(havoc, key=str):
            if kind == "env" and k in h.env:
                old = h.env[k]
                v = mk("hav", k[1], k[0], uid)
                self.was[v] = self.was.get(old, old)
                ty = self.typeof(h, old)
                if ty and v not in self.types:
                    self.types[v] = ty
                h.env[k] = v
            elif kind == "heap":
                h.heap.pop(k, None)
                h.aver[k[1]] = ("L", uid, 0)
            elif kind == "items":
                for i in [i for i in h.items if i[0] is k]:
                    del h.items[i]
                h.cver[k] = ("L", uid, 0)
            elif kind == "cont" and k in h.cont:
                ck, its, opened = h.cont[k]
                rest = mk("rest", k, uid)
                if ck == "dict":
                    h.cont[k] = (ck, (*its, (rest, rest)), True)
                else:
                    h.cont[k] = (ck, (*its, rest), opened)
                h.cver[k] = ("L", uid, 0)
            elif kind == "gone" and k in h.cont:
                ck, its, opened = h.cont[k]
                h.cont[k] = (ck, (its[-1],), opened)
            elif kind == "cver":
                h.cver[k] = ("L", uid, 0)
            elif kind == "aver":
                h.aver[k] = ("L", uid, 0)
                for i in [i for i in h.heap if i[1] == k]:
                    del h.heap[i]
            elif kind == "epoch":
                self.havoc(h)
                h.epoch = ("L", uid, 0)

    def havoc(self, s: State) -> None:
        """Anything shared may have changed."""
        s.epoch = fresh()
        st = self.program.is_stable_attr
        for k in [k for k in s.heap if (k[0].k != "new" or k[0] in self.escaped) and not st(k[1])]:
            del s.heap[k]
        for k in [k for k in s.items if k[0].k not in ("lit", "new")]:
            del s.items[k]

    # --- generators --------------------------------------------------------
    def run_gen(self, s: State, g: T, on_yield: t.Callable[[State, T], list[tuple[State, T]]], node, fr: Frame) -> list[State]:
        """Runs the body of a generator, each value it yields is given to on_yield."""
        f, recv, args, kwargs, selfcls, _ = self.gens[g]
        outer = list(self.stack)
        depth = self.try_depth

        def cb(x: State, v: T) -> list[tuple[State, T]]:
            inner, self.stack = self.stack, list(outer)
            try:
                return on_yield(x, v)
            finally:
                self.stack = inner

        if isinstance(f, T):
            cnode, cfr = self.closures[f]
            nfr = Frame(fresh(), cfr.func, cfr.module, cfr.cls, cfr)
            self.bind_params(s, cnode, nfr, None, args, kwargs, None)
            name, body, quiet = f"closure:{cnode.name}", cnode.body, True
        else:
            nfr = Frame(fresh(), f, f.module, f.cls, None)
            has_self = f.cls is not None and not f.is_static
            self.bind_params(s, f.node, nfr, recv if has_self else None, args, kwargs, f)
            if has_self:
                nfr.selfterm = recv
                ty = self.typeof(s, recv) if recv is not None else None
                nfr.selfcls = selfcls or (ty[1] if ty and ty[0] == "cls" and self.program.is_subclass(ty[1], f.cls.qual) else f.cls.qual)
            name, body, quiet = f.qual, f.node.body, False
        nfr.on_yield = cb
        if not quiet:
            self.event(s, "enter", name, recv, tuple(args), tuple(kwargs.items()), None, node, fr)
        self.captured.add(nfr.fid)
        self.stack.append(name)
        try:
            out = self.exec_block(s, body, nfr)
        finally:
            self.stack = outer
            self.try_depth = depth
        for x in out:
            if x.flow is not None and x.flow[0] == "ret":
                x.flow = None
            if not quiet:
                self.event(x, "exit", name, recv, (), (), None, node, fr)
        return out

    def ev_Yield(self, s, e, fr):
        out = []
        for x, v in [(s, NONE)] if e.value is None else self.ev(s, e.value, fr):
            if x.flow is not None:
                out.append((x, NONE))
                continue
            f: Frame | None = fr
            while f is not None and f.on_yield is None:
                f = f.parent
            if f is not None:
                out.extend(f.on_yield(x, v))
                continue
            self.event(x, "yield", "yield", None, (v,), (), None, e, fr)
            self.havoc(x)
            if self.raise_mode != "none":
                y = x.copy()
                y.flow = ("raise", "Exception", (), mk("exc", "yield", fresh()))
                out.append((y, NONE))
            out.append((x, mk("hav", "yield", fresh())))
        return out

    def ev_YieldFrom(self, s, e, fr):
        out = []
        for x, v in self.ev(s, e.value, fr):
            f: Frame | None = fr
            while f is not None and f.on_yield is None:
                f = f.parent
            if x.flow is None and v.k == "gen" and f is not None:
                out.extend((y, NONE) for y in self.run_gen(x, v, f.on_yield, e, fr))
            elif x.flow is None:
                tmp = ast.Name("<yf>", ast.Store())
                st = ast.For(tmp, e.value, [ast.Expr(ast.Yield(ast.Name("<yf>", ast.Load())))], [])
                for n in ast.walk(st):
                    ast.copy_location(n, e)
                out.extend((y, NONE) for y in self.for_loop(x, st, v, fr))
            else:
                out.append((x, v))
        return out

    def for_gen(self, s: State, st: ast.For, g: T, fr: Frame) -> list[State]:
        def on_yield(x: State, v: T):
            res = []
            for y in self.assign_to(x, st.target, v, fr):
                for z in self.exec_block(y, st.body, fr) if y.flow is None else [y]:
                    if z.flow is None or z.flow[0] == "cont":
                        z.flow = None
                    elif z.flow[0] != "genexit":
                        z.flow = ("genexit", z.flow)
                    res.append((z, NONE))
            return res

        out = []
        for x in self.run_gen(s, g, on_yield, st, fr):
            if x.flow is not None and x.flow[0] == "genexit":
                x.flow = x.flow[1]
                if x.flow[0] == "brk":
                    x.flow = None
                out.append(x)
            elif x.flow is None:
                out.extend(self.exec_block(x, st.orelse, fr))
            else:
                out.append(x)
        return out

    def drain(self, s: State, g: T) -> list[tuple[State, T]]:
        """All values of a generator as a list."""
        lit = self.new_lit(s, "list", [])
        fr = Frame(fresh(), None, next(iter(self.program.modules.values())), None, None)

        def on_yield(x: State, v: T):
            k, its, o = x.cont[lit]
            x.cont[lit] = (k, (*its, v), o)
            return [(x, NONE)]

        return [(x, lit) for x in self.run_gen(s, g, on_yield, None, fr)]

    # --- exceptions --------------------------------------------------------
    def st_Try(self, s, st, fr):
        fin = bool(st.finalbody)
        if fin:
            self.try_depth += 1
        if st.handlers:
            self.try_depth += 1
        try:
            body = self.exec_block(s, st.body, fr)
        finally:
            if st.handlers:
                self.try_depth -= 1
        out: list[State] = []
        try:
            for x in body:
                if x.flow is None:
                    out.extend(self.exec_block(x, st.orelse, fr))
                elif x.flow[0] == "raise" and st.handlers:
                    out.extend(self.handle(x, st.handlers, fr))
                else:
                    out.append(x)
        finally:
            if fin:
                self.try_depth -= 1
        if fin:
            res = []
            for x in out:
                saved, x.flow = x.flow, None
                for y in self.exec_block(x, st.finalbody, fr):
                    if y.flow is None:
                        y.flow = saved
                    res.append(y)
            out = res
        return [x for x, _ in self.merge([(x, NONE) for x in out])]

    st_TryStar = st_Try

    def handle(self, s: State, handlers: list[ast.ExceptHandler], fr: Frame) -> list[State]:
        out: list[State] = []
        cur = [s]
        for h in handlers:
            quals = ["BaseException"]
            if h.type is not None:
                s1 = s.copy()
                s1.flow = None
                q = self.class_names(self.ev(s1, h.type, fr)[0][1])
                quals = q if q is not None else ["Exception"]
            nxt = []
            for x in cur:
                yes, no = self.match_exc(x, quals)
                if yes is not None:
                    flow = yes.flow
                    yes.flow = None
                    old = yes.env.get((fr.fid, "<exc>"))
                    yes.env[(fr.fid, "<exc>")] = flow
                    self.caught[flow[3]] = flow
                    if flow[3] not in self.types:
                        self.types[flow[3]] = ("cls", flow[1])
                    if h.name:
                        yes.env[(fr.fid, h.name)] = flow[3]
                    self.event(yes, "caught", flow[1], None, (flow[3],), (), None, h, fr)
                    self.handling.append(flow)
                    try:
                        for y in self.exec_block(yes, h.body, fr):
                            if old is None:
                                y.env.pop((fr.fid, "<exc>"), None)
                            else:
                                y.env[(fr.fid, "<exc>")] = old
                            if h.name:
                                y.env.pop((fr.fid, h.name), None)
                            out.append(y)
                    finally:
                        self.handling.pop()
                if no is not None:
                    nxt.append(no)
            cur = nxt
        return out + cur

    def match_exc(self, s: State, quals: list[str]) -> tuple[State | None, State | None]:
        """The states where the exception is, and is not, one of the types."""
        _, q, excl, v = s.flow
        exact = v.k == "new"
        p = self.program
        maybe = None
        for h in quals:
            h = h.removeprefix("builtins.")
            r = p.is_subclass(q, h)
            if r:
                return s, None
            if exact and r is False:
                continue
            down = p.is_subclass(h, q)
            if down is False and r is False:
                continue
            if any(p.is_subclass(h, e) for e in excl):
                continue
            maybe = (maybe or ()) + (h,)
        if maybe is None:
            return None, s
        no = s.copy()
        no.flow = ("raise", q, excl + maybe, v)
        s.flow = ("raise", maybe[0] if len(maybe) == 1 else q, excl, v)
        return s, no

    # --- with --------------------------------------------------------------
    def st_With(self, s, st, fr):
        return self.with_items(s, st, 0, fr)

    st_AsyncWith = st_With

    def with_items(self, s: State, st: ast.With, i: int, fr: Frame) -> list[State]:
        if i == len(st.items):
            return self.exec_block(s, st.body, fr)
        item = st.items[i]
        out = []
        for x, v in self.ev(s, item.context_expr, fr):
            if x.flow is not None:
                out.append(x)
                continue

            def body(y: State, value: T) -> list[State]:
                cur = [y]
                if item.optional_vars is not None:
                    cur = self.assign_to(y, item.optional_vars, value, fr)
                return [w for z in cur for w in (self.with_items(z, st, i + 1, fr) if z.flow is None else [z])]

            out.extend(self.enter_cm(x, v, body, item.context_expr, fr))
        return [x for x, _ in self.merge([(x, NONE) for x in out])]

    def enter_cm(self, s: State, v: T, body, node, fr: Frame) -> list[State]:
        tn = self.type_name(s, v)
        p = self.program
        if v.k == "gen":
            return self.with_gen(s, v, body, node, fr)
        if v.k == "nullcm":
            return body(s, v.a[0])
        if v.k == "suppress":
            self.try_depth += 1
            try:
                res = body(s, NONE)
            finally:
                self.try_depth -= 1
            out = []
            quals = [q for a in v.a for q in (self.class_names(a) or ["Exception"])]
            for x in res:
                if x.flow is not None and x.flow[0] == "raise":
                    yes, no = self.match_exc(x, quals)
                    if yes is not None:
                        self.event(yes, "caught", yes.flow[1], None, (yes.flow[3],), (), None, node, fr)
                        yes.flow = None
                        out.append(yes)
                    if no is not None:
                        out.append(no)
                else:
                    out.append(x)
            return out
        if v.k == "closing":
            out = []
            self.try_depth += 1
            try:
                res = body(s, v.a[0])
            finally:
                self.try_depth -= 1
            for x in res:
                saved, x.flow = x.flow, None
                for y, m in self.method_of(x, v.a[0], "close", node, fr):
                    for z, _ in self.call_value(y, m, [], {}, node, fr):
                        z.flow = z.flow or saved
                        out.append(z)
            return out
        if tn in LOCKS:
            self.event(s, "acquire", "lock", v, (), (), None, node, fr)
            s.locks = s.locks + (v,)
            out = []
            for x in body(s, TRUE):
                if v in x.locks:
                    i = len(x.locks) - 1 - x.locks[::-1].index(v)
                    x.locks = x.locks[:i] + x.locks[i + 1 :]
                self.event(x, "release", "lock", v, (), (), None, node, fr)
                out.append(x)
            return out
        if tn in p.classes and p.find_method(tn, "__exit__"):
            out = []
            ent, ext = p.find_method(tn, "__enter__"), p.find_method(tn, "__exit__")
            for x, ev in self.call_method(s, f"{ent.cls.qual}.__enter__", v, [], {}, node, fr) if ent else [(s, v)]:
                if x.flow is not None:
                    out.append(x)
                    continue
                self.try_depth += 1
                try:
                    res = body(x, ev)
                finally:
                    self.try_depth -= 1
                for y in res:
                    saved, y.flow = y.flow, None
                    args = [NONE, NONE, NONE]
                    if saved is not None and saved[0] == "raise":
                        args = [mk("op", "type", saved[3]), saved[3], mk("op", "traceback", saved[3])]
                    for z, rv in self.call_method(y, f"{ext.cls.qual}.__exit__", v, list(args), {}, node, fr):
                        if z.flow is not None:
                            out.append(z)
                            continue
                        if saved is not None and saved[0] == "raise" and rv is not NONE:
                            for w, b in self.test(z, rv):
                                w.flow = None if b else saved
                                out.append(w)
                            continue
                        z.flow = saved
                        out.append(z)
            return out
        # A context manager of a library: its exit does not stop an exception.
        self.event(s, "cm_enter", f"{tn}.__enter__", v, (), (), None, node, fr)
        ev = v
        if tn == "?" or v.k not in ("new", "call"):
            ev = v
        out = []
        for x in body(s, ev):
            self.event(x, "cm_exit", f"{tn}.__exit__", v, (), (), None, node, fr)
            out.append(x)
        return out

    def with_gen(self, s: State, g: T, body, node, fr: Frame) -> list[State]:
        key = ("stash", fresh())

        def on_yield(x: State, v: T):
            res = []
            for y in body(x, v):
                if y.flow is not None and y.flow[0] != "raise":
                    # Leaves the block: the manager continues as if it ended.
                    y.env[key] = y.flow
                    y.flow = None
                res.append((y, NONE))
            return res

        out = []
        for x in self.run_gen(s, g, on_yield, node, fr):
            saved = x.env.pop(key, None)
            if x.flow is None:
                x.flow = saved
            out.append(x)
        return out


def is_local(x: T, mark: int, uid: int) -> bool:
    """Does the value only exist in this iteration (and differ in every one)?"""
    todo = [x]
    seen = set()
    while todo:
        c = todo.pop()
        if isinstance(c, tuple):
            todo.extend(c)
        elif isinstance(c, int) and not isinstance(c, bool):
            if c > mark:
                return True
        elif isinstance(c, T) and c not in seen:
            seen.add(c)
            if c.k == "const":
                continue
            if c.k in ("elem", "elem_idx") and c.a[1] == uid:
                return True
            todo.extend(c.a)
    return False


def rename_loop(x: T, old: int, new: int) -> T:
    """The same value in another iteration of the loop."""
    if not isinstance(x, T):
        return x
    a = tuple(rename_loop(y, old, new) if isinstance(y, T) else (tuple(rename_loop(z, old, new) for z in y) if isinstance(y, tuple) else y) for y in x.a)
    if x.k in ("elem", "hav", "elem_idx") and a[-1] == old:
        a = (*a[:-1], new)
    return x if a == x.a else mk(x.k, *a)
