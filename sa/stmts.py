"""Statements: control flow, loops to a fixpoint, exceptions, context managers and generators."""

from __future__ import annotations

import ast
import typing as t

from .calls import LOCKS
from .exprs import BINOPS, Frame
from .program import AnalysisError
from .state import bump, State, a_eq, a_none
from .terms import FALSE, NONE, TRUE, T, const, fresh, glob, mk

UNROLL = 12
STRIP = ("list", "iter", "copy", "sorted", "set", "tuple", "reversed", "values", "keys", "items", "enumerate", "frozenset")


_LIVE: dict[int, tuple] = {}


def _loads(fn: ast.AST) -> tuple[set[str], list[tuple[tuple[int, int], str]], list[tuple[tuple, tuple]]]:
    """Names that may be read at any time, the reads with their place, and the places of the outermost loops."""
    always: set[str] = set()
    reads: list[tuple[tuple[int, int], str]] = []
    loops: list[tuple[tuple, tuple]] = []

    def visit(n: ast.AST, nested: bool, looped: bool) -> None:
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            nested = True
        if isinstance(n, (ast.For, ast.AsyncFor, ast.While)) and not looped:
            loops.append(((n.lineno, n.col_offset), (n.end_lineno, n.end_col_offset)))
            looped = True
        if isinstance(n, ast.Name):
            if nested:
                always.add(n.id)
            elif not isinstance(n.ctx, ast.Store):
                reads.append(((n.lineno, n.col_offset), n.id))
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            reads.append(((n.lineno, n.col_offset), n.target.id))
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            always.update(n.names)
        for c in ast.iter_child_nodes(n):
            visit(c, nested, looped)

    visit(fn, False, False)
    return always, reads, loops


def live_after(fn: ast.AST, st: ast.stmt) -> set[str]:
    """The locals that may still be read once the statement has ended."""
    got = _LIVE.get(id(st))
    if got is not None and got[0] is st:
        return got[1]
    info = _LIVE.get(id(fn))
    if info is None or info[0] is not fn:
        info = _LIVE[id(fn)] = (fn, _loads(fn))
    always, reads, loops = info[1]
    start, end = (st.lineno, st.col_offset), (st.end_lineno, st.end_col_offset)
    spans = [(a, b) for a, b in loops if a <= start and end <= b and (a, b) != (start, end)]
    res = set(always)
    for pos, name in reads:
        if pos >= end or any(a <= pos < b for a, b in spans):
            res.add(name)
    _LIVE[id(st)] = (st, res)
    return res


class Stmts:
    def prune(self, s: State, st: ast.stmt, fr: Frame) -> None:
        """Forgets the locals nothing reads anymore, so that paths that only differ in them are one."""
        live = live_after(fr.func.node, st)
        dead = [k for k in s.env if k[0] == fr.fid and k[1] not in live and k[1][:1] != "<"]
        for k in dead:
            del s.env[k]

    def exec_block(self, s: State, stmts: t.Sequence[ast.stmt], fr: Frame) -> list[State]:
        cur, done = [s], []
        prunes = fr.func is not None and self.lossy
        for st in stmts:
            nxt: list[State] = []
            for x in cur:
                for y in self.exec(x, st, fr):
                    if prunes:
                        self.prune(y, st, fr)
                    (nxt if y.flow is None else done).append(y)
            cur = [x for x, _ in self.merge([(x, NONE) for x in nxt])]
            self.check_cap(len(cur) + len(done))
            if not cur:
                break
        if len(done) > 1:
            done = [x for x, _ in self.merge([(x, NONE) for x in done])]
        return cur + done

    def exec(self, s: State, st: ast.stmt, fr: Frame) -> list[State]:
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            raise AnalysisError(f"unsupported statement {type(st).__name__} at {fr.module.rel}:{st.lineno}")
        return m(s, st, fr)

    # --- simple ------------------------------------------------------------
    def st_Pass(self, s, st, fr):
        return [s]

    st_Import = st_ImportFrom = st_Pass

    def st_Global(self, s, st, fr):
        fr.globals.update(st.names)
        return [s]

    def st_Nonlocal(self, s, st, fr):
        fr.nonlocals.update(st.names)
        return [s]

    def st_Expr(self, s, st, fr):
        return [x for x, _ in self.ev(s, st.value, fr)]

    def st_Assign(self, s, st, fr):
        out = []
        for x, v in self.ev(s, st.value, fr):
            if x.flow is not None:
                out.append(x)
                continue
            cur = [x]
            for tgt in st.targets:
                cur = [z for y in cur for z in (self.assign_to(y, tgt, v, fr) if y.flow is None else [y])]
            out.extend(cur)
        return out

    def st_AnnAssign(self, s, st, fr):
        if st.value is None:
            return [s]
        out = []
        for x, v in self.ev(s, st.value, fr):
            if x.flow is not None:
                out.append(x)
                continue
            ty = self.program.annot_type(fr.module, st.annotation)
            if ty and v.k not in ("const", "glob") and (v not in self.types or v.k == "lit"):
                if not (v.k == "lit" and ty[0] not in ("list", "dict")):
                    self.types[v] = ty
            out.extend(self.assign_to(x, st.target, v, fr))
        return out

    def assign_to(self, s: State, target: ast.expr, value: T, fr: Frame) -> list[State]:
        """Assigns to a target whose sub expressions may have effects."""
        if isinstance(target, ast.Name):
            self.assign(s, target, value, fr)
            return [s]
        if isinstance(target, ast.Attribute):
            out = []
            for x, base in self.ev(s, target.value, fr):
                if x.flow is None:
                    self.set_attr(x, base, target.attr, value, target, fr)
                out.append(x)
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for x, vs in self.evs(s, [target.value, target.slice], fr):
                if x.flow is None:
                    self.set_item(x, vs[0], vs[1], value, target, fr)
                out.append(x)
            return out
        if isinstance(target, (ast.Tuple, ast.List)):
            cur = [s]
            for i, e in enumerate(target.elts):
                nxt = []
                for x in cur:
                    if x.flow is not None:
                        nxt.append(x)
                        continue
                    tgt = e.value if isinstance(e, ast.Starred) else e
                    nxt.extend(self.assign_to(x, tgt, self.unpack(x, value, i, len(target.elts), target), fr))
                cur = nxt
            return cur
        raise AnalysisError(f"unsupported target {type(target).__name__}")

    def unpack(self, s: State, value: T, i: int, n: int, target) -> T:
        star = next((k for k, e in enumerate(target.elts) if isinstance(e, ast.Starred)), None)
        c = self.content(s, value)
        if c is not None:
            if star is None:
                return c[i] if i < len(c) else mk("unbound", fresh())
            if i < star:
                return c[i]
            if i > star:
                return c[i - n]
            return self.new_lit(s, "list", c[star : len(c) - (n - 1 - star)])
        if star is not None and i >= star:
            if i == star:
                return self.read_slice(s, value, const(star), NONE if star == n - 1 else const(star - n + 1))
            return self.read_item(s, value, const(i - n))
        return self.read_item(s, value, const(i))

    def assign(self, s: State, target: ast.expr, value: T, fr: Frame) -> None:
        """Assigns to a simple target."""
        if isinstance(target, ast.Name):
            if target.id in fr.globals:
                self.event(s, "setglobal", f"{fr.module.name}.{target.id}", None, (value,), (), None, target, fr)
                return
            f: Frame | None = fr
            if target.id in fr.nonlocals:
                f = fr.parent
                while f is not None and (f.fid, target.id) not in s.env:
                    f = f.parent
            s.env[((f or fr).fid, target.id)] = value
            return
        res = self.assign_to(s, target, value, fr)
        if len(res) != 1 or res[0] is not s:
            raise AnalysisError("unsupported assignment target")

    def set_item(self, s: State, base: T, key: T, value: T, node, fr: Frame) -> None:
        ty = self.typeof(s, base)
        kind = ty[0] if ty and ty[0] in ("dict", "list") else self.type_name(s, base)
        if value.k == "new" and base.k not in ("new", "lit"):
            self.escaped.add(value)
        self.event(s, "setitem", f"{kind}.__setitem__", base, (key, value), (), None, node, fr)
        c = s.cont.get(base)
        if c is not None:
            if c[0] == "dict":
                s.cont[base] = ("dict", tuple([i for i in c[1] if i[0] is not key] + [(key, value)]), c[2])
            elif key.k == "const" and isinstance(key.a[0], int) and not c[2] and -len(c[1]) <= key.a[0] < len(c[1]):
                its = list(c[1])
                its[key.a[0]] = value
                s.cont[base] = (c[0], tuple(its), c[2])
            else:
                s.cont[base] = (c[0], c[1], True)
        s.cver[base] = bump(s.cver.get(base, 0))
        for k in [k for k in s.items if k[0] is base and not self.distinct(k[1], key)]:
            del s.items[k]
        if key.k != "sl":
            s.items[(base, key)] = value

    def st_AugAssign(self, s, st, fr):
        load = _as_load(st.target)
        op = BINOPS[type(st.op)]
        out = []
        for x, vs in self.evs(s, [load, st.value], fr):
            if x.flow is not None:
                out.append(x)
                continue
            cur, v = vs
            tn = self.type_name(x, cur)
            if (op == "add" and tn in ("bytearray", "list")) or (op == "bitor" and tn in ("dict", "set")):
                name = "extend" if op == "add" else "update"
                if tn == "bytearray" and isinstance(st.target, ast.Name) and (cur.k == "op" and cur.a[0] == "bytearray" or cur.k == "cat"):
                    # A local value that is built up; the parts are kept.
                    joined = self.cat([cur.a[1] if cur.k == "op" and len(cur.a) == 2 and isinstance(cur.a[1], T) else cur, v])
                    self.types[joined] = ("cls", "bytearray")
                    out.extend(self.assign_to(x, st.target, joined, fr))
                    continue
                if tn == "bytearray":
                    self.event(x, "call", "bytearray.extend", cur, (v,), (), None, st, fr)
                    x.cver[cur] = bump(x.cver.get(cur, 0))
                else:
                    self.container(x, cur, name, tn, [v], {}, st, fr)
                out.append(x)
                continue
            first = self.was.get(cur, cur)
            if tn in (None, "?") and isinstance(st.target, ast.Name) and first.k in ("attr", "item", "elem") and v.k not in ("const", "cat"):
                # It may be done in place, to what the name was given.
                self.event(x, "inplace", op, first, (v,), (), None, st, fr)
            out.extend(self.assign_to(x, st.target, self.binop(x, op, cur, v), fr))
        return out

    def st_Delete(self, s, st, fr):
        cur = [s]
        for tgt in st.targets:
            nxt = []
            for x in cur:
                if isinstance(tgt, ast.Name):
                    x.env.pop((fr.fid, tgt.id), None)
                    nxt.append(x)
                elif isinstance(tgt, ast.Subscript):
                    for y, vs in self.evs(x, [tgt.value, tgt.slice], fr):
                        if y.flow is None:
                            base, key = vs
                            if key.k == "sl":
                                self.event(y, "call", f"{self.type_name(y, base)}.__delitem__", base, (key,), (), None, st, fr)
                                y.cver[base] = bump(y.cver.get(base, 0))
                                if base in y.cont:
                                    k, its, _ = y.cont[base]
                                    y.cont[base] = (k, its, True) if key.a[0] is not const(0) or key.a[1] is not NONE else (k, (), False)
                            else:
                                self.container(y, base, "pop", self.type_name(y, base), [key], {}, st, fr)
                        nxt.append(y)
                elif isinstance(tgt, ast.Attribute):
                    for y, b in self.ev(x, tgt.value, fr):
                        if y.flow is None:
                            self.event(y, "delattr", tgt.attr, b, (), (), None, st, fr)
                            y.heap.pop((b, tgt.attr), None)
                            y.aver[tgt.attr] = fresh()
                        nxt.append(y)
                else:
                    raise AnalysisError("unsupported del")
            cur = nxt
        return cur

    def st_Return(self, s, st, fr):
        if st.value is None:
            s.flow = ("ret", NONE)
            return [s]
        out = []
        for x, v in self.ev(s, st.value, fr):
            if x.flow is None:
                x.flow = ("ret", v)
            out.append(x)
        return out

    def st_Break(self, s, st, fr):
        s.flow = ("brk",)
        return [s]

    def st_Continue(self, s, st, fr):
        s.flow = ("cont",)
        return [s]

    def st_Assert(self, s, st, fr):
        out = []
        for x, b in self.branch(s, st.test, fr):
            if b is False:
                v = mk("new", "AssertionError", fresh())
                self.types[v] = ("cls", "AssertionError")
                x.flow = ("raise", "AssertionError", (), v)
            out.append(x)
        return out

    def st_Raise(self, s, st, fr):
        if st.exc is None:
            f: Frame | None = fr
            flow = None
            while f is not None and flow is None:
                flow = s.env.get((f.fid, "<exc>"))
                f = f.parent
            if flow is None:
                for fl in reversed(self.handling):
                    flow = fl
                    break
            s.flow = flow or ("raise", "Exception", (), mk("exc", "?", fresh()))
            self.event(s, "raise", s.flow[1], None, (s.flow[3],), (), None, st, fr)
            return [s]
        out = []
        for x, v in self.ev(s, st.exc, fr):
            if x.flow is None:
                if v.k == "glob":
                    res = self.call_value(x, v, [], {}, st, fr)
                else:
                    res = [(x, v)]
                for y, v2 in res:
                    if y.flow is None:
                        ty = self.typeof(y, v2)
                        q = ty[1] if ty and ty[0] == "cls" else "Exception"
                        q = q.removeprefix("builtins.")
                        # A caught exception raised again keeps what is known about it.
                        known = self.caught.get(v2)
                        y.flow = ("raise", q, (), v2) if known is None else known
                        self.event(y, "raise", q, None, (v2,), (), None, st, fr)
                    out.append(y)
                continue
            out.append(x)
        return out

    def st_FunctionDef(self, s, st, fr):
        x = self.closure(st, fr)
        cur: list[tuple[State, T]] = [(s, x)]
        for d in reversed(st.decorator_list):
            target = d.func if isinstance(d, ast.Call) else d
            q = self.program.resolve_expr(fr.module, target, None) or ""
            if q in ("contextlib.contextmanager", "functools.wraps", "staticmethod"):
                continue
            nxt = []
            for s1, v in cur:
                for s2, dv in self.ev(s1, d, fr):
                    nxt.extend(self.call_value(s2, dv, [v], {}, d, fr))
            cur = nxt
        for s1, v in cur:
            self.assign(s1, ast.Name(st.name, ast.Store()), v, fr)
        return [s1 for s1, _ in cur]

    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, s, st, fr):
        s.env[(fr.fid, st.name)] = mk("localcls", st.name, fresh())
        return [s]

    # --- branches ----------------------------------------------------------
    def st_If(self, s, st, fr):
        out = []
        for x, b in self.branch(s, st.test, fr):
            if b is None:
                out.append(x)
            else:
                out.extend(self.exec_block(x, st.body if b else st.orelse, fr))
        return out

    def st_Match(self, s, st, fr):
        out = []
        for x, v in self.ev(s, st.subject, fr):
            if x.flow is not None:
                out.append(x)
                continue
            cur = [x]
            for case in st.cases:
                nxt = []
                for y in cur:
                    for z, ok in self.match_pattern(y, case.pattern, v, fr):
                        if not ok:
                            nxt.append(z)
                            continue
                        if case.guard is not None:
                            for w, b in self.branch(z, case.guard, fr):
                                if b is None:
                                    out.append(w)
                                elif b:
                                    out.extend(self.exec_block(w, case.body, fr))
                                else:
                                    nxt.append(w)
                        else:
                            out.extend(self.exec_block(z, case.body, fr))
                cur = nxt
            out.extend(cur)
        return out

    def match_pattern(self, s: State, p, v: T, fr: Frame) -> list[tuple[State, bool]]:
        if isinstance(p, ast.MatchValue):
            return [(s2, b) for s1, c in self.ev(s, p.value, fr) for s2, b in self.test(s1, self.cmp(s1, "==", v, c))]
        if isinstance(p, ast.MatchSingleton):
            return self.test(s, self.cmp(s, "is", v, const(p.value)))
        if isinstance(p, ast.MatchAs):
            res = [(s, True)] if p.pattern is None else self.match_pattern(s, p.pattern, v, fr)
            if p.name:
                for s1, b in res:
                    if b:
                        s1.env[(fr.fid, p.name)] = v
            return res
        if isinstance(p, ast.MatchOr):
            out, cur = [], [s]
            for sub in p.patterns:
                nxt = []
                for x in cur:
                    for y, b in self.match_pattern(x, sub, v, fr):
                        (out.append((y, True)) if b else nxt.append(y))
                cur = nxt
            return out + [(x, False) for x in cur]
        if isinstance(p, ast.MatchClass) and not p.patterns:
            out = []
            for s1, c in self.ev(s, p.cls, fr):
                term = self.bi_isinstance(s1, [v, c], {}, p.cls, fr)[0][1]
                for s2, b in self.test(s1, term):
                    if not b:
                        out.append((s2, False))
                        continue
                    cur = [s2]
                    for name, sub in zip(p.kwd_attrs, p.kwd_patterns):
                        nxt = []
                        for x in cur:
                            for y, av in self.read_attr(x, v, name, p.cls, fr):
                                for z, ok in self.match_pattern(y, sub, av, fr):
                                    (nxt.append(z) if ok else out.append((z, False)))
                        cur = nxt
                    out.extend((x, True) for x in cur)
            return out
        raise AnalysisError(f"unsupported pattern {type(p).__name__}")


def _as_load(e: ast.expr) -> ast.expr:
    """The same target, to read its value."""
    if isinstance(e, ast.Name):
        n: ast.expr = ast.Name(e.id, ast.Load())
    elif isinstance(e, ast.Attribute):
        n = ast.Attribute(e.value, e.attr, ast.Load())
    elif isinstance(e, ast.Subscript):
        n = ast.Subscript(e.value, e.slice, ast.Load())
    else:
        raise AnalysisError("unsupported target")
    return ast.copy_location(n, e)
