"""Evaluation of expressions over the abstract state."""

from __future__ import annotations

import ast
import builtins
import os
import stat
import typing as t

from .program import AnalysisError, BUILTIN_NAMES, ClassInfo, FuncInfo, Module, Type
from .state import Ev, Obj, State, a_none, neg
from .terms import walk_term, FALSE, NONE, TRUE, T, const, fresh, glob, mk

BINOPS = {
    ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.FloorDiv: "floordiv", ast.Mod: "mod",
    ast.BitOr: "bitor", ast.BitAnd: "bitand", ast.BitXor: "bitxor", ast.LShift: "lshift", ast.RShift: "rshift",
    ast.Pow: "pow", ast.MatMult: "matmul",
}
CMPOPS = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
    ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in",
}


class Frame:
    """One activation of a function in the (inlined) call string."""

    __slots__ = ("fid", "func", "module", "cls", "parent", "selfterm", "selfcls", "on_yield", "globals", "nonlocals")

    def __init__(self, fid: int, func: FuncInfo | None, module: Module, cls: ClassInfo | None, parent: Frame | None) -> None:
        self.fid = fid
        self.func = func
        self.module = module
        self.cls = cls
        self.parent = parent
        self.selfterm: T | None = None
        self.selfcls: str | None = None
        self.on_yield: t.Callable | None = None
        self.globals: set[str] = set()
        self.nonlocals: set[str] = set()


class Exprs:
    program: t.Any
    types: dict[T, Type]

    # --- helpers -----------------------------------------------------------
    def bind(self, results: list[tuple[State, T]], fn: t.Callable[[State, T], list]) -> list:
        out: list = []
        for s, v in results:
            if s.flow is not None:
                out.append((s, v))
            else:
                out.extend(fn(s, v))
        return out

    def evs(self, s: State, exprs: t.Sequence[ast.expr], fr: Frame) -> list[tuple[State, list[T]]]:
        cur: list[tuple[State, list[T]]] = [(s, [])]
        for e in exprs:
            nxt = []
            for s1, vs in cur:
                if s1.flow is not None:
                    nxt.append((s1, vs + [NONE]))
                    continue
                for s2, v in self.ev(s1, e, fr):
                    nxt.append((s2, vs + [v]))
            cur = nxt
            self.check_cap(len(cur))
        return cur

    def ev(self, s: State, e: ast.expr, fr: Frame) -> list[tuple[State, T]]:
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise AnalysisError(f"unsupported expression {type(e).__name__} at {fr.module.rel}:{e.lineno}")
        return m(s, e, fr)

    # --- leaves ------------------------------------------------------------
    def ev_Constant(self, s, e, fr):
        return [(s, const(e.value) if not e.value is Ellipsis else glob("builtins.Ellipsis"))]

    def ev_Name(self, s: State, e: ast.Name, fr: Frame):
        return [(s, self.lookup(s, e.id, fr))]

    def lookup(self, s: State, name: str, fr: Frame) -> T:
        f: Frame | None = fr
        while f is not None:
            v = s.env.get((f.fid, name))
            if v is not None:
                return v
            f = f.parent
        return self.global_value(fr.module, name)

    def global_value(self, module: Module, name: str) -> T:
        q = self.program.resolve_name(module, name)
        if q is None:
            return mk("undef", name, fresh())
        return self.qual_value(q)

    def qual_value(self, q: str) -> T:
        """The value of a module level name, constants are folded."""
        p = self.program
        q = p.canon(q)
        if q in p.classes or q in p.functions or q in p.modules:
            return glob(q)
        if q in self._qcache:
            return self._qcache[q]
        self._qcache[q] = glob(q)
        mod, _, name = q.rpartition(".")
        if mod in ("stat", "os") and name.startswith(("S_I", "O_")) and name.isupper() and isinstance(getattr(stat if mod == "stat" else os, name, None), int):
            # Constants of the platform, known to the analyser.
            self._qcache[q] = const(getattr(stat if mod == "stat" else os, name))
            return self._qcache[q]
        m = p.modules.get(mod)
        res = glob(q)
        if m and name in m.assigns and len(m.assigns[name]) == 1 and name not in p.global_stores(mod):
            v = self.fold(m, m.assigns[name][0], None)
            if v is not None:
                res = v
        self._qcache[q] = res
        return res

    def fold(self, m: Module, e: ast.expr, cls: ClassInfo | None) -> T | None:
        """Constant folding of a module or class level constant."""
        if isinstance(e, ast.Constant):
            return const(e.value) if e.value is not Ellipsis else None
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            elts = [self.fold(m, x, cls) for x in e.elts]
            return mk("tuple", *elts) if all(x is not None for x in elts) else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("frozenset", "tuple", "set") and len(e.args) == 1:
            return self.fold(m, e.args[0], cls)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.fold(m, e.operand, cls)
            return const(-v.a[0]) if v is not None and v.k == "const" and isinstance(v.a[0], (int, float)) else None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.fold(m, e.left, cls), self.fold(m, e.right, cls)
            if a is not None and b is not None and a.k == "const" and b.k == "const":
                try:
                    return const(a.a[0] + b.a[0])
                except TypeError:
                    return None
        if isinstance(e, (ast.Name, ast.Attribute)):
            if isinstance(e, ast.Attribute) and e.attr == "value":
                q = self.program.resolve_expr(m, e.value, cls)
                if q:
                    v = self.enum_value(glob(q))
                    if v is not None:
                        return v
            q = self.program.resolve_expr(m, e, cls)
            if q:
                c, _, nm = q.rpartition(".")
                if c in self.program.classes:
                    return self.class_attr(c, nm)
                return self.qual_value(q)
        return None

    def enum_value(self, x: T) -> T | None:
        cls = self.is_enum_member(x)
        if cls:
            c = self.program.classes[cls]
            v = self.fold(c.module, c.assigns[x.a[0].rpartition(".")[2]], c)
            return v
        return None

    def class_attr(self, cls: str, name: str) -> T | None:
        p = self.program
        if p.is_enum(cls) and name in p.classes[cls].assigns:
            return glob(f"{cls}.{name}")
        f = p.find_method(cls, name)
        if f:
            return glob(f.qual)
        found = p.find_class_assign(cls, name)
        if found and not p.is_stored_attr(name):
            return self.fold(found[0].module, found[1], found[0])
        return None

    # --- composites --------------------------------------------------------
    def ev_JoinedStr(self, s, e, fr):
        exprs = [v.value if isinstance(v, ast.FormattedValue) else v for v in e.values]

        def done(s1, vs):
            parts = []
            for v, node in zip(vs, e.values):
                if isinstance(node, ast.FormattedValue):
                    if node.conversion == ord("r") or node.format_spec is not None:
                        v = mk("op", "fmt", v, const(node.conversion), const(ast.unparse(node.format_spec) if node.format_spec else ""))
                    elif v.k != "const" and v.k != "cat" and self.typeof(s1, v) != ("cls", "str"):
                        v = mk("op", "str", v)
                parts.append(v)
            return self.cat(parts)

        return [(s1, done(s1, vs) if s1.flow is None else NONE) for s1, vs in self.evs(s, exprs, fr)]

    def cat(self, parts: list[T]) -> T:
        flat: list[T] = []
        for p in parts:
            if p.k == "cat":
                flat.extend(p.a)
            elif p.k == "op" and p.a[0] == "str" and p.a[1].k == "const":
                flat.append(const(str(p.a[1].a[0])))
            else:
                flat.append(p)
        res: list[T] = []
        for p in flat:
            if p.k == "const" and p.a[0] in ("", b""):
                continue
            if p.k == "const" and res and res[-1].k == "const" and isinstance(p.a[0], (str, bytes)) and type(res[-1].a[0]) is type(p.a[0]):
                res[-1] = const(res[-1].a[0] + p.a[0])
            else:
                res.append(p if not (p.k == "const" and not isinstance(p.a[0], (str, bytes))) else const(str(p.a[0])))
        if not res:
            return const("")
        return res[0] if len(res) == 1 else mk("cat", *res)

    def encode(self, x: T) -> T:
        """str -> bytes of every part, so equal byte strings have equal terms."""
        if x.k == "const" and isinstance(x.a[0], str):
            return const(x.a[0].encode())
        if x.k == "cat":
            return self.cat([self.encode(p) for p in x.a])
        return mk("op", "encode", x)

    def ev_Tuple(self, s, e, fr):
        return self._display(s, e.elts, fr, lambda s1, vs: self.mk_tuple(s1, vs))

    def mk_tuple(self, s: State, vs: list[T]) -> T:
        flat = []
        for v in vs:
            if v.k == "star":
                c = self.content(s, v.a[0])
                if c is not None:
                    flat.extend(c)
                    continue
            flat.append(v)
        return mk("tuple", *flat)

    def _display(self, s, elts, fr, fn):
        return [(s1, fn(s1, vs) if s1.flow is None else NONE) for s1, vs in self.evs(s, elts, fr)]

    def new_lit(self, s: State, kind: str, items: list, opened: bool = False) -> T:
        x = mk("lit", kind, fresh())
        s.cont[x] = (kind, tuple(items), opened)
        self.initial[x] = tuple(items)
        self.types[x] = ("dict", None, None) if kind == "dict" else ("cls", "set") if kind == "set" else ("list", None)
        return x

    def ev_List(self, s, e, fr):
        return self._display(s, e.elts, fr, lambda s1, vs: self.new_lit(s1, "list", self._flat(s1, vs)))

    def ev_Set(self, s, e, fr):
        return self._display(s, e.elts, fr, lambda s1, vs: self.new_lit(s1, "set", self._flat(s1, vs)))

    def _flat(self, s, vs):
        res = []
        for v in vs:
            c = self.content(s, v.a[0]) if v.k == "star" else None
            if c is not None:
                res.extend(c)
            else:
                res.append(v)
        return res

    def content(self, s: State, x: T) -> list[T] | None:
        """The elements of a container, if all are known."""
        if x.k == "tuple":
            return list(x.a)
        if x.k == "lit":
            c = s.cont.get(x)
            if c is None or c[2]:
                return None
            items = [i[0] if isinstance(i, tuple) else i for i in c[1]]
            if any(i.k in ("rest", "star") for i in items):
                return None
            return items
        return None

    def ev_Starred(self, s, e, fr):
        return self.bind(self.ev(s, e.value, fr), lambda s1, v: [(s1, mk("star", v))])

    def ev_Dict(self, s, e, fr):
        exprs = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                exprs.append(k)
            exprs.append(v)

        def done(s1, vs):
            items: list = []
            opened = False
            it = iter(vs)
            for k in e.keys:
                if k is not None:
                    kk = next(it)
                    items = [i for i in items if i[0] is not kk] + [(kk, next(it))]
                else:
                    v = next(it)
                    items, o = self.dict_merge(s1, items, v)
                    opened = opened or o
            return self.new_lit(s1, "dict", items, opened)

        return [(s1, done(s1, vs) if s1.flow is None else NONE) for s1, vs in self.evs(s, exprs, fr)]

    def dict_merge(self, s: State, items: list, v: T) -> tuple[list, bool]:
        c = s.cont.get(v) if v.k == "lit" else None
        if c is not None and c[0] == "dict":
            for k, val in c[1]:
                items = [i for i in items if i[0] is not k] + [(k, val)]
            return items, c[2]
        return items + [(mk("rest", v), v)], False

    def ev_BinOp(self, s, e, fr):
        op = BINOPS[type(e.op)]

        def done(s1, vs):
            return self.binop(s1, op, vs[0], vs[1])

        return [(s1, done(s1, vs) if s1.flow is None else NONE) for s1, vs in self.evs(s, [e.left, e.right], fr)]

    def binop(self, s: State, op: str, a: T, b: T) -> T:
        if a.k == "const" and b.k == "const" and op in ("add", "sub", "mul"):
            try:
                return const({"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y}[op](a.a[0], b.a[0]))
            except TypeError:
                pass
        ta, tb = self.typeof(s, a), self.typeof(s, b)
        strs = (("cls", "str"), ("cls", "bytes"), ("cls", "bytearray"))
        if op == "add":
            if a.k == "cat" or b.k == "cat" or ta in strs or tb in strs:
                return self.cat([a, b])
            if a.k in ("lit", "tuple") or b.k in ("lit", "tuple") or (ta and ta[0] == "list") or (tb and tb[0] == "list"):
                items = []
                for x in (a, b):
                    c = self.content(s, x)
                    if c is not None:
                        items.extend(c)
                    else:
                        items.append(mk("star", self.versioned(s, x)))
                if a.k == "tuple" and b.k == "tuple":
                    return mk("tuple", *items)
                return self.new_lit(s, "list", items)
            return self.add_int([a, b])
        if op == "sub":
            return self.add_int([a, self.neg_int(b)])
        if op == "mod" and a.k == "const" and isinstance(a.a[0], str):
            return self.percent(a.a[0], b)
        if op == "bitor" and (a.k == "lit" or b.k == "lit" or (ta and ta[0] == "dict") or (tb and tb[0] == "dict")):
            items: list = []
            o1 = o2 = False
            if a.k == "lit" and s.cont.get(a, ("",))[0] == "dict" or (ta and ta[0] == "dict") or (tb and tb[0] == "dict"):
                items, o1 = self.dict_merge(s, items, a)
                items, o2 = self.dict_merge(s, items, b)
                return self.new_lit(s, "dict", items, o1 or o2)
        if op == "div":
            return self.binop_path(a, b, ta)
        return mk("op", op, a, b)

    def binop_path(self, a: T, b: T, ta: Type) -> T:
        x = mk("op", "div", a, b)
        if ta:
            self.types[x] = ta
        return x

    # sums in a normal form: op(sum, const, (coef, term)...)
    def lin(self, x: T) -> tuple[int, dict[T, int]]:
        if x.k == "const" and isinstance(x.a[0], int) and not isinstance(x.a[0], bool):
            return x.a[0], {}
        if x.k == "op" and x.a[0] == "sum":
            return x.a[1].a[0], {tt: c.a[0] for tt, c in zip(x.a[2::2], x.a[3::2])}
        if x.k == "op" and x.a[0] == "neg":
            c, d = self.lin(x.a[1])
            return -c, {k: -v for k, v in d.items()}
        return 0, {x: 1}

    def add_int(self, xs: list[T]) -> T:
        c = 0
        d: dict[T, int] = {}
        for x in xs:
            c1, d1 = self.lin(x)
            c += c1
            for k, v in d1.items():
                d[k] = d.get(k, 0) + v
        d = {k: v for k, v in d.items() if v}
        if not d:
            return const(c)
        if c == 0 and len(d) == 1 and next(iter(d.values())) == 1:
            return next(iter(d))
        flat: list[T] = []
        for k in sorted(d, key=lambda k: k.n):
            flat += [k, const(d[k])]
        return mk("op", "sum", const(c), *flat)

    def neg_int(self, x: T) -> T:
        c, d = self.lin(x)
        if not d:
            return const(-c)
        flat: list[T] = []
        for k in sorted(d, key=lambda k: k.n):
            flat += [k, const(-d[k])]
        return mk("op", "sum", const(-c), *flat)

    def percent(self, fmt: str, b: T) -> T:
        import re

        args = list(b.a) if b.k == "tuple" else [b]
        parts = re.split(r"(%%|%[sd])", fmt)
        res: list[T] = []
        for p in parts:
            if p == "%%":
                res.append(const("%"))
            elif p in ("%s", "%d"):
                if not args:
                    return mk("op", "mod", const(fmt), b)
                v = args.pop(0)
                res.append(v)
            elif p:
                if "%" in p:
                    return mk("op", "mod", const(fmt), b)
                res.append(const(p))
        return self.cat(res)

    def ev_UnaryOp(self, s, e, fr):
        if isinstance(e.op, ast.Not):
            return self.bind(self.ev(s, e.operand, fr), lambda s1, v: [(s1, neg(self.as_bool(s1, v)))])
        if isinstance(e.op, ast.USub):
            return self.bind(self.ev(s, e.operand, fr), lambda s1, v: [(s1, self.neg_int(v))])
        return self.bind(self.ev(s, e.operand, fr), lambda s1, v: [(s1, mk("op", type(e.op).__name__, v))])

    def as_bool(self, s: State, v: T) -> T:
        a = self.truth(s, v)
        k = self.known(s, a)
        return const(k) if k is not None else a

    def ev_BoolOp(self, s, e, fr):
        stop = isinstance(e.op, ast.Or)
        # Comparisons only: keep it as one term instead of splitting the path.
        cur: list[State] = [s]
        out: list[tuple[State, T]] = []
        for i, v in enumerate(e.values):
            nxt: list[State] = []
            last = i == len(e.values) - 1
            for s1 in cur:
                for s2, val in self.ev(s1, v, fr):
                    if s2.flow is not None or last:
                        out.append((s2, val))
                        continue
                    for s3, b in self.test(s2, val):
                        if b == stop:
                            out.append((s3, TRUE if stop and self.is_bool(val) else FALSE if not stop and self.is_bool(val) else val))
                        else:
                            nxt.append(s3)
            cur = nxt
        return out

    def is_bool(self, v: T) -> bool:
        return (v.k == "op" and v.a[0] in ("not", "and", "or", "truthy", "isnone", "eq", "lt", "in", "isa", "any", "all")) or (
            v.k == "const" and isinstance(v.a[0], bool)
        )

    def ev_Compare(self, s, e, fr):
        def done(s1, vs):
            parts = [self.cmp(s1, CMPOPS[type(op)], a, b) for op, a, b in zip(e.ops, vs, vs[1:])]
            if len(parts) == 1:
                return parts[0]
            if any(p is FALSE for p in parts):
                return FALSE
            parts = [p for p in parts if p is not TRUE]
            return mk("op", "and", *parts) if len(parts) > 1 else parts[0] if parts else TRUE

        return [(s1, done(s1, vs) if s1.flow is None else NONE) for s1, vs in self.evs(s, [e.left, *e.comparators], fr)]

    def branch(self, s: State, e: ast.expr, fr: Frame) -> list[tuple[State, bool | None]]:
        """Splits on a condition, None: the evaluation raised."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s1, None if b is None else not b) for s1, b in self.branch(s, e.operand, fr)]
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            cur = [s]
            out: list[tuple[State, bool | None]] = []
            for v in e.values:
                nxt = []
                for s1 in cur:
                    for s2, b in self.branch(s1, v, fr):
                        if b is None or b == stop:
                            out.append((s2, b))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(s1, not stop) for s1 in cur]
        res: list[tuple[State, bool | None]] = []
        for s1, v in self.ev(s, e, fr):
            if s1.flow is not None:
                res.append((s1, None))
            else:
                res.extend(self.test(s1, v))
        self.check_cap(len(res))
        return res

    def ev_IfExp(self, s, e, fr):
        out = []
        for s1, b in self.branch(s, e.test, fr):
            if b is None:
                out.append((s1, NONE))
            else:
                out.extend(self.ev(s1, e.body if b else e.orelse, fr))
        return out

    def ev_NamedExpr(self, s, e, fr):
        def done(s1, v):
            s1.env[(fr.fid, e.target.id)] = v
            return [(s1, v)]

        return self.bind(self.ev(s, e.value, fr), done)

    def ev_Lambda(self, s, e, fr):
        return [(s, self.closure(e, fr))]

    def closure(self, node, fr: Frame) -> T:
        x = mk("closure", id(node), fr.fid)
        self.closures[x] = (node, fr)
        f: Frame | None = fr
        while f is not None:
            self.captured.add(f.fid)
            f = f.parent
        return x

    def ev_Await(self, s, e, fr):
        return self.ev(s, e.value, fr)

    def ev_Slice(self, s, e, fr):
        exprs = [x for x in (e.lower, e.upper) if x is not None]

        def done(vs):
            it = iter(vs)
            lo = next(it) if e.lower is not None else const(0)
            hi = next(it) if e.upper is not None else NONE
            return mk("sl", lo, hi)

        return [(s1, done(vs) if s1.flow is None else NONE) for s1, vs in self.evs(s, exprs, fr)]

    def ev_Subscript(self, s, e, fr):
        def done(s1, vs):
            if s1.flow is not None:
                return NONE
            return self.read_item(s1, *vs)

        out = []
        for s1, vs in self.evs(s, [e.value, e.slice], fr):
            if self.reads and s1.flow is None and isinstance(e.value, ast.Attribute) and e.value.attr in self.reads:
                self.event(s1, "getitem", e.value.attr, vs[0], (vs[1],), (), None, e, fr)
            for s2 in self.by_key(s1, *vs) if s1.flow is None else [s1]:
                out.append((s2, done(s2, vs)))
        return out

    def by_key(self, s: State, base: T, key: T) -> list[State]:
        """One state for each key that something read from a table of containers or functions can have."""
        c = s.cont.get(base) if base.k == "lit" else None
        if c is None or c[0] != "dict" or c[2] or key.k in ("const", "glob") or not 0 < len(c[1]) <= 6:
            return [s]
        if not all(k.k == "const" and v.k in ("lit", "func", "bound", "closure", "meth") for k, v in c[1]):
            return [s]
        out = []
        cur = [s]
        for k, _ in c[1]:
            nxt = []
            for s1 in cur:
                for s2, b in self.test(s1, self.cmp(s1, "==", key, k)):
                    (out if b else nxt).append(s2)
            cur = nxt
        return out + cur

    def read_item(self, s: State, base: T, key: T) -> T:
        if key.k == "sl":
            return self.read_slice(s, base, key.a[0], key.a[1])
        if base.k == "tuple" and key.k == "const" and isinstance(key.a[0], int):
            try:
                return base.a[key.a[0]]
            except IndexError:
                pass
        if base.k == "const" and isinstance(base.a[0], (str, bytes)) and key.k == "const":
            try:
                return const(base.a[0][key.a[0]])
            except (IndexError, TypeError):
                pass
        if (base, key) in s.items:
            return s.items[(base, key)]
        if base.k == "lit":
            c = s.cont.get(base)
            if c is not None:
                if c[0] == "dict":
                    for k, v in reversed(c[1]):
                        same = self.known(s, self.cmp(s, "==", key, k)) if key.k != "const" and k.k == "const" else None
                        if k is key or same:
                            return v
                        if same is None and not self.distinct(k, key):
                            break
                elif key.k == "const" and isinstance(key.a[0], int) and not c[2]:
                    items = c[1]
                    if not any(i.k in ("rest", "star") for i in items):
                        try:
                            return items[key.a[0]]
                        except IndexError:
                            pass
                    elif key.a[0] >= 0 and not any(i.k in ("rest", "star") for i in items[: key.a[0] + 1]) and key.a[0] < len(items):
                        return items[key.a[0]]
        x = mk("item", base, key, self.item_ver(s, base))
        return x

    def item_ver(self, s: State, base: T) -> tuple:
        cv = s.cver.get(base, 0)
        if base.k in ("lit", "new", "call", "elem", "tuple", "param"):
            return (cv,)
        return (cv, s.epoch)

    def read_slice(self, s: State, base: T, lo: T, hi: T) -> T:
        if lo is const(0) and hi is NONE:
            # a copy
            return self.copy_of(s, base)
        if base.k == "const" and lo.k == "const" and hi.k == "const":
            return const(base.a[0][lo.a[0] : hi.a[0]])
        ver = self.item_ver(s, base)
        x = mk("slice", base, lo, hi, ver)
        ty = self.typeof(s, base)
        if ty:
            self.types[x] = ty
        return x

    def copy_of(self, s: State, base: T) -> T:
        if base.k in ("const", "cat", "tuple", "slice"):
            return base
        c = s.cont.get(base)
        if c is not None:
            return self.new_lit(s, c[0], list(c[1]), c[2])
        ty = self.typeof(s, base)
        if ty in (("cls", "str"), ("cls", "bytes")):
            return base
        if ty and ty[0] == "list":
            x = self.new_lit(s, "list", [mk("star", self.versioned(s, base))])
            self.types[x] = ty
            return x
        return mk("op", "copy", self.versioned(s, base))

    # --- comprehensions ----------------------------------------------------
    def ev_ListComp(self, s, e, fr):
        return self.comp(s, "list", [e.elt], e.generators, fr)

    def ev_SetComp(self, s, e, fr):
        return self.comp(s, "set", [e.elt], e.generators, fr)

    def ev_GeneratorExp(self, s, e, fr):
        return self.comp(s, "gen", [e.elt], e.generators, fr)

    def ev_DictComp(self, s, e, fr):
        return self.comp(s, "dict", [e.key, e.value], e.generators, fr)

    def comp(self, s: State, kind: str, elts: list[ast.expr], gens: list[ast.comprehension], fr: Frame):
        sub = Frame(fresh(), fr.func, fr.module, fr.cls, fr)
        sub.selfterm, sub.selfcls = fr.selfterm, fr.selfcls
        if len(gens) == 1 and not gens[0].ifs:
            out = []
            for s1, it in self.ev(s, gens[0].iter, fr):
                items = self.known_items(s1, it) if s1.flow is None else None
                if items is not None:
                    out.extend(self.comp_unrolled(s1, kind, elts, gens[0], items, sub, fr))
                elif s1.flow is not None:
                    out.append((s1, NONE))
                else:
                    out.extend(self.comp_over(s1, kind, elts, gens, it, sub, fr))
            return self.merge(out)
        if len(gens) > 1 and not any(g.ifs for g in gens):
            out = self.comp_nested(s.copy(), kind, elts, gens, sub, fr)
            if out is not None:
                return self.merge(out)
        return self.comp_over(s, kind, elts, gens, None, sub, fr)

    def comp_nested(self, s: State, kind: str, elts: list[ast.expr], gens: list[ast.comprehension], sub: Frame, fr: Frame):
        """A comprehension over literals in literals, element by element; None when they are not known."""

        def go(s1: State, i: int, got: list) -> list[tuple[State, list]] | None:
            if i == len(gens):
                res = []
                for s2, vs in self.evs(s1, elts, sub):
                    if s2.flow is not None:
                        return None
                    res.append((s2, got + [vs[0] if len(vs) == 1 else mk("tuple", *vs)]))
                return res
            srcs = self.ev(s1, gens[i].iter, sub if i else fr)
            if len(srcs) != 1 or srcs[0][0].flow is not None:
                return None
            items = self.known_items(srcs[0][0], srcs[0][1])
            if items is None or any(x.k == "star" for x in items):
                return None
            now = [(srcs[0][0], got)]
            for it in items:
                nxt = []
                for s2, g2 in now:
                    self.assign(s2, gens[i].target, it, sub)
                    res = go(s2, i + 1, g2)
                    if res is None:
                        return None
                    nxt += res
                now = nxt
                if len(now) > 8:
                    return None
            return now

        cur = go(s, 0, [])
        if cur is None:
            return None
        out = []
        for s1, got in cur:
            items = [(v.a[0], v.a[1]) for v in got] if kind == "dict" else got
            out.append((s1, self.new_lit(s1, kind if kind in ("dict", "set") else "list", items)))
            if sub.fid not in self.captured:
                for key in [k for k in s1.env if k[0] == sub.fid]:
                    del s1.env[key]
        return out

    def known_items(self, s: State, it: T) -> list[T] | None:
        c = s.cont.get(it) if it.k == "lit" else None
        items = list(it.a) if it.k == "tuple" else list(c[1]) if c is not None and not c[2] and c[0] != "dict" else None
        if items is None or any(not isinstance(i, T) or i.k == "rest" for i in items):
            return None
        return items

    def comp_unrolled(self, s: State, kind: str, elts: list[ast.expr], g: ast.comprehension, items: list[T], sub: Frame, fr: Frame):
        cur: list[tuple[State, list]] = [(s, [])]
        failed: list[tuple[State, T]] = []
        for it in items:
            nxt = []
            for s1, got in cur:
                srcs = self.elem_of(s1, it.a[0], fresh()) if it.k == "star" else [(s1, it)]
                for s2, el in srcs:
                    self.assign(s2, g.target, el, sub)
                    for s3, vs in self.evs(s2, elts, sub):
                        if s3.flow is not None:
                            failed.append((s3, NONE))
                            continue
                        v = vs[0] if len(vs) == 1 else mk("tuple", *vs)
                        if it.k == "star":
                            v = mk("star", mk("comp", "list", v, (it.a[0],), ()))
                        nxt.append((s3, got + [v]))
            cur = nxt
            self.check_cap(len(cur))
        out = failed
        for s1, got in cur:
            if kind == "dict":
                if any(v.k == "star" for v in got):
                    out.append((s1, self.new_lit(s1, kind, [], True)))
                else:
                    out.append((s1, self.new_lit(s1, kind, [(v.a[0], v.a[1]) for v in got])))
            else:
                out.append((s1, self.new_lit(s1, "set" if kind == "set" else "list", got)))
        if sub.fid not in self.captured:
            for s1, _ in out:
                for key in [k for k in s1.env if k[0] == sub.fid]:
                    del s1.env[key]
        return out

    def comp_over(self, s: State, kind: str, elts: list[ast.expr], gens: list[ast.comprehension], first: T | None, sub: Frame, fr: Frame):
        def go(s1: State, i: int, iters: tuple, conds: tuple) -> list[tuple[State, T]]:
            if i == len(gens):
                out = []
                if self.only_truth(elts):
                    return [(s1, mk("comp", kind, self.cond_term(s1, elts[0], sub), iters, conds))]
                for s2, vs in self.evs(s1, elts, sub):
                    if s2.flow is not None:
                        out.append((s2, NONE))
                        continue
                    elt = vs[0] if len(vs) == 1 else mk("tuple", *vs)
                    x = mk("comp", kind, elt, iters, conds)
                    out.append((s2, x))
                return out
            g = gens[i]
            out = []
            for s2, it in [(s1, first)] if i == 0 and first is not None else self.ev(s1, g.iter, fr if i == 0 else sub):
                if s2.flow is not None:
                    out.append((s2, NONE))
                    continue
                loop = fresh()
                self.event(s2, "loop", "comprehension", it, (), (), const(loop), g.iter, fr)
                s2.loops = s2.loops + (loop,)
                for s3, el in self.elem_of(s2, it, loop):
                    self.assign(s3, g.target, el, sub)
                    cs = conds
                    for c in g.ifs:
                        cs = cs + (self.cond_term(s3, c, sub),)
                    # The element is evaluated with the conditions known.
                    ok = True
                    pc, isa = s3.pc, s3.isa
                    for c in cs:
                        ok = self.assume(s3, c, True) and ok
                    for s4, v in go(s3, i + 1, iters + (it,), cs):
                        if s4.loops and s4.loops[-1] == loop:
                            s4.loops = s4.loops[:-1]
                        s4.pc, s4.isa = self._restore(s4, pc), isa
                        self.event(s4, "loopend", "comprehension", it, (), (), const(loop), g.iter, fr)
                        out.append((s4, v))
            return out

        out = go(s, 0, (), ())
        if kind == "list" and len(elts) == 1:
            # A copy written as a comprehension.
            res = []
            for s1, v in out:
                if v.k == "comp" and not v.a[3] and len(v.a[2]) == 1 and self.is_element(v.a[1], v.a[2][0]):
                    res.extend(self._iter_wrap(s1, "list", [v.a[2][0]]))
                else:
                    res.append((s1, v))
            out = res
        if sub.fid not in self.captured:
            for s1, _ in out:
                for key in [k for k in s1.env if k[0] == sub.fid]:
                    del s1.env[key]
        return self.merge(out)

    def only_truth(self, elts: list[ast.expr]) -> bool:
        """The elements are conditions of any() or all()."""
        return len(elts) == 1 and getattr(elts[0], "_only_truth", False)

    def is_element(self, x: T, it: T) -> bool:
        src = self.iter_source(it)
        while src.k == "ver":
            src = src.a[0]
        return x.k == "elem" and (x.a[0] is src or x.a[0] is it)

    def _restore(self, s: State, pc: dict) -> dict:
        # Facts found while evaluating an element do not hold for the others.
        return pc

    def cond_term(self, s: State, c: ast.expr, fr: Frame) -> T:
        """The condition as one term, without splitting the path."""
        if isinstance(c, ast.BoolOp):
            parts = [self.cond_term(s, v, fr) for v in c.values]
            return mk("op", "and" if isinstance(c.op, ast.And) else "or", *parts)
        if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
            return neg(self.cond_term(s, c.operand, fr))
        res = self.ev(s.copy(), c, fr)
        res = [(s1, v) for s1, v in res if s1.flow is None]
        if len(res) == 1:
            return self.truth(res[0][0], res[0][1])
        return mk("op", "cond", *[v for _, v in res])

    # --- attributes --------------------------------------------------------
    def ev_Attribute(self, s, e, fr):
        if e.attr in self.reads:
            return self.bind(self.ev(s, e.value, fr), lambda s1, v: self.noted(self.read_attr(s1, v, e.attr, e, fr), v, e, fr))
        return self.bind(self.ev(s, e.value, fr), lambda s1, v: self.read_attr(s1, v, e.attr, e, fr))

    def noted(self, res: list, base: T, e, fr: Frame) -> list:
        """Reads of the attributes a rule asks for are events too."""
        for s, v in res:
            self.event(s, "getattr", e.attr, base, (), (), v, e, fr)
        return res

    def read_attr(self, s: State, base: T, name: str, node, fr: Frame) -> list[tuple[State, T]]:
        p = self.program
        if base.k == "glob":
            q = base.a[0]
            ev = self.enum_value(base) if name == "value" else None
            if ev is not None:
                return [(s, ev)]
            if name == "name" and self.is_enum_member(base):
                return [(s, const(q.rpartition(".")[2]))]
            if name == "__name__" and (q in p.classes or q in p.functions or q.startswith("builtins.") and hasattr(builtins, q[9:])):
                return [(s, const(q.rpartition(".")[2]))]
            c = p.canon(f"{q}.{name}")
            if q in p.classes:
                if (base, name) in s.heap:
                    return [(s, s.heap[(base, name)])]
                v = self.class_attr(q, name)
                if v is not None:
                    f = p.find_method(q, name)
                    if f and f.is_classmethod:
                        return [(s, mk("bound", f.qual, base))]
                    return [(s, v)]
                return [(s, mk("attr", base, name, ()))]
            if q in p.modules or q in p.functions or c in p.classes or c in p.functions:
                return [(s, self.qual_value(c))]
            mod, _, nm = q.rpartition(".")
            if mod in p.modules:
                # a module level object
                return self._read_obj(s, base, name, node, fr)
            return [(s, self.qual_value(c))]
        return self._read_obj(s, base, name, node, fr)

    def _read_obj(self, s: State, base: T, name: str, node, fr: Frame) -> list[tuple[State, T]]:
        p = self.program
        if (base, name) in s.heap:
            return [(s, s.heap[(base, name)])]
        if base.k == "new" and (name,) in s.heap.get((base, "__missing__"), ()):
            pass
        ty = self.typeof(s, base)
        if ty and ty[0] == "cls" and ty[1] in p.classes:
            q = ty[1]
            exact = base.k in ("new", "single")
            impls = self.impls(q, name, exact)
            if impls:
                f = impls[0]
                if f.is_property:
                    if len(impls) == 1:
                        return self.call_func(s, f, base, [], {}, node, fr, selfcls=q)
                    x = mk("attr", base, name, (s.epoch,))
                    rt = p.return_type(p.find_method(q, name) or f)
                    if rt:
                        self.types[x] = rt
                    return [(s, x)]
                decl = p.find_method(q, name) or f
                return [(s, mk("bound", decl.qual, base))]
            disp = self.dispatch_owner(q, name)
            if disp:
                return [(s, mk("bound", f"{disp}.{name}", base))]
            found = p.find_class_assign(q, name)
            if found and not p.is_stored_attr(name) and name not in found[0].annots:
                v = self.fold(found[0].module, found[1], found[0])
                if v is not None:
                    return [(s, v)]
            if found and not p.is_stored_attr(name) and "ClassVar" in ast.dump(found[0].annots.get(name, ast.Constant(0))):
                v = self.fold(found[0].module, found[1], found[0])
                if v is not None:
                    return [(s, v)]
        if name == "__class__":
            return [(s, mk("op", "type", base))]
        return [(s, mk("attr", base, name, self.attr_ver(s, base, name)))]

    def attr_ver(self, s: State, base: T, name: str) -> tuple:
        if self.program.is_stable_attr(name):
            return ()
        return (s.epoch, s.aver.get(name, 0))

    def dispatch_owner(self, q: str, name: str) -> str | None:
        for c in self.program.mro(q):
            ci = self.program.classes.get(c)
            if ci and name in ci.dispatch:
                return c
        return None

    def impls(self, q: str, name: str, exact: bool) -> list[FuncInfo]:
        """The implementations a call of the method can reach."""
        p = self.program
        own = p.find_method(q, name)
        if exact:
            return [own] if own else []
        res: list[FuncInfo] = []
        for sub in sorted(p.subclasses(q)):
            f = p.find_method(sub, name)
            if f and f not in res and not self.is_stub(f):
                res.append(f)
        if not res and own:
            return [own]
        return res

    def is_stub(self, f: FuncInfo) -> bool:
        """An interface declaration without behaviour."""
        body = [b for b in f.node.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
        if len(body) == 1 and isinstance(body[0], ast.Raise) and body[0].exc is not None:
            q = self.program.resolve_expr(f.module, body[0].exc.func if isinstance(body[0].exc, ast.Call) else body[0].exc, None)
            return q == "builtins.NotImplementedError"
        return False

    # --- iteration ---------------------------------------------------------
    def elem_of(self, s: State, it: T, loop: int) -> list[tuple[State, T]]:
        """A generic element of an iterable."""
        if it.k == "ver":
            it = it.a[0]
        if it.k == "gen":
            return [r for s1, lit in self.drain(s, it) if s1.flow is None for r in self.elem_of(s1, lit, loop)]
        if it.k == "op" and it.a[0] in ("list", "iter", "copy", "sorted", "set", "tuple", "reversed", "values", "keys", "items", "enumerate", "frozenset"):
            op, x = it.a[0], it.a[1]
            if x.k == "ver":
                x = x.a[0]
            if op == "values":
                k = mk("elem", x, loop)
                return [(s, self.read_item(s, x, k))]
            if op == "keys":
                return self.elem_of(s, x, loop)
            if op == "items":
                k = mk("elem", x, loop)
                return [(s, mk("tuple", k, self.read_item(s, x, k)))]
            if op == "enumerate":
                idx = mk("elem_idx", x, loop)
                if len(it.a) > 2:
                    idx = mk("op", "enumerated", idx, it.a[2])
                return [(s2, mk("tuple", idx, v)) for s2, v in self.elem_of(s, x, loop)]
            return self.elem_of(s, x, loop)
        if it.k == "comp":
            _, elt, iters, conds = it.a
            # Rename: each loop over the comprehension sees its own element.
            for c in conds:
                if not self.assume(s, c, True):
                    return []
                if any(y.k == "attr" and y.a[0] is elt for y in walk_term(c)):
                    # Its attribute was read to choose it.
                    self.assume(s, mk("op", "isnone", elt), False)
            return [(s, elt if it.a[0] != "dict" else elt.a[0])]
        if it.k == "lit":
            c = s.cont.get(it)
            if c is not None and c[1]:
                out = []
                for i in c[1]:
                    v = i[0] if isinstance(i, tuple) else i
                    if v.k in ("rest",):
                        continue
                    s2 = s.copy()
                    if v.k == "star":
                        out.extend(self.elem_of(s2, v.a[0], loop))
                    else:
                        out.append((s2, v))
                if out:
                    return out
        if it.k == "star":
            return self.elem_of(s, it.a[0], loop)
        return [(s, mk("elem", it, loop))]
