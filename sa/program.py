"""Program model: modules, symbols, classes, functions and types of /repo's source.

Everything is built from the syntax trees of the current working tree, nothing is
imported or executed.
"""

from __future__ import annotations

import ast
import builtins
import hashlib
import os
import pathlib
import typing as t

REPO = pathlib.Path(os.environ.get("SA_REPO", "/repo"))
SRC = REPO / "src" / "ansibug"


class AnalysisError(Exception):
    """The analysis could not be done (a vanished anchor, too many paths, ...)."""


# --- types -----------------------------------------------------------------
# A type is None (unknown) or a tuple: ("cls", qual), ("list", T), ("dict", K, V),
# ("callable", R), ("type", qual), ("tuple", (T, ...)), ("iter", T)
Type = t.Optional[tuple]


def cls_type(qual: str) -> Type:
    return ("cls", qual)


class FuncInfo:
    def __init__(self, module: Module, node, cls: ClassInfo | None, qual: str) -> None:
        self.module = module
        self.node = node
        self.cls = cls
        self.qual = qual
        self.name = node.name
        self.decorators: list[str] = []
        for d in node.decorator_list:
            target = d.func if isinstance(d, ast.Call) else d
            self.decorators.append(module.program.resolve_expr(module, target, cls) or ast.unparse(target))

    @property
    def is_property(self) -> bool:
        return any(d in ("property", "builtins.property", "functools.cached_property") for d in self.decorators)

    @property
    def is_static(self) -> bool:
        return any(d.endswith("staticmethod") for d in self.decorators)

    @property
    def is_classmethod(self) -> bool:
        return any(d.endswith("classmethod") for d in self.decorators)

    @property
    def is_contextmanager(self) -> bool:
        return any(d == "contextlib.contextmanager" for d in self.decorators)

    @property
    def is_singledispatch(self) -> bool:
        return any(d in ("functools.singledispatchmethod", "functools.singledispatch") for d in self.decorators)

    @property
    def registers(self) -> str | None:
        """Name of the single dispatch function this one is registered on."""
        for d in self.node.decorator_list:
            target = d.func if isinstance(d, ast.Call) else d
            if isinstance(target, ast.Attribute) and target.attr == "register" and isinstance(target.value, ast.Name):
                return target.value.id
        return None

    @property
    def params(self) -> list[ast.arg]:
        a = self.node.args
        return [*a.posonlyargs, *a.args]

    @property
    def loc(self) -> str:
        return f"{self.module.rel}:{self.node.lineno} ({self.qual})"

    def __repr__(self) -> str:
        return f"<func {self.qual}>"


class ClassInfo:
    def __init__(self, module: Module, node: ast.ClassDef, qual: str) -> None:
        self.module = module
        self.node = node
        self.qual = qual
        self.name = node.name
        self.methods: dict[str, FuncInfo] = {}
        self.all_funcs: list[FuncInfo] = []
        self.dispatch: dict[str, list[FuncInfo]] = {}
        self.assigns: dict[str, ast.expr] = {}
        self.annots: dict[str, ast.expr] = {}
        self.field_order: list[str] = []
        self._collect(node.body)

    def _collect(self, body: list[ast.stmt]) -> None:
        for stmt in body:
            if isinstance(stmt, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(self.module, stmt, self, f"{self.qual}.{stmt.name}")
                reg = f.registers
                self.all_funcs.append(f)
                if reg:
                    f.qual = f"{self.qual}.{reg}[{ast.unparse(self._dispatch_annot(f)) if self._dispatch_annot(f) else '?'}]"
                    self.dispatch.setdefault(reg, []).append(f)
                else:
                    self.methods[stmt.name] = f
            elif isinstance(stmt, ast.Assign):
                for tgt in stmt.targets:
                    if isinstance(tgt, ast.Name):
                        self.assigns[tgt.id] = stmt.value
            elif isinstance(stmt, ast.AnnAssign) and isinstance(stmt.target, ast.Name):
                self.annots[stmt.target.id] = stmt.annotation
                self.field_order.append(stmt.target.id)
                if stmt.value is not None:
                    self.assigns[stmt.target.id] = stmt.value
            elif isinstance(stmt, (ast.If, ast.Try)):
                for sub in ("body", "orelse", "finalbody"):
                    self._collect(getattr(stmt, sub, []) or [])

    def _dispatch_annot(self, f: FuncInfo) -> ast.expr | None:
        for d in f.node.decorator_list:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "register" and d.args:
                return d.args[0]
        params = f.params[1:]
        return params[0].annotation if params else None

    def dispatch_table(self, name: str) -> dict[str, FuncInfo]:
        """Registered type -> implementation."""
        res: dict[str, FuncInfo] = {}
        for f in self.dispatch.get(name, []):
            ann = self._dispatch_annot(f)
            if ann is None:
                continue
            for q in self.module.program.annot_quals(self.module, ann):
                res[q] = f
        return res

    @property
    def bases(self) -> list[str]:
        res = []
        for b in self.node.bases:
            q = self.module.program.resolve_expr(self.module, b, None)
            res.append(q or ast.unparse(b))
        return res

    @property
    def is_dataclass(self) -> bool:
        return any(
            (self.module.program.resolve_expr(self.module, d.func if isinstance(d, ast.Call) else d, None) or "")
            == "dataclasses.dataclass"
            for d in self.node.decorator_list
        )

    @property
    def loc(self) -> str:
        return f"{self.module.rel}:{self.node.lineno} ({self.qual})"

    def __repr__(self) -> str:
        return f"<class {self.qual}>"


class IterUntil(ast.NodeTransformer):
    """for x in iter(f, end) is the same as calling f until it returns end."""

    def visit_For(self, node: ast.For) -> ast.AST:
        self.generic_visit(node)
        it = node.iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "iter" and len(it.args) == 2 and not it.keywords and isinstance(node.target, ast.Name) and not node.orelse):
            return node
        end = it.args[1]
        load = ast.copy_location(ast.Name(node.target.id, ast.Load()), end)
        op = ast.Is() if isinstance(end, ast.Constant) and end.value is None else ast.Eq()
        test = ast.copy_location(ast.Compare(load, [op], [end]), end)
        got = ast.copy_location(ast.Assign([node.target], ast.copy_location(ast.Call(it.args[0], [], []), it.args[0])), node.target)
        got.end_lineno, got.end_col_offset = it.args[0].end_lineno, it.args[0].end_col_offset
        stop = ast.copy_location(ast.If(test, [ast.copy_location(ast.Break(), end)], []), end)
        return ast.copy_location(ast.While(ast.copy_location(ast.Constant(True), it), [got, stop, *node.body], []), node)


class LoopGuard(ast.NodeTransformer):
    """while True: if c: break; ... is the same as while not c: ..."""

    def visit_While(self, node: ast.While) -> ast.AST:
        self.generic_visit(node)
        if node.orelse or not (isinstance(node.test, ast.Constant) and node.test.value) or not node.body:
            return node
        first = node.body[0]
        if not (isinstance(first, ast.If) and not first.orelse and len(first.body) == 1 and isinstance(first.body[0], ast.Break) and len(node.body) > 1):
            return node
        test = ast.copy_location(ast.UnaryOp(ast.Not(), first.test), first.test)
        return ast.copy_location(ast.While(test, node.body[1:], []), node)


class FirstMatch(ast.NodeTransformer):
    """next((x for x in y if f(x)), z) is a loop that is left at the first x, written out where f is more than a look at x."""

    def part(self, value: ast.expr | None) -> tuple[ast.GeneratorExp, ast.expr] | None:
        if not (isinstance(value, ast.Call) and isinstance(value.func, ast.Name) and value.func.id == "next" and len(value.args) == 2 and not value.keywords):
            return None
        g, d = value.args
        if not isinstance(g, ast.GeneratorExp) or len(g.generators) != 1 or not g.generators[0].ifs or not isinstance(d, (ast.Constant, ast.Name)):
            return None
        if not any(isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and not hasattr(builtins, c.func.id) for k in g.generators[0].ifs for c in ast.walk(k)):
            return None
        return g, d

    def loop(self, node: ast.stmt, g: ast.GeneratorExp, found: list[ast.stmt], orelse: list[ast.stmt]) -> ast.stmt:
        gen = g.generators[0]
        names = {n.id for n in ast.walk(gen.target) if isinstance(n, ast.Name)}
        for x in (gen.target, *gen.ifs, *found):
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and n.id in names and not getattr(n, "_outer", False):
                    n.id = f"{n.id}.first"
        test = gen.ifs[0] if len(gen.ifs) == 1 else ast.copy_location(ast.BoolOp(ast.And(), gen.ifs), node)
        return ast.copy_location(ast.For(gen.target, gen.iter, [ast.copy_location(ast.If(test, found, []), test)], orelse, None), node)

    def visit_Return(self, node: ast.Return) -> t.Any:
        m = self.part(node.value)
        if m is None:
            return node
        g, d = m
        found = ast.copy_location(ast.Return(g.elt), node)
        return [self.loop(node, g, [found], []), ast.copy_location(ast.Return(d), node)]

    def visit_Assign(self, node: ast.Assign) -> t.Any:
        m = self.part(node.value)
        if m is None or len(node.targets) != 1 or not isinstance(node.targets[0], ast.Name):
            return node
        return self.assigned(node, node.targets[0], m)

    def visit_AnnAssign(self, node: ast.AnnAssign) -> t.Any:
        m = self.part(node.value)
        if m is None or not isinstance(node.target, ast.Name):
            return node
        return self.assigned(node, node.target, m)

    def assigned(self, node: ast.stmt, target: ast.Name, m: tuple[ast.GeneratorExp, ast.expr]) -> t.Any:
        g, d = m
        first, last = (ast.copy_location(ast.Name(target.id, ast.Store()), target) for _ in range(2))
        first._outer = True  # type: ignore[attr-defined]
        got = ast.copy_location(ast.Assign([first], g.elt), node)
        return self.loop(node, g, [got, ast.copy_location(ast.Break(), node)], [ast.copy_location(ast.Assign([last], d), node)])


class ByIndex(ast.NodeTransformer):
    """for i in range(len(xs)), where i is only used for xs[i], is a loop over xs."""

    def visit_For(self, node: ast.For) -> ast.AST:
        self.generic_visit(node)
        it = node.iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) == 1 and not it.keywords and isinstance(node.target, ast.Name)):
            return node
        size = it.args[0]
        if not (isinstance(size, ast.Call) and isinstance(size.func, ast.Name) and size.func.id == "len" and len(size.args) == 1 and isinstance(size.args[0], ast.Name)):
            return node
        xs, i = size.args[0].id, node.target.id
        inside = [n for st in (*node.body, *node.orelse) for n in ast.walk(st)]
        at = [n for n in inside if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == xs and isinstance(n.slice, ast.Name) and n.slice.id == i]
        own = {id(n.value) for n in at} | {id(n.slice) for n in at}
        if not at or any(isinstance(n, ast.Name) and n.id in (xs, i) and id(n) not in own for n in inside):
            return node

        class Use(ast.NodeTransformer):
            def visit_Subscript(self, n: ast.Subscript) -> ast.AST:
                self.generic_visit(n)
                return ast.copy_location(ast.Name(f"{i}.item", ast.Load()), n) if n in at else n

        body = [Use().visit(st) for st in node.body]
        orelse = [Use().visit(st) for st in node.orelse]
        return ast.copy_location(ast.For(ast.copy_location(ast.Name(f"{i}.item", ast.Store()), node.target), size.args[0], body, orelse, None), node)


class KeyMissing(ast.NodeTransformer):
    """try: return xs[k] except KeyError: ... asks whether k is in xs."""

    def visit_Try(self, node: ast.Try) -> ast.AST:
        self.generic_visit(node)
        if len(node.body) != 1 or len(node.handlers) != 1 or node.finalbody:
            return node
        st, h = node.body[0], node.handlers[0]
        if not (isinstance(h.type, ast.Name) and h.type.id == "KeyError" and h.name is None) or any(isinstance(n, ast.Raise) and n.exc is None for x in h.body for n in ast.walk(x)):
            return node
        if not (isinstance(st, ast.Return) or isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name)):
            return node
        got = st.value
        if not (isinstance(got, ast.Subscript) and all(isinstance(n, (ast.Name, ast.Attribute, ast.Constant, ast.expr_context)) for x in (got.value, got.slice) for n in ast.walk(x))):
            return node
        test = ast.copy_location(ast.Compare(got.slice, [ast.In()], [got.value]), got)
        return ast.copy_location(ast.If(test, [st, *node.orelse], h.body), node)


class LazyLoop(ast.NodeTransformer):
    """for x in (y for y in ys if f(y)) looks at each y in turn, written out where f is more than a look at y."""

    def visit_FunctionDef(self, node: ast.FunctionDef) -> ast.AST:
        self.generic_visit(node)
        used: dict[str, int] = {}
        for n in ast.walk(node):
            if isinstance(n, ast.Name):
                used[n.id] = used.get(n.id, 0) + 1
        for parent in ast.walk(node):
            for field in ("body", "orelse", "finalbody"):
                stmts = getattr(parent, field, None)
                if isinstance(stmts, list):
                    setattr(parent, field, self.block(stmts, used))
        return node

    def block(self, stmts: list[ast.stmt], used: dict[str, int]) -> list[ast.stmt]:
        res: list[ast.stmt] = []
        for st in stmts:
            if isinstance(st, ast.For):
                it: ast.expr = st.iter
                last = res[-1] if res else None
                held = isinstance(it, ast.Name) and isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == it.id and used.get(it.id) == 2
                if held:
                    it = last.value  # type: ignore[union-attr]
                new = self.loop(st, it)
                if new is not None:
                    if held:
                        res.pop()
                    st = new
            res.append(st)
        return res

    def loop(self, node: ast.For, g: ast.expr) -> ast.For | None:
        if not isinstance(g, ast.GeneratorExp) or len(g.generators) != 1 or not g.generators[0].ifs or g.generators[0].is_async:
            return None
        gen = g.generators[0]
        calls = [c for k in gen.ifs for c in ast.walk(k) if isinstance(c, ast.Call)]
        if not any(isinstance(c.func, ast.Name) and not hasattr(builtins, c.func.id) or isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id in ("self", "cls") for c in calls):
            return None
        names = {n.id for n in ast.walk(gen.target) if isinstance(n, ast.Name)}
        for x in (gen.target, *gen.ifs, g.elt):
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and n.id in names:
                    n.id = f"{n.id}.lazy"
        test = gen.ifs[0] if len(gen.ifs) == 1 else ast.copy_location(ast.BoolOp(ast.And(), gen.ifs), node)
        got = ast.copy_location(ast.Assign([node.target], g.elt), g.elt)
        return ast.copy_location(ast.For(gen.target, gen.iter, [ast.copy_location(ast.If(test, [got, *node.body], []), test)], node.orelse, None), node)


class Module:
    def __init__(self, program: Program, name: str, path: pathlib.Path, is_pkg: bool) -> None:
        self.program = program
        self.name = name
        self.path = path
        self.is_pkg = is_pkg
        self.rel = str(path.relative_to(REPO))
        self.src = path.read_text()
        try:
            self.tree = ast.fix_missing_locations(LoopGuard().visit(IterUntil().visit(FirstMatch().visit(LazyLoop().visit(ByIndex().visit(KeyMissing().visit(ast.parse(self.src))))))))
            for n in ast.walk(self.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("any", "all") and len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
                    if isinstance(n.args[0].elt, ast.BoolOp):
                        n.args[0].elt._only_truth = True  # type: ignore[attr-defined]
        except SyntaxError as e:
            raise AnalysisError(f"cannot parse {self.rel}: {e}")
        self.imports: dict[str, str] = {}
        self.funcs: dict[str, FuncInfo] = {}
        self.classes: dict[str, ClassInfo] = {}
        self.assigns: dict[str, list[ast.expr]] = {}
        self.annots: dict[str, ast.expr] = {}

    def collect(self) -> None:
        # imports first, decorators and bases are resolved with them
        for node in ast.walk(self.tree):
            if isinstance(node, ast.Import):
                for a in node.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        top = a.name.split(".")[0]
                        self.imports[top] = top
            elif isinstance(node, ast.ImportFrom):
                base = self._from_base(node)
                for a in node.names:
                    self.imports[a.asname or a.name] = f"{base}.{a.name}" if base else a.name
        self._collect(self.tree.body)

    def _from_base(self, node: ast.ImportFrom) -> str:
        if not node.level:
            return node.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[: -(node.level - 1)]
        return ".".join(parts + ([node.module] if node.module else []))

    def _collect(self, body: list[ast.stmt]) -> None:
        for stmt in body:
            if isinstance(stmt, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[stmt.name] = FuncInfo(self, stmt, None, f"{self.name}.{stmt.name}")
            elif isinstance(stmt, ast.ClassDef):
                self.classes[stmt.name] = ClassInfo(self, stmt, f"{self.name}.{stmt.name}")
            elif isinstance(stmt, ast.Assign):
                for tgt in stmt.targets:
                    if isinstance(tgt, ast.Name):
                        self.assigns.setdefault(tgt.id, []).append(stmt.value)
            elif isinstance(stmt, ast.AnnAssign) and isinstance(stmt.target, ast.Name):
                self.annots[stmt.target.id] = stmt.annotation
                if stmt.value is not None:
                    self.assigns.setdefault(stmt.target.id, []).append(stmt.value)
            elif isinstance(stmt, (ast.If, ast.Try, ast.With)):
                for sub in ("body", "orelse", "finalbody"):
                    self._collect(getattr(stmt, sub, []) or [])
                for h in getattr(stmt, "handlers", []) or []:
                    self._collect(h.body)


BUILTIN_NAMES = set(dir(builtins))


class Program:
    def __init__(self, src: pathlib.Path | None = None) -> None:
        self.src = src or SRC
        self.modules: dict[str, Module] = {}
        if not self.src.is_dir():
            raise AnalysisError(f"source directory {self.src} not found")
        for path in sorted(self.src.rglob("*.py")):
            rel = path.relative_to(self.src)
            parts = list(rel.with_suffix("").parts)
            if parts and parts[0] == "ansible_collections":
                name_parts = parts
            else:
                name_parts = ["ansibug", *parts]
            is_pkg = name_parts[-1] == "__init__"
            if is_pkg:
                name_parts = name_parts[:-1]
            name = ".".join(name_parts)
            self.modules[name] = Module(self, name, path, is_pkg)
        for m in self.modules.values():
            m.collect()
        self.classes: dict[str, ClassInfo] = {c.qual: c for m in self.modules.values() for c in m.classes.values()}
        self.functions: dict[str, FuncInfo] = {}
        for m in self.modules.values():
            for f in m.funcs.values():
                self.functions[f.qual] = f
        for c in self.classes.values():
            for f in c.all_funcs:
                self.functions[f.qual] = f
        self._subs: dict[str, set[str]] | None = None
        self._attr_types: dict[tuple[str, str], Type] = {}
        self._gstores: dict[str, set[str]] = {}

    # --- stores ------------------------------------------------------------
    def global_stores(self, mod: str) -> set[str]:
        if mod not in self._gstores:
            res: set[str] = set()
            for node in ast.walk(self.modules[mod].tree):
                if isinstance(node, ast.Global):
                    res.update(node.names)
            self._gstores[mod] = res
        return self._gstores[mod]

    def _scan_stores(self) -> None:
        self._stored: set[str] = set()
        self._unstable: set[str] = set()
        for m in self.modules.values():
            for top in ast.walk(m.tree):
                if not isinstance(top, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    continue
                for node in ast.walk(top):
                    names = []
                    if isinstance(node, ast.Attribute) and isinstance(node.ctx, (ast.Store, ast.Del)):
                        names = [node.attr]
                    elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "setattr":
                        if len(node.args) > 1 and isinstance(node.args[1], ast.Constant):
                            names = [str(node.args[1].value)]
                    for n in names:
                        self._stored.add(n)
                        if top.name != "__init__":
                            self._unstable.add(n)

    def is_stored_attr(self, name: str) -> bool:
        """Is the attribute ever set on an instance?"""
        if not hasattr(self, "_stored"):
            self._scan_stores()
        return name in self._stored

    def is_stable_attr(self, name: str) -> bool:
        """Is the attribute never changed once its object is created?"""
        if not hasattr(self, "_stored"):
            self._scan_stores()
        return name not in self._unstable

    def digest(self) -> str:
        h = hashlib.sha256()
        for name in sorted(self.modules):
            h.update(name.encode())
            h.update(self.modules[name].src.encode())
        return h.hexdigest()[:16]

    # --- lookup ------------------------------------------------------------
    def module(self, name: str) -> Module:
        if name not in self.modules:
            raise AnalysisError(f"anchor vanished: module {name}")
        return self.modules[name]

    def cls(self, qual: str) -> ClassInfo:
        q = self.canon(qual)
        if q not in self.classes:
            raise AnalysisError(f"anchor vanished: class {qual}")
        return self.classes[q]

    def func(self, qual: str) -> FuncInfo:
        f = self.find_func(qual)
        if f is None:
            raise AnalysisError(f"anchor vanished: function {qual}")
        return f

    def find_func(self, qual: str) -> FuncInfo | None:
        q = self.canon(qual)
        if q in self.functions:
            return self.functions[q]
        mod, _, name = q.rpartition(".")
        if mod in self.classes:
            return self.find_method(mod, name)
        return None

    def canon(self, qual: str, depth: int = 0) -> str:
        """Follows re-exports until the defining module."""
        if depth > 10 or qual in self.modules:
            return qual
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mod = ".".join(parts[:i])
            m = self.modules.get(mod)
            if m is None:
                continue
            name = parts[i]
            rest = parts[i + 1 :]
            if name in m.classes or name in m.funcs:
                return qual
            if name in m.imports and m.imports[name] != qual:
                return self.canon(".".join([m.imports[name], *rest]), depth + 1)
            return qual
        return qual

    def resolve_name(self, module: Module, name: str) -> str | None:
        if name in module.classes or name in module.funcs:
            return f"{module.name}.{name}"
        if name in module.assigns:
            vals = module.assigns[name]
            # an alias of something else: X = Y
            if len(vals) == 1 and isinstance(vals[0], (ast.Name, ast.Attribute)):
                if not (isinstance(vals[0], ast.Name) and vals[0].id == name):
                    q = self.resolve_expr(module, vals[0], None)
                    if q and (q in self.classes or q in self.functions):
                        return q
            return f"{module.name}.{name}"
        if name in module.imports:
            return self.canon(module.imports[name])
        if name in BUILTIN_NAMES:
            return f"builtins.{name}"
        return None

    def resolve_expr(self, module: Module, expr: ast.expr, cls: ClassInfo | None) -> str | None:
        if isinstance(expr, ast.Name):
            return self.resolve_name(module, expr.id)
        if isinstance(expr, ast.Attribute):
            base = self.resolve_expr(module, expr.value, cls)
            if base is None:
                return None
            return self.canon(f"{base}.{expr.attr}")
        if isinstance(expr, ast.Subscript):
            return self.resolve_expr(module, expr.value, cls)
        if isinstance(expr, ast.Constant) and isinstance(expr.value, str):
            try:
                return self.resolve_expr(module, ast.parse(expr.value, mode="eval").body, cls)
            except SyntaxError:
                return None
        return None

    # --- class hierarchy ---------------------------------------------------
    def mro(self, qual: str) -> list[str]:
        res: list[str] = []

        def add(q: str) -> None:
            if q in res:
                return
            res.append(q)
            c = self.classes.get(q)
            if c:
                for b in c.bases:
                    add(b)

        add(qual)
        return res

    def subclasses(self, qual: str) -> set[str]:
        if self._subs is None:
            self._subs = {}
            for q in self.classes:
                for b in self.mro(q):
                    self._subs.setdefault(b, set()).add(q)
        return self._subs.get(qual, set()) | {qual}

    def is_subclass(self, qual: str, base: str) -> bool | None:
        """True/False if known, None if not."""
        qual, base = qual.removeprefix("builtins."), base.removeprefix("builtins.")
        if qual == base:
            return True
        mro = [m.removeprefix("builtins.") for m in self.mro(qual)]
        if base in mro:
            return True
        b = _external_class(base)
        unknown = False
        for m in mro:
            if m in self.classes:
                continue
            e = _external_class(m)
            if e is not None and b is not None:
                if issubclass(e, b):
                    return True
            elif e is None:
                unknown = True
        return None if unknown else False

    def find_method(self, cls_qual: str, name: str) -> FuncInfo | None:
        for q in self.mro(cls_qual):
            c = self.classes.get(q)
            if c and name in c.methods:
                return c.methods[name]
        return None

    def find_class_assign(self, cls_qual: str, name: str) -> tuple[ClassInfo, ast.expr] | None:
        for q in self.mro(cls_qual):
            c = self.classes.get(q)
            if c and name in c.assigns:
                return c, c.assigns[name]
        return None

    def is_enum(self, qual: str) -> bool:
        return any(b in ("enum.Enum", "enum.IntEnum", "enum.StrEnum", "enum.Flag") for b in self.mro(qual))

    def is_exception(self, qual: str) -> bool:
        return self.is_subclass(qual, "BaseException") is True

    def dataclass_fields(self, qual: str) -> list[tuple[str, ClassInfo, ast.expr, ast.expr | None]]:
        """(name, defining class, annotation, default) in __init__ order, init=False ones excluded by caller."""
        order: list[str] = []
        info: dict[str, tuple[ClassInfo, ast.expr, ast.expr | None]] = {}
        for q in reversed(self.mro(qual)):
            c = self.classes.get(q)
            if not c or not c.is_dataclass:
                continue
            for name in c.field_order:
                ann = c.annots[name]
                rq = self.resolve_expr(c.module, ann, None) or ""
                if rq.endswith("ClassVar"):
                    continue
                if name not in order:
                    order.append(name)
                info[name] = (c, ann, c.assigns.get(name))
        return [(n, *info[n]) for n in order]

    # --- types -------------------------------------------------------------
    def annot_quals(self, module: Module, ann: ast.expr) -> list[str]:
        """Class names of an annotation that may be a union."""
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            ann = ast.parse(ann.value, mode="eval").body
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return self.annot_quals(module, ann.left) + self.annot_quals(module, ann.right)
        if isinstance(ann, ast.Subscript):
            q = self.resolve_expr(module, ann.value, None) or ""
            if q.endswith((".Union", ".Optional")):
                elts = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
                return [x for e in elts for x in self.annot_quals(module, e)]
        q = self.resolve_expr(module, ann, None)
        return [q] if q else []

    def annot_type(self, module: Module, ann: ast.expr | None) -> Type:
        if ann is None:
            return None
        if isinstance(ann, ast.Constant):
            if isinstance(ann.value, str):
                try:
                    return self.annot_type(module, ast.parse(ann.value, mode="eval").body)
                except SyntaxError:
                    return None
            return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            parts = [self.annot_type(module, ann.left), self.annot_type(module, ann.right)]
            known = [p for p in parts if p is not None]
            # X | None
            for side, other in ((ann.left, ann.right), (ann.right, ann.left)):
                if isinstance(side, ast.Constant) and side.value is None:
                    return self.annot_type(module, other)
            return known[0] if len(known) == 1 and False else None
        if isinstance(ann, ast.Subscript):
            q = (self.resolve_expr(module, ann.value, None) or "").removeprefix("builtins.")
            elts = list(ann.slice.elts) if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            short = q.rsplit(".", 1)[-1]
            if short == "Optional":
                return self.annot_type(module, elts[0])
            if short == "Union":
                rest = [e for e in elts if not (isinstance(e, ast.Constant) and e.value is None)]
                return self.annot_type(module, rest[0]) if len(rest) == 1 else None
            if short in ("list", "List", "Sequence", "set", "Set", "frozenset", "deque", "Iterable", "Iterator", "MutableSequence", "Collection"):
                return ("list", self.annot_type(module, elts[0]))
            if short in ("dict", "Dict", "Mapping", "MutableMapping", "defaultdict", "OrderedDict") and len(elts) == 2:
                return ("dict", self.annot_type(module, elts[0]), self.annot_type(module, elts[1]))
            if short in ("tuple", "Tuple"):
                if len(elts) == 2 and isinstance(elts[1], ast.Constant) and elts[1].value is Ellipsis:
                    return ("list", self.annot_type(module, elts[0]))
                return ("tuple", tuple(self.annot_type(module, e) for e in elts))
            if short == "Callable" and len(elts) == 2:
                return ("callable", self.annot_type(module, elts[1]))
            if short in ("type", "Type"):
                q2 = self.resolve_expr(module, elts[0], None)
                return ("type", q2) if q2 else None
            if short in ("Final", "ClassVar", "Annotated"):
                return self.annot_type(module, elts[0])
            if short == "Literal":
                return None
            if short == "Queue":
                return ("cls", q)
            return ("cls", q) if q else None
        q = self.resolve_expr(module, ann, None)
        if q is None:
            return None
        if q.endswith((".Any", "builtins.object")) or q in ("typing.Any",):
            return None
        if q == "builtins.list":
            return ("list", None)
        if q == "builtins.dict":
            return ("dict", None, None)
        return ("cls", q.removeprefix("builtins."))

    def attr_type(self, cls_qual: str, name: str) -> Type:
        key = (cls_qual, name)
        if key in self._attr_types:
            return self._attr_types[key]
        self._attr_types[key] = None  # recursion guard
        res = self._attr_type(cls_qual, name)
        if res is None and cls_qual in self.classes:
            # An attribute of what implements an interface.
            found = [x for x in (self.attr_type(q, name) for q in sorted(self.subclasses(cls_qual)) if q != cls_qual) if x is not None]
            if found and all(x == found[0] for x in found):
                res = found[0]
        self._attr_types[key] = res
        return res

    def _attr_type(self, cls_qual: str, name: str) -> Type:
        mro = [self.classes[q] for q in self.mro(cls_qual) if q in self.classes]
        for c in mro:
            if name in c.annots:
                ty = self.annot_type(c.module, c.annots[name])
                if ty:
                    return ty
        for c in mro:
            for f in c.all_funcs:
                for node in ast.walk(f.node):
                    if isinstance(node, ast.AnnAssign) and _is_self_attr(node.target, name, f):
                        ty = self.annot_type(c.module, node.annotation)
                        if ty:
                            return ty
        for c in mro:
            for f in sorted(c.all_funcs, key=lambda f: f.name != "__init__"):
                for node in ast.walk(f.node):
                    value = None
                    if isinstance(node, ast.Assign) and any(_is_self_attr(tg, name, f) for tg in node.targets):
                        value = node.value
                    elif isinstance(node, ast.AnnAssign) and _is_self_attr(node.target, name, f):
                        value = node.value
                    if value is not None:
                        ty = self._expr_type(f, value)
                        if ty:
                            return ty
        return None

    def _expr_type(self, f: FuncInfo, e: ast.expr) -> Type:
        m = f.module
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                ty = self._expr_type(f, v)
                if ty:
                    return ty
        elif isinstance(e, ast.IfExp):
            return self._expr_type(f, e.body) or self._expr_type(f, e.orelse)
        elif isinstance(e, ast.Name):
            for a in [*f.params, *f.node.args.kwonlyargs]:
                if a.arg == e.id:
                    return self.annot_type(m, a.annotation)
            # a local variable: use the first assignment that has a type
            for node in ast.walk(f.node):
                if isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name) and node.target.id == e.id:
                    return self.annot_type(m, node.annotation)
                if isinstance(node, ast.Assign) and any(isinstance(tg, ast.Name) and tg.id == e.id for tg in node.targets):
                    if not isinstance(node.value, ast.Name):
                        ty = self._expr_type(f, node.value)
                        if ty:
                            return ty
        elif isinstance(e, ast.Call):
            q = self.resolve_expr(m, e.func, f.cls)
            if isinstance(e.func, ast.Name):
                for a in [*f.params, *f.node.args.kwonlyargs]:
                    if a.arg == e.func.id:
                        ty = self.annot_type(m, a.annotation)
                        if ty and ty[0] == "callable":
                            return ty[1]
            if q in self.classes:
                return ("cls", q)
            if q in self.functions:
                fn = self.functions[q]
                return self.annot_type(fn.module, fn.node.returns)
            if q and q.removeprefix("builtins.") in ("bytearray", "set", "dict", "list"):
                b = q.removeprefix("builtins.")
                return ("dict", None, None) if b == "dict" else ("list", None) if b == "list" else ("cls", b)
            if q and q[0] != "_" and q.rsplit(".", 1)[-1][:1].isupper():
                return ("cls", q)
            if q in ("socket.socket", "socket.create_server"):
                return ("cls", "socket.socket")
        elif isinstance(e, ast.Dict):
            return ("dict", None, None)
        elif isinstance(e, (ast.List, ast.ListComp)):
            return ("list", None)
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f.params and e.value.id == f.params[0].arg and f.cls:
            return self.attr_type(f.cls.qual, e.attr)
        return None

    def return_type(self, f: FuncInfo) -> Type:
        return self.annot_type(f.module, f.node.returns)


def _is_self_attr(node: ast.AST, name: str, f: FuncInfo) -> bool:
    return (
        isinstance(node, ast.Attribute)
        and node.attr == name
        and isinstance(node.value, ast.Name)
        and bool(f.params)
        and node.value.id == f.params[0].arg
    )


_EXT: dict[str, type | None] = {}
_STD = ("ssl", "socket", "queue", "json", "subprocess", "shlex", "argparse", "pickle", "select", "threading")


def _external_class(name: str) -> type | None:
    """A standard library class by name, only used for the exception hierarchy."""
    if name in _EXT:
        return _EXT[name]
    res = None
    if "." not in name:
        res = getattr(builtins, name, None)
    else:
        mod, _, attr = name.rpartition(".")
        if mod in _STD:
            import importlib

            res = getattr(importlib.import_module(mod), attr, None)
    _EXT[name] = res if isinstance(res, type) else None
    return _EXT[name]
