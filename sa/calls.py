"""Calls: resolution of the callee, inlining of the repository's functions, models of library calls."""

from __future__ import annotations

import ast
import typing as t

from .exprs import Frame
from .program import AnalysisError, FuncInfo, Type
from .state import State, neg
from .terms import FALSE, NONE, TRUE, T, const, fresh, glob, mk

CLS = lambda q: ("cls", q)  # noqa: E731
STR, BYTES, INT, BOOL = CLS("str"), CLS("bytes"), CLS("int"), CLS("bool")

# library classes that are not capitalised
EXT_CLASSES = {"socket.socket"}
# Library functions without an effect, with the type of their result.
PURE: dict[str, Type] = {
    "builtins.str": STR, "builtins.repr": STR, "builtins.int": INT, "builtins.float": CLS("float"), "builtins.len": INT,
    "builtins.min": None, "builtins.max": None, "builtins.abs": INT, "builtins.sorted": ("list", None), "builtins.sum": None,
    "builtins.bytes": BYTES, "builtins.bytearray": CLS("bytearray"), "builtins.memoryview": CLS("memoryview"),
    "builtins.enumerate": None, "builtins.zip": None, "builtins.range": ("list", INT), "builtins.type": None,
    "builtins.hasattr": BOOL, "builtins.callable": BOOL, "builtins.id": INT, "builtins.hash": INT, "builtins.ord": INT,
    "builtins.chr": STR, "builtins.format": STR, "builtins.iter": None, "builtins.reversed": None, "builtins.vars": None,
    "builtins.dir": None, "builtins.issubclass": BOOL, "builtins.round": None, "builtins.divmod": None, "builtins.locals": None,
    "os.getpid": INT, "os.fspath": STR, "os.strerror": STR, "os.getenv": STR, "builtins.frozenset": CLS("set"),
    "pathlib.Path": CLS("pathlib.Path"), "pathlib.PurePath": CLS("pathlib.Path"), "uuid.uuid4": None, "tempfile.gettempdir": STR,
    "shlex.quote": STR, "shlex.join": STR, "urllib.parse.urlsplit": None, "urllib.parse.urlparse": None,
    "dataclasses.is_dataclass": BOOL, "dataclasses.asdict": ("dict", None, None), "dataclasses.fields": None,
    "dataclasses.field": None, "dataclasses.replace": None,
    "traceback.format_exc": STR, "traceback.format_exception": ("list", STR), "base64.b64encode": BYTES, "base64.b64decode": BYTES,
    "inspect.currentframe": None, "copy.copy": None, "copy.deepcopy": None, "typing.get_args": None, "typing.get_origin": None,
    "builtins.slice": None, "enum.auto": None, "functools.partial": None, "operator.attrgetter": None, "itertools.chain": None,
    "socket.has_dualstack_ipv6": BOOL, "builtins.object": None, "contextlib.nullcontext": None, "threading.current_thread": None,
    "threading.get_ident": INT, "time.monotonic": None, "time.time": None, "os.cpu_count": None,
}
PURE_PREFIX = ("os.path.",)
# Without an effect on the state, but noteworthy: an event is recorded.
PURE_EVENT: dict[str, Type] = {
    "json.dumps": STR, "json.loads": None, "pickle.dumps": BYTES, "pickle.loads": None, "int.from_bytes": INT, "shlex.split": ("list", STR),
}
PURE_METHODS = {
    "encode", "decode", "split", "rsplit", "splitlines", "startswith", "endswith", "find", "rfind", "index", "rindex", "strip", "lstrip",
    "rstrip", "lower", "upper", "format", "join", "replace", "partition", "rpartition", "title", "capitalize", "isdigit", "removeprefix",
    "removesuffix", "zfill", "count", "get", "keys", "values", "items", "copy", "to_bytes", "hex", "absolute", "resolve", "joinpath", "as_posix",
    "with_suffix", "with_name", "isoformat", "bit_length", "tobytes", "union", "intersection", "difference", "issubset", "issuperset",
    "expanduser", "isEnabledFor", "getvalue", "fileno",
}
METHOD_TYPES: dict[str, Type] = {
    "encode": BYTES, "decode": STR, "split": ("list", None), "rsplit": ("list", None), "startswith": BOOL, "endswith": BOOL, "find": INT,
    "strip": STR, "lstrip": STR, "rstrip": STR, "lower": STR, "upper": STR, "format": STR, "join": STR, "replace": STR, "to_bytes": BYTES,
    "absolute": CLS("pathlib.Path"), "resolve": CLS("pathlib.Path"), "joinpath": CLS("pathlib.Path"), "removeprefix": STR, "removesuffix": STR,
}
MUTATORS = {
    "append", "insert", "extend", "pop", "remove", "clear", "sort", "reverse", "setdefault", "update", "popitem", "add", "discard", "appendleft", "popleft",
}
EXT_RET: dict[str, Type] = {
    "ssl.SSLContext.wrap_socket": CLS("ssl.SSLSocket"), "ssl.create_default_context": CLS("ssl.SSLContext"),
    "socket.create_server": CLS("socket.socket"), "socket.socket.accept": ("tuple", (CLS("socket.socket"), None)),
    "ssl.SSLSocket.accept": ("tuple", (CLS("socket.socket"), None)), "logging.getLogger": CLS("logging.Logger"),
    "os.fdopen": CLS("io.TextIOWrapper"), "select.select": ("tuple", (("list", CLS("socket.socket")),) * 3),
    "socket.getaddrinfo": ("list", None), "argparse.ArgumentParser": CLS("argparse.ArgumentParser"),
    "argparse.ArgumentParser.add_subparsers": CLS("argparse._SubParsersAction"),
    "argparse._SubParsersAction.add_parser": CLS("argparse.ArgumentParser"),
    "pathlib.Path.read_text": STR, "os.umask": INT, "threading.Event.is_set": BOOL, "tempfile.mkstemp": ("tuple", (INT, STR)),
    "socket.socket.getsockopt": INT, "socket.socket.recv_into": INT,
}
WAITS = {
    "threading.Condition.wait", "threading.Condition.wait_for", "threading.Event.wait", "threading.Thread.join", "queue.Queue.get",
    "threading.Barrier.wait", "time.sleep", "select.select", "queue.Queue.join", "queue.SimpleQueue.get", "socket.socket.accept",
    "socket.socket.recv_into", "socket.socket.recv", "socket.socket.sendall", "socket.socket.send", "ssl.SSLSocket.do_handshake",
    "ssl.SSLSocket.sendall", "ssl.SSLSocket.recv_into", "concurrent.futures.wait", "select.poll.poll", "subprocess.run",
}
NORAISE = {
    "threading.Event.set", "threading.Event.clear", "threading.Event.is_set", "threading.Condition.notify_all", "threading.Condition.notify",
    "queue.Queue.put", "queue.SimpleQueue.put", "queue.Queue.put_nowait", "threading.Lock", "threading.RLock", "threading.Condition", "threading.Event", "threading.Thread",
    "queue.Queue", "list.append", "list.extend", "list.insert", "dict.setdefault", "dict.update", "set.add", "set.update", "set.discard",
    "list.clear", "dict.clear", "set.clear", "atexit.register", "builtins.print", "threading.Event.wait", "threading.Condition.wait",
    "threading.Condition.wait_for",
}
LOCKS = ("threading.Lock", "threading.RLock", "threading.Condition", "threading.Semaphore", "multiprocessing.Lock")


def own_yield(node: ast.AST) -> bool:
    """Does the function itself yield?"""
    todo = list(getattr(node, "body", [])) if not isinstance(node, ast.Lambda) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Calls:
    # --- entry -------------------------------------------------------------
    def ev_Call(self, s: State, e: ast.Call, fr: Frame):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and self.lookup(s, "super", fr) is glob("builtins.super"):
            return [(s, self.super_value(fr))]
        out = []
        for s1, fn in self.ev_callee(s, e.func, fr):
            if s1.flow is not None:
                out.append((s1, NONE))
                continue
            if self.is_logger(fn):
                # Only the evaluation of the arguments can matter.
                for s2, _, _ in self.ev_args(s1, e, fr):
                    out.append((s2, NONE))
                continue
            for s2, args, kwargs in self.ev_args(s1, e, fr):
                if s2.flow is not None:
                    out.append((s2, NONE))
                    continue
                res = self.call_value(s2, fn, args, kwargs, e, fr)
                out.extend(res)
        self.check_cap(len(out))
        return out

    def ev_callee(self, s: State, f: ast.expr, fr: Frame):
        if isinstance(f, ast.Attribute):
            return self.bind(self.ev(s, f.value, fr), lambda s1, b: self.method_of(s1, b, f.attr, f, fr))
        return self.ev(s, f, fr)

    def method_of(self, s: State, base: T, name: str, node, fr: Frame):
        res = self.read_attr(s, base, name, node, fr)
        out = []
        for s1, v in res:
            if v.k == "attr" and v.a[0] is base and s1.flow is None:
                v = mk("method", base, name)
            elif v.k == "glob" and base.k == "glob" and self.program.canon(f"{base.a[0]}.{name}") == v.a[0]:
                pass
            out.append((s1, v))
        return out

    def is_logger(self, fn: T) -> bool:
        if fn.k == "method":
            base = fn.a[0]
            if fn.a[1] not in ("debug", "info", "warning", "error", "exception", "critical", "log"):
                return False
            if base.k == "glob":
                mod, _, nm = base.a[0].rpartition(".")
                m = self.program.modules.get(mod)
                if m and nm in m.assigns:
                    v = m.assigns[nm][0]
                    return isinstance(v, ast.Call) and self.program.resolve_expr(m, v.func, None) == "logging.getLogger"
            return self.types.get(base) == CLS("logging.Logger")
        return fn.k == "glob" and fn.a[0].startswith("logging.") and fn.a[0].rsplit(".", 1)[-1] in ("debug", "info", "warning", "error", "exception")

    def super_value(self, fr: Frame) -> T:
        f: Frame | None = fr
        while f is not None and f.selfterm is None:
            f = f.parent
        if f is None or f.cls is None:
            raise AnalysisError("super() outside of a method")
        return mk("super", f.cls.qual, f.selfterm, f.selfcls or f.cls.qual)

    def ev_args(self, s: State, e: ast.Call, fr: Frame) -> list[tuple[State, list[T], dict[str, T]]]:
        exprs = list(e.args) + [k.value for k in e.keywords]
        out = []
        for s1, vs in self.evs(s, exprs, fr):
            if s1.flow is not None:
                out.append((s1, [], {}))
                continue
            args: list[T] = []
            for v in vs[: len(e.args)]:
                if v.k == "star":
                    c = self.content(s1, v.a[0])
                    if c is not None:
                        args.extend(c)
                        continue
                args.append(v)
            kwargs: dict[str, T] = {}
            for k, v in zip(e.keywords, vs[len(e.args) :]):
                if k.arg is not None:
                    kwargs[k.arg] = v
                else:
                    self.expand_kwargs(s1, v, kwargs)
            out.append((s1, args, kwargs))
        return out

    def expand_kwargs(self, s: State, v: T, kwargs: dict[str, T]) -> None:
        c = s.cont.get(v)
        if c is not None and c[0] == "dict" and not c[2]:
            for k, val in c[1]:
                if k.k == "const" and isinstance(k.a[0], str):
                    kwargs[k.a[0]] = val
                elif k.k == "rest":
                    kwargs["**"] = k.a[0]
                else:
                    kwargs["**"] = v
        else:
            kwargs["**"] = v

    # --- dispatch ----------------------------------------------------------
    def call_value(self, s: State, fn: T, args: list[T], kwargs: dict[str, T], node, fr: Frame):
        p = self.program
        if fn.k == "glob":
            q = fn.a[0]
            if q in p.classes:
                return self.construct(s, q, args, kwargs, node, fr)
            f = p.functions.get(q)
            if f is not None:
                if f.cls is not None and not f.is_static:
                    # Class.method(self, ...)
                    recv, rest = (args[0], args[1:]) if args else (NONE, [])
                    return self.call_func(s, f, recv, rest, kwargs, node, fr)
                return self.call_func(s, f, None, args, kwargs, node, fr)
            return self.external(s, q, args, kwargs, node, fr)
        if fn.k == "rawfunc":
            f = p.functions[fn.a[0]]
            if f.cls is not None and not f.is_static:
                recv, rest = (args[0], args[1:]) if args else (NONE, [])
                return self.call_func(s, f, recv, rest, kwargs, node, fr, raw=True)
            return self.call_func(s, f, None, args, kwargs, node, fr, raw=True)
        if fn.k in ("bound", "sbound"):
            q, recv = fn.a
            if recv.k == "glob":
                f = p.functions.get(q)
                if f:
                    return self.call_func(s, f, recv, args, kwargs, node, fr)
            return self.call_method(s, q, recv, args, kwargs, node, fr, exact=fn.k == "sbound")
        if fn.k == "identity" and args:
            return [(s, args[0])]
        if fn.k == "closure":
            return self.call_closure(s, fn, args, kwargs, node, fr)
        if fn.k == "method":
            base, name = fn.a
            if base.k == "glob" and not self._is_object(base):
                return self.external(s, f"{base.a[0]}.{name}", args, kwargs, node, fr)
            return self.lib_method(s, base, name, args, kwargs, node, fr)
        if fn.k == "partial":
            f2, pargs, pkw = fn.a
            return self.call_value(s, f2, list(pargs) + args, dict(pkw) | kwargs, node, fr)
        ty = self.typeof(s, fn)
        res_ty = ty[1] if ty and ty[0] == "callable" else None
        if ty and ty[0] == "type" and ty[1]:
            res_ty = CLS(ty[1])
        return self.opaque(s, "?", fn, args, kwargs, node, fr, res_ty)

    def _is_object(self, base: T) -> bool:
        mod, _, nm = base.a[0].rpartition(".")
        m = self.program.modules.get(mod)
        return bool(m and nm in m.assigns) or self.types.get(base) is not None

    def call_method(self, s: State, q: str, recv: T, args, kwargs, node, fr: Frame, exact: bool = False):
        p = self.program
        owner, _, name = q.rpartition(".")
        disp = owner if owner in p.classes and name in p.classes[owner].dispatch else None
        ty = self.typeof(s, recv)
        rq = ty[1] if ty and ty[0] == "cls" else owner
        if disp or (rq in p.classes and self.dispatch_owner(rq, name)):
            own = disp or self.dispatch_owner(rq, name)
            return self.call_dispatch(s, own, name, recv, args, kwargs, node, fr)
        if exact:
            f = p.functions.get(q)
            if f is None:
                return self.opaque(s, q, recv, args, kwargs, node, fr, None, havoc=True)
            return self.call_func(s, f, recv, args, kwargs, node, fr)
        if rq in p.classes:
            impls = self.impls(rq, name, recv.k in ("new", "single") or recv in self.exact)
            if len(impls) == 1:
                return self.call_func(s, impls[0], recv, args, kwargs, node, fr)
            if impls:
                decl = p.find_method(rq, name) or impls[0]
                if self.fork_virtual(decl):
                    out = []
                    for sub, f in self.virtual_targets(rq, name):
                        s2 = s.copy()
                        if self.assume(s2, mk("op", "isa", recv, glob(sub)), True):
                            out.extend(self.call_func(s2, f, recv, list(args), dict(kwargs), node, fr, selfcls=sub))
                    return out
                return self.opaque(s, f"{rq}.{name}" if False else decl.qual, recv, args, kwargs, node, fr, p.return_type(decl), havoc=True)
        f = p.functions.get(q)
        if f is not None:
            return self.call_func(s, f, recv, args, kwargs, node, fr)
        return self.opaque(s, q, recv, args, kwargs, node, fr, None, havoc=True)

    def virtual_targets(self, q: str, name: str) -> list[tuple[str, FuncInfo]]:
        res, seen = [], set()
        for sub in sorted(self.program.subclasses(q)):
            f = self.program.find_method(sub, name)
            if f and not self.is_stub(f) and f.qual not in seen:
                seen.add(f.qual)
                res.append((f.cls.qual if f.cls else sub, f))
        return res

    def call_dispatch(self, s: State, owner: str, name: str, recv: T, args, kwargs, node, fr: Frame):
        """A single dispatch method: the implementation is chosen by the type of the argument."""
        p = self.program
        table = p.classes[owner].dispatch_table(name)
        default = p.classes[owner].methods.get(name)
        if not args or not self.inline_dispatch:
            return self.opaque(s, f"{owner}.{name}", recv, args, kwargs, node, fr, None, havoc=True)
        out = []
        for q, f in table.items():
            s2 = s.copy()
            if self.assume(s2, mk("op", "isa", args[0], glob(q)), True):
                out.extend(self.call_func(s2, f, recv, list(args), dict(kwargs), node, fr))
        if default:
            s2 = s.copy()
            if all(self.assume(s2, mk("op", "isa", args[0], glob(q)), False) for q in table):
                out.extend(self.call_func(s2, default, recv, list(args), dict(kwargs), node, fr))
        return out

    # --- repository functions ----------------------------------------------
    def wrappers(self, f: FuncInfo) -> list[ast.expr]:
        """Decorators of the repository that replace the function."""
        res = []
        for d, q in zip(f.node.decorator_list, f.decorators):
            if self.program.canon(q) in self.program.functions and not (isinstance(d, ast.Attribute) and d.attr in ("register", "setter")):
                res.append(d)
        return res

    def call_func(self, s: State, f: FuncInfo, recv: T | None, args: list[T], kwargs: dict[str, T], node, fr: Frame | None, selfcls: str | None = None, raw: bool = False):
        if not raw:
            wr = self.wrappers(f)
            if wr and f.qual not in self.opaque_quals:
                cur: list[tuple[State, T]] = [(s, mk("rawfunc", f.qual))]
                mfr = Frame(fresh(), None, f.module, f.cls, None)
                for d in reversed(wr):
                    nxt = []
                    for s1, v in cur:
                        for s2, dv in self.ev(s1, d, mfr):
                            nxt.extend(self.call_value(s2, dv, [v], {}, d, mfr))
                    cur = nxt
                out = []
                for s1, v in cur:
                    out.extend(self.call_value(s1, v, ([recv] if recv is not None else []) + list(args), kwargs, node, fr))
                return out
        if f.is_contextmanager or own_yield(f.node):
            g = mk("gen", f.qual, fresh())
            self.gens[g] = (f, recv, list(args), dict(kwargs), selfcls, f.is_contextmanager)
            return [(s, g)]
        if f.qual in self.pure_quals:
            x = mk("call", f.qual, recv, tuple(args), tuple(kwargs.items()), 0)
            self.event(s, "call", f.qual, recv, tuple(args), tuple(kwargs.items()), x, node, fr)
            return [(s, x)]
        if f.qual in self.opaque_quals or f.qual in self.stack or len(self.stack) > 40:
            return self.opaque(s, f.qual, recv, args, kwargs, node, fr, self.program.return_type(f), havoc=True)
        nfr = Frame(fresh(), f, f.module, f.cls, None)
        self.bind_params(s, f.node, nfr, recv if f.cls and not f.is_static else None, args, kwargs, f)
        if f.cls and not f.is_static:
            nfr.selfterm = recv
            ty = self.typeof(s, recv) if recv is not None else None
            nfr.selfcls = selfcls or (ty[1] if ty and ty[0] == "cls" and self.program.is_subclass(ty[1], f.cls.qual) else f.cls.qual)
        quiet = f.is_property
        if not quiet:
            self.event(s, "enter", f.qual, recv, tuple(args), tuple(kwargs.items()), None, node, fr or nfr)
        out = []
        self.stack.append(f.qual)
        try:
            for s1 in self.exec_block(s, f.node.body, nfr):
                v = NONE
                if s1.flow is not None and s1.flow[0] == "ret":
                    v = s1.flow[1]
                    s1.flow = None
                for key in [k for k in s1.env if k[0] == nfr.fid]:
                    if not self.fid_captured(nfr.fid):
                        del s1.env[key]
                out.append((s1, v))
        finally:
            self.stack.pop()
        out = self.merge(out)
        rt = self.program.return_type(f)
        for s1, v in out:
            if rt and v.k not in ("const", "glob") and v not in self.types and s1.flow is None:
                self.types[v] = rt
            if not quiet:
                self.event(s1, "exit", f.qual, recv, (), (), v if s1.flow is None else None, node, fr or nfr)
        return out

    def fid_captured(self, fid: int) -> bool:
        return fid in self.captured

    def call_closure(self, s: State, fn: T, args, kwargs, node, fr: Frame | None):
        cnode, cfr = self.closures[fn]
        nfr = Frame(fresh(), cfr.func, cfr.module, cfr.cls, cfr)
        nfr.selfterm, nfr.selfcls = None, None
        if isinstance(cnode, ast.Lambda):
            self.bind_params(s, cnode, nfr, None, args, kwargs, None)
            return self.ev(s, cnode.body, nfr)
        if own_yield(cnode):
            g = mk("gen", f"<local>.{cnode.name}", fresh())
            cm = any("contextmanager" in ast.unparse(d) for d in cnode.decorator_list)
            self.gens[g] = (fn, None, list(args), dict(kwargs), None, cm)
            return [(s, g)]
        key = f"closure:{cnode.name}:{cnode.lineno}"
        if self.stack.count(key) > 1:
            return self.opaque(s, f"<local>.{cnode.name}", None, args, kwargs, node, fr, None, havoc=True)
        self.bind_params(s, cnode, nfr, None, args, kwargs, None)
        out = []
        self.stack.append(key)
        try:
            for s1 in self.exec_block(s, cnode.body, nfr):
                v = NONE
                if s1.flow is not None and s1.flow[0] == "ret":
                    v = s1.flow[1]
                    s1.flow = None
                out.append((s1, v))
        finally:
            self.stack.pop()
        return self.merge(out)

    def bind_params(self, s: State, node, nfr: Frame, recv: T | None, args, kwargs, f: FuncInfo | None) -> None:
        a = node.args
        params = [*a.posonlyargs, *a.args]
        vals: list[T] = ([recv] if recv is not None else []) + list(args)
        kw = dict(kwargs)
        star = next((v for v in vals if v.k == "star"), None)
        for i, p in enumerate(params):
            v = None
            if i < len(vals) and vals[i].k != "star":
                v = vals[i]
            elif p.arg in kw:
                v = kw.pop(p.arg)
            elif star is not None or "**" in kw:
                v = mk("stararg", star.a[0] if star else kw["**"], p.arg)
            else:
                di = i - (len(params) - len(a.defaults))
                v = self.default(s, a.defaults[di], nfr) if di >= 0 else mk("unbound", p.arg, fresh())
            s.env[(nfr.fid, p.arg)] = v
            self.annotate(v, p, nfr)
        if a.vararg:
            rest = vals[len(params) :]
            s.env[(nfr.fid, a.vararg.arg)] = rest[0].a[0] if len(rest) == 1 and rest[0].k == "star" else mk("tuple", *rest)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg in kw:
                v = kw.pop(p.arg)
            elif "**" in kw:
                v = mk("stararg", kw["**"], p.arg)
            elif d is not None:
                v = self.default(s, d, nfr)
            else:
                v = mk("unbound", p.arg, fresh())
            s.env[(nfr.fid, p.arg)] = v
            self.annotate(v, p, nfr)
        if a.kwarg:
            if set(kw) == {"**"}:
                s.env[(nfr.fid, a.kwarg.arg)] = kw["**"]
            else:
                star2 = kw.pop("**", None)
                items = [(const(k), v) for k, v in kw.items()]
                if star2 is not None:
                    items.append((mk("rest", star2), star2))
                s.env[(nfr.fid, a.kwarg.arg)] = self.new_lit(s, "dict", items)

    def annotate(self, v: T, p: ast.arg, nfr: Frame) -> None:
        if v.k in ("const", "glob", "lit", "new") or v in self.types or p.annotation is None:
            return
        ty = self.program.annot_type(nfr.module, p.annotation)
        if ty:
            self.types[v] = ty

    def default(self, s: State, e: ast.expr, fr: Frame) -> T:
        sub = Frame(fresh(), None, fr.module, fr.cls, fr.parent)
        res = self.ev(s.copy(), e, sub)
        return res[0][1]

    # --- construction ------------------------------------------------------
    def construct(self, s: State, q: str, args, kwargs, node, fr: Frame):
        p = self.program
        c = p.classes[q]
        for k in c.node.keywords:
            if k.arg == "metaclass":
                mq = p.resolve_expr(c.module, k.value, None)
                if mq and mq.rsplit(".", 1)[-1] == "Singleton":
                    x = mk("single", q)
                    self.types[x] = CLS(q)
                    return [(s, x)]
        if p.is_enum(q):
            return [(s, mk("op", "enum", glob(q), *args))]
        x = mk("new", q, fresh())
        self.types[x] = CLS(q)
        init = p.find_method(q, "__init__")
        if init is None and any(p.classes[m].is_dataclass for m in p.mro(q) if m in p.classes):
            fields = p.dataclass_fields(q)
            vals = list(args)
            given: dict[str, T] = {}
            for name, owner, ann, default in fields:
                info = self.field_info(owner.module, default)
                if info.get("init", True) is False:
                    # Nothing is set by the constructor, a plain assignment in a subclass is what is read then.
                    plain = p.find_class_assign(q, name)
                    d = info.get("default")
                    if plain is not None and name not in plain[0].annots:
                        owner, d = plain
                    if d is not None:
                        v = self.fold(owner.module, d, owner)
                        s.heap[(x, name)] = v if v is not None else mk("dflt", q, name)
                    continue
                if vals and not (info.get("kw_only")):
                    v = vals.pop(0)
                elif name in kwargs:
                    v = kwargs[name]
                elif "**" in kwargs:
                    v = mk("stararg", kwargs["**"], name)
                else:
                    v = None
                if v is not None:
                    given[name] = v
                    ty = p.annot_type(owner.module, ann)
                    if ty and v not in self.types and v.k not in ("const", "glob"):
                        self.types[v] = ty
                elif info.get("factory") is not None:
                    fq = p.resolve_expr(owner.module, info["factory"], owner) or ""
                    kind = fq.rsplit(".", 1)[-1]
                    v = self.new_lit(s, kind, []) if kind in ("list", "dict", "set") else mk("dflt", q, name)
                elif info.get("default") is not None:
                    v = self.fold(owner.module, info["default"], owner)
                    if v is None:
                        v = mk("dflt", q, name)
                else:
                    v = mk("unbound", name, fresh())
                s.heap[(x, name)] = v
            self.event(s, "new", q, None, (), tuple(given.items()), x, node, fr)
            post = p.find_method(q, "__post_init__")
            if post:
                return [(s1, x) for s1, _ in self.call_func(s, post, x, [], {}, node, fr)]
            return [(s, x)]
        self.event(s, "new", q, None, tuple(args), tuple(kwargs.items()), x, node, fr)
        if init is not None:
            return [(s1, x) for s1, _ in self.call_func(s, init, x, list(args), dict(kwargs), node, fr, selfcls=q)]
        return [(s, x)]

    def field_info(self, module, default: ast.expr | None) -> dict[str, t.Any]:
        if default is None:
            return {}
        if isinstance(default, ast.Call) and (self.program.resolve_expr(module, default.func, None) or "") == "dataclasses.field":
            res: dict[str, t.Any] = {}
            for k in default.keywords:
                if k.arg == "default":
                    res["default"] = k.value
                elif k.arg == "default_factory":
                    res["factory"] = k.value
                elif k.arg in ("init", "kw_only") and isinstance(k.value, ast.Constant):
                    res[k.arg] = k.value.value
            return res
        return {"default": default}

    # --- events ------------------------------------------------------------
    def opaque(self, s: State, q: str, recv: T | None, args, kwargs, node, fr: Frame, rtype: Type, havoc: bool = False, kind: str = "call"):
        x = mk("call", q, recv, tuple(args), tuple(kwargs.items()), fresh())
        if rtype:
            self.types[x] = rtype
        out = []
        if self.may_raise(q):
            s2 = s.copy()
            ev = self.event(s2, kind, q, recv, tuple(args), tuple(kwargs.items()), None, node, fr)
            ev.raised = True
            if havoc or q in WAITS:
                self.havoc(s2)
            s2.flow = ("raise", "Exception", (), mk("exc", q, fresh()) if ev.kept else mk("exc", "any", 0))
            out.append((s2, NONE))
        self.event(s, kind, q, recv, tuple(args), tuple(kwargs.items()), x, node, fr)
        if havoc or q in WAITS:
            self.havoc(s)
        out.append((s, x))
        return out

    def may_raise(self, q: str) -> bool:
        if self.raise_mode == "none" or q in NORAISE or q in self.noraise:
            return False
        if self.raise_mode == "try" and self.try_depth <= 0:
            return False
        return True
