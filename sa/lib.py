"""Models of the library calls the analysis knows the meaning of."""

from __future__ import annotations

import typing as t

from .calls import (
    BOOL, BYTES, CLS, EXT_CLASSES, EXT_RET, INT, LOCKS, METHOD_TYPES, MUTATORS, PURE, PURE_EVENT, PURE_METHODS, PURE_PREFIX, STR, WAITS,
)
from .exprs import Frame
from .program import Type
from .state import a_eq, bump, State, neg
from .terms import FALSE, NONE, TRUE, T, const, fresh, glob, mk


STR_PARAMS = {"split": ("sep", "maxsplit"), "rsplit": ("sep", "maxsplit"), "encode": ("encoding", "errors"), "decode": ("encoding", "errors"), "splitlines": ("keepends",), "expandtabs": ("tabsize",)}


class Lib:
    # --- functions ---------------------------------------------------------
    def external(self, s: State, q: str, args: list[T], kwargs: dict[str, T], node, fr: Frame):
        p = self.program
        b = q.removeprefix("builtins.")
        if q.startswith("builtins."):
            m = getattr(self, "bi_" + b, None)
            if m is not None:
                res = m(s, args, kwargs, node, fr)
                if res is not None:
                    return res
            if p.is_exception(q):
                x = mk("new", b, fresh())
                self.types[x] = CLS(b)
                self.event(s, "new", b, None, tuple(args), tuple(kwargs.items()), x, node, fr)
                return [(s, x)]
        if q in ("typing.cast",) and len(args) == 2:
            ty = args[0]
            if ty.k == "glob" and ty.a[0] in p.classes and args[1].k not in ("const", "glob", "lit", "new"):
                self.types.setdefault(args[1], CLS(ty.a[0]))
            return [(s, args[1])]
        if q == "shlex.join" and args and self.known_items(s, args[0]) is not None and not any(i.k == "star" for i in self.known_items(s, args[0])):
            parts: list[T] = []
            for i, v in enumerate(self.known_items(s, args[0])):
                qv = mk("op", "shlex.quote", v)
                self.types[qv] = STR
                parts += ([const(" ")] if i else []) + [qv]
            return [(s, self.cat(parts) if parts else const(""))]
        if q == "functools.wraps" or q.endswith(".wraps"):
            return [(s, mk("identity"))]
        if q == "functools.partial" and args:
            return [(s, mk("partial", args[0], tuple(args[1:]), tuple(kwargs.items())))]
        if q == "copy.copy" and args:
            return [(s, self.copy_of(s, args[0]))]
        if q == "os.environ.copy":
            return self.bi_dict(s, [mk("glob", "os.environ")], {}, node, fr)
        if q == "itertools.chain":
            return [(s, self.new_lit(s, "list", [i for a in args for i in (self.content(s, a) or [mk("star", a)])]))]
        if q == "contextlib.suppress":
            return [(s, mk("suppress", *args))]
        if q == "contextlib.nullcontext":
            return [(s, mk("nullcm", *(args or [NONE])))]
        if q in ("contextlib.closing",) and args:
            return [(s, mk("closing", args[0]))]
        if q == "typing.get_args":
            pass
        if q in PURE or q.startswith(PURE_PREFIX) or q in PURE_EVENT:
            ty = PURE.get(q) or PURE_EVENT.get(q) or (STR if q.startswith("os.path.") and not q.rsplit(".", 1)[-1].startswith(("is", "exists")) else None)
            name = b if q.startswith("builtins.") else q
            kw = tuple(sorted(kwargs.items(), key=lambda i: i[0]))
            vargs = [self.versioned(s, a) for a in args]
            x = mk("op", name, *vargs, *[mk("kw", k, v) for k, v in kw])
            if q in ("uuid.uuid4",):
                x = mk("op", name, const(fresh()))
            if ty:
                self.types[x] = ty
            if q in PURE_EVENT:
                out = []
                if self.may_raise(q):
                    s2 = s.copy()
                    ev = self.event(s2, "call", q, None, tuple(args), kw, None, node, fr)
                    ev.raised = True
                    s2.flow = ("raise", "Exception", (), mk("exc", q, fresh()) if ev.kept else mk("exc", "any", 0))
                    out.append((s2, NONE))
                self.event(s, "call", q, None, tuple(args), kw, x, node, fr)
                return out + [(s, x)]
            return [(s, x)]
        last = q.rsplit(".", 1)[-1]
        owner = q.rpartition(".")[0]
        if owner in p.classes or owner in p.modules:
            pass
        if q in EXT_CLASSES or (last[:1].isupper() and not last.isupper()):
            x = mk("new", q, fresh())
            self.types[x] = CLS(q)
            res = self.opaque(s, q, None, args, kwargs, node, fr, CLS(q), kind="new")
            s1, _ = res[-1]
            # The last event carries the object.
            if s1.trail is not None and s1.trail[1].res is res[-1][1]:
                s1.trail[1].res = x
            return res[:-1] + [(s1, x)]
        return self.opaque(s, q, None, args, kwargs, node, fr, EXT_RET.get(q))

    # --- builtins ----------------------------------------------------------
    def bi_len(self, s, args, kwargs, node, fr):
        x = args[0]
        c = self.content(s, x)
        if c is not None:
            return [(s, const(len(c)))]
        if x.k == "const" and isinstance(x.a[0], (str, bytes)):
            return [(s, const(len(x.a[0])))]
        if x.k == "slice" and x.a[1] is const(0) and False:
            return None
        r = mk("op", "len", self.versioned(s, x))
        self.types[r] = INT
        return [(s, r)]

    def bi_bool(self, s, args, kwargs, node, fr):
        return [(s, self.as_bool(s, args[0]))] if args else [(s, FALSE)]

    def bi_isinstance(self, s, args, kwargs, node, fr):
        x, c = args
        qs = self.class_names(c, s)
        if qs is None:
            return [(s, mk("op", "bool", mk("op", "isinstance", x, c)))]
        parts = [mk("op", "isa", x, glob(q)) for q in qs]
        term = parts[0] if len(parts) == 1 else mk("op", "or", *parts)
        k = self.known(s, term)
        return [(s, const(k) if k is not None else term)]

    def class_names(self, c: T, s: State | None = None) -> list[str] | None:
        if c.k == "glob":
            return [c.a[0].removeprefix("builtins.")]
        if c.k == "tuple":
            res = []
            for i in c.a:
                r = self.class_names(i, s)
                if r is None:
                    return None
                res += r
            return res
        if c.k == "op" and c.a[0] == "bitor":
            l, r = self.class_names(c.a[1], s), self.class_names(c.a[2], s)
            return l + r if l is not None and r is not None else None
        return None

    def bi_getattr(self, s, args, kwargs, node, fr):
        if len(args) >= 2 and args[1].k == "const" and isinstance(args[1].a[0], str):
            name = args[1].a[0]
            if len(args) == 2:
                return self.read_attr(s, args[0], name, node, fr)
            ty = self.typeof(s, args[0])
            if self._known_none(s, args[0]) is True:
                return [(s, args[2])]
            x = mk("op", "getattr", args[0], args[1], args[2], const(str(self.attr_ver(s, args[0], name))))
            return [(s, x)]
        return [(s, mk("op", "getattr", *args))]

    def bi_setattr(self, s, args, kwargs, node, fr):
        if args[1].k == "const":
            self.set_attr(s, args[0], args[1].a[0], args[2], node, fr)
            return [(s, NONE)]
        return None

    def _iter_wrap(self, s, op, args):
        if not args:
            return [(s, self.new_lit(s, "dict" if op == "dict" else "set" if op in ("set", "frozenset") else "list", []) if op != "tuple" else mk("tuple"))]
        if args[0].k == "gen":
            return [r if s1.flow is not None else q for s1, lit in self.drain(s, args[0]) for r in [(s1, lit)] for q in (self._iter_wrap(s1, op, [lit]) if s1.flow is None else [r])]
        c = self.content(s, args[0])
        if c is not None:
            if op == "tuple":
                return [(s, mk("tuple", *c))]
            if op in ("list", "set", "frozenset") and (args[0].k == "tuple" or s.cont[args[0]][0] != "dict"):
                return [(s, self.new_lit(s, "list" if op == "list" else "set", c))]
        if args[0].k == "comp" and op in ("list", "set", "tuple", "frozenset"):
            return [(s, mk("comp", "set" if op == "frozenset" else op, *args[0].a[1:]))]
        x = mk("op", op, self.versioned(s, args[0]))
        ty = self.typeof(s, args[0])
        et = self.elem_type(ty)
        self.types[x] = ("list", et)
        return [(s, x)]

    def bi_list(self, s, args, kwargs, node, fr):
        return self._iter_wrap(s, "list", args)

    def bi_tuple(self, s, args, kwargs, node, fr):
        return self._iter_wrap(s, "tuple", args)

    def bi_set(self, s, args, kwargs, node, fr):
        return self._iter_wrap(s, "set", args)

    def bi_frozenset(self, s, args, kwargs, node, fr):
        return self._iter_wrap(s, "frozenset", args)

    def bi_iter(self, s, args, kwargs, node, fr):
        if args[0].k in ("comp",):
            return [(s, args[0])]
        return self._iter_wrap(s, "iter", args)

    def bi_enumerate(self, s, args, kwargs, node, fr):
        c = self.content(s, args[0])
        start = args[1] if len(args) > 1 else kwargs.get("start", const(0))
        if c is not None and start.k == "const" and isinstance(start.a[0], int):
            return [(s, mk("tuple", *[mk("tuple", const(i), v) for i, v in enumerate(c, start.a[0])]))]
        x = mk("op", "enumerate", self.versioned(s, args[0]), *([] if start is const(0) else [start]))
        self.types[x] = ("list", None)
        return [(s, x)]

    def bi_dict(self, s, args, kwargs, node, fr):
        items: list = []
        opened = False
        if args:
            if args[0].k == "comp":
                return [(s, mk("comp", "dict", *args[0].a[1:]))]
            if args[0].k == "op" and args[0].a[0] == "items" and not kwargs:
                # A copy, as {k: v for k, v in x.items()} is.
                return [(s1, mk("comp", "dict", el, (args[0],), ())) for s1, el in self.elem_of(s, args[0], fresh())]
            items, opened = self.dict_merge(s, [], args[0])
        star = kwargs.pop("**", None)
        items += [(const(k), v) for k, v in kwargs.items()]
        if star is not None:
            items, o = self.dict_merge(s, items, star)
            opened = opened or o
        return [(s, self.new_lit(s, "dict", items, opened))]

    def bi_str(self, s, args, kwargs, node, fr):
        if len(args) == 1 and not kwargs:
            v = args[0]
            if v.k == "const":
                return [(s, const(str(v.a[0])))]
            if v.k == "cat" or self.typeof(s, v) == STR:
                return [(s, v)]
            x = mk("op", "str", v)
            self.types[x] = STR
            return [(s, x)]
        return None

    def bi_bytes(self, s, args, kwargs, node, fr):
        if len(args) == 1 and (self.typeof(s, args[0]) in (BYTES, CLS("bytearray")) or args[0].k in ("slice", "cat")):
            return [(s, args[0])]
        return None

    def bi_next(self, s, args, kwargs, node, fr):
        it = args[0]
        if it.k in ("attr", "item", "ver"):
            # An iterator that is kept: every value is another one.
            return self.opaque(s, "builtins.next", None, args, kwargs, node, fr, None)
        out = []
        loop = fresh()
        s2 = s.copy()
        for s3, el in self.elem_of(s, it, loop):
            out.append((s3, el))
        if len(args) > 1:
            anyt = mk("op", "any", it)
            if self.assume(s2, anyt, False):
                out.append((s2, args[1]))
        elif self.raise_mode == "all" or (self.raise_mode == "try" and self.try_depth > 0):
            s2.flow = ("raise", "StopIteration", (), mk("exc", "StopIteration", fresh()))
            out.append((s2, NONE))
        return out

    def bi_any(self, s, args, kwargs, node, fr):
        c = self.content(s, args[0])
        if c is not None:
            parts = [self.truth(s, i) for i in c]
            return [(s, mk("op", "or", *parts) if len(parts) > 1 else parts[0] if parts else FALSE)]
        a = args[0]
        if a.k == "comp":
            # any(x for ..) is the same as any(True for .. if x)
            a = mk("comp", "gen", TRUE, a.a[2], a.a[3] + ((self.truth(s, a.a[1]),) if a.a[1] is not TRUE else ()))
        return [(s, mk("op", "any", a))]

    def bi_all(self, s, args, kwargs, node, fr):
        a = args[0]
        if a.k == "comp":
            a = mk("comp", "gen", TRUE, a.a[2], a.a[3] + (neg(self.truth(s, a.a[1])),))
            return [(s, neg(mk("op", "any", a)))]
        return [(s, mk("op", "all", a))]

    def bi_map(self, s, args, kwargs, node, fr):
        loop = fresh()
        out = []
        for s1, el in self.elem_of(s, args[1], loop):
            for s2, v in self.call_value(s1, args[0], [el], {}, node, fr):
                out.append((s2, mk("comp", "gen", v, (args[1],), ())))
        return out

    def bi_filter(self, s, args, kwargs, node, fr):
        loop = fresh()
        out = []
        for s1, el in self.elem_of(s, args[1], loop):
            for s2, v in [(s1, el)] if args[0] is NONE else self.call_value(s1, args[0], [el], {}, node, fr):
                out.append((s2, mk("comp", "gen", el, (args[1],), (self.truth(s2, v),))))
        return out

    def bi_super(self, s, args, kwargs, node, fr):
        return [(s, self.super_value(fr))]

    def bi_type(self, s, args, kwargs, node, fr):
        if len(args) == 1:
            return [(s, mk("op", "type", args[0]))]
        return None

    def bi_print(self, s, args, kwargs, node, fr):
        return self.opaque(s, "builtins.print", None, args, kwargs, node, fr, None)

    def bi_open(self, s, args, kwargs, node, fr):
        return self.opaque(s, "builtins.open", None, args, kwargs, node, fr, CLS("io.TextIOWrapper"))

    # --- methods -----------------------------------------------------------
    def type_name(self, s: State, x: T) -> str:
        if x.k == "lit":
            return s.cont.get(x, ("list",))[0] if x in s.cont else x.a[0]
        ty = self.typeof(s, x)
        if ty is None:
            if x.k == "const" and isinstance(x.a[0], (str, bytes)):
                return type(x.a[0]).__name__
            if x.k == "cat":
                return "str"
            return "?"
        if ty[0] == "cls":
            return ty[1]
        return {"list": "list", "dict": "dict", "tuple": "tuple"}.get(ty[0], "?")

    def lib_method(self, s: State, base: T, name: str, args: list[T], kwargs: dict[str, T], node, fr: Frame):
        tn = self.type_name(s, base)
        if base.k == "super":
            owner, recv, dyn = base.a
            return self.super_call(s, owner, recv, dyn, name, args, kwargs, node, fr)
        if tn in self.program.classes:
            # A method of an external base class, or unknown
            ext = next((m for m in self.program.mro(tn) if m not in self.program.classes), None)
            q = f"{ext}.{name}" if ext else f"{tn}.{name}"
            return self.opaque(s, q, base, args, kwargs, node, fr, None, havoc=True)
        q = f"{tn}.{name}"
        if tn in LOCKS or tn.startswith("threading."):
            if name == "acquire" and tn in LOCKS:
                self.event(s, "acquire", "lock", base, tuple(args), tuple(kwargs.items()), None, node, fr)
                s.locks = s.locks + (base,)
                return [(s, TRUE)]
            if name == "release" and tn in LOCKS:
                self.event(s, "release", "lock", base, (), (), None, node, fr)
                if base in s.locks:
                    i = len(s.locks) - 1 - s.locks[::-1].index(base)
                    s.locks = s.locks[:i] + s.locks[i + 1 :]
                return [(s, NONE)]
            if name == "wait_for" and args:
                res = self.opaque(s, q, base, args, kwargs, node, fr, BOOL)
                timeout = len(args) > 1 or "timeout" in kwargs
                out = []
                for s1, v in res:
                    if s1.flow is not None:
                        out.append((s1, v))
                        continue
                    for s2, c in self.call_value(s1, args[0], [], {}, node, fr):
                        if s2.flow is not None:
                            out.append((s2, NONE))
                            continue
                        for s3, b in self.test(s2, c):
                            if not b:
                                # The states in which it waits.
                                self.blocked.append((q, base, node, fr.func, s3.pc, timeout))
                            if b or timeout:
                                out.append((s3, const(b)))
                return out
        if tn in ("str", "bytes", "bytearray") or (tn == "?" and name in PURE_METHODS and name not in ("get", "copy", "index", "count", "keys", "values", "items", "pop")):
            m = getattr(self, "str_" + name, None)
            if m:
                r = m(s, base, args, kwargs)
                if r is not None:
                    return [(s, r)]
            if name in PURE_METHODS:
                for i, k in enumerate(STR_PARAMS.get(name, ())):
                    # A parameter that is named is the one at its place.
                    if i == len(args) and k in kwargs:
                        args, kwargs = [*args, kwargs[k]], {q: v for q, v in kwargs.items() if q != k}
                x = mk("op", name, self.versioned(s, base) if tn == "bytearray" else base, *args, *[mk("kw", k, v) for k, v in sorted(kwargs.items())])
                ty = METHOD_TYPES.get(name)
                if ty:
                    self.types[x] = ty
                return [(s, x)]
        if tn in ("list", "dict", "set", "collections.deque", "tuple", "?") and (name in MUTATORS or name in ("get", "keys", "values", "items", "copy", "index", "count")):
            if tn != "?" or name in ("keys", "values", "items", "append", "extend", "insert", "setdefault", "update") or (name == "get" and 1 <= len(args) <= 2 and not kwargs) or (name == "pop"):
                return self.container(s, base, name, tn, args, kwargs, node, fr)
        if name in PURE_METHODS and tn in ("pathlib.Path", "memoryview", "int", "logging.Logger"):
            if name == "to_bytes":
                args = [*args, kwargs.get("length", const(1))][:1] + [args[1] if len(args) > 1 else kwargs.get("byteorder", const("big"))] + [kwargs.get("signed", FALSE)]
                kwargs = {}
            x = mk("op", name, base, *args, *[mk("kw", k, v) for k, v in sorted(kwargs.items())])
            ty = METHOD_TYPES.get(name)
            if ty:
                self.types[x] = ty
            return [(s, x)]
        if name == "get_name" and not args:
            return [(s, mk("op", "get_name", base))]
        return self.opaque(s, q, base, args, kwargs, node, fr, EXT_RET.get(q), havoc=False)

    def super_call(self, s: State, owner: str, recv: T, dyn: str, name: str, args, kwargs, node, fr: Frame):
        p = self.program
        mro = p.mro(dyn)
        rest = mro[mro.index(owner) + 1 :] if owner in mro else p.mro(owner)[1:]
        for c in rest:
            if c in p.classes:
                if name in p.classes[c].methods:
                    return self.call_func(s, p.classes[c].methods[name], recv, args, kwargs, node, fr, selfcls=dyn)
            elif c not in ("object",):
                q = f"{c}.{name}"
                if c.endswith(("Protocol", "Exception")) and name == "__init__":
                    return [(s, NONE)]
                return self.opaque(s, q, recv, args, kwargs, node, fr, None, havoc=True)
        if name == "__init__":
            return [(s, NONE)]
        return self.opaque(s, f"object.{name}", recv, args, kwargs, node, fr, None, havoc=True)

    # --- strings
    def _other_codec(self, args, kwargs) -> bool:
        enc = [*args[:1], *([kwargs["encoding"]] if "encoding" in kwargs else [])]
        if any(e.k != "const" or str(e.a[0]).lower().replace("_", "-") not in ("utf-8", "utf8") for e in enc):
            return True
        err = [*args[1:2], *([kwargs["errors"]] if "errors" in kwargs else [])]
        return any(e is not const("strict") for e in err)

    def str_encode(self, s, base, args, kwargs):
        if self._other_codec(args, kwargs):
            return None
        return self.encode(base)

    def str_decode(self, s, base, args, kwargs):
        if self._other_codec(args, kwargs):
            return None
        if base.k == "op" and base.a[0] == "encode":
            return base.a[1]
        x = mk("op", "decode", base)
        self.types[x] = STR
        return x

    def str_format(self, s, base, args, kwargs):
        if base.k != "const":
            return None
        import string

        parts: list[T] = []
        idx = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(base.a[0]):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                if spec or conv:
                    return None
                if field == "":
                    v = args[idx]
                    idx += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kwargs:
                    v = kwargs[field]
                else:
                    return None
                parts.append(v)
        except (ValueError, IndexError):
            return None
        return self.cat(parts)

    def str_join(self, s, base, args, kwargs):
        c = self.content(s, args[0])
        if c is not None:
            parts: list[T] = []
            for i, v in enumerate(c):
                if i:
                    parts.append(base)
                parts.append(v)
            return self.cat(parts)
        lit = s.cont.get(args[0])
        x = mk("op", "join", base, self.versioned(s, args[0]), mk("content", *[i for i in lit[1]]) if lit is not None else NONE)
        self.types[x] = STR
        return x

    # --- containers
    def copied(self, s: State, x: T) -> T:
        """The container that a dict is an unchanged copy of."""
        c = s.cont.get(x) if x.k == "lit" else None
        if c is not None and c[0] == "dict" and not c[2] and len(c[1]) == 1 and c[1][0][0].k == "rest" and c[1][0][0].a[0] is c[1][0][1] and not s.cver.get(x):
            return c[1][0][1]
        return x

    def container(self, s: State, base: T, name: str, tn: str, args, kwargs, node, fr: Frame):
        kind = tn if tn in ("list", "dict", "set") else ("dict" if name in ("get", "keys", "values", "items", "setdefault") else "list" if name in ("append", "extend", "insert") else tn)
        c = s.cont.get(base)
        if name in ("keys", "values", "items"):
            if c is not None and c[0] == "dict" and not c[2] and not any(k.k == "rest" for k, _ in c[1]):
                vals = [k if name == "keys" else v if name == "values" else mk("tuple", k, v) for k, v in c[1]]
                return [(s, mk("tuple", *vals))]
            base = self.copied(s, base)
            x = mk("op", name, self.versioned(s, base))
            ty = self.typeof(s, base)
            if ty and ty[0] == "dict":
                self.types[x] = ("list", ty[1] if name == "keys" else ty[2] if name == "values" else ("tuple", (ty[1], ty[2])))
            else:
                self.types[x] = ("list", None)
            return [(s, x)]
        if name == "get":
            key, dflt = args[0], args[1] if len(args) > 1 else kwargs.get("default", NONE)
            if (base, key) in s.items:
                return [(s, s.items[(base, key)])]
            if c is not None and c[0] == "dict" and not c[2]:
                found = None
                for k, v in reversed(c[1]):
                    if k is key:
                        found = v
                        break
                    if not self.distinct(k, key):
                        found = False
                        break
                if found is None:
                    return [(s, dflt)]
                if found is not False:
                    return [(s, found)]
                table = {k: v for k, v in c[1]}
                if 2 <= len(table) <= 12 and all(isinstance(k, T) and k.k == "const" and isinstance(k.a[0], str) for k in table):
                    # A table: one path for each of its keys, and one for the others.
                    out, cur = [], [s]
                    for k, v in table.items():
                        nxt = []
                        for s1 in cur:
                            for s2, b in self.test(s1, a_eq(key, k)):
                                out.append((s2, v)) if b else nxt.append(s2)
                        cur = nxt
                    return out + [(s1, dflt) for s1 in cur]
            x = mk("op", "get", base, key, dflt, const(str(self.item_ver(s, base))))
            ty = self.typeof(s, base)
            if ty and ty[0] == "dict" and ty[2]:
                self.types[x] = ty[2]
            return [(s, x)]
        if name == "copy":
            return [(s, self.copy_of(s, base))]
        if name in ("index", "count"):
            return [(s, mk("op", name, self.versioned(s, base), *args))]
        # mutators
        res: T = NONE
        if name in ("pop", "popitem", "popleft"):
            key = args[0] if args else const(-1) if kind != "dict" else mk("op", "last", base)
            if len(args) > 1:
                res = mk("op", "get", base, key, args[1], const(str(self.item_ver(s, base))))
                ty = self.typeof(s, base)
                if (base, key) in s.items:
                    res = s.items[(base, key)]
                elif ty and ty[0] == "dict" and ty[2]:
                    self.types[res] = ty[2]
            else:
                res = self.read_item(s, base, key)
        elif name == "setdefault":
            key = args[0]
            dflt = args[1] if len(args) > 1 else NONE
            if (base, key) in s.items:
                res = s.items[(base, key)]
            else:
                res = mk("op", "setdefault", base, key, dflt, const(str(self.item_ver(s, base))))
                ty = self.typeof(s, base)
                if ty and ty[0] == "dict" and ty[2]:
                    self.types[res] = ty[2]
        self.event(s, "call", f"{kind}.{name}", base, tuple(args), tuple(kwargs.items()), res, node, fr)
        if c is not None:
            self.lit_mutate(s, base, c, name, args, kwargs, res)
        s.cver[base] = bump(s.cver.get(base, 0))
        for k in [k for k in s.items if k[0] is base]:
            if name in ("pop", "clear", "remove", "popitem", "sort", "reverse", "insert", "update") and not (
                name == "pop" and kind == "dict" and args and self.distinct(k[1], args[0])
            ):
                del s.items[k]
        if name == "setdefault":
            s.items[(base, args[0])] = res
        return [(s, res)]

    def lit_mutate(self, s: State, base: T, c: tuple, name: str, args, kwargs, res: T = NONE) -> None:
        kind, items, opened = c
        its = list(items)
        if name in ("append", "add"):
            its.append(args[0])
        elif name == "appendleft":
            its.insert(0, args[0])
        elif name == "insert" and args[0].k == "const" and not opened and 0 <= args[0].a[0] <= len(its):
            its.insert(args[0].a[0], args[1])
        elif name in ("extend",) or (name == "update" and kind == "set"):
            more = self.content(s, args[0])
            its.extend(more if more is not None else [mk("star", self.versioned(s, args[0]))])
        elif name == "update" and kind == "dict":
            if args:
                its, o = self.dict_merge(s, its, args[0])
                opened = opened or o
            for k, v in kwargs.items():
                its = [i for i in its if i[0] is not const(k)] + [(const(k), v)]
        elif name == "setdefault" and kind == "dict":
            if not any(k is args[0] for k, _ in its):
                whole = not opened and all(k.k == "const" for k, _ in its) and args[0].k == "const"
                its.append((args[0], res if not whole else args[1] if len(args) > 1 else NONE))
        elif name == "pop" and kind == "dict" and args:
            its = [i for i in its if i[0] is not args[0]]
        elif name == "pop" and kind == "list" and not opened and its and (not args or (args[0].k == "const" and abs(args[0].a[0]) < len(its))):
            its.pop(args[0].a[0] if args else -1)
        elif name == "clear":
            its, opened = [], False
        elif name in ("remove", "discard") and kind == "set" and its and all(i.k == "const" for i in its) and args[0].k == "const":
            its = [i for i in its if i is not args[0]]
        elif name in ("sort", "reverse", "move_to_end"):
            opened = True
        else:  # what is left is not known
            rest = mk("rest", base, fresh())
            its, opened = [(rest, rest) if kind == "dict" else rest], True
        s.cont[base] = (kind, tuple(its), opened)

    # --- types -------------------------------------------------------------
    def elem_type(self, ty: Type) -> Type:
        if ty is None:
            return None
        if ty[0] == "list":
            return ty[1]
        if ty[0] == "dict":
            return ty[1]
        return None

    def typeof(self, s: State | None, x: T) -> Type:
        if s is not None:
            isa = s.isa.get(x)
            if isa:
                best = isa[0]
                for q in isa[1:]:
                    if self.program.is_subclass(q, best):
                        best = q
                if best in self.program.classes or best in ("str", "bytes", "int", "bool"):
                    return CLS(best)
                if x not in self.types:
                    return CLS(best)
        r = self.types.get(x)
        if r is not None:
            return r
        if x in self._notype:
            return None
        r = self._typeof(x)
        if r is not None:
            self.types[x] = r
        elif s is None or not s.isa:
            self._notype.add(x) if x.k not in ("call", "hav", "param", "elem", "item", "attr") else None
        return r

    def _typeof(self, x: T) -> Type:
        k = x.k
        p = self.program
        if k == "const":
            n = type(x.a[0]).__name__
            return CLS(n) if n in ("str", "bytes", "int", "bool", "float") else None
        if k == "ver":
            return self.typeof(None, x.a[0])
        if k == "attr":
            bt = self.typeof(None, x.a[0])
            if bt and bt[0] == "cls" and bt[1] in p.classes:
                return p.attr_type(bt[1], x.a[1])
            return None
        if k == "glob":
            if self.is_enum_member(x):
                return CLS(x.a[0].rpartition(".")[0])
            return None
        if k == "item":
            bt = self.typeof(None, x.a[0])
            if bt is None:
                return None
            if bt[0] == "list":
                return bt[1]
            if bt[0] == "dict":
                return bt[2]
            if bt[0] == "tuple" and x.a[1].k == "const" and isinstance(x.a[1].a[0], int) and x.a[1].a[0] < len(bt[1]):
                return bt[1][x.a[1].a[0]]
            if bt in (STR, ):
                return STR
            return None
        if k == "elem":
            return self.elem_type(self.typeof(None, x.a[0]))
        if k == "elem_idx":
            return INT
        if k == "slice":
            return self.typeof(None, x.a[0])
        if k == "cat":
            for part in x.a:
                ty = self.typeof(None, part)
                if ty in (BYTES, CLS("bytearray")):
                    return BYTES
            return STR
        if k == "op":
            op = x.a[0]
            if op in ("not", "and", "or", "truthy", "isnone", "eq", "lt", "in", "isa", "any", "all"):
                return BOOL
            if op == "encode":
                return BYTES
            if op in ("sum", "len"):
                return INT
            if op in ("str", "repr", "fmt"):
                return STR
            if op in ("list", "iter", "copy"):
                return self.typeof(None, x.a[1])
        if k == "comp":
            if x.a[0] == "dict":
                if x.a[1].k != "tuple":
                    return ("dict", None, None)
                return ("dict", self.typeof(None, x.a[1].a[0]), self.typeof(None, x.a[1].a[1]))
            return ("list", self.typeof(None, x.a[1]))
        if k == "tuple":
            return ("tuple", tuple(self.typeof(None, i) for i in x.a))
        return None
