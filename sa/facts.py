"""Path facts: what is known about a value on a path, with simple implications only."""

from __future__ import annotations

import ast
import typing as t

from .program import Type
from .state import NON_NULL, State, a_eq, a_isa, a_lt, a_none, a_truthy, neg
from .terms import FALSE, NONE, TRUE, T, const, glob, is_const, mk

CONST_TYPES = {bool: "bool", int: "int", str: "str", bytes: "bytes", float: "float", type(None): "None"}


class Facts:
    program: t.Any

    # --- distinct constants
    def is_enum_member(self, x: T) -> str | None:
        if x.k == "glob":
            cls, _, name = x.a[0].rpartition(".")
            if cls in self.program.classes and self.program.is_enum(cls) and name in self.program.classes[cls].assigns:
                return cls
        return None

    def is_variable(self, x: T) -> bool:
        """A module level name that is given a value, its value is not known."""
        if x.k != "glob":
            return False
        mod, _, name = x.a[0].rpartition(".")
        m = self.program.modules.get(mod)
        if m is None:
            # A setting of a library.
            return mod == "ansible.constants"
        return name in m.assigns and not any(isinstance(v, (ast.Call, ast.Dict, ast.List, ast.Tuple, ast.Lambda)) for v in m.assigns[name])

    def distinct(self, a: T, b: T) -> bool:
        if a is b:
            return False
        if a.k == "const" and b.k == "const":
            return True
        ea, eb = self.is_enum_member(a), self.is_enum_member(b)
        if ea and eb:
            return True
        if (ea and b.k == "const") or (eb and a.k == "const"):
            return True
        if a.k == "new" and b.k == "new":
            return True
        if (a.k == "new" and b.k == "const") or (b.k == "new" and a.k == "const"):
            return True
        return False

    def constlike(self, x: T) -> bool:
        return x.k == "const" or self.is_enum_member(x) is not None

    # --- knowledge
    def known(self, s: State, atom: T) -> bool | None:
        if atom in s.pc:
            return s.pc[atom]
        if atom.k == "const":
            return bool(atom.a[0])
        if atom.k != "op":
            return self.known(s, a_truthy(atom))
        op = atom.a[0]
        if op == "not":
            r = self.known(s, atom.a[1])
            return None if r is None else not r
        if op == "and":
            rs = [self.known(s, x) for x in atom.a[1:]]
            if any(r is False for r in rs):
                return False
            return True if all(rs) else None
        if op == "or":
            rs = [self.known(s, x) for x in atom.a[1:]]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if op == "truthy":
            return self._known_truthy(s, atom.a[1])
        if op == "isnone":
            return self._known_none(s, atom.a[1])
        if op == "eq":
            return self._known_eq(s, atom.a[1], atom.a[2])
        if op == "lt":
            a, b = atom.a[1], atom.a[2]
            if a.k == "const" and b.k == "const":
                try:
                    return a.a[0] < b.a[0]
                except TypeError:
                    return None
            if a is b or s.pc.get(a_lt(b, a)) is True or s.pc.get(a_eq(a, b)) is True:
                return False
            return None
        if op == "isa":
            return self._known_isa(s, atom.a[1], atom.a[2].a[0])
        if op in ("in", "any", "all", "cond", "bool"):
            return None
        return self.known(s, a_truthy(atom))

    def _known_truthy(self, s: State, x: T) -> bool | None:
        if x.k == "const":
            return bool(x.a[0])
        if x.k == "op" and x.a[0] in ("not", "and", "or", "truthy", "isnone", "eq", "lt", "in", "isa", "any", "all"):
            return self.known(s, x)
        if x.k == "tuple":
            return bool(x.a)
        if x.k == "lit":
            c = s.cont.get(x)
            if c is not None:
                if c[1]:
                    # A summarised part may be empty.
                    if any(not (isinstance(i, T) and i.k == "rest") for i in c[1]):
                        return True
                elif not c[2]:
                    return False
            return None
        if x.k == "cat":
            if any(p.k == "const" and p.a[0] for p in x.a):
                return True
            return None
        if x.k == "comp":
            return None
        if x.k in NON_NULL and not self.is_variable(x):
            return True
        if x.k == "ver" and x.a[0].k == "lit" and x.a[1] == s.cver.get(x.a[0], 0):
            return self._known_truthy(s, x.a[0])
        if x.k == "ver":
            if self._known_none(s, x.a[0]) is True:
                return False
            return None
        if s.pc.get(a_none(x)) is True:
            return False
        for q in s.isa.get(x, ()):
            if self._always_true(q):
                return True
        if s.pc.get(a_none(x)) is False:
            ty = self.typeof(s, x)
            if ty and ty[0] == "cls" and self._always_true(ty[1]):
                return True
        for k, v in s.pc.items():
            if v and k.a[0] == "eq" and x in k.a[1:]:
                o = k.a[2] if k.a[1] is x else k.a[1]
                if self.constlike(o):
                    return bool(o.a[0]) if o.k == "const" else True
        return None

    def _always_true(self, q: str) -> bool:
        if q not in self.program.classes:
            return q.startswith(("threading.", "queue.", "ssl.", "socket."))
        return not any(self.program.find_method(q, n) for n in ("__bool__", "__len__")) and all(
            b in self.program.classes or b in ("object", "typing.Protocol", "enum.Enum") for b in self.program.mro(q)
        )

    def _known_none(self, s: State, x: T) -> bool | None:
        if x.k == "const":
            return x.a[0] is None
        if x.k in NON_NULL and not self.is_variable(x):
            return False
        if x.k == "op" and x.a[0] not in ("get", "getattr", "cond_value"):
            return False
        if x.k == "call" and x.a[0] == "os.umask":
            return False
        if s.pc.get(a_truthy(x)) is True or s.isa.get(x):
            return False
        for k, v in s.pc.items():
            if v and k.a[0] == "truthy" and k.a[1].k == "ver" and k.a[1].a[0] is x:
                return False
            if v and k.a[0] == "eq" and x in k.a[1:]:
                o = k.a[2] if k.a[1] is x else k.a[1]
                if self.constlike(o):
                    return o is NONE
        return None

    def _known_eq(self, s: State, a: T, b: T) -> bool | None:
        if a is b:
            return True
        if self.distinct(a, b):
            return False
        for x, y in ((a, b), (b, a)):
            if not self.constlike(y):
                continue
            for k, v in s.pc.items():
                if v and k.a[0] == "eq" and x in k.a[1:]:
                    o = k.a[2] if k.a[1] is x else k.a[1]
                    if o is not y and self.distinct(o, y):
                        return False
            if s.pc.get(a_none(x)) is True and y is not NONE:
                return False
            if y.k == "const" and y.a[0] in (True, False) and isinstance(y.a[0], bool):
                r = s.pc.get(a_truthy(x))
                ty = self.typeof(s, x)
                if r is not None and ty == ("cls", "bool"):
                    return r == y.a[0]
        return None

    def _known_isa(self, s: State, x: T, q: str) -> bool | None:
        p = self.program
        if x.k == "const":
            name = CONST_TYPES.get(type(x.a[0]))
            if q in CONST_TYPES.values():
                return name == q or (name == "bool" and q == "int")
            if x is NONE:
                return False
            return None
        if x.k == "new":
            return p.is_subclass(x.a[0], q)
        if x.k == "single":
            return p.is_subclass(x.a[0], q)
        if x.k == "lit":
            if q in ("list", "dict", "set"):
                return x.a[0] == q
            if q in ("str", "int", "bool"):
                return False
        if x.k == "cat":
            if q in p.classes:
                return False
        if x.k == "tuple" and q in ("str", "list", "dict", "int"):
            return False
        if self._known_none(s, x) is True or s.pc.get(a_truthy(x)) is False and self._always_true(q):
            return False
        for o in s.isa.get(x, ()):
            r = p.is_subclass(o, q)
            if r:
                return True
            if o in p.classes and q in p.classes and p.is_subclass(q, o) is False:
                if not (p.subclasses(o) & p.subclasses(q)):
                    return False
        ty = self.typeof(s, x)
        if ty and ty[0] == "cls":
            r = p.is_subclass(ty[1], q)
            if r and self._known_none(s, x) is False:
                return True
            if ty[1] in p.classes and q in p.classes and not r and not (p.subclasses(ty[1]) & p.subclasses(q)):
                return False
            if ty[1] in ("str", "int", "bool", "bytes") and q in p.classes:
                return False
        return None

    # --- assumptions
    def assume(self, s: State, atom: T, val: bool) -> bool:
        """Adds a fact, returns False if it contradicts what is known."""
        k = self.known(s, atom)
        if k is not None:
            if k == val and atom.k == "op" and atom.a[0] in ("truthy", "isnone", "eq", "lt", "isa", "in"):
                return True
            return k == val
        if atom.k == "op":
            op = atom.a[0]
            if op == "not":
                return self.assume(s, atom.a[1], not val)
            if (op == "and" and val) or (op == "or" and not val):
                return all(self.assume(s, x, val) for x in atom.a[1:])
            if op in ("and", "or"):
                # One undecided operand decides it.
                rest = [x for x in atom.a[1:] if self.known(s, x) is None]
                if len(rest) == 1:
                    return self.assume(s, rest[0], val)
            if op == "isa" and val:
                x = atom.a[1]
                s.isa = dict(s.isa)
                s.isa[x] = s.isa.get(x, ()) + (atom.a[2].a[0],)
            if op == "eq" and val:
                pass
        else:
            return self.assume(s, a_truthy(atom), val)
        s.pc = dict(s.pc)
        s.pc[atom] = val
        return True

    def test(self, s: State, x: T) -> list[tuple[State, bool]]:
        """Splits on the truth of a value."""
        if x.k == "op" and x.a[0] == "not":
            return [(s1, not b) for s1, b in self.test(s, x.a[1])]
        if x.k == "op" and x.a[0] in ("and", "or"):
            res = []
            stop = x.a[0] == "or"
            cur = [s]
            for o in x.a[1:]:
                nxt = []
                for s1 in cur:
                    for s2, b in self.test(s1, o):
                        if b == stop:
                            res.append((s2, stop))
                        else:
                            nxt.append(s2)
                cur = nxt
            return res + [(s1, not stop) for s1 in cur]
        atom = self.truth(s, x)
        if atom.k == "op" and atom.a[0] in ("not", "and", "or"):
            return self.test(s, atom)
        k = self.known(s, atom)
        if k is not None:
            return [(s, k)]
        s2 = s.copy()
        res = []
        if self.assume(s, atom, True):
            res.append((s, True))
        if self.assume(s2, atom, False):
            res.append((s2, False))
        return res

    def truth(self, s: State, x: T) -> T:
        """The atom for the truth of a value."""
        if x.k == "op" and x.a[0] in ("not", "and", "or", "truthy", "isnone", "eq", "lt", "in", "isa", "any", "all", "cond", "bool"):
            return x
        if x.k == "const":
            return x
        if x.k == "op" and x.a[0] == "len":
            return self.truth(s, x.a[1]) if x.a[1].k != "ver" else a_truthy(x.a[1])
        v = self.versioned(s, x)
        return a_truthy(v)

    def versioned(self, s: State, x: T) -> T:
        """A container's content is only the same value while it is not changed."""
        if x.k in ("const", "glob", "new", "single", "ver", "func", "bound", "closure", "tuple", "cat"):
            return x
        cv = s.cver.get(x, 0)
        if x.k in ("lit", "comp", "op"):
            return mk("ver", x, cv) if cv else x
        ty = self.typeof(s, x)
        if ty and ty[0] in ("list", "dict") or ty in (("cls", "set"), ("cls", "bytearray")):
            return mk("ver", x, cv, s.epoch)
        if cv:
            return mk("ver", x, cv)
        return x

    # --- comparisons
    def cmp(self, s: State, op: str, a: T, b: T) -> T:
        if op in ("!=", "is not"):
            return neg(self.cmp(s, "==", a, b))
        if op in ("==", "is"):
            if a is b:
                return TRUE
            if a is NONE or b is NONE:
                x = b if a is NONE else a
                r = self._known_none(s, x)
                return const(r) if r is not None and (x.k != "op") and x.k in ("const", *NON_NULL) else a_none(x)
            if a.k == "const" and b.k == "const":
                return const(a.a[0] == b.a[0])
            if self.distinct(a, b):
                return FALSE
            for x, y in ((a, b), (b, a)):
                if y.k == "const" and y.a[0] == 0 and not isinstance(y.a[0], bool) and x.k == "op" and x.a[0] == "len":
                    return neg(self.truth(s, x))
                if y.k == "const" and y.a[0] in ("", b"") and isinstance(y.a[0], (str, bytes)):
                    ty = self.typeof(s, x)
                    if ty in (("cls", "str"), ("cls", "bytes"), ("cls", "bytearray")):
                        return neg(self.truth(s, x))
                if y.k == "const" and isinstance(y.a[0], bool) and self.typeof(s, x) == ("cls", "bool"):
                    r = self.truth(s, x)
                    return r if y.a[0] else neg(r)
            return a_eq(a, b)
        if op == ">":
            return self.cmp(s, "<", b, a)
        if op == ">=":
            return neg(self.cmp(s, "<", a, b))
        if op == "<=":
            return neg(self.cmp(s, "<", b, a))
        if op == "<":
            if a.k == "const" and b.k == "const":
                try:
                    return const(a.a[0] < b.a[0])
                except TypeError:
                    pass
            if a.k == "const" and a.a[0] == 0 and b.k == "op" and b.a[0] == "len":
                return self.truth(s, b)
            if b.k == "const" and b.a[0] == 1 and a.k == "op" and a.a[0] == "len":
                return neg(self.truth(s, a))
            return a_lt(a, b)
        if op == "not in":
            return neg(self.cmp(s, "in", a, b))
        if op == "in":
            if b.k == "op" and b.a[0] == "keys":
                b = b.a[1]
            elts = None
            if b.k == "tuple":
                elts = list(b.a)
            elif b.k == "lit":
                c = s.cont.get(b)
                if c is not None and not c[2] and not any(isinstance(i, T) and i.k in ("rest", "star") for i in c[1]):
                    elts = [i[0] if isinstance(i, tuple) else i for i in c[1]]
            if elts is not None and len(elts) <= 12:
                parts = [self.cmp(s, "==", a, e) for e in elts]
                if any(p is TRUE for p in parts):
                    return TRUE
                parts = [p for p in parts if p is not FALSE]
                if not parts:
                    return FALSE
                return parts[0] if len(parts) == 1 else mk("op", "or", *parts)
            return mk("op", "in", a, self.versioned(s, b))
        return mk("op", op, a, b)
