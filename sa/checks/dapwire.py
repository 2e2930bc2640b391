"""The wire format of the Debug Adapter Protocol: C03 and C04."""

from __future__ import annotations

import ast
import re

from .. import dap_protocol as spec
from ..program import AnalysisError, ClassInfo, Module
from ..report import Check
from ._util import *

MESSAGES = "ansibug.dap._messages"
META = f"{MESSAGES}.DAPObjectMeta"
PROTOCOL = f"{MESSAGES}.ProtocolMessage"


# --- C03 -----------------------------------------------------------------------
class Unknown(Exception):
    """The value of an expression is not known statically."""


class Consts:
    """The values of literals, of the constants of a module and of dictionaries made of those."""

    def __init__(self, chk: Check) -> None:
        self.program = chk.program

    def value(self, module: Module, e: ast.expr, depth: int = 0) -> object:
        if depth > 20:
            raise Unknown(ast.unparse(e))
        go = lambda x: self.value(module, x, depth + 1)
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Dict):
            res: dict = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    res.update(self.mapping(module, v, depth))
                else:
                    res[go(k)] = go(v)
            return res
        if isinstance(e, (ast.Tuple, ast.List)):
            return [go(x) for x in e.elts]
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            return {**self.mapping(module, e.left, depth), **self.mapping(module, e.right, depth)}
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = go(e.left), go(e.right)
            if isinstance(a, str) and isinstance(b, str):
                return a + b
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "dict":
            res = {}
            for x in e.args:
                res.update(self.mapping(module, x, depth) if isinstance(x, (ast.Dict, ast.Name)) else dict(go(x)))
            for kw in e.keywords:
                if kw.arg is None:
                    res.update(self.mapping(module, kw.value, depth))
                else:
                    res[kw.arg] = go(kw.value)
            return res
        if isinstance(e, ast.JoinedStr):
            return "".join(str(go(x.value if isinstance(x, ast.FormattedValue) else x)) for x in e.values)
        if isinstance(e, (ast.Name, ast.Attribute)):
            q = self.program.resolve_expr(module, e, None)
            if q:
                return self.named(q, depth)
        raise Unknown(ast.unparse(e))

    def named(self, q: str, depth: int) -> object:
        owner, _, name = q.rpartition(".")
        if owner in self.program.classes:
            found = self.program.find_class_assign(owner, name)
            if found and self.program.is_enum(owner):
                return Member(owner, name, self.value(found[0].module, found[1], depth + 1))
            if found:
                return self.value(found[0].module, found[1], depth + 1)
        mod = self.program.modules.get(owner)
        if mod is not None:
            values = mod.assigns.get(name, [])
            if len(values) == 1:
                return self.value(mod, values[0], depth + 1)
        raise Unknown(q)

    def mapping(self, module: Module, e: ast.expr, depth: int) -> dict:
        v = self.value(module, e, depth + 1)
        if not isinstance(v, dict):
            raise Unknown(ast.unparse(e))
        return v


class Member:
    """A member of an enumeration."""

    def __init__(self, owner: str, name: str, value: object) -> None:
        self.owner, self.name, self.value = owner, name, value
        while isinstance(self.value, Member):
            self.value = self.value.value


def squeeze(name: str) -> str:
    return re.sub(r"[^a-z0-9]", "", name.lower())


def enum_values(chk: Check, consts: Consts, q: str, allowed: set[str], rule: str) -> dict[str, str]:
    """The values of an enumeration: each a word of the protocol, the one its name says, and no two the same."""
    cls = chk.program.cls(q)
    res: dict[str, str] = {}
    for name, e in cls.assigns.items():
        if name.startswith("_"):
            continue
        where = f"{q}.{name}"
        try:
            v = consts.value(cls.module, e)
        except Unknown:
            raise AnalysisError(f"the value of {where} is not a constant")
        v = v.value if isinstance(v, Member) else v
        chk.must(v in allowed, rule, where, f"{name} has the value {v!r}, which the protocol does not have")
        chk.must(squeeze(str(v)) == squeeze(name), rule, where, f"{name} has the value {v!r} of something else")
        chk.must(v not in res.values(), rule, where, f"{v!r} is the value of more than one member")
        res[name] = str(v)
    return res


def own_mapping(chk: Check, consts: Consts, cls: ClassInfo) -> dict:
    for kw in cls.node.keywords:
        if kw.arg == "dap":
            try:
                return consts.mapping(cls.module, kw.value, 0)
            except Unknown as e:
                raise AnalysisError(f"the mapping of {cls.qual} is not a constant: {e}")
    return {}


def full_mapping(chk: Check, consts: Consts, q: str) -> dict:
    """The mapping of a class with those of its bases, merged as the metaclass does it (the class wins)."""
    cls = chk.program.classes.get(q)
    if cls is None:
        return {}
    res = own_mapping(chk, consts, cls)
    for base in reversed(cls.bases):
        res = {**full_mapping(chk, consts, base), **res}
    return res


def is_dap(chk: Check, q: str) -> bool:
    for m in chk.program.mro(q):
        c = chk.program.classes.get(m)
        if c is not None and any(kw.arg == "metaclass" and chk.program.resolve_expr(c.module, kw.value, None) == META for kw in c.node.keywords):
            return True
    return False


def leaves(mapping: dict, at: tuple[str, ...] = ()) -> list[tuple[tuple[str, ...], str]]:
    res = []
    for k, v in mapping.items():
        if isinstance(v, dict):
            res += leaves(v, (*at, k))
        else:
            res.append(((*at, k), v))
    return res


def converted(chk: Check, module: Module, ann: ast.expr, unions: bool) -> tuple[list[str], bool]:
    """The classes an annotation names, and whether the unpacking finds the class to convert to."""
    prog = chk.program
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        # The annotations are strings already, so a quoted one is not evaluated to a type.
        return converted(chk, module, ast.parse(ann.value, mode="eval").body, unions)[0], False
    named = [q for x in ast.walk(ann) if isinstance(x, (ast.Name, ast.Attribute)) for q in [prog.resolve_expr(module, x, None)] if q]
    classes = [q for q in named if q in prog.classes and (is_dap(chk, q) or prog.is_enum(q))]
    if isinstance(ann, (ast.Name, ast.Attribute)):
        return classes, True
    if isinstance(ann, ast.Subscript):
        base = prog.resolve_expr(module, ann.value, None) or ast.unparse(ann.value)
        inner = ann.slice
        direct = isinstance(inner, (ast.Name, ast.Attribute))
        if base.endswith("Optional"):
            return classes, direct
        if tail(base) in ("List", "list"):
            return classes, direct
        if base.endswith("Union") and isinstance(inner, ast.Tuple) and len(inner.elts) == 2:
            a, b = inner.elts
            return classes, isinstance(a, (ast.Name, ast.Attribute)) and isinstance(b, ast.Constant) and b.value is None
    if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
        return classes, unions and isinstance(ann.left, (ast.Name, ast.Attribute)) and isinstance(ann.right, ast.Constant)
    return classes, False


def typing_only(module: Module) -> set[str]:
    """Names that are only imported for the type checker."""
    res: set[str] = set()
    for node in module.tree.body:
        if isinstance(node, ast.If) and "TYPE_CHECKING" in ast.unparse(node.test):
            for sub in ast.walk(node):
                if isinstance(sub, (ast.Import, ast.ImportFrom)):
                    res |= {(a.asname or a.name).split(".")[0] for a in sub.names}
    return res


class Wire:
    """One class of the protocol against its part of the specification."""

    def __init__(self, chk: Check, consts: Consts, q: str) -> None:
        self.chk, self.consts, self.q = chk, consts, q
        self.cls = chk.program.cls(q)
        self.mapping = full_mapping(chk, consts, q)
        self.fields = {n: (c, ann) for n, c, ann, _ in chk.program.dataclass_fields(q)}
        chk.entries[q] = len(leaves(self.mapping))
        self.unions = any(isinstance(n, ast.Attribute) and n.attr == "UnionType" for n in ast.walk(chk.program.module(MESSAGES).tree))

    def hand_made(self) -> set[str]:
        """Fields read and written by the class's own pack and unpack instead of the mapping."""
        pack, unpack = self.cls.methods.get("pack"), self.cls.methods.get("unpack")
        if self.cls.qual == PROTOCOL or pack is None or unpack is None:
            return set()
        read = {n.attr for n in ast.walk(pack.node) if isinstance(n, ast.Attribute)}
        given = {k.arg for n in ast.walk(unpack.node) if isinstance(n, ast.Call) for k in n.keywords}
        given |= {n.value for n in ast.walk(unpack.node) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
        return {f for f in self.fields if f in read and f in given}

    def keys(self, protocol: dict, at: tuple[str, ...], where: dict) -> None:
        """Each key is one the protocol has at that place, holding what the protocol has there."""
        chk = self.chk
        for key, field in where.items():
            if not isinstance(key, str):
                raise AnalysisError(f"{self.q} has a key that is not a name")
            path = ".".join((*at, key))
            if not chk.must(key in protocol, "C03.key", self.q, f"the protocol has no {path!r} in {self.cls.name}"):
                continue
            want = protocol[key]
            if isinstance(field, dict):
                chk.must(False, "C03.key", self.q, f"{path!r} of {self.cls.name} is one value in the protocol")
                continue
            self.swapped(path, key, field, [k for k in protocol if k != key])
            self.holds(path, field, want)

    def swapped(self, path: str, key: str, field: str, others: list[str]) -> None:
        """A field is not sent under the key of another."""
        if squeeze(key) == squeeze(field):
            return self.chk.must(True, "C03.swap", self.q, "") and None
        other = [k for k in others if squeeze(k) == squeeze(field)]
        self.chk.must(not other, "C03.swap", self.q, f"{field} of {self.cls.name} is sent as {path!r}, the protocol has {other}")

    def holds(self, path: str, field: str, want: str | None) -> None:
        chk = self.chk
        if not chk.must(field in self.fields, "C03.field", self.q, f"{path!r} of {self.cls.name} is read into {field}, which it does not have"):
            return
        owner, ann = self.fields[field]
        classes, known = converted(chk, owner.module, ann, self.unions)
        names = [tail(c) for c in classes]
        text = ast.unparse(ann)
        if want is None or want not in {tail(c) for c in chk.program.classes if is_dap(chk, c) or chk.program.is_enum(c)}:
            chk.must(not classes, "C03.type", self.q, f"{field} of {self.cls.name} is not a {names} in the protocol")
            return
        chk.must(names == [want], "C03.type", self.q, f"{field} of {self.cls.name} is {text}, the protocol has a {want}")
        chk.must(known, "C03.type", self.q, f"the type {text} of {field} of {self.cls.name} is not one that is converted when it is read")
        used = {n.id for n in ast.walk(ann) if isinstance(n, ast.Name)} & typing_only(owner.module)
        chk.must(not used, "C03.type", self.q, f"{used} is not there when {field} of {self.cls.name} is read")

    def complete(self) -> None:
        """Every field is sent under exactly one key."""
        chk = self.chk
        used: dict[str, list] = {}
        for at, field in leaves(self.mapping):
            used.setdefault(field, []).append(".".join(at))
        mine = self.hand_made()
        for field in self.fields:
            n = used.get(field, [])
            chk.must(n or field in mine, "C03.lost", self.q, f"{field} of {self.cls.name} is never read or written")
            chk.must(len(n) <= 1, "C03.twice", self.q, f"{field} of {self.cls.name} is sent as {n}")
        chk.must(self.cls.is_dataclass or not self.cls.annots, "C03.field", self.q, f"{self.cls.name} declares fields and is no dataclass")

    def part(self, name: str, protocol: dict | str, head: set[str]) -> None:
        """The keys of a message outside and inside of its arguments or body."""
        chk = self.chk
        for key, info in self.mapping.items():
            if key in head:
                if chk.must(isinstance(info, str), "C03.key", self.q, f"{key!r} of {self.cls.name} is one value in the protocol"):
                    want = {"type": "messagetype"}.get(key, squeeze(key))
                    chk.must(squeeze(info) == want, "C03.swap", self.q, f"{info} of {self.cls.name} is sent as {key!r}")
            elif chk.must(key == name, "C03.key", self.q, f"the protocol has no {key!r} in {self.cls.name}"):
                if isinstance(protocol, str):
                    if isinstance(info, dict):
                        self.keys(spec.TYPES[protocol], (name,), info)
                    else:
                        self.holds(name, info, protocol)
                elif chk.must(isinstance(info, dict), "C03.key", self.q, f"{name!r} of {self.cls.name} is an object"):
                    self.keys(protocol, (name,), info)


def declared(chk: Check, consts: Consts, cls: ClassInfo, attr: str, enum: str) -> Member | None:
    """The member of an enumeration a message class is for, as the registry takes it from its body."""
    if attr not in cls.assigns or attr in cls.annots:
        return None
    try:
        v = consts.value(cls.module, cls.assigns[attr])
    except Unknown:
        return None
    return v if isinstance(v, Member) and v.owner == enum else None


def camel(name: str) -> str:
    return name[:1].lower() + name[1:]


def message_classes(chk: Check, base: str) -> list[str]:
    root = f"{MESSAGES}.{base}"
    return sorted(q for q in chk.program.subclasses(root) if q != root)


def kind_of(chk: Check, consts: Consts, base: str, value: str) -> None:
    """The type of a kind of message."""
    found = chk.program.find_class_assign(f"{MESSAGES}.{base}", "message_type")
    v = None
    if found:
        try:
            v = consts.value(found[0].module, found[1])
        except Unknown:
            pass
    chk.must(isinstance(v, Member) and v.value == value, "C03.kind", f"{MESSAGES}.{base}", f"the messages of {base} do not have the type {value!r}")


def requests(chk: Check, consts: Consts, base: str, name: str, table: dict, head: set[str]) -> tuple[dict[str, str], int]:
    by_command: dict[str, str] = {}
    enum, attr = (f"{MESSAGES}.EventType", "event") if base == "Event" else (f"{MESSAGES}.Command", "command")
    for q in message_classes(chk, base):
        w = Wire(chk, consts, q)
        m = declared(chk, consts, w.cls, attr, enum)
        if m is None and base == "Response" and squeeze(w.cls.name) == "errorresponse":
            # Any command: it is given to the constructor and a failure is all it says.
            w.part(name, spec.ERROR_BODY, head)
            w.complete()
            by_command["error"] = q
            continue
        if not chk.must(m is not None, "C03.command", q, f"{w.cls.name} does not say which {attr} it is for"):
            continue
        value = str(m.value)
        chk.must(squeeze(w.cls.name) == squeeze(value) + base.lower(), "C03.command", q, f"{w.cls.name} is sent as {value!r}")
        chk.must(value not in by_command, "C03.command", q, f"{value!r} is sent by {w.cls.name} and {by_command.get(value)}")
        by_command[value] = q
        if value in table:
            w.part(name, table[value], head)
        else:
            chk.must(False, "C03.command", q, f"{w.cls.name}: the protocol has no {value!r}")
        w.complete()
    return by_command, len(by_command)


def roots(chk: Check, consts: Consts) -> None:
    """The fields that all messages have."""
    for base, head in (("ProtocolMessage", spec.HEAD), ("Request", spec.REQUEST_HEAD), ("Response", spec.RESPONSE_HEAD), ("Event", spec.EVENT_HEAD)):
        w = Wire(chk, consts, f"{MESSAGES}.{base}")
        w.part("", {}, head)
        w.complete()
        typed = {"type": "MessageType", "command": "Command", "event": "EventType"}
        for key, field in w.mapping.items():
            if isinstance(field, str):
                w.holds(key, field, typed.get(key))


def c03(chk: Check) -> None:
    """The declared mappings against a table of the protocol: keys, places, types, completeness and enumerated words.

    The table of the protocol in sa/dap_protocol.py is right.
    """
    consts = Consts(chk)
    commands = enum_values(chk, consts, f"{MESSAGES}.Command", set(spec.REQUESTS), "C03.words")
    events = enum_values(chk, consts, f"{MESSAGES}.EventType", set(spec.EVENTS), "C03.words")
    enum_values(chk, consts, f"{MESSAGES}.MessageType", spec.MESSAGE_TYPES, "C03.words")
    reasons = [q for q in chk.program.classes if q.startswith("ansibug.dap.") and tail(q) == "StoppedReason"]
    for q in reasons:
        enum_values(chk, consts, q, spec.STOPPED_REASONS, "C03.words")
    chk.floor(len(reasons), 1, "enumerations of stop reasons")
    roots(chk, consts)
    for base in ("Request", "Response", "Event"):
        kind_of(chk, consts, base, base.lower())
    reqs, n = requests(chk, consts, "Request", "arguments", spec.REQUESTS, spec.REQUEST_HEAD)
    chk.floor(n, 15, "requests")
    resps, n = requests(chk, consts, "Response", "body", spec.RESPONSES, spec.RESPONSE_HEAD)
    chk.floor(n, 15, "responses")
    evs, n = requests(chk, consts, "Event", "body", spec.EVENTS, spec.EVENT_HEAD)
    chk.floor(n, 6, "events")
    for name, value in commands.items():
        chk.must(value in reqs and value in resps, "C03.command", f"{MESSAGES}.Command", f"{name} has not both a request and a response")
    failing(chk, consts, resps)
    n = 0
    for q in sorted(chk.program.classes):
        if not is_dap(chk, q) or PROTOCOL in chk.program.mro(q):
            continue
        w = Wire(chk, consts, q)
        if chk.must(w.cls.name in spec.TYPES, "C03.key", q, f"the protocol has no {w.cls.name}"):
            w.keys(spec.TYPES[w.cls.name], (), w.mapping)
        w.complete()
        n += 1
    chk.floor(n, 12, "types")


def failing(chk: Check, consts: Consts, resps: dict[str, str]) -> None:
    """An error says so, every other response says it succeeded."""
    for name, q in resps.items():
        found = chk.program.find_class_assign(q, "success")
        default = None
        if found:
            e = found[1]
            for kw in e.keywords if isinstance(e, ast.Call) else []:
                e = kw.value if kw.arg == "default" else e
            try:
                default = consts.value(found[0].module, e)
            except Unknown:
                pass
        chk.must(default is (name != "error"), "C03.success", q, f"the success of {tail(q)} is {default} unless it is set")
    chk.must("error" in resps, "C03.success", MESSAGES, "there is no error response")


# --- C04 -----------------------------------------------------------------------
REGISTRY = "REGISTRY"


def lookup(x) -> tuple[T, T] | None:
    """The container and key of x[k] and x.get(k)."""
    x = plain(x)
    if not isinstance(x, T):
        return None
    if x.k == "item":
        return x.a[0], x.a[1]
    if is_op(x, "get"):
        return x.a[1], x.a[2]
    return None


def is_const(x, v: object) -> bool:
    return isinstance(x, T) and x.k == "const" and type(x.a[0]) is type(v) and x.a[0] == v


def key_of(x, base: T, key: str) -> bool:
    f = lookup(x)
    return f is not None and f[0] is plain(base) and is_const(f[1], key)


def full(chk: Check, q: str, mode: str = "try", **kw) -> list[Path]:
    """All the paths of a function with all they depend on."""
    return chk.walk(q, raise_mode=mode, **kw)


def dispatch(chk: Check) -> int:
    """An incoming message is unpacked by what is registered under its type and its command or event."""
    q = f"{PROTOCOL}.unpack"
    data = mk("param", "data")
    rets = 0
    for p in full(chk, q):
        if p.flow == "raise":
            chk.must(tail(str(p.exc)) in ("ValueError", "KeyError"), "C04.unknown", q, f"a message is refused with {p.exc}", p)
            continue
        if p.flow != "ret" or any("fields(" in show(e.recv) for e in p.events if e.kind == "loopzero" and e.recv is not None):
            continue
        rets += 1
        v = plain(p.value) if p.value is not None else None
        if not chk.must(isinstance(v, T) and v.k == "call" and [plain(x) for x in v.a[2]] == [data], "C04.type", q, "a message does not become what its unpacking returns", p):
            continue
        func = v.a[1] if v.a[1] is not None else glob(v.a[0])
        entry = lookup(func)
        kinds = lookup(entry[0]) if entry else None
        ok = entry is not None and kinds is not None and attr_path(kinds[0])[1][-1:] in ([REGISTRY], []) and tail_of(kinds[0]) == REGISTRY
        if not chk.must(ok and key_of(kinds[1], data, "type"), "C04.type", q, "a message is not unpacked by what its type is registered with", p):
            continue
        possible = [w for w in spec.MESSAGE_TYPES if fact_eq(p.pc, lambda x: key_of(x, data, "type"), lambda x, w=w: is_const(x, w)) is True]
        possible = possible or [w for w in spec.MESSAGE_TYPES if fact_eq(p.pc, lambda x: key_of(x, data, "type"), lambda x, w=w: is_const(x, w)) is not False]
        for w in sorted(possible):
            if w == "response":
                good = success(p, data)
                chk.must(good is not None, "C04.failure", q, "a response is unpacked without a look at its success", p)
                right = is_const(entry[1], "error") if good is False else key_of(entry[1], data, "command")
                chk.must(right, "C04.failure", q, f"a response with success {good} is unpacked as {show(entry[1])}", p)
            else:
                attr = "command" if w == "request" else "event"
                chk.must(key_of(entry[1], data, attr), "C04.type", q, f"the {w} is unpacked by its {show(entry[1])}", p)
        f = plain(func)
        chk.must(not (is_op(f, "get") and len(f.a) > 3 and isinstance(f.a[3], T) and f.a[3] is not NONE), "C04.unknown", q, "an unknown name is unpacked as something else", p)
        known = f.k == "item" or truth_of(p.pc, func) is True or none_of(p.pc, func) is False or in_fact(p.pc, entry[1], entry[0])
        chk.must(known, "C04.unknown", q, "an unknown name is not refused", p)
    return rets


def tail_of(x) -> str:
    x = unver(x)
    if isinstance(x, T) and x.k == "attr":
        return x.a[1]
    return tail(x.a[0]) if isinstance(x, T) and x.k == "glob" else ""


def in_fact(pc: dict, key, container) -> bool:
    return any(v and is_op(k, "in") and plain(k.a[1]) is plain(key) and plain(k.a[2]) is plain(container) for k, v in pc.items())


def success(p: Path, data: T) -> bool | None:
    for k, v in p.pc.items():
        for x in walk_term(k):
            if key_of(x, data, "success"):
                return truth_of(p.pc, x)
    return None


def role(x) -> object:
    """Which part of the pending work a container is: both parts come from one element of the work list, or are parameters."""
    x = unver(x)
    if isinstance(x, T) and x.k == "item" and isinstance(x.a[1], T) and x.a[1].k == "const":
        return x.a[1].a[0]
    if isinstance(x, T) and x.k == "param":
        return x.a[0]
    return "top"


def inside(p: Path, loop: Ev) -> list[Ev]:
    """What happens in the iteration of a loop."""
    i = p.index(loop)
    end = next((j for j, e in enumerate(p.events) if j > i and e.kind in ("loopend", "loopbreak") and e.node is loop.node), len(p.events))
    return p.events[i + 1 : end]


def handed_on(events: list[Ev], x: T) -> list[tuple[Ev, list[T]]]:
    """The calls that are given a value, alone or in a tuple, with all they are given."""
    res = []
    for e in events:
        if e.kind not in ("call", "enter"):
            continue
        given = list(e.args) + list(e.kwargs.values())
        for a in list(given):
            u = unver(a)
            if isinstance(u, T) and u.k == "tuple":
                given += u.a
        given = [plain(g) for g in given]
        if any(g is x for g in given):
            res.append((e, given))
    return res


def is_mapping(pc: dict, info: T) -> bool | None:
    r = isa_of(pc, info, "dict")
    if r is None:
        r = isa_of(pc, info, "Mapping")
    if r is None:
        r = isa_of(pc, info, "str")
        r = None if r is None else not r
    return r


def reads_field(x, owner: T, info: T) -> bool:
    x = plain(x)
    return is_op(x, "getattr") and plain(x.a[1]) is owner and plain(x.a[2]) is info


def ended(p: Path, loop: Ev) -> bool:
    return any(e.kind in ("loopend", "loopbreak") and e.node is loop.node for e in after(p, loop))


def drained(chk: Check, paths: list[Path], q: str, rule: str) -> None:
    """The work is only over when nothing is left of it."""
    for p in paths:
        if p.flow == "ret":
            for loop, _ in main_loops(p):
                chk.must(ended(p, loop), rule, loop, "a loop over the keys ends before all of them were looked at", p)
        for e in p.events:
            if e.kind == "loopbreak":
                empty = [x for x in before(p, e) if x.kind == "caught" and tail(x.callee) in ("Empty", "IndexError", "KeyError")]
                over = bool(empty) or any(is_op(plain(k), "truthy") and not v and isinstance(plain(k).a[1], T) and plain(k).a[1].k in ("lit", "new") for k, v in p.pc.items()) or any(v and "empty" in show(k) for k, v in p.pc.items())
                chk.must(over and e.callee == "while", rule, e, "a loop over the keys ends before all of them were looked at", p)


def main_loops(p: Path, skip=()) -> list[tuple[Ev, T]]:
    res = []
    for e in p.events:
        if e.kind == "loop" and e.callee == "for" and e.recv is not None:
            b = base_of(e.recv)
            if isinstance(b, T) and not any(s in show(b) for s in skip):
                res.append((e, b))
    return res


def key_in(p: Path, events: list[Ev], base: T) -> T | None:
    """The key an iteration is for."""
    for src in [*p.pc, *[a for e in events for a in [e.recv, *e.args, *e.kwargs.values()] if isinstance(a, T)]]:
        for x in walk_term(plain(src)):
            if x.k == "elem" and x.a[0] is base:
                return x
    return None


def packing(chk: Check) -> int:
    """Each leaf of a mapping gets the value of its field, each part of it is worked off with its own part of the result."""
    q = f"{META}.default_pack"
    paths = full(chk, q)
    drained(chk, paths, q, "C04.pack")
    owner = mk("param", "self")
    n = 0
    for p in paths:
        if p.flow == "ret":
            v = plain(p.value) if p.value is not None else NONE
            chk.must(v.k in ("lit", "new", "call"), "C04.pack", q, f"{show(v)[:60]} is returned, not what was filled in", p)
        for loop, base in main_loops(p):
            body = inside(p, loop)
            key = key_in(p, body, base)
            n += 1
            if not chk.must(key is not None, "C04.pack", loop, "nothing is done with a key", p):
                continue
            info = mk("item", base, key)
            writes = [e for e in body if e.kind == "setitem" and plain(e.args[0]) is key]
            if fact_eq(p.pc, lambda x: plain(x) is key, lambda x: is_const(x, "__types")) is True:
                chk.must(not writes, "C04.pack", loop, "the cached types are packed", p)
                continue
            nested = is_mapping(p.pc, info)
            if nested is None:
                chk.must(False, "C04.pack", loop, "a key is packed without a look at what it stands for", p)
            elif nested:
                on = handed_on(body, info)
                made = [mk_result(e) for e in body if e.kind == "call" and e.name == "setdefault" and e.args and plain(e.args[0]) is key and paired(e.recv, base)]
                made += [plain(e.args[1]) for e in writes if paired(e.recv, base)]
                ok = any(any(m is g for g in given for m in made) or any(mentions(m, info) and m.k == "call" for m in made) for _, given in on)
                chk.must(ok, "C04.pack", loop, "a part of the mapping is not packed into its own part of the result", p)
            else:
                ok = len(writes) == 1 and reads_field(writes[0].args[1], owner, info) and paired(writes[0].recv, base)
                chk.must(ok, "C04.pack", loop, f"a key is not given the value of its field: {[show(e.args[1])[:60] for e in writes]}", p)
    return n


def flat(e: Ev) -> list[T]:
    res = []
    for a in [*e.args, *e.kwargs.values()]:
        u = unver(a)
        res += u.a if isinstance(u, T) and u.k == "tuple" else [a]
    return res


def mk_result(e: Ev) -> T:
    return plain(e.res) if e.res is not None else NONE


def paired(x, base: T) -> bool:
    """Both are parts of the same piece of work, not the same part."""
    x, base = plain(x), plain(base)
    if x is base:
        return False
    if x.k == "item" and base.k == "item" and x.a[0] is base.a[0]:
        return x.a[1] is not base.a[1]
    return x.k != "item" or base.k != "item"


class Reading:
    """The loop over the values that are there, on all paths."""

    def __init__(self, chk: Check, q: str) -> None:
        self.chk, self.q = chk, q
        self.paths = full(chk, q, opaque=[f"{MESSAGES}._parse_field_type"])
        self.cls, self.data = mk("param", "self"), mk("param", "data")
        self.loops: list[tuple[Path, Ev, T, list[Ev]]] = []
        for p in self.paths:
            made = [e for e in p.events if e.kind == "call" and "**" in e.kwargs]
            for loop, base in main_loops(p, ("__mro__", "fields(", "__dataclass_fields__")):
                if any(o is not loop and p.index(o) < p.index(loop) and not any(x.kind == "loopend" and x.node is o.node for x in p.events[: p.index(loop)]) for o, _ in main_loops(p)):
                    continue  # inside of another
                if any("fields(" in show(e.recv) for e in p.events if e.kind == "loopzero" and e.recv is not None):
                    continue  # a message without fields has nothing to read
                if p.flow == "loop" and not ended(p, loop):
                    continue  # an iteration of a loop inside of this one
                if not any(p.index(m) < p.index(loop) for m in made):
                    self.loops.append((p, loop, base, inside(p, loop)))
        self.mappings = {role(f[0]) for p, loop, base, body in self.loops for e in self.stores(body) for f in [lookup(e.args[0])] if f}

    def stores(self, body: list[Ev]) -> list[Ev]:
        return [e for e in body if e.kind == "setitem" and e.recv is not None and unver(e.recv).k in ("lit", "new") and lookup(e.args[0]) is not None and "fields(" not in show(e.args[0])]

    def left_out(self, p: Path, key: T) -> bool:
        """Only what is not in the mapping, or null, is left out."""
        for k, v in p.pc.items():
            x = plain(k)
            if is_op(x, "in") and x.a[1] is key and not v:
                return True
            if is_op(x, "isnone") and v:
                f = lookup(x.a[1])
                if f is not None and f[1] is key:
                    return True
            if is_op(x, "truthy") and not v:
                f = lookup(x.a[1])
                if f is not None and f[1] is key and role(f[0]) in self.mappings:
                    return True
        return False

    def value_ok(self, p: Path, v: T, value: T, func_of: T) -> str | None:
        """What is wrong with what a field is set to."""
        v = plain(v)
        is_list = isa_of(p.pc, value, "list")
        if is_list is None and not (v.k == "call" and v.a[0] == "?"):
            known = v is value and self.unconverted(p, func_of)
            return None if known else "is set without a look at whether it is a list"
        if is_list is None:
            return "of a list is converted as a whole"
        if not is_list:
            return self.one(p, v, value, func_of)
        if is_op(v, "list") and v.a[1] is value or v is value:
            return None if self.unconverted(p, func_of) else "of a list is not converted"
        made = listing(p, v)
        if made and not made[1] and any(base_of(e.recv) is value for e in made[2]):
            return None  # the list is empty
        if made is None or len(made[1]) > 1 or [plain(b) for b in made[0]] != [value]:
            return "is not made of all the values of the list"
        if not made[1]:
            return None
        x = plain(made[1][0])
        item = x.a[2][0] if x.k == "call" and len(x.a[2]) == 1 else x
        if not elem_of(item, value):
            return "is not made of the values of the list"
        return self.one(p, x, item, func_of)

    def unconverted(self, p: Path, func_of: T) -> bool:
        """The type of the field is none that values are converted to."""
        for k, v in p.pc.items():
            x = plain(k)
            if is_op(x, "truthy", "isnone") and v == (x.a[0] == "isnone") and func_of in walk_term(x.a[1]):
                return True
        return False

    def one(self, p: Path, v: T, value: T, func_of: T) -> str | None:
        if v is value:
            return None if self.unconverted(p, func_of) else "is not converted"
        if v.k == "call" and v.a[0] == "?" and isinstance(v.a[1], T) and func_of in walk_term(v.a[1]) and [plain(x) for x in v.a[2]] == [value]:
            return None
        return f"becomes {show(v)[:80]}"


def reading(chk: Check) -> int:
    """Each value that is there ends up converted in the field its key stands for."""
    q = f"{META}.default_unpack"
    r = Reading(chk, q)
    drained(chk, r.paths, q, "C04.unpack")
    n = 0
    dests: dict[object, set[str]] = {}
    for p, loop, base, body in r.loops:
        n += 1
        key = key_in(p, body, base)
        if not chk.must(key is not None, "C04.unpack", loop, "nothing is done with a key", p):
            continue
        stores = r.stores(body)
        pushed = [(e, given, f) for e in body if e.kind in ("call", "enter") for given in [[plain(x) for x in flat(e)]] for f in [[lookup(g) for g in given]] if len([x for x in f if x and x[1] is key]) == 2]
        if not stores and not pushed:
            chk.must(r.left_out(p, key), "C04.unpack", loop, "a value that is mapped and not null is left out", p)
            continue
        if pushed:
            info, value = pushed[0][1][0], pushed[0][1][1]
            ok = any(is_mapping(p.pc, x) for x in (info, value)) and lookup(info)[0] is not lookup(value)[0]
            chk.must(ok and not stores, "C04.unpack", pushed[0][0], "a value that stands for a field is unpacked as a part of the message", p)
            continue
        e = stores[-1]
        f = lookup(e.args[0])
        ok = len(stores) == 1 and f[1] is key
        if not chk.must(ok, "C04.unpack", e, "a value is set in a field its key does not stand for", p):
            continue
        field = plain(e.args[0])
        chk.must(is_mapping(p.pc, field) is False, "C04.unpack", e, "a part of the message is set as a field", p)
        value = read_value(p, body, key, f[0], base)
        if not chk.must(value is not None, "C04.unpack", e, "the value of a field is not the one of its key", p):
            continue
        wrong = r.value_ok(p, e.args[1], value, field)
        chk.must(wrong is None, "C04.convert", e, f"the value of a field {wrong}", p)
        chk.must(not nulls(p, value), "C04.unpack", e, "", p)
        func = called_with(e.args[1])
        init = [v for k, v in p.pc.items() for x in [plain(k)] if is_op(x, "truthy") and field in walk_term(x) and x.a[1] is not func and x.a[1] is not value and not second(x.a[1])]
        dests.setdefault(init[0] if init else None, set()).add(show(e.recv))
    chk.floor(n, 6, "iterations over the values of a message")
    chk.must(set(dests) == {True, False}, "C04.fields", q, "a field that is no argument of the constructor is not told from one that is")
    constructed(chk, r, dests)
    return n


def called_with(v) -> T | None:
    """The function a value went through."""
    for x in walk_term(plain(v)):
        if x.k == "call" and x.a[0] == "?":
            return x.a[1]
    return None


def second(x: T) -> bool:
    return x.k == "item" and is_const(x.a[1], 1)


def constructed(chk: Check, r: Reading, dests: dict) -> None:
    """The object is made of the arguments that were found and all the other values are set on it."""
    loops = rets = 0
    for p in r.paths:
        if p.flow != "ret" or any("fields(" in show(e.recv) for e in p.events if e.kind == "loopzero" and e.recv is not None):
            continue
        rets += 1
        made = [e for e in p.events if e.kind in ("call", "new") and "**" in e.kwargs and e.recv is not None and plain(e.recv) is r.cls]
        ok = len(made) == 1 and p.value is not None and same(p.value, made[0].res)
        if not chk.must(ok, "C04.fields", r.q, "what is returned is not an object made of the values", p):
            continue
        chk.must(show(unver(made[0].kwargs["**"])) in dests.get(True, ()), "C04.fields", made[0], "the object is not made of the values for its constructor", p)
        later = [(e, b) for e, b in main_loops(p) if p.index(e) > p.index(made[0]) and show(b) in dests.get(False, ())]
        zero = [e for e in after(p, made[0]) if e.kind == "loopzero" and show(base_of(e.recv)) in dests.get(False, ())]
        chk.must(later or zero, "C04.fields", made[0], "the values that are no arguments of the constructor are not set", p)
        for e, b in later:
            loops += 1
            body = inside(p, e)
            key = key_in(p, body, b)
            done = [x for x in body if x.kind in ("call", "setattr") and tail(x.callee) in ("__setattr__", "setattr") or x.kind == "setattr"]
            good = [x for x in done if key is not None and [y for y in map(plain, flat(x)) if y is key] and mk("item", b, key) in [plain(y) for y in x.args]]
            chk.must(good, "C04.fields", e, "a value that is no argument of the constructor is not set", p)
    chk.floor(rets, 1, "returns of the unpacking")
    chk.floor(loops, 1, "loops over the values to set")


def field_types(chk: Check) -> int:
    """What is kept of every field: whether the constructor takes it and what its declared type converts with."""
    q = f"{META}.default_unpack"
    n = 0
    for p in full(chk, q, opaque=[f"{MESSAGES}._parse_field_type"]):
        for loop in [e for e in p.events if e.kind == "loop" and e.recv is not None and "fields(" in show(base_of(e.recv)) and e.callee in ("for", "comprehension")]:
            if p.flow == "loop" and not ended(p, loop):
                continue
            n += 1
            body = inside(p, loop)
            kept = [e for e in body if e.kind == "setitem" and plain(e.args[0]).k == "attr" and plain(e.args[0]).a[1] == "name"]
            values = [x for e in kept for x in walk_term(plain(e.args[1]))]
            field = plain(kept[0].args[0]).a[0] if kept else None
            ok = any(x.k == "attr" and x.a[0] is field and x.a[1] == "init" for x in values)
            parsed = [x for x in values if x.k == "call" and tail(x.a[0]) == "_parse_field_type"]
            ok = ok and any(x.k == "attr" and x.a[0] is field and x.a[1] == "type" for c in parsed for x in walk_term(c.a[2]))
            chk.must(ok, "C04.types", loop, "the type of a field is not kept", p)
    return n


# The declared types: what the origin of an annotation is, and what is in it.
def case_of(k: T, evaled: T) -> tuple[str, object] | None:
    """What a condition says about the annotation or about the class in it."""
    k = plain(k)
    x = k.a[1] if is_op(k, "truthy") else k
    args = is_call(x, "get_args")
    if is_op(x, "isa", "issubclass"):
        subject = x.a[1]
        who = "ann" if subject is evaled else "arg" if inner(subject, evaled) else None
        cls = tail(x.a[2].a[0]) if x.a[2].k == "glob" else None
        return (f"{who}.{cls}", None) if who and cls else None
    if is_op(x, "eq"):
        a, b = x.a[1], x.a[2]
        for u, w in ((a, b), (b, a)):
            if is_call(u, "get_origin"):
                return ("origin", tail(w.a[0]) if w.k == "glob" else show(w))
            if is_op(u, "len") and is_call(u.a[1], "get_args") and w.k == "const":
                return ("count", w.a[0])
    if is_op(x, "in") and is_call(x.a[2], "get_args"):
        return ("optional", None)
    if is_op(x, "in") and is_call(x.a[1], "get_origin"):
        return ("origins", x.a[2])
    if is_op(k, "truthy", "isnone") and not args:
        subject = k.a[1]
        if subject is evaled or inner(subject, evaled) or subject.k == "attr" and subject.a[1] == "unpack":
            return ("there", k.a[0] == "isnone")
    return None


def is_call(x, name: str) -> bool:
    return isinstance(x, T) and x.k in ("call", "op") and tail(str(x.a[0])) == name


def inner(x: T, evaled: T) -> bool:
    f = lookup(x)
    return f is not None and is_call(f[0], "get_args") and is_const(f[1], 0)


SHAPES = {
    "T": {"ann.type": True, "origin": None},
    "Optional[T]": {"ann.type": False, "origin": "Union", "count": 2, "optional": True},
    "List[T]": {"ann.type": False, "origin": "list", "count": 1, "optional": False},
}
KINDS = {
    "an enumeration": {"type": True, "Enum": True, "DAPObjectMeta": False},
    "an object": {"type": True, "Enum": False, "DAPObjectMeta": True},
    "anything else": {"type": True, "Enum": False, "DAPObjectMeta": False},
}


def agrees(p: Path, shape: str, kind: str, evaled: T) -> bool:
    """Whether a path can be taken for a shape of annotation of a kind of class."""
    facts = SHAPES[shape]
    who = "ann" if shape == "T" else "arg"
    for k, v in p.pc.items():
        c = case_of(k, evaled)
        if c is None:
            continue
        name, arg = c
        if name == "origin":
            if (facts["origin"] == arg) != v:
                return False
        elif name == "count":
            if "count" in facts and (facts["count"] == arg) != v:
                return False
        elif name == "optional":
            if "optional" in facts and facts["optional"] != v:
                return False
        elif name == "there":
            if v == arg:
                return False
        elif name.startswith(f"{who}."):
            cls = name.split(".")[1]
            if shape != "T" or cls != "type":
                if cls in KINDS[kind] and KINDS[kind][cls] != v:
                    return False
            elif facts["ann.type"] != v:
                return False
        elif name == "ann.type" and facts["ann.type"] != v:
            return False
    return True


def parsing(chk: Check) -> int:
    """The function a value is converted with, for every shape of annotation and kind of class."""
    q = f"{MESSAGES}._parse_field_type"
    paths = full(chk, q)
    n = 0
    for shape in SHAPES:
        for kind in KINDS:
            got = 0
            for p in paths:
                if p.flow != "ret":
                    continue
                evaled = next((plain(e.res) for e in p.events if e.kind == "call" and tail(e.callee) in ("eval", "get_type_hints")), None)
                if evaled is None:
                    raise AnalysisError(f"{q} does not evaluate the annotation")
                if not agrees(p, shape, kind, evaled):
                    continue
                got += 1
                v = plain(p.value) if p.value is not None else NONE
                cls = (lambda x: x is evaled) if shape == "T" else (lambda x: inner(x, evaled))
                if kind == "an enumeration":
                    ok = cls(v)
                elif kind == "an object":
                    ok = v.k == "attr" and v.a[1] == "unpack" and cls(v.a[0]) or is_op(v, "getattr") and cls(v.a[1]) and is_const(v.a[2], "unpack")
                else:
                    ok = v is NONE
                chk.must(ok, "C04.types", q, f"the values of a {shape} that is {kind} are converted with {show(v)[-60:]}", p)
                n += 1
            chk.must(got, "C04.types", q, f"a {shape} that is {kind} is never looked at")
    return n
def nulls(p: Path, value: T) -> bool:
    return none_of(p.pc, value) is True


def read_value(p: Path, body: list[Ev], key: T, mapping: T, base: T) -> T | None:
    """The term of body[key]."""
    src = [*p.pc, *[a for e in body for a in [*e.args, *e.kwargs.values()] if isinstance(a, T)]]
    for x in src:
        for y in walk_term(plain(x)):
            f = lookup(y)
            if f is not None and f[1] is key and f[0] is not plain(mapping) and (f[0] is base or plain(mapping) is base):
                return y
    return None


# The registry.
def kind_word(x) -> str | None:
    """Which kind of message the name of a base class stands for."""
    text = show(x).lower()
    found = [w for w in spec.MESSAGE_TYPES if w in text]
    return found[0] if len(found) == 1 else None


def not_a_root(s) -> None:
    """Anything but the base classes of the kinds of messages, which are there already."""
    pc = dict(s.pc)
    for n in ("Event", "Request", "Response"):
        for a, b in ((mk("param", "name"), const(n)), (const(n), mk("param", "name"))):
            pc[mk("op", "eq", a, b)] = False
    s.pc = pc


def registered_at(e: Ev) -> str | None:
    f = lookup(e.recv)
    if f is None or tail_of(f[0]) != REGISTRY or not (f[1].k == "const" and isinstance(f[1].a[0], str)):
        return None
    return f[1].a[0]


def named_in(x, attr: str | None = None) -> str | None:
    """namespace[attr]"""
    f = lookup(x)
    if f is not None and f[0] is mk("param", "namespace") and f[1].k == "const":
        return f[1].a[0] if attr is None or f[1].a[0] == attr else None
    return None


def explained(p: Path, cls: T, kind: str) -> bool:
    """A class that is not registered is no message of a kind, or does not say which it is for."""
    attr = "event" if kind == "event" else "command"
    mine = False
    for k, v in p.pc.items():
        x = plain(k)
        y = x.a[1] if is_op(x, "truthy") else x
        if is_op(y, "issubclass") and y.a[1] is cls and kind_word(y.a[2]) == kind:
            if not v:
                return True
            mine = True
        if is_op(x, "eq") and cls in x.a[1:] and v and kind_word(x.a[2] if x.a[1] is cls else x.a[1]) == kind:
            return True
        if is_op(x, "truthy") and not v and kind_word(x.a[1]) == kind and x.a[1].k in ("attr", "glob"):
            return True
        if is_op(x, "isnone") and v and kind_word(x.a[1]) == kind and x.a[1].k in ("attr", "glob"):
            return True
        if kind != "response":
            if is_op(x, "truthy") and not v and named_in(x.a[1], attr) or is_op(x, "isa") and not v and named_in(x.a[1], attr):
                return True
            if is_op(x, "isnone") and v and named_in(x.a[1], attr):
                return True
            if is_op(x, "in") and not v and is_const(x.a[1], attr):
                return True
    return False


def registering(chk: Check) -> int:
    """Each message class is registered under its kind and its command or event, with its own unpacking if it has one."""
    q = f"{META}.__new__"
    attrs = ("_dap", "pack", "unpack")
    paths = slim(chk, q, mode="try", attrs=attrs, pred=lambda e: e.kind == "setitem", pins=("issubclass", "isa", "eq", "get"), init=not_a_root)
    n = 0
    for p in returns(paths):
        cls = plain(p.value) if p.value is not None else NONE
        own = next((v for k, v in p.pc.items() for x in [plain(k)] if is_op(x, "truthy") and named_in(x.a[1], "unpack")), None)
        if own is None:
            own = next((v for k, v in p.pc.items() if is_op(k, "in") and is_const(k.a[1], "unpack")), None)
        unpackers = [e for e in p.events if e.kind == "setattr" and e.callee == "unpack"]
        packers = [e for e in p.events if e.kind == "setattr" and e.callee == "pack"]
        maps = [e for e in p.events if e.kind == "setattr" and e.callee == "_dap"]
        chk.must(maps and plain(maps[0].recv) is cls, "C04.registry", q, "a class is left without its mapping", p)
        has = next((v for k, v in p.pc.items() if is_op(k, "in") and is_const(k.a[1], "pack")), None)
        chk.must(len(packers) == (0 if has else 1), "C04.registry", q, f"a class that has {'its own' if has else 'no'} pack gets {len(packers)} others", p)
        for e in packers:
            chk.must(tail_of(e.args[0]) == "default_pack" or tail(show(e.args[0])) == "default_pack", "C04.registry", e, "a class gets another pack", p)
        chk.must(own is None or len(unpackers) == (0 if own else 1), "C04.registry", q, f"a class that has {'its own' if own else 'no'} unpack gets {len(unpackers)} others", p)
        for e in unpackers:
            chk.must(unpacks(chk, e.args[0], cls), "C04.registry", e, "the unpack a class gets is not the one for it", p)
        regs = [e for e in p.events if e.kind == "setitem" and registered_at(e)]
        for e in regs:
            n += 1
            kind = registered_at(e)
            attr = "event" if kind == "event" else "command"
            key = plain(e.args[0])
            fits = not any(v is False and is_op(y, "issubclass") and y.a[1] is cls and kind_word(y.a[2]) == kind for k, v in p.pc.items() for x in [plain(k)] for y in [x.a[1] if is_op(x, "truthy") else x])
            some = any(v and is_op(y, "issubclass") and y.a[1] is cls and kind_word(y.a[2]) == kind for k, v in p.pc.items() for x in [plain(k)] for y in [x.a[1] if is_op(x, "truthy") else x])
            chk.must(fits and some, "C04.registry", e, f"a class is registered as a {kind} that is none", p)
            if key.k == "attr" and key.a[1] == "value":
                chk.must(named_in(key.a[0], attr), "C04.registry", e, f"a {kind} is registered under {show(key)}", p)
            elif chk.must(is_const(key, "error") and kind == "response", "C04.registry", e, f"a {kind} is registered under {show(key)}", p):
                given = any(v and is_op(x, "isa") and named_in(x.a[1], "command") for k, v in p.pc.items() for x in [plain(k)])
                chk.must(not given, "C04.registry", e, "the response to a command is registered as the error", p)
            value = plain(e.args[1])
            if own:
                ok = value.k == "attr" and value.a[0] is cls and value.a[1] == "unpack" or is_op(value, "getattr") and value.a[1] is cls and is_const(value.a[2], "unpack")
            else:
                ok = unpacks(chk, e.args[1], cls) or value.k == "attr" and value.a[0] is cls and value.a[1] == "unpack"
            chk.must(ok, "C04.registry", e, f"a {kind} is registered with {show(value)[:60]}", p)
        if not regs:
            for kind in sorted(spec.MESSAGE_TYPES):
                chk.must(explained(p, cls, kind), "C04.registry", q, f"a {kind} is not registered", p)
        chk.must(len(regs) <= 1, "C04.registry", q, "a class is registered more than once", p)
    merged(chk, q)
    return n


def unpacks(chk: Check, x, cls: T) -> bool:
    """A function of the data that is the default unpacking for the class."""
    x = unver(x)
    if is_call(x, "partial"):
        args = x.a[2] if x.k == "call" else x.a[1:]
        return len(args) == 2 and "default_unpack" in show(args[0]) and plain(args[1]) is cls
    if not isinstance(x, T) or x not in chk.closures:
        return False
    node = chk.closures[x][0]
    names = [a.arg for a in node.args.args]
    body = node.body if isinstance(node, ast.Lambda) else next((s.value for s in node.body if isinstance(s, ast.Return)), None)
    if not isinstance(body, ast.Call) or "default_unpack" not in ast.unparse(body.func) or len(names) < 1:
        return False
    given = [ast.unparse(a) for a in [*body.args, *[k.value for k in body.keywords]]]
    return len(given) == 2 and given[0] == "cls" and given[1] == names[0]


def merged(chk: Check, q: str) -> None:
    """The mapping of a class is taken before that of its bases."""
    func = chk.program.func(q)
    n = 0
    for node in ast.walk(func.node):
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr) and "_dap" in ast.unparse(node):
            n += 1
            chk.must("_dap" in ast.unparse(node.left) and "_dap" not in ast.unparse(node.right), "C04.registry", q, "the mapping of a base class wins over the one of the class")
        elif isinstance(node, ast.Dict) and any(k is None for k in node.keys):
            parts = [ast.unparse(v) for v in node.values]
            if any("_dap" in x for x in parts):
                n += 1
                chk.must("_dap" in parts[0] and "_dap" not in parts[-1], "C04.registry", q, "the mapping of a base class wins over the one of the class")
    bases = [x for x in ast.walk(func.node) if "_dap" in ast.unparse(x) and isinstance(x, (ast.Call, ast.Attribute))]
    chk.floor(len(bases), 2, "uses of the mappings of classes")


def encoding(chk: Check) -> int:
    """Objects of the protocol are packed and enumerations are given by their value, wherever they are in a message."""
    n = 0
    for q in sorted(chk.program.functions):
        f = chk.program.find_func(q)
        if f is None or f.cls is None or not q.startswith("ansibug.dap.") or chk.program.is_subclass(f.cls.qual, "json.JSONEncoder") is not True or tail(q) != "default":
            continue
        x = mk("param", f.params[-1].arg)
        for p in full(chk, q, opaque=[f"{META}.default_pack"]):
            if p.flow != "ret":
                continue
            n += 1
            v = plain(p.value) if p.value is not None else NONE
            packed = v.k == "call" and tail(v.a[0]) in ("pack", "default_pack") and (v.a[1] is x or x in v.a[2])
            meta = next((val for k, val in p.pc.items() if is_op(plain(k), "isa") and tail_of(plain(k).a[2]) == "DAPObjectMeta"), None)
            enum = isa_of(p.pc, x, "Enum")
            hasit = next((val for k, val in p.pc.items() for y in [plain(k)] for z in [y.a[1] if is_op(y, "truthy") else y] if is_op(z, "hasattr") and z.a[1] is x), None)
            if meta and hasit is not False:
                chk.must(packed, "C04.encode", q, f"an object becomes {show(v)}", p)
            elif enum:
                chk.must(v.k == "attr" and v.a[0] is x and v.a[1] == "value", "C04.encode", q, f"a word becomes {show(v)}", p)
            else:
                chk.must(packed or enum is False, "C04.encode", q, "an enumeration is not looked for", p)
    dumps = sites(chk.program, [m for m in chk.program.modules if m.startswith("ansibug.dap")], is_call_of("dumps"))
    for f, node in dumps:
        cls = [k for k in node.keywords if k.arg == "cls"]
        chk.must(cls and chk.program.is_subclass(chk.program.resolve_expr(f.module, cls[0].value, None) or "?", "json.JSONEncoder"), "C04.encode", f, "a message is not encoded by the encoder of the protocol")
    chk.floor(len(dumps), 1, "places that encode messages")
    return n


def hand_made(chk: Check) -> int:
    """A class that packs and unpacks itself handles its arguments as a whole, and the keys it knows of one by one."""
    n = 0
    consts = Consts(chk)
    for q in sorted(chk.program.classes):
        cls = chk.program.classes[q]
        if not is_dap(chk, q) or q == PROTOCOL or not ({"pack", "unpack"} & set(cls.methods)):
            continue
        n += 1
        mapping = full_mapping(chk, consts, q)
        own = own_mapping(chk, consts, cls)
        mine = set(Wire(chk, consts, q).fields) - {f for _, f in leaves(mapping)}
        if "unpack" in cls.methods:
            made_by_hand(chk, cls, own, mapping, mine)
        if "pack" in cls.methods:
            packed_by_hand(chk, cls, mine)
    return n


def made_by_hand(chk: Check, cls: ClassInfo, own: dict, mapping: dict, mine: set[str]) -> None:
    q, data = f"{cls.qual}.unpack", mk("param", "data")
    part = next(iter(own), "arguments")
    for p in full(chk, q):
        if p.flow != "ret":
            continue
        new = [e for e in p.events if e.kind == "new" and e.callee == cls.qual]
        if not chk.must(len(new) == 1 and p.value is not None and same(p.value, new[0].res), "C04.own", q, "what is returned is not the message", p):
            continue
        given = {f: e for f, e in kwargs_of(new[0], [x[0] for x in chk.program.dataclass_fields(cls.qual) if x[0] in {*mine, *[f for _, f in leaves(own)]}]).items()}
        copies = copies_of(new[0], given, data, part)
        for at, field in leaves(own):
            v = given.get(field)
            f = lookup(v) if v is not None else None
            ok = f is not None and is_const(f[1], at[-1]) and (key_of(f[0], data, part) or copy_of(f[0], data, part) or f[0] in copies)
            chk.must(ok, "C04.own", q, f"{field} is not what the message has at {'.'.join(at)}", p)
        for field in mine:
            v = given.get(field)
            whole = v is not None and (key_of(v, data, part) or copy_of(v, data, part) or plain(v) in copies)
            chk.must(whole, "C04.own", q, f"{field} is not all of the {part}", p)
        got = [e for e in p.events if (e.kind == "call" and tail(e.callee) in ("__setattr__", "setattr") or e.kind == "setattr")]
        seq = [e for e in got if (e.callee == "seq" or any(is_const(plain(a), "seq") for a in e.args)) and any(key_of(a, data, "seq") for a in e.args)]
        chk.must(seq, "C04.own", q, "the number of the message is lost", p)


def copy_of(v, data: T, part: str) -> bool:
    v = plain(v)
    return is_op(v, "dict", "copy") and key_of(v.a[1], data, part) or v.k == "call" and tail(v.a[0]) in ("dict", "copy", "deepcopy") and any(key_of(x, data, part) for x in [v.a[1], *v.a[2]] if x is not None)


def copies_of(new: Ev, given: dict[str, T], data: T, part: str) -> set[T]:
    """The dictionaries that were made of all of a part of the message."""
    res = set()
    for f, v in given.items():
        o = new.sarg(None, f)
        if isinstance(o, Obj) and o.kind == "dict" and len(o.fields) == 1:
            if any(key_of(x, data, part) for x in walk_term(list(o.fields)[0])):
                res.add(plain(v))
    return res


def packed_by_hand(chk: Check, cls: ClassInfo, mine: set[str]) -> None:
    q = f"{cls.qual}.pack"
    for p in full(chk, q, opaque=[f"{PROTOCOL}.pack", f"{META}.default_pack"]):
        if p.flow != "ret":
            continue
        v = plain(p.value) if p.value is not None else NONE
        base = [e for e in p.events if e.kind == "call" and tail(e.callee) in ("pack", "default_pack")]
        chk.must(base and v is mk_result(base[0]), "C04.own", q, "what is returned is not what the mapping gives", p)
        for field in mine:
            x = mk("attr", mk("param", "self"), field)
            put = [e for e in p.events if e.kind == "call" and e.name == "update" and [plain(a) for a in e.args] == [x] and key_of(e.recv, v, field)]
            put += [e for e in p.events if e.kind == "setitem" and e.recv is not None and plain(e.recv) is v and is_const(plain(e.args[0]), field) and x in walk_term(plain(e.args[1]))]
            put += [e for e in p.events if e.kind == "setitem" and e.recv is not None and plain(e.recv) is v and is_const(plain(e.args[0]), field) and put_over(e, x, v, field)]
            put += [e for e in p.events if e.kind == "loop" and e.recv is not None and base_of(e.recv) is x]
            chk.must(put, "C04.own", q, f"{field} is not packed", p)


def put_over(e: Ev, x: T, v: T, field: str) -> bool:
    """A part of the message is given as what it was, with all of a field over it."""
    o = e.sarg(1, "value")
    if not isinstance(o, Obj) or o.kind != "dict":
        return False
    whole = [k.a[0] for k, _ in o.fields if isinstance(k, T) and k.k == "rest"]
    return any(plain(k) is x for k in whole) and any(key_of(k, v, field) for k in whole)


def c04(chk: Check) -> None:
    """Decision tables over the kinds of values against every path of packing, unpacking, converting and registering.

    The loops over a mapping and over a message see every key of it; json and dataclasses do what they document.
    """
    chk.floor(dispatch(chk), 3, "ways a message is unpacked")
    chk.floor(packing(chk), 2, "iterations over the keys of a mapping")
    chk.floor(reading(chk), 6, "iterations over the values of a message")
    chk.floor(field_types(chk), 1, "iterations over the fields of a class")
    chk.floor(parsing(chk), 9, "shapes of annotations")
    chk.floor(registering(chk), 6, "ways to register a message")
    chk.floor(encoding(chk), 3, "ways to encode a value")
    chk.floor(hand_made(chk), 2, "classes that pack or unpack themselves")
